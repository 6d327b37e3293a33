//! A stand-in for rustls 0.20 that can be executed symbolically.
//!
//! What wruster depends on is kept: `Stream`/`StreamOwned` (stream.rs) and the buffers (vecbuf.rs) are rustls' own
//! code, `complete_io`, `wants_read`, `wants_write`, `read_tls`, `process_new_packets`, `Reader` and `Writer` follow
//! conn.rs line by line, with its limits. What is replaced is the cryptography: a record is
//! `type 3 3 length(2) payload`, application data is masked with 0x5a, and the handshake is
//! client: 22 [1]; server: 22 [2, ...]; client: 22 [20] - after which the server sends a ticket, 22 [4].
#![allow(clippy::all, dead_code, unexpected_cfgs)]
mod conn { pub use crate::{ConnectionCommon, SideData}; }
mod stream;
mod vecbuf;
pub use stream::{Stream, StreamOwned};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::ops::{Deref, DerefMut};
use std::sync::Arc;
use vecbuf::ChunkVecBuffer;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { HandshakeNotComplete, CorruptMessage, InappropriateMessage, AlertReceived, General(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("tls error") } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PrivateKey(pub Vec<u8>);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Certificate(pub Vec<u8>);
impl AsRef<[u8]> for Certificate { fn as_ref(&self) -> &[u8] { &self.0 } }

// ---- connection ---------------------------------------------------------
pub trait SideData {}
const MAX_WIRE: usize = 16384 + 2048 + 5;
const MAX_FRAGMENT: usize = 16384;
const BUFFER_LIMIT: usize = 64 * 1024;
const PLAINTEXT_LIMIT: usize = 16 * 1024;
/// The server's first flight: more than a small socket buffer takes at once.
pub const FLIGHT: usize = 12;
pub const TICKET: usize = 2;
#[derive(Clone, Copy, PartialEq)]
enum Step { Hello, Finished, Traffic }
struct Deframer { buf: Vec<u8>, used: usize, frames: VecDeque<(u8, Vec<u8>)>, desynced: bool }
impl Deframer {
    fn pop(&mut self) -> Result<Option<(u8, Vec<u8>)>, Error> {
        if self.desynced { return Err(Error::CorruptMessage); } else if let Some(m) = self.frames.pop_front() { return Ok(Some(m)); }
        let mut taken = 0;
        loop {
            let b = &self.buf[taken..self.used];
            if b.len() < 5 { break; }
            let len = (b[3] as usize) << 8 | b[4] as usize;
            if !(b[0] >= 20 && b[0] <= 23) || b[1] != 3 || len > MAX_WIRE - 5 { self.desynced = true; return Err(Error::CorruptMessage); }
            if b.len() < 5 + len { break; }
            self.frames.push_back((b[0], b[5..5 + len].to_vec()));
            taken += 5 + len;
        }
        if taken < self.used { self.buf.copy_within(taken..self.used, 0); self.used -= taken; } else { self.used = 0; }
        Ok(self.frames.pop_front())
    }
    fn read(&mut self, rd: &mut dyn io::Read) -> io::Result<usize> {
        if self.used == MAX_WIRE { return Err(io::Error::new(io::ErrorKind::Other, "message buffer full")); }
        let n = rd.read(&mut self.buf[self.used..])?;
        self.used += n;
        Ok(n)
    }
    fn has_pending(&self) -> bool { !self.frames.is_empty() || self.used > 0 }
}
pub struct CommonState {
    may_send_application_data: bool, may_receive_application_data: bool, has_received_close_notify: bool, has_seen_eof: bool,
    received_plaintext: ChunkVecBuffer, sendable_plaintext: ChunkVecBuffer, sendable_tls: ChunkVecBuffer,
}
impl CommonState {
    pub fn wants_write(&self) -> bool { !self.sendable_tls.is_empty() }
    pub fn is_handshaking(&self) -> bool { !(self.may_send_application_data && self.may_receive_application_data) }
    pub fn wants_read(&self) -> bool {
        self.received_plaintext.is_empty() && !self.has_received_close_notify && (self.may_send_application_data || self.sendable_tls.is_empty())
    }
    fn send_record(&mut self, ty: u8, payload: Vec<u8>) {
        let mut v = vec![ty, 3, 3, (payload.len() >> 8) as u8, payload.len() as u8];
        v.extend(payload);
        self.sendable_tls.append(v);
    }
    pub fn send_close_notify(&mut self) { self.send_record(21, vec![0]); }
    fn send_plain(&mut self, data: &[u8], limited: bool) -> usize {
        if !self.may_send_application_data {
            return if limited { self.sendable_plaintext.append_limited_copy(data) } else { self.sendable_plaintext.append(data.to_vec()) };
        }
        let len = if limited { self.sendable_tls.apply_limit(data.len()) } else { data.len() };
        for c in data[..len].chunks(MAX_FRAGMENT) { self.send_record(23, c.iter().map(|b| b ^ 0x5a).collect()); }
        len
    }
    fn start_traffic(&mut self) {
        self.may_receive_application_data = true;
        self.may_send_application_data = true;
        while let Some(buf) = self.sendable_plaintext.pop() { self.send_plain(&buf, false); }
    }
    pub fn write_tls(&mut self, wr: &mut dyn io::Write) -> io::Result<usize> { self.sendable_tls.write_to(wr) }
    fn io_state(&self) -> IoState { IoState { tls_bytes_to_write: self.sendable_tls.len(), plaintext_bytes_to_read: self.received_plaintext.len(), peer_has_closed: self.has_received_close_notify } }
    pub fn set_buffer_limit(&mut self, limit: Option<usize>) { self.sendable_plaintext.set_limit(limit); self.sendable_tls.set_limit(limit); }
}
pub struct IoState { tls_bytes_to_write: usize, plaintext_bytes_to_read: usize, peer_has_closed: bool }
impl IoState {
    pub fn tls_bytes_to_write(&self) -> usize { self.tls_bytes_to_write }
    pub fn plaintext_bytes_to_read(&self) -> usize { self.plaintext_bytes_to_read }
    pub fn peer_has_closed(&self) -> bool { self.peer_has_closed }
}
pub struct ConnectionCommon<S> { state: Result<Step, Error>, common_state: CommonState, deframer: Deframer, data: S }
impl<S> Deref for ConnectionCommon<S> { type Target = CommonState; fn deref(&self) -> &CommonState { &self.common_state } }
impl<S> DerefMut for ConnectionCommon<S> { fn deref_mut(&mut self) -> &mut CommonState { &mut self.common_state } }
pub struct Reader<'a> { received_plaintext: &'a mut ChunkVecBuffer, peer_cleanly_closed: bool, has_seen_eof: bool }
impl<'a> Read for Reader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let len = self.received_plaintext.read(buf)?;
        if len == 0 && !buf.is_empty() {
            match (self.peer_cleanly_closed, self.has_seen_eof) {
                (true, _) => {}
                (false, true) => return Err(io::ErrorKind::UnexpectedEof.into()),
                (false, false) => return Err(io::ErrorKind::WouldBlock.into()),
            }
        }
        Ok(len)
    }
}
pub struct Writer<'a> { sink: &'a mut CommonState }
impl<'a> Write for Writer<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { Ok(self.sink.send_plain(buf, true)) }
    fn flush(&mut self) -> io::Result<()> { while let Some(b) = if self.sink.may_send_application_data { self.sink.sendable_plaintext.pop() } else { None } { self.sink.send_plain(&b, false); } Ok(()) }
}
impl<S: SideData> ConnectionCommon<S> {
    fn new_server(data: S) -> Self {
        ConnectionCommon {
            state: Ok(Step::Hello), data,
            common_state: CommonState { may_send_application_data: false, may_receive_application_data: false, has_received_close_notify: false, has_seen_eof: false, received_plaintext: ChunkVecBuffer::new(Some(PLAINTEXT_LIMIT)), sendable_plaintext: ChunkVecBuffer::new(Some(BUFFER_LIMIT)), sendable_tls: ChunkVecBuffer::new(Some(BUFFER_LIMIT)) },
            deframer: Deframer { buf: vec![0; MAX_WIRE], used: 0, frames: VecDeque::new(), desynced: false },
        }
    }
    pub fn reader(&mut self) -> Reader<'_> {
        Reader { peer_cleanly_closed: self.common_state.has_received_close_notify && !self.deframer.has_pending(), has_seen_eof: self.common_state.has_seen_eof, received_plaintext: &mut self.common_state.received_plaintext }
    }
    pub fn writer(&mut self) -> Writer<'_> { Writer { sink: &mut self.common_state } }
    pub fn complete_io<T>(&mut self, io: &mut T) -> Result<(usize, usize), io::Error> where Self: Sized, T: io::Read + io::Write {
        let until_handshaked = self.is_handshaking();
        let mut eof = false;
        let mut wrlen = 0;
        let mut rdlen = 0;
        loop {
            while self.wants_write() { wrlen += self.write_tls(io)?; }
            if !until_handshaked && wrlen > 0 { return Ok((rdlen, wrlen)); }
            while !eof && self.wants_read() {
                let read_size = match self.read_tls(io) {
                    Ok(0) => { eof = true; Some(0) }
                    Ok(n) => { rdlen += n; Some(n) }
                    Err(ref err) if err.kind() == io::ErrorKind::Interrupted => None,
                    Err(err) => return Err(err),
                };
                if read_size.is_some() { break; }
            }
            match self.process_new_packets() {
                Ok(_) => {}
                Err(e) => { let _ignored = self.write_tls(io); return Err(io::Error::new(io::ErrorKind::InvalidData, e)); }
            };
            match (eof, until_handshaked, self.is_handshaking()) {
                (_, true, false) => return Ok((rdlen, wrlen)),
                (_, false, _) => return Ok((rdlen, wrlen)),
                (true, true, true) => return Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
                (..) => {}
            }
        }
    }
    pub fn process_new_packets(&mut self) -> Result<IoState, Error> {
        let mut state = match std::mem::replace(&mut self.state, Err(Error::HandshakeNotComplete)) { Ok(s) => s, Err(e) => { self.state = Err(e.clone()); return Err(e); } };
        while let Some(msg) = self.deframer.pop()? {
            match self.process_msg(msg, state) { Ok(new) => state = new, Err(e) => { self.state = Err(e.clone()); return Err(e); } }
        }
        self.state = Ok(state);
        Ok(self.common_state.io_state())
    }
    fn process_msg(&mut self, (ty, payload): (u8, Vec<u8>), state: Step) -> Result<Step, Error> {
        let c = &mut self.common_state;
        match (state, ty) {
            (Step::Hello, 22) if payload == [1] => { c.send_record(22, vec![2; FLIGHT]); Ok(Step::Finished) }
            (Step::Finished, 22) if payload == [20] => { c.send_record(22, vec![4; TICKET]); c.start_traffic(); Ok(Step::Traffic) }
            (Step::Traffic, 23) => { c.received_plaintext.append(payload.iter().map(|b| b ^ 0x5a).collect()); Ok(state) }
            (_, 21) if payload == [0] => { c.has_received_close_notify = true; Ok(state) }
            (_, 21) => Err(Error::AlertReceived),
            _ => { c.send_record(21, vec![10]); Err(Error::InappropriateMessage) }
        }
    }
    pub fn read_tls(&mut self, rd: &mut dyn io::Read) -> Result<usize, io::Error> {
        if self.common_state.received_plaintext.is_full() { return Err(io::Error::new(io::ErrorKind::Other, "received plaintext buffer full")); }
        let res = self.deframer.read(rd);
        if let Ok(0) = res { self.common_state.has_seen_eof = true; }
        res
    }
}

// ---- server -------------------------------------------------------------
pub struct ServerData;
impl SideData for ServerData {}
pub struct ServerConfig { key: PrivateKey, chain: Vec<Certificate> }
pub struct ServerConfigBuilder;
/// For the harness: the chain and key the last configuration was asked for with.
pub static GIVEN: std::sync::Mutex<Option<(Vec<Vec<u8>>, Vec<u8>)>> = std::sync::Mutex::new(None);
impl ServerConfig { pub fn builder() -> ServerConfigBuilder { ServerConfigBuilder } }
impl ServerConfigBuilder {
    pub fn with_safe_defaults(self) -> Self { self }
    pub fn with_no_client_auth(self) -> Self { self }
    /// The keys and certificates of the model are those that start with a letter.
    pub fn with_single_cert(self, chain: Vec<Certificate>, key: PrivateKey) -> Result<ServerConfig, Error> {
        *GIVEN.lock().unwrap() = Some((chain.iter().map(|c| c.0.clone()).collect(), key.0.clone()));
        if key.0.first().map_or(true, |c| *c < b'A') { return Err(Error::General(String::from("invalid private key"))); }
        Ok(ServerConfig { key, chain })
    }
}
pub struct ServerConnection { inner: ConnectionCommon<ServerData>, config: Arc<ServerConfig> }
impl ServerConnection { pub fn new(config: Arc<ServerConfig>) -> Result<Self, Error> { Ok(ServerConnection { inner: ConnectionCommon::new_server(ServerData), config }) } }
impl Deref for ServerConnection { type Target = ConnectionCommon<ServerData>; fn deref(&self) -> &Self::Target { &self.inner } }
impl DerefMut for ServerConnection { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.inner } }

// ---- client: only named, by wruster's own test client -------------------
pub struct ClientData;
impl SideData for ClientData {}
pub struct ClientConnection { inner: ConnectionCommon<ClientData> }
impl ClientConnection { pub fn new(_: Arc<ClientConfig>, _: ServerName) -> Result<Self, Error> { Err(Error::HandshakeNotComplete) } }
impl Deref for ClientConnection { type Target = ConnectionCommon<ClientData>; fn deref(&self) -> &Self::Target { &self.inner } }
impl DerefMut for ClientConnection { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.inner } }
pub trait KeyLog: Send + Sync {}
pub struct KeyLogFile;
impl KeyLogFile { pub fn new() -> Self { KeyLogFile } }
impl KeyLog for KeyLogFile {}
pub struct ClientConfig { pub key_log: Arc<dyn KeyLog> }
pub struct ClientConfigBuilder;
impl ClientConfig { pub fn builder() -> ClientConfigBuilder { ClientConfigBuilder } }
pub struct SupportedCipherSuite;
pub struct SupportedProtocolVersion;
pub static DEFAULT_CIPHER_SUITES: &[SupportedCipherSuite] = &[];
pub static DEFAULT_VERSIONS: &[&SupportedProtocolVersion] = &[];
impl ClientConfigBuilder {
    pub fn with_cipher_suites(self, _: &[SupportedCipherSuite]) -> Self { self }
    pub fn with_safe_default_kx_groups(self) -> Self { self }
    pub fn with_protocol_versions(self, _: &[&'static SupportedProtocolVersion]) -> Result<Self, Error> { Ok(self) }
    pub fn with_safe_defaults(self) -> Self { self }
    pub fn with_root_certificates(self, _: RootCertStore) -> Self { self }
    pub fn with_no_client_auth(self) -> ClientConfig { ClientConfig { key_log: Arc::new(KeyLogFile) } }
}
pub struct RootCertStore;
impl RootCertStore {
    pub fn empty() -> Self { RootCertStore }
    pub fn add_parsable_certificates(&mut self, c: &[Vec<u8>]) -> (usize, usize) { (c.len(), 0) }
}
pub struct ServerName;
impl TryFrom<&str> for ServerName { type Error = Error; fn try_from(_: &str) -> Result<Self, Error> { Ok(ServerName) } }
