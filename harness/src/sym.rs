//! The interface to the symbolic engine (and to the native replay runtime).
use std::io::{self, Read, Write};
use std::os::raw::c_char;
extern "C" {
    fn sym_make(p: *mut u8, n: usize, name: *const c_char);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: *const c_char);
    fn sym_cover(id: *const c_char);
    fn sym_choose(n: u32, name: *const c_char) -> u32;
    fn sym_fail(id: *const c_char) -> !;
    fn sym_note(s: *const c_char, v: u64);
    fn sym_concrete(v: u64) -> u64;
}
/// Controls of the OS model (model/os.c).
#[allow(dead_code)]
pub mod os {
    extern "C" {
        fn m_sched(p: i32, c: i32); fn m_time_races(n: i32); fn m_idle(); fn m_now() -> u64; fn m_advance(ns: u64); fn m_advance_parts(s: u64, n: u64); fn m_live() -> i32; fn m_live_max() -> i32; fn m_spawn_fail(n: i32);
        fn m_short_io(n: i32); fn m_would_block(n: i32); fn m_write_err(n: i32); fn m_accept_fault(n: i32, e: i32); fn m_rcap(n: i32); fn m_fd_limit(n: i32); fn m_epoll_intr(n: i32);
        fn m_open_fds() -> i32; fn m_open_accepted() -> i32; fn m_backlog(p: u16) -> i32; fn m_listening(p: u16) -> i32; fn m_reset(fd: i32); fn m_unread(fd: i32) -> i32; fn m_peer_closed(fd: i32) -> i32;
        fn m_fs_add(parent: i32, ty: i32, name: *const u8, nlen: usize, data: *const u8, len: usize) -> i32; fn m_fs_err(n: i32, e: i32); fn m_fs_fault(n: i32, e: i32, ever: i32); fn m_fs_faulted() -> i32; fn m_fs_resize(n: i32, len: u64); fn m_chdir(n: i32); fn m_asked() -> i32; fn m_asked_len(i: i32) -> u32; fn m_asked_path(i: i32) -> *const u8; fn m_last_open() -> i32; fn m_ncpu(n: i32); fn m_on_exit(n: i32); fn m_args(n: i32, a: *const *const u8);
    }
    macro_rules! wrap { ($($n:ident = $m:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(pub fn $n($($a: $t),*) -> $r { unsafe { $m($($a),*) } })* } }
    wrap! {
        sched = m_sched(p: i32, c: i32) -> (); time_races = m_time_races(n: i32) -> (); idle = m_idle() -> (); now = m_now() -> u64; advance = m_advance(ns: u64) -> (); advance_parts = m_advance_parts(s: u64, n: u64) -> (); live = m_live() -> i32; live_max = m_live_max() -> i32; spawn_fail = m_spawn_fail(n: i32) -> ();
        short_io = m_short_io(n: i32) -> (); would_block = m_would_block(n: i32) -> (); write_err = m_write_err(n: i32) -> (); accept_fault = m_accept_fault(n: i32, e: i32) -> (); rcap = m_rcap(n: i32) -> (); fd_limit = m_fd_limit(n: i32) -> (); epoll_intr = m_epoll_intr(n: i32) -> ();
        open_fds = m_open_fds() -> i32; open_accepted = m_open_accepted() -> i32; backlog = m_backlog(p: u16) -> i32; listening = m_listening(p: u16) -> i32; reset = m_reset(fd: i32) -> (); unread = m_unread(fd: i32) -> i32; peer_closed = m_peer_closed(fd: i32) -> i32;
        fs_err = m_fs_err(n: i32, e: i32) -> (); fs_fault = m_fs_fault(n: i32, e: i32, ever: i32) -> (); fs_faulted = m_fs_faulted() -> i32; fs_resize = m_fs_resize(n: i32, len: u64) -> (); chdir = m_chdir(n: i32) -> (); last_open = m_last_open() -> i32; ncpu = m_ncpu(n: i32) -> (); on_exit = m_on_exit(n: i32) -> ();
    }
    /// Every path named to the file system so far (the first 120 bytes of each).
    pub fn asked() -> Vec<Vec<u8>> { unsafe { (0..m_asked()).map(|i| std::slice::from_raw_parts(m_asked_path(i), (m_asked_len(i) as usize).min(120)).to_vec()).collect() } }
    /// The program's command line.
    pub fn args(a: &[&str]) { let v: Vec<*const u8> = a.iter().map(|s| format!("{}\0", s).leak().as_ptr()).collect(); unsafe { m_args(v.len() as i32, v.leak().as_ptr()) } }
    pub fn file(parent: i32, name: &'static str, data: &'static [u8]) -> i32 { unsafe { m_fs_add(parent, 0, name.as_ptr(), name.len(), data.as_ptr(), data.len()) } }
    pub fn dir(parent: i32, name: &'static str) -> i32 { unsafe { m_fs_add(parent, 1, name.as_ptr(), name.len(), name.as_ptr(), 0) } }
    pub fn link(parent: i32, name: &'static str, to: &'static str) -> i32 { unsafe { m_fs_add(parent, 2, name.as_ptr(), name.len(), to.as_ptr(), to.len()) } }
}
macro_rules! cstr { ($s:expr) => { concat!($s, "\0").as_ptr() as *const std::os::raw::c_char } }
pub fn fill_raw(b: &mut [u8], name: *const c_char) { if !b.is_empty() { unsafe { sym_make(b.as_mut_ptr(), b.len(), name) } } }
pub fn assume_(c: bool) { unsafe { sym_assume(c) } }
pub fn assert_raw(c: bool, id: *const c_char) { unsafe { sym_assert(c, id) } }
pub fn cover_raw(id: *const c_char) { unsafe { sym_cover(id) } }
pub fn choose_raw(n: u32, name: *const c_char) -> u32 { if n <= 1 { 0 } else { unsafe { sym_choose(n, name) } } }
pub fn fail_raw(id: *const c_char) -> ! { unsafe { sym_fail(id) } }
pub fn note_raw(s: *const c_char, v: u64) { unsafe { sym_note(s, v) } }
pub fn concrete(v: u64) -> u64 { unsafe { sym_concrete(v) } }
/// `n` arbitrary bytes.
#[macro_export] macro_rules! bytes { ($n:expr, $name:expr) => {{ let mut v = vec![0u8; $n]; $crate::sym::fill_raw(&mut v, cstr!($name)); v }}; }
#[macro_export] macro_rules! byte { ($name:expr) => {{ let mut v = [0u8; 1]; $crate::sym::fill_raw(&mut v, cstr!($name)); v[0] }}; }
#[macro_export] macro_rules! check { ($c:expr, $id:expr) => { $crate::sym::assert_raw($c, cstr!($id)) }; }
#[macro_export] macro_rules! cover { ($id:expr) => { $crate::sym::cover_raw(cstr!($id)) }; }
#[macro_export] macro_rules! choose { ($n:expr, $name:expr) => { $crate::sym::choose_raw($n as u32, cstr!($name)) as usize }; }
#[macro_export] macro_rules! fail { ($id:expr) => { $crate::sym::fail_raw(cstr!($id)) }; }
#[macro_export] macro_rules! note { ($id:expr, $v:expr) => { $crate::sym::note_raw(cstr!($id), $v as u64) }; }
/// Formats everything logged, as a program's logger would, and counts it.
struct Logger;
struct Count(usize);
impl std::fmt::Write for Count { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
static LOGGED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        let mut c = Count(1);
        if std::fmt::write(&mut c, *r.args()).is_err() { fail!("log"); }
        LOGGED.fetch_add(c.0, std::sync::atomic::Ordering::Relaxed);
        if r.level() == log::Level::Info { INFOS.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
    }
    fn flush(&self) {}
}
static INFOS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// How many records were logged at the level of information.
#[allow(dead_code)]
pub fn infos() -> usize { INFOS.load(std::sync::atomic::Ordering::Relaxed) }
/// How much was logged so far.
#[allow(dead_code)]
pub fn logged() -> usize { LOGGED.load(std::sync::atomic::Ordering::Relaxed) }
/// Logging at a level (0: off, 1: errors, as env_logger starts with, 5: everything).
pub fn logging(level: usize) {
    use log::LevelFilter::*;
    let _ = log::set_logger(&Logger);
    log::set_max_level([Off, Error, Warn, Info, Debug, Trace][level]);
}
pub fn guard(log: i64, f: impl FnOnce()) {
    if log > 0 { logging(log as usize); }
    std::panic::set_hook(Box::new(|_| {}));
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() { fail!("panic"); }
}
/// Defines an entry point `h_name(args...)`; a panic that escapes is a violation. One argument more than it takes is
/// the level of logging it runs with.
#[macro_export] macro_rules! entry { ($name:ident($($a:ident),*) $body:block) => {
    #[no_mangle] pub extern "C" fn $name($($a: i64,)* log: i64) { $(let $a = $a as usize;)* $crate::sym::guard(log, move || $body); }
}; }

/// How a scripted source ends.
#[derive(Clone, Copy, PartialEq)]
pub enum End { Eof, Error, Timeout }
/// A reader over fixed bytes, cut into pieces the way `cuts` says.
pub struct Src { pub data: Vec<u8>, pub pos: usize, pub mode: usize, pub end: End, pub intr: usize, pub cuts: Vec<usize>, pub intr_at: Option<usize> }
impl Src {
    pub fn whole(data: Vec<u8>) -> Src { Src { data, pos: 0, mode: 0, end: End::Eof, intr: 0, cuts: vec![], intr_at: None } }
    /// mode 0: as much as fits; 1: every split chosen symbolically, with interrupted reads; 2: one byte at a time
    pub fn new(data: Vec<u8>, mode: usize, end: End) -> Src { Src { data, pos: 0, mode, end, intr: 1, cuts: vec![], intr_at: None } }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr_at == Some(self.pos) { self.intr_at = None; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let mut left = self.data.len() - self.pos;
        for c in self.cuts.iter() { if *c > self.pos { left = left.min(*c - self.pos); } }
        if left == 0 {
            return match self.end { End::Eof => Ok(0), End::Error => Err(io::Error::from(io::ErrorKind::ConnectionReset)), End::Timeout => Err(io::Error::from(io::ErrorKind::TimedOut)) };
        }
        let m = left.min(buf.len());
        if m == 0 { return Ok(0); }
        let n = match self.mode {
            0 => m,
            2 => 1,
            _ => {
                if self.intr > 0 && choose!(2, "interrupted") == 1 { self.intr -= 1; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
                1 + choose!(m, "piece")
            }
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A sink that accepts everything.
pub struct Sink { pub out: Vec<u8> }
impl Write for Sink { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.out.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
/// Byte-wise equality as one condition (no branching on symbolic data).
pub fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut d = 0u8; for i in 0..a.len() { d |= a[i] ^ b[i]; } d == 0 }
