"""What each check runs: property -> quick and thorough jobs, each 'harness args [options]'.

A job explores every value of its symbolic inputs; the arguments set sizes and shapes, and `each` spreads one
line over a range of arguments.  Options after the arguments: --points (preemption build), --time S, --insts N."""
import itertools

def each(h, *dims, opt=''):
    """every combination of the given argument ranges"""
    out = []
    for c in itertools.product(*[d if isinstance(d, (list, tuple, range)) else [d] for d in dims]):
        out.append('%s %s %s' % (h, ','.join(str(x) for x in c) or '-', opt))
    return out

SPECS = {}
def prop(pid, quick, thorough, bounds, outside, skip=()):
    """skip: failures of the harness that are another property's business"""
    SPECS[pid] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside, skip=list(skip))

REQ_Q = (each('h_req_parse', [16, 17], 2, 0, 0) + each('h_req_parse', range(0, 3), 5, 0, [0]) + each('h_req_parse', [4, 5, 7, 8, 9, 10, 11, 14], 3, 0, [0, 1])
         + each('h_req_parse', [6, 12, 13, 15], 2, [0, 2], [0, 2]) + each('h_req_parse', 3, 2, 0, [0, 2]) + each('h_req_parse', [0, 1], [3], 1, 0) + ['h_trunc 0,0'])
REQ_T = (each('h_req_parse', range(0, 3), 7, 0, [0, 1, 2]) + each('h_req_parse', range(0, 18), 3, [0, 2], [0, 1, 2]) + each('h_req_parse', range(0, 18), 4, 0, 0) + each('h_req_parse', [0, 1], [4, 5], 1, 0) + each('h_trunc', 0, [0, 1]))
RSP_Q = (each('h_rsp_parse', [10, 11], 2, 0, 0) + each('h_rsp_parse', [0, 1, 2, 3], 3, 0, 0) + each('h_rsp_parse', [4, 5, 8, 9], 3, 0, [0, 1]) + each('h_rsp_parse', 7, 2, [0, 2], [0, 1]) + ['h_rsp_parse 6,2,0,0', 'h_trunc 1,0'])
RSP_T = (each('h_rsp_parse', range(0, 12), 3, [0, 2], [0, 1, 2]) + each('h_rsp_parse', range(0, 12), 4, 0, [0, 1]) + each('h_rsp_parse', [0, 1, 2, 4], 5, 0, 0) + each('h_trunc', 1, [0, 1]))
prop('P01', REQ_Q, REQ_T,
     'free bytes: quick 2-5 at each of 18 places of a request and a free split into pieces for two of them; thorough 3-7; every truncation point of a full message, thorough with any one byte replaced; more than 40 million instructions on a path count as not terminating',
     'longer runs of free bytes; more than one place of a message free at a time; sources that go on for ever')
prop('P02', RSP_Q, RSP_T,
     'as P01, with 2-3 (thorough 3-5) free bytes at each of twelve places of a response',
     'as P01')
prop('P03',
     each('h_split', [0, 1], 99, 0, [0, 1, 2]) + each('h_split', 0, [0, 2, 11, 15], 3, [0, 2]) + each('h_split', 0, 5, 2, [0, 2]) + each('h_split', 1, [0, 2, 5, 9], 2, [0, 2]) + each('h_split', 1, 8, 1, [0, 2]) + each('h_split', 0, [2, 10], [2], 1),
     each('h_split', [0, 1], 99, 0, [0, 1, 2]) + each('h_split', 0, range(0, 16), 3, [0, 2]) + each('h_split', 1, range(0, 10), 2, [0, 1, 2]) + each('h_split', 0, range(0, 16), 2, 1),
     'every one-split (with an interruption before or at it), every two-split and every byte-wise delivery (interrupted anywhere) of one full message and of messages with 2-3 free bytes at 10 (thorough 26) places',
     'three or more splits other than byte-wise delivery; longer messages')
prop('P04', each('h_headers', [0, 1, 2, 3, 4, 5, 6, 7], 3) + each('h_headers', [2, 5, 3], 4) + each('h_headers', 8, 2),
     each('h_headers', range(0, 9), 4) + each('h_headers', [2, 3, 5, 6], 5),
     'header sections with 2-4 (thorough 4-5) free bytes, any values, at each of nine places: in a name, before and inside values, a whole line, between repeated fields',
     'more free bytes at once')
prop('P05', each('h_names', 0, [0], [7]) + ['h_names 0,7,14', 'h_names 1,0,10', 'h_names 2,0,6', 'h_names 2,6,12', 'h_names 2,12,17', 'h_names 3,0,4', 'h_names 3,4,9', 'h_names 3,9,12', 'h_names 4,0,8', 'h_names 5,0,7', 'h_names2 1,1', 'h_names2 1,2', 'h_names2 2,1'],
     ['h_names 0,0,14', 'h_names 1,0,10', 'h_names 2,0,9', 'h_names 2,8,17', 'h_names 3,0,12', 'h_names 4,0,8', 'h_names 5,0,7', 'h_names2 1,1', 'h_names2 1,2', 'h_names2 2,1', 'h_names2 2,2 --time 600'],
     'the case of 4-10 neighbouring letters of six names free, the rest all upper, all lower or canonical (thorough: all letters of Content-Length free); pairs of names of up to 2 arbitrary token characters',
     'pairs of longer names')
prop('P06', each('h_line', range(0, 8), 3) + each('h_line', [0, 1, 2, 3], 4), each('h_line', range(0, 8), 5) + each('h_line', [0, 1, 2, 3], 6),
     'request lines with 3-4 (thorough 5-6) free bytes at each of eight places', 'bytes above 0x7f in target and version (decoded with replacement, stated in the property); more free bytes at once')
prop('P07', each('h_body', 0, [0, 1, 2, 3, 4, 5, 6], 2, [0, 2, 3]) + each('h_body', 1, [0, 1, 2, 7], 2, [0, 3]) + each('h_body', 0, [0], 3, [3]),
     each('h_body', [0, 1], range(0, 8), [2, 3], [0, 1, 2, 3, 4]),
     'framing headers with 2-3 free bytes at each of eight places, 0-4 body bytes available', 'declared lengths above 20 digits beyond the ones with two free digits')
prop('P08', each('h_skip', [1, 2, 3], [0, 1, 2], 2, 0) + each('h_skip', [2, 3], [0, 1], 2, [1, 2]) + each('h_skip', 3, 0, 3, 0) + each('h_skip_big', [0, 1], [0, 1]),
     each('h_skip', [1, 2, 3, 4, 5], [0, 1, 2], [2, 3], [0, 1, 2]) + each('h_skip_big', [0, 1], [0, 1]),
     'bodies of up to 3 (thorough 5) bytes read in up to 3 arbitrary steps over three delivery modes before being skipped; bodies around 8, 64, 128 and 1024 KiB', 'other body lengths')
prop('P09', ['h_respond 0,0,3'] + each('h_respond', 1, [0, 1, 2], 3) + each('h_respond', [2, 3], 0, 3) + ['h_big 0,1'],
     ['h_respond 0,0,6'] + each('h_respond', 1, [0, 1, 2], 6) + each('h_respond', [2, 3], 0, 6) + each('h_big', [0, 1], [0, 1, 2]),
     'responses of every shape with symbolic bodies of up to 3 (thorough 6) bytes, and one of 9000 bytes', 'contradictory Content-Length set by the handler')
prop('P10', each('h_faulty', [0, 1], [1, 2], [0, 1]) + each('h_big', [0, 1], 1),
     each('h_faulty', [0, 1], [1, 2, 3], [0, 1]) + each('h_big', [0, 1], [1, 2, 3]),
     'one or two (thorough three) sink decisions (short write, interruption, error, zero) anywhere in the writes of one message', 'more faults in one message')
prop('P11', ['h_round_req 1,3,0,0'] + each('h_round_req', [1, 2], [0, 2], [0, 2], 0) + each('h_round_req', 1, 1, 1, [1, 2, 3, 4]) + ['h_round_into 2'] + each('h_round_text', [0, 1, 2, 3], 2) + each('h_round_rsp', [0, 2], 2, [0, 1, 2], 0) + each('h_round_rsp', 0, 1, 0, [1, 2, 3]),
     each('h_round_req', [1, 2, 3], [0, 1, 2, 3], [0, 1, 2, 3], 0) + each('h_round_req', [1, 2], [1, 2], [1, 2], [1, 2, 3, 4]) + each('h_round_into', [0, 1, 2, 3]) + each('h_round_text', [0, 1, 2, 3], 4) + each('h_round_rsp', [0, 1, 2, 3], [0, 1, 2, 3], [0, 1, 2], 0) + each('h_round_rsp', [0, 2], [1, 2], 0, [1, 2, 3]),
     'every method, targets, values and bodies of up to 2 (thorough 3) free bytes, messages made from text that is not all ASCII; every status from 100 to 999; four media types, with and without parameters, and none', 'obs-text in values; longer values and bodies')
prop('P12', ['h_status_number -', 'h_status_distinct -', 'h_status_text 0,65535', 'h_table_values -'] + each('h_table_text', 0, range(1, 9)) + each('h_table_text', 1, [4, 5, 6, 7, 8, 9]),
     ['h_status_number -', 'h_status_distinct -', 'h_status_text 0,65535', 'h_table_values -'] + each('h_table_text', 0, range(1, 12)) + each('h_table_text', 1, range(1, 12)),
     'status numbers: every 64-bit value (conversion), every 16-bit value (text and pairwise distinctness); every ASCII text of up to 8 (thorough 11) bytes as method or version', 'texts with bytes above 0x7f')

P='--points'
ROUTE_Q = (each('h_route', [0, 1], [0, 1, 2], 3, 0, 2) + ['h_route 2,1,2,9,2', 'h_route 3,1,4,0,2', 'h_route 4,0,4,0,2', 'h_route 5,0,2,9,2', 'h_route 6,0,3,0,2', 'h_route 7,3,4,0,2', 'h_route 0,4,4,0,0', 'h_route 2,6,3,0,1', 'h_route 3,7,4,0,2', 'h_route 4,8,4,0,1', 'h_route 2,5,4,0,2'])
ROUTE_T = (each('h_route', [0, 1, 2, 3, 4, 6, 7], [0, 1, 2, 3, 4], 5, 0, 2) + each('h_route', [2, 4, 7], [5, 6, 7, 8], 4, 0, 2) + each('h_route', [2, 3, 5], [0, 1], 3, 9, 2) + ['h_route 0,0,7,0,0', 'h_route 2,1,7,0,0', 'h_route 0,4,6,0,0'])
prop('P13', ROUTE_Q + ['h_route 8,9,3,0,0', 'h_route 8,10,3,0,0', 'h_route 8,11,2,0,2', 'h_route_race 2,1 ' + P, 'h_route_race 3,0'], ROUTE_T + ['h_route 8,9,4,0,2', 'h_route 8,10,4,0,2', 'h_route 8,11,4,0,2', 'h_route_race 2,2 %s --time 700' % P, 'h_route_race 3,1 %s --time 800' % P],
     'nine sets of 2-4 routes, in every order of registration for most; targets with 2-4 (thorough up to 7) free printable bytes at nine places, and with a free non-ASCII character at three; every method; up to 3 requests at a time, with one preemption for two (thorough two, and one for three)',
     'other sets of routes; other bytes outside 0x21-0x7e; queries are cut off at the question mark before matching')
prop('P14', each('h_route', 0, range(0, 9), 4, 0, 0) + ['h_route 0,0,5,0,0', 'h_route 0,4,5,0,0', 'h_route 0,6,5,0,0'],
     each('h_route', 0, range(0, 9), 6, 0, 0) + ['h_route 0,0,8,0,0', 'h_route 0,4,8,0,0', 'h_route 0,6,8,0,0 --time 600'],
     'targets with 4-5 (thorough 6-8) free printable bytes at nine places', 'bytes outside 0x21-0x7e; longer targets')
prop('P18', each('h_pool', [1, 2], 0, [2, 3], [0, 1], 0, 0) + each('h_pool', 0, [1, 2], [2, 3], [0, 1], 0, 0) + each('h_pool', 1, [2, 3], [2, 3, 4], [0, 1], 0, 0)
     + each('h_pool', [1, 2], 0, 3, [0, 1], 0, 2, opt=P) + each('h_pool', 0, [1, 2], 3, [0, 1], 0, 2, opt=P) + each('h_pool', 1, [2, 3], 3, [0, 1], 0, 2, opt=P) + ['h_pool 1,0,2,0,0,3 ' + P, 'h_pool 0,1,2,0,0,3 ' + P, 'h_pool_race 1,2,2 ' + P, 'h_pool_race 1,3,1 ' + P, 'h_pool_mixed 3,0,7', 'h_pool_mixed 0,3,7', 'h_pool_mixed 2,4,7', 'h_pool_mixed 1,2,6'],
     each('h_pool', [1, 2, 3], 0, [3, 4], [0, 1], 0, 3, opt=P + ' --time 700') + each('h_pool', 0, [1, 2], [3, 4], [0, 1], 0, 3, opt=P + ' --time 700') + each('h_pool', 1, [2, 3], 3, [0, 1], 0, 3, opt=P + ' --time 700') + each('h_pool', [1, 0], 3, 5, [0, 1], 0, 2, opt=P + ' --time 700') + ['h_pool_mixed 3,0,8', 'h_pool_mixed 0,4,8', 'h_pool_mixed 2,4,8', 'h_pool_mixed 4,0,8'],
     'pools of 1-3 standing, on-demand and mixed workers; up to 4 (thorough 5) tasks handed in with or without waiting, running through or held until all are in; every sequence of 6-7 (thorough 8) steps of handing in a task and one of the running ones ending; every schedule with up to 2-3 (thorough 3) preemptions', 'more workers, tasks or preemptions; thread creation failing')
prop('P19', each('h_pool_panic', [0], [1, 2, 3], [1, 2], 0) + each('h_pool_panic', 1, [0, 2], [1, 2], 0) + each('h_pool', [1, 0], 2, 3, 0, 1, 0) + ['h_panics 3,0', 'h_panics 1,1 ' + P]
     + each('h_pool_panic', [0], [1, 2], 2, 2, opt=P) + each('h_pool_panic', 1, [0, 2], 2, 2, opt=P) + ['h_pool 1,2,2,0,1,2 ' + P],
     each('h_pool_panic', 0, [1, 2], 2, 3, opt=P + ' --time 700') + each('h_pool_panic', 1, [0, 2], 2, 3, opt=P + ' --time 700') + each('h_pool_panic', [0, 2], 3, 3, 2, opt=P + ' --time 700') + ['h_pool 1,2,2,0,1,3 ' + P, 'h_pool 0,2,3,0,1,2 ' + P, 'h_pool 2,0,3,1,1,2 ' + P, 'h_panics 4,0', 'h_panics 3,1 %s --time 700' % P],
     'up to 2 (thorough 3) tasks any of which panics, then the pool filled to its size; up to 3 connections (thorough 4) any of whose handlers panics; schedules with up to 2 (thorough 3) preemptions in the pool, one in the server', 'panics while a panic is being handled; abort-on-panic builds')
prop('P20', each('h_pool_idle', [1, 2], [2, 3], 0, 0) + each('h_pool_race', [1, 2], 0, 0) + each('h_pool_idle', [1, 2], 2, [1, 2], [0, 1], opt=P) + each('h_pool_race', 1, [2, 3, 4], [1, 2], opt=P) + ['h_pool_race 2,2,1 ' + P, 'h_pool_race 2,2,2 ' + P],
     each('h_pool_idle', [1, 2], 4, 0, 0) + each('h_pool_idle', [1, 2], 3, 2, [0, 1, 2], opt=P + ' --time 700') + each('h_pool_idle', 1, 4, 2, 1, opt=P + ' --time 700') + each('h_pool_race', 1, 5, [1, 2], opt=P + ' --time 700') + ['h_pool_race 2,3,2 ' + P, 'h_pool_race 2,4,1 %s --time 700' % P, 'h_pool_race 3,2,1 %s --time 700' % P],
     'up to 2 on-demand workers, 3 (thorough 4) steps of handing in tasks and letting time pass, every schedule with up to 4 (thorough 5) preemptions or early deadlines around an expiry', 'more workers; longer histories')
prop('P21', ['h_serial 1,2,0,0', 'h_serial 2,0,0,0', 'h_serial 2,1,0,0', 'h_serial 3,0,0,0', 'h_serial 2,0,0,9', 'h_serial 2,0,1,0'] + each('h_take', [0, 1], [0, 1], [0, 1]) + each('h_cut_answer', [0, 1, 2], [0, 1]) + each('h_bulk', [8193, 65537, 200001], 6) + each('h_stall', [0, 2]),
     each('h_take', 1, [2], 1) + each('h_cut_answer', [0, 1, 2], [0, 1]) + each('h_bulk', [8191, 8193, 16385, 65535, 65537, 131073, 200001, 1100000], 6) + each('h_stall', [0, 1, 2, 3, 4]) + ['h_serial 1,3,0,0', 'h_serial 2,2,0,0', 'h_serial 2,1,0,9', 'h_serial 3,1,0,0 --time 700', 'h_serial 3,1,0,9 --time 700', 'h_serial 4,0,0,0 --time 700', 'h_serial 2,0,1,0'],
     'up to 3 (thorough 4) requests one after the other on a connection, each with a body of 0-2 free bytes that its handler reads not at all, in part or fully, or takes out of the request to do so or send it back; up to one (thorough three) transfers cut short; an answer whose body ends or fails after 0-3 of 4 bytes; bodies of up to 200 kB (thorough 1 MB) taken the same ways; a body that stops short for longer than the server waits', 'requests sent before the previous answer arrived (known finding)')
prop('P22', each('h_persist', [0, 1, 2], range(0, 10), 2, 0) + each('h_persist', [0, 1], [0, 4], 3, [1, 2]) + each('h_persist', [0, 1, 2], 99, 0, [0, 1]) + each('h_persist_fn', [0, 1, 2], range(0, 10), 2) + each('h_client_conn', [0, 1], range(0, 6), 2) + ['h_client_conn 0,1,3', 'h_client_conn 1,5,3'],
     each('h_persist', [0, 1, 2], range(0, 10), [3, 4], [0, 1, 2]) + each('h_persist', [0, 1, 2], 99, 0, [0, 1, 2]) + each('h_persist', [0, 1], [0], 5, 0) + each('h_client_conn', [0, 1], range(0, 6), [3, 4]) + each('h_client_conn', [0, 1], 0, 5),
     'Connection header fields with 2-3 (thorough 5) free bytes at nine places, HTTP/1.1, 1.0 and 2, with and without a body; the client: 2-3 (thorough 5) free bytes at six places of the fields of either side', 'more free bytes')
prop('P23', each('h_bad', range(0, 21), 2, 0) + each('h_bad', [0, 1, 2, 6, 7, 8, 9, 10, 11, 14, 15, 16], 3, 0) + each('h_bad', [5, 6, 8], 1, 1) + each('h_cut', [0, 1, 2], [0, 1], [0, 1]) + each('h_stall', [0, 2]),
     each('h_bad', range(0, 21), 3, 0) + each('h_bad', [0, 1, 2, 6, 7, 8, 9, 11, 14, 15, 16], 4, 0) + each('h_bad', range(5, 13), 1, 2) + ['h_bad 5,3,0', 'h_bad 12,4,0 --time 700'] + each('h_cut', [0, 1, 2], [0, 1, 2], [0, 1]) + each('h_stall', [0, 1, 2, 3, 4]),
     'requests with 2-3 (thorough 4) free bytes at 21 places; a request cut off anywhere by closing, resetting or silence, after up to one (thorough two) good ones', 'request lines with control characters, bytes above 0x7e, or more than two spaces, lengths repeated equally and odd transfer codings are not judged')

prop('P15', each('h_file', range(0, 14), 4, 0) + each('h_file', [0, 3, 6, 9, 12], 2, range(1, 8)) + each('h_file_served', range(0, 14), 2, 0) + each('h_statics', [0, 2, 6, 8], 2, 0),
     each('h_file', range(0, 14), [6, 7], 0) + each('h_file', range(0, 14), 4, range(1, 8)) + each('h_file_served', range(0, 14), 3, 0) + each('h_statics', range(14), 3, 0),
     'request paths with 4 (thorough 6-7) arbitrary bytes at fourteen places, under the eight ways of giving the directory; 2-3 of them through the server', 'longer paths; other trees of files')
prop('P16', each('h_file', range(0, 14), 4, 0) + each('h_file_served', [0, 2, 4, 6, 8, 10, 12], 2, 0) + each('h_file_fails', range(0, 3)) + each('h_file_fault', range(5), [0, 1]) + each('h_file_changes', [0, 1]),
     each('h_file', range(0, 14), [6, 7], 0) + each('h_file_served', range(0, 14), 3, 0) + each('h_file_fails', range(0, 3)) + each('h_file_fault', range(5), [0, 1]) + each('h_file_changes', [0, 1]),
     'as P15; opening, reading or asking about the file failing with any error number, or any one call failing with one of four; reads in pieces', 'query strings; devices, FIFOs; interrupted calls (EINTR)')
prop('P17', each('h_limit', 3, [0, 1], 0) + ['h_limit 2,2,0', 'h_limit 1,0,1', 'h_limit 1,1,1', 'h_slow 4,0', 'h_slow 3,1', 'h_sip 2,0', 'h_sip 3,0'],
     each('h_limit', 4, [0, 1], 0) + ['h_limit 3,2,0', 'h_limit 2,0,1', 'h_limit 2,1,1', 'h_slow 5,0', 'h_slow 4,1', 'h_sip 3,0'],
     'up to 3 (thorough 4) transport operations, each waiting an arbitrary number of seconds (one, thorough two: nanoseconds) under an arbitrary limit below 256 s; through the server: 3-5 pieces of a request sent, or of a response taken, after pauses', 'more operations; limits of 256 s and more')
BUSY = ' --insts 2000000000 --time 700'
prop('P24', each('h_busy', 1, [0, 1], opt=BUSY), each('h_busy', [1, 2], [1, 2], opt=BUSY),
     'all hundred workers (one or two of them standing) made busy, then 2 and up to 1 (thorough 2) further steps of: a connection arriving, a handler ending', 'longer histories; thread creation failing')
prop('P25', ['h_shutdown 1,99,0', 'h_shutdown 2,99,0', 'h_shutdown 3,99,0', 'h_shutdown 1,99,1 ' + P, 'h_shutdown 2,99,1 ' + P],
     ['h_shutdown 3,99,0', 'h_shutdown 1,99,2 ' + P] + each('h_shutdown', 2, 99, 1, opt=P + ' --time 700') + ['h_shutdown 1,99,3 %s --time 700' % P],
     'up to 3 connections, each anywhere between connecting and having been answered (also half a request, or being handled), when shutdown is called; schedules with up to one (thorough three, on one connection) preemptions', 'more connections or preemptions')
prop('P26', ['h_accept 1,0,0,0', 'h_accept 3,0,0,0', 'h_accept 2,1,0,0', 'h_accept 1,0,2,0'] + each('h_fds', [0, 3, 6, 9], [1, 3]),
     ['h_accept 4,0,0,0', 'h_accept 3,1,0,0', 'h_accept 2,0,2,0', 'h_accept 1,0,0,1 %s --time 700' % P] + each('h_fds', range(0, 10), [1, 2, 3]),
     'up to 3 (thorough 4) accepts failing with each of the listed errors, one or two with any error number; up to two interrupted waits; 0-9 descriptors left for 1-3 connections', 'more failures; failures of other calls')
prop('P29', ['h_cread 2,2,0,0', 'h_cread 4,3,0,0', 'h_cread 3,2,1,0', 'h_cwrite 4,2,0,0', 'h_cwrite 3,2,1,0', 'h_cwrite 3,1,1,0'] + each('h_cstop', [0, 1], [0, 3], [0, 1], 0)
     + ['h_cread 2,2,0,1 ' + P, 'h_cread 2,1,0,2 ' + P, 'h_cread 1,1,1,1 ' + P, 'h_cwrite 2,2,0,1 ' + P, 'h_cwrite 2,1,0,2 ' + P] + each('h_cstop', [0, 1], [0, 3], [0, 1], 2, opt=P),
     ['h_cread 5,3,0,0', 'h_cread 3,2,2,0 --time 700', 'h_cwrite 5,2,0,0', 'h_cwrite 3,2,2,0', 'h_cread 2,2,1,2 %s --time 700' % P, 'h_cread 3,2,0,2 %s --time 700' % P, 'h_cwrite 3,2,1,2 %s --time 700' % P] + each('h_cstop', [0, 1], [0, 3], [0, 1], 4, opt=P),
     'up to 4 (thorough 5) arbitrary bytes in up to 3 pieces, buffers and transfers of every size, up to two transfers cut short or finding nothing although ready, or interrupted waits; a stalled read or write with and without limit, stopped before, at and after it or never; schedules with up to 2 (thorough 4) preemptions', 'longer transfers; the TLS transport')
prop('P30', each('h_list', [3, 5]) + each('h_list_race', [1, 2], [0, 1], 1, opt=P) + ['h_list_race 1,2,3 ' + P, 'h_list_race 2,0,2 ' + P, 'h_list_race 2,1,2 ' + P, 'h_list_race 3,0,1 ' + P, 'h_list_race 1,1,4 ' + P],
     each('h_list', [6]) + ['h_list_race 2,1,3 %s --time 700' % P, 'h_list_race 2,0,4 %s --time 700' % P, 'h_list_race 3,1,2 %s --time 700' % P, 'h_list_race 3,0,2 %s --time 700' % P, 'h_list_race 1,3,4 %s --time 700' % P],
     'every sequence of 5 (thorough 6) steps of registering, cloning, dropping and draining; up to 3 threads registering up to 3 connections each while another drains and shuts down, schedules with up to 4 preemptions', 'more threads or preemptions')

prop('P27', each('h_idle', 4, [1, 2], 0) + ['h_idle 4,2,20', 'h_idle_lru 2,99', 'h_idle_lru 2,100', 'h_idle_race 2,1,0', 'h_idle_race 1,2,2 ' + P, 'h_idle_race 2,1,1 ' + P, 'h_idle_swap 0,2 ' + P, 'h_idle_swap 99,1 ' + P, 'h_idle_swap 98,1 ' + P] + each('h_idle_drop', [0, 1, 2], 3, opt=P),
     ['h_idle 5,2,0', 'h_idle 5,3,20', 'h_idle 6,1,0 --time 700', 'h_idle_lru 3,98', 'h_idle_lru 3,100', 'h_idle_race 1,2,3 ' + P, 'h_idle_race 2,1,2 ' + P, 'h_idle_swap 0,4 ' + P, 'h_idle_swap 99,2 ' + P, 'h_idle_swap 98,2 ' + P, 'h_idle_race 2,2,1 %s --time 700' % P, 'h_idle_race 3,1,1 %s --time 700' % P] + each('h_idle_drop', [0, 1, 2], 5, opt=P),
     'every sequence of 4 (thorough 6) steps of inserting, getting, draining and letting up to 31 s pass, over up to 2 (thorough 3) addresses; a pool of 99-100 and 2-3 steps of using, replacing and adding; 2-3 threads taking and giving back around a round of the worker, schedules with up to 2 (thorough 3) preemptions; dropped in any state of the worker',
     'longer histories; other timeouts. Too old is: idle for the timeout and one round (15 s) more')
prop('P28', ['h_client 1,1,0,11,5', 'h_client 2,1,0,8,4', 'h_client 2,1,8,3,2', 'h_client 2,1,11,1,5', 'h_client 2,2,0,2,3', 'h_client 3,1,0,1,5', 'h_client_race 2,1,5,0', 'h_client_race 1,1,5,1 ' + P, 'h_client_race 2,1,2,1 ' + P, 'h_client_race 1,2,5,1 ' + P],
     ['h_client 2,2,0,11,5 --time 800', 'h_client 3,1,0,2,5 --time 800', 'h_client 3,1,5,2,3 --time 800', 'h_client 2,1,12,1,5', 'h_client 3,2,0,1,5 --time 800', 'h_client_race 2,1,5,1 %s --time 700' % P, 'h_client_race 2,1,1,2 %s --time 700' % P, 'h_client_race 2,2,2,1 %s --time 700' % P, 'h_client_race 1,2,5,2 %s --time 700' % P],
     'up to 3 requests, with and without Connection: close, to up to 2 servers whose answers are of 13 kinds (with, without or with no length, closing or not by either sign, in pieces, of up to 70 (thorough 200) kB, cut short, malformed, none), each read fully, partly, not at all, kept, or its body taken out; up to 2 threads using one client with up to one (thorough two) preemptions',
     'answers to HEAD, 1xx, 204 and HTTP/1.0; servers that close a kept connection unannounced; more requests')
prop('P31', each('h_dummy', range(5), 2, 0, 0, [0, 2]) + ['h_dummy 0,1,1,0,0', 'h_dummy 1,9,6,0,9', 'h_dummy 4,1,0,1,2', 'h_dummy 2,0,4,2,0', 'h_dummy 3,0,4,1,9', 'h_dummy 4,0,2,3,2'] + each('h_dummy_bad', range(13)) + each('h_dummy_args', [0, 1, 2, 4]),
     each('h_dummy', range(5), 4, 0, 0, [0, 2]) + ['h_dummy 0,2,1,0,0', 'h_dummy 1,9,6,0,9'] + each('h_dummy', [2, 3, 4], 0, 4, 3, [0, 2]) + each('h_dummy', [2, 3, 4], 1, 6, 1, 9, opt='--time 700') + each('h_dummy_bad', range(13)) + each('h_dummy_args', [0, 1, 2, 4]),
     'five sets of 1-3 routes in every order in the file; contents of 2 (thorough 4) free printable characters or with escapes and other scripts, every status from 200 to 999, four content types, paths asked for with up to 3 free characters, every method; eleven kinds of unusable configuration', 'statuses without content (1xx, 204, 304), the method HEAD; the YAML parser beyond these forms')
prop('P33', each('h_statics', range(14), 2, 0) + each('h_statics', 0, 1, range(1, 8)) + each('h_statics_method', range(8)) + each('h_statics_tls', range(21), 3) + ['h_statics_in_use -'],
     each('h_statics', range(14), 3, 0) + each('h_statics', range(14), 2, range(1, 8)) + each('h_statics_method', range(8)) + each('h_statics_tls', [0, 1, 2, 3, 4, 13, 17], 6) + ['h_statics_in_use -'],
     'targets with up to 2 (thorough 3) free bytes at fourteen places under the eight ways of giving the directory; key and certificate files of 3 (thorough 6) free bytes, missing or unreadable, and each incomplete set of options', 'TLS itself (P32); longer targets')

prop('P32',
     each('h_tls_echo', 1, 0, [0, 1], [0, 1], 0) + each('h_tls_echo', 1, [9000, 16390, 20000], 0, [0, 1], 0) + ['h_tls_echo 2,0,0,2,0', 'h_tls_echo 1,0,0,0,999', 'h_tls_echo 2,3,1,0,0', 'h_tls_echo 1,9000,0,1,5000', 'h_tls_echo 1,70000,0,0,0']
     + ['h_tls_slow 300,64,32,2,0', 'h_tls_slow 40,32,8,2,1', 'h_tls_slow 100,64,16,1,1', 'h_tls_slow 9000,512,4096,2,0', 'h_tls_slow 2200000,1000000,1000000,0,0 --insts 400000000'] + each('h_tls_bad', [0, 1, 2], [0, 3, 6, 9], 0) + each('h_tls_bad', [0, 2], 3, 1)
     + each('h_tls_cut', [0, 1, 2], [0, 2]) + ['h_tls_key 3', 'h_tls_busy 1,0', 'h_tls_busy 2,0', 'h_tls_busy 1,8', 'h_tls_stall 300,64,0', 'h_tls_stall 300,64,8', 'h_tls_stall 9000,512,0', 'h_tls_stall 9000,512,200', 'h_tls_stall 200000,1000,16', 'h_tls_stop 40,64,0', 'h_tls_stop 3000,512,0', 'h_tls_stop 100,64,1'],
     each('h_tls_echo', 1, 0, [0, 1, 2], [0, 1], 0) + each('h_tls_echo', 2, [0, 40], 1, [0, 1], 0) + each('h_tls_echo', 1, [9000, 16390, 20000, 40000], 0, [0, 2], [0, 7, 5000]) + ['h_tls_echo 2,0,0,3,0', 'h_tls_echo 1,0,1,0,999', 'h_tls_echo 3,0,0,1,0', 'h_tls_echo 1,300000,0,0,0']
     + ['h_tls_slow 3000,512,100,3,0', 'h_tls_slow 40,32,8,2,2', 'h_tls_slow 100,64,16,2,2', 'h_tls_slow 9000,512,4096,3,1', 'h_tls_slow 70000,1024,4096,3,0'] + each('h_tls_bad', [0, 1, 2], [0, 3, 6, 9, 12], 0) + each('h_tls_bad', [0, 1, 2], [3, 6], 1)
     + each('h_tls_cut', [0, 1, 2], [0, 2, 4]) + ['h_tls_key 6', 'h_tls_busy 3,0', 'h_tls_busy 2,8'] + each('h_tls_stall', [300, 9000, 70000, 200000], [64, 512], [0, 1, 8, 30]) + each('h_tls_stop', 100, 64, [0, 1, 2]) + each('h_tls_stop', 3000, 512, [0, 1]),
     'rustls is replaced by a stand-in with the same buffering, limits and state machine around a toy handshake and cipher; requests of up to 70000 bytes (quick) cut into records and pieces anywhere, responses of up to 9000 bytes through windows from 32 bytes (one of 2200000), 3-9 (thorough 12) arbitrary bytes at each step of the handshake, every cut of a request, unusable keys, a saturated pool, clients that take no answer or a few bytes a second, shutdown during an answer; at most one preemption (thorough two)',
     'the cryptography of rustls and ring (hand-written assembly); key updates and renegotiation; client certificates; the time a client that is refused takes over its handshake')

prop('P34', ['h_life 1,6', 'h_life 2,4', 'h_life 3,0', 'h_life_race 1,2 ' + P, 'h_life_race 2,1 ' + P],
     ['h_life 2,8', 'h_life 3,4', 'h_life 4,0', 'h_life_race 1,3 %s --time 700' % P, 'h_life_race 2,2 %s --time 700' % P],
     'every sequence of up to 3 (thorough 4) steps of: starting at a free, a taken or an impossible address, with all the descriptors it needs or with 0 to 6 (thorough 8) left, freeing the taken address, asking the server; then stopping, or waiting for 200 s, and starting in the same place; a server stopped at once after being started, schedules with up to 2 (thorough 3) preemptions', 'thread creation failing; names that need resolution; a server stopped by an error of the operating system')
prop('P35', each('h_tls_pem', [0, 1], 1, [0, 3]) + each('h_tls_pem', [0, 1], 2, [0, 2]) + ['h_tls_pem 0,2,6', 'h_tls_nofile 0', 'h_tls_nofile 1'],
     each('h_tls_pem', [0, 1], 3, [0, 1]) + each('h_tls_pem', [0, 1], 2, 8),
     'files of up to 2 (thorough 3) pieces, each up to 6 (thorough 8) bytes of arbitrary text or a section of any of seven kinds, of 4 arbitrary base64 characters, on one line or two, with either line end, cut short or with a wrong character; files that are missing or whose opening or reading fails with any error', 'longer files; whether TLS accepts the key (rustls); what follows a private key in its file')
prop('P36', each('h_log_parse', 0, range(18), 2, 5) + each('h_log_parse', 1, range(12), 2, 5) + each('h_log_parse', [0, 1], [0, 2, 5], 2, 1) + ['h_log_parse 0,10,3,5', 'h_log_parse 0,7,3,5'] + each('h_log_handler', range(6), [0, 1, 2], 1, 2, 3, 0) + each('h_log_handler', range(4), 1, 0, 1, 3, 4) + ['h_log_handler 0,0,0,0,5,0', 'h_log_handler 1,1,2,1,5,1', 'h_log_handler 5,2,1,2,1,0'] + each('h_log_handler', [1, 2, 3], [0, 1], 0, 1, 5, 4),
     ['h_log_parse 0,11,3,5 --time 900', 'h_log_parse 0,8,3,5 --time 1500', 'h_log_parse 1,5,3,5 --time 1500', 'h_log_parse 1,4,3,5', 'h_log_parse 0,6,3,5', 'h_log_parse 1,9,3,5'] + each('h_log_parse', 0, range(18), 1, 5) + each('h_log_parse', 1, range(12), 1, 5) + each('h_log_handler', range(6), [0, 1, 2], 2, 2, 5, 4) + each('h_log_handler', [0, 3], [0, 1, 2], 1, 0, 5, 0),
     'messages with 2 free bytes (3 at two places) at 18 places of a request and twelve of a response, read without and with logging (errors only, or everything); six things a handler may do with a request and three kinds of response, with up to 2 free bytes in a field and in the content, every status and a body that ends early, with and without the middleware at several levels',
     'what a logger does with the text; messages logged on other paths are formatted in runs of P01, P02, P16, P19, P21, P23-P26, P28, P32 and P34')

# Runs with everything logged: what is logged is formatted there, so that it can fail.
for pid, jobs in dict(
        P01=each('h_req_parse', [0, 2, 4, 6, 10, 13], 2, 0, 0, 5) + ['h_req_parse 5,2,0,0,1', 'h_trunc 0,0,5'],
        P02=each('h_rsp_parse', [0, 2, 4, 5, 8], 2, 0, 0, 5) + ['h_trunc 1,0,5'],
        P16=['h_file 0,2,0,5', 'h_file 4,2,0,5'] + each('h_file_fails', [0, 1, 2], 5),
        P19=['h_pool_panic 1,2,2,0,5', 'h_panics 2,0,5'],
        P21=['h_take 1,0,0,5', 'h_cut_answer 0,0,5'],
        P23=each('h_bad', [0, 4, 6, 9], 1, 0, 5) + ['h_bad 5,2,0,1', 'h_cut 1,0,0,5'],
        P24=['h_busy 1,0,5 ' + BUSY],
        P25=['h_shutdown 2,99,0,5'],
        P26=['h_accept 2,0,0,0,5', 'h_fds 3,1,5'],
        P28=['h_client 1,1,0,11,5,5'],
        P32=['h_tls_bad 0,0,0,5', 'h_tls_cut 0,0,5'],
        P34=['h_life 2,4,5']).items():
    SPECS[pid]['quick'] += jobs
    SPECS[pid]['thorough'] += jobs
    SPECS[pid]['bounds'] += '; a part of it with everything logged'
NA = {}
