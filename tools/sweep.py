#!/usr/bin/env python3
"""Development helper: run harnesses in parallel and print one line each. sweep.py 'h_name a,b;h_name2 c' or -f file; -p for the preemption build"""
import json, subprocess, sys, concurrent.futures as cf, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; bc = V + '/build/final.bc'; t = '120'; verbose = False
if '-p' in args: args.remove('-p'); bc = V + '/build/final_pt.bc'
if '-v' in args: args.remove('-v'); verbose = True
if '-t' in args: i = args.index('-t'); t = args[i + 1]; del args[i:i + 2]
jobs = [j.split() for a in args for j in (open(a[1:]).read() if a.startswith('@') else a).replace('\n', ';').split(';') if j.strip()]
def one(j):
    h = j[0]; a = j[1] if len(j) > 1 else ''
    out = '/tmp/sweep/%s_%s' % (h, a.replace(',', '_'))
    bc = V + '/build/final_tls.bc' if h.startswith('h_tls') else V + '/build/final_prog.bc' if h.startswith(('h_dummy', 'h_statics')) else globals()['bc']; os.makedirs(out, exist_ok=True)
    r = subprocess.run(['timeout', str(float(t) + 60), V + '/build/engine/release/engine', 'run', bc, h, '--args', a, '--out', out, '--time', t] + os.environ.get('ENGOPT','').split() + j[2:], capture_output=True, text=True)
    try: return j, json.loads(r.stdout)
    except ValueError: return j, (r.stdout[-300:] + r.stderr[-600:])
with cf.ThreadPoolExecutor(8) as ex:
    for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
        j, d = f.result()
        if isinstance(d, str): print(' '.join(j), 'FAILED', d); continue
        print('%-28s paths %6d q %6d z3 %5.1fs wall %5.1fs covers %s%s%s%s' % (' '.join(j), d['paths'], d['queries'], d['solver_time'], d['wall'] if 'wall' in d else d.get('time', 0), ','.join('%s:%d' % x for x in d['covers'].items()),
            ' VIOL ' + ' '.join('%s(%d) %s' % (v['id'], v['count'], v['file']) for v in d['violations']) if d['violations'] else '', ' INCOMPLETE ' + str(d['incomplete'])[:200] if d['incomplete'] else '', ' UNSUP ' + str(d['unsupported'])[:300] if d['unsupported'] else ''), flush=True)
