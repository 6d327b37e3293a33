#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree.

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery could not decide."""
import concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS

V = vlib.VERIF
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

def known_findings():
    """property -> ids listed as known (the 'fixed:' lines suppress nothing)"""
    out = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out

def parse_job(j):
    p = j.split()
    return dict(harness=p[0], args='' if len(p) < 2 or p[1] == '-' else p[1], opts=[x for x in p[2:] if x != '--points'], points='--points' in p[2:], variant=vlib.variant(p[0], '--points' in p[2:]))

def run_job(pid, job, bc, out, known, budget, thorough):
    d = os.path.join(out, '%s_%s%s' % (job['harness'], job['args'].replace(',', '_'), '_pt' if job['points'] else ''))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = [vlib.ENGINE, 'run', bc, job['harness'], '--args', job['args'], '--out', d, '--own', pid]
    for k in SPECS[pid].get('skip', ()):
        cmd += ['--skip', k]
    opts = list(job['opts'])
    if '--time' not in opts:
        cmd += ['--time', str(max(5, int(budget)))]
    for k in known:
        cmd += ['--known', k]
    r = subprocess.run(cmd + opts, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        res = json.loads(r.stdout)
    except ValueError:
        res = dict(error=(r.stdout[-300:] + r.stderr[-700:]).decode(errors='replace') + ' (exit %d)' % r.returncode)
    res['job'] = job
    res['dir'] = d
    return res

def demangle(names):
    r = subprocess.run([vlib.LT + '/llvm-cxxfilt'] if os.path.exists(vlib.LT + '/llvm-cxxfilt') else ['c++filt', '-s', 'rust'], input='\n'.join(names), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.splitlines() if r.returncode == 0 else names

def ours(names):
    """the functions of the repository among those executed symbolically"""
    mine = sorted({n for n in names if re.search(r'\d+wruster|5dummy|7statics', n) and 'drop_glue' not in n})
    out = []
    for d in demangle(mine):
        d = re.sub(r'\[[0-9a-f]{6,}\]', '', d)
        if re.search('wruster|dummy::|statics::', d.split('harness')[0]) and d not in out:
            out.append(d)
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    spec = SPECS[pid]
    jobs = [parse_job(j) for j in spec[tier]]
    out = os.path.join(V, 'build', 'out', pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    variants = sorted({j['variant'] for j in jobs})
    native = {}
    def build_natives():
        for p in variants:
            native[p] = vlib.build_native(p)
    bcs = {}
    with vlib.lock():
        vlib.build_engine()
        key = vlib.tree_key()
        for p in variants:
            bcs[p] = vlib.build_final(p)
    nat_err = []
    def nat():
        try:
            with vlib.lock():
                build_natives()
        except Exception as e:
            nat_err.append(str(e))
    nt = threading.Thread(target=nat)
    nt.start()
    kf = known_findings().get(pid, {})
    deadline = t0 + (14000 if thorough else 780)
    t1 = time.time()
    results = []
    stop = threading.Event()
    def go(j):
        if stop.is_set():
            return None
        r = run_job(pid, j, bcs[j['variant']], out, kf, min(deadline - time.time(), 3600 if thorough else 600), thorough)
        if any(v['id'] not in kf for v in r.get('violations', [])):
            stop.set()
        return r
    # the jobs most likely to take long first
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(go, jobs):
            if r:
                results.append(r)
    t2 = time.time()
    nt.join()
    # ---- replay on the machine code ---------------------------------------
    def replay(job, f, secs):
        exe = native.get(job['variant'])
        if not exe:
            return None, 'no native program: ' + ' '.join(nat_err)[:300]
        try:
            r = subprocess.run([exe, f, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 30, env=dict(vlib.ENV, REPLAY_OWN=pid))
            return r.returncode, r.stdout.decode(errors='replace').strip().splitlines()[-1:] or ['']
        except subprocess.TimeoutExpired:
            return 10, ['FAILED nontermination']
    violations, unconfirmed, seen_known = [], [], {}
    for r in results:
        for v in r.get('violations', []):
            if v['id'] in kf:
                seen_known[v['id']] = v
                continue
            rc, text = replay(r['job'], v['file'], 20)
            (violations if rc == 10 else unconfirmed).append((r, v, rc, text))
    validated, disagree = 0, []
    sample_files = [(r['job'], os.path.join(r['dir'], f)) for r in results if 'dir' in r for f in sorted(os.listdir(r['dir'])) if f.startswith('ok')]
    limit = 2000 if thorough else 160
    step = max(1, len(sample_files) // limit)
    for job, f in sample_files[::step]:
        rc, text = replay(job, f, 20)
        if rc == 0:
            validated += 1
        elif rc is not None:
            disagree.append('%s: %s' % (f, text))
    # ---- evidence -----------------------------------------------------------
    errors = ['%s %s: %s' % (r['job']['harness'], r['job']['args'], r['error']) for r in results if 'error' in r]
    good = [r for r in results if 'error' not in r]
    tot = lambda k: sum(r[k] for r in good)
    incomplete = sorted({'%s %s: %s' % (r['job']['harness'], r['job']['args'], i) for r in good for i in r['incomplete'] + ['unsupported: ' + u for u in r['unsupported']]})
    covers, ids, fns = {}, {}, set()
    for r in good:
        for k, n in r['covers'].items(): covers[k] = covers.get(k, 0) + n
        for k, n in r['assert_ids'].items(): ids[k] = ids.get(k, 0) + n
        fns.update(r['functions'])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(states=tot('forks') + tot('paths'), transitions=tot('instructions'), traces_validated_against_impl=validated,
                            samples=[dict(harness=r['harness'], args=r['args'], inputs=r['samples'][-1]) for r in good if r['samples']][:12],
                            exhaustive=not incomplete and not errors and not violations,
                            explanation='Symbolic execution of the compiled code (LLVM bitcode of the current tree): states = symbolic states (path prefixes) explored, transitions = instructions executed symbolically, traces_validated = finished paths whose solved inputs were replayed on machine code of the same program with the same outcome.',
                            harness_runs=len(good), paths=tot('paths'), paths_finished=tot('ended'), assertions_checked=tot('asserts'), assertion_queries=tot('assert_queries'), solver_queries=tot('queries'), solver_sat=tot('sat'), solver_unsat=tot('unsat'), solver_unknown=tot('unknown'),
                            byte_domain_decisions=tot('domain_decisions'), byte_domain_refusals_confirmed_by_solver=tot('confirmed'), answers_from_cache=tot('cached'), paths_kept_by_concrete_model=tot('model_hits'), solver_time_s=round(tot('solver_time'), 3), longest_query_s=max([r['max_query'] for r in good] or [0]), thread_switches=tot('thread_switches'),
                            assertions={k: ids[k] for k in sorted(ids)}, situations_reached={k: covers[k] for k in sorted(covers)}, functions_encoded=ours(fns), functions_total=len(fns),
                            bounds=spec['bounds'], outside_bounds=spec['outside'], not_finished=incomplete, repository_tree=key, jobs=['%s(%s)%s: %d paths, %.1f s' % (r['harness'], ','.join(map(str, r['args'])), ' preemptive' if r['job']['points'] else '', r['paths'], r['time']) for r in good]),
              assumptions=['rustc and LLVM compile the harness program faithfully', 'the symbolic engine interprets LLVM bitcode faithfully (spot-checked by native replay)'] + (['the operating system behaves as model/os.c says'] if tot('thread_switches') or any(f.startswith('m_') for f in fns) else []))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', pid + '.json'))
    # ---- verdict ------------------------------------------------------------
    print('%s %s: %d runs, %d paths, %d assertions, %d queries (%.1f s solver), %d replays agree, %.0f s build, %.0f s run, %.0f s total' % (pid, tier, len(good), ev['coverage']['paths'], ev['coverage']['assertions_checked'], ev['coverage']['solver_queries'], ev['coverage']['solver_time_s'], validated, t1 - t0, t2 - t1, time.time() - t0))
    if '-v' in sys.argv:
        for r in sorted(good, key=lambda r: -r['time'])[:12]:
            print('  %-40s %7d paths %6.1f s' % (r['harness'] + ' ' + ','.join(map(str, r['args'])), r['paths'], r['time']))
    for i in incomplete[:20]:
        print('NOTE not finished:', i[:300])
    for k in kf:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    done = set()
    for r, v, rc, text in violations:
        if v['id'] in done:
            continue
        done.add(v['id'])
        print('VIOLATION property=%s replay=%s' % (pid, v['file']))
        print('  %s in %s(%s), confirmed on machine code: %s' % (v['id'], r['harness'], r['job']['args'], text))
        for l in open(v['file']).read().splitlines()[:12]:
            print('  | ' + l[:200])
    if violations:
        return 1
    for r, v, rc, text in unconfirmed:
        print('ERROR not confirmed by native replay (%s %s): %s %s' % (rc, text, v['id'], v['file']))
    for e in errors + disagree + nat_err:
        print('ERROR', e[:600])
    if unconfirmed or errors or disagree:
        return 2
    if not good or any(r['ended'] == 0 and not r['violations'] for r in good):
        print('ERROR: a run finished no path:', [(r['harness'], r['args']) for r in good if r['ended'] == 0][:5])
        return 2
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except vlib.BuildError as e:
        print('ERROR: build failed\n' + str(e)[-4000:])
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
