#!/usr/bin/env python3
"""Decides one property:  check.py Cxx [--tier quick|thorough] [--only ENTRY] [--keep]

Compiles the property's harnesses against /repo/include as it is now, explores every entry symbolically, replays
every counterexample on a native build of the same sources, validates samples of explored paths natively."""
import argparse, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
NCPU = os.cpu_count() or 4
T0 = time.time()

RTF = '-std=c++11 -O1 -Xclang -disable-llvm-passes -gline-tables-only -fno-builtin -fno-access-control -D_GLIBCXX_ASSERTIONS -Wno-builtin-macro-redefined -emit-llvm -c'.split()
HF = ('-std=c++11 -O1 -Xclang -disable-llvm-passes -g -D_GLIBCXX_ASSERTIONS -Wno-builtin-macro-redefined -fno-access-control -fno-optimize-sibling-calls '
      '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,enum,bounds,return,unreachable -emit-llvm -c').split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def ensure_tools():
    """engine binary and runtime bitcode, built from /verif only"""
    os.makedirs(BUILD, exist_ok=True)
    es = glob.glob(HERE + '/engine/*'); rs = [HERE + '/rt/' + f for f in ('rt.cpp', 'sx.h', 'prefix.h')]
    ed = f'{BUILD}/engine-{digest(es)}'; rb = f'{BUILD}/rt-{digest(rs)}.bc'
    with open(BUILD + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        if not os.path.exists(ed + '/sx'):
            tmp = ed + '.tmp'
            jobs.append((['make', '-s', '-j8', '-C', HERE + '/engine', 'OUT=' + tmp, 'all'], tmp, ed))
        if not os.path.exists(rb):
            jobs.append((['clang++-18'] + RTF + ['-include', HERE + '/rt/prefix.h', '-I' + HERE + '/rt', HERE + '/rt/rt.cpp', '-o', rb + '.tmp'], rb + '.tmp', rb))
        ps = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), a, b) for c, a, b in jobs]
        for p, a, b in ps:
            o, _ = p.communicate()
            if p.returncode: die('cannot build the engine\n' + o)
            os.rename(a, b)
    return ed + '/sx', rb

def die(msg):
    print('CHECK-ERROR ' + msg, flush=True); cleanup(); os._exit(2)

RUN = f'{BUILD}/run-{os.getpid()}'
KEEP = False
def cleanup():
    if not KEEP and os.path.isdir(RUN): shutil.rmtree(RUN, ignore_errors=True)

class CompileError(Exception): pass

def compile_bc(h, rb):
    src = f'{HERE}/harness/{h}.cpp'; o = f'{RUN}/{h}'
    steps = [['clang++-18'] + HF + ['-include', HERE + '/rt/prefix.h', '-I' + HERE + '/rt', '-I' + HERE + '/harness', f'-I{REPO}/include', src, '-o', o + '.h.bc'],
             ['llvm-link-18', o + '.h.bc', rb() if callable(rb) else rb, '-o', o + '.l.bc'],
             ['opt-18', '-passes=internalize,globaldce', o + '.l.bc', '-o', o + '.i.bc'],
             # conc: every store of the source has to survive (globalopt drops a static that is only read back at once), so no pass that deletes stores to globals
             ['opt-18', '-passes=' + ('function(sroa,instcombine<no-verify-fixpoint>,simplifycfg),inline,function(sroa,instcombine<no-verify-fixpoint>,simplifycfg),globaldce' if h == 'conc' else 'default<O1>'), '-vectorize-loops=false', '-vectorize-slp=false', o + '.i.bc', '-o', o + '.bc']]
    for s in steps:
        r = sh(s)
        if r.returncode: raise CompileError(f'compiling {h} failed: {" ".join(s[:1])}\n' + r.stdout[-4000:])
    return o + '.bc'

def compile_native(h, plain=False):
    kind = {False: 'san', True: 'plain'}.get(plain, plain); o = f'{RUN}/{h}.{kind}'
    f = ['-O0', '-g', '-w', '-fsanitize=thread', '-DSX_THREADS', '-pthread'] if plain == 'tsan' else ['-O0', '-g', '-w'] if plain is True else ['-O0', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment,null,object-size']
    r = sh(['g++', '-std=c++14' if plain == 'c++14' else '-std=c++11', '-DSX_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-fno-access-control', '-include', HERE + '/rt/prefix.h'] + f +
           ['-I' + HERE + '/rt', '-I' + HERE + '/harness', f'-I{REPO}/include', f'{HERE}/harness/{h}.cpp', HERE + '/rt/native.cpp', '-o', o])
    if r.returncode: return None, r.stdout[-3000:]
    return o, ''

def run_native(exe, entry, params, traces, timeout=20, valgrind=False):
    """traces: list of input lists; returns list of (status, text)"""
    tf = f'{RUN}/t{threading.get_ident()}-{time.time_ns()}.txt'
    with open(tf, 'w') as f:
        for t in traces:
            for n, w, v in t: f.write(f'{n} {w} {v}\n')
            f.write('--\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66:die_after_fork=0')
    cmd = [exe, entry, ','.join(map(str, params)) or '0', tf, str(timeout)]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99', '--trace-children=yes'] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60 + timeout * 3, errors='replace', text=True)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        out, err = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'replay timed out'
    res = []
    for part in out.split('TRACE ')[1:]:
        body = part.split('\n', 1)[1] if '\n' in part else ''
        st = None
        lines = []
        for l in body.split('\n'):
            if l.startswith('STATUS '): st = l[7:].strip()
            elif l: lines.append(l)
        res.append((st, lines))
    while len(res) < len(traces): res.append((None, []))
    return res, err

class Slots:
    def __init__(s, n): s.n = n; s.free = n; s.c = threading.Condition()
    def get(s, k):
        k = min(k, s.n)
        with s.c:
            while s.free < k: s.c.wait()
            s.free -= k
        return k
    def put(s, k):
        with s.c: s.free += k; s.c.notify_all()

def explore(sx, bc, e, idx, tier, seed, slots, deadline):
    out = f'{RUN}/o{idx}.json'
    jobs = slots.get(e.get('jobs', 1))
    try:
        t = min(e['t'], max(3, deadline - time.time()))
        cmd = [sx, bc, '--entry', e['e'], '--param', ','.join(map(str, e['p'])) or '0', '--out', out, '--time', str(t), '--samples', str(e.get('samples', 3)),
               '--seed', str(seed), '--query-timeout', str(e.get('qt', 20000)), '--max-viol', '4', '--max-inst', str(e.get('maxinst', 30000000))]
        if jobs > 1: cmd += ['--jobs', str(jobs)]
        cmd += e.get('opts', [])
        try: r = sh(cmd, timeout=t + 90)
        except subprocess.TimeoutExpired: r = None
    finally: slots.put(jobs)
    tot = dict(entry=e['e'], params=e['p'], harness=e['h'], note=e.get('note', ''), incomplete=[], covers={}, violations=[], samples=[], functions=set(), lines=set())
    fs = [f for f in [out] + sorted(glob.glob(out + '.*')) if os.path.exists(f)]
    if not fs or r is None or r.returncode not in (0, 1): tot['incomplete'].append('engine failure: ' + (r.stdout[-500:] if r else 'time'))
    for f in fs:
        try: d = json.load(open(f, errors='replace'))
        except Exception as x: tot['incomplete'].append('unreadable output ' + str(x)[:80]); continue
        for k, v in d.items():
            if k in ('incomplete', 'violations', 'samples'): tot[k] += v
            elif k in ('functions', 'lines'): tot[k] |= {json.dumps(x) if not isinstance(x, str) else x for x in v}
            elif k == 'covers':
                for c, n in v.items(): tot['covers'][c] = tot['covers'].get(c, 0) + n
            elif k in ('maxq', 'maxDepth', 'maxPathInst', 'wall'): tot[k] = max(tot.get(k, 0), v)
            elif isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
    tot['incomplete'] = sorted(set(map(str, tot['incomplete'])))
    return tot

def confirm(v, e, nat):
    """native confirmation of an engine counterexample; returns (confirmed, text)"""
    exe, err = nat(e['h'], 'tsan' if v['kind'] == 'race' else False)    # a race is replayed with two threads under ThreadSanitizer
    if not exe: return False, 'native build failed: ' + err
    traces = [v['inputs']]
    if e.get('replay_sweep'):      # an input whose exact value depends on the library build (allocation index)
        nm, hi = e['replay_sweep']
        traces += [[[n, w, k if n == nm else x] for n, w, x in v['inputs']] for k in range(hi)]
    res, err = run_native(exe, e['e'], e['p'], traces, timeout=10)
    for i, (st, lines) in enumerate(res):
        c = (st or '?').split()[0]
        if c in ('0', '20', '21', '?'): continue
        if c == '2': continue
        what = [l for l in lines if l.startswith(('ASSERT', 'UNCAUGHT', 'LEAK'))]
        return True, f'status {st} {what} {err[-3000:]}'
    if v['kind'] == 'memory':      # C++14 adds the library's own index assertions in constexpr members
        exe, er = nat(e['h'], 'c++14')
        if exe:
            res, err = run_native(exe, e['e'], e['p'], [v['inputs']], timeout=10)
            if (res[0][0] or '0').split()[0] not in ('0', '2', '20', '21', '?'): return True, f'status {res[0][0]} {err[-3000:]}'
    if v['kind'] == 'uninit' or v['kind'] == 'memory':
        exe, er = nat(e['h'], True)
        if exe:
            res, err = run_native(exe, e['e'], e['p'], [v['inputs']], timeout=60, valgrind=True)
            if 'uninitialised' in err or 'Invalid' in err or (res[0][0] or '0').split()[0] not in ('0', '20', '21'): return True, 'valgrind: ' + err[-3000:]
    return False, f'native status {[r[0] for r in res[:3]]} {err[-500:]}'

def known():
    f = HERE + '/known_findings.txt'; r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known:'): r.append(l[6:].strip())     # known: property=Cxx entry=<e> params=<p> match=<text> | description
    return r

def main():
    global KEEP
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--time', type=float); ap.add_argument('--budget', type=float)
    a = ap.parse_args(); KEEP = a.keep
    if a.prop == 'setup':
        ensure_tools(); print('built'); return 0
    import specs
    sp = specs.SPECS[a.prop]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ents = [dict(e) for e in sp['entries'] if tier == 'thorough' or e.get('tier', 'quick') == 'quick']
    if tier == 'thorough':
        for e in ents: e['t'] = e.get('tt', max(e['t'] * 4, 120))
    if a.only: ents = [e for e in ents if a.only in f"{e['e']}:{','.join(map(str, e['p']))}"]
    if a.time:
        for e in ents: e['t'] = a.time
    deadline = T0 + (a.budget or (sp.get('budget', 240) if tier == 'quick' else 3600))
    os.makedirs(RUN, exist_ok=True)
    hs = sorted({e['h'] for e in ents})
    pool = ThreadPoolExecutor(64)
    tools = pool.submit(ensure_tools)
    bcs = {h: pool.submit(compile_bc, h, lambda: tools.result()[1]) for h in hs}
    nats = {}; nlock = threading.Lock()
    def nat_future(h, plain):
        with nlock:
            if (h, plain) not in nats: nats[(h, plain)] = pool.submit(compile_native, h, plain)
            return nats[(h, plain)]
    nat = lambda h, plain: nat_future(h, plain).result()
    for h in hs: nat_future(h, False)
    slots = Slots(NCPU)
    order = sorted(range(len(ents)), key=lambda i: (-ents[i].get('prio', 0), -ents[i].get('jobs', 1), -ents[i]['t']))
    def one(i):
        e = ents[i]; sx = tools.result()[0]
        try: bc = bcs[e['h']].result()
        except CompileError as x: return dict(entry=e['e'], params=e['p'], harness=e['h'], note=e.get('note', ''), incomplete=['not explored: ' + str(x).split('\n')[0] + ' ' + next((l for l in str(x).split('\n') if 'error:' in l), '')], covers={}, violations=[], samples=[], functions=set(), lines=set())
        return explore(sx, bc, e, i, tier, seed, slots, deadline)
    futs = {i: pool.submit(one, i) for i in order}
    res = [futs[i].result() for i in range(len(ents))]
    bad = [f.exception() for f in bcs.values() if f.exception()]
    if len(bad) == len(bcs): die(str(bad[0]))
    # ---- counterexamples
    viol = []; unconfirmed = []; kf = known(); kfhit = []
    seen = {}
    def judge(e, r):
        for v in r['violations']:
            key = (e['h'], v['kind'], v['msg'], v.get('loc'))
            if seen.get(key, 0) >= 2: continue
            seen[key] = seen.get(key, 0) + 1
            ok, txt = confirm(v, e, nat)
            item = dict(entry=e['e'], params=e['p'], harness=e['h'], kind=v['kind'], msg=v['msg'], loc=v.get('loc'), stack=v.get('stack'), inputs=v['inputs'], native=txt)
            if not ok: unconfirmed.append(item); seen[key] -= 1; seen[key + ('u',)] = seen.get(key + ('u',), 0) + 1; 
            else:
                k = next((k for k in kf if matches(k, a.prop, item)), None)
                if k: kfhit.append(k)
                else: viol.append(item)
            if seen.get(key + ('u',), 0) >= (8 if v['kind'] == 'memory' else 3): seen[key] = 9
    for e, r in zip(ents, res): judge(e, r)
    # reads of uninitialised storage that the native build does not show: its compiler may clear that storage, so look at what happens then
    cleared = [i for i, r in enumerate(res) if any(v['kind'] == 'uninit' for v in r['violations'])][:32]
    if cleared and not viol:
        def again(i): return explore(tools.result()[0], bcs[ents[i]['h']].result(), dict(ents[i], opts=['--zero-uninit']), f'z{i}', tier, seed, slots, deadline)
        for i, r in zip(cleared, list(pool.map(again, cleared))):
            for k in ('incomplete', 'violations', 'samples', 'functions', 'lines'): r[k] = type(r[k])(list(r[k]) + list(res[i][k])) if k != 'violations' else r[k]
            res[i] = r; judge(ents[i], r)
    # ---- validation of sampled paths against the native build
    validated = 0; mism = []; natfail = []
    samples = []
    def val(i):
        e, r = ents[i], res[i]; got = []
        if not r['samples']: return got
        exe, err = nat(e['h'], False)
        if not exe: return [('build', err, None)]
        rs, err = run_native(exe, e['e'], e['p'], [s['inputs'] for s in r['samples']])
        for s, (st, lines) in zip(r['samples'], rs):
            want = [l for l in s['obs'].split('\n') if l]; c = (st or '?').split()[0]
            if c == '0' and (e.get('noobs') or want == [l for l in lines]): got.append(('ok', s, lines))
            elif c == '0': got.append(('mismatch', s, lines))
            else: got.append(('fail', s, lines + [f'status {st}', err[-1500:]]))
        return got
    for i, g in enumerate(list(pool.map(val, range(len(ents))))):
        e = ents[i]
        for kind, s, lines in g:
            if kind == 'ok':
                validated += 1
                if len(samples) < 12: samples.append(dict(entry=e['e'], params=e['p'], inputs=compact(s['inputs']), observed=lines[:6]))
            elif kind == 'mismatch': mism.append(dict(entry=e['e'], params=e['p'], inputs=compact(s['inputs']), engine=s['obs'], native=lines))
            elif kind == 'build': mism.append(dict(entry=e['e'], native='build failed ' + s))
            elif not e.get('replay_sweep'):
                c = [l for l in lines if l.startswith('status')]
                if any(x.split()[1] in ('20', '21', 'None', '?') for x in c): mism.append(dict(entry=e['e'], params=e['p'], inputs=compact(s['inputs']), native=lines))
                else: natfail.append(dict(entry=e['e'], params=e['p'], harness=e['h'], kind='native', msg='a concrete replay of an explored path fails', loc='', stack=[], inputs=s['inputs'], native='\n'.join(lines)))
    viol += natfail
    # ---- report
    covers = {}
    for r in res:
        for c, n in r['covers'].items(): covers[c] = covers.get(c, 0) + n
    missing = [c for c in sp.get('covers', []) if not covers.get(c)] if not a.only else []
    S = lambda k: sum(r.get(k, 0) for r in res)
    inc = [f"{r['entry']}({','.join(map(str, r['params']))}): {x}" for r in res for x in r['incomplete']]
    fns = set().union(*[r['functions'] for r in res]) if res else set()
    ours = sorted({demangle_short(f) for f in fns if 'configor' in f})
    reported = []
    if viol:
        rd = f'{BUILD}/replay/{a.prop}'; shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        for n, v in enumerate(viol[:8]):
            p = f'{rd}/{n}.txt'
            with open(p, 'w') as f:
                f.write(f"# property {a.prop}: {v['kind']}: {v['msg']} at {v['loc']}\n# entry {v['entry']} params {v['params']} (harness/{v['harness']}.cpp)\n# native: " + v['native'].replace('\n', '\n# ') + '\n')
                f.write('# stack: ' + ' < '.join(map(str, v['stack'] or [])) + '\n# inputs: ' + json.dumps(compact(v['inputs'])) + '\n')
                f.write(f"# reproduce: python3 /verif/check.py replay {p}\n#@ {v['harness']} {v['entry']} {','.join(map(str, v['params']))}\n")
                for nme, w, x in v['inputs']: f.write(f'{nme} {w} {x}\n')
                f.write('--\n')
            reported.append(p)
    ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking', violations=len(viol), wall_s=round(time.time() - T0, 2), coverage=dict(
        states=int(S('paths')), transitions=int(S('forks')), traces_validated_against_impl=validated, samples=samples or [dict(note='no sample')],
        exhaustive=not inc, explanation='states = execution paths explored to their end (each stands for all inputs satisfying its path condition); transitions = forks decided by the solver',
        instructions=int(S('insts')), assertions_checked=int(S('asserts')), assertion_queries=int(S('assertQueries')), solver_queries=int(S('queries')), z3_calls=int(S('z3calls')), sat=int(S('sat')), unsat=int(S('unsat')), unknown=int(S('unknown')), decided_by_complete_evaluation=int(S('enum8')), decided_by_intervals=int(S('interval')), solver_time_s=round(S('z3time'), 2), longest_query_s=round(max([r.get('maxq', 0) for r in res] or [0]), 3),
        exception_paths=int(S('errPaths')), covers=covers, uncovered=missing,
        entries=[dict(entry=r['entry'], params=r['params'], note=r['note'], paths=int(r.get('paths', 0)), queries=int(r.get('queries', 0)), wall_s=round(r.get('wall', 0), 2), complete=not r['incomplete']) for r in res],
        incomplete=inc, functions_encoded=ours, functions_encoded_total=len(fns), lines_covered=lines_of(res),
        engine_mismatches=mism[:10], unconfirmed=[dict(u, inputs=compact(u['inputs'])) for u in unconfirmed[:10]], known_findings=sorted(set(kfhit))),
        assumptions=sp.get('assume', []) + ['bounds: the sizes given by the parameters of the listed entries; loops and recursion unrolled fully within them'])
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{a.prop}.json', 'w'), indent=1)
    print(f"{a.prop} {tier}: {int(S('paths'))} paths, {int(S('asserts'))} assertions, {int(S('queries'))} queries ({round(S('z3time'),1)} s solver), {validated} traces validated, wall {time.time()-T0:.1f} s")
    if a.v:
        for r in res: print(f"   {r['entry']}{r['params']} paths {int(r.get('paths',0))} q {int(r.get('queries',0))} z3 {r.get('z3time',0):.1f} wall {r.get('wall',0):.1f} {'INCOMPLETE' if r['incomplete'] else ''}")
        print('   covers', covers)
    for x in inc: print('INCOMPLETE', x)
    for u in unconfirmed: print('UNCONFIRMED', u['entry'], u['params'], u['kind'], u['msg'], u['loc'], json.dumps(compact(u['inputs'])), u['native'][:300])
    for m in mism: print('ENGINE-MISMATCH', json.dumps(m)[:900])
    for c in missing: print('UNCOVERED', c)
    for k in sorted(set(kfhit)): print(f"KNOWN-FINDING: property={a.prop} {k.split('|',1)[-1].strip()}")
    for v, p in zip(viol, reported):
        print('  ', v['entry'], v['params'], v['kind'], v['msg'], v['loc'], json.dumps(compact(v['inputs'])))
        print(f'VIOLATION property={a.prop} replay={p}')
    cleanup()
    if viol: return 1
    if not S('paths') or (os.environ.get('VERIF_STRICT') and (mism or missing or unconfirmed or inc)): return 2
    return 0

def matches(k, prop, item):
    head = k.split('|')[0]
    f = dict(x.split('=', 1) for x in head.split() if '=' in x)
    if f.get('property') != prop or f.get('entry') != item['entry']: return False
    if 'params' in f and f['params'] != ','.join(map(str, item['params'])): return False
    return f.get('match', '').replace('_', ' ') in item['msg']

def compact(inp):
    o = []
    for n, w, v in inp:
        if o and o[-1][0] == n and w == 8: o[-1][1].append(int(v))
        else: o.append([n, [int(v)]])
    return {f'{i}:{n}': (x if len(x) > 1 else x[0]) for i, (n, x) in enumerate(o)}

def demangle_short(f): return f
def lines_of(res):
    per = {}
    for r in res:
        for l in r['lines']:
            try: x = json.loads(l)
            except Exception: x = l
            if isinstance(x, str) and ':' in x: f, n = x.rsplit(':', 1)
            else: continue
            if '/include/configor/' in f: per.setdefault(f.split('/include/')[-1], set()).add(n)
    return {f: len(n) for f, n in sorted(per.items())}

def replay(path):
    ensure = [l for l in open(path) if l.startswith('#@')][0].split()
    h, e, p = ensure[1], ensure[2], (ensure[3].split(',') if len(ensure) > 3 else [])
    os.makedirs(RUN, exist_ok=True)
    exe, err = compile_native(h)
    if not exe: die(err)
    tr = [(l.split()[0], l.split()[1], l.split()[2]) for l in open(path) if not l.startswith(('#', '--')) and l.strip()]
    res, err = run_native(exe, e, p, [tr]); print(res, err); cleanup(); return 1 if (res[0][0] or '?').split()[0] != '0' else 0

if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == 'replay': sys.exit(replay(sys.argv[2]))
    rc = 2
    try: rc = main()
    except SystemExit: raise
    except BaseException as x:
        import traceback; traceback.print_exc(); cleanup(); rc = 2
    sys.stdout.flush(); os._exit(rc)
