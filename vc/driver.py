"""Decide one property: prove every obligation of its configurations; replay what fails."""
import os, sys, time, json, random, subprocess, multiprocessing as mp, traceback, struct, hashlib, math
from multiprocessing.connection import wait
from .core import *
from . import core, front, specs, sx, check, native, ionative

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(ROOT, 'evidence')
FUN = ('post', 'range', 'value', 'exit', 'vacuity')
MEM = ('bounds', 'null', 'free', 'uninit', 'overflow', 'div0', 'leak', 'frame', 'ub')
PURE = ('pure', 'state', 'uninit')
TERM = ('termination', 'loopvar', 'mid')
ASPECT = {'post': FUN, 'value': FUN, 'exit': FUN, 'memory': MEM, 'leak': MEM, 'frame': MEM, 'termination': TERM, 'pure': PURE, 'refuse': FUN}
ALLKINDS = set(FUN + MEM + PURE + TERM)

def plan(pid):
    """(configuration keys, obligation kinds, native aspects)"""
    sup = [k for k, c in specs.CONFIGS.items() if not c.refuse]
    if pid == 'C16': return list(specs.CONFIGS), MEM, ('memory', 'leak', 'frame')
    if pid == 'C17': return [k for k in sup if specs.CONFIGS[k].pure], PURE, ('pure',)
    if pid == 'C24': return sup, TERM, ('termination',)
    if pid == 'C18': return [k for k, c in specs.CONFIGS.items() if c.refuse] + sup, ('exit', 'refuse'), ('refuse', 'exit')
    return [k for k, c in specs.CONFIGS.items() if c.prop == pid], FUN + ('refuse',), ('post', 'value', 'exit', 'refuse')

# expected proof times in seconds (only used to start the long ones first)
SLOW = {'avgpool4_pad_excl': 45, 'weights_conv4': 40, 'weights_conv3': 30, 'conv4_pad_bias_grp': 26, 'avgpool3_pad_excl': 24, 'maxpool3_pad': 21, 'weights_noconv': 20,
        'conv3_pad_bias': 19, 'conv4_pad_bias': 16, 'conv4_grp': 15, 'eq_3_3': 15, 'concat4_4': 15, 'conv4_pad': 14, 'refin3': 14, 'conv3_pad_bias_grp': 14, 'avgpool3_pad': 12}

WANT = ALLKINDS
def _prove(mod, key, conn):
    try:
        sys.setrecursionlimit(20000)
        conn.send(check.run_config(mod, key, WANT))
    except BaseException as e:
        r = check.Result(key); r.unsupported = 'internal: %s' % e; r.by = {}; r.queries = 0; r.z3_time = 0
        conn.send(r)
    conn.close()

def prove_all(mod, keys, deadline, jobs=8):
    ctx = mp.get_context('fork'); pend = sorted(keys, key=lambda k: -SLOW.get(k, 0)); run = {}; res = {}
    def lost(key, why):
        r = check.Result(key); r.unsupported = why; r.by = {}; r.queries = 0; r.z3_time = 0; res[key] = r
    while pend or run:
        while pend and len(run) < jobs and time.time() < deadline:
            k = pend.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=_prove, args=(mod, k, b)); p.start(); b.close(); run[a] = (k, p)
        if time.time() >= deadline:
            for a, (k, p) in run.items(): p.kill(); lost(k, 'time limit'); p.join()
            for k in pend: lost(k, 'time limit')
            break
        for a in wait(list(run), timeout=1.0):
            k, p = run.pop(a)
            try: res[k] = a.recv()
            except (EOFError, OSError): lost(k, 'verifier process died')
            p.join(); a.close()
    return res

# ------------------------------------------------------------------ concrete search
def harvest(mod, names):
    """integer and float constants the code compares with or computes remainders of"""
    ints, floats = set(), set()
    def consts(t):
        if not isinstance(t, (tuple, list)): return
        if len(t) == 3 and t[0] == 'int' and isinstance(t[2], int): 
            if 2 < abs(t[2]) < 5000: ints.add(abs(t[2]))
        elif len(t) == 3 and t[0] == 'fp' and isinstance(t[2], float):
            if math.isfinite(t[2]) and abs(t[2]) < 1e6: floats.add(t[2])
        else:
            for x in t: consts(x)
    for n in names:
        f = mod.functions.get(n)
        if f is None or not getattr(f, 'blocks', None): continue
        for b in f.blocks.values():
            for i in b.instrs:
                if i.op in ('icmp', 'fcmp', 'select') or (isinstance(i.op, str) and ('rem' in i.op or 'div' in i.op or i.op in ('and', 'switch', 'bin'))): consts(i.a)
    return sorted(ints), sorted(floats)

def pure_probe(N, cf, env, mi, base):
    """same inputs, different surroundings: the output must be bit-for-bit the same"""
    text, arrays, u = mi
    if cf.out not in base.tensors: return None
    ref = base.tensors[cf.out]
    def cmp(o, what):
        if o.crash() or cf.out not in o.tensors: return None
        return what if not native.same(o.tensors[cf.out], ref) else None
    for fill in (0, 0x7e):
        w = cmp(N.run(text, fill=fill), 'fresh memory filled with 0x%02x' % fill)
        if w: return w, text
    lines = text.split('\n')
    if cf.out in arrays and cf.out == 'out' and cf.scenario not in ('padinto_',):
        alt = '\n'.join(('t out ' + ' '.join((float('nan') if i % 3 == 0 else -3e30).hex() for i in range(len(arrays['out'])))) if l.startswith('t out') else l for l in lines)
        w = cmp(N.run(alt), 'a different previous content of the output')
        if w: return w, alt
    if cf.drives:
        keep = [l for l in lines if not l.startswith(('u history', 'u twice'))]
        for extra, what in (('u history 3', 'earlier runs of the layer on other data'), ('u twice 1', 'running twice on the same tensors')):
            t = '\n'.join(keep[:1] + [extra] + keep[1:])
            w = cmp(N.run(t), what)
            if w: return w, t
    return None

def sample(N, cf, rng, aspects, ints=(), floats=(), hi=6, fixed=None, wide=False):
    """one concrete run; returns (ran, failure or None)"""
    if cf.io:
        sd = rng.getrandbits(48); case = ionative.GEN[cf.io['gen']](random.Random(sd)); bad = ionative.check(case, ionative.run(N, case))
        hit = [b for b in bad if b[0] in aspects]
        if not hit: return True, None
        f = 'absent' if case.file is None else case.file[:20000].hex()
        return True, (hit, 'case %s %d\n# the file: %s\n# the call:\n%s' % (cf.io['gen'], sd, f, '\n'.join('# ' + l for l in case.text('FILE').splitlines()) + '\n'), {})
    env = native.assignment(cf, rng, hi, ints, fixed, wide=wide and rng.random() < 0.4)
    if env is None: return False, None
    h, t = rng.choice([(0, 0), (0, 0), (2, 0), (0, 1)]) if cf.drives else (0, 0)
    mi = native.make_input(cf, rng, env, special=floats, history=h, twice=t)
    if mi is None: return False, None
    text, arrays, u = mi
    out = N.run(text, timeout=10)
    if out.rc == 'timeout':
        out = N.run(text, timeout=30)
    bad = [b for b in native.judge(cf, env, arrays, u, out, aspects) if b[0] != 'harness']
    if [b[0] for b in bad] == ['memory'] and 'memory' not in aspects and 'post' in aspects:
        # an invalid access is the business of another property: what does the run compute all the same?
        why = bad[0][1]; out = N.run(text, timeout=10, go_on=True)
        bad = [(a, w + ' (after ' + why + ')') for a, w in native.judge(cf, env, arrays, u, out, aspects) if a != 'harness']
    hit = [b for b in bad if b[0] in aspects]
    if hit: return True, (hit, text, env)
    if 'pure' in aspects and not bad:
        w = pure_probe(N, cf, env, mi, out)
        if w: return True, ([('pure', 'the output changes with ' + w[0])], w[1], env)
    return True, None

def _searcher(N, cf, seed, aspects, ints, floats, end, limit, conn):
    sys.setrecursionlimit(20000)
    rng = random.Random(seed); n = 0; tries = 0; err = None
    try:
        while time.time() < end and n < limit and tries < 20*limit:
            tries += 1
            try: ran, hit = sample(N, cf, rng, aspects, ints, floats, hi=rng.choice([3, 4, 6, 8]), wide=limit > 500)
            except (native.Skip, KeyError, native.Amb, OverflowError, IndexError) as e: err = repr(e); continue
            n += ran
            if hit: conn.send((n, hit, None)); conn.close(); return
    except BaseException as e: err = repr(e)
    conn.send((n, None, err)); conn.close()

def search(N, jobs_, seed, secs, limit, aspects, procs=8, stop_first=True):
    """jobs_: list of (cf, ints, floats); spread over processes.  -> (runs, {key: (hit)})"""
    ctx = mp.get_context('fork'); end0 = time.time() + secs
    work = []
    per = max(1, procs//max(1, len(jobs_)))
    for i, (cf, ints, floats) in enumerate(jobs_):
        for j in range(per): work.append((cf, ints, floats, seed*1000003 + i*101 + j))
    total = 0; hits = {}; counts = {}; run = {}
    slots = max(1, (len(work) + procs - 1)//procs); each = secs/slots
    while work or run:
        while work and len(run) < procs:
            cf, ints, floats, sd = work.pop(0)
            if stop_first and cf.key in hits: continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_searcher, args=(N, cf, sd, aspects, ints, floats, time.time() + each, limit, b)); p.start(); b.close(); run[a] = (cf, p)
        for a in wait(list(run), timeout=1.0):
            cf, p = run.pop(a)
            try: n, hit, err = a.recv()
            except (EOFError, OSError): n, hit = 0, None
            p.join(); a.close(); total += n; counts[cf.key] = counts.get(cf.key, 0) + n
            if hit: hits.setdefault(cf.key, hit)
        if time.time() > end0 + 60:
            for a, (cf, p) in run.items(): p.kill(); p.join()
            break
    return total, hits, counts

# ------------------------------------------------------------------ known findings
def known():
    """lines 'finding: property=<id> config=<key> kind=<kind> where=<prefix> :: text' of known-findings.txt"""
    out = []
    try: ls = open(os.path.join(ROOT, 'known-findings.txt')).read().splitlines()
    except OSError: return out
    for l in ls:
        if l.startswith('finding:'):
            head, _, text = l[8:].partition('::')
            d = dict(w.split('=', 1) for w in head.split()); d['text'] = text.strip(); out.append(d)
    return out
def matches(f, pid, key, o):
    return f['property'] == pid and f.get('config', key) == key and f.get('kind', o['kind']) == o['kind'] and o['where'].startswith(f.get('where', ''))

def demangle(names):
    try: return subprocess.run(['c++filt'] + [n.lstrip('@') for n in names], capture_output=True, text=True).stdout.split('\n')[:len(names)]
    except Exception: return list(names)

TRUSTED = [
    'clang 18 front end: the verified text is the LLVM IR (-O0, then sroa,mem2reg,loop-simplify,lcssa) of /repo\'s current sources; nothing is rewritten by hand; exceptions are compiled out (-fno-exceptions)',
    'the verifier in /verif/vc (symbolic executor, loop summaries, normaliser) and its axioms for memcpy/memset/new/delete/libm',
    'z3 4.8/5.x for the arithmetic obligations the built-in linear prover leaves open',
]
ASSUME = [
    'float sums, products and quotients are compared as real-number expressions over the same elements (no rounding analysis); comparisons, copies and constants are exact; expf, tanhf, powf, sqrtf are uninterpreted functions of their arguments',
    'memory allocation succeeds; iostream output and std::string have no effect on tensors',
    'every tensor has at most 2^29 elements and every extent is at least 1',
]

def write_replay(pid, n, key, obls, hit, note=''):
    d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%d.txt' % (pid, n))
    with open(p, 'w') as f:
        f.write('# property %s, configuration %s\n' % (pid, key))
        if note: f.write('# %s\n' % note)
        for o in obls: f.write('# failed obligation [%s] at %s: %s%s\n' % (o['kind'], o['where'], o['text'], (' -- ' + str(o['why'])[:1500]) if o.get('why') else ''))
        if hit:
            for a, m in hit[0]: f.write('# observed on the real code: [%s] %s\n' % (a, m))
            f.write('# replay: python3-vt run.py --replay %s\n' % p)
            f.write('config %s\n' % key); f.write('env %s\n' % json.dumps({k: v for k, v in hit[2].items() if isinstance(k, str)}))
            f.write(hit[1])
    return p

def decide(pid, tier='quick', seed=1, out=print):
    t0 = time.time(); budget = 820 if tier == 'quick' else 3000
    keys, kinds, aspects = plan(pid)
    cfs = specs.CONFIGS
    try: mod = front.extract()
    except front.BuildError as e:
        out('the sources do not build: %s' % str(e)[:500]); return 2
    bex = ThreadNative()
    global WANT
    WANT = set(kinds)
    res = prove_all(mod, keys, t0 + budget*0.62)
    N = bex.get()
    t_prove = time.time() - t0
    kf = known(); printed = set(); nviol = 0; violations = []
    failing, unsup = {}, []
    for k in keys:
        r = res[k]
        bad = [o for o in r.obls if not o['ok'] and o['kind'] in kinds]
        left = []
        for o in bad:
            fs = [f for f in kf if matches(f, pid, k, o)]
            if fs:
                if fs[0]['text'] not in printed: printed.add(fs[0]['text']); out('KNOWN-FINDING: property=%s %s' % (pid, fs[0]['text']))
            else: left.append(o)
        if left: failing[k] = left
        elif r.unsupported: unsup.append(k)
    # --- native: replay search for what failed, bounded stand-in for what the verifier could not take, conformance for the rest
    runs = 0; hits = {}; counts = {}
    samples = []
    if N is None:
        out('the sources do not build natively'); return 2
    def job(k):
        names = list(res[k].functions) if res[k].functions else []
        ints, floats = harvest(mod, names)
        return (cfs[k], ints, floats)
    left_t = max(40, budget - (time.time() - t0))
    try:
        if failing:
            n, h, c = search(N, [job(k) for k in failing], seed, min(110 if tier == 'quick' else 600, left_t*0.5), 4000, aspects); runs += n; hits.update(h); counts.update(c)
        if unsup:
            n, h, c = search(N, [job(k) for k in unsup], seed + 7, min(90 if tier == 'quick' else 400, left_t*0.3), 1500, aspects); runs += n; hits.update(h); counts.update(c)
        rest = [k for k in keys if k not in failing and k not in unsup]
        if rest:
            io = [k for k in rest if cfs[k].io]; rest = [k for k in rest if not cfs[k].io]
            per = 24 if len(rest) < 40 else 6
            if tier == 'thorough': per *= 20
            if rest:
                n, h, c = search(N, [job(k) for k in rest], seed + 13, min(60 if tier == 'quick' else 600, left_t*0.25), per, aspects); runs += n; hits.update(h); counts.update(c)
            one = list({cfs[k].io['gen']: k for k in io}.values())      # a generator covers all configurations of its function
            if one:
                n, h, c = search(N, [job(k) for k in one], seed + 17, min(60 if tier == 'quick' else 600, left_t*0.25), 40 if len(keys) > 200 else 400 if tier == 'quick' else 8000, aspects); runs += n; hits.update(h); counts.update(c)
    finally: N.close()
    for k in keys:
        o = failing.get(k, []); h = hits.get(k)
        if not o and not h: continue
        nviol += 1
        note = '' if o else ('the verifier reached no verdict (%s); found by the bounded stand-in' % res[k].unsupported if res[k].unsupported else 'found by the conformance run')
        p = write_replay(pid, nviol, k, o, h, note)
        violations.append((k, p, bool(h), o))
    # an input that fails is reported first
    violations.sort(key=lambda v: not v[2])
    for k, p, h, o in violations:
        for x in o[:3]: out('failed obligation: %s [%s] %s: %s' % (k, x['kind'], x['where'], x['text'][:200]))
        if h: out('  observed: %s' % '; '.join('%s: %s' % x for x in hits[k][0])[:400])
    anyhit = any(h for _, _, h, _ in violations)
    for k, p, h, o in violations[:6]:
        if h or not anyhit: out('VIOLATION property=%s replay=%s%s' % (pid, p, '' if h else ' no-failing-input-found'))
    # --- evidence
    obl = [o for k in keys for o in res[k].obls if o['kind'] in kinds]
    by = {}
    for k in keys:
        for b, n in (res[k].by or {}).items(): by[b] = by.get(b, 0) + n
    funs = sorted({f for k in keys for f in res[k].functions if not f.startswith('@sc_') and not f.startswith('@vh_')})
    assum = list(ASSUME) + sorted({a for k in keys for a in res[k].assumptions}) + ['uninterpreted: ' + m for m in sorted({m for k in keys for m in res[k].math})]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=nviol, assumptions=assum, coverage=dict(
        obligations=len(obl), discharged=sum(1 for o in obl if o['ok']), checker_cmd='cd /verif && python3-vt run.py %s' % pid, trusted_base=TRUSTED,
        configurations=len(keys), configurations_proved=sum(1 for k in keys if k not in failing and k not in unsup),
        configurations_bounded_only=[dict(config=k, reason=res[k].unsupported, bounded_runs=counts.get(k, 0)) for k in unsup],
        by_kind={x: [sum(1 for o in obl if o['kind'] == x and o['ok']), sum(1 for o in obl if o['kind'] == x)] for x in sorted({o['kind'] for o in obl})},
        solver_steps=by, z3_queries=sum(res[k].queries for k in keys), solver_seconds=round(sum(res[k].z3_time for k in keys), 2), proof_wall_s=round(t_prove, 1),
        loops_summarised=sum(res[k].loops for k in keys), functions_under_contract=len(funs), functions=demangle(funs),
        native_conformance_runs=runs,
        samples=[dict(config=k, obligation=o['text'][:160], kind=o['kind'], where=o['where'], ok=o['ok']) for k in keys[:6] for o in [x for x in res[k].obls if x['kind'] in kinds][-1:]]))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    out('%s: %d/%d obligations of %d configurations discharged (%d bounded only), %d functions, %d native runs, %.0f s' % (
        pid, ev['coverage']['discharged'], len(obl), len(keys), len(unsup), len(funs), runs, time.time() - t0))
    return 1 if nviol else 0

class ThreadNative:
    """build the sanitizer binary while the proofs run"""
    def __init__(self):
        import threading
        self.N = None
        def go():
            n = native.Native(); self.N = None if n.error else n; self.err = n.error
        go() if os.environ.get('VC_SYNC') else None
        self.t = threading.Thread(target=go) if not os.environ.get('VC_SYNC') else None
        if self.t: self.t.start(); self.t.join()    # 5 s; a fork while threads run is not worth the risk
    def get(self): return self.N

def replay(path):
    text = open(path).read().splitlines(); body = [l for l in text if not l.startswith('#')]
    if not body: print('no failing input in this file'); return 0
    if body[2].startswith('case '):
        _, g, sd = body[2].split(); case = ionative.GEN[g](random.Random(int(sd))); N = native.Native()
        if N.error: print(N.error); return 2
        try:
            bad = ionative.check(case, ionative.run(N, case))
            for b in bad: print('%s: %s' % b)
            return 1 if bad else 0
        finally: N.close()
    key = body[0].split()[1]; env = json.loads(body[1].split(' ', 1)[1]); cf = specs.CONFIGS[key]
    inp = '\n'.join(body[2:]) + '\n'; arrays = {}; u = {}
    for l in body[2:]:
        w = l.split()
        if not w: continue
        if w[0] == 't': arrays[w[1]] = [float.fromhex(x) for x in w[2:]]
        if w[0] == 'f': arrays['f:' + w[1]] = [float.fromhex(w[2])]
        if w[0] == 'u': u[w[1]] = int(w[2])
    N = native.Native()
    if N.error: print(N.error); return 2
    try:
        o = N.run(inp, timeout=30); bad = native.judge(cf, env, arrays, u, o)
        if not bad:
            w = pure_probe(N, cf, env, (inp, arrays, u), o)
            if w: bad = [('pure', w[0])]
        for b in bad: print('%s: %s' % b)
        return 1 if bad else 0
    finally: N.close()
