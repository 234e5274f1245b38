"""Seeded search over scenarios, schedules and faults for one property, with minimisation and evidence."""
import copy, hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
from . import build as B

ROOT = B.ROOT
SCHEDULERS = ['uniform random', 'sticky', 'random priorities with change points', 'hush first', 'commands first', 'newest first', 'newest first, randomised']

# fault classes tried per property (besides the soft faults of the knobs): class -> path filter
BLOCK = ['pipe', 'dup', 'open', 'spawn', 'thread', 'wait', 'read', 'write']
FAULTS = {
    'P01': ['pipe', 'dup', 'read', 'thread', 'spawn', 'wait'], 'P02': ['pipe', 'dup', 'spawn'], 'P03': ['spawn', 'pipe', 'dup', 'open', 'wait'], 'P04': BLOCK, 'P05': BLOCK,
    'P06': ['open', 'dup', 'spawn'], 'P07': ['pipe', 'open', 'thread', 'write', 'dup'], 'P08': BLOCK, 'P09': BLOCK + ['opendir', 'readdir', 'realpath'], 'P10': BLOCK + ['chdir', 'getcwd', 'opendir', 'readdir', 'realpath'],
    'P12': ['spawn', 'pipe', 'exec'], 'P13': ['chdir', 'getcwd', 'spawn', 'open'], 'P14': ['spawn', 'pipe'], 'P15': ['spawn', 'pipe'], 'P17': ['open', 'read', 'realpath', 'getcwd', 'spawn'], 'P19': ['spawn', 'thread'],
    'P21': ['exec', 'spawn', 'wait', 'pipe', 'chdir'],
}
# (share of cases with injected faults, injections per such case)
RATE = {'P09': (0.7, 3), 'P10': (1.0, 4), 'P04': (0.4, 2), 'P05': (0.4, 2), 'P03': (0.3, 2), 'P07': (0.4, 2), 'P21': (0.6, 2), 'P17': (0.3, 2), 'P13': (0.4, 2)}
# share of the budget spent on the families of other properties, whose runs also bear on this one
CROSS = {'P01': ['P10', 'P09', 'P20'], 'P02': ['P08', 'P04', 'P07'], 'P03': ['P04', 'P05', 'P10', 'P21'], 'P04': ['P03', 'P05', 'P02', 'P21', 'P17'], 'P05': ['P08', 'P19', 'P12'], 'P06': ['P10', 'P13', 'P08', 'P09', 'P07'], 'P07': ['P10', 'P08', 'P21'],
         'P08': ['P05', 'P07', 'P21', 'P11', 'P17'], 'P09': ['P01', 'P05', 'P07', 'P11', 'P17', 'P18', 'P15', 'P21', 'P12', 'P13'], 'P10': ['P09', 'P01', 'P05', 'P07', 'P13', 'P16'], 'P11': ['P13', 'P20', 'P21'], 'P12': ['P21', 'P05'], 'P13': ['P11', 'P21', 'P17'],
         'P14': ['P15', 'P21', 'P16', 'P18'], 'P15': ['P02', 'P21'], 'P16': ['P18', 'P14', 'P10'], 'P17': ['P20', 'P18'], 'P18': ['P17', 'P16'], 'P19': ['P05'], 'P20': ['P11'], 'P21': ['P12', 'P14', 'P15']}
QUICK_S, THOROUGH_S = 60, 780
WORKERS = int(os.environ.get('HUSHSIM_WORKERS', '8'))

def relevant(v, pid): return pid in v.tags or '*' in v.tags

def evaluate(server, spec):
    """run a spec -> (scenario, history, model, violations)"""
    from . import lang, judges
    from .model import V
    sc = lang.render(spec)
    h = server.run(sc)
    try: m, vs = judges.judge(spec, sc, h)
    except Exception:
        m, vs = judges.Stats(), [V({'*'}, 'the recorded history does not fit the script: %s' % traceback.format_exc(limit=3).strip().replace('\n', ' | '))]
    return sc, h, m, vs

def inject(spec, h, pid, rng):
    """spec with a failing system call that the fault-free run makes"""
    if any(o[0] in ('wmark', 'wnord') for st in _stages(spec['stmts']) for o in st.get('ops', [])): return None   # they rely on each other's success
    from .gen import ERRNO
    if any(s['k'] == 'raw' for s in spec['stmts']): return None   # fixed expectations
    if spec.get('nofault'): return None
    sc = spec['sc']; own = sc.get('script_path', '/w/main.hsh')
    argv = sc.get('argv', ['hush', own])
    keys = []
    for cls, path, n in h.callp:
        if cls not in FAULTS.get(pid, []) or not n: continue
        if cls in ('open', 'read', 'stat', 'realpath') and (path == own or path in argv): continue
        if cls == 'read' and path == '|0' and not any(s['k'] == 'read' for s in spec['stmts']): continue
        if cls == 'write' and path in ('|1', '|2') or path.startswith('/dev/'): continue
        keys.append((cls, path, n))
    if not keys: return None
    byc = {}
    for k in keys: byc.setdefault(k[0], []).append(k)
    s2 = copy.deepcopy(spec); fl = list(s2['sc'].get('faults', []))
    for _ in range(rng.choice([1, 1, 1, 2])):
        cls = rng.choice(sorted(byc)); c, path, n = rng.choice(byc[cls])
        count = rng.choice([1, 1, 1, 2, 1 << 30]) if pid in ('P09', 'P10') and not s2.get('recover') else 1
        fl.append([c, rng.randrange(n), count, rng.choice(ERRNO.get(c, [5])), '=' + path if c in ('open', 'read', 'write', 'stat', 'realpath', 'opendir', 'spawn', 'exec', 'chdir') else ''])
    s2['sc']['faults'] = fl
    return s2

def canon(v):
    from .lang import Err
    if isinstance(v, dict): return '{%s}' % ', '.join('%r: %s' % (k, canon(v[k])) for k in sorted(v))
    if isinstance(v, list): return '[%s]' % ', '.join(canon(x) for x in v)
    if isinstance(v, Err): return 'error(%s, %s)' % (canon(v.desc), canon(v.ctx))
    return repr(v)

def meta_view(h, m):
    """what may not differ between two runs of the same script on the same inputs (P20)"""
    return {'reports': [(i, canon(v)) for i, v in m.vals if i < 500000],
            'commands': [(p.prog, p.argv, sorted(p.env), p.cwd, p.status) for p in sorted(h.children(), key=lambda p: (p.prog, p.seq))],
            'end': (h.how, h.code)}

class Acc:
    def __init__(a):
        a.runs = a.nontrivial = 0; a.seen = set(); a.steps = a.simtime = a.procs = a.reports = a.states = a.decisions = 0
        a.hard = {}; a.soft = {}; a.ends = {}; a.strat = {}; a.other = {}; a.fams = {}; a.injected_unfired = 0; a.truncated = 0; a.maxthreads = 0
        a.sample = []; a.variants = 0; a.blocks = 0
    def add(a, fam, spec, sc, h, m):
        a.runs += 1; a.steps += h.steps; a.simtime += h.time; a.states += h.nstates; a.decisions += h.ndec
        a.procs += len(h.order); a.reports += m.nreports; a.blocks += m.nblocks
        a.fams[fam] = a.fams.get(fam, 0) + 1
        if h.truncated: a.truncated += 1
        for f in h.faults: k = '%s/%d' % (f[1], f[3]); a.hard[k] = a.hard.get(k, 0) + 1
        if sc.get('faults') and not h.faults: a.injected_unfired += 1
        for k, n in h.soft.items(): a.soft[k] = a.soft.get(k, 0) + n
        e = h.how + (str(h.code) if h.how == 'EXIT' else ''); a.ends[e] = a.ends.get(e, 0) + 1
        s = str(sc.get('knobs', {}).get('strategy', 0)); a.strat[s] = a.strat.get(s, 0) + 1
        key = (h.hash, zhash(sc.get('script', '')))
        if key not in a.seen:
            a.seen.add(key)
            if m.nreports and (h.children() or h.faults or h.soft): a.nontrivial += 1
    def merge(a, b):
        for k in ('runs', 'steps', 'simtime', 'procs', 'reports', 'states', 'decisions', 'injected_unfired', 'truncated', 'variants', 'blocks', 'nontrivial'): setattr(a, k, getattr(a, k) + getattr(b, k))
        for k in ('hard', 'soft', 'ends', 'strat', 'other', 'fams'):
            d = getattr(a, k)
            for x, n in getattr(b, k).items(): d[x] = d.get(x, 0) + n
        a.seen |= b.seen; a.sample = (a.sample + b.sample)[:3]

def zhash(s): return int.from_bytes(hashlib.blake2b(s.encode('latin-1', 'replace'), digest_size=6).digest(), 'little')

def case(pid, seed, i):
    """-> (family, rng) of case i"""
    cross = CROSS.get(pid, [])
    rng = random.Random('%s/%d/%d' % (pid, seed, i))
    fam = pid
    if cross and i % 4 == 3: fam = cross[(i // 4) % len(cross)]
    return fam, rng

def run_case(server, pid, seed, i, acc):
    """-> list of (spec, violations) that are relevant"""
    from . import gen
    fam, rng = case(pid, seed, i)
    spec = gen.FAMILIES[fam](rng)
    bad = []
    def go(sp):
        sc, h, m, vs = evaluate(server, sp)
        acc.add(fam, sp, sc, h, m)
        if len(acc.sample) < 1 and m.nreports and not sp.get('judge'):
            acc.sample.append({'case': i, 'family': fam, 'script': sc['script'].split('rep(0, 0)\n', 1)[-1][:1500], 'commands': {k: v for k, v in list(sc.get('progs', {}).items())[:6]}, 'knobs': sc.get('knobs'), 'faults': sc.get('faults', []), 'ended': h.describe_end(), 'steps': h.steps})
        rel = [v for v in vs if relevant(v, pid)]
        for v in vs:
            if not relevant(v, pid):
                t = ','.join(sorted(v.tags)); acc.other[t] = acc.other.get(t, 0) + 1
        if rel: bad.append((sp, [repr(v) for v in rel]))
        return h, m
    h, m = go(spec)
    if bad: return bad
    share, n = RATE.get(pid, (0.15, 1))
    if pid in FAULTS and not spec.get('judge') and rng.random() < share:
        for _ in range(n):
            s2 = inject(spec, h, pid, rng)
            if s2: go(s2)
            if bad: return bad
    if pid == 'P20' and spec.get('meta'):
        a = meta_view(h, m)
        for _ in range(spec['meta']):
            s2 = gen.variant20(spec, rng)
            h2, m2 = go(s2); acc.variants += 1
            if bad: return bad
            b = meta_view(h2, m2)
            d = meta_diff(a, b)
            if d: bad.append(({'pair': [spec, s2]}, [d])); return bad
    return bad

def meta_diff(a, b):
    for k in a:
        if a[k] != b[k]: return '[P20] two runs of the same script on the same inputs differ in their %s: %s / %s' % (k, str(a[k])[:400], str(b[k])[:400])
    return None

def worker(pid, seed, tier, nxt, total, deadline, stop, q):
    from . import sim
    srv = sim.Server(); acc = Acc(); out = []
    try:
        while not stop.value and time.monotonic() < deadline:
            with nxt.get_lock():
                i = nxt.value
                if i >= total: break
                nxt.value = i + 1
            bad = run_case(srv, pid, seed, i, acc)
            if bad:
                stop.value = 1
                out = [(i,) + b for b in bad]; break
        srv.stop()
        q.put((acc, out, None))
    except BaseException:
        srv.kill(); q.put((acc, out, traceback.format_exc()))

# ---------------------------------------------------------------------------------------- minimisation
def signature(v): return (tuple(sorted(v.tags)), ''.join(c for c in v.msg if c.isalpha() or c == ' ')[:22])

def sound(spec):
    """no command waits for something that cannot come any more"""
    ops = [o for st in _stages(spec['stmts']) for o in st.get('ops', [])] + [o for d in ('progs', 'xprogs') for p in spec['sc'].get(d, {}).values() for o in p]
    marks = {o[1] for o in ops if o[0] == 'mark'}
    if any(o[0] == 'wmark' and o[1] not in marks for o in ops): return False
    names = set()
    for s in spec['stmts']:
        if s['k'] == 'async': names.add(s['id'])
        if s['k'] == 'join' and s['of'] not in names: return False
        for pl in s.get('pls', []):
            if any(o[0] == 'wnord' for o in pl[-1].get('ops', [])): return False
    return True
def _stages(ss):
    from .lang import all_stages
    return all_stages(ss)

def still(server, pid, spec, sig):
    try:
        if not sound(spec): return False
        sc, h, m, vs = evaluate(server, spec)
    except Exception: return False
    return any(signature(v) in sig for v in vs if relevant(v, pid))

def shrink(server, pid, spec, budget, sig):
    """smaller specs that still violate the property"""
    end = time.monotonic() + budget
    best = spec; tried = 0
    def attempt(s):
        nonlocal best, tried
        if time.monotonic() > end: return False
        tried += 1
        if still(server, pid, s, sig): best = s; return True
        return False
    # the environment first
    for k in list(best['sc'].get('knobs', {})):
        s = copy.deepcopy(best); s['sc']['knobs'].pop(k); attempt(s)
    for j in reversed(range(len(best['sc'].get('faults', [])))):
        s = copy.deepcopy(best); del s['sc']['faults'][j]; attempt(s)
    def lists(s):
        """the lists of a spec whose elements may go"""
        yield ('stmts', s['stmts'])
        def st(ss):
            for x in ss:
                if 'body' in x: yield ('body', x['body']); yield from st(x['body'])
                if 'pls' in x:
                    if len(x['pls']) > 1: yield ('pls', x['pls'])
                    for pl in x['pls']:
                        if len(pl) > 1: yield ('pl', pl)
                        for c in pl:
                            for k in ('ops', 'args', 'redir', 'env'):
                                if c.get(k): yield (k, c[k])
        yield from st(s['stmts'])
        if 'ext' not in s['sc']: yield ('fs', s['sc'].get('fs', []))
    changed = not best.get('judge')
    while changed and time.monotonic() < end:
        changed = False
        n = len(list(lists(best)))
        for a in range(n):
            ls = list(lists(best))
            if a >= len(ls): break
            j = len(ls[a][1]) - 1
            while j >= 0 and time.monotonic() < end:
                s = copy.deepcopy(best); l = list(lists(s))
                if a >= len(l) or j >= len(l[a][1]): break
                x = l[a][1].pop(j)
                if l[a][0] == 'stmts' and x['k'] == 'async':
                    s['stmts'] = [y for y in s['stmts'] if not (y['k'] == 'join' and y['of'] == x['id'])]
                if s['stmts'] and attempt(s): changed = True
                j -= 1
    return best, tried

def minimise_choices(server, pid, spec, budget, sig):
    """fix the schedule as an explicit list of non-default decisions and thin it out"""
    from . import lang
    end = time.monotonic() + budget
    sc = lang.render(spec)
    h = server.run(sc, record=True)
    ch = h.choices; n0 = len(ch)
    def ok(c):
        s = copy.deepcopy(spec); s['sc']['choices'] = c
        return still(server, pid, s, sig)
    if not ok(ch): return None, n0
    k = 2
    while ch and time.monotonic() < end:
        step = max(1, len(ch) // k); cut = False
        for a in range(0, len(ch), step):
            c = ch[:a] + ch[a + step:]
            if time.monotonic() > end: break
            if ok(c): ch = c; cut = True; break
        if cut: k = max(2, k - 1)
        elif step == 1: break
        else: k = min(len(ch), k * 2)
    return ch, n0

def write_replay(pid, seed, i, spec, msgs, extra):
    d = os.path.join(ROOT, 'replays'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (pid, seed, i))
    json.dump(dict({'property': pid, 'seed': seed, 'case': i, 'violations': msgs, 'spec': spec}, **extra), open(path, 'w'), indent=1)
    return path

def report_violation(pid, seed, i, spec, msgs, budget=25):
    from . import sim
    srv = sim.Server(); extra = {}
    if 'pair' in spec:
        path = write_replay(pid, seed, i, spec, msgs, extra)
    else:
        try:
            sig = {signature(v) for v in evaluate(srv, spec)[3] if relevant(v, pid)}
            small, tried = shrink(srv, pid, spec, budget, sig)
            ch, n0 = minimise_choices(srv, pid, small, budget / 2, sig)
            if ch is not None:
                small = copy.deepcopy(small); small['sc']['choices'] = ch
                extra['decisions'] = {'recorded': n0, 'kept': len(ch)}
            sc, h, m, vs = evaluate(srv, small)
            rel = [repr(v) for v in vs if relevant(v, pid)]
            if rel: spec, msgs = small, rel; extra.update(hash=h.hash, steps=h.steps, script=sc['script'].split('rep(0, 0)\n', 1)[-1], minimised_by=tried)
        except Exception: extra['minimiser'] = traceback.format_exc()
        path = write_replay(pid, seed, i, spec, msgs, extra)
    srv.stop()
    print('property %s, seed %d, case %d:' % (pid, seed, i))
    for m in msgs[:6]: print('  ' + m)
    if extra.get('script'): print('  script:\n    ' + extra['script'][:2500].replace('\n', '\n    '))
    print('VIOLATION property=%s replay=%s' % (pid, path)); sys.stdout.flush()
    return path

def replay(path):
    """-> True if the violation shows again"""
    from . import sim
    r = json.load(open(path)); pid = r['property']; srv = sim.Server()
    if 'pair' in r['spec']:
        vw = []
        for s in r['spec']['pair']:
            sc, h, m, vs = evaluate(srv, s); vw.append(meta_view(h, m))
        d = meta_diff(*vw); msgs = [d] if d else []; same = True
    else:
        sc, h, m, vs = evaluate(srv, r['spec'])
        msgs = [repr(v) for v in vs if relevant(v, pid)]
        same = r.get('hash') in (None, h.hash)
    srv.stop()
    for m in msgs: print('  ' + m)
    if msgs:
        print('exactly the recorded execution' if same else 'the execution differs from the recorded one')
        print('VIOLATION property=%s replay=%s' % (pid, path))
    else: print('no violation')
    return bool(msgs)

def selfcheck(pid, seed, n=6):
    """one seed is one execution: run twice, and once more from its recorded decisions"""
    from . import sim, gen, lang
    srv = sim.Server(); bad = 0
    for i in range(n):
        fam, rng = case(pid, seed, i)
        sc = lang.render(gen.FAMILIES[fam](rng))
        a = srv.run(sc, record=True); b = srv.run(sc, record=True)
        if a.raw != b.raw: bad += 1; continue
        sc2 = dict(sc, choices=a.choices)
        c = srv.run(sc2)
        if (a.hash, a.steps) != (c.hash, c.steps): bad += 1
    srv.stop()
    return n, bad

def known_findings(pid):
    out = []
    for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS')):
        l = l.strip()
        if l.startswith('finding: property=%s ' % pid): out.append(l[len('finding: property=%s ' % pid):])
    return out

REAL = ['hush: lexer, parser, semantic analysis, runtime, built-in commands, std library (unmodified debug build of /repo, no hooks)', 'Rust standard library (std::process, std::thread, std::fs, std::io) and the glob, gc, rand, os_pipe crates as linked into hush']
STUB = ['kernel interface below libc: descriptors, pipes, files, processes, wait, clocks, threads\' scheduling, randomness (sim/sim.cc, an interposed library)', 'external programs (small scripts of operations interpreted by the simulator)']

def main(pid, tier, seed=None, total=None, budget=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
    try: B.build()
    except B.BuildError as e:
        print('cannot build: %s' % e); return 3
    tb = time.time() - t0
    from . import special
    budget = budget or (QUICK_S if tier == 'quick' else THOROUGH_S)
    total = total or 1 << 40
    nself, badself = selfcheck(pid, seed)
    nxt = mp.Value('q', 0); stop = mp.Value('i', 0); q = mp.Queue()
    deadline = time.monotonic() + budget
    t1 = time.time()
    ps = [mp.Process(target=worker, args=(pid, seed, tier, nxt, total, deadline, stop, q)) for _ in range(WORKERS)]
    for p in ps: p.start()
    acc = Acc(); found = []; errs = []
    for _ in ps:
        a, out, err = q.get(); acc.merge(a); found += out
        if err: errs.append(err)
    for p in ps: p.join()
    ts = time.time() - t1
    if errs and not found:
        print('the check itself failed:\n' + errs[0]); return 4
    kf, extra_viol = special.run(pid)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    nv = 0
    if found:
        found.sort(key=lambda f: f[0]); i, spec, msgs = found[0]; nv = len(found)
        report_violation(pid, seed, i, spec, msgs)
    elif extra_viol:
        nv = len(extra_viol); path = write_replay(pid, seed, -1, extra_viol[0][0], extra_viol[0][1], {})
        for m in extra_viol[0][1]: print('  ' + m)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    from .levels import LEVEL
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL[pid],
          'coverage': {
              'evaluations': acc.runs, 'distinct_nontrivial': acc.nontrivial,
              'rule': 'One evaluation is one simulated run of the whole system (the real hush binary, its threads, the programs it starts, pipes, files, clock) on a generated script under a seeded schedule with seeded faults. A run is non-trivial if the script reported at least once and a command ran or a fault was injected; distinct by the hash of all scheduling and fault decisions and events together with the script.',
              'samples': acc.sample or [{'note': 'see replay'}],
              'simulated_runs_per_hour': int(acc.runs / max(ts, 0.001) * 3600), 'cases': nxt.value, 'seeds_per_hour': int(nxt.value / max(ts, 0.001) * 3600),
              'simulated_seconds': round(acc.simtime / 1e9, 3), 'simulator_steps': acc.steps, 'scheduling_and_fault_decisions': acc.decisions,
              'distinct_interleavings': len(acc.seen), 'interleaving_measure': 'hash over the sequence of simulator events and decisions, per script', 'states': acc.states, 'state_measure': 'per run: distinct hashes of (state of every thread, program counter of every process, emptiness, fullness, readers and writers of every pipe, hush\'s open descriptors) at scheduling points, summed over runs',
              'processes_started': acc.procs, 'blocks_judged': acc.blocks, 'script_reports_judged': acc.reports,
              'hard_faults_injected (class/errno)': dict(sorted(acc.hard.items())), 'soft_faults_injected': dict(sorted(acc.soft.items())), 'runs_whose_planned_fault_was_not_reached': acc.injected_unfired,
              'runs_by_family': dict(sorted(acc.fams.items())), 'runs_by_scheduler': {SCHEDULERS[int(k)]: v for k, v in sorted(acc.strat.items())}, 'run_endings': dict(sorted(acc.ends.items())),
              'rerun_pairs_compared (P20)': acc.variants, 'observations_about_other_properties': acc.other, 'histories_cut_off': acc.truncated,
              'determinism_selfcheck': {'scenarios_run_three_times': nself, 'differing': badself}, 'real_components': REAL, 'stubbed_components': STUB, 'known_findings': kf},
          'assumptions': ['the interposed library represents Linux: see DESIGN.md, "What the simulator models"', 'the reference model in hs/model.py states the property correctly'],
          'wall_s': round(time.time() - t0, 2), 'violations': nv}
    ev['coverage']['build_s'] = round(tb, 2)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if nv: return 1
    print('%s: held in %d runs (%d cases, %d distinct, %.0f simulated s, %d hard faults) in %.1f s' % (pid, acc.runs, nxt.value, len(acc.seen), acc.simtime / 1e9, sum(acc.hard.values()), time.time() - t0))
    return 0
