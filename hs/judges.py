"""Judges for scenarios that do not fit the statement-wise model."""
from .lang import short, vbytes
from .model import V, b8, Model, judge as judge_model

def _crash(h, v):
    if h.how == 'CRASH': v.append(V({'*'}, h.describe_end()))
    elif h.how in ('ABORT', 'SIGNAL'): v.append(V({'*'}, '%s; stderr %r' % (h.describe_end(), short(h.hush_wrote(2), 300))))
    elif h.how in ('DEADLOCK', 'STEPLIMIT'): v.append(V({'*'}, h.describe_end()))
    elif h.how == 'EXIT' and h.code == 101: v.append(V({'*'}, 'hush crashed (status 101): %r' % short(h.hush_wrote(2), 300)))
    return bool(v)

class Stats:
    nreports = nprocs = nblocks = 0

def lcp(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]: return n
    lo, hi = 0, n
    while hi - lo > 1:
        k = (lo + hi) // 2
        if a[lo:k] == b[lo:k]: lo = k
        else: hi = k
    return lo
def zlcp(t, w):
    """for every position of w: how far t agrees with what follows there"""
    n = len(t); x = t + b'\0' + w   # a zero byte may occur in either: capped at n below
    z = [0] * len(x); l = r = 0
    for i in range(1, len(x)):
        k = min(r - i, z[i - l]) if i < r else 0
        while i + k < len(x) and x[k] == x[i + k]: k += 1
        z[i] = k
        if i + k > r: l, r = i, i + k
    return [min(k, n) for k in z[n + 1:]] + [0]
def consume(segs, states, w):
    """states: (i, off) means that texts from offset off of text i on may still come, of each of which any part
    from its beginning may be written. -> the states after w was written, empty if it cannot have been"""
    L = len(w); reach = [set() for _ in range(len(segs) + 1)]; end = set()
    for i, off in states:
        if i >= len(segs): reach[-1].add(0); continue
        n = lcp(segs[i][off:], w)
        if n == L: end.add((i, off + n))
        reach[i + 1].update(range(n + 1))
    for i in range(len(segs)):
        if not reach[i]: continue
        z = zlcp(segs[i], w) if len(reach[i]) > 3 else None; far = -1
        for p in sorted(reach[i]):
            n = z[p] if z else lcp(segs[i], w[p:])
            if p + n == L: end.add((i, n))
            if p + n > far: reach[i + 1].update(range(max(p, far + 1), p + n + 1)); far = p + n
    if L in reach[-1]: end.add((len(segs), 0))
    return end

def judge_out(spec, sc, h):
    """standard output that may fail (P14): no byte disappears unless the script learns of it"""
    v = []; m = Stats(); m.nprocs = len(h.children())
    if _crash(h, v): return m, v
    bad = [f for f in h.faults if f[1] == 'write'] or sc.get('stdout') == 'full' or any(e[0] == 'rdr' for e in sc.get('ext', []))
    obs = {}
    for p in h.children():
        if p.prog in obs: v.append(V({'P14', 'P04'}, 'command %s was started twice' % p.prog, p.seq))
        obs[p.prog] = p
    ended = False; failed = False
    recs = h.hush_recs(1); prev = -1
    # What failed prints may have left to be written: sequences of texts, of each of which any part from its
    # beginning may come out. How much of the text of a print that failed is written later is not laid down.
    segs = []; pend = {(0, 0)}
    for i, s in enumerate(spec['steps']):
        text = b'\t'.join(b8(vbytes(x)) if x is not None else b'nil' for x in s['vals']) + (b'\n' if s['f'] == 'println' else b'')
        p = obs.get(s['obs'])
        hi = p.seq if p else 1 << 60
        w = b''.join(h.data(r) for r in recs if prev < r[0] < hi)
        before = segs; segs = segs + [text]; after = consume(segs, pend, w)
        if p is None:
            # the script ended here
            if s['catch'] or not (h.how == 'EXIT' and h.code == 127): v.append(V({'P14'}, 'print %d was not followed by the next command: %s' % (i, h.describe_end()))); return m, v
            if not bad: v.append(V({'P14'}, 'print %d panicked although standard output works' % i)); return m, v
            ended = True; failed = True
            if not after: v.append(V({'P14'}, 'print %d: wrote %r, which %r does not begin with' % (i, short(w), short(text))))
            if not h.hush_wrote(2): v.append(V({'P14', 'P10'}, 'a panic ended the script without a message'))
            break
        m.nreports += 1
        t = p.argv[1:] and p.argv[1]
        if t == (b'string' if s['f'] == 'read' and s['catch'] else b'nil'):
            if not (w.endswith(text) and consume(before, pend, w[:len(w) - len(text)])):
                v.append(V({'P14'}, 'print %d succeeded, but by the next command standard output got %r where %r was printed' % (i, short(w), short(text)), p.seq)); return m, v
            segs = []; pend = {(0, 0)}
        elif t == b'error':
            failed = True
            if not bad: v.append(V({'P14'}, 'print %d panicked although standard output works' % i, p.seq))
            if not after: v.append(V({'P14'}, 'print %d failed having written %r, which %r does not begin with' % (i, short(w), short(text)), p.seq)); return m, v
            pend = after
        else:
            v.append(V({'P14'}, 'print %d evaluated to a %r' % (i, t), p.seq))
        prev = p.seq
    else:
        rest = b''.join(h.data(r) for r in recs if r[0] > prev)
        if rest and not consume(segs, pend, rest): v.append(V({'P14'}, 'unexpected output %r' % short(rest)))
    exp = 127 if ended or spec['end'] == 'panic' else spec['code'] if spec['end'] == 'exit' else 0
    if h.how != 'EXIT' or h.code != exp: v.append(V({'P14', 'P16'}, 'ended with %s instead of status %d; stderr %r' % (h.describe_end(), exp, short(h.hush_wrote(2), 300))))
    return m, v

def judge_load(spec, sc, h):
    """whether a script runs at all, and the exit status (P16)"""
    v = []; m = Stats(); m.nprocs = len(h.children())
    if _crash(h, v): return m, v
    T = {'P16'}
    fired = [f for f in h.faults if f[1] in ('open', 'read')]
    run, code, err = spec['run'], spec['code'], spec['err']
    if spec['kind'] == 'unread' and not fired:
        # fewer calls were made than the fault waited for: the script is fine
        run, code, err = not spec['check'], 0, False
    out = h.hush_wrote(1); er = h.hush_wrote(2)
    ran = [p.prog for p in h.children()]
    if h.how != 'EXIT': v.append(V(T, '%s' % h.describe_end())); return m, v
    if not run:
        if ran: v.append(V(T, 'commands %s were started although the script must not run' % ran, h.children()[0].seq))
        if out: v.append(V(T | {'P14'}, 'output %r although the script must not run' % short(out)))
    else:
        if ran != spec['cmds']: v.append(V(T, 'the commands %s were started instead of %s' % (ran, spec['cmds'])))
        if out != b8(spec['out']): v.append(V(T | {'P14'}, 'output %r instead of %r' % (short(out), short(b8(spec['out'])))))
        if spec['args'] is not None:
            for p in h.children():
                if p.prog == 'argsprog':
                    exp = [b'argsprog'] + [b8(a) for a in spec['args']] + [b'end']
                    if p.argv != exp: v.append(V(T, 'the script saw arguments %r instead of %r' % (p.argv[1:], exp[1:]), p.seq))
    if h.code != code: v.append(V({'*'} if h.code == 101 and code != 101 else T, 'exit status %d instead of %d; stderr %r' % (h.code, code, short(er, 300))))
    if err and not er and sc.get('stderr') != 'full': v.append(V(T | {'P14', 'P10'}, 'no message on standard error'))
    if not err and er: v.append(V(T | {'P14'}, 'message on standard error though nothing is wrong: %r' % short(er, 300)))
    fds = set(h.hush[2]) - {0, 1, 2}
    m.nreports = 1
    return m, v

def judge(spec, sc, h):
    if h.truncated: return Stats(), []
    k = spec.get('judge')
    if k == 'out': return judge_out(spec, sc, h)
    if k == 'load': return judge_load(spec, sc, h)
    return judge_model(spec, sc, h)
