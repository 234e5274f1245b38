"""Generators: one family of scenarios per property. A family maps a random generator to a spec."""
import random
from .lang import W

SIZES = [0, 1, 2, 7, 100, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32768, 65535, 65536, 65537, 70000, 131072, 131073, 200000]
SMALL = [0, 1, 2, 5, 30, 100, 512, 1000, 4096, 5000]
SIGS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 30, 31, 32, 34, 47, 63, 64]
TRICKY = ['a b', ' ', '', '*', '?', '[a]', '%', '~', '$x', '${x}', "'", '"', '\\', '\n', 'a\nb', '\t', '-n', '--', '=', 'a=b', '#', ';', '|', '&', '>', '<', '{', '}', '(', 'é'.encode().decode('latin-1'), '\xff\xfe', '\x01', '\x7f', '~/', '.', '..', '/', '!', '`', 'x' * 300, '\\n', '\r', '\r\n', '%s', '0', 'nil', 'a,b', '@', '^', '+']
ERRNO = {'pipe': [24, 23, 12], 'dup': [24, 23], 'open': [13, 24, 5, 28, 2], 'spawn': [11, 12, 13, 2, 8, 26], 'thread': [11, 12], 'wait': [10], 'read': [5, 21], 'write': [5, 28, 32], 'chdir': [5, 13, 2],
         'getcwd': [2, 13], 'exec': [12, 2, 13, 8], 'opendir': [13, 24], 'readdir': [5], 'stat': [13, 5], 'realpath': [13, 2, 5], 'fork': [11, 12]}

class G:
    def __init__(g, rng):
        g.r = rng; g.nid = 0; g.nn = 0; g.fs = [['d', '/w'], ['d', '/home/u'], ['d', '/tmp']]; g.vars = []; g.progs = {}; g.xprogs = {}; g.ext = []; g.marks = 0
        g.sc = {}
    def id(g): g.nid += 1; return g.nid
    def name(g): g.nn += 1; return 'c%d' % g.nn
    def mark(g): g.marks += 1; return 'm%d' % g.marks
    def p(g, x): return g.r.random() < x
    def c(g, xs): return g.r.choice(xs)
    def tag(g): return g.r.randrange(1, 1 << 30)
    def size(g, small=False): return g.c(SMALL) if small or g.p(0.5) else g.c(SIZES)
    def var(g, v):
        k = len(g.vars); n = 'v%d' % k; x = g.r.random()
        if x < 0.15 and k < 9: n = 'GHJKLMNOP'[k]
        elif x < 0.25: n = g.c(['_v%d', 'v_%d_', 'Value%d', 'v%d_and_a_name_of_some_length_0123456789']) % k
        g.vars.append([n, v]); return n
    def exit_ops(g, fail=0.35):
        if not g.p(fail): return [['exit', 0]] if g.p(0.5) else []
        if g.p(0.6): return [['exit', g.c([1, 2, 3, 126, 127, 128, 129, 254, 255, g.r.randrange(1, 256)])]]
        return [['sig', g.c(SIGS), g.c([0, 0, 1])]]
    def knobs(g, **kw):
        r = g.r
        k = {'strategy': r.randrange(7)}
        if g.p(0.4): k['eintr'] = g.c([0.02, 0.1, 0.3])
        if g.p(0.5): k['short'] = g.c([0.05, 0.3, 0.8])
        if g.p(0.5): k['chunk'] = g.c([0.1, 0.5, 0.9])
        if g.p(0.3): k['stall'] = g.c([0.01, 0.05])
        if g.p(0.3): k['pipecap'] = g.c([4096, 8192, 16384])
        if g.p(0.2): k['spurious'] = g.c([0.05, 0.3])
        if g.p(0.3): k['dtunknown'] = g.c([0.2, 1])
        k.update(kw)
        return k
    def spec(g, stmts, **sc):
        s = dict(g.sc)
        s.setdefault('knobs', g.knobs())
        s['seed'] = g.r.randrange(1 << 48); s['entropy'] = g.r.randrange(1 << 48)
        s['fs'] = g.fs
        if g.progs: s['progs'] = dict(g.progs)
        if g.xprogs: s['xprogs'] = dict(g.xprogs)
        if g.ext: s['ext'] = g.ext
        s.update(sc)
        return {'vars': g.vars, 'stmts': stmts, 'sc': s}
    # ---------------------------------------------------------------- commands
    def writes(g, small=False, fds=(1, 2), n=None):
        ops = []
        for _ in range(n if n is not None else g.r.randrange(0, 4)):
            fd = g.c(fds)
            x = g.r.random()
            if x < 0.7: ops.append(['w', fd, g.size(small), g.tag()])
            elif x < 0.9: ops.append(['ws', fd, g.c(['\n', '\n\n', 'x\n', 'abc', '\r\n', '\0', 'a\0b\n', ' ', '\t\n', '\xff\xfe\n', '\xc3', '@7 n\n', '%', '\n x'])])
            else: ops.append(['sleep', g.c([1, 100, 5000])])
        return ops
    def reader(g):
        return g.c([[['drain', 0]], [['drain', 0]], [['cat', 0, 1, 0]], [['cat', 0, 1, g.r.randrange(1, 256)]], [['head', 0, 1, g.size()]], [['readn', 0, g.size()]], []])
    def st(g, ops, **kw):
        d = {'n': g.name(), 'ops': ops}; d.update(kw); return d
    def source(g, fail=0.35, small=False, **kw):
        return g.st(g.writes(small) + g.exit_ops(fail), **kw)
    def filt(g, fail=0.35, small=False, **kw):
        ops = g.writes(small, n=g.r.randrange(0, 2)) + g.reader() + g.writes(small, n=g.r.randrange(0, 2)) + g.exit_ops(fail)
        return g.st(ops, **kw)
    def pipeline(g, n=None, fail=0.3, small=False, tries=0.4):
        n = n or (g.c([5, 6, 8, 12, 30]) if g.p(0.03) else g.c([1, 1, 1, 2, 2, 3, 4]))
        pl = [g.source(fail, small)] + [g.filt(fail, small) for _ in range(n - 1)]
        for s in pl:
            if g.p(tries): s['try'] = 1
            if g.p(0.2): s['nl'] = 1
        return pl
    def block(g, kind='sync', npl=None, **kw):
        npl = npl or (g.c([5, 9, 12, 20]) if g.p(0.03) else g.c([1, 1, 2, 3]))
        b = {'k': 'async' if kind == 'async' else 'block', 'id': g.id(), 'kind': kind, 'pls': [g.pipeline(**kw) for _ in range(npl)]}
        if g.p(0.3): b['nl'] = 0
        if g.p(0.2): b['semi'] = 1
        return b
    def blk(g, pls, kind='sync', **kw):
        b = {'k': 'async' if kind == 'async' else 'block', 'id': g.id(), 'kind': kind, 'pls': pls}
        b.update(kw)
        return b
    def stdin(g, data, slow=True):
        """feed the script's standard input"""
        x = g.r.random()
        if x < 0.3:
            g.fs.append(['f', '/in', data]); g.sc['stdin'] = 'file:/in'
        else:
            ops = []
            if x < 0.5 or not data: ops = [['ws', 1, data]] if data else []
            else:
                cuts = sorted(g.r.randrange(len(data) + 1) for _ in range(g.r.randrange(0, 6)))
                a = 0
                for b in cuts + [len(data)]:
                    if b > a: ops.append(['ws', 1, data[a:b]])
                    if g.p(0.4): ops.append(['sleep', g.c([1, 1000, 20000])])
                    a = b
            g.xprogs['feeder'] = ops; g.ext.append(['feeder', [[1, 'in', 'w']]]); g.sc['stdin'] = 'pipe:in'
    def text(g, n):
        a = 'abcdefgh ijk\n*?$"\'\\\0\xff\x80\t\r'
        return ''.join(g.r.choice(a) for _ in range(n))

def add_try(g, pls, p):
    for pl in pls:
        for s in pl:
            if g.p(p): s['try'] = 1

# -------------------------------------------------------------------- P01
def fam_P01(rng):
    g = G(rng); ss = []
    for _ in range(g.c([1, 2, 3])):
        x = rng.random()
        if x < 0.55:
            b = g.block('cap', small=g.p(0.3))
            if g.p(0.2): # missing program in the middle
                pl = g.c(b['pls']); st = g.c(pl); st['missing'] = 1; st['try'] = g.c([0, 1])
            if g.p(0.25):
                st = g.c(g.c(b['pls'])); st['redir'] = [g.c([['out', 2, 'fd', 1], ['out', 1, 'fd', 2]])]
        elif x < 0.7:
            # both streams far beyond what a pipe holds, in every order
            a, z = g.c(SIZES[-8:]), g.c(SIZES[-8:])
            ops = [['w', 1, a, g.tag()], ['w', 2, z, g.tag()]]
            if g.p(0.5): ops.reverse()
            if g.p(0.5): ops += [['w', g.c([1, 2]), g.size(), g.tag()]]
            b = g.blk([[g.st(ops + g.exit_ops())]], 'cap')
        elif x < 0.85:
            # a process that keeps the captured streams after its parent is gone
            n = g.name(); g.progs[n] = [['sleep', g.c([10, 3000, 200000])]] + g.writes(True) + [['w', 1, g.c([1, 5000]), g.tag()]]
            if g.p(0.3): g.progs[n].insert(0, ['close', g.c([1, 2])])
            g.progs[n] = [o for o in g.progs[n] if not (o[0] in ('w', 'ws') and ['close', o[1]] in g.progs[n])]
            pl = [g.st(g.writes(True) + [['bg', n]] + g.writes(True) + g.exit_ops())]
            if g.p(0.4): pl = [g.source()] + pl
            b = g.blk([pl] + ([g.pipeline()] if g.p(0.3) else []), 'cap')
        else:
            # closing one stream early, while the other goes on
            fd = g.c([1, 2]); o = 3 - fd
            ops = [['w', fd, g.size(), g.tag()], ['close', fd], ['sleep', g.c([1, 5000])], ['w', o, g.size(), g.tag()]] + g.exit_ops()
            b = g.blk([[g.st(ops)]], 'cap')
        ss.append(b)
        if g.p(0.2): ss.append({'k': 'println', 'vals': ['between']})
    if g.p(0.15):
        body = g.block('cap', npl=1, small=True)
        ss.append({'k': 'loop', 'id': g.id(), 'n': g.c([3, 6]), 'body': [body]})
    return g.spec(ss)

# -------------------------------------------------------------------- P02
def fam_P02(rng):
    g = G(rng); ss = []
    if g.p(0.5): g.stdin(g.text(g.c([0, 10, 300, 9000])))
    for _ in range(g.c([1, 1, 2])):
        kind = g.c(['sync', 'sync', 'cap', 'async'])
        x = rng.random()
        if x < 0.3:
            pl = g.pipeline(n=g.c([2, 3, 4, 5, 6]) if g.p(0.93) else g.c([9, 17, 33, 40]))
            if g.p(0.5): pl[0]['ops'] = g.c([[['cat', 0, 1, 0]], [['drain', 0]], [['readn', 0, 5]]]) + pl[0]['ops']
        elif x < 0.5:
            # volumes far beyond the pipes, straight through
            n = g.c([2, 3, 4]) if g.p(0.93) else g.c([8, 20]); pl = [g.st([['w', 1, g.c(SIZES[-8:] + [400000]) if n < 8 else 70000, g.tag()]])]
            for _ in range(n - 2): pl.append(g.st([['cat', 0, 1, g.c([0, 255])]] + g.exit_ops(0.2)))
            pl.append(g.st(g.c([[['drain', 0]], [['cat', 0, 1, 0]], [['readn', 0, g.size()]], [['sleep', 50000], ['drain', 0]]]) + g.exit_ops(0.2)))
        elif x < 0.65:
            # end of input arrives as soon as the predecessor is gone, even while others go on
            m1 = g.mark(); n = g.c([2, 3])
            pl = [g.st([['w', 1, g.size(), g.tag()], ['close', 1], ['wmark', m1]] + g.exit_ops(0.2))]
            if n == 3: pl.append(g.st([['cat', 0, 1, 0]]))
            pl.append(g.st([['drain', 0], ['mark', m1]] + g.exit_ops(0.2)))
        elif x < 0.8:
            # all stages run at the same time
            n = g.c([2, 3, 4]) if g.p(0.9) else g.c([8, 12, 17, 20]); ms = [g.mark() for _ in range(n)]
            pl = []
            for i in range(n):
                ops = [['mark', ms[i]]]
                order = list(range(n)); rng.shuffle(order)
                ops += [['wmark', ms[j]] for j in order]
                pl.append(g.st(ops + ([['w', 1, 100, g.tag()]] if i == 0 else [['cat', 0, 1, 0]])))
        else:
            # the reader goes first: the writer is stopped by a broken pipe
            n = g.c([2, 3]); m1 = g.mark()
            w0 = g.c([1, 100, 65536])
            w = [['w', 1, w0, g.tag()], ['wnord', 1], ['w', 1, g.c([1, 10, 5000]), g.tag()]]
            if g.p(0.3): w.insert(0, ['ignpipe'])
            pl = [g.st(w + [['exit', 0]])]
            if n == 3: pl.append(g.st([['head', 0, 1, 1]]))
            pl.append(g.st([['readn', 0, g.c([0, 1] if n == 3 or w0 == 1 else [0, 1, 50])]] + g.exit_ops(0.2)))
        add_try(g, [pl], 0.5)
        b = g.blk([pl] + ([g.pipeline()] if g.p(0.3) else []), kind)
        ss.append(b)
        if kind == 'async': ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
    return g.spec(ss)

# -------------------------------------------------------------------- P03
def fam_P03(rng):
    g = G(rng); ss = []
    for _ in range(g.c([1, 2, 3])):
        kind = g.c(['sync', 'sync', 'cap', 'async'])
        npl = g.c([1, 2, 3, 5]) if g.p(0.9) else g.c([9, 10, 14, 20, 30])
        pls = []; many = npl > 5
        for _ in range(npl):
            n = (g.c([1, 1, 2, 3, 5]) if g.p(0.95) else g.c([10, 17, 33])) if not many else g.c([1, 1, 1, 2])
            pl = []
            last = g.p(0.5)
            for i in range(n):
                ops = []
                if g.p(0.4): ops.append(['sleep', g.r.randrange(1, 3000)])
                if i and g.p(0.7): ops.append(['drain', 0])
                if g.p(0.3): ops.append(['w', 1, g.c([1, 100, 5000]), g.tag()])
                pl.append(g.st(ops + g.exit_ops(0.5), args=[W(g.c(['x', 'a b', 'two\nlines']))] if g.p(0.3) else []))
                if g.p(0.3): pl[-1]['env'] = [['E1', W('val')]]
                if g.p(0.25): pl[-1]['nl'] = 1
            if g.p(0.2): g.c(pl)['missing'] = 1
            pls.append(pl)
        add_try(g, pls, g.c([0, 0.5, 0.9, 1]) if not many else 1)
        b = g.blk(pls, kind)
        if g.p(0.3): b['nl'] = 0
        if kind == 'sync' and g.p(0.2):
            b['pls'].insert(rng.randrange(len(b['pls']) + 1), [g.c([{'builtin': 'cd', 'n': 'cd', 'args': [W(g.c(['/tmp', '/nonexistent', '/w']))], 'try': 1}, {'builtin': 'alias', 'n': 'alias', 'args': [W('x')] * g.c([0, 1, 2]), 'try': g.c([0, 1])}])])
        ss.append(b)
        if kind == 'async': ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
    return g.spec(ss)

# -------------------------------------------------------------------- P04
def fam_P04(rng):
    g = G(rng); ss = []
    for _ in range(g.c([1, 2])):
        kind = g.c(['sync', 'sync', 'cap', 'async'])
        pls = []
        for _ in range(g.c([2, 3, 4, 6]) if g.p(0.95) else g.c([12, 20, 40])):
            n = g.c([1, 1, 2, 3]) if g.p(0.97) else g.c([6, 10, 20]); pl = []
            for i in range(n):
                ops = []
                if g.p(0.5): ops.append(['sleep', g.c([1, 1000, 30000])])
                if i and g.p(0.6): ops.append(['drain', 0])
                if g.p(0.4): ops.append(['w', g.c([1, 2]), g.c([1, 100, 5000]), g.tag()])
                if g.p(0.2): ops.append(['close', 1])
                if g.p(0.3): ops.append(['sleep', g.c([1, 1000, 30000])])
                pl.append(g.st(ops + g.exit_ops(0.25)))
            if g.p(0.1): g.c(pl)['missing'] = 1
            pls.append(pl)
        add_try(g, pls, g.c([0, 0.4, 0.8, 1]))
        b = g.blk(pls, kind)
        if kind == 'sync' and g.p(0.1): pls.insert(rng.randrange(len(pls) + 1), [{'builtin': 'alias', 'n': 'alias', 'args': [W('x')] * g.c([0, 1, 2]), 'try': g.c([0, 1])}])
        if g.p(0.2):
            n = g.name(); g.progs[n] = [['close', 0], ['close', 1], ['close', 2], ['sleep', 100000]]
            st = g.c(g.c([x for x in b['pls'] if 'ops' in x[0]])); st['ops'] = [['bg', n]] + st['ops']
        ss.append(b)
        if kind == 'async': ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
        elif g.p(0.3): ss.append({'k': 'println', 'vals': ['next']})
    return g.spec(ss)

# -------------------------------------------------------------------- P05
def fam_P05(rng):
    g = G(rng); ss = []
    n = g.c([1, 2, 2, 3, 4]) if g.p(0.95) else g.c([8, 9, 17, 33, 40, 70])
    blocks = []; unjoined = []
    x = rng.random()
    if x < 0.3 and n > 1:
        # the blocks wait for each other and for the script: they must run side by side
        ms = [g.mark() for _ in range(n + 1)]
        for i in range(n):
            others = [j for j in range(n + 1) if j != i]; rng.shuffle(others)
            ops = [['mark', ms[i]]] + [['wmark', ms[j]] for j in others]
            pls = [[g.st(ops + g.exit_ops())]]
            for _ in range(g.c([0, 0, 0, 1, 1, 3, 5, 9]) if n < 8 else 0): pls.insert(g.c([0, len(pls)]), [g.st([['w', 1, 10, g.tag()]])] + [g.st([['drain', 0]]) for _ in range(g.c([0, 0, 1]))])
            blocks.append(g.blk(pls, 'async'))
        ss += blocks
        sync = [[g.st([['mark', ms[n]]] + [['wmark', ms[j]] for j in range(n)])]]
        ss.append(g.blk(sync, g.c(['sync', 'cap'])))
    else:
        for i in range(n):
            b = g.block('async', small=g.p(0.7) or n > 4, npl=1 if n > 4 else g.c([6, 12, 20]) if g.p(0.03) else None)
            if g.p(0.5):
                v = g.var(g.c(['first', ['p', 'q'], 42, '']))
                st = g.c(g.c(b['pls'])); st['args'] = [[['v', v, 'u']], W('k'), [['l', 'pre', 'u'], ['v', v, 'u']]]
                b['_v'] = v
            if g.p(0.3):
                m1 = g.mark(); st = b['pls'][0][0]; st['ops'] = [['wmark', m1]] + st['ops']; b['_m'] = m1
            if g.p(0.2):
                st = g.c(g.c(b['pls'])); st['redir'] = [['out', 1, 'append', W('/w/log')]]
            if g.p(0.05):
                # refused with a panic, of which the join tells
                st = g.c(g.c(b['pls'])); st['redir'] = [g.c([['out', 5, 'file', W('/w/f9')], ['out', 1, 'fd', 7], ['out', 0, 'fd', 2]])]
                b['_p'] = 1
            blocks.append(b); ss.append(b)
            if '_v' in b: ss.append({'k': 'set', 'var': b.pop('_v'), 'val': g.c(['changed', [], 0])})
            if g.p(0.3): ss.append(g.block(g.c(['sync', 'cap']), small=True))
            if g.p(0.2): ss.append({'k': 'sleep', 'id': g.id(), 'ms': g.c([0, 1, 30])})
            if g.p(0.2): ss.append({'k': 'print', 'vals': ['go ']})
        rel = [b.pop('_m') for b in blocks if '_m' in b]
        for m1 in rel:
            ss.append(g.blk([[g.st([['mark', m1]])]]))
    order = list(range(n)); rng.shuffle(order)
    joined = []
    for i in order:
        if g.p(0.1):
            unjoined.append(i); continue
        ss.append({'k': 'join', 'id': g.id(), 'of': blocks[i]['id'], **({'catch': 1} if blocks[i].pop('_p', 0) and g.p(0.9) else {})})
        joined.append(i)
        if g.p(0.25): ss.append({'k': 'join', 'id': g.id(), 'of': blocks[g.c(joined)]['id'], 'catch': 1})
        if g.p(0.15): ss.append(g.block('sync', small=True))
    if g.p(0.05) and joined: ss.append({'k': 'join', 'id': g.id(), 'of': blocks[g.c(joined)]['id']})
    sp = g.spec(ss)
    if unjoined: sp['slack'] = 10 ** 6
    return sp

# -------------------------------------------------------------------- P06
TARGETS = ['/w/f1', '/w/f2', 'f1', './f2', 'sub/f3', '/w/sub/f3', 'ln', '/w/new', 'new2', '/tmp/t1', '/dev/null', 'lsub/f3', 'dang']
BADT = ['/nodir/x', '/w', 'sub', '/w/ro', 'f1/x', '', 'loop', '/w/denied/x', 'noperm/x', 'sub/', 'x' * 300]
def files06(g):
    g.fs += [['f', '/w/f1', 'old contents of f1\n'], ['f', '/w/f2', ''], ['d', '/w/sub'], ['f', '/w/sub/f3', 'x' * g.c([1, 500, 70000])], ['l', '/w/ln', 'f1'], ['l', '/w/lsub', '/w/sub'], ['l', '/w/dang', 'made'],
             ['f', '/w/ro', 'read only', 'w'], ['l', '/w/loop', 'loop'], ['d', '/w/denied', '', 'w'], ['d', '/w/noperm', '', 'x'], ['f', '/w/other', 'untouched'], ['f', '/w/inf', 'some input\n'], ['f', '/w/g/fa', ''], ['f', '/w/g/.fb', ''], ['d', '/w/g/fc'], ['f', '/w/g/b d', ''], ['f', '/w/sub/other', 'untouched']]
def tword(g, t):
    x = g.r.random()
    if x < 0.02: return [['v', g.var([t] + ['f%d' % i for i in range(g.c([1, 2, 3, 4, 9]))]), 'u']]
    if x < 0.04: return [['v', g.var([t]), 'u']]
    if x < 0.6 or not t: return W(t, g.c(['d', 's', 'u']) if t else 'd')
    v = g.var(t)
    return [['v', v, g.c('ud')]]
def redirs06(g, n=None, bad=0.1):
    rs = []
    for _ in range(n or (g.c([1, 1, 2, 3]) if g.p(0.95) else g.c([6, 12]))):
        fd = g.c([1, 1, 2])
        x = g.r.random()
        if x < 0.25: rs.append(['out', fd, 'fd', g.c([1, 2])])
        elif g.p(bad): rs.append(['out', fd, g.c(['file', 'append']), tword(g, g.c(BADT))])
        else: rs.append(['out', fd, g.c(['file', 'file', 'append']), tword(g, g.c(TARGETS))])
    return rs
def fam_P06(rng):
    g = G(rng); ss = []; files06(g)
    for _ in range(g.c([1, 2, 3])):
        x = rng.random()
        kind = g.c(['sync', 'sync', 'cap', 'async'])
        if x < 0.5:
            b = g.block(kind, fail=0.15)
            for pl in b['pls']:
                for st in pl:
                    if g.p(0.6):
                        st['redir'] = redirs06(g, bad=0.08)
                        if g.p(0.12): st['redir'].insert(rng.randrange(len(st['redir']) + 1), ['in', W(g.c(['/nofile', 'inf', 'inf', 'sub/none', 'ro', 'loop']))])
                        if not any(o[0] == 'w' for o in st['ops']): st['ops'] = [['w', 1, g.size(), g.tag()], ['w', 2, g.size(True), g.tag()]] + st['ops']
        elif x < 0.65:
            # read a file, then replace it; what is read is what was there
            f = g.c(['/w/f1', '/w/sub/f3'])
            pls = [[g.st([['drain', 0]], redir=[['in', W(f)]])], [g.st([['w', 1, g.size(), g.tag()]], redir=[['out', 1, g.c(['file', 'append']), W(f)]])], [g.st([['drain', 0]], redir=[['in', W(f)]])]]
            b = g.blk(pls, kind)
        elif x < 0.8:
            # concurrent appenders
            f = g.c(['/w/f1', 'sub/f3', 'brandnew'])
            pl = [g.st([['w', 1, g.size(True), g.tag()], ['w', 2, g.size(True), g.tag()], ['w', 1, g.size(True), g.tag()]], redir=[['out', 1, 'append', W(f)]] + ([['out', 2, 'append', W(f)]] if g.p(0.5) else [])) for _ in range(g.c([2, 3]) if g.p(0.9) else g.c([6, 10]))]
            b = g.blk([pl], kind)
            if kind == 'async':
                ss.append(b); b2 = g.blk([[g.st([['w', 1, g.size(True), g.tag()] for _ in range(3)], redir=[['out', 1, 'append', W(f)]])]], 'async')
                ss.append(b2); ss.append({'k': 'join', 'id': g.id(), 'of': b2['id']})
                ss.append({'k': 'join', 'id': g.id(), 'of': b['id']}); continue
        elif x < 0.92:
            # order of redirections matters
            rs = g.c([[['out', 2, 'fd', 1], ['out', 1, 'file', W('/w/f1')]], [['out', 1, 'file', W('/w/f1')], ['out', 2, 'fd', 1]], [['out', 1, 'fd', 2], ['out', 2, 'file', W('/w/f2')]],
                      [['out', 1, 'file', W('/w/f1')], ['out', 1, 'append', W('/w/f2')]], [['out', 2, 'file', W('/w/new')], ['out', 1, 'fd', 2], ['out', 2, 'file', W('/w/new2')]],
                      [['out', 1, 'file', W('f1')], ['out', 2, 'file', W('f1')]], [['out', 1, 'fd', 1]], [['out', 2, 'fd', 2], ['out', 1, 'append', W('f2')]]])
            st = g.st([['w', 1, g.size(), g.tag()], ['w', 2, g.size(True), g.tag()], ['w', 1, 10, g.tag()]] + g.exit_ops(0.2), redir=rs)
            pl = [st]
            if g.p(0.5): pl = pl + [g.filt(0.1)]
            if g.p(0.3): pl = [g.source(0.1)] + pl
            b = g.blk([pl], kind)
        else:
            # a descriptor that is not supported
            fd = g.c([0, 3, 4, 5, 9, 10])
            rs = g.c([[['out', fd, 'file', W('/w/f1')]], [['out', 1, 'fd', fd]], [['out', fd, 'fd', 1]], [['out', 2, 'fd', fd]]])
            pl = [g.st([['w', 1, 10, g.tag()]], redir=rs)]
            if g.p(0.4): pl = [g.source(0.1)] + pl
            if g.p(0.4): pl = pl + [g.st([['drain', 0]])]
            b = g.blk([pl], g.c(['sync', 'cap']), catch=1)
        ss.append(b)
        if b['k'] == 'async': ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
    return g.spec(ss)

# -------------------------------------------------------------------- P07
def fam_P07(rng):
    g = G(rng); ss = []; files06(g)
    big = g.c(SIZES)
    g.fs += [['f', '/w/in1', g.text(g.c([0, 1, 50, 3000]))], ['f', '/w/in2', 'y' * big], ['f', '/w/noread', 'z', 'r']]
    g.stdin(g.text(g.c([0, 20, 5000])))
    def rd():
        return g.c([[['drain', 0]], [['cat', 0, 1, 0]], [['drain', 0]], [['readn', 0, g.size()]], [['sleep', 100000], ['drain', 0]], [['readn', 0, 10], ['sleep', 50000], ['drain', 0]], [], [['close', 0]], [['sleep', 1000]], [['head', 0, 1, g.size()]]])
    def here():
        x = rng.random()
        if x < 0.3: t = g.c(TRICKY)
        elif x < 0.7: t = g.text(g.c([0, 1, 10, 200, 1000]))
        elif x < 0.98: t = 'q' * g.c(SIZES) + g.text(5)
        else: t = 'r' * g.c([262144, 300000, 1048576]) + g.text(5)
        if '\0' in t and g.p(0.5): t = t.replace('\0', 'N')
        if g.p(0.03): return [['v', g.var([t[:100]] * g.c([0, 1, 2, 4])), 'u']]
        if g.p(0.6): return [['v', g.var(t), g.c('ud')]]
        if len(t) > 2000: return [['v', g.var(t), 'u']]
        return W(t, g.c('ds'))
    for _ in range(g.c([1, 2, 3])):
        kind = g.c(['sync', 'sync', 'cap', 'async'])
        pls = []
        for _ in range(g.c([1, 1, 2])):
            n = g.c([1, 1, 2, 3]) if g.p(0.96) else g.c([5, 9, 17]); pl = []
            for i in range(n):
                st = g.st((g.writes(True, n=1) if i == 0 and g.p(0.3) else []) + rd() + g.exit_ops(0.15))
                if g.p(0.7 if n == 1 else 0.45):
                    rs = []
                    for _ in range(g.c([1, 1, 1, 2, 3]) if g.p(0.97) else g.c([5, 9])):
                        x = rng.random()
                        if x < 0.55: rs.append(['here', here()])
                        elif x < 0.92: rs.append(['in', W(g.c(['/w/in1', 'in2', 'f1', 'ln', '/dev/null', './in1']))])
                        else: rs.append(['in', W(g.c(['/nofile', '/w/noread', 'loop', 'in1/x', '']))])
                    st['redir'] = rs
                    if g.p(0.2): st['redir'].insert(rng.randrange(len(rs) + 1), ['out', 1, 'file', W('/w/outp')])
                pl.append(st)
            pls.append(pl)
        add_try(g, pls, 0.4)
        b = g.blk(pls, kind)
        ss.append(b)
        if kind == 'async':
            if g.p(0.5): ss.append(g.blk([[g.st([['drain', 0]], redir=[['here', here()]])]]))
            ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
    return g.spec(ss)

# -------------------------------------------------------------------- mixtures (P08, P09, P10, P20)
def rich_block(g, kind, fail=0.25, bad=0.1):
    b = g.block(kind, small=g.p(0.8), fail=fail)
    for pl in b['pls']:
        for i, st in enumerate(pl):
            if g.p(0.2): st['redir'] = redirs06(g, 1, bad)
            if g.p(0.15): st.setdefault('redir', []).append(['here', [['v', g.var('h' * g.c([0, 5, 5000, 70000])), 'u']]])
            if g.p(0.1): st.setdefault('redir', []).append(['in', W(g.c(['/w/inf', 'inf', '/nofile']))])
            if g.p(0.15): st['env'] = [['EV%d' % g.r.randrange(3), W(g.c(['', 'x', 'a b']))]]
            if g.p(0.2): st['args'] = [W('a'), [['l', 'g/', 'u'], ['star']], [['l', 'g/f', 'u'], ['star']]]
            if g.p(0.05): st['missing'] = 1
    return b
def fam_P08(rng):
    g = G(rng); ss = []; files06(g)
    g.fs.append(['f', '/w/mod.hsh', 'let r = ${ modc a }\nr.stdout\n'])
    g.progs['modc'] = [['ws', 1, 'from module']]
    live = []
    usemod = g.p(0.3)
    for _ in range(g.c([2, 3, 4, 6])):
        x = rng.random()
        if x < 0.5 or not live and x < 0.7:
            kind = g.c(['async', 'async', 'sync', 'cap'])
            b = rich_block(g, kind, bad=0.05)
            # promptness of end-of-file and broken pipes while other blocks run
            if g.p(0.4):
                m1 = g.mark()
                b['pls'].append([g.st([['w', 1, g.size(True), g.tag()], ['close', 1], ['wmark', m1]]), g.st([['drain', 0], ['mark', m1]])])
            elif g.p(0.3):
                b['pls'].append([g.st([['w', 1, g.c([1, 2, 100, 4096]), g.tag()], ['wnord', 1], ['w', 1, 10, g.tag()]], **{'try': 1}), g.st([['readn', 0, 1]])])
            ss.append(b)
            if kind == 'async': live.append(b)
        elif live and x < 0.8:
            b = live.pop(rng.randrange(len(live))); ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
        elif x < 0.9: ss.append({'k': 'glob', 'id': g.id(), 'pat': g.c(['g/*', 'g/f*', 'g/?a'])})
        elif x < 0.95 and usemod and not live:
            usemod = False
            i = g.id()
            ss.append({'k': 'import', 'id': i, 'path': 'mod.hsh', 'cmds': [['modc', ['modc', 'a']]], 'expect': 'from module', 'catch': 0})
        else: ss.append({'k': 'sleep', 'id': g.id(), 'ms': g.c([0, 1, 5])})
    for b in live: ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
    sp = g.spec(ss); sp['slack'] = 10 ** 6
    return sp

def fam_P09(rng):
    g = G(rng); ss = []; files06(g)
    if g.p(0.5): g.sc['knobs'] = g.knobs(nofile=g.c([40, 60]))
    body = []
    for _ in range(g.c([1, 2])):
        b = rich_block(g, g.c(['sync', 'cap']), fail=0.4, bad=0.3)
        if g.p(0.25): g.c(g.c(b['pls']))['missing'] = 1
        if g.p(0.15):
            pl = g.c(b['pls']); g.c(pl)['redir'] = [g.c([['out', 5, 'file', W('f1')], ['out', 1, 'fd', 7], ['in', [['v', g.var(['x', 'y']), 'u']]]])]; add_try(g, b['pls'], 1)
        b['catch'] = 1
        if g.p(0.12):
            # a long pipeline, in the middle of which something fails
            n = g.c([5, 6, 7, 9, 12, 16, 25])
            pl = [g.source(0.3, True)] + [g.filt(0.3, True) for _ in range(n - 1)]
            if g.p(0.4): g.c(pl)['missing'] = 1
            b['pls'] = [pl] + b['pls'][:1]; add_try(g, b['pls'], 0.5)
        body.append(b)
    if g.p(0.3): body.append({'k': 'glob', 'id': g.id(), 'pat': g.c(['*', 'sub/*', 'noperm/*', 'nodir/*'])})
    if g.p(0.3): body.append({'k': 'call', 'id': g.id(), 'f': 'import', 'args': [g.c(['nofile.hsh', 'bad.hsh', 'pan.hsh', 'sub'])], 'expect': {'panic': 1}, 'tags': ['P17'], 'catch': 1})
    g.fs += [['f', '/w/bad.hsh', 'let = '], ['f', '/w/pan.hsh', 'std.panic("x")']]
    rng.shuffle(body)
    if g.p(0.6): ss.append({'k': 'loop', 'id': g.id(), 'n': (g.c([2, 4, 25]) if g.p(0.3) else g.c([2, 3])) if g.p(0.985) else g.c([100, 300]), 'body': body})
    else: ss += body
    if g.p(0.4):
        bs = [rich_block(g, 'async', fail=0.3, bad=0.1) for _ in range(g.c([1, 2]) if g.p(0.95) else g.c([6, 12]))]
        ss += bs
        rng.shuffle(bs)
        for b in bs: ss.append({'k': 'join', 'id': g.id(), 'of': b['id'], 'catch': 1})
    ss.append(g.block('sync', npl=1, small=True))
    sp = g.spec(ss); sp['stderr_ok'] = 1
    return sp

def fam_P10(rng):
    """ordinary scripts whose system calls are made to fail; every statement that may fail is caught (mostly)"""
    g = G(rng); ss = []; files06(g)
    live = []
    for _ in range(g.c([1, 2, 2, 3])):
        x = rng.random()
        if x < 0.35: ss.append(dict(rich_block(g, 'sync', bad=0.02), catch=1))
        elif x < 0.65: ss.append(dict(rich_block(g, 'cap', bad=0.02), catch=1))
        elif x < 0.8:
            b = dict(rich_block(g, 'async', bad=0.02), catch=1); ss.append(b)
            ss.append({'k': 'join', 'id': g.id(), 'of': b['id'], 'catch': 1})
        elif x < 0.82: ss.append(g.blk([[dict(g.source(0.2, True), **{'try': 1})], [{'builtin': 'alias', 'n': 'alias', 'args': [W('x')] * g.c([0, 1, 2]), 'try': g.c([0, 1])}], [g.source(0.2, True)]], catch=1))
        elif x < 0.9: ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(['/tmp', '/w', 'sub', '..', '/nodir']), 'catch': 1})
        elif x < 0.92: ss.append({'k': 'cwd', 'id': g.id(), 'catch': 1})
        elif x < 0.94: ss.append({'k': 'glob', 'id': g.id(), 'pat': '*', 'catch': 1})
        elif x < 0.97: ss.append({'k': 'call', 'id': g.id(), 'f': 'import', 'args': ['/w/mod.hsh'], 'expect': 'modval', 'tags': ['P17', 'P10'], 'catch': 1, 'cls': ['open', 'read', 'realpath', 'stat', 'nofile', 'getcwd', 'lstat']}); g.fs.append(['f', '/w/mod.hsh', '# ' + 'p' * g.c([1, 9000]) + '\n"modval"\n'])
        else:
            if 'stdin' not in g.sc: g.stdin('first line\nsecond\n\nlast')
            ss.append({'k': 'read', 'id': g.id(), 'catch': 1})
    if g.p(0.2):
        for s in ss: s.pop('catch', None)
    # afterwards everything works
    ss.append(g.blk([[g.source(0.2, True), g.filt(0.2, True)]], g.c(['sync', 'cap'])))
    sp = g.spec(ss); sp['recover'] = 1
    return sp

# -------------------------------------------------------------------- P11
NAMES = ['a', 'ab', 'abc', 'b', 'a b', '.hid', 'x.txt', 'y.txt', 'X.txt', '[a]', 'q?', 'st*r', 'a[b', '%p', '~t', "it's", 'new\nline', '-n', 'z$', 'é.txt'.encode().decode('latin-1'), '0', '10', '9', 'aa', 'a-b', '{x}', 'B', '_', 'f[!x]', 'a%', 'xx', 'A[b', 'ST*r', 'Q?', 'AB']
LONGN = ['long' * 18 + '[a' + 'z' * 60, 'long' * 18 + '*a', 'long' * 18 + 'xa', 'long' * 50]
UTF8OK = [n for n in NAMES]
def value11(g, arr=True):
    x = g.r.random()
    if x < 0.45: return g.c(TRICKY)
    if x < 0.6: return g.c(TRICKY) + g.c(TRICKY)
    if x < 0.68: return g.c([0, 7, -1, 123456789012, 9223372036854775807, -9223372036854775807, True, False, None, {'f': '1.5'}, {'f': '3.0'}, {'f': '0.0000001', 'o': '1e-7'}, {'f': '100000000000000000000.0', 'o': '1e20'}, {'f': '(0.0 - 2.5)', 'o': '-2.5'}, {'f': '0.1'}, {'f': '(1.0 / 0.0)', 'o': 'inf'}, {'f': '(0.1 + 0.2)', 'o': '0.30000000000000004'}])
    if x < 0.72: return {'b': g.c([65, 32, 42, 10, 1, 127, 128, 200, 255, g.r.randrange(1, 256)])}
    if x < 0.75: return 'L' * (g.c([1000, 5000, 70000]) if g.p(0.9) else g.c([131071, 131072, 131073, 140000]))
    if x < 0.8: return g.text(g.c([3, 20])).replace('\0', '0')
    if arr:
        if g.p(0.06): return [g.c(['', 'e', 'a b', '*']) + str(i) for i in range(g.c([9, 17, 33, 65, 100, 129, 300]))]
        return [value11(g, False) for _ in range(g.c([0, 1, 2, 3, 5]))]
    return 'plain'
def tuple2(x): return x[0], x[1]
def word11(g):
    """a word without wildcards"""
    n = g.c([1, 1, 1, 2, 3]) if g.p(0.97) else g.c([6, 12]); parts = []; arr = False
    if g.p(0.04): return [['v', g.var(g.c([None, '', None])), g.c('ud')] for _ in range(g.c([2, 2, 3]))]   # empty parts make an empty word
    if g.p(0.03):
        # arrays times arrays
        k, l = g.c([(2, 2), (2, 3), (3, 3), (9, 9), (12, 7), (17, 5), (70, 2), (2, 70)])
        parts = [['v', g.var(['%s%d' % (g.c(['a', 'b c', '']), i) for i in range(k)]), 'u'], ['l', g.c(['-', '/', ' ']), 'd'], ['v', g.var(['%d%s' % (i, g.c(['x', '*', ''])) for i in range(l)]), 'u']]
        if g.p(0.3): parts.append(['v', g.var(['p', 'q']), 'u'])
        return parts
    for _ in range(n):
        x = g.r.random()
        if x < 0.5: parts.append(['l', g.c(TRICKY + ['lit', 'x,y', 'a.b', '/p/q', 'a~b', '~x', 'x~', '~~', 'a~~b/~']), g.c('uds')])
        else:
            v = value11(g, not arr)
            arr = arr or isinstance(v, list)
            parts.append(['v', g.var(v), g.c('ud')])
    # what nothing at all next to an empty list is worth is not laid down
    if any(p[0] == 'v' and dict(map(tuple2, g.vars)).get(p[1]) == [] for p in parts) and all(p[1] == '' for p in parts if p[0] == 'l'): parts = [['l', 'e', 'd']] + [p for p in parts if p[0] == 'v']
    # adjacent unquoted literals would merge digits and the like: keep them apart by style
    for i in range(1, len(parts)):
        if parts[i][0] == 'l' and parts[i - 1][0] == 'l': parts[i][2] = 's' if parts[i - 1][2] != 's' else 'd'
    return parts
def glob11(g, names=NAMES):
    """a word with wildcards next to literal text that may look like one"""
    x = g.r.random()
    star, pct = ['star'], ['pct']
    nm = g.c(names)
    while nm[0] == '.': nm = g.c(names)   # (a component that begins with a dot and a wildcard also finds . and ..)
    i = g.r.randrange(len(nm) + 1)
    if g.p(0.06): return [g.c([star, pct]), ['v', g.var([g.c(['*', '?', 'a', 'b', 'x.txt', '[a]', '', '.txt', ']', 't', 'p', '[!x]', 'r', '\\', '{x}', '*r']) for _ in range(g.c([0, 1, 2, 3, 5]))]), 'u']]
    if g.p(0.06):   # several of everything
        r = []
        for _ in range(g.c([2, 3, 4, 6])):
            if r and r[-1][0] == 'star' or g.p(0.5):
                t = g.c(['a', 'b', '~', 'a~', '~t', '.', 'x', '-', '[', ']', '[a', '*', '?', 'st', '%', '{', '{x', 't', '/', 'd1/'])
                r.append(['v', g.var(t), g.c('ud')] if g.p(0.4) else ['l', t, g.c('uds')])
            else: r.append(g.c([star, pct]))
        if r[0][0] not in ('star', 'pct'): r.insert(0, pct)
        r = [p for k, p in enumerate(r) if not (k and p[0] == 'l' and r[k - 1][0] == 'l')]
        if r[-1][0] not in ('star', 'pct') and (r[-1][1] if r[-1][0] == 'l' else g.vars[-1][1]).endswith('/'): r.append(pct)   # (what a / at the end does is not laid down)
        return r
    if g.p(0.03): return [['l', g.c(['~t', '~', 'a~', '~a', '~~']), 'u'], g.c([star, pct])]
    if g.p(0.04):   # lists before and after
        l1, l2 = ([g.c(['', 'a', 'st', 'x', '[', 'a[', '*', 'f[!', 'X']) for _ in range(g.c([1, 2, 3]))], [g.c(['', '*', '?', 'b', ']', '[b', 't', '*r', '[a]', '.txt', 'x]', '!']) for _ in range(g.c([2, 2, 3]))])
        return g.c([[['v', g.var(l1), 'u'], star, ['v', g.var(l2), 'u']], [pct, ['v', g.var(l1), 'u'], ['v', g.var(l2), 'u']], [star, ['v', g.var(l1), 'u'], ['v', g.var(l2), 'u']], [['v', g.var(l1), 'u'], ['v', g.var(l2), 'u'], star]])
    if g.p(0.02): n = g.c(LONGN); return g.c([[['l', n, 'd'], star], [['v', g.var(n[:g.c([70, 80])]), 'u'], star], [star, ['v', g.var(n[9:]), 'u']]])
    if x < 0.12: return [star]
    if x < 0.3: return [['l', nm[:i], 'd'], star] if i else [star]
    if x < 0.4: return [star, ['l', nm[i:] or 'x', g.c('ds')]]
    if x < 0.5: return [['v', g.var(nm[:i] or 'a'), g.c('ud')], star]
    if x < 0.58: return [star, ['v', g.var(g.c(['.txt', 'b', '*', '?', '[a]', ']', 'x'])), 'u']]
    if x < 0.66: return [pct]
    if x < 0.72: return [['l', 'a', 'u'], pct]
    if x < 0.78: return [['l', g.c(['d1/', 'd1/', 'd2/', 'dl/', '/w/', '/w/d1/', 'nodir/', 'a/', '../w/']), 'd'], star]
    if x < 0.84: return [star, ['l', '/', 'u'], star]
    if x < 0.88: return [star, ['l', '/x.txt', 'u']]
    if x < 0.92: return [['v', g.var(g.c([['a', 'b'], ['d1/', 'd2/'], ['zz', 'a'], []])), 'u'], star]
    if x < 0.96: return [star, ['l', '.', 'u'], star]
    return [['l', 'zzz', 'u'], star]
def dirs11(g):
    if g.p(0.03):
        n = g.c([33, 64, 65, 100, 257, 300])
        for i in range(n): g.fs.append(['f', '/w/d1/%s%d' % (g.c(['n', 'm', 'a b', 'z']), i)])
    for n in NAMES:
        if g.p(0.6): g.fs.append([g.c(['f', 'f', 'f', 'd']), '/w/' + n])
    if g.p(0.3): g.fs += [['f', '/w/' + n] for n in LONGN]
    for d in ('d1', 'd2'):
        g.fs.append(['d', '/w/' + d])
        for n in NAMES:
            if g.p(0.25): g.fs.append(['f', '/w/%s/%s' % (d, n)])
    g.fs += [['l', '/w/dl', 'd1'], ['l', '/w/dangling', 'nowhere'], ['l', '/w/d1/up', '..'], ['d', '/w/locked', '', 'r'], ['f', '/home/u/.prof'], ['f', '/home/u/doc']]
def fam_P11(rng):
    g = G(rng); ss = []; dirs11(g)
    for _ in range(g.c([1, 2, 3])):
        kind = g.c(['sync', 'cap', 'async']); pls = []
        if g.p(0.25): ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(['d1', '/w/d2', 'dl', '..', '/w', '/nodir'])})
        for _ in range(g.c([1, 2, 3])):
            pl = []
            for i in range(g.c([1, 1, 2])):
                args = [glob11(g) if g.p(0.35) else word11(g) for _ in range(g.c([0, 1, 2, 3, 4]))]
                if g.p(0.02): args += [W('n%d' % i) for i in range(g.c([15, 40, 130, 300]))]
                if g.p(0.03): args.append([['l', 'd1/', 'u'], ['star']])
                if g.p(0.04): args.append([['v', g.var(g.c(['a\0b', '\0', 'x\0'])), g.c('ud')]] if g.p(0.7) else W('a\0b', g.c('uds')))
                st = g.st(g.exit_ops(0.1), args=args)
                if i: st['ops'] = [['drain', 0]] + st['ops']
                x = rng.random()
                if x < 0.1: st['prog'] = [['v', g.var(st['n']), g.c('ud')]]
                elif x < 0.15: st['prog'] = [['l', 'c', 'd'], ['v', g.var(int(st['n'][1:])), 'u']]
                elif x < 0.2: st['prog'] = W('/bin/' + st['n'], g.c('uds'))
                elif x < 0.23: st['prog'] = [['v', g.var([st['n']]), 'u']]
                elif x < 0.26: st['prog'] = [['v', g.var(g.c([['no such', 'two'], [st['n'], st['n']], [st['n'], 'b', 'c', 'd'], [st['n']] * 9, []])), 'u']]; kind = 'sync'
                elif x < 0.29: st['prog'] = [['l', '/bin/' + st['n'][:-1], 'u'], ['star'], ['l', '', 'd']] if False else W('/bin/' + st['n'])
                if g.p(0.1): st['args'] = [[['home'], ['l', g.c(['x', 'a b']), 'd']]] + st['args']
                pl.append(st)
            pls.append(pl)
        add_try(g, pls, 0.7)
        b = g.blk(pls, kind)
        if kind != 'async': b['catch'] = 1
        if kind == 'sync' and g.p(0.25):
            pls.insert(rng.randrange(len(pls) + 1), [{'builtin': 'cd', 'n': 'cd', 'args': [W(g.c(['d1', '/w/d2', 'dl', '..', '/nodir']))], 'try': 1}])
        ss.append(b)
        if kind == 'async': ss.append({'k': 'join', 'id': g.id(), 'of': b['id'], 'catch': 1})
        if g.p(0.3): ss.append({'k': 'glob', 'id': g.id(), 'pat': g.c(['*', 'a*', '*.txt', 'd1/*', '?', '*/x.txt', 'd?/*', 'zzz*', '/w/d1/*', 'dl/*'])})
        if g.p(0.1): # the directory changes between commands
            ss.append(g.blk([[g.st([g.c([['fwrite', '/w/zz1', 'x'], ['rm', '/w/a'], ['mkdir', '/w/zd'], ['symlink', '/w/zl', 'd1']])])], [g.st([], args=[[['star']]])]]))
    if g.p(0.1): g.sc['env'] = ['PATH=/bin', 'HOME=/home/u/']
    sp = g.spec(ss); sp['stderr_ok'] = 1
    return sp

# -------------------------------------------------------------------- P12
EN = ['A', 'B', 'PATH2', 'LANG', 'x', 'long_name_1', 'HOME', 'A1']
ENODD = [' A', 'A ', ' ', '\tA', 'A\n', 'a.b', 'A-B', '1A', '\xff', 'a', 'AA', 'L' * 300, '$A', '"A"', '-']
def eword(g):
    v = g.c(['', 'x', 'a b', '=', 'a=b', 'two\nlines', '\xff', '$A', '"', "'", '*', '~', 'v' * 3000])
    return W(v, g.c('ds')) if g.p(0.5) else [['v', g.var(v), g.c('ud')]]
def fam_P12(rng):
    g = G(rng); ss = []
    g.sc['env'] = ['PATH=/bin', 'HOME=/home/u'] + ['%s=%s' % (n, g.c(['', '1', 'in herited', '=x', '\xff'])) for n in EN[:6] if g.p(0.5)]
    g.fs.append(['d', '/bin2'])
    live = []
    for _ in range(g.c([2, 3, 4, 6])):
        x = rng.random()
        if x < 0.3: ss.append({'k': 'export', 'id': g.id(), 'name': g.c(EN if g.p(0.75) else ENODD), 'val': g.c(['', 'v1', 'v 2', 'a=b', '\n', '\xff\xfe', 'w' * 5000, ' v', 'v ', 'v\n', '"v"', "'v'", '$A', '${A}', '~/x', '\\n'])})
        elif x < 0.36: ss.append({'k': 'export', 'id': g.id(), 'name': g.c(['', '=', 'A=B', 'A\0', '\0', '=A', 'B']), 'val': g.c(['v', 'a\0b', '\0']), 'catch': 1})
        elif x < 0.55: ss.append({'k': 'env', 'id': g.id(), 'name': g.c(EN + ['NOSUCH', 'a', 'PATH'] if g.p(0.7) else ENODD)})
        elif x < 0.58: ss.append({'k': 'env', 'id': g.id(), 'name': g.c(['', 'A\0', '\0']), 'catch': 1})
        else:
            kind = g.c(['sync', 'cap', 'async'])
            pls = []
            for _ in range(g.c([1, 2, 3])):
                pl = []
                for i in range(g.c([1, 1, 2, 3])):
                    st = g.st(([['drain', 0]] if i else []) + ([['sleep', g.c([1, 5000])]] if g.p(0.3) else []) + g.exit_ops(0.1))
                    if g.p(0.5): st['env'] = [[n, eword(g)] for n in rng.sample(EN, g.c([1, 1, 2, 3]))]
                    if g.p(0.06): st['env'] = [['A', [['v', g.var(g.c([['x', 'y'], [], ['x', 'y', 'z', 'w'], ['x'] * 9])), 'u']]]]; kind = 'sync'
                    if g.p(0.05): n = g.c(EN); st['env'] = [[n, eword(g)] for _ in range(g.c([2, 2, 3]))]; rng.shuffle(st['env'])
                    elif g.p(0.03): st['env'] = [['N%d' % i, eword(g)] for i in range(g.c([9, 17, 40]))]
                    if g.p(0.04): st['env'] = [['A', [['v', g.var('a\0b'), 'u']]]]
                    if g.p(0.04): st['env'] = st.get('env', [])[:1] + [[g.c(['LONG', 'A']), [['v', g.var('v' * g.c([131060, 131066, 131067, 131069, 131070, 131071, 140000])), 'u']]]]
                    for e in st.get('env', []):
                        if g.p(0.12): e[0] = ['v', g.var(e[0]), 'u']
                    if g.p(0.03): st.setdefault('env', []).append([['v', g.var(g.c(['', 'A=B', '=', '=A', 'A=', None, 7, True, 'X Y', 'A\0', '\xff', {'f': '1.5'}])), 'u'], eword(g)])
                    if g.p(0.06): st['env'] = [e for e in st.get('env', []) if e[0] != 'PATH'] + [['PATH', W(g.c(['/bin', '/bin:/opt', '/nodir:/bin', '/bin:/bin']), g.c('ds'))]]
                    if g.p(0.06): st['missing'] = 1
                    pl.append(st)
                pls.append(pl)
            add_try(g, pls, 0.8)
            b = g.blk(pls, kind, **({'catch': 1} if kind != 'async' else {}))
            if kind == 'sync' and g.p(0.3):
                t = g.name(); g.progs[t] = g.exit_ops(0.1)
                pls.insert(rng.randrange(len(pls) + 1), [{'builtin': 'spawn0', 'n': 'spawn0', 'args': [W(t), W('zero')], 'env': [[g.c(EN[:6]), eword(g)]] if g.p(0.7) else [], 'try': 1}])
            ss.append(b)
            if kind == 'async': live.append(b)
        if live and g.p(0.4):
            b = live.pop(rng.randrange(len(live))); ss.append({'k': 'join', 'id': g.id(), 'of': b['id'], 'catch': 1})
    for b in live: ss.append({'k': 'join', 'id': g.id(), 'of': b['id'], 'catch': 1})
    if g.p(0.15):
        t = g.name(); g.progs[t] = []
        ss.append(g.blk([[{'builtin': g.c(['exec']), 'n': 'exec', 'args': [W(t)], 'env': [[n, eword(g)] for n in rng.sample(EN[:6], g.c([0, 1, 2]))]}]]))
    sp = g.spec(ss); sp['stderr_ok'] = 1
    return sp

# -------------------------------------------------------------------- P13
CDODD = ['-', '--', '~', 'sp ace', '-P', '~u', '$HOME', '*', '.hid', '...', ' ', 'new\nline', '~/x', '-/in']
CDS = CDODD[:9] + ['/tmp', '/w', 'd1', 'd1/in', '..', '../..', '.', './d1/..', 'dl', 'dl/..', 'dl/in', '/', '//w', '/w/', 'd1/', 'up', 'd1//in', 'abs', 'd2', '/w/d1/in/../..', 'dl/../w', 'chain']
CDBAD = ['/nodir', 'file', 'file/..', 'dang', 'loop', 'noperm', 'noperm/x', '', 'nodir/..', 'x' * 300, 'd1/nodir', 'a\0b', 'dl/../d1/none']
def fam_P13(rng):
    g = G(rng); ss = []
    g.fs += [['d', '/w/d1/in'], ['d', '/w/d2'], ['l', '/w/dl', '/w/d1'], ['l', '/w/up', '..'], ['l', '/w/abs', '/tmp'], ['f', '/w/file', 'x'], ['l', '/w/dang', 'nowhere'], ['l', '/w/loop', 'loop'], ['d', '/w/noperm', '', 'x'], ['l', '/w/chain', 'dl'],
             *[['d', '/w/' + x] for x in CDODD if x[-2:] not in ('/x', 'in')], ['d', '/w/~/x'], ['d', '/w/-/in'], ['d', '/home/u/x'],
             ['f', '/w/d1/in1', 'input of d1'], ['f', '/w/in1', 'input of w'], ['f', '/tmp/in1', 'input of tmp'], ['f', '/w/d1/in/in1', 'input of in'], ['f', '/w/d1/x1'], ['f', '/tmp/x2'], ['f', '/w/d1/in/x3'], ['f', '/w/d2/x4']]
    if g.p(0.4): g.sc['env'] = ['PATH=/bin', 'HOME=/home/u'] + [e for e in ['OLDPWD=/tmp', 'CDPATH=/w/d1:/tmp', 'PWD=/w/d2'] if g.p(0.6)]
    def observe():
        x = rng.random()
        if x < 0.3: return [{'k': 'cwd', 'id': g.id()}]
        if x < 0.4: return [{'k': 'glob', 'id': g.id(), 'pat': g.c(['*', 'x*', '*/x*', '../*'])}]
        st = g.st(g.exit_ops(0.1))
        y = rng.random()
        if y < 0.3: st['args'] = [[['l', 'x', 'u'], ['star']], [['l', '..', 'u'], ['l', '/', 'u'], ['star']]][:g.c([1, 2])]
        elif y < 0.55: st['ops'] = [['w', 1, g.c([1, 500]), g.tag()]] + st['ops']; st['redir'] = [['out', 1, g.c(['file', 'append']), W(g.c(['rel', './rel', '../rel']))]]
        elif y < 0.75: st['ops'] = [['drain', 0]] + st['ops']; st['redir'] = [['in', W(g.c(['in1', './in1']))]]
        st['try'] = 1
        kind = g.c(['sync', 'cap', 'async'])
        b = g.blk([[st] + ([g.st([['drain', 0]])] if g.p(0.2) else [])], kind)
        r = [b]
        if kind == 'async': r.append({'k': 'join', 'id': g.id(), 'of': b['id']})
        return r
    for _ in range(g.c([2, 3, 5, 8]) if g.p(0.98) else 30):
        x = rng.random()
        if x < 0.03:
            # a name that is not UTF-8 (no wildcards near it: see the text of P11)
            if not any(e[1] == '/opt/\xff\xfe/\xe9' for e in g.fs): g.fs.append(['d', '/opt/\xff\xfe/\xe9'])
            st = g.st([['w', 1, 20, g.tag()]]); st['redir'] = [['out', 1, 'append', W('rel')]]
            ss += [{'k': 'cd', 'id': g.id(), 'path': g.c(['/opt/\xff\xfe', '/opt/\xff\xfe/\xe9'])}, {'k': 'cwd', 'id': g.id()}, g.blk([[st]], g.c(['sync', 'cap']))]
            if g.p(0.5): ss += [{'k': 'cd', 'id': g.id(), 'path': g.c(['\xe9', '../\xff\xfe', '..'])}, {'k': 'cwd', 'id': g.id()}]
            ss.append({'k': 'cd', 'id': g.id(), 'path': '/w'})
        elif x < 0.45: ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(CDS if g.p(0.85) else CDODD)})
        elif x < 0.6: ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(CDBAD), 'catch': 1})
        elif x < 0.8:
            pls = []
            for _ in range(g.c([1, 2, 3, 4])):
                if g.p(0.5):
                    a = W(g.c(CDS if g.p(0.7) else CDBAD))
                    if g.p(0.2): a = [['v', g.var(a[0][1]), 'u']]
                    pls.append([{'builtin': 'cd', 'n': 'cd', 'args': [a] if g.p(0.93) else g.c([[], [a, a]]), 'try': g.c([0, 1])}])
                else:
                    st = g.st(g.exit_ops(0.1)); st['try'] = g.c([0, 1])
                    if g.p(0.4): st['args'] = [[['l', 'x', 'u'], ['star']]]
                    elif g.p(0.4): st['redir'] = [['out', 1, 'append', W('rel')]]; st['ops'] = [['w', 1, 10, g.tag()]] + st['ops']
                    pls.append([st])
            ss.append(g.blk(pls, catch=1))
            if g.p(0.5): ss.append({'k': 'cwd', 'id': g.id()})
        ss += observe()
    sp = g.spec(ss); sp['stderr_ok'] = 1
    if any(e[1] == '/opt/\xff\xfe/\xe9' for e in g.fs): sp['nofault'] = 1
    return sp

# -------------------------------------------------------------------- P14
def pvals(g):
    def one():
        x = g.r.random()
        if x < 0.3: return g.c(['', 'x', 'a\nb', '\n', '\0', '\xff', 'tab\t', '\r\n', 'no newline', '%d', 'é'.encode().decode('latin-1')])
        if x < 0.5: return g.text(g.c([5, 100]))
        if x < 0.65: return 'p' * (g.c([1023, 1024, 1025, 4096, 8191, 8192, 8193, 20000, 70000]) if g.p(0.97) else g.c([131072, 200000, 1100000]))
        if x < 0.75: return ('line %d\n' % g.r.randrange(100)) * g.c([1, 10, 300])
        if x < 0.83: return {'b': g.c([97, 10, 65, 32, 126, 39, 9])} if g.p(0.5) else (lambda c: {'f': '"%s"[0]' % c, 'o': c})(g.c(['\xff', '\x80', '\x7f', '\xc3', '\x01']))
        return g.c([0, 42, -7, True, False, None, 9223372036854775807])
    if g.p(0.03): return [g.c(['v', '', 7, None]) for _ in range(g.c([5, 9, 17, 100, 300]))]
    if g.p(0.06): return edges(g)
    if g.p(0.06): # what is buffered fills up between the pieces
        n = g.c([1024, 1024, 4096, 8192]) - g.r.randrange(8)
        return ['e' * n] + [g.c(['', 'x', 'yy', 'long enough', 7, '\n', 'z' * 1200]) for _ in range(g.c([1, 2, 3, 8]))]
    return [one() for _ in range(g.c([1, 1, 1, 2, 3]))]
def edges(g):
    """pieces that, separators included, add up to exactly the size of a buffer after some piece"""
    left = g.c([1024, 1024, 1024, 1024, 4096, 8192]); vs = []
    k = g.c([2, 2, 3, 4])
    for i in range(k):
        n = left if i == k - 1 else g.r.randrange(0, max(1, left - 2 * k)); vs.append('ebcd'[i] * n); left -= n + 1
        if left < 0: break
    return vs + [g.c(['', 'x', 'yy', 7, '\n', 'z' * 1200]) for _ in range(g.c([1, 1, 2]))]
def fam_P14(rng):
    g = G(rng)
    if g.p(0.4): return out14(g)
    ss = []
    if g.p(0.15): g.sc['stdout'] = g.c(['file:/w/out', 'append:/w/out']); g.fs.append(['f', '/w/out', 'before'])
    for _ in range(g.c([2, 3, 5, 8])):
        x = rng.random()
        if x < 0.6: ss.append({'k': g.c(['print', 'print', 'println']), 'vals': pvals(g)})
        elif x < 0.85:
            st = g.st([['w', 1, g.c([1, 10, 5000]), g.tag()]] + g.exit_ops(0.1)); st['try'] = 1
            ss.append(g.blk([[st]], g.c(['sync', 'sync', 'cap'])))
        elif x < 0.9:
            b = g.blk([[g.st([['sleep', g.c([1, 3000])]] + g.exit_ops(0.1))]], 'async'); ss.append(b)
            ss.append({'k': 'print', 'vals': pvals(g)}); ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
        elif x < 0.95: ss.append({'k': 'sleep', 'id': g.id(), 'ms': 1})
        else: ss.append({'k': 'raw', 'text': 'rep(%d, std.type(std.catch(function ()\nstd.print("half")\nstd.panic("x")\nend)))\n' % g.nid, 'reps': [['out', 'half'], [g.nid, 'error']], 'tags': ['P14']})
    sp = None
    x = rng.random()
    ss.append({'k': g.c(['print', 'println']), 'vals': ['last words'] + pvals(g)[:1]})
    if x < 0.2: ss.append({'k': 'exit', 'code': g.c([0, 1, 3, 127, 255])})
    elif x < 0.3: ss.append({'k': 'panic', 'val': g.c(['boom', 5, None])})
    elif x < 0.35: ss.append({'k': 'exit', 'code': g.c([-1, 256])})
    elif x < 0.5:
        t = g.name(); g.progs[t] = [['ws', 1, 'from the program'], ['exit', g.c([0, 3])]]
        e0 = g.c([0, 1])
        ss.append(g.blk([[{'builtin': 'exec0' if e0 else 'exec', 'n': 'exec', 'args': [W(t)] + ([W('zero')] if e0 else [])}]]))
    elif x < 0.55: ss.append({'k': 'raw', 'text': '1 + "a"\n' if False else 'std.panic(1 + "a")\n', 'ends': 127})
    sp = g.spec(ss)
    if g.p(0.1): sp['noend'] = 1
    return sp
def out14(g):
    """standard output that fails: every print is caught (or not) and its outcome told by a command's argument"""
    steps = []
    for i in range(g.c([1, 2, 3, 5])):
        steps.append({'f': g.c(['print', 'println']), 'vals': pvals(g), 'catch': 0 if g.p(0.15) else 1, 'obs': 'o%d' % i})
        if g.p(0.15): steps[-1].update(f='read', vals=[g.c(['', '> ', 'prompt: ', 'line\nthen: ', 'q' * 1023, 'q' * 1025])])
    g.stdin('a line\n' * 6)
    x = g.r.random(); faults = []
    if g.p(0.12): steps[0].update(f=g.c(['print', 'println']), vals=edges(g)); x = 1; faults = [['write', g.c([0, 0, 1]), 1, g.c([5, 28, 122]), '|1']]
    if x < 0.25: g.sc['stdout'] = 'full'
    elif x < 0.5:
        # the reader goes away after some bytes
        g.xprogs['rdr'] = [['readn', 0, g.c([0, 1, 5, 1000, 5000, 70000])]] + ([['sleep', g.c([1, 5000])]] if g.p(0.5) else [])
        g.ext.append(['rdr', [[0, 'out', 'r']]])
    elif x < 0.95:
        faults = [['write', g.c([0, 1, 1, 2, 3, 4, 6]), g.c([1, 1, 2, 1 << 30]), g.c([5, 28, 32, 122, 27]), '|1']]
    text = ''
    end = g.c([None, None, 'exit', 'panic'])
    from .lang import hval
    for i, s in enumerate(steps):
        call = 'std.%s(%s)' % (s['f'], ', '.join(hval(v) for v in s['vals']))
        if s['catch']: text += 'let e%d = std.catch(function ()\nreturn %s\nend)\nlet t%d = std.type(e%d)\n' % (i, call, i, i)
        else: text += '%s\nlet t%d = "nil"\n' % (call, i)
        text += '{ %s ${t%d} }\n' % (s['obs'], i)
        g.progs[s['obs']] = []
    code = g.c([0, 4, 255])
    if end == 'exit': text += 'std.exit(%d)\n' % code
    elif end == 'panic': text += 'std.panic("end")\n'
    sp = g.spec([{'k': 'raw', 'text': text}])
    sp.update(noprelude=1, judge='out', steps=steps, end=end, code=code)
    if faults: sp['sc']['faults'] = faults
    return sp

# -------------------------------------------------------------------- P15
def line15(g):
    x = g.r.random()
    if x < 0.3: return g.c(['', 'x', 'hello', '\r', 'a\0b', '\xff\xfe', ' lead', '\t', '@1 n', 'é'.encode().decode('latin-1'), '\xc3', '\x00'])
    if x < 0.7: return g.text(g.c([3, 40, 200])).replace('\n', ' ')
    if x < 0.85: return 'z' * g.c([1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193])
    if x < 0.88: return 'y' * g.c([20000])
    if x < 0.89: return 'k' * g.c([65535, 65536, 65537, 70000, 131073])
    return ''
def fam_P15(rng):
    g = G(rng); ss = []
    n = g.c([0, 1, 2, 3, 5, 8]) if g.p(0.98) else g.c([40, 100])
    data = ''.join((line15(g) if n < 20 else g.c(['', 'a', 'bc', 'x' * 30])) + '\n' for _ in range(n))
    if g.p(0.4): data += line15(g)
    if g.p(0.05): g.sc['stdin'] = 'null'; data = ''
    else: g.stdin(data)
    reads = n + g.c([-1, 0, 1, 2, 3])
    for _ in range(max(1, reads)):
        x = rng.random()
        r = {'k': 'read', 'id': g.id()}
        if g.p(0.35): r['prompt'] = g.c(['> ', '', 'Name: ', 'two\nlines ', '\xff', 'p' * 9000, '\n'])
        ss.append(r)
        if x < 0.12:
            k = g.c(['sync', 'cap'])
            ss.append(g.blk([[g.st(g.c([[['readn', 0, g.c([0, 1, 10, 100])]], [['line', 0, 1]], [['head', 0, 1, 20]], [['drain', 0]]]))] + ([g.st([['drain', 0]])] if g.p(0.3) else [])], k))
        elif x < 0.2: ss.append(g.blk([[g.st([])]], g.c(['sync', 'cap'])))
        elif x < 0.25: ss.append(g.blk([[g.st([['drain', 0]], redir=[['here', W('own input')]])]], 'cap'))
        elif x < 0.3: ss.append({'k': 'print', 'vals': ['between ']})
        elif x < 0.33: ss.append({'k': 'sleep', 'id': g.id(), 'ms': 1})
    if g.p(0.1):
        t = g.name(); g.progs[t] = [['drain', 0]]
        ss.append(g.blk([[{'builtin': 'exec', 'n': 'exec', 'args': [W(t)]}]]))
    sp = g.spec(ss)
    if g.p(0.25) and sp['sc'].get('stdin') != 'null':
        for s in ss:
            if s['k'] == 'read': s['catch'] = 1
        sp['sc']['faults'] = [['read', g.c([0, 1, 2, 3, 7, 30, 200]), g.c([1, 1, 3]), g.c([5, 21]), '|0']]
    elif g.p(0.3):
        # the feeder answers each prompt: it waits until the prompt has been seen
        g2 = G(rng); lines = [line15(g2)[:3000] for _ in range(g.c([1, 2, 3]))]
        ops = []; ss = []; 
        for i, l in enumerate(lines):
            pr = 'prompt%d?\n' % i
            ss.append({'k': 'read', 'id': g2.id(), 'prompt': pr})
            ops += [['wmark', 'seen%d' % i], ['ws', 1, l + '\n']]
        g2.xprogs['feeder'] = ops
        sink = [['readn', 0, len('@0 i0;\n')]]
        for i, l in enumerate(lines):
            sink += [['readn', 0, len('prompt%d?\n' % i)], ['mark', 'seen%d' % i], ['readn', 0, len('@%d s%d:%s\n\n' % (i + 1, len(l) + 1, l))]]
        g2.xprogs['term'] = sink + [['drain', 0]]
        g2.ext = [['feeder', [[1, 'in', 'w']]], ['term', [[0, 'out', 'r']]]]
        g2.sc['stdin'] = 'pipe:in'
        sp = g2.spec(ss)
    return sp

# -------------------------------------------------------------------- P16
STATIC = ['let = 3', 'undefined_thing()', 'let q1 = 1\nlet q1 = 2', 'return 5', 'if true then', 'end', '"unterminated', '1 + )', 'break', 'self.x', '{ cmd', 'let z = ${ a | }', 'function (', "'ab'", '3 = 4', '&{ cd / }', '${ exec x }', '{ x > }', '\\', 'x.y.', '"\\q"', '{ c "${nosuchvar}" }', '{ cd / > f }', ')', 'let a b', '5 let', '@', '$', '{ c1x [a] }', '{ c1x {a,b} }', '\x00', 'let q = \xff', '\x01', 'let z = 1 \x7f 2', 'return 5', 'return',
          '@[ a: 1, a: 2 ]', 'let k = @[ a: 1, b: @[ c: 1 ], a: 2 ]', 'let k = @[ a: 1, b: function () @[ z: 1 ] end, b: 3 ]', 'function f(a, a) end', 'while true do function f() break end end', 'let y = @[ q: self ]', 'function f() let q = 1\nlet q = 2 end', 'function f(q) let q = 2 end',
          'if true then let w1 = 2 end\nstd.println(w1)', 'for e in [] do end\nstd.println(e)', 'function f() zz end', 'let z = [1, 2', 'let z = @[ a 1 ]', 'let z = @[ 5: 1 ]', 'let z = (1', 'let z = "a\n', 'function 5() end', 'while true', 'for 5 in [] do end', 'else', '{ c1x | }', '{ c1x > }', '{ c1x 2> }', '{ c1x < }', '{ ; }', '{ | c1x }', '${ }', '{ c1x "a }', "{ c1x 'a }", '{ c1x $ }', '{ c1x ${ }', '{ c1x "$nosuch" }', '{ c1x \\q }', '{ c1x "\\q" }', 'let 5 = 5', '1 = 2', 'f( = 3', 'let z = 0x', "let z = ''", "let z = '\\q'", 'let z = 99999999999999999999', '{ c1x $if }', '{ c1x ${end} }', '{ c1x "$while" }', '{ c1x ${a b} }', '{ c1x $1 }', '{ c1x ${} }', '{ c1x "${1a}" }']
# statements that are valid and do nothing; %d makes the names in them unique
VALID = ['let k%d = @[ a: 1, b: @[ a: 2, c: 3 ], c: 4 ]', 'let k%d = @[ a: 1, b: (function () return @[ c: 1 ] end)(), c: 2 ]', 'let k%d = 1\nif true then let k%d = 2 end', 'function k%d(a)\nif a == 0 then return 0 end\nk%d(a - 1)\nend\nk%d(3)', 'let k%d = function (a, b) let c = a + b\nc end\nk%d(1, 2)',
         'for k%d in std.iter([1, 2]) do if k%d == 1 then break end end', 'while true do let k%d = function () while true do break end end\nk%d()\nbreak end', 'let k%d = if true then 1 else 2 end', 'let k%d = @[ f: function () self end ]', 'let k%d = @[]', 'let k%d = []', 'let k%d = [1, [2, @[ a: [] ]], function () end]', 'let k%d = -1 + 2 * (3 - 4)', 'function k%d() end\nk%d()', 'let k%d = "a\\tb\\n\\"c\\""', "let k%d = 'a'", 'let k%d = not true or false and true', 'let k%d = 1.5e3', 'nil', 'let k%d = nil # note', '# only { a comment', 'let k%d = (function (x) x end)(1)', 'let k%d = @[ a: 1 ]\nk%d.a = 2\nk%d["a"] = 3', 'let k%d = 9223372036854775807',
         'for k%d in std.iter([]) do end\nfor k%d in std.iter([1]) do end', 'function k%d(a) let b = a\nfunction c() b = b + 1\nb end\nc() end\nk%d(1)', 'let k%d = 5 % 3', 'if true then else end', 'if false then elseif true then else end', 'let k%d = 1 == 2', 'let k%d = "a" ++ "b"', 'let k%d = std.catch(function () return end)']
STATIC = [s for s in STATIC if s not in ('{ x > }',)]
def fam_P16(rng):
    g = G(rng)
    body = []; expect_out = ''; cmds = []
    n = g.c([1, 2, 3, 6]) if g.p(0.97) else g.c([30, 100])
    for i in range(n):
        x = rng.random()
        if x < 0.5:
            t = g.c(['hello', 'a b', '', '\xff', 'x' * 2000]) + str(i)
            body.append('std.println("%s")\n' % t); expect_out += t + '\n'
        else:
            c = g.name(); g.progs[c] = [['exit', g.c([0, 0, 3])]]; body.append(g.c(['{ %s }\n', 'let r%d = ${ %%s }\n' % i]) % c); cmds.append(c)
        if g.p(0.2): body.append('# ' + 'comment ' * (g.c([1, 100, 2000]) if g.p(0.95) else g.c([8192, 10000, 40000])) + '\n')
        if g.p(0.1): body.append('\n\n')
        if g.p(0.15): v = g.c(VALID); body.append(v.replace('%d', str(i)) + '\n')
    kind = g.c(['ok', 'ok', 'ok', 'static', 'static', 'static', 'args', 'unread'])
    code = 0; run = True; err = False
    if kind == 'static':
        body.insert(g.c([0, len(body), len(body), rng.randrange(len(body) + 1)]), g.c(STATIC) + '\n'); code = 2; run = False; err = True
    elif kind == 'ok':
        x = rng.random()
        if x < 0.35: code = g.c([0, 1, 2, 3, 42, 126, 127, 128, 254, 255]); body.append('std.exit(%d)\n' % code)
        elif x < 0.45: body.append('std.exit(%s)\n' % g.c(['256', '0 - 1', '1000', '"x"', 'nil', '4294967296', '0 - 256', '1.5', '', '65536', '1, 2'])); code = 127; err = True
        elif x < 0.6: body.append(g.c(['std.panic("boom")\n', 'std.panic(nil)\n', 'std.len(5)\n', 'nil + 1\n', 'let q = 5 / 0\n', '{ c1x 5> f }\n', 'let zz = [1][7]\n', 'std.assert(false)\n', 'function rec() std.panic("deep") end\nrec()\n'])); code = 127; err = True
        elif x < 0.7: body.append('function f()\nfor i in std.range(0, 5, 1) do\nif i == 3 then std.exit(7) end\nend\nend\nstd.catch(f)\n'); code = 7
        if code or x < 0.35: # whatever follows does not run
            if x < 0.7: body.append('std.println("not reached")\n')
    text = ''.join(body)
    if g.p(0.15): text = text[:-1] if text.endswith('\n') and kind != 'static' else text
    if g.p(0.15): text = '#!/usr/bin/hush\n' + text
    flags = []
    check = g.p(0.2)
    if check:
        flags = ['--check']; run = False
        if kind == 'ok': code = 0; err = False
    elif g.p(0.03): flags = ['--lex'] if False else []
    args = [g.c(['a', 'a b', '', '-x', '--check', '--', '\xff\xfe', 'é'.encode().decode('latin-1'), '*', '-', '--nosuch', '-h', '--help', '--version', '\n', '0']) for _ in range(g.c([0, 0, 1, 2, 3]) if g.p(0.96) else g.c([10, 50, 300]))]
    rep_args = run and kind == 'ok' and g.p(0.6)
    exp_args = list(args)
    via = g.c(['file', 'file', 'stdin', 'dash', 'notfile'])
    if args and via == 'stdin': via = 'dash'
    if via in ('dash',) and flags == []: pass
    if rep_args:
        body0 = 'let av = std.args()\n{ argsprog ${av} end }\n'
        pre = '#!/usr/bin/hush\n' if text.startswith('#!/usr') else ''
        text = pre + body0 + text[len(pre):]
        g.progs['argsprog'] = []; cmds.insert(0, 'argsprog')
    sc = {}
    if g.p(0.1): flags = flags + ['--']
    if kind == 'static' and g.p(0.06): text = ''.join(b for b in body if b.split('\n')[0] not in [s.split('\n')[0] for s in STATIC]) + g.c(['\x1a', '\0', '\x04', '\xff', '\xef\xbb\xbf', '\x7f'])
    if err and g.p(0.1): sc['stderr'] = 'full'
    if via == 'file':
        pth = g.c(['/w/main.hsh', 'main.hsh', './main.hsh', '/w/s p.hsh', 'lnk.hsh'])
        real = {'lnk.hsh': '/w/real.hsh', '/w/s p.hsh': '/w/s p.hsh'}.get(pth, '/w/main.hsh')
        if pth == 'lnk.hsh': g.fs.append(['l', '/w/lnk.hsh', 'real.hsh'])
        sc['argv'] = ['hush'] + flags + [pth] + args; sc['script_path'] = real; sc['script'] = text
        fpath = real
    else:
        sc['argv'] = ['hush'] + flags + (['-'] + args if via == 'dash' else [] if via == 'stdin' else [g.c(['/nofile', 'no such', '/w'] if '--' not in flags else ['/nofile', '--', '--check', '-x'])] + args)
        if via == 'notfile': exp_args = [sc['argv'][1 + len(flags)]] + args
        if via == 'stdin': exp_args = []
        g.stdin(text)
        sc['script_path'] = '/w/unused.hsh'; sc['script'] = ''
        fpath = '|0'
    if kind == 'unread':
        err = True; run = False; code = 127
        if via == 'file' and g.p(0.4): sc['faults'] = [['open', 0, 1, g.c([13, 24, 5, 23]), fpath]]
        else: sc['faults'] = [['read', g.c([0, 0, 1, 2, 3, 5]), 1, g.c([5, 21]), fpath]]
    elif kind == 'args' and via == 'file':
        args = [a for a in args if a.isascii()]; sc['argv'] = ['hush'] + flags + [pth] + args
        sc['argv'] = ['hush', g.c(['--nosuch', '--chec', '--checkk', '--lexx', '--foo=1'])] + sc['argv'][1:]; code = 1; run = False; err = True
    elif kind == 'args': kind = 'ok'
    sp = g.spec([{'k': 'raw', 'text': ''}], **sc)
    sp.update(noprelude=1, judge='load', kind=kind, code=code, run=run, err=err, out=expect_out, cmds=cmds, args=exp_args if rep_args else None, check=check, rawscript=1)
    return sp

# -------------------------------------------------------------------- P17
# what a module may evaluate to besides a dict: text, type, value
MODVALS = [('nil\n', 'nil', None), ('5\n', 'int', 5), ('false\n', 'bool', False), ('""\n', 'string', ''), ('let q = 1\n', 'nil', None), ('let q = []\nq\n', 'array', []), ('if false then 3 end\n', 'nil', None), ('std.error("of the module", 1)\n', 'error', {'err': 1}), ('', 'nil', None)]
def modtext(md):
    if md.get('static'): return md['static']
    from .lang import hstr
    n = md['name']
    t = 'std.println("L %s")\n' % n
    for i, s in enumerate(md.get('steps', [])):
        if s[0] == 'imp':
            if s[2]: t += 'let c%d = std.catch(function () return std.import(%s) end)\nstd.println("C %s %d " ++ std.type(c%d))\n' % (i, hstr(s[1]), n, i, i)
            else: t += 'let c%d = std.import(%s)\nstd.println("I %s %d " ++ std.type(c%d))\n' % (i, hstr(s[1]), n, i, i)
        elif s[0] == 'via': t += 'let c%d = std.catch(function ()\nlet h = std.import(%s)\nreturn h.imp(%s)\nend)\nstd.println("C %s %d " ++ std.type(c%d))\n' % (i, hstr(s[1]), hstr(s[2]), n, i, i)
        elif s[0] == 'cmd': t += '{ %s }\nstd.println("D %s %d")\n' % (s[1], n, i)
        elif s[0] == 'panicif': t += 'if std.env("%s") == nil then std.panic("not yet") end\n' % s[1]
        elif s[0] == 'panic': t += s[1] + '\n'
        elif s[0] == 'cd': t += 'std.cd(%s)\n' % hstr(s[1])
        elif s[0] == 'fun': t += 'function helper%d(x)\nlet y = x + 1\nreturn y\nend\nstd.println("H " ++ std.to_string(helper%d(%d)))\n' % (i, i, s[1])
    t += 'std.println("E %s")\n' % n
    if md.get('pad'): t += '# ' + 'p' * md['pad'] + '\n'
    t += 'let d = @[ name: "%s", n: 0, imp: function (p) return std.import(p) end ]\nd\n' % n if 'val' not in md else MODVALS[md['val']][0]
    if md.get('pad2'): t += '# ' + 'q' * md['pad2']
    return t
MODDIRS = ['/w', '/w', '/w/lib', '/w/lib/sub', '/opt/mods']
def relpath(frm, to):
    a, b = [x for x in frm.split('/') if x], [x for x in to.split('/') if x]
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]: k += 1
    return '/'.join(['..'] * (len(a) - k) + b[k:])
def spell(g, frm, path):
    """some spelling of path as seen from directory frm"""
    r = relpath(frm, path); x = g.r.random()
    if x < 0.35: return r
    if x < 0.5: return './' + r
    if x < 0.62: return path
    if x < 0.7: return path.replace('/', '//', 1) if g.p(0.5) else path.replace('/', '/./', 1)
    if x < 0.78 and path.startswith('/w/lib/'): return relpath(frm, '/w/llib/' + path[7:])
    if x < 0.84: return relpath(frm, '/w') + '/lib/../' + path[3:] if path.startswith('/w/') and relpath(frm, '/w') else '/w/lib/..' + path[2:] if path.startswith('/w/') else path
    if x < 0.92 and path.endswith('m0.hsh'): return relpath(frm, '/w/alias.hsh')
    return r
def fam_P17(rng):
    g = G(rng); mods = []; n = g.c([1, 2, 3, 4]) if g.p(0.96) else g.c([8, 12, 20])
    chain = n > 4 and g.p(0.6)
    for i in range(n):
        d = g.c(MODDIRS)
        mods.append({'name': 'm%d' % i, 'path': '%s/m%d.hsh' % (d, i), 'dir': d, 'steps': []})
    for d in ('/w/lib/sub', '/opt/mods'): g.fs.append(['d', d])
    g.fs += [['l', '/w/llib', 'lib'], ['l', '/w/alias.hsh', relpath('/w', mods[0]['path'])], ['l', '/w/dangl.hsh', 'nothing.hsh'], ['f', '/w/noread.hsh', 'std.println("L x")\n', 'r'], ['d', '/w/dir.hsh']]
    fixable = []
    for i, md in enumerate(mods):
        if chain and i + 1 < n: md['steps'].append(['imp', spell(g, md['dir'], mods[i + 1]['path']), g.c([0, 0, 0, 1])])
        for _ in range(g.c([0, 1, 1, 2, 3])):
            x = rng.random()
            if x < 0.5 and n > 1:
                tgt = g.c(mods[i + 1:] if mods[i + 1:] and g.p(0.75) else mods)
                md['steps'].append(['imp', spell(g, md['dir'], tgt['path']), 1 if g.p(0.4) or tgt is md else 0])
                if g.p(0.3): h = g.c(mods); md['steps'][-1] = ['via', spell(g, md['dir'], h['path']), spell(g, h['dir'], tgt['path'])]
            elif x < 0.65: c = g.name(); g.progs[c] = g.exit_ops(0.2); md['steps'].append(['cmd', c])
            elif x < 0.75: md['steps'].append(['panicif', g.c(['OKA', 'OKB'])])
            elif x < 0.8: md['steps'].append(['panic', g.c(['std.panic("m")', 'let z = 1 + nil', 'function f(a)\nreturn a.b\nend\nf(nil)', 'for i in std.range(0, 3, 1) do\nif i == 2 then std.panic(i) end\nend', '{ nope 7> /dev/null }'])]); break
            elif x < 0.88: md['steps'].append(['fun', rng.randrange(9)])
            elif x < 0.92: md['steps'].append(['cd', g.c(['/tmp', '/w', '/w/lib'])])
            else: md['steps'].append(['imp', g.c(['nofile.hsh', '/w/dangl.hsh', '/w/noread.hsh', '/w/dir.hsh', '']), g.c([0, 1, 1])])
        if g.p(0.15 if n < 5 else 0.04): md['static'] = g.c(['let = 3\n', 'std.println("L x")\nundefd()\n', 'if true then\n', 'std.println("L x")\nreturn 5\n', 'std.println("L x")\nreturn 5\nstd.println("y")\n', '"unterminated'])
        if g.p(0.2): md['val'] = rng.randrange(len(MODVALS))
        if g.p(0.3): md['pad'] = g.c([100, 8000, 20000]) if g.p(0.96) else g.c([65536, 70000, 140000])
        if g.p(0.15): md['pad2'] = g.c([10, 8192])
        if g.p(0.1 if n < 5 else 0.03) and not md.get('static'): md['absent'] = 1
        if not md.get('absent'): g.fs.append(['f', md['path'], modtext(md)])
    ss = []; texts = {}
    for md in mods: texts[modtext(md)] = md
    for _ in range(g.c([2, 3, 4, 6])):
        x = rng.random()
        if x < 0.75:
            s = {'k': 'imp', 'id': g.id(), 'catch': 1 if g.p(0.9) else 0, 'a': rng.randrange(100), 'b': rng.randrange(100)}
            if g.p(0.08): s['path'] = g.c(['nofile.hsh', 'dangl.hsh', 'noread.hsh', 'dir.hsh', '', '/', 'x\0y.hsh', 'y' * 300])
            else:
                h = g.c(mods); s['path'] = spell(g, '/w', h['path'])
                if g.p(0.2): s['via'] = spell(g, h['dir'], g.c(mods)['path'])
            if g.p(0.25): s['loop'] = g.c([2, 3]) if g.p(0.97) else g.c([20, 80])
            ss.append(s)
        elif x < 0.82: ss.append({'k': 'export', 'id': g.id(), 'name': g.c(['OKA', 'OKB']), 'val': '1'})
        elif x < 0.88: ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(['/tmp', '/w', '/w/lib', '/'])})
        else:
            md = g.c(mods)
            if md.get('static') or md.get('absent'):
                # a command repairs the file
                good = {k: v for k, v in md.items() if k not in ('static', 'absent')}
                texts[modtext(good)] = good
                ss.append(g.blk([[g.st([['fwrite', md['path'], modtext(good)]])]]))
            else: ss.append(g.block('sync', npl=1, small=True))
    sp = g.spec(ss, argv=['hush', g.c(['/w/main.hsh', 'main.hsh', './main.hsh'])])
    sp['modtexts'] = texts; sp['stderr_ok'] = 1
    if g.p(0.35):
        md = g.c(mods)
        sp['sc']['faults'] = [[g.c(['read', 'read', 'open', 'realpath']), g.c([0, 0, 1, 2, 3]), g.c([1, 1, 2]), g.c([5, 13]), md['path']]]
        if sp['sc']['faults'][0][0] == 'realpath': sp['sc']['faults'][0][4] = ''
        for s in ss:
            if s['k'] == 'imp': s['catch'] = 1
    return sp

# -------------------------------------------------------------------- P18
PANICS = ['std.panic("boom")', 't3(1, nil + 1, 2)', 't3(1, t3(2, std.panic(3), 4), 5)', 't3(1, 2)', 'let z = [1, 2, nil + 1]', 'o3.t(1, o3.t(2, nil.x, 3), 4)', 'let z = @[ a: 1, b: t3(1, 2, std.len(3)) ]', 'while t3(1, 2, nil + 1) do end', 'for q in t3(1, nil.a, 2) do end', 'std.panic(nil)', 'std.panic(@[a: 1])', 'let z = 1 + "a"', 'let z = nil.foo', 'let z = [1][7]', 'std.exit(999)', 'std.import("nofile.hsh")', 'std.import("bad.hsh")', 'std.import("pan.hsh")', 'std.import("deep.hsh")', 'std.len(5)',
          'let z = 5 / 0', 'let z = 5 % 0', '{ nope 5> /dev/null }', '{ nope >7 }', '${ nope 0> /dev/null }', '&{ nope | nope 9> /dev/null }.join()', 'std.randint(2, 1)', 'std.sleep(0 - 1)', 'let z = nil\nz()', 'std.assert(false)', 'let z = 9223372036854775807 + 1', 'for q in 5 do end', 'if 3 then end',
          'while "x" do end', 'let z = (function (a) return a end)(1, 2)', 'std.import(5)', 'std.len()', 'let arr = ["x", "y"]\n{ nope > ${arr} }', 'let arr = ["x", "y"]\n{ A=${arr} nope }', 'let z = std.catch(5)', 'std.range(0, 5, 0)\nstd.panic(1)', 'let z = -"s"', 'let z = not 5', 'let z = 3 and true', 'let d = @[a: 1]\nd.x.y = 2', '{ cd }', '{ cd a b }', '{ exec }', 'std.sort(5)', 'std.read()']
class P18:
    def __init__(s, g): s.g = g; s.n = 0; s.budget = 40; s.funs = []; s.reads_fail = False; s.over = False
    def fresh(s, p): s.n += 1; return '%s%d' % (p, s.n)
    def body(s, vs, depth, inmeth=False, infun=True, funs=(), inloop=False):
        g = s.g; out = []; vs = list(vs); funs = list(funs); objs = []
        for _ in range(g.c([1, 2, 3, 4])):
            if s.budget <= 0: break
            s.budget -= 1
            x = g.r.random()
            if vs and g.p(0.1):
                # what is pending while the middle of a call, an array or an operation is worked out
                w = g.c(['catch', 'catch', 'fun', 'ret', 'brk', 'val'] if depth else ['ret', 'brk', 'val'])
                if w == 'ret' and not infun or w == 'brk' and not inloop: w = 'val'
                out.append(('pend', g.id(), g.c(['call', 'call', 'array', 'dict', 'meth', 'nest']), w, s.body(vs, depth - 1, funs=funs) if w in ('catch', 'fun') else g.r.randrange(100), [g.c(vs), g.c(vs), g.c(vs)])); continue
            if x < 0.15 or not vs:
                v = s.fresh('x'); out.append(('let', v, g.r.randrange(100))); vs.append(v)
            elif x < 0.3: out.append(('inc', g.c(vs), g.r.randrange(1, 9)))
            elif x < 0.38: out.append(('rep', g.id(), g.r.sample(vs, min(len(vs), 3))))
            elif x < 0.58 and depth: out.append(('catch', g.id(), s.body(vs, depth - 1, funs=funs), g.c(vs), g.r.sample(vs, min(len(vs), 3))))
            elif x < 0.66 and depth: 
                v = s.fresh('i'); out.append(('loop', g.c([2, 3]) if g.p(0.96) else g.c([20, 60]), v, s.body(vs + [v], depth - 1, inmeth, infun, funs, True), g.c(['for', 'for', 'while', 'iter'])))
            elif x < 0.71 and depth: out.append(('if', g.c(vs), g.r.randrange(100), s.body(vs, depth - 1, inmeth, infun, funs, inloop)))
            elif x < 0.76 and depth:
                f, p = s.fresh('f'), s.fresh('p'); out.append(('fun', f, p, s.body(vs + [p], depth - 1))); funs.append(f)
            elif x < 0.82 and funs: out.append(('call', g.c(funs), g.r.randrange(50)))
            elif x < 0.86 and depth: out.append(('rec', s.fresh('r'), g.c([1, 3, 10, 40]), s.body(vs, depth - 1, funs=funs)))
            elif x < 0.91 and depth:
                o = s.fresh('ob'); out.append(('obj', o, s.body(vs, depth - 1, True, funs=funs), g.r.randrange(1, 9))); objs.append(o)
            elif x < 0.94 and objs: out.append(('bump', g.c(objs), g.id()))
            elif x < 0.95 and infun: out.append(('retif', g.c(vs), g.r.randrange(100)))
            elif x < 0.955 and inloop: out.append(('brkif', g.c(vs), g.r.randrange(100)))
            elif x < 0.965: 
                c = g.name(); t = g.c(['', 'out', 'two\n']); g.progs[c] = [['ws', 1, t]] if t else []; out.append(('cap', g.id(), c, t))
            elif depth < 3 or g.p(0.3): out.append(('panic', 'std.import("over.hsh")' if s.over and g.p(0.6) else g.c(PANICS if s.reads_fail else PANICS[:-1]))); break
            if inmeth and g.p(0.4): out.append(('selfinc', g.r.randrange(1, 5)))
        for o in objs:
            if g.p(0.5): out.append(('bump', o, g.id()))
        return out
    def text(s, body):
        t = ''
        for b in body:
            k = b[0]
            if k == 'let': t += 'let %s = %d\n' % b[1:]
            elif k == 'inc': t += '%s = %s + %d\n' % (b[1], b[1], b[2])
            elif k == 'rep': t += 'rep(%d, [%s])\n' % (b[1], ', '.join(b[2]))
            elif k == 'catch': t += 'let c%d = std.catch(function ()\n%sreturn %s\nend)\nrep(%d, [std.type(c%d), c%d, %s])\n' % (b[1], s.text(b[2]), b[3], b[1], b[1], b[1], ', '.join(b[4]))
            elif k == 'loop' and b[4] == 'while': t += 'let n%s = 0\nwhile n%s < %d do\nlet %s = n%s\nn%s = n%s + 1\n%send\n' % (b[2], b[2], b[1], b[2], b[2], b[2], b[2], s.text(b[3]))
            elif k == 'loop' and b[4] == 'iter': t += 'for %s in std.iter([%s]) do\n%send\n' % (b[2], ', '.join(map(str, range(b[1]))), s.text(b[3]))
            elif k == 'loop': t += 'for %s in std.range(0, %d, 1) do\n%send\n' % (b[2], b[1], s.text(b[3]))
            elif k == 'if': t += 'if %s > %d then\n%send\n' % (b[1], b[2], s.text(b[3]))
            elif k == 'fun': t += 'function %s(%s)\n%send\n' % (b[1], b[2], s.text(b[3]))
            elif k == 'call': t += '%s(%d)\n' % (b[1], b[2])
            elif k == 'rec': t += 'function %s(k)\nif k == 0 then\n%selse\n%s(k - 1)\nend\nend\n%s(%d)\n' % (b[1], s.text(b[3]), b[1], b[1], b[2])
            elif k == 'obj': t += 'let %s = @[ n: 0, bump: function ()\nself.n = self.n + %d\n%send ]\n' % (b[1], b[3], s.text(b[2]))
            elif k == 'bump': t += '%s.bump()\nrep(%d, %s.n)\n' % (b[1], b[2], b[1])
            elif k == 'retif': t += 'if %s > %d then return %s end\n' % (b[1], b[2], b[1])
            elif k == 'brkif': t += 'if %s > %d then break end\n' % b[1:]
            elif k == 'pend':
                v1, v2, v3 = b[5]; w = b[3]
                e = {'catch': lambda: 'std.type(std.catch(function ()\n%sreturn %s\nend))' % (s.text(b[4]), v2), 'fun': lambda: '(function ()\n%sreturn %s\nend)()' % (s.text(b[4]), v2),
                     'ret': lambda: 'if %s > %d then return %s else %s end' % (v2, b[4], v2, v2), 'brk': lambda: 'if %s > %d then break else %s end' % (v2, b[4], v2), 'val': lambda: v2}[w]()
                t += {'call': 'rep(%d, t3(%s, %s, %s))\n', 'array': 'rep(%d, [%s, %s, %s])\n', 'dict': 'let d%d = @[ a: %%s, b: %%s, c: %%s ]\nrep(%%d, [d%d.a, d%d.b, d%d.c])\n' % ((b[1],) * 4),
                      'meth': 'rep(%d, o3.t(%s, %s, %s))\n', 'nest': 'rep(%d, t3(%s, t3(0, %s, 1)[1], %s))\n'}[b[2]] % ((v1, e, v3, b[1]) if b[2] == 'dict' else (b[1], v1, e, v3))
            elif k == 'cap': t += 'let q%d = ${ %s }\nrep(%d, q%d.stdout)\n' % (b[1], b[2], b[1], b[1])
            elif k == 'selfinc': t += 'self.n = self.n + %d\n' % b[1]
            elif k == 'panic': t += b[1] + '\n'
        return t
class PanicX(Exception): pass
class RetX(Exception): pass
class BrkX(Exception): pass
class TooLong(Exception): pass
def run18(body, env, me, out):
    """interpret; env is a list of dicts (innermost last), out collects (id, value) and ('cmd', name)"""
    def find(n):
        for e in reversed(env):
            if n in e: return e
        raise KeyError(n)
    for b in body:
        k = b[0]
        if len(out) > 600: raise TooLong()
        if k == 'let': env[-1][b[1]] = b[2]
        elif k == 'inc': find(b[1])[b[1]] += b[2]
        elif k == 'rep': out.append([b[1], [find(v)[v] for v in b[2]]])
        elif k == 'catch':
            try: run18(b[2] , env + [{}], me and None, out); v = find(b[3])[b[3]]
            except PanicX: v = None
            except RetX as r: v = r.args[0]
            out.append([b[1], (['error', {'panic': 1}] if v is None else ['int', v]) + [find(x)[x] for x in b[4]]])
        elif k == 'loop':
            try:
                for i in range(b[1]): run18(b[3], env + [{b[2]: i}], me, out)
            except BrkX: pass
        elif k == 'if':
            if find(b[1])[b[1]] > b[2]: run18(b[3], env + [{}], me, out)
        elif k == 'fun': env[-1][b[1]] = (b, list(env))
        elif k == 'call':
            f, e = find(b[1])[b[1]]
            try: run18(f[3], e + [{f[2]: b[2]}], None, out)
            except RetX: pass
        elif k == 'rec':
            try: run18(b[3], env + [{}], None, out)
            except RetX: pass
        elif k == 'obj': env[-1][b[1]] = {'n': 0, 'b': b, 'env': list(env)}
        elif k == 'bump':
            o = find(b[1])[b[1]]
            o['n'] += o['b'][3]
            try: run18(o['b'][2], o['env'] + [{}], o, out)
            except RetX: pass
            out.append([b[2], o['n']])
        elif k == 'retif':
            if find(b[1])[b[1]] > b[2]: raise RetX(find(b[1])[b[1]])
        elif k == 'brkif':
            if find(b[1])[b[1]] > b[2]: raise BrkX()
        elif k == 'pend':
            v1, v2, v3 = b[5]; w = b[3]; a = find(v1)[v1]; c = find(v2)[v2]
            if w == 'ret' and c > b[4]: raise RetX(c)
            if w == 'brk' and c > b[4]: raise BrkX()
            if w in ('catch', 'fun'):
                try: run18(b[4], env + [{}], None, out); c = find(v2)[v2]
                except RetX as r: c = r.args[0]
                except PanicX:
                    if w == 'fun': raise
                    c = None
                if w == 'catch': c = 'error' if c is None else 'int'
            out.append([b[1], [a, c, find(v3)[v3]]])
        elif k == 'cap': out.append(['cmd', b[2]]); out.append([b[1], b[3]])
        elif k == 'selfinc': me['n'] += b[1]
        elif k == 'panic': raise PanicX()
def fam_P18(rng):
    while True:
        g = G(rng); s = P18(g)
        s.reads_fail = g.p(0.3); s.over = g.p(0.04)
        top = [('let', 'a0', rng.randrange(100)), ('let', 'b0', rng.randrange(100))]
        body = top + s.body(['a0', 'b0'], 4, infun=False)
        s.budget = 40
        for _ in range(g.c([1, 2, 3])): body.append(('catch', g.id(), s.body(['a0', 'b0'], 3), 'a0', ['a0', 'b0'])); s.budget = max(s.budget, 15)
        body.append(('rep', g.id(), ['a0', 'b0']))
        out = []; ends = None
        try: run18(body, [{}], None, out)
        except PanicX: ends = 127
        except TooLong: continue
        break
    g.fs += [['f', '/w/bad.hsh', 'let = '], ['f', '/w/pan.hsh', 'let q = [1, 2]\nfor i in std.range(0, 3, 1) do\nlet w = i\nif i == 1 then std.panic("x") end\nend'], ['f', '/w/deep.hsh', 'function f(n)\nlet a = n\nif n == 0 then std.panic("deep") end\nf(n - 1)\nend\nf(5)\n']]
    sp = g.spec([{'k': 'raw', 'text': 'function t3(a, b, c)\nreturn [a, b, c]\nend\nlet o3 = @[ z: 9, t: function (a, b, c)\nlet r = [a, b, c]\nif self.z != 9 then return 0 end\nreturn r\nend ]\n' + s.text(body), 'reps': out, 'ends': ends, 'tags': ['P18']}])
    sp['stderr_ok'] = 1
    if s.over:
        # the script's own stack overflows: few frames, each with many slots, so that the native stack is not the limit
        n = 16000
        g.fs.append(['f', '/w/over.hsh', 'function f(n)\n%slet r = f(n + 1)\nr + v1\nend\nlet z = f(0)\n' % ''.join('let v%d = n\n' % i for i in range(1, n + 1))])
    if s.reads_fail: sp['sc']['stdin'] = 'file:/in'; g.fs.append(['f', '/in', 'x']); sp['sc']['faults'] = [['read', 0, 1 << 30, 5, '|0']]
    return sp

# -------------------------------------------------------------------- P19
def fam_P19(rng):
    g = G(rng); ss = []; live = []
    k = g.knobs(); k.pop('stall', None)
    if g.p(0.15): k['stall'] = 0.05
    if g.p(0.5): k['eintr'] = g.c([0.3, 0.8])
    if g.p(0.5): k['walljump'] = g.c([0.3, 1])
    g.sc['knobs'] = k
    for i in range(g.c([1, 2, 3, 5])):
        x = rng.random()
        if x < 0.55: ss.append({'k': 'sleep', 'id': g.id(), 'ms': g.c([0, 1, 2, 10, 999, 1000, 1001, 1500, 60000, 3600000, 86400000 * 3, rng.randrange(5000)]) if g.p(0.8) else g.c([2147483647, 2147483648, 4294967295, 4294967296, 4294967296 + rng.randrange(1, 5000), rng.randrange(1 << rng.randrange(10, 40)), 16777216 + rng.randrange(1, 100000), 10 ** 12])})
        elif x < 0.65: ss.append({'k': 'sleep', 'id': g.id(), 'ms': g.c([-1, -1000, -9223372036854775807, -5]), 'catch': 1})
        elif x < 0.7: ss.append({'k': 'call', 'id': g.id(), 'f': 'sleep', 'args': g.c([['x'], [None], [], [1, 2], [{'f': '1.5'}], [True]]), 'expect': {'panic': 1}, 'tags': ['P19'], 'catch': 1})
        elif x < 0.85 and 'stall' not in k:
            # an asynchronous block does its work while the script sleeps
            f = 'done%d' % i
            b = g.blk([[g.st([['sleep', g.c([1, 2000])]])], [g.st([['sleep', g.c([1, 2000])], ['fwrite', '/w/' + f, 'x']])]], 'async')
            ss.append(b); ss.append({'k': 'sleep', 'id': g.id(), 'ms': g.c([400, 1000])})
            j = g.id()
            ss.append({'k': 'raw', 'text': 'rep(%d, std.glob("/w/%s"))\n' % (j, f), 'reps': [[j, ['/w/' + f]]], 'tags': ['P19', 'P05']})
            ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
        else:
            b = g.block('async', small=True); ss.append(b); ss.append({'k': 'sleep', 'id': g.id(), 'ms': g.c([0, 5, 100])}); ss.append({'k': 'join', 'id': g.id(), 'of': b['id']})
    return g.spec(ss)

# -------------------------------------------------------------------- P20
def det_block(g, kind):
    """commands whose outcome does not depend on timing"""
    pls = []
    for _ in range(g.c([1, 1, 2])):
        n = g.c([1, 1, 2, 3]); pl = []
        for i in range(n):
            ops = []
            if i: ops.append(g.c([['drain', 0], ['cat', 0, 1, g.c([0, 7])]]))
            ops += g.writes(g.p(0.8), fds=(1, 1, 2), n=g.r.randrange(0, 3))
            st = g.st(ops + g.exit_ops(0.3))
            if i and g.p(0.0): pass
            if g.p(0.3): st['args'] = [[['star']], [['l', 'd1/', 'u'], ['star']], W('x')][:g.c([1, 2, 3])]
            if g.p(0.2): st['env'] = [['E', W('1')]]
            if g.p(0.5): st['try'] = 1
            pl.append(st)
        if g.p(0.1): g.c(pl)['missing'] = 1
        if any(s.get('missing') for s in pl):
            # a stage that is not there leaves its neighbours with end-of-file or a broken pipe at once
            for s in pl: s['ops'] = [o for o in s['ops'] if o[0] not in ('w', 'ws', 'cat')] 
        pls.append(pl)
    return g.blk(pls, kind)
def hint(a): return str(a) if a >= 0 else '0 - %d' % -a if a > -(1 << 63) else '0 - %d - 1' % ((1 << 63) - 1)
def fam_P20(rng):
    g = G(rng); ss = []; dirs11(g); g.stdin(g.text(g.c([0, 50])))
    g.fs.append(['f', '/w/mod.hsh', '"modval"\n'])
    for _ in range(g.c([2, 3, 5])):
        x = rng.random()
        if x < 0.5: ss.append(det_block(g, g.c(['sync', 'cap'])))
        elif x < 0.6: ss.append({'k': 'glob', 'id': g.id(), 'pat': g.c(['*', 'd1/*', '*/*', 'a*'])})
        elif x < 0.65: ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(['d1', '/w', '/nodir'])})
        elif x < 0.7: ss.append({'k': 'call', 'id': g.id(), 'f': 'import', 'args': ['/w/mod.hsh'], 'expect': 'modval', 'tags': ['P17', 'P20'], 'catch': 1, 'cls': ['open', 'read', 'realpath', 'stat', 'nofile', 'getcwd', 'lstat']})
        elif x < 0.85:
            # seeded: the same numbers in every run
            t = 'std.randseed(%d)\n' % g.c([0, 1, 42, rng.randrange(1 << 40)]) if g.p(0.9) else 'std.randseed(0 - %d)\n' % rng.randrange(1, 1000); reps = []
            for _ in range(g.c([1, 3, 6])):
                i = g.id(); a = g.c([0, -5, 1, 100, -1000]); b = a + g.c([0, 1, 2, 9, 1000, 1 << 40, (1 << 63) - 1 - max(a, 0)])
                if g.p(0.08): a, b = g.c([(-(1 << 63), (1 << 63) - 1), (-(1 << 63), 0), (-(1 << 63), -(1 << 63)), (-(1 << 62), (1 << 63) - 1), ((1 << 63) - 2, (1 << 63) - 1)])
                if g.p(0.6): t += 'rep(%d, std.randint(%s, %s))\n' % (i, hint(a), hint(b)); reps.append([i, {'rng': [a, b]}])
                else: t += 'rep(%d, std.rand())\n' % i; reps.append([i, {'frng': [0, 1]}])
            ss.append({'k': 'raw', 'text': t, 'reps': reps, 'tags': ['P20']})
        elif x < 0.93:
            # not seeded (any more in a sense that matters): only the bounds are known
            t = ''; reps = []
            for _ in range(g.c([3, 10])):
                i = 500000 + g.id(); a = g.c([0, 1, 7, 100]); b = a + g.c([0, 0, 1, 1, 2, 5])
                t += 'rep(%d, std.randint(%d, %d))\n' % (i, a, b); reps.append([i, {'rng': [a, b]}])
                if g.p(0.3): j = 500000 + g.id(); t += 'rep(%d, std.rand())\n' % j; reps.append([j, {'frng': [0, 1]}])
            i = g.id(); t += 'rep(%d, std.type(std.catch(function () return std.randint(%d, %d) end)))\n' % (i, *g.c([(1, 0), (5, -5), (10, 9)])) if False else 'rep(%d, std.type(std.catch(function () return std.randint(%d, %d) end)))\n' % (i, *g.c([(1, 0), (10, 9), (100, 3)])); reps.append([i, 'error'])
            if g.p(0.3):
                # every value of a small range turns up
                j = g.id(); a = g.c([0, 1, 5, 100]); w = g.c([1, 1, 2])
                t += 'let seen%d = @[]\nfor k%d in std.range(0, 200, 1) do\nlet q = std.randint(%d, %d)\nseen%d[q] = true\nend\nrep(%d, std.len(seen%d))\n' % (j, j, a, a + w, j, j, j); reps.append([j, w + 1])
            ss.append({'k': 'raw', 'text': t, 'reps': reps, 'tags': ['P20']})
        else: ss.append({'k': 'println', 'vals': pvals(g)[:1]})
    sp = g.spec(ss); sp['meta'] = 3; sp['stderr_ok'] = 1
    return sp
def variant20(sp, rng):
    """the same script and inputs under another schedule and machine"""
    import copy
    s2 = copy.deepcopy(sp); g = G(rng)
    k = g.knobs()
    s2['sc'].update(knobs=k, seed=rng.randrange(1 << 48), entropy=rng.randrange(1 << 48))
    return s2

# -------------------------------------------------------------------- P21
def fam_P21(rng):
    g = G(rng); ss = []
    g.fs += [['d', '/w/d1'], ['f', '/w/notexec', 'data'], ['d', '/opt/bin'], ['f', '/bin/plain', 'text file']]
    if g.p(0.4): g.stdin(g.text(g.c([0, 30, 3000])))
    ops_bad = ['nosuch', '/w/nosuch', './d1', '/w/notexec', 'plain', '', 'a\0b', '/w/d1/', 'x' * 300]
    def one(final):
        b = g.c(['exec', 'exec0', 'spawn0', 'spawn0'])
        good = final and b != 'spawn0' or b == 'spawn0' and g.p(0.6)
        if good:
            t = g.name()
            ops = []
            if g.p(0.5): ops += g.c([[['drain', 0]], [['cat', 0, 1, 0]], [['readn', 0, 5]]])
            ops += g.writes(True) + g.exit_ops(0.5)
            g.progs[t] = ops
            if g.p(0.15): # the same name elsewhere: found only where PATH says
                d = g.name(); g.progs[d] = g.exit_ops(0.5); g.fs.append(['x', g.c(['/w/', '/w/', '/w/d1/', '/opt/bin/']) + t, d])
            w = g.c([W(t), W('/bin/' + t), [['v', g.var(t), 'u']], [['l', '/bin', 'u'], ['l', '/' + t, 'd']]])
        else: w = W(g.c(ops_bad))
        args = [word11(g) if g.p(0.5) else W(g.c(['a', '-n', ''])) for _ in range(g.c([0, 1, 2, 4]) if g.p(0.96) else g.c([20, 100]))]
        if b != 'exec': args = [W(g.c(['zero', '', '-sh', 'a b', '/x/y']))] + args
        st = {'builtin': b, 'n': b, 'args': [w] + args}
        if g.p(0.05): st['args'] = [] if b == 'exec' or g.p(0.5) else [w]
        if g.p(0.3): st['env'] = [[n, eword(g)] for n in rng.sample(['A', 'B', 'Z9'], g.c([1, 2]))]
        if g.p(0.6): st['try'] = 1
        return st
    def before():
        x = rng.random()
        if x < 0.25: ss.append({'k': g.c(['print', 'println']), 'vals': ['text ', 'before']})
        elif x < 0.4: ss.append({'k': 'export', 'id': g.id(), 'name': g.c(['A', 'B', 'N']), 'val': g.c(['', 'exported', 'x y'])})
        elif x < 0.43: ss.append({'k': 'export', 'id': g.id(), 'name': 'PATH', 'val': g.c(['/opt/bin:/bin', '/bin:/opt/bin', '/nodir:/bin', '/bin', './d1:/bin', '/opt/bin:/w:/bin'])})
        elif x < 0.5: ss.append({'k': 'cd', 'id': g.id(), 'path': g.c(['d1', '/tmp', '/w'])})
        elif x < 0.7: ss.append(g.block('sync', npl=1, small=True))
        elif x < 0.8:
            # hush itself meets a broken pipe
            ss.append(g.blk([[g.st([['close', 0]] if g.p(0.5) else [], redir=[['here', [['v', g.var('h' * g.c([1, 70000])), 'u']]]])]], g.c(['sync', 'cap'])))
        elif x < 0.9:
            ss.append(g.blk([[g.st([['w', 1, g.c([1, 100]), g.tag()], ['wnord', 1], ['w', 1, 10, g.tag()]], **{'try': 1}), g.st([['readn', 0, 1]])]]))
    for _ in range(g.c([1, 2, 3])):
        before()
        pls = [[one(False)]]
        if g.p(0.4): pls.insert(0, [dict(g.source(0.1, True), **{'try': 1})])
        if g.p(0.4): pls.append([g.source(0.1, True)])
        if g.p(0.3): pls.append([one(False)])
        ss.append(g.blk(pls, catch=1))
        before()
    if g.p(0.7):
        pls = [[one(True)]]
        if g.p(0.3): pls.insert(0, [dict(g.source(0.1, True), **{'try': 1})])
        if g.p(0.3): pls.append([g.source(0.1, True)])
        ss.append(g.blk(pls, catch=g.c([0, 1])))
    sp = g.spec(ss); sp['stderr_ok'] = 1
    return sp

FAMILIES = {'P%02d' % i: globals()['fam_P%02d' % i] for i in range(1, 22)}
