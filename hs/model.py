"""The reference model: walks the statements of a spec next to the recorded history of a run and says
where what hush did differs from what the properties demand.

It judges observable behaviour only: the processes that were started (arguments, environment, directory,
descriptors, order), the bytes that went where, what the script itself saw (its reports), what hush held
open and had not reaped at each report, and how it ended.
"""
from bisect import bisect_right
from .lang import decode, BadReport, Err, Fun, Flt, short, vbytes
from .vfs import VFS

INF = 1 << 60
# failures of these, while a block runs, have to show up in the block's outcome
BLOCKCLS = {'pipe', 'dup', 'open', 'spawn', 'fork', 'thread', 'wait', 'nofile', 'nproc', 'socketpair', 'read', 'write', 'exec'}
O_TRUNC, O_CREAT, O_APPEND = 0o1000, 0o100, 0o2000

def listdiff(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]: k += 1
    f = lambda x: ('%d equal, then ' % k if k else '') + repr(short(x[k:k + 6])) + (' and %d more' % (len(x) - k - 6) if len(x) > k + 6 else '')
    return f(a), f(b)

class V:
    """a violation"""
    def __init__(v, tags, msg, seq=None): v.tags, v.msg, v.seq = set(tags), msg, seq
    def __repr__(v): return '[%s] %s%s' % (','.join(sorted(v.tags)), v.msg, '' if v.seq is None else ' (at event %d)' % v.seq)

class Stop(Exception): pass
class ModPanic(Exception): pass

def b8(s): return s.encode('latin-1')

def is_panic(v): return isinstance(v, Err) and v.ctx == b'panic' and isinstance(v.desc, bytes) and v.desc.startswith(b'caught panic')

def matches(exp, act):
    """compare a JSON expectation with a decoded value"""
    if isinstance(exp, dict):
        if 'any' in exp: return True
        if 'err' in exp: return isinstance(act, Err) and not is_panic(act)
        if 'panic' in exp: return is_panic(act)
        if 'errpanic' in exp: return isinstance(act, Err)
        if 'in' in exp: return any(matches(e, act) for e in exp['in'])
        if 'f' in exp: return isinstance(act, Flt) and float(act) == float(exp['f'])
        if 'str' in exp: return isinstance(act, bytes)
        if 'rng' in exp: return isinstance(act, int) and not isinstance(act, bool) and exp['rng'][0] <= act <= exp['rng'][1]
        if 'frng' in exp: return isinstance(act, Flt) and exp['frng'][0] <= float(act) < exp['frng'][1]
        if 'd' in exp:
            return isinstance(act, dict) and len(act) == len(exp['d']) and all(k.encode('latin-1') in act and matches(v, act[k.encode('latin-1')]) for k, v in exp['d'].items())
        if 'has' in exp:  # error whose description contains the text
            return isinstance(act, Err) and b8(exp['has']) in act.desc
        raise ValueError(exp)
    if exp is None or isinstance(exp, bool): return act is exp
    if isinstance(exp, int): return isinstance(act, int) and not isinstance(act, bool) and act == exp
    if isinstance(exp, str): return isinstance(act, bytes) and act == b8(exp)
    if isinstance(exp, list): return isinstance(act, list) and len(exp) == len(act) and all(matches(e, a) for e, a in zip(exp, act))
    raise ValueError(exp)

def utf8(t):
    """a word with wildcards is a pattern and has to be valid UTF-8"""
    if all(isinstance(c, str) for c in t): return True
    try: ''.join(c if isinstance(c, str) else '*' for c in t).encode('latin-1').decode('utf-8')
    except UnicodeDecodeError: return False
    return True

class Desc:
    """an open file description of the model"""
    def __init__(d, node, append): d.node, d.append, d.off = node, append, 0

def badname(k): return not k or '=' in k or '\0' in k
def toolong(args, env):
    """the system limits a single argument or variable to 128 KiB"""
    return any(len(a) > 131071 for a in args) or any(len(k) + 1 + len(x) > 131071 for k, x in env.items() if x is not None)
class Plan:
    """what the model expects of one stage"""
    pass

def status_of(p):
    st = p.status
    if st & 127: return 255 + (st & 127)
    return st >> 8

class Model:
    def __init__(m, spec, sc, h):
        m.spec, m.sc, m.h = spec, sc, h
        m.v = []
        m.fs = VFS.of(sc)
        m.init_len = {}
        m.cwd = m.fs.resolve(sc.get('cwd', '/w'), m.fs.root)[1]
        m.env = {}
        for e in sc.get('env', ['PATH=/bin', 'HOME=/home/u']):
            k, _, val = e.partition('='); m.env[k] = val
        m.envs = [(-1, -1, dict(m.env))]   # (not before, certainly from, environment)
        m.vars = {n: v for n, v in spec.get('vars', [])}
        m.path = sc.get('argv', ['hush', '/w/main.hsh'])[1] if len(sc.get('argv', ['hush', 'x'])) > 1 else '<stdin>'
        if spec.get('pospath'): m.path = spec['pospath']
        m.byname = {}
        for p in h.order:
            if p.how in ('spawn', 'fork'): m.byname.setdefault(p.prog, []).append(p)
        m.claimed = set()
        m.kids = {}
        for p in h.order:
            if p.how == 'bg': m.kids.setdefault(p.ppid, []).append(p)
        m.oid_path = {oid: path for path, (oid, _) in h.files.items()}
        m.stdio = h.stdio
        # hush's own output
        m.out = h.hush_wrote(1); m.recs = h.hush_recs(1)
        m.starts = []; n = 0
        for r in m.recs: m.starts.append(n); n += r[4]
        m.cur = 0; m.last = -1           # read position in m.out, and the event of the byte before it
        m.hs = [(s, i) for i, (s, fd, _, _, _) in enumerate(h.hsnap) if fd == 1]
        m.asyncs = {}
        m.trunc = []                     # (path, lo, hi, required)
        m.touched = set()
        m.fw = []                        # (seq, oid, off, len, desc)
        m.in_off = 0                     # consumed prefix of the script's standard input
        m.in_data = None
        m.nblocks = m.nprocs = m.nreports = 0
        m.dirty_wait = False             # a wait was made to fail: a process may stay unreaped
        m.ended = None
        m.vals = []
        m.mods = {}; m.loading = []; m.wins = []
        m.scriptdir = None

    # ------------------------------------------------------------ reporting
    def bad(m, tags, msg, seq=None): m.v.append(V(tags, msg, seq))
    def fatal(m, tags, msg, seq=None): m.bad(tags, msg, seq); raise Stop()

    # ------------------------------------------------------------ hush's own output
    def seq_at(m, pos):
        if not m.recs: return -1
        i = bisect_right(m.starts, pos) - 1
        return m.recs[i][0]
    def expect_out(m, data, tags, what):
        got = m.out[m.cur:m.cur + len(data)]
        if got != data:
            if len(got) < len(data) and data.startswith(got): m.missing(what)
            m.fatal(tags, '%s: standard output has %r where %r was expected' % (what, short(got), short(data)))
        if data:
            m.cur += len(data); m.last = m.seq_at(m.cur - 1)
    def missing(m, what):
        h = m.h
        if h.how in ('EXIT', 'EXEC'):
            m.fatal({'*'}, '%s never happened: %s; stderr %r' % (what, h.describe_end(), short(h.hush_wrote(2), 300)))
        m.fatal({'*'}, '%s never happened: %s' % (what, h.describe_end()))
    def at_report(m, i):
        s = b'@%d ' % i
        return m.out[m.cur:m.cur + len(s)] == s
    def report(m, i, what, tags=('P14',)):
        """the next report, which must have number i -> (value, event at which it was written)"""
        s = b'@%d ' % i
        if m.out[m.cur:m.cur + len(s)] != s:
            got = m.out[m.cur:m.cur + 200]
            if s.startswith(got): m.missing(what)
            m.fatal(set(tags) | {'P14'}, '%s: standard output has %r where report %d was expected' % (what, short(got), i))
        seq = m.seq_at(m.cur)
        try: v, j = decode(m.out, m.cur + len(s))
        except BadReport as e: m.fatal(set(tags) | {'P14'}, '%s: broken report %d: %s; %s' % (what, i, e, m.h.describe_end()))
        if m.out[j:j + 1] != b'\n': m.fatal(set(tags) | {'P14'}, '%s: report %d does not end in a newline' % (what, i))
        m.cur = j + 1; m.last = m.seq_at(j); m.nreports += 1; m.vals.append((i, v))
        return v, seq
    def faults(m, lo, hi, cls=BLOCKCLS):
        return [f for f in m.h.faults if lo < f[0] < hi and f[1] in cls]
    def check_clean(m, seq, what, tags=('P09',)):
        if any(not a['joined'] for a in m.asyncs.values()): return
        if m.faults(-1, seq, {'wait'}): m.dirty_wait = True
        k = bisect_right(m.hs, (seq, 1 << 60)) - 1
        if k < 0: return
        _, _, fds, live, zomb = m.h.hsnap[m.hs[k][1]]
        extra = sorted(set(fds) - {0, 1, 2})
        if extra: m.bad(tags, '%s: hush still holds descriptors %s' % (what, ', '.join('%d (%s of object %d)' % (f, fds[f][1], fds[f][0]) for f in extra)), seq)
        if m.dirty_wait: return
        if live: m.bad(set(tags) | {'P04'}, '%s: %d started process(es) still running' % (what, live), seq)
        if zomb: m.bad(tags, '%s: %d process(es) not reaped' % (what, zomb), seq)

    # ------------------------------------------------------------ words
    def items(m, w, vars):
        """-> list of token lists; tokens are characters, None for '*' and False for '%'"""
        out = None
        for p in w:
            k = p[0]
            if k == 'star': x = [[None]]
            elif k == 'pct': x = [[False]]
            elif k == 'l': x = [list(p[1])]
            elif k == 'home':
                hm = m.env.get('HOME')
                x = [list('' if hm is None else hm if hm.endswith('/') else hm + '/')]
            else:
                val = vars[p[1]]
                if isinstance(val, list):
                    if not val: continue
                    x = [list(vbytes(e)) for e in val]
                else: x = [list(vbytes(val))]
            if out is None: out = x
            else: out = [a + b for b in x for a in out]
        return out or []
    def resolve_item(m, t):
        if all(isinstance(c, str) for c in t): return [''.join(t)]
        absolute = t[0] == '/'
        comps = [[]]
        for c in t:
            if c == '/': comps.append([])
            else: comps[-1].append(c)
        comps = [c for c in comps if c]
        r = m.fs.glob(comps, m.cwd, absolute)
        return r if absolute else ['./' + x for x in r]
    def words(m, ws, vars):
        r = []
        for w in ws:
            for t in m.items(w, vars): r += m.resolve_item(t)
        return r
    def single(m, w, vars):
        it = m.items(w, vars)
        if len(it) != 1: return None
        r = m.resolve_item(it[0])
        return r[0] if len(r) == 1 else None

    # ------------------------------------------------------------ commands
    def lookup(m, name, env=None):
        """program lookup -> node of an executable program or None"""
        def ok(p):
            e, n, _, _ = m.fs.resolve(p, m.cwd)
            return n if not e and n.t == 'f' and n.prog is not None and 'x' not in n.perm else None
        if not name: return None
        if '/' in name: return ok(name)
        for d in (env or m.env).get('PATH', '/bin:/usr/bin').split(':'):
            n = ok((d or '.') + '/' + name)
            if n: return n
        return None

    def envname(m, k, vars):
        """the name in a prefix: literal or computed"""
        return k if isinstance(k, str) else m.single([k], vars)
    def plan(m, st, vars, i, n, kind):
        """what should become of stage i of n -> Plan with .fate in ok, fail (error 127), panic, nul (either)"""
        q = Plan(); q.st = st; q.fate = 'ok'; q.opens = []; q.bad_redir = False
        q.name = m.single(st['prog'], vars) if 'prog' in st else st['n']
        q.node = None; q.why = ''
        q.args = m.words(st.get('args', []), vars)
        if any(not utf8(t) for w in st.get('args', []) for t in m.items(w, vars)): q.env = {}; q.fate = 'panic'; q.why = 'pattern'; return q
        q.env = {}
        for k, w in st.get('env', []):
            val = m.single(w, vars)
            if val is None: q.fate = 'panic'; q.why = 'environment value'; return q
            q.env[m.envname(k, vars)] = val
        if q.name is None: q.fate = 'panic'; q.why = 'program'; return q
        q.node = None if st.get('missing') or q.name is None or '\0' in q.name else m.lookup(q.name, dict(m.env, **q.env))
        q.inp = ('script',) if i == 0 else ('pipe',)
        q.out = ('pipe',) if i < n - 1 else (('cap', 1) if kind == 'cap' else ('s', 1))
        q.err = (('cap', 2) if kind == 'cap' else ('s', 2)) if i == n - 1 else ('s', 2)
        # everything but files first: a word that yields no single item may be refused before or while redirecting
        for r in st.get('redir', []):
            w = r[3] if r[0] == 'out' and r[2] in ('file', 'append') else r[1] if r[0] in ('in', 'here') else None
            if w is not None and len(m.items(w, vars)) != 1: q.fate = 'panic'; q.why = 'redirection word'; return q
        for r in st.get('redir', []):
            if r[0] == 'out':
                _, fd, how, t = r
                if how == 'fd':
                    if t not in (1, 2) or fd not in (1, 2): q.fate = 'panic'; q.why = 'descriptor'; return q
                    tgt = q.out if t == 1 else q.err
                else:
                    path = m.single(t, vars)
                    if path is None: q.fate = 'panic'; q.why = 'redirection word'; return q
                    if '\0' in path: q.fate = 'nul'; return q
                    tgt = ('desc', [path, how, None])
                    q.opens.append(tgt[1])
                    if fd not in (1, 2): q.fate = 'panic'; q.why = 'descriptor'; return q
                    e, node = m.peek_write(path)
                    if e: q.fate = 'fail'; q.bad_redir = True; return q
                if fd == 1: q.out = tgt
                else: q.err = tgt
            elif r[0] == 'in':
                path = m.single(r[1], vars)
                if path is None: q.fate = 'panic'; q.why = 'redirection word'; return q
                if '\0' in path: q.fate = 'nul'; return q
                e, node = m.fs.open_read(path, m.cwd)
                if e: q.fate = 'fail'; q.bad_redir = True; return q
                q.inp = ('file', node)
            else:
                text = m.single(r[1], vars)
                if text is None: q.fate = 'panic'; q.why = 'here text'; return q
                q.inp = ('here', b8(text) + b'\n')
        if any('\0' in x for x in q.args) or '\0' in q.name or any('\0' in k + x or badname(k) for k, x in q.env.items()): q.fate = 'nul'; return q
        if q.node is None or toolong([q.name] + q.args, dict(m.env, **q.env)): q.fate = 'fail'
        return q
    def peek_write(m, path):
        e, n, d, b = m.fs.resolve(path, m.cwd, True, True)
        if e: return e, None
        if n is None:
            if 'w' in d.perm: return 'EACCES', None
            if path.endswith('/'): return 'EISDIR', None
            return None, None
        if n.t == 'd': return 'EISDIR', None
        if 'w' in n.perm: return 'EACCES', None
        return None, n

    def feat(m, st, s, pl):
        """the properties a command's failure to run as it should bears on, by what the command uses"""
        t = set()
        for r in st.get('redir', []): t.add('P06' if r[0] == 'out' else 'P07')
        if st.get('env'): t.add('P12')
        if st.get('prog') or any(p[0] != 'l' for w in st.get('args', []) for p in w): t.add('P11')
        if len(pl) > 1: t.add('P02')
        if s['kind'] == 'cap': t.add('P01')
        if s['kind'] == 'async': t.add('P05')
        return t

    def claim(m, name, lo, hi):
        for p in m.byname.get(name, []):
            if p.pid not in m.claimed and lo < p.seq < hi:
                m.claimed.add(p.pid); m.nprocs += 1
                return p
        return None

    def descendants(m, p):
        r = [p]
        for c in m.kids.get(p.pid, []): r += m.descendants(c)
        return r

    def check_proc(m, p, q, s, lo, what, after):
        """argv, environment, directory, descriptors of a started stage"""
        st = q.st
        asy = {'P05'} if s['kind'] == 'async' else set()
        exp = [b8(q.name)] + [b8(a) for a in q.args]
        if p.argv != exp:
            m.bad({'P11'} | asy | ({'P13'} if any(t[0] in ('star', 'pct') for w in st.get('args', []) for t in w) else set()),
                  '%s was started with arguments %r instead of %r' % (what, *listdiff(p.argv, exp)), p.seq)
        act = {}
        for e in p.env:
            k, _, x = e.partition(b'=')
            if k in act: m.bad({'P12'}, '%s: variable %r is twice in the environment' % (what, k), p.seq)
            act[k] = x
        exp = None
        for i, (a, z, e) in enumerate(m.envs):
            if a >= p.seq: break
            # (std may take the environment some calls before the process exists, and meanwhile the script goes on)
            if i + 1 < len(m.envs) and m.envs[i + 1][1] < (lo if asy else p.seq): continue
            e = dict(e); e.update(q.env); exp = {b8(k): b8(x) for k, x in e.items()}
            if exp == act: break
        if act != exp:
            d = {k: (exp.get(k), act.get(k)) for k in set(exp) | set(act) if exp.get(k) != act.get(k)}
            m.bad({'P12'}, '%s: environment differs (expected, got): %r' % (what, d), p.seq)
        if p.cwd != b8(m.cwd.path()):
            m.bad({'P13'}, '%s was started in %r instead of %r' % (what, p.cwd, m.cwd.path()), p.seq)
        if set(p.fds) != {0, 1, 2}:
            m.bad({'P08'}, '%s was started with descriptors %s open' % (what, ', '.join('%d (object %d, %s)' % (f, o[0], o[1]) for f, o in sorted(p.fds.items()))), p.seq)
        if not p.sigpipe_dfl:
            m.bad({'P08', 'P02', 'P21'}, '%s was started with SIGPIPE ignored' % what, p.seq)
        if p.seq <= lo:
            m.bad({'P04'} | asy, '%s was started before the preceding command had ended' % what, p.seq)
        if p.seq <= after:
            m.bad({'P14'}, '%s was started before output printed earlier had been written' % what, p.seq)

    def bind(m, p, q, s, what, caps):
        """the objects its descriptors refer to"""
        if not {0, 1, 2} <= set(p.fds): return
        if q.inp[0] == 'script':
            if p.fds[0][0] != m.stdio.get(0): m.bad({'P02', 'P15', 'P07'}, '%s: standard input is object %d, not the standard input of the script' % (what, p.fds[0][0]), p.seq)
        elif q.inp[0] == 'file':
            m.bind_file(p, 0, q.inp[1], what, 'P07')
            off = 0
            for r in p.reads:
                if r[1] == 0:
                    if r[3] != off: m.bad({'P07'}, '%s: read from offset %d of its input file instead of %d' % (what, r[3], off), r[0]); break
                    off += r[4]
        else:
            if p.fds[0][0] in (m.stdio.get(0), m.stdio.get(1), m.stdio.get(2)):
                m.bad({'P02' if q.inp[0] == 'pipe' else 'P07'}, '%s: standard input is a standard stream of the script' % what, p.seq)
        std = {m.stdio.get(1), m.stdio.get(2)}
        for fd, b in ((1, q.out), (2, q.err)):
            oid, kind = p.fds[fd]
            nm = 'standard output' if fd == 1 else 'standard error'
            if b[0] == 's':
                if oid != m.stdio.get(b[1]):
                    m.bad({'P06', 'P02', 'P01', 'P14'} if s['kind'] == 'cap' else {'P06', 'P02', 'P14', 'P05'} if s['kind'] == 'async' else {'P06', 'P02', 'P14'}, '%s: %s is object %d, not the script\'s %s' % (what, nm, oid, 'output' if b[1] == 1 else 'error'), p.seq)
            elif b[0] == 'desc':
                m.bind_file(p, fd, b[1][2].node, what, 'P06')
            else:
                tag = {'P01'} if b[0] == 'cap' else {'P02'}
                if q.st.get('redir'): tag.add('P06')
                if oid in std or oid in m.oid_path or not kind.startswith('w'):
                    m.bad(tag, '%s: %s is object %d (%s) and not a pipe of its own' % (what, nm, oid, m.oid_path.get(oid, 'stream of the script')), p.seq)
                elif b[0] == 'cap':
                    caps[b[1]].add(oid)
        # same target for duplicated descriptors
        if q.out == q.err and q.out[0] != 's' and p.fds[1][0] != p.fds[2][0]:
            m.bad({'P06'}, '%s: its two redirected streams do not refer to the same target' % what, p.seq)
        if q.out != q.err and q.out[0] in ('pipe', 'cap') and p.fds[1][0] == p.fds[2][0]:
            m.bad({'P06', 'P01', 'P02'}, '%s: standard output and error refer to the same pipe' % what, p.seq)
        # file writes, for the replay of offsets
        if not any(o[0] in ('dup2', 'close') for o in q.st.get('ops', [])):
            for x in m.descendants(p):
                for r in x.writes:
                    b = q.out if r[1] == 1 else q.err if r[1] == 2 else None
                    if b and b[0] == 'desc': m.fw.append((r[0], r[2], r[3], r[4], b[1][2], what))
    def bind_file(m, p, fd, node, what, tag):
        oid, kind = p.fds[fd]
        if node.t in 'nF': return
        path = node.path()
        known = m.h.files.get(path)
        if known is None: return           # removed later
        if known[0] != oid:
            m.bad({tag, 'P13'}, '%s: descriptor %d refers to %s instead of %s' % (what, fd, m.oid_path.get(oid, 'object %d' % oid), path), p.seq)

    def open_files(m, q, lo, hi, sure):
        """apply a stage's output redirections to the file tree"""
        for op in q.opens:
            path, how = op[0], op[1]
            if not sure:
                pb = b8(path)
                if not any(lo < o[0] < hi and o[1] == pb and o[2] & O_CREAT for o in m.h.opens): continue
            e, node = m.fs.open_write(path, m.cwd)
            if e: continue
            op[2] = Desc(node, how == 'append')
            if node.t == 'f':
                m.touched.add(node.path())
                if how == 'file': m.trunc.append((node.path(), lo, hi, sure))

    def pos(m, st): return '%s (line %d, column %d)' % (m.path, st['pos'][0], st['pos'][1])

    # ------------------------------------------------------------ blocks
    def block(m, s, lo, hi, vars, got, after):
        """judge the execution of block s between events lo and hi; got is ('value', v), ('panic', text) or
        ('end', None) when the script ended instead. Returns True if a panic was expected."""
        kind = s['kind']; asy = kind == 'async'
        join = {'P05'} if asy else set()
        m.nblocks += 1
        what0 = 'block %s' % s.get('id')
        others = any(not a['joined'] and a['s'] is not s for a in m.asyncs.values()) or (asy and m.overlap(s))
        fl = m.faults(lo, hi)
        if asy and any(a < f[0] < z for f in fl for a, z in m.wins): others = True   # it may belong to a block that ran meanwhile
        if not asy: m.wins.append((lo, hi))
        if any(f[1] == 'wait' for f in fl): m.dirty_wait = True
        waitf = any(f[1] == 'wait' for f in fl)
        caps = {1: set(), 2: set()}
        ended = lo          # the last process of the previous pipeline ended here
        exp = []            # per pipeline: [(status, pos)]
        panic = None        # why a panic is expected
        aborted = maybe = False
        entries = None
        if got[0] == 'value':
            entries = m.errors_of(got[1], kind, what0, join)
            flat = [e for pl in entries for e in pl]
        started_any = []
        extras = 0
        # a panic that is raised when the block is put together means that nothing of it runs
        for k, pl in enumerate(s['pls']):
            if aborted: break
            if pl[0].get('builtin'):
                if got[0] == 'panic' and m.may_panic(s, vars) and not (pl[0]['builtin'] == 'cd' and any(max(ended, m.cdlast) < c[0] < hi for c in m.h.chdirs)): panic = 'another command of the block'; break
                r = m.builtin(s, pl[0], ended, hi, vars, fl, after, None if entries is None else (127, m.pos(pl[0])) in flat)
                if r == 'panic': panic = 'built-in'; break
                if r == 'exec': return 'exec'
                errs, end = r
                if end: ended = end
                if errs:
                    if fl and entries is not None and errs == 'fault':
                        f = [e for e in flat if e[1] == m.pos(pl[0])]
                        if f: exp.append(f); extras += 1; aborted = not pl[0].get('try') or not m.went_on(s, k, lo, hi, vars, flat)
                        continue
                    exp.append(errs)
                    aborted = not pl[0].get('try') or fl and entries is not None and not m.went_on(s, k, lo, hi, vars, flat)
                continue
            plans = [m.plan(st, vars, i, len(pl), kind) for i, st in enumerate(pl)]
            fates = [q.fate for q in plans]
            if panic is None and 'panic' in fates:
                # next to a stage that cannot be started, which of the two is met first is not laid down
                if not (got[0] == 'value' and any(f in ('fail', 'nul') for f in fates)): panic = next(q.why for q in plans if q.fate == 'panic')
            unst = [i for i, f in enumerate(fates) if f != 'ok']
            procs = []
            for i, q in enumerate(plans):
                p = None
                if q.node is not None: p = m.claim(q.node.prog, lo, hi)
                procs.append(p)
            lohere = ended
            # file effects
            for i, q in enumerate(plans):
                p = procs[i]
                # without the process there is only the open to go by; after the next cd it is somebody else's
                m.open_files(q, lohere, p.seq if p else min([c[0] for c in m.h.chdirs if c[0] > max(lohere, m.cdlast)] + [hi]), p is not None)
            strict = not unst and not fl and not (got[0] == 'panic' and panic)
            if strict and got[0] != 'end' and not s.get('_partial'):
                for i, p in enumerate(procs):
                    if p is None and not (got[0] == 'panic'):
                        m.bad({'P04', 'P03'} | m.feat(pl[i], s, pl), '%s: command %s was not started' % (what0, pl[i]['n']), hi)
            # the streams between the stages, and everything about each process
            for i, q in enumerate(plans):
                p = procs[i]
                if p is None: continue
                what = 'command %s (%s)' % (q.st['n'], what0)
                if q.fate != 'ok':
                    m.bad({'P06', 'P07', 'P11'} | (set() if q.bad_redir else {'P11'}), '%s was started although it should be refused' % what, p.seq); continue
                m.check_proc(p, q, s, lohere, what, after)
                m.bind(p, q, s, what, caps)
                m.stdin_check(p, q, plans, procs, i, what)
                if p.exit_seq is None or p.exit_seq > hi:
                    if got[0] != 'end' and not waitf and not s.get('_partial'):
                        m.bad({'P04', 'P09'} | join, '%s was not waited for' % what, hi)
                elif p.reap_seq is None or p.reap_seq > hi:
                    if got[0] != 'end' and not waitf and not s.get('_partial'): m.bad({'P09', 'P04'} | join, '%s was not reaped' % what, hi)
                if p.exit_seq is not None and not waitf: ended = max(ended, p.exit_seq)
                for x in m.descendants(p):
                    for o in m.progops(x): m.fsop(o, x)
            st_procs = [p for p in procs if p]
            if s.get('_partial') and (len(st_procs) < len(pl) or any(p.exit_seq is None for p in st_procs)) and not (unst and all(p.exit_seq is not None for p in st_procs) and m.went_on(s, k, ended, hi, vars, [])):
                if fl:
                    for x in s['pls'][k + 1:]:
                        for st in x: m.claim(st['n'], lo, hi)
                return None
            if panic and (got[0] != 'value'):
                if any(plans[i].fate == 'panic' and procs[i] for i in range(len(pl))): m.bad({'P06', 'P11'}, 'a command was started although it should be refused with a panic', hi)
                if 'panic' in fates:
                    if got[0] == 'end' and fl:      # a failed call may have been met first, and the block gone on
                        for x in s['pls'][k + 1:]:
                            for st in x: m.claim(st['n'], lo, hi)
                        return None
                    break
            # what should be reported
            if entries is not None:
                mine = []
                poss = {m.pos(st): i for i, st in enumerate(pl)}
                here = [e for e in flat if e[1] in poss]
                for i, st in enumerate(pl):
                    ps = m.pos(st); p = procs[i]
                    rep = [e for e in here if e[1] == ps]
                    if p is not None and p.status is not None:
                        c = status_of(p)
                        if c: mine.append((c, ps)) if not (waitf and (127, ps) in rep and (c, ps) not in rep) else mine.append((127, ps))
                        elif fl and (127, ps) in rep: mine.append((127, ps)); extras += 1
                        if c and fl and (127, ps) in rep and (c, ps) not in rep and any(f[1] in ('write', 'wait') for f in fl):
                            mine[-1] = (127, ps)
                        if c and fl and (127, ps) in rep and (c, ps) not in rep: extras += 1
                    elif p is None:
                        if i in unst:
                            if rep or len(unst) == 1 and not fl: mine.append((127, ps)); extras += 1
                        elif fl and (127, ps) in rep: mine.append((127, ps)); extras += 1
                if (unst or (fl and len(st_procs) < len(pl))) and not any(e[0] == 127 for e in mine):
                    m.bad({'P03', 'P10'} | {t for i in unst for t in m.feat(pl[i], s, pl)}, '%s: not all commands of the pipeline could be started, but no error is reported for it' % what0, hi)
                if mine: exp.append(mine)
                failed = {e[1] for e in mine}
                if any(not st.get('try') for st in pl if m.pos(st) in failed): aborted = True
                elif fl and mine and (127, m.pos(pl[0])) in mine and k + 1 < len(s['pls']):
                    # either of: going on, or giving up the block for lack of resources
                    if not m.went_on(s, k, ended, hi, vars, flat): aborted = True
            elif any(p is not None and p.status is not None and status_of(p) and not st.get('try') for p, st in zip(procs, pl)): aborted = True
        # the outcome as a whole
        if panic:
            if got[0] == 'value' and not (fl and any(e[0] == 127 for e in flat)):
                m.bad({'P06', 'P11', 'P18'} if panic != 'built-in' else {'P21', 'P13'}, '%s: a panic was expected (%s), but it evaluated to %r' % (what0, panic, short(got[1])), hi)
            return True
        if got[0] == 'panic':
            if not fl and 'nul' not in [m.plan(st, vars, i, len(pl), kind).fate for pl in s['pls'] if not pl[0].get('builtin') for i, st in enumerate(pl)]:
                m.bad({'P10', 'P03'} | set().union(*[m.feat(st, s, pl) for pl in s['pls'] for st in pl]), '%s panicked: %r' % (what0, short(got[1], 300)), hi)
            return True
        if got[0] == 'end': return None
        if s.get('_partial'): return None
        if entries != exp:
            bp = {m.pos(pl[0]): 'P13' if pl[0]['builtin'] == 'cd' else 'P21' for pl in s['pls'] if pl[0].get('builtin') in ('cd', 'exec', 'exec0', 'spawn0')}
            xs = {e for pl in exp for e in pl} ^ set(flat)
            m.bad({bp[e[1]] for e in xs if e[1] in bp} | {'P03'} | join | ({'P10'} if fl else set()) | set().union(*[m.feat(st, s, pl) & {'P06', 'P07', 'P11', 'P12'} for pl in s['pls'] for st in pl if len(pl) == 1 and len(s['pls']) == 1]),
                  '%s reported failures %r instead of %r' % (what0, entries, exp), hi)
        else:
            t = m.tree(got[1].ctx[b'error'] if kind == 'cap' else got[1].ctx) if exp else None
            x = m.exptree(exp)
            if t != x: m.bad({'P03'} | join, '%s: the report has the structure %r instead of %r' % (what0, t, x), hi)
            if len(exp) > 1 and b'block' not in got[1].desc or len(exp) == 1 and len(exp[0]) > 1 and b'pipeline' not in got[1].desc:
                m.bad({'P03'} | join, '%s: several failures are described as %r' % (what0, got[1].desc), hi)
        must = [f for f in fl if not others and not (f[1] == 'write' and f[3] == 32)]
        if must and not any(e[0] == 127 for e in flat):
            cl = {f[1] for f in must}
            t = set().union(*[m.feat(st, s, pl) for pl in s['pls'] for st in pl])
            m.bad({'P10'} | (t & {'P07'} if 'write' in cl else set()) | (t & {'P01'} if 'read' in cl else set()) | (t & {'P06', 'P07'} if 'open' in cl else set()), '%s succeeded although the system refused: %s' % (what0, ', '.join(f[1] for f in must)), hi)
        if kind == 'cap': m.capture(s, got[1], caps, what0, hi, fl)
        return False

    def went_on(m, s, k, lo, hi, vars, flat):
        """whether anything shows that the pipelines after number k of block s were executed"""
        rest = s['pls'][k + 1:]
        if any(st.get('builtin') == 'cd' for x in rest for st in x) and any(max(lo, m.cdlast) < c[0] < hi for c in m.h.chdirs): return True
        nxt = [n.rsplit('/', 1)[-1] for x in rest for st in x for n in [st['n']] + m.words(st.get('args', [])[:1], vars)]
        for x in rest:
            for st in x:
                if st.get('builtin') in ('spawn0', 'exec', 'exec0'):
                    for w in m.words(st.get('args', [])[:1], vars):
                        node = m.lookup(w)
                        if node is not None: nxt.append(node.prog)
        if any(p.pid not in m.claimed and lo < p.seq < hi for n in nxt for p in m.byname.get(n, [])): return True
        return any(m.pos(st) == e[1] for x in rest for st in x for e in flat)
    def may_panic(m, s, vars):
        return any(m.plan(st, vars, i, len(pl), s['kind']).fate in ('panic', 'nul') for pl in s['pls'] if not pl[0].get('builtin') for i, st in enumerate(pl))
    def overlap(m, s):
        return any(a['s'] is not s and not (a['joined'] and a['end'] < m.asyncs[s['id']]['lo']) for a in m.asyncs.values())

    def progops(m, x):
        return (m.sc.get('progs', {}).get(x.prog) or m.sc.get('xprogs', {}).get(x.prog) or []) if x.exit_seq is not None else []
    def fsop(m, o, p):
        cwd = m.fs.resolve(p.cwd.decode('latin-1'), m.fs.root)[1]
        if cwd is None: return
        if o[0] in ('fwrite', 'fappend'):
            e, n = m.fs.open_write(o[1], cwd)
            if n: m.touched.add(n.path()); n.data = o[2] if o[0] == 'fwrite' else n.data + o[2]
        elif o[0] in ('rm', 'rmdir'): m.fs.remove(o[1], cwd)
        elif o[0] in ('mkdir', 'symlink'):
            e, n, d, b = m.fs.resolve(o[1], cwd, False, True)
            if not e and n is None: m.fs.mk(d.path() + '/' + b, 'd' if o[0] == 'mkdir' else 'l', '' if o[0] == 'mkdir' else o[2])

    def stdin_check(m, p, q, plans, procs, i, what):
        h = m.h
        if q.inp[0] == 'script':
            recs = [r for x in m.descendants(p) for r in x.reads if r[2] == m.stdio.get(0)]
            recs.sort()
            if m.in_unknown or any(f[1] == 'wait' for f in m.h.faults): return    # a command that is not waited for reads on
            for r in recs:
                if r[3] != m.in_off:
                    m.bad({'P15', 'P02'}, '%s: read standard input from byte %d on, but the script had read up to byte %d' % (what, r[3], m.in_off), r[0]); break
                m.in_off += r[4]
            return
        if q.inp[0] == 'file': return
        if any(o[0] in ('dup2',) for o in q.st.get('ops', [])): return
        got = b''.join(h.data(r) for r in p.reads if r[1] == 0)
        eof = any(e[1] == 0 for e in p.eofs)
        if q.inp[0] == 'here':
            exp = q.inp[1]; tag = {'P07'}; src = 'the given text'
            if m.h.faults and any(f[1] == 'write' for f in m.h.faults): eof = False
            if eof and m.h.hush[5] is not None and all(e[0] > m.h.hush[5] for e in p.eofs if e[1] == 0): eof = False   # hush was gone before
        else:
            tag = {'P02'}; src = 'what its predecessor wrote'
            prev, pq = procs[i - 1], plans[i - 1]
            exp = b''
            if prev is not None:
                oids = {prev.fds[fd][0] for fd, b in ((1, pq.out), (2, pq.err)) if b[0] == 'pipe' and fd in prev.fds} if hasattr(pq, 'out') else set()
                recs = sorted(r for x in h.order if x.how in ('spawn', 'fork', 'bg') for r in x.writes if r[2] in oids)
                exp = b''.join(h.data(r) for r in recs)
        if eof and got != exp:
            m.bad(tag, '%s: read %d bytes up to end-of-file, but %s has %d bytes%s' % (what, len(got), src, len(exp), m.diff(got, exp)), p.exit_seq)
        elif not eof and not exp.startswith(got):
            m.bad(tag, '%s: read %d bytes that differ from %s%s' % (what, len(got), src, m.diff(got, exp)), p.exit_seq)
    @staticmethod
    def diff(a, b):
        n = min(len(a), len(b))
        for i in range(n):
            if a[i] != b[i]: return ', first difference at byte %d: %r instead of %r' % (i, a[i:i + 12], b[i:i + 12])
        return '' if len(a) == len(b) else ', equal up to byte %d' % n

    def errors_of(m, v, kind, what, join):
        """the reported failures: list (per failed pipeline) of lists of (status, position)"""
        tags = {'P03'} | join
        def one(ctx):
            if not (isinstance(ctx, dict) and set(ctx) == {b'status', b'pos'} and isinstance(ctx[b'status'], int) and isinstance(ctx[b'pos'], bytes)): return None
            return (ctx[b'status'], ctx[b'pos'].decode('latin-1'))
        def pipe(e):
            if not isinstance(e, Err) or is_panic(e): return None
            return pctx(e.ctx)
        def pctx(ctx):
            o = one(ctx)
            if o: return [o]
            if isinstance(ctx, list) and len(ctx) >= 2:
                r = [one(x.ctx) if isinstance(x, Err) else None for x in ctx]
                return None if None in r else r
            return None
        def blk(ctx):
            p = pctx(ctx)
            if p: return [p]
            if isinstance(ctx, list) and len(ctx) >= 2:
                r = [pipe(x) for x in ctx]
                return None if None in r else r
            return None
        if kind == 'cap':
            if isinstance(v, dict):
                if set(v) != {b'stdout', b'stderr'}: m.fatal({'P01', 'P03'}, '%s: the capture has the fields %r' % (what, sorted(v)))
                return []
            if isinstance(v, Err) and isinstance(v.ctx, dict) and set(v.ctx) == {b'stdout', b'stderr', b'error'}:
                r = blk(v.ctx[b'error'])
                if r is not None: return m.flatshape(r, v.ctx[b'error'])
            m.fatal({'P01', 'P03'}, '%s evaluated to a malformed capture %r' % (what, short(v)))
        if v is None: return []
        if isinstance(v, Err):
            r = blk(v.ctx)
            if r is not None: return m.flatshape(r, v.ctx)
        m.fatal(tags, '%s evaluated to %r, which is neither nil nor a failure report' % (what, short(v)))
    def flatshape(m, r, ctx):
        # A list of single errors may be one pipeline or several of one failure each: the positions tell which.
        if len(r) == 1 and len(r[0]) > 1 and m.curblock is not None:
            where = {}
            for k, pl in enumerate(m.curblock['pls']):
                for st in pl: where[m.pos(st)] = k
            out = []; lastk = None
            for e in r[0]:
                k = where.get(e[1], -1)
                if k == lastk and k >= 0: out[-1].append(e)
                else: out.append([e])
                lastk = k
            return out
        return r
    curblock = None
    in_unknown = False

    def tree(m, ctx):
        if isinstance(ctx, dict): return (ctx.get(b'status'), ctx.get(b'pos', b'').decode('latin-1'))
        return [m.tree(x.ctx) for x in ctx]
    def exptree(m, exp):
        if not exp: return None
        pls = [pl[0] if len(pl) == 1 else list(pl) for pl in exp]
        return pls[0] if len(pls) == 1 else pls

    def capture(m, s, v, caps, what, hi, fl):
        d = v if isinstance(v, dict) else v.ctx
        for fd, key in ((1, b'stdout'), (2, b'stderr')):
            oids = caps[fd]
            recs = sorted(r for p in m.h.order if p.how in ('spawn', 'fork', 'bg') for r in p.writes if r[2] in oids)
            exp = b''.join(m.h.data(r) for r in recs)
            got = d[key]
            if not isinstance(got, bytes): m.bad({'P01'}, '%s: captured %s is %r' % (what, key.decode(), short(got)), hi); continue
            if got != exp:
                m.bad({'P01'}, '%s: captured %s has %d bytes, but the commands wrote %d%s' % (what, key.decode(), len(got), len(exp), m.diff(got, exp)), hi)
        if caps[1] & caps[2] and not any(st.get('redir') for pl in s['pls'] for st in pl):
            m.bad({'P01'}, '%s: standard output and error are captured by the same pipe' % what, hi)

    def builtin(m, s, st, lo, hi, vars, fl, after, failed=None):
        b = st['builtin']
        args = m.words(st.get('args', []), vars)
        ps = m.pos(st)
        env = {}
        for k, w in st.get('env', []): env[m.envname(k, vars)] = m.single(w, vars)
        what = '%s (block %s)' % (b, s['id'])
        if b == 'cd':
            if len(args) != 1: return 'panic'
            if '\0' in args[0]: return [(127, ps)], None
            e, n = m.fs.chdir(args[0], m.cwd)
            cf = m.faults(lo, hi, {'chdir'})
            if not e and cf and (failed if failed is not None else m.chdir_refused(args[0], lo, hi)): e = 'fault'
            if not e and fl and failed and not any(lo < c[0] < hi and c[0] > m.cdlast for c in m.h.chdirs): e = 'fault'   # something else it needs was refused
            if e: return [(127, ps)], None
            m.cwd = n
            m.cdlast = min([c[0] for c in m.h.chdirs if max(lo, m.cdlast) < c[0] < hi] or [m.cdlast])
            return None, None
        if b == 'alias': return [(127, ps)], None
        need = 1 if b == 'exec' else 2
        if len(args) < need: return 'panic'
        node = m.lookup(args[0], dict(m.env, **env))
        argv = [args[0]] + args[1:] if b == 'exec' else args[1:]
        if any('\0' in a for a in args) or any(badname(k) for k in env) or toolong(args, dict(m.env, **env)): return [(127, ps)], None
        q = Plan(); q.st = dict(st, n=b); q.name = argv[0]; q.args = argv[1:]; q.env = env
        q.inp = ('script',); q.out = ('s', 1); q.err = ('s', 2)
        if b == 'spawn0':
            if node is None: return [(127, ps)], None
            p = m.claim(node.prog, lo, hi)
            if p is None:
                if fl: return 'fault', None
                m.bad({'P21', 'P04'}, '%s: %s was not started' % (what, args[0]), hi)
                return None, None
            n0 = len(m.v)
            m.check_proc(p, q, s, lo, what, after); m.bind(p, q, s, what, {1: set(), 2: set()}); m.stdin_check(p, q, [q], [p], 0, what)
            for x in m.v[n0:]: x.tags.add('P21')
            if any(f[1] == 'wait' for f in fl): return 'fault', None
            if p.exit_seq is None or p.exit_seq > hi: m.bad({'P21', 'P04'}, '%s was not waited for' % what, hi)
            elif p.reap_seq is None or p.reap_seq > hi: m.bad({'P21', 'P09'}, '%s was not reaped' % what, hi)
            c = status_of(p) if p.status is not None else 0
            return ([(c, ps)] if c else None), p.exit_seq
        # exec, exec0
        if node is None: return [(127, ps)], None
        if any(f[1] == 'exec' for f in m.faults(lo, hi)): return [(127, ps)], None
        x = [p for p in m.h.order if p.how == 'exec']
        if m.h.how != 'EXEC' or not x:
            m.fatal({'P21'}, '%s did not replace hush: %s' % (what, m.h.describe_end()), hi)
        p = x[0]
        n0 = len(m.v)
        m.check_proc(p, q, s, lo, what, after)
        m.bind(p, q, s, what, {1: set(), 2: set()})
        m.stdin_check(p, q, [q], [p], 0, what)
        if p.prog != node.prog: m.bad({'P21'}, '%s: %s runs instead of %s' % (what, p.prog, node.prog), p.seq)
        for y in m.v[n0:]: y.tags.add('P21')
        m.ended = 'exec'
        return 'exec'

    def chdir_refused(m, path, lo, hi):
        """whether the next change of directory was made to fail"""
        fl = m.faults(max(lo, m.cdlast), hi, {'chdir'})
        if not fl: return False
        nxt = min([c[0] for c in m.h.chdirs if max(lo, m.cdlast) < c[0] < hi] or [INF])
        m.cdlast = min(nxt, fl[0][0])
        return fl[0][0] < nxt
    cdlast = -1

    # ------------------------------------------------------------ statements
    def run(m):
        """-> list of violations"""
        h = m.h
        try:
            if h.truncated: return m.v
            m.bad_end()
            if not m.spec.get('noprelude'):
                m.report(0, 'start of the script'); m.check_clean(m.last, 'start of the script')
            m.stmts(m.spec['stmts'])
            if m.ended is None and not m.spec.get('noprelude') and not m.spec.get('noend'):
                m.report(999999, 'end of the script')
                m.check_clean(m.last, 'end of the script')
            m.finish()
        except Stop: pass
        return m.v

    def bad_end(m):
        h = m.h
        if h.how == 'CRASH': m.bad({'*'}, h.describe_end())
        elif h.how in ('ABORT', 'SIGNAL'): m.bad({'*'}, '%s; stderr %r' % (h.describe_end(), short(h.hush_wrote(2), 300)), h.hush[5])
        elif h.how in ('DEADLOCK', 'STEPLIMIT'): m.bad({'*'}, h.describe_end(), h.hush[5])
        elif h.how == 'EXIT' and h.code == 101: m.bad({'*'}, 'hush crashed (status 101): %r' % short(h.hush_wrote(2), 300), h.hush[5])

    def finish(m):
        h = m.h
        exp = {None: 0, 'exec': None}.get(m.ended, m.ended)
        rest = m.out[m.cur:]
        if rest: m.bad({'P14', 'P18', 'P16'}, 'unexpected output after the end: %r' % short(rest), m.seq_at(m.cur))
        if exp is not None:
            if h.how != 'EXIT' and h.how not in ('CRASH', 'ABORT', 'SIGNAL', 'DEADLOCK', 'STEPLIMIT'): m.bad({'P16'}, h.describe_end())
            elif h.how == 'EXIT' and h.code != exp: m.bad({'P16'}, 'exit status %d instead of %d; stderr %r' % (h.code, exp, short(h.hush_wrote(2), 300)))
            err = h.hush_wrote(2)
            if exp == 0 and err and not m.spec.get('stderr_ok'): m.bad({'P16', 'P14'}, 'message on standard error though nothing failed: %r' % short(err, 300))
            if exp == 127 and m.ended == 127 and not err and m.sc.get('stderr', 'pipe:err') == 'pipe:err' and not m.spec.get('exit127'): m.bad({'P10', 'P16', 'P14'}, 'a panic ended the script without a message')
        for a in m.asyncs.values():
            if not a['joined']:
                s = dict(a['s'], kind='async', _partial=True)
                m.curblock = s; a['joined'] = True; a['end'] = INF
                m.block(s, a['lo'], INF, a['vars'], ('end', None), a['after'])
        for p in h.children():
            if p.pid not in m.claimed:
                st = None
                t = {'P04', 'P05', 'P20'}
                if any(x['n'] == p.prog for s in _walk(m.spec['stmts']) if s['k'] == 'async' for pl in s['pls'] for x in pl): t = {'P05', 'P04'}
                m.bad(t, 'command %s was started although it should not be (or once more than it should)' % p.prog, p.seq)
        for seq, pid, sig in h.kills:
            p = h.procs.get(pid)
            if sig and p is not None and (p.exit_seq is None or p.exit_seq > seq): m.bad({'P02', 'P03', 'P04', 'P05', 'P10', 'P01'}, 'hush ended command %s with signal %d' % (p.prog, sig), seq)
        m.files_end()

    def files_end(m):
        h = m.h
        # truncations happen when, and only when, a command with `> file` starts
        ev = [(o[0], m.oid_path.get(o[3]), o) for o in h.opens if o[2] & O_TRUNC and o[2] & 3]
        for path, lo, hi, req in m.trunc:
            if req and path in h.files and not any(lo < s < hi and p == path for s, p, _ in ev):
                m.bad({'P06'}, '%s was not truncated when its command started' % path, hi)
        for s, p, _ in ev:
            if p is None or p.startswith('/dev/'): continue
            if not any(lo < s < hi and p == path for path, lo, hi, _ in m.trunc):
                m.bad({'P06', 'P04'}, '%s was truncated although no command that does so was being started' % p, s)
        lens = {oid: 0 for oid in m.oid_path}
        init = {}
        for e in m.sc.get('fs', []):
            if e[0] == 'f': init[e[1]] = e[2] if len(e) > 2 else ''
        for path, d in init.items():
            if path in h.files: lens[h.files[path][0]] = len(d)
        evs = [(s, 0, o[3]) for s, _, o in ev]
        for p in h.order:
            for r in p.writes:
                if r[2] in m.oid_path: evs.append((r[0], 1, r))
        for r in h.hw:
            if r[2] in m.oid_path: evs.append((r[0], 1, r))
        own = {}
        for f in m.fw: own.setdefault(f[0], f)
        for e in h.ev:
            if e.k == 'FWRITE': evs.append((e.seq, 2, int(e.a[2])))
        dead = set()
        for seq, k, x in sorted(evs, key=lambda t: (t[0], t[1])):
            if k == 0: lens[x] = 0
            elif k == 2: dead.add(x)
            else:
                f = own.get(seq)
                oid, off, n = x[2], x[3], x[4]
                if f and oid not in dead:
                    d = f[4]
                    exp = lens.get(oid, 0) if d.append else d.off
                    if off != exp: m.bad({'P06'}, '%s: wrote at offset %d of %s instead of %d' % (f[5], off, m.oid_path[oid], exp), seq); d.off = off
                    d.off += n
                lens[oid] = max(lens.get(oid, 0), off + n)
        # nothing else was touched
        for path, d in init.items():
            if path in m.touched or path in m.allowed_files(): continue
            if path in h.files and h.files[path][1] != b8(d): m.bad({'P06'}, '%s was changed although no command names it' % path)
        for path, (oid, d) in h.files.items():
            if path not in init and path not in m.touched and path not in m.allowed_files() and not path.startswith('/bin/') and path != m.sc.get('script_path', '/w/main.hsh') and not path.startswith('/dev/'):
                m.bad({'P06', 'P13'}, 'file %s appeared although no command names it' % path)
    def allowed_files(m):
        r = set()
        for k in ('stdout', 'stderr'):
            v = m.sc.get(k, '')
            if v.startswith(('file:', 'append:')): r.add(v.split(':', 1)[1])
        return r

    def stmts(m, ss):
        for s in ss:
            m.stmt(s)
            if m.ended is not None: return

    def uncaught(m, what):
        """the script is to end here with a panic"""
        m.ended = 127

    def outcome(m, s, what, panics_ok, tags):
        """the value of a statement's report; None, seq if the script ended with a panic there"""
        if not s.get('catch') and not m.at_report(s['id']) and m.h.how == 'EXIT' and m.h.code == 127 and m.cur == len(m.out) and panics_ok:
            return ('end', None), INF
        v, seq = m.report(s['id'], what, tags)
        return ('panic', v.desc) if s.get('catch') and is_panic(v) else ('value', v), seq

    def stmt(m, s):
        k = s['k']; f = getattr(m, 'do_' + k)
        f(s)

    def do_block(m, s):
        lo = m.last
        what = 'the value of block %d' % s['id']
        m.curblock = s
        exp_panic = any(q.fate == 'panic' for pl in s['pls'] if not pl[0].get('builtin') for i, st in enumerate(pl) for q in [m.plan(st, m.vars, i, len(pl), s['kind'])])
        isexec = any(st.get('builtin') in ('exec', 'exec0') for pl in s['pls'] for st in pl)
        if isexec and not m.at_report(s['id']) and m.cur == len(m.out):
            r = m.block(s, lo, INF, dict(m.vars), ('end', None), lo)
            if r == 'exec': m.ended = 'exec'; return
        got, seq = m.outcome(s, what, exp_panic or m.faults(lo, INF) or isexec or any(st.get('builtin') for pl in s['pls'] for st in pl), {'P03', 'P04'})
        r = m.block(s, lo, seq, dict(m.vars), got, lo)
        if got[0] == 'end':
            m.ended = 127; return
        if r is True and not s.get('catch') and got[0] == 'value' and exp_panic: raise Stop()
        m.check_clean(seq, 'after block %d' % s['id'], {'P09'})

    def do_async(m, s):
        lo = m.last
        vars = dict(m.vars)
        b = dict(s, kind='async')
        if s.get('catch'):
            v, seq = m.report(s['id'], 'the start of async block %d' % s['id'], {'P05'})
            if v is True:
                if not m.faults(lo, seq) and not m.may_panic(b, vars): m.bad({'P05', 'P10'}, 'async block %d panicked' % s['id'], seq)
                return
        else:
            got, seq = m.outcome(s, 'the start of async block %d' % s['id'], m.faults(lo, INF) or m.may_panic(b, vars), {'P05'})
            if got[0] == 'end': m.ended = 127; return
        m.asyncs[s['id']] = {'s': b, 'lo': lo, 'vars': vars, 'joined': False, 'after': lo, 'end': None, 'env': dict(m.env)}

    def do_join(m, s):
        a = m.asyncs.get(s['of'])
        lo = m.last
        what = 'the join of block %d' % s['of']
        if a is None: # the block could not be started
            if s.get('catch'): m.report(s['id'], what, {'P05'})
            return
        b = a['s']; m.curblock = b
        if a['joined']:
            got, seq = m.outcome(s, what, True, {'P05'})
            if got[0] == 'value': m.bad({'P05'}, 'a second join of block %d did not panic but gave %r' % (s['of'], short(got[1])), seq)
            if got[0] == 'end': m.ended = 127
            return
        got, seq = m.outcome(s, what, m.faults(a['lo'], INF) or any('redir' in st for pl in b['pls'] for st in pl), {'P05'})
        a['joined'] = True; a['end'] = seq
        now = m.env; m.env = a['env']
        m.block(b, a['lo'], seq, a['vars'], got, a['after'])
        m.env = now
        if got[0] == 'end': m.ended = 127; return
        m.check_clean(seq, 'after the join of block %d' % s['of'], {'P09', 'P05'})

    def do_set(m, s): m.vars[s['var']] = s['val']
    def do_rep(m, s):
        v, seq = m.report(s['id'], 'report %d' % s['id'])
        if 'expect' in s and not matches(s['expect'], v): m.bad(set(s.get('tags', ['P18'])), 'report %d: %r instead of %r' % (s['id'], short(v), s['expect']), seq)
    def do_print(m, s, nl=b''):
        data = b'\t'.join(b8(vbytes(v)) if v is not None else b'nil' for v in s['vals']) + nl
        m.expect_out(data, {'P14'}, 'printed text')
    def do_println(m, s): m.do_print(s, b'\n')

    def simple(m, s, exp, tags, cls=()):
        """a library call whose value is exp; failures of the classes cls excuse an error or panic"""
        what = 'the result of %s (%d)' % (s['k'], s['id'])
        lo = m.last
        panics = isinstance(exp, dict) and ('panic' in exp or 'errpanic' in exp)
        got, seq = m.outcome(s, what, panics or m.faults(lo, INF, set(cls)), tags)
        if got[0] == 'end': m.ended = 127; return 'end'
        v = got[1] if got[0] == 'value' else Err(got[1], b'panic')
        fl = m.faults(lo, seq, set(cls))
        m.check_clean(seq, what)
        if fl:
            if isinstance(v, Err): return 'failed'
            if not matches(exp, v): m.bad(set(tags) | {'P10'}, '%s is %r instead of an error or %r' % (what, short(v), short(exp)), seq)
            return 'fault-ok'
        if not matches(exp, v): m.bad(tags, '%s is %r instead of %r' % (what, short(v), short(exp)), seq)
        return 'ok'

    def do_cd(m, s):
        if '\0' in s['path']: m.simple(s, {'err': 1}, {'P13'}); return
        e, n = m.fs.chdir(s['path'], m.cwd)
        r = m.simple(s, {'err': 1} if e else None, {'P13'}, {'chdir'})
        if not e and r in ('ok', 'fault-ok'): m.cwd = n
    def do_cwd(m, s): m.simple(s, m.cwd.path(), {'P13'}, {'getcwd'})
    def do_export(m, s):
        n, v = s['name'], s['val']
        lo = m.last
        badname = n == '' or '=' in n or '\0' in n or '\0' in v
        m.simple(s, {'errpanic': 1} if badname else None, {'P12'})
        if not badname: m.env[n] = v; m.envs.append((lo, m.last, dict(m.env)))
    def do_env(m, s): m.simple(s, m.env.get(s['name']), {'P12'})
    def do_read(m, s):
        data = m.stdin_data()
        if 'prompt' in s:
            m.expect_out(b8(s['prompt']), {'P15'}, 'the prompt')
        if m.in_unknown: m.simple(s, {'str': 1}, {'P15'}, {'read'}); return
        rest = data[m.in_off:]
        j = rest.find(b'\n')
        line = rest if j < 0 else rest[:j + 1]
        # the prompt and everything else is written before the script waits
        lo = m.last
        got = m.simple(s, line.decode('latin-1'), {'P15'}, {'read'})
        if got == 'failed':
            # what the failing call took is not accounted for: nothing further is said about standard input
            m.in_unknown = True
        else: m.in_off += len(line)
    def stdin_data(m):
        if m.in_data is None:
            sp = m.sc.get('stdin', 'null')
            if sp.startswith('file:'):
                m.in_data = b8(next((e[2] for e in m.sc.get('fs', []) if e[1] == sp[5:]), ''))
            elif sp.startswith('pipe:'):
                m.in_data = m.h.objs.get(m.stdio.get(0), b'')
            else: m.in_data = b''
        return m.in_data
    def do_sleep(m, s):
        ms = s['ms']; lo = m.last
        ev0 = m.time_at(lo)
        r = m.simple(s, {'panic': 1} if ms < 0 else None, {'P19'})
        if r != 'ok': return
        t0 = m.time_after(lo); t1 = m.time_at(m.last)
        if ms >= 0:
            if t1 - ev0 < ms * 1000000: m.bad({'P19'}, 'sleeping %d ms took only %.6f ms' % (ms, (t1 - ev0) / 1e6), m.last)
            if not m.sc.get('knobs', {}).get('stall') and t1 - ev0 > ms * 1000000 + m.spec.get('slack', 400) * 1000000: m.bad({'P19'}, 'sleeping %d ms took %.6f ms' % (ms, (t1 - ev0) / 1e6), m.last)
        elif m.h.sleeps and any(lo < x[0] < m.last and x[1] == 'SLEEP' and x[2] and x[2][0] > 0 and x[3] == 'T0' for x in m.h.sleeps):
            m.bad({'P19'}, 'slept although the duration is negative', m.last)
    def time_at(m, seq):
        if not hasattr(m, 'ts'): m.ts = ([e.seq for e in m.h.ev], [e.t for e in m.h.ev])
        i = bisect_right(m.ts[0], seq) - 1
        return m.ts[1][i] if i >= 0 else 0
    time_after = time_at
    def do_glob(m, s):
        toks = []
        for c in s['pat']: toks.append(None if c == '*' else False if c == '?' else c)
        comps = [[]]
        for c in toks:
            if c == '/': comps.append([])
            else: comps[-1].append(c)
        comps = [c for c in comps if c]
        exp = m.fs.glob(comps, m.cwd, s['pat'].startswith('/'))
        m.simple(s, {'err': 1} if m.fs.denied else exp, {'P11', 'P13'}, {'opendir', 'readdir', 'stat'})
    def do_call(m, s):
        m.simple(s, s.get('expect', {'any': 1}), set(s.get('tags', [])), set(s.get('cls', [])))
    def do_import(m, s):
        """an import of a module that runs commands the first time"""
        lo = m.last
        r = m.simple(s, s.get('expect', {'any': 1}), {'P17'}, {'open', 'read', 'realpath', 'stat', 'nofile', 'pipe', 'dup', 'spawn', 'thread', 'wait'})
        for name, argv in s.get('cmds', []):
            p = m.claim(name, lo, INF if r == 'end' else m.last)
            if p is None:
                if r == 'ok': m.bad({'P17'}, 'the command %s of the imported module was not started' % name, m.last)
                continue
            q = Plan(); q.st = {'n': name, 'args': []}; q.name = argv[0]; q.args = argv[1:]; q.env = {}
            m.check_proc(p, q, {'kind': 'cap'}, lo, 'command %s of the imported module' % name, lo)
    def do_imp(m, s):
        cls = {'open', 'read', 'realpath', 'stat', 'nofile', 'getcwd'}
        if m.scriptdir is None: m.scriptdir = m.fs.resolve(m.sc.get('cwd', '/w'), m.fs.root)[1]
        loc = [s['a'], s['b']]
        what = 'import %r (%d)' % (short(s['path']), s['id'])
        for _ in range(s.get('loop', 1)):
            lo = m.last
            try:
                v = m.load(s['path'], m.scriptdir, cls)
                if 'via' in s: v = m.load_via(v, s['via'], cls)
            except ModPanic as e: v = None
            if v is None and not s.get('catch'):
                if m.h.how == 'EXIT' and m.h.code == 127 and m.cur == len(m.out): m.ended = 127; return
                m.fatal({'P17'}, '%s did not panic: %s, output %r' % (what, m.h.describe_end(), short(m.out[m.cur:])))
            loc[0] += 1
            if v is not None and 'n' in v: v['n'] += 1
            got, seq = m.report(s['id'], what, {'P17'})
            exp = [{'panic': 1} if v is None else v['val'] if 'n' not in v else [v['name'], v['n']], loc, s['a'], s['b']]
            if not matches(exp, got): m.bad({'P17', 'P18'} if v is None and matches(exp[0], got[0] if isinstance(got, list) and got else None) else {'P17'}, '%s gave %r instead of %r' % (what, short(got), exp), seq)
            m.check_clean(seq, what)
    def load_via(m, h, path, cls):
        """an import by a function that module h exports: relative to h's own file"""
        if 'n' not in h: raise ModPanic()
        return m.load(path, h['dir'], cls)
    def load(m, path, d, cls):
        if '\0' in path: raise ModPanic()
        e, node, _, _ = m.fs.resolve(path if path else '.', d)
        if not e and path == '': node = d
        if e or node.t != 'f' or 'r' in node.perm: raise ModPanic()
        if any(f[1] == 'getcwd' for f in m.h.faults) and not path.startswith('/') and not m.peek_load(): raise ModPanic()   # hush never learnt where it was started
        rp = node.path()
        if rp in m.mods and m.mods[rp] is not None:
            if m.faults(m.last, INF, {'realpath', 'getcwd', 'stat'}):
                # the path could not be resolved: the caller learns of it
                nf = m.next_fault(m.last, cls)
                if nf and not m.peek_ok(): raise ModPanic()
            return m.mods[rp]
        if rp in m.loading: raise ModPanic()
        md = m.spec['modtexts'].get(node.data)
        if md is None or md.get('static'): raise ModPanic()
        line = b'L %s\n' % md['name'].encode()
        if m.out[m.cur:m.cur + len(line)] != line and m.next_fault(m.last, cls): raise ModPanic()
        m.loading.append(rp)
        try:
            m.expect_out(line, {'P17'}, 'evaluation of module %s' % rp)
            here = node.parent
            for i, st in enumerate(md.get('steps', [])):
                if st[0] == 'via':
                    try: v = m.load_via(m.load(st[1], here, cls), st[2], cls)
                    except ModPanic: v = None
                    m.expect_out(b'C %s %d %s\n' % (md['name'].encode(), i, b'error' if v is None else v['type'].encode()), {'P17'}, 'import by the function of a module in module %s' % rp)
                elif st[0] == 'imp':
                    try: v = m.load(st[1], here, cls)
                    except ModPanic:
                        if not st[2]: raise
                        v = None
                    m.expect_out(b'%s %s %d %s\n' % (b'C' if st[2] else b'I', md['name'].encode(), i, b'error' if v is None else v['type'].encode()), {'P17'}, 'import in module %s' % rp)
                elif st[0] == 'cmd':
                    lo = m.last
                    m.expect_out(b'D %s %d\n' % (md['name'].encode(), i), {'P17'}, 'command in module %s' % rp)
                    p = m.claim(st[1], lo, m.last)
                    if p is None:
                        if not m.faults(lo, m.last): m.bad({'P17', 'P04'}, 'command %s of module %s was not started' % (st[1], rp), m.last)
                    else:
                        q = Plan(); q.st = {'n': st[1], 'args': []}; q.name = st[1]; q.args = []; q.env = {}
                        m.check_proc(p, q, {'kind': 'sync'}, lo, 'command %s of module %s' % (st[1], rp), lo)
                elif st[0] == 'panicif':
                    if st[1] not in m.env: raise ModPanic()
                elif st[0] == 'panic': raise ModPanic()
                elif st[0] == 'cd':
                    e, n = m.fs.chdir(st[1], m.cwd)
                    if not e and not m.chdir_refused(st[1], m.last, INF): m.cwd = n
                elif st[0] == 'fun': m.expect_out(b'H %d\n' % (st[1] + 1), {'P17'}, 'function of module %s' % rp)
            m.expect_out(b'E %s\n' % md['name'].encode(), {'P17'}, 'end of module %s' % rp)
        finally: m.loading.pop()
        from .gen import MODVALS
        m.mods[rp] = {'name': md['name'], 'n': 0, 'type': 'dict', 'dir': node.parent} if 'val' not in md else {'type': MODVALS[md['val']][1], 'val': MODVALS[md['val']][2]}
        return m.mods[rp]
    def next_fault(m, lo, cls):
        """a failure injected after event lo and before the script's next output"""
        hi = m.seq_at(m.cur) if m.cur < len(m.out) else INF
        return bool(m.faults(lo, hi, cls))
    def peek_ok(m):
        """the next report does not tell of a panic"""
        if m.cur == len(m.out): return not (m.h.how == 'EXIT' and m.h.code == 127)
        t = m.out[m.cur:m.cur + 400]
        return b'caught panic' not in t.split(b'\n@', 1)[0] and not (t.startswith(b'C ') and t.split(b'\n', 1)[0].endswith(b' error'))
    def peek_load(m):
        """the next output tells of a module that is being evaluated, or of a successful import"""
        t = m.out[m.cur:m.cur + 400]
        return t.startswith(b'L ') or m.peek_ok()
    def do_exit(m, s):
        c = s['code']
        m.ended = c if 0 <= c <= 255 else 127
        m.spec.setdefault('exit127', 0)
        if 0 <= c <= 255: m.spec['exit127'] = 1
    def do_cexit(m, s): m.simple(dict(s, catch=1), {'panic': 1}, {'P16'})
    def do_panic(m, s): m.ended = 127
    def do_raw(m, s):
        for r in s.get('reps', []):
            if r[0] == 'cmd':
                lo = m.last
                p = m.claim(r[1], lo, INF)
                if p is None: m.fatal(set(s.get('tags', [])) | {'P04'}, 'command %s was not started' % r[1])
                continue
            if r[0] == 'out': m.expect_out(b8(r[1]), {'P14'} | set(s.get('tags', [])), 'printed text'); continue
            v, seq = m.report(r[0], 'report %d' % r[0], set(s.get('tags', [])))
            m.check_clean(seq, 'report %d' % r[0])
            if not matches(r[1], v): m.bad(set(s.get('tags', ['P18'])), 'report %d is %r instead of %r' % (r[0], short(v), r[1]), seq)
        if s.get('ends') is not None:
            m.ended = s['ends']
            if m.ended != 127: m.spec['exit127'] = 1
    def do_loop(m, s):
        for _ in range(s['n']):
            m.stmts(s['body'])
            if m.ended is not None: return

def _walk(ss):
    for s in ss:
        yield s
        if 'body' in s: yield from _walk(s['body'])

def judge(spec, sc, h):
    m = Model(spec, sc, h)
    v = m.run()
    return m, v
