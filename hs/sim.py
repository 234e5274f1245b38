"""Driver for the simulator: scenarios in, histories out."""
import os, select, struct, subprocess, signal, time
from .build import HUSH, SIM

def _b(x):
    if isinstance(x, bytes): return x
    return str(x).encode('utf-8', 'surrogateescape')

class Packer:
    def __init__(self): self.p = []
    def s(self, x):
        x = _b(x); self.p.append(struct.pack('<I', len(x))); self.p.append(x)
    def blob(self): return b''.join(self.p)

# A scenario is a plain JSON-able dict; byte strings are latin-1 encoded str throughout, so that a
# replay file is exact. See pack() for the fields.
def L(x):
    return x if isinstance(x, str) else x.decode('latin-1')
def U(s):
    """scenario text (latin-1 str) -> bytes"""
    return s.encode('latin-1')

DEFAULT_KNOBS = {}

def pack(sc, record=False, trace=False):
    q = Packer()
    q.s(sc.get('seed', 1)); q.s(sc.get('entropy', sc.get('seed', 1)))
    kn = dict(sc.get('knobs', {}))
    if record: kn['record'] = 1
    if trace: kn['trace'] = 1
    ch = sc.get('choices')
    if ch is not None: kn['replay'] = 1
    q.s(len(kn))
    for k, v in sorted(kn.items()): q.s(k); q.s(v)
    ch = ch or []
    q.s(len(ch))
    for i, v in ch: q.s(i); q.s(v)
    av = sc.get('argv', ['hush', '/w/main.hsh'])
    q.s(len(av)); [q.s(U(a)) for a in av]
    env = sc.get('env', ['PATH=/bin', 'HOME=/home/u'])
    q.s(len(env)); [q.s(U(e)) for e in env]
    q.s(U(sc.get('cwd', '/w')))
    fs = list(sc.get('fs', []))
    progs = sc.get('progs', {})
    if 'script' in sc: fs.append(['f', sc.get('script_path', '/w/main.hsh'), sc['script'], ''])
    for name in sorted(progs): fs.append(['x', '/bin/' + name, name, ''])
    q.s(len(fs))
    for e in fs:
        q.s(e[0]); q.s(U(e[1])); q.s(U(e[2] if len(e) > 2 else '')); q.s(e[3] if len(e) > 3 else '')
    ext = list(sc.get('ext', []))
    stdin, stdout, stderr = sc.get('stdin', 'null'), sc.get('stdout', 'pipe:out'), sc.get('stderr', 'pipe:err')
    allprogs = dict(progs)
    if stdout == 'pipe:out' and not any(f[1] == 'out' for e in ext for f in e[1]):
        ext.append(['_sink', [[0, 'out', 'r']]])
    if stderr == 'pipe:err' and not any(f[1] == 'err' for e in ext for f in e[1]):
        ext.append(['_sink', [[0, 'err', 'r']]])
    allprogs['_sink'] = [['drain', 0]]
    allprogs.update(sc.get('xprogs', {}))
    q.s(len(allprogs))
    for name in sorted(allprogs):
        q.s(U(name)); q.s(len(allprogs[name]))
        for op in allprogs[name]:
            q.s(len(op)); [q.s(U(o) if isinstance(o, str) else o) for o in op]
    q.s(stdin); q.s(stdout); q.s(stderr)
    q.s(len(ext))
    for prog, fds in ext:
        q.s(prog); q.s(len(fds))
        for fd, nm, d in fds: q.s(fd); q.s(nm); q.s(d)
    fl = sc.get('faults', [])
    q.s(len(fl))
    for f in fl: # [class, nth, count, errno, pathsubstr]
        q.s(f[0]); q.s(f[1]); q.s(f[2]); q.s(f[3]); q.s(U(f[4]) if len(f) > 4 else '')
    return q.blob()

class Ev:
    __slots__ = ('seq', 't', 'who', 'k', 'a')
    def __init__(s, seq, t, who, k, a): s.seq, s.t, s.who, s.k, s.a = seq, t, who, k, a
    def __repr__(s): return '%d t=%d %s %s %s' % (s.seq, s.t, s.who, s.k, ' '.join(s.a))

def unhex(s): return bytes.fromhex(s[1:])
def unhexlist(s): return [] if s == '-' else [unhex(x) for x in s.split(',')]

class Proc:
    def __init__(p, ev):
        a = ev.a
        p.how = a[0]; p.pid = int(a[1]); p.ppid = int(a[2]); p.prog = unhex(a[3]).decode('latin-1'); p.cwd = unhex(a[4])
        p.sigpipe_dfl = a[5] == '1'; p.fds = parse_fds(a[6]); p.argv = unhexlist(a[7]); p.env = unhexlist(a[8])
        p.seq = ev.seq; p.t = ev.t; p.by = ev.who
        p.exit_seq = None; p.status = None; p.reap_seq = None; p.exit_t = None
        p.writes = []   # (seq, fd, oid, off, len)
        p.reads = []    # (seq, fd, oid, off, len)
        p.eofs = []     # (seq, fd, oid)
        p.marks = []
        p.werr = None

def parse_fds(s):
    r = {}
    if s != '-':
        for x in s.split(','):
            fd, oid, kind = x.split(':'); r[int(fd)] = (int(oid), kind)
    return r

class History:
    def __init__(h, status, raw, truncated):
        h.wait_status = status; h.raw = raw; h.truncated = truncated
        h.ev = []; h.objs = {}; h.aud = {}; h.files = {}; h.calls = {}; h.callp = []; h.soft = {}; h.choices = []; h.ended = False
        h.procs = {}; h.order = []; h.hush = None; h.stdio = {}; h.faults = []; h.left = []; h.execend = None; h.stuck = []
        h.hsnap = []; h.steps = 0; h.time = 0; h.hash = 0; h.ndec = 0; h.nstates = 0; h.chdirs = []; h.opens = []; h.sleeps = []; h.hw = []; h.kills = []
        i = 0; n = len(raw)
        while i < n:
            j = raw.find(b'\n', i)
            if j < 0: break
            line = raw[i:j]; i = j + 1
            c = line[:1]
            if c.isdigit():
                f = line.decode('ascii').split(' ')
                e = Ev(int(f[0]), int(f[1]), f[2], f[3], f[4:])
                h.ev.append(e); h._ev(e)
            else:
                f = line.decode('ascii').split(' ')
                k = f[0]
                if k == 'OBJ':
                    ln = int(f[3]); h.objs[int(f[1])] = raw[i:i + ln]; i += ln + 1
                    if f[2] == 'f':
                        p = unhex(f[4])
                        if p: h.files[p.decode('latin-1')] = (int(f[1]), h.objs[int(f[1])])
                elif k == 'AUD':
                    ln = int(f[2]); h.aud[int(f[1])] = raw[i:i + ln]; i += ln + 1
                elif k == 'CALLS': h.calls[f[1]] = int(f[2])
                elif k == 'CALLP': h.callp.append((f[1], unhex(f[3]).decode('latin-1'), int(f[2])))
                elif k == 'SOFT': h.soft[f[1]] = int(f[2])
                elif k == 'STATS': h.steps, h.time, h.hash, h.ndec, h.nstates = (int(x) for x in f[1:6])
                elif k == 'CH': h.choices.append([int(f[1]), int(f[2])])
                elif k == 'END': h.ended = True
    def _ev(h, e):
        k, a = e.k, e.a
        if k == 'W':
            rec = (e.seq, int(a[1]), int(a[2]), int(a[3]), int(a[4]), int(a[5]) if len(a) > 5 else -1)
            if a[0][0] == 'P':
                p = h.procs.get(int(a[0][1:]))
                if p: p.writes.append(rec)
            else: h.hw.append(rec + (a[0],))
        elif k == 'R':
            if a[0][0] == 'P':
                p = h.procs.get(int(a[0][1:]))
                if p: p.reads.append((e.seq, int(a[1]), int(a[2]), int(a[3]), int(a[4]), int(a[5]) if len(a) > 5 else -1))
        elif k == 'E':
            if a[0][0] == 'P':
                p = h.procs.get(int(a[0][1:]))
                if p: p.eofs.append((e.seq, int(a[1]), int(a[2])))
        elif k == 'SPAWN':
            p = Proc(e); h.procs[p.pid] = p; h.order.append(p)
        elif k == 'EXIT':
            p = h.procs.get(int(a[0]))
            if p: p.exit_seq = e.seq; p.status = int(a[1]); p.exit_t = e.t
        elif k == 'KILL': h.kills.append((e.seq, int(a[0]), int(a[1])))
        elif k == 'REAP':
            p = h.procs.get(int(a[0]))
            if p: p.reap_seq = e.seq
        elif k == 'MARK':
            p = h.procs.get(int(a[0]))
            if p: p.marks.append((e.seq, unhex(a[1]).decode('latin-1')))
        elif k == 'WERR':
            p = h.procs.get(int(a[0]))
            if p: p.werr = int(a[1])
        elif k == 'H': h.hsnap.append((e.seq, int(a[0]), parse_fds(a[1]), int(a[2]), int(a[3])))
        elif k == 'HUSH':
            if h.hush is None: h.hush = (a[0], int(a[1]), parse_fds(a[2]), int(a[3]), int(a[4]), e.seq, e.t)
            elif a[0] in ('STEPLIMIT', 'DEADLOCK'): h.hush = (a[0], int(a[1]), parse_fds(a[2]), int(a[3]), int(a[4]), e.seq, e.t)
        elif k == 'STDIO': h.stdio[int(a[0])] = int(a[1])
        elif k == 'FAULT': h.faults.append((e.seq, a[0], int(a[1]), int(a[2]), unhex(a[3]).decode('latin-1')))
        elif k == 'LEFT': h.left.append(int(a[0]))
        elif k == 'STUCK': h.stuck.append(' '.join(a))
        elif k == 'EXECEND': h.execend = int(a[0])
        elif k == 'CHDIR': h.chdirs.append((e.seq, unhex(a[0]), unhex(a[1])))
        elif k == 'OPEN': h.opens.append((e.seq, unhex(a[0]), int(a[1]), int(a[2])))
        elif k in ('SLEEP', 'WAKE'): h.sleeps.append((e.seq, k, [int(x) for x in a], e.who))
    # --- convenience
    def children(h): return [p for p in h.order if p.how in ('spawn', 'fork')]
    def out(h): return h.objs.get(h.stdio.get(1), b'')
    def err(h): return h.objs.get(h.stdio.get(2), b'')
    @property
    def how(h):
        if not h.ended:
            return 'CRASH'
        return h.hush[0]
    @property
    def code(h): return h.hush[1] if h.hush else None
    def exit_code(h):
        """the exit status a parent of hush would see, or None if it did not exit normally"""
        if h.how == 'EXIT': return h.hush[1]
        if h.how == 'EXEC' and h.execend is not None and h.execend >= 0 and h.execend & 127 == 0: return h.execend >> 8
        return None
    def data(h, rec):
        """the bytes of one transfer"""
        if rec[5] >= 0: return h.aud[rec[2]][rec[5]:rec[5] + rec[4]]
        return h.objs[rec[2]][rec[3]:rec[3] + rec[4]]
    def written(h, p, fd=None):
        """bytes process p wrote (to descriptor fd), in order"""
        return b''.join(h.data(r) for r in p.writes if fd is None or r[1] == fd)
    def got(h, p, fd=None):
        return b''.join(h.data(r) for r in p.reads if fd is None or r[1] == fd)
    def hush_recs(h, fd):
        oid = h.stdio.get(fd)
        return [r for r in h.hw if r[1] == fd and r[2] == oid]
    def hush_wrote(h, fd):
        return b''.join(h.data(r) for r in h.hush_recs(fd))
    def describe_end(h):
        if not h.ended: return 'hush crashed (wait status 0x%x)' % h.wait_status
        how = h.how
        if how == 'EXIT': return 'hush exited with status %d' % h.code
        if how == 'DEADLOCK': return 'deadlock: nothing can run (%s)' % '; '.join(h.stuck[:6])
        if how == 'STEPLIMIT': return 'no progress within the step bound (%s)' % '; '.join(h.stuck[:6])
        return 'hush ended: %s %d' % (how, h.code)

WALL_LIMIT = 60

class SimDied(Exception): pass

class Server:
    def __init__(s, hush=None, sim=None):
        s.hush, s.sim = hush or HUSH, sim or SIM
        s.proc = None; s.runs = 0
    def start(s):
        rq_r, rq_w = os.pipe(); rs_r, rs_w = os.pipe()
        def setup():
            # move out of the way first, then to 3 and 4
            a = os.dup(rq_r); b = os.dup(rs_w)
            import fcntl
            a2 = fcntl.fcntl(a, fcntl.F_DUPFD, 50); b2 = fcntl.fcntl(b, fcntl.F_DUPFD, 50)
            os.dup2(a2, 3); os.dup2(b2, 4); os.set_inheritable(3, True); os.set_inheritable(4, True)
        env = {'LD_PRELOAD': s.sim, 'HUSHSIM': '1', 'PATH': '/bin'}
        s.proc = subprocess.Popen(['setarch', '-R', s.hush] if False else [s.hush], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL if not os.environ.get('HUSHSIM_STDERR') else None, close_fds=False, preexec_fn=setup, start_new_session=True, cwd='/')
        os.close(rq_r); os.close(rs_w)
        s.w, s.r = rq_w, rs_r
    def stop(s):
        if s.proc:
            os.close(s.w); os.close(s.r)
            try: s.proc.wait(2)
            except Exception: s.proc.kill(); s.proc.wait()
            s.proc = None
    def kill(s):
        if s.proc:
            try: os.killpg(s.proc.pid, signal.SIGKILL)
            except OSError: pass
            s.proc.wait(); os.close(s.w); os.close(s.r); s.proc = None
    def _rd(s, n, deadline):
        out = bytearray()
        while len(out) < n:
            if not select.select([s.r], [], [], max(0.0, deadline - time.monotonic()))[0]: raise SimDied('no answer')
            c = os.read(s.r, min(1 << 20, n - len(out)))
            if not c: raise SimDied('simulator server died')
            out += c
        return bytes(out)
    def run(s, sc, record=False, trace=False):
        if s.proc is None: s.start()
        b = pack(sc, record, trace)
        data = struct.pack('<I', len(b)) + b
        mv = memoryview(data)
        while mv:
            n = os.write(s.w, mv); mv = mv[n:]
        deadline = time.monotonic() + WALL_LIMIT
        try:
            st, ln, tr = struct.unpack('<QQQ', s._rd(24, deadline))
            raw = s._rd(ln, deadline)
        except SimDied:
            # neither exited nor used up its processor time: blocked outside the simulator's control
            s.kill()
            return History(9, b'', 0)
        s.runs += 1
        return History(st, raw, tr)
