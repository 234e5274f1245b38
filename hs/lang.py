"""Rendering of specs (JSON-able dicts) to hush source, and the value codec of the reports.

All text in a spec is latin-1 str, one character per byte.
"""
import zlib

PRELUDE = '''function show(v)
let t = std.type(v)
if t == "nil" then return "n" end
if t == "string" then return "s" ++ std.to_string(std.len(v)) ++ ":" ++ v end
if t == "int" then return "i" ++ std.to_string(v) ++ ";" end
if t == "bool" then if v then return "T" else return "F" end end
if t == "float" then return "g" ++ std.to_string(v) ++ ";" end
if t == "byte" then return "b" ++ std.to_string(v) ++ ";" end
if t == "error" then return "e" ++ show(v.description) ++ show(v.context) end
if t == "array" then
let s = "a" ++ std.to_string(std.len(v)) ++ ":"
for x in std.iter(v) do s = s ++ show(x) end
return s
end
if t == "dict" then
let s = "d" ++ std.to_string(std.len(v)) ++ ":"
for p in std.iter(v) do s = s ++ show(p.key) ++ show(p.value) end
return s
end
return "x"
end
function rep(id, v)
std.println("@" ++ std.to_string(id) ++ " " ++ show(v))
end
'''

class Err:
    def __init__(e, d, c): e.desc, e.ctx = d, c
    def __repr__(e): return 'error(%r, %r)' % (short(e.desc), short(e.ctx))
    def __eq__(e, o): return isinstance(o, Err) and (e.desc, e.ctx) == (o.desc, o.ctx)
class Fun:
    def __repr__(e): return 'function'
class Flt(str): pass
class Byte(int): pass

def short(x, n=80):
    if isinstance(x, (bytes, str)) and len(x) > n: return type(x)(x[:n // 2]) + (b'..' if isinstance(x, bytes) else '..') + type(x)(x[-n // 4:]) + (('[%d bytes]' % len(x)).encode() if isinstance(x, bytes) else '[%d]' % len(x))
    if isinstance(x, dict): return {k: short(v, n) for k, v in list(x.items())[:8]}
    if isinstance(x, list): return [short(v, n) for v in x[:8]]
    return x

class BadReport(Exception): pass

def decode(b, i):
    """decode the value at offset i; returns (value, next offset)"""
    try:
        c = b[i:i + 1]; i += 1
        if c == b'n': return None, i
        if c == b'T': return True, i
        if c == b'F': return False, i
        if c == b'x': return Fun(), i
        if c in b'ibg' and c:
            j = b.index(b';', i); s = b[i:j]
            if c == b'i': return int(s), j + 1
            return (Flt if c == b'g' else str)(s.decode('latin-1')), j + 1
        if c == b's':
            j = b.index(b':', i); n = int(b[i:j]); j += 1
            if j + n > len(b): raise BadReport('string cut short')
            return b[j:j + n], j + n
        if c == b'e':
            d, i = decode(b, i); x, i = decode(b, i)
            return Err(d, x), i
        if c == b'a':
            j = b.index(b':', i); n = int(b[i:j]); i = j + 1; r = []
            for _ in range(n): v, i = decode(b, i); r.append(v)
            return r, i
        if c == b'd':
            j = b.index(b':', i); n = int(b[i:j]); i = j + 1; r = {}
            for _ in range(n):
                k, i = decode(b, i); v, i = decode(b, i)
                r[k if isinstance(k, (bytes, int, str, bool, type(None))) else repr(k)] = v
            return r, i
    except ValueError:
        raise BadReport('malformed value')
    raise BadReport('malformed value at %d: %r' % (i, b[i - 1:i + 30]))

class Out:
    """source text under construction, with positions"""
    def __init__(o): o.p = []; o.line = 1; o.col = 0
    def w(o, s):
        o.p.append(s)
        n = s.count('\n')
        if n: o.line += n; o.col = len(s) - s.rindex('\n') - 1
        else: o.col += len(s)
    def pos(o): return [o.line, o.col]
    def text(o): return ''.join(o.p)

def hstr(s):
    """a hush string literal denoting the bytes of s"""
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\0', '\\0').replace('\n', '\\n') + '"'

def hval(v):
    """a hush expression for a JSON value ({'f': '1.5'} is a float, {'b': 'x'} a byte)"""
    if v is None: return 'nil'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, int): return str(v) if v >= 0 else '(0 - %d)' % -v
    if isinstance(v, str): return hstr(v)
    if isinstance(v, list): return '[' + ', '.join(hval(x) for x in v) + ']'
    if isinstance(v, dict) and 'f' in v: return v['f']
    if isinstance(v, dict) and 'b' in v: return "'%s'" % {10: '\\n', 39: "\\'", 92: '\\\\'}.get(v['b'], chr(v['b']))
    raise ValueError(v)

def vbytes(v):
    """the bytes a value has as (part of) an argument"""
    if v is None: return ''
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v
    if isinstance(v, dict) and 'f' in v: return v.get('o', v['f'])
    if isinstance(v, dict) and 'b' in v: return chr(v['b'])
    raise ValueError(v)

SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./,:+@^-!&()')
UESC = {'#': '\\#', "'": "\\'", '"': '\\"', '>': '\\>', '<': '\\<', '?': '\\?', ';': '\\;', '$': '\\$', '=': '\\=', ' ': '\\ ', '\t': '\\t', '\n': '\\n', '\0': '\\0', '\\': '\\\\'}

def lit(s, style):
    if style == 'u':
        if s and all(c in SAFE or c in UESC or c == '~' or ord(c) >= 128 for c in s) and not s.isdigit() and (s[0] != '~' or s[1:2] not in ('', '/')):
            return ''.join(c if c in SAFE or c == '~' or ord(c) >= 128 else UESC[c] for c in s)
        style = 'd'
    if style == 's':
        return "'" + s.replace('\\', '\\\\').replace("'", "\\'").replace('\0', '\\0').replace('\n', '\\n') + "'"
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('$', '\\$').replace('\0', '\\0').replace('\n', '\\n') + '"'

# A word is a list of parts: ['l', text, style] ['v', name, style(u|d)] ['star'] ['pct'] ['home']
# The same word can be spelled in several ways ($v or ${v}, quotes side by side or as one, escaped or raw white space):
# which one is taken is a function of the parts.
WORDCH = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
def word(parts):
    h = zlib.crc32(repr(parts).encode('latin-1', 'replace'))
    def bit():
        nonlocal h
        h = (h * 1103515245 + 12345) & 0xffffffff
        return h >> 16 & 1
    toks = []   # raw text, ('"', [units]) or ('$', name)
    for p in parts:
        k = p[0]
        if k == 'l':
            t = lit(p[1], p[2])
            if '\\\\' not in t:   # (no escaped backslash)
                if bit(): t = t.replace('\\n', '\n' if t[0] in '"\'' else '\\\n')
                if bit(): t = t.replace('\t', '\\t') if t[0] in '"\'' else t.replace('\\t', '\\\t')
            if t[0] == '"': q = [t[1:-1]]
            else: toks.append(t); continue
        elif k == 'v':
            if p[2] != 'd': toks.append(('$', p[1])); continue
            q = [('$', p[1])]
        else: toks.append({'star': '*', 'pct': '%', 'home': '~/'}[k]); continue
        if toks and isinstance(toks[-1], list) and bit(): toks[-1] += q
        else: toks.append(q)
    def units(us, after):
        r = ''
        for u in reversed(us):
            if isinstance(u, tuple):
                nxt = (r or after)[:1]
                r = ('$' + u[1] if bit() and nxt not in WORDCH else '${%s}' % u[1]) + r
            else: r = u + r
        return r
    r = ''
    for t in reversed(toks):
        if isinstance(t, list): r = '"' + units(t, '"') + '"' + r
        else: r = units([t], r or ' ') + r
    return r

def W(s, style='d'): return [['l', s, style]]

GAPS = [' '] * 40 + ['  ', '\t', '\n', '\n\n\t', ' # note; | } > x\n', '\r\n']
def stage(o, st, sp):
    """render one command; st gets its position"""
    h = zlib.crc32(repr((st.get('n'), st.get('args'), st.get('redir'))).encode('latin-1', 'replace'))
    def pick(n):
        nonlocal h
        h = (h * 1103515245 + 12345) & 0xffffffff
        return (h >> 8) % n
    def gap(): o.w(GAPS[pick(len(GAPS))])
    def arg(a, last):
        gap()
        if len(a) == 1 and a[0][0] == 'l' and a[0][2] == 'u' and a[0][1].isdigit() and not (last and st.get('redir')): o.w(a[0][1]); return
        w = word(a)
        if '\\\\' not in w and pick(2): w = w.replace('\\=', '=')
        o.w(w)
    for k, w in st.get('env', []): o.w('%s=%s' % (k if isinstance(k, str) else word([k]), word(w))); gap()
    st['pos'] = o.pos()
    args = st.get('args', [])
    if st.get('builtin'): o.w(st['builtin'])
    else: o.w(word(st['prog']) if 'prog' in st else st['n'])
    for i, a in enumerate(args): arg(a, i == len(args) - 1)
    for r in ([] if st.get('builtin') else st.get('redir', [])):
        gap()
        if r[0] == 'out':
            _, fd, how, t = r
            o.w('' if fd == 1 and not st.get('fd1') else str(fd))
            if how == 'fd': o.w('>' + ('' if pick(2) else ' ') + str(t))
            else:
                w = word(t)
                o.w('>' if how == 'file' else '>>')
                if pick(2) or not w or w[0].isdigit(): gap()
                o.w(w)
        else:
            o.w('<' if r[0] == 'in' else '<<')
            if pick(2): gap()
            o.w(word(r[1]))
    if st.get('try'):
        if pick(4): gap()
        o.w('?')

def block(o, b):
    o.w({'sync': '{', 'cap': '${', 'async': '&{'}[b['kind']])
    h = zlib.crc32(repr((b.get('id'), [st.get('n') for pl in b['pls'] for st in pl])).encode('latin-1', 'replace'))
    tight = h % 7 == 0   # {a|b;c}
    nl = '\n' if b.get('nl', 1) and not tight else '' if tight else ' '
    o.w(nl)
    for i, pl in enumerate(b['pls']):
        if i: o.w((' ' if h >> 8 & 1 else '') + ';' + nl)
        for j, st in enumerate(pl):
            if j: o.w(' |' if tight else ' |' + ('\n' if st.get('nl') else ' '))
            stage(o, st, b)
    if b.get('semi'): o.w(';')
    o.w(nl + '}')

def stmts(o, ss):
    for s in ss: stmt(o, s)

def catching(o, s, body):
    """r<id> = value of the expression rendered by body(), under std.catch if s['catch']"""
    i = s['id']
    if s.get('catch'):
        o.w('let r%d = std.catch(function ()\nreturn ' % i); body(); o.w('\nend)\n')
    else:
        o.w('let r%d = ' % i); body(); o.w('\n')
    if not s.get('quiet'): o.w('rep(%d, r%d)\n' % (i, i))

def call(o, s, f, *args):
    catching(o, s, lambda: o.w('std.%s(%s)' % (f, ', '.join(args))))

def stmt(o, s):
    k = s['k']; i = s.get('id')
    if k == 'block': catching(o, s, lambda: block(o, s))
    elif k == 'async':
        o.w('let h%d = ' % i)
        if s.get('catch'):
            o.w('std.catch(function ()\nreturn '); block(o, s); o.w('\nend)\n')
            o.w('rep(%d, std.type(h%d) == "error")\n' % (i, i))
        else:
            block(o, s); o.w('\nrep(%d, 0)\n' % i)
    elif k == 'join': catching(o, s, lambda: o.w('h%d.join()' % s['of']))
    elif k == 'set': o.w('%s = %s\n' % (s['var'], hval(s['val'])))
    elif k == 'rep': o.w('rep(%d, %s)\n' % (i, s['expr']))
    elif k == 'print': o.w('std.print(%s)\n' % ', '.join(hval(v) for v in s['vals']))
    elif k == 'println': o.w('std.println(%s)\n' % ', '.join(hval(v) for v in s['vals']))
    elif k == 'cprint': # print under catch, reporting on the outcome
        o.w('let r%d = std.catch(function ()\nreturn std.%s(%s)\nend)\n' % (i, s['f'], ', '.join(hval(v) for v in s['vals'])))
    elif k == 'cd': call(o, s, 'cd', hval(s['path']))
    elif k == 'cwd': call(o, s, 'cwd')
    elif k == 'export': call(o, s, 'export', hval(s['name']), hval(s['val']))
    elif k == 'env': call(o, s, 'env', hval(s['name']))
    elif k == 'read': call(o, s, 'read', *([hval(s['prompt'])] if 'prompt' in s else []))
    elif k == 'sleep': call(o, s, 'sleep', hval(s['ms']))
    elif k == 'glob': call(o, s, 'glob', hval(s['pat']))
    elif k == 'call': call(o, s, s['f'], *[hval(v) for v in s['args']])
    elif k == 'import': call(o, s, 'import', hval(s['path']))
    elif k == 'imp':
        via = '.imp(%s)' % hval(s['via']) if 'via' in s else ''
        o.w('function fi%d(a, b)\nlet loc = [a, b]\n' % i)
        if s.get('loop'): o.w('for lv%d in std.range(0, %d, 1) do\n' % (i, s['loop']))
        if s.get('catch'): o.w('let c = std.catch(function ()\nreturn std.import(%s)%s\nend)\n' % (hval(s['path']), via))
        else: o.w('let c = std.import(%s)%s\n' % (hval(s['path']), via))
        o.w('if std.type(c) == "dict" then\nc.n = c.n + 1\nc = [c.name, c.n]\nend\nloc[0] = loc[0] + 1\nrep(%d, [c, loc, a, b])\n' % i)
        if s.get('loop'): o.w('end\n')
        o.w('end\nfi%d(%d, %d)\n' % (i, s['a'], s['b']))
    elif k == 'exit': o.w('std.exit(%s)\n' % hval(s['code']))
    elif k == 'panic': o.w('std.panic(%s)\n' % hval(s['val']))
    elif k == 'raw': o.w(s['text'])
    elif k == 'loop':
        o.w('for it%d in std.range(0, %d, 1) do\n' % (i, s['n']))
        stmts(o, s['body']); o.w('end\n')
    elif k == 'cexit':
        o.w('let r%d = std.catch(function ()\nreturn std.exit(%s)\nend)\nrep(%d, r%d)\n' % (i, hval(s['code']), i, i))
    else: raise ValueError(k)

def render(spec):
    """spec -> (scenario, spec with positions)"""
    o = Out()
    if not spec.get('noprelude'): o.w(PRELUDE)
    for n, v in spec.get('vars', []): o.w('let %s = %s\n' % (n, hval(v)))
    if not spec.get('noprelude'): o.w('rep(0, 0)\n')
    stmts(o, spec['stmts'])
    if not spec.get('noprelude') and not spec.get('noend'): o.w('rep(999999, 0)\n')
    sc = dict(spec.get('sc', {}))
    progs = dict(sc.get('progs', {}))
    for st in all_stages(spec['stmts']):
        if 'ops' in st and not st.get('missing'): progs[st['n']] = st['ops']
    sc['progs'] = progs
    if not spec.get('rawscript'): sc['script'] = o.text()
    return sc

def all_stages(ss):
    for s in ss:
        if s['k'] in ('block', 'async'):
            for pl in s['pls']: yield from pl
        if 'body' in s: yield from all_stages(s['body'])
