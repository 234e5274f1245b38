"""The reference model's view of the file tree."""

class Node:
    __slots__ = ('t', 'kids', 'parent', 'name', 'data', 'perm', 'prog')
    def __init__(n, t, parent, name, data='', perm=''):
        n.t, n.parent, n.name, n.data, n.perm = t, parent, name, data, perm
        n.kids = {}; n.prog = None
    def path(n):
        if n.parent is None: return '/'
        p = n.parent.path()
        return (p if p != '/' else '') + '/' + n.name

class VFS:
    def __init__(v):
        v.root = Node('d', None, '')
        v.mk('/dev/null', 'n'); v.mk('/dev/full', 'F')
    def mk(v, path, t, data='', perm=''):
        cur = v.root
        parts = [p for p in path.split('/') if p]
        for i, p in enumerate(parts):
            last = i + 1 == len(parts)
            if p not in cur.kids:
                cur.kids[p] = Node(t if last else 'd', cur, p)
            cur = cur.kids[p]
        if t == 'x': cur.t = 'f'; cur.prog = data
        else: cur.data = data
        cur.perm = perm
        return cur
    @staticmethod
    def of(sc):
        v = VFS()
        for e in sc.get('fs', []):
            v.mk(e[1], e[0], e[2] if len(e) > 2 else '', e[3] if len(e) > 3 else '')
        if 'script' in sc: v.mk(sc.get('script_path', '/w/main.hsh'), 'f', sc['script'])
        for n in sc.get('progs', {}): v.mk('/bin/' + n, 'x', n)
        v.mk(sc.get('cwd', '/w'), 'd')
        return v
    def resolve(v, path, cwd, follow=True, create=False, depth=0):
        """-> (error, node, parent directory, last name); node is None when it could be created"""
        if not path: return 'ENOENT', None, None, None
        if len(path) > 4095: return 'ENAMETOOLONG', None, None, None
        if depth > 40: return 'ELOOP', None, None, None
        cur = v.root if path[0] == '/' else cwd
        trailing = len(path) > 1 and path[-1] == '/'
        parts = [p for p in path.split('/') if p]
        if not parts: return None, cur, cur, '.'
        for k, p in enumerate(parts):
            last = k + 1 == len(parts)
            if cur.t != 'd': return 'ENOTDIR', None, None, None
            if 'x' in cur.perm: return 'EACCES', None, None, None
            if len(p) > 255: return 'ENAMETOOLONG', None, None, None
            nx = cur if p == '.' else (cur.parent or cur) if p == '..' else cur.kids.get(p)
            if nx is None:
                if last and create: return None, None, cur, p
                return 'ENOENT', None, None, None
            if nx.t == 'l' and (not last or follow or trailing):
                rest = '/'.join([nx.data] + parts[k + 1:]) + ('/' if last and trailing else '')
                return v.resolve(rest, cur, follow, create, depth + 1)
            if last:
                if trailing and nx.t not in 'dl': return 'ENOTDIR', None, None, None
                return None, nx, cur, p
            cur = nx
        return 'ENOENT', None, None, None
    def open_write(v, path, cwd):
        """open for writing, creating -> (error, node)"""
        e, n, d, b = v.resolve(path, cwd, True, True)
        if e: return e, None
        if n is None:
            if 'w' in d.perm: return 'EACCES', None
            if path.endswith('/'): return 'EISDIR', None
            n = Node('f', d, b); d.kids[b] = n
            return None, n
        if n.t == 'd': return 'EISDIR', None
        if 'w' in n.perm: return 'EACCES', None
        return None, n
    def open_read(v, path, cwd):
        e, n, _, _ = v.resolve(path, cwd)
        if e: return e, None
        if 'r' in n.perm: return 'EACCES', None
        return None, n
    def chdir(v, path, cwd):
        e, n, _, _ = v.resolve(path, cwd)
        if e: return e, None
        if n.t != 'd': return 'ENOTDIR', None
        if 'x' in n.perm: return 'EACCES', None
        return None, n
    def remove(v, path, cwd):
        e, n, d, b = v.resolve(path, cwd, False)
        if not e and n is not v.root: d.kids.pop(b, None)
    def glob(v, comps, cwd, absolute):
        """comps: list of components, each a list of tokens: a byte (str of length 1), '*' as None, '%' as False"""
        out = []; v.denied = False
        def walk(node, prefix, i):
            if i == len(comps): out.append(prefix); return
            toks = comps[i]; last = i + 1 == len(comps)
            if all(isinstance(t, str) for t in toks):
                name = ''.join(toks)
                e, n, _, _ = v.resolve(name, node, True)
                if e or (not last and n.t != 'd'): return
                walk(n, prefix + [name], i + 1); return
            if 'r' in node.perm: v.denied = True; return
            for name in sorted(node.kids):
                if not match(toks, name): continue
                e, n, _, _ = v.resolve(name, node, True)
                if not last and (e or n.t != 'd'): continue
                walk(n, prefix + [name], i + 1)
        walk(v.root if absolute else cwd, [], 0)
        return ['/' + '/'.join(p) if absolute else '/'.join(p) for p in out]

def match(toks, name):
    if not toks: return name == ''
    t = toks[0]
    if t is None:
        return any(match(toks[1:], name[i:]) for i in range(len(name) + 1))
    if not name: return False
    if t is False:   # one character, of as many bytes as it has
        k = 1
        while k < len(name) and name[0] >= '\xc0' and '\x80' <= name[k] < '\xc0': k += 1
        return match(toks[1:], name[k:])
    if t == name[0]: return match(toks[1:], name[1:])
    return False
