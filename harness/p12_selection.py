"""Selecting compilation-database entries by path."""


class FakePath:
    def __init__(self, real, missing):
        self._real, self._missing = real, missing

    def __getattr__(self, n):
        return getattr(self._real, n)

    def realpath(self, p, **k):
        # no symbolic links; the working directory is /w
        if p[:1] != '/':
            p = '/w/' + p
        return self._real.normpath(p)

    def abspath(self, p):
        return self.realpath(p)

    def exists(self, p):
        for m in self._missing:
            if m == p:
                return False
        return True


class FakeOs:
    def __init__(self, real, missing):
        self._real = real
        self.path = FakePath(real.path, missing)
        self.sep = '/'

    def __getattr__(self, n):
        return getattr(self._real, n)


def with_os(M, missing, f):
    t = M.iwyu_tool
    real = t.os
    t.os = FakeOs(real, missing)
    try:
        return f(t)
    finally:
        t.os = real


def comps(p):
    r = []
    for c in p.split('/'):
        if c == '' or c == '.':
            continue
        if c == '..':
            if r:
                r.pop()
        else:
            r.append(c)
    return r


def below(f, p):
    """f equals p or lies below it, by components."""
    a, b = comps(f), comps(p)
    if len(b) > len(a):
        return False
    for i in range(len(b)):
        if not (a[i] == b[i]):
            return False
    return True


def h_subpath(vp, M):
    """On canonical paths (as produced by realpath)."""
    path = '/' + vp.str('path', 0, vp.param('N', 4), 'ab/.')
    parent = '/' + vp.str('parent', 0, vp.param('N', 4), 'ab/.')
    for p in (path, parent):
        vp.assume(vp.Not('//' in p))
        vp.assume(len(p) == 1 or vp.Not(p[-1] == '/'))
        for c in p.split('/'):
            vp.assume(vp.Not(vp.Or(c == '.', c == '..')))
    got = bool(M.iwyu_tool.is_subpath_of(path, parent))
    vp.out('got', got)
    vp.check(got == below(path, parent), 'a path is below another exactly when all components of the other lead it')
    if got and len(parent) > 1 and len(path) > len(parent):
        vp.cover('below')
    if not got and path.startswith(parent):
        vp.cover('sibling')


def entry_path(vp, i):
    """Spelling of an entry's file, and its resolved form."""
    k = vp.choose('form%d' % i, 4)
    n = vp.str('name%d' % i, 1, vp.param('L', 2), 'ab')
    if k == 0:
        return '/s/' + n, '/s/' + n
    if k == 1:
        return n, '/d%d/' % i + n
    if k == 2:
        return '../s/' + n + '/x', '/s/' + n + '/x'
    return '/s/./' + n + 'a/../' + n, '/s/' + n


def h_fixup(vp, M):
    n = vp.choose('n', [1, 2])
    forms = [entry_path(vp, i) for i in range(n)]
    db = [{'file': f, 'directory': '/d%d' % i, 'arguments': ['g++', 'x%d' % i]} for i, (f, r) in enumerate(forms)]
    nodir = vp.choose('nodir', 2)
    if nodir:
        del db[0]['directory']
    want = [r for f, r in forms]
    if nodir and forms[0][0][:1] != '/':
        want[0] = '/' + '/'.join(comps('/w/' + forms[0][0]))
    got = with_os(M, [], lambda t: t.fixup_compilation_db(db))
    vp.check(len(got) == n, 'no entry is lost')
    for i in range(n):
        vp.check(vp.eq(got[i]['file'], want[i]), 'a relative file is resolved against its own entry\'s directory')
        vp.check(got[i]['arguments'] == ['g++', 'x%d' % i], 'the rest of the entry is kept, in order')
    vp.cover('fixup')


def h_slice(vp, M):
    n = vp.choose('n', list(range(1, vp.param('E', 2) + 1)))
    files = []
    for i in range(n):
        base = vp.choose('base%d' % i, ['/s/', '/s/a/', '/'])
        files.append(base + vp.str('f%d' % i, 1, 2, 'ab'))
    db = [{'file': f, 'directory': '/d', 'id': i} for i, f in enumerate(files)]
    m = vp.choose('nsel', [0, 1, 2])
    sel, real, missing = [], [], []
    for j in range(m):
        form = vp.choose('sform%d' % j, ['/s/', '/s', '../s/', '/s/a/', '/', 'rel'])
        s = form if form in ('/s', '/') else (form + vp.str('s%d' % j, 1, 1 if j else 2, 'ab'))
        sel.append(s)
        r = '/' + '/'.join(comps(s if s[:1] == '/' else '/w/' + s))
        real.append(r)
        if vp.choose('missing%d' % j, 2):
            missing.append(r)
    got = with_os(M, missing, lambda t: t.slice_compilation_db(list(db), list(sel)))
    ids = [e['id'] for e in got]
    vp.out('ids', ids)
    if m == 0:
        vp.check(ids == list(range(n)), 'without a selection every entry is used')
        vp.cover('all')
        return
    want = []
    for r in real:
        ex = True
        for x in missing:
            if x == r:
                ex = False
        hit = [i for i in range(n) if below(files[i], r)] if ex else []
        if not hit:
            vp.check(r in vp.stderr(), 'a requested path that selects nothing is reported')
            vp.cover('warned')
        for h in hit:
            if h not in want:
                want.append(h)
    for h in ids:
        vp.check(h in want, 'every used entry lies below a requested path')
    for h in want:
        vp.check(h in ids, 'every entry below a requested path is used')
    if m == 1:
        vp.check(ids == want, 'the entries keep the database order')
    if len(want) == 1 and n > 1:
        vp.cover('some')
