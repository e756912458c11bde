"""Forward declarations and the namespaces around them."""


def read(vp, lines):
    """-> (declarations [(path, name)], code [(path, text)], balanced?, comments)"""
    decls, code, coms = [], [], []
    stack = []
    ok = True
    words = []
    for l in lines:
        i = l.find('//')
        if i >= 0:
            coms.append(l[i:])
            l = l[:i]
        if l[:1] == '#':
            continue
        l = l.replace('{', ' { ').replace('}', ' } ').replace(';', ' ; ')
        words += l.split()
    i = 0
    cur = []
    for w in words:
        if w == 'U_NAMESPACE_BEGIN':
            stack.append('<U>')
        elif w == 'U_NAMESPACE_END':
            ok = ok and len(stack) > 0
            stack = stack[:-1]
        elif w == '{':
            if len(cur) and cur[0] == 'namespace' and len(cur) <= 2:
                stack.append(cur[1] if len(cur) == 2 else '<anon>')
            else:
                ok = False
            cur = []
        elif w == '}':
            ok = ok and len(stack) > 0 and not cur
            stack = stack[:-1]
        elif w == ';':
            path = []
            for s in stack:
                path += s.split('::') if '::' in s else [s]
            item = (path, ' '.join(cur))
            if len(cur) and (cur[0] == 'class' or cur[0] == 'enum' or cur[0] == 'template'):
                decls.append(item)
            else:
                code.append(item)
            cur = []
        else:
            cur.append(w)
    return decls, code, ok and not stack and not cur, coms


def same(a, b):
    return len(a[0]) == len(b[0]) and all(bool(x == y) for x, y in zip(a[0], b[0])) and bool(a[1] == b[1])


def inside(x, xs):
    return any(same(x, y) for y in xs)


def dropped(w):
    """The declaration without anonymous namespaces below named ones, or None."""
    p = w[0]
    q = [x for i, x in enumerate(p) if not (i > 0 and x == '<anon>')]
    return (q, w[1]) if len(q) != len(p) else None


FINDING = 'an anonymous namespace below a named one is dropped when a declaration is spread over lines'


def wrap(path, d, cxx17=False):
    if cxx17 and len(path) > 1 and '' not in path:
        return 'namespace ' + '::'.join(path) + ' { ' + d + ' }'
    for p in reversed(path):
        d = 'namespace ' + (p + ' ' if len(p) else '') + '{ ' + d + ' }'
    return d


def h_ns(vp, M):
    n = vp.param('N', 4)
    opens = vp.param('O', ['std', 'anon', 'two', 'allman', 'mixed'])
    lines, fwd, depth = [], [], []
    for i in range(n):
        ks = vp.param('K', ['ns', 'decl', 'one', '', 'com', 'code']) + (['end'] if depth else [])
        k = vp.choose('k%d' % i, ks)
        if k == 'ns':
            o = vp.choose('o%d' % i, opens)
            a = vp.strn('ns%d' % i, 1, 'ab')
            if o == 'std':
                lines.append('namespace ' + a + ' {')
                depth.append(1)
            elif o == 'com':
                lines.append('namespace ' + a + ' {  // x')
                depth.append(1)
            elif o == 'anon':
                lines.append('namespace {')
                depth.append(1)
            elif o == 'two':
                lines.append('namespace ' + a + ' { namespace b {')
                depth.append(2)
            elif o == 'cxx17':
                lines.append('namespace ' + a + '::b {')
                depth.append(1)
            elif o == 'allman':
                lines += ['namespace ' + a, '{']
                depth.append(1)
            elif o == 'mixed':
                lines += ['namespace ' + a + ' { namespace b', '{']
                depth.append(2)
            elif o == 'macro':
                lines.append('U_NAMESPACE_BEGIN')
                depth.append('U')
            vp.cover(o)
        elif k == 'end':
            d = depth.pop()
            lines.append('U_NAMESPACE_END' if d == 'U' else '}' if d == 1 else vp.choose('e%d' % i, ['} }', '}}  // b, a']))
        elif k == 'decl':
            lines.append('class ' + vp.strn('c%d' % i, 1, 'AB') + ';')
            fwd.append(len(lines))
        elif k == 'tmpl':
            lines += ['template <typename T>', 'class ' + vp.strn('c%d' % i, 1, 'AB') + ';']
            fwd.append((len(lines) - 1, len(lines) + 1))
        elif k == 'one':
            lines.append(vp.choose('f%d' % i, vp.param('ONE', ['namespace a { class %s; }'])) % ('Q%d' % i))
            fwd.append(len(lines))
            vp.cover('one')
        elif k == 'com':
            lines.append(vp.choose('m%d' % i, vp.param('COM', ['// why'])))
        elif k == 'inc':
            lines.append('#include "i%d.h"' % i)
        elif k == 'code':
            lines.append('int code%d;' % i)
        else:
            lines.append('')
    for d in reversed(depth):
        lines.append('U_NAMESPACE_END' if d == 'U' else '}' if d == 1 else '} }')
    tail = vp.choose('tail', vp.param('TAIL', [['int x;']]))
    lines += tail
    m = M.fix_includes
    spans = [s if isinstance(s, tuple) else (s, s + 1) for s in fwd]
    gone = [s for s in spans if vp.choose('del%d' % s[0], 2)]
    adds = []
    for i in range(vp.choose('nadd', list(range(vp.param('A', 1) + 1)))):
        p = vp.choose('p%d' % i, vp.param('P', [[], ['a'], ['b'], ['a', 'b'], [''], ['a', ''], ['a', 'b', 'b']]))
        adds.append((p, 'class N%d;' % i, vp.choose('x%d' % i, [False, True]) if len(p) == 2 and p[1] and vp.param('X17', False) else False))
    flags = M.fixlib.Flags(reorder=vp.choose('reorder', vp.param('RE', [True])), keep_iwyu_namespace_format=vp.choose('keep', [False, True]))
    dele = [j for s in gone for j in range(s[0], s[1])]
    got = M.fixlib.strip_eol(M.fixlib.fix(M, 'f.cc', lines, flags, deletes=dele, fwd=spans, add=[wrap(p, d, x) for p, d, x in adds]))
    vp.out('got', got)
    # what the file declares afterwards
    left = [l for j, l in enumerate(lines) if j + 1 not in dele]
    want, code, ok, coms = read(vp, left)
    vp.assume(ok)
    for p, d, x in adds:
        want.append(([q if len(q) else '<anon>' for q in p], d[:-1]))
    have, hcode, hok, hcoms = read(vp, got)
    vp.check(hok, 'namespaces are opened and closed in balance')
    lost = False
    ok = list(want)
    for w in want:
        d = None if flags.keep_iwyu_namespace_format else dropped(w)
        if d and not inside(w, have):
            vp.check(inside(d, have), 'a declaration is kept or added')
            ok.append(d)
            lost = True
            continue
        vp.check(inside(w, have), 'a declaration is kept or added in its own namespace')
    for h in have:
        vp.check(inside(h, ok), 'no declaration appears that was not asked for')
    vp.check(len(hcode) == len(code) and all(same(x, y) for x, y in zip(code, hcode)), 'code stays in its namespace and order')
    for c in hcoms:
        vp.check(c.startswith('// namespace') or any(bool(c == x) for x in coms), 'comments stay as they are')
        vp.cover('comment')
    for l in left:
        if 'namespace' in l and '//' in l and ';' in l and l[:1] != '/':
            vp.check(any(l[l.find('//'):] in h for h in got), 'the comment of a declaration stays with it')
            vp.cover('trailing')
    vp.cover('ns')
    if gone:
        vp.cover('removed')
    if adds:
        vp.cover('added')
    vp.check(not lost, FINDING)


def h_many(vp, M):
    """Several additions, with their kinds, merged into one block."""
    n = vp.param('N', 3)
    items = []
    for i in range(n):
        p = vp.choose('p%d' % i, vp.param('P', [[], ['a'], ['a', 'b'], ['a', 'c'], [''], ['a', ''], ['b', 'a']]))
        p = [vp.strn('ns%d%d' % (i, j), 1, 'ab') if x == '?' else x for j, x in enumerate(p)]
        k = vp.choose('k%d' % i, ['class %s', 'enum %s : int', 'enum class %s : unsigned char', 'template <typename T> class %s'])
        c = vp.strn('c%d' % i, 1, 'AB')
        items.append((p, k % c, c))
        # one name is one entity
        for j in range(i):
            vp.assume(len(items[j][0]) != len(p) or any(bool(x != y) for x, y in zip(items[j][0], p)) or bool(items[j][2] != c))
    keep = vp.choose('keep', [False, True])
    old = vp.choose('old', [['int x;'], ['namespace a {', 'int x;', '}'], ['#include "q.h"', '', 'namespace a {', 'class O;', '}', 'int x;']])
    fwd = [(4, 5)] if len(old) > 3 else []
    flags = M.fixlib.Flags(reorder=vp.choose('reorder', [True, False]), keep_iwyu_namespace_format=keep)
    got = M.fixlib.strip_eol(M.fixlib.fix(M, 'f.cc', old, flags, fwd=fwd, add=[wrap(p, d + ';') for p, d, c in items]))
    vp.out('got', got)
    have, hcode, hok, _ = read(vp, got)
    want, code, _, _ = read(vp, old)
    vp.check(hok, 'namespaces are opened and closed in balance')
    want += [([q if len(q) else '<anon>' for q in p], d) for p, d, c in items]
    lost = False
    for w in want:
        d = None if keep else dropped(w)
        if d and not inside(w, have):
            vp.check(inside(d, have), 'a declaration is kept or added')
            lost = True
            continue
        vp.check(inside(w, have), 'every added declaration is in its own namespace')
    vp.check(len(have) == len(want), 'each added declaration appears once')
    vp.check(len(hcode) == len(code) and all(same(x, y) for x, y in zip(code, hcode)), 'code stays in its namespace')
    vp.cover('many')
    vp.check(not lost, FINDING)
