"""Order of includes and declarations."""
MAIN, CSYS, CXX, OTHER, PROJ, FWD = range(1, 7)


def base(p):
    return p.split('/')[-1]


def stem(name):
    """The file being edited without extension and test suffix."""
    i = name.rfind('.')
    if i > name.rfind('/'):
        name = name[:i]
    for s in ('_unittest', '_regtest', '_test'):
        if name.endswith(s):
            return name[:-len(s)]
    return name


def is_main(name, inc, first, pragma):
    if pragma:
        return True
    for s in ('-inl.h', '.h', '.hpp'):
        if inc[-len(s):].lower() == s:
            inc = inc[:-len(s)]
            break
    f = stem(name)
    if f == inc or f == inc.replace('/public/', '/internal/'):
        return True
    return bool(first and base(f) == base(inc))


def kind_of(name, inc, quoted, first, pragma, project):
    if not quoted:
        return CSYS if '.' in inc else CXX
    if is_main(name, inc, first, pragma):
        return MAIN
    if project == '<tld>':
        a, b = inc.find('/'), name.find('/')
        if a > 0 and b > 0 and inc[:a] == name[:b]:
            return PROJ
    elif project and inc.startswith(project):
        return PROJ
    return OTHER


def rank(kind, quoted_first):
    return {MAIN: 1, CSYS: 4, CXX: 5, OTHER: 2, PROJ: 3, FWD: 6}[kind] if quoted_first else kind


def gap(a, b, blank_lines):
    """Is there a blank line between two neighbouring groups?"""
    if a == b or (a in (CSYS, CXX) and b in (CSYS, CXX)):
        return False
    if a == FWD or b == FWD:
        return True
    return bool(blank_lines)


def block(items, flags):
    """items: (kind, key, line) in file order -> the lines of the sorted block."""
    order = []
    for it in items:
        j = 0
        r = rank(it[0], flags.quoted_includes_first)
        while j < len(order):
            q = rank(order[j][0], flags.quoted_includes_first)
            if q > r or (q == r and flags.reorder and it[1] < order[j][1]):
                break
            j += 1
        order.insert(j, it)
    out = []
    for i, it in enumerate(order):
        if i and gap(order[i - 1][0], it[0], flags.blank_lines):
            out.append('')
        out += it[2]
    return out


def squeeze(s):
    r = ''
    for c in s:
        if c != ' ':
            r = r + c
    return r.replace('-inl.h', '_inl.h')


def h_sort(vp, M):
    name = vp.choose('file', vp.param('FILES', ['dir/foo.cc']))
    flags = M.fixlib.Flags(reorder=vp.choose('reorder', vp.param('RE', [True, False])), blank_lines=vp.choose('blank', vp.param('BL', [True, False])),
                           quoted_includes_first=vp.choose('qfirst', vp.param('QF', [False, True])), separate_project_includes=vp.choose('proj', vp.param('PROJ', [None])))
    n = vp.choose('n', list(range(1, vp.param('N', 3) + 1)))
    items, lines, seen, first = [], [], [], True
    for i in range(n):
        k = vp.choose('k%d' % i, vp.param('K', ['sysc', 'sys', 'q', 'foo', 'w']))
        pragma = False
        if k == 'w':
            c = vp.strn('c%d' % i, 1, 'ABC')
            l = 'class ' + c + ';'
            it = (FWD, squeeze(l), [l])
            if any(s == l for s in seen):
                vp.end()
            seen.append(l)
        else:
            if k == 'sysc':
                inc, q = vp.strn('n%d' % i, 1, 'abc') + '.h', False
            elif k == 'sys':
                inc, q = vp.strn('n%d' % i, 2, 'a/b'), False
            elif k == 'q':
                inc, q = vp.strn('n%d' % i, 1, 'agz') + '.h', True
            elif k == 'inl':
                inc, q = vp.strn('n%d' % i, 1, 'ag') + vp.choose('e%d' % i, ['-inl.h', '.h', '.hpp']), True
            elif k == 'proj':
                inc, q = vp.choose('d%d' % i, ['dir/', 'di/', 'dirx/', 'own/']) + vp.strn('n%d' % i, 1, 'ag') + '.h', True
            elif k == 'assoc':
                inc, q, pragma = vp.strn('n%d' % i, 1, 'ag') + '.h', True, True
            elif k == 'foo':
                inc, q = vp.choose('d%d' % i, vp.param('DIRS', ['', 'dir/', 'x/', 'dir/public/'])) + vp.choose('st%d' % i, vp.param('STEMS', ['foo'])) + vp.choose('e%d' % i, ['.h', '-inl.h', '.hpp', '.H', 'x.h', '']), True
            sp = vp.choose('sp%d' % i, vp.param('SP', ['#include ']))
            l = sp + ('"' if q else '<') + inc + ('"' if q else '>') + ('  // IWYU pragma: associated' if pragma else vp.choose('why%d' % i, vp.param('WHY', [''])))
            key = ('"' if q else '<') + inc
            if any(s == key for s in seen):
                vp.end()   # repeated includes are another property's subject
            seen.append(key)
            kd = kind_of(name, inc, q, first, pragma, flags.separate_project_includes)
            first = False
            it = (kd, squeeze(l), [l])
            vp.cover('kind%d' % kd)
        if vp.choose('pre%d' % i, vp.param('PRE', [0])):
            lines.append('// about %d' % i)   # moves with the line it precedes
            it[2].insert(0, lines[-1])
            vp.cover('comment above')
        items.append(it)
        lines.append(l)
        if i < n - 1 and vp.choose('gap%d' % i, vp.param('GAP', [0])):
            lines.append('')
            vp.cover('gap')
    # numbers of the declarations: one top line precedes the block
    top = ['int top;']
    tail = vp.choose('tail', [[], ['int x;'], ['', 'int x;'], ['namespace n {', 'int y;', '}']][:vp.param('T', 4)])
    fw = []
    for j, l in enumerate(lines):
        if l[:6] == 'class ':
            fw.append((j + 2, j + 3))
    out = M.fixlib.strip_eol(M.fixlib.fix(M, name, top + lines + tail, flags, fwd=fw))
    want = top + block(items, flags) + ([''] if tail and tail[0] else []) + tail
    vp.out('got', out)
    vp.check(vp.eq(out, want), 'the block is grouped, ordered and spaced as documented')
    if n > 2:
        vp.cover('three')
    vp.cover('reorder %s' % flags.reorder)


def h_barrier(vp, M):
    """Nothing is moved across an include that must keep its place."""
    n = vp.param('N', 4)
    lines, bar = [], []
    for i in range(n):
        k = vp.choose('k%d' % i, ['q', 's', 'linux', 'com'])
        c = vp.strn('n%d' % i, 1, 'ab')
        lines.append({'q': '#include "' + c + '%d.h"' % i, 's': '#include <' + c + '%d.h>' % i, 'linux': '#include <linux/' + c + '%d.h>' % i, 'com': '// c%d' % i}[k])
        bar.append(k)
    out = M.fixlib.strip_eol(M.fixlib.fix(M, 'x.cc', ['int top;'] + lines + ['int end;'], M.fixlib.Flags(reorder=vp.choose('reorder', [True, False]))))
    pos = []
    for l in lines:
        p = [j for j, g in enumerate(out) if g == l]
        vp.check(len(p) == 1, 'every line is there once')
        pos.append(p[0])
    for i in range(n):
        if bar[i] == 'linux':
            for j in range(n):
                if j != i and bar[j] != 'com':
                    vp.check((pos[j] < pos[i]) == (j < i), 'nothing moves across an include that must keep its place')
                    vp.cover('barrier')
    vp.out('pos', pos)


def h_set(vp, M):
    """The result depends only on the set of lines of a block, not on their order."""
    n = vp.param('N', 3)
    lines, kinds = [], []
    for i in range(n):
        k = vp.choose('k%d' % i, ['q', 's', 'c', 'w'])
        kinds.append(k)
        c = vp.strn('n%d' % i, 1, 'abz')
        lines.append({'q': '#include "' + c + '.h"', 's': '#include <' + c + '>', 'c': '#include <' + c + '.h>', 'w': 'struct ' + c + ';'}[k] + (vp.choose('why%d' % i, ['', '  // y']) if k == 'q' else ''))
    perms = {2: [(0, 1), (1, 0)], 3: [(1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0), (2, 0, 1)], 4: [(3, 2, 1, 0), (1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1), (1, 2, 3, 0), (0, 2, 1, 3)]}[n]
    p = vp.choose('perm', perms)
    for i in range(n):
        for j in range(i):
            # which of two differently commented duplicates survives may depend on the order
            if lines[i][:13] == lines[j][:13] and lines[i] != lines[j]:
                vp.end()
    flags = M.fixlib.Flags(blank_lines=vp.choose('blank', [True, False]))
    res = []
    for order in (tuple(range(n)), p):
        fw = [(a + 2, a + 3) for a, b in enumerate(order) if kinds[b] == 'w']
        res.append(M.fixlib.strip_eol(M.fixlib.fix(M, 'x.cc', ['int top;'] + [lines[b] for b in order] + ['int x;'], flags, fwd=fw)))
    vp.out('res', res[0])
    vp.check(vp.eq(res[0], res[1]), 'the result depends only on which lines the block has')
    vp.cover('set')


TOPS = {
    'none': [], 'com': ['// Copyright', '// more'], 'guard': ['#ifndef G', '#define G'], 'comguard': ['// Copyright', '', '#ifndef G', '#define G', ''],
    'once': ['#pragma once'], 'oncecom': ['// Copyright', '#pragma once', '// about this'], 'guardcom': ['#ifndef G', '#define G', '// about this'],
}


def h_place(vp, M):
    """Where a new include goes."""
    top = vp.choose('top', sorted(TOPS))
    lines = list(TOPS[top])
    head = len(lines)
    body = []
    for i in range(vp.choose('nb', vp.param('N', 3) + 1)):
        k = vp.choose('b%d' % i, ['code', 'blank', 'q', 's', 'ifinc', 'nsfwd', 'com', 'fwd'])
        body.append(k)
    bnames = {}
    fwd = []
    for i, k in enumerate(body):
        c = vp.strn('n%d' % i, 1, 'az') if k in ('q', 's') else ''
        bnames[i] = len(lines)
        if k == 'nsfwd':
            fwd.append((len(lines) + 2, len(lines) + 3))
        if k == 'fwd':
            fwd.append((len(lines) + 1, len(lines) + 2))
        lines += {'code': ['int v%d;' % i], 'blank': [''], 'q': ['#include "' + c + '%d.h"' % i], 's': ['#include <' + c + '%d>' % i], 'com': ['// c%d' % i], 'fwd': ['class W%d;' % i],
                  'ifinc': ['#if X%d' % i, '#include "i%d.h"' % i, '#endif'], 'nsfwd': ['namespace n%d {' % i, 'class C%d;' % i, '}']}[k]
    if 'guard' in top:
        lines += ['#endif']
    kind = vp.choose('kind', ['q', 's', 'w'])
    add = {'q': '#include "new.h"', 's': '#include <new>', 'w': 'class New;'}[kind]
    out = M.fixlib.strip_eol(M.fixlib.fix(M, 'x.h', lines, M.fixlib.Flags(), fwd=fwd, add=[add]))
    vp.out('got', out)
    p = [j for j, g in enumerate(out) if g == add]
    vp.check(len(p) == 1, 'the new line is there once')
    p = p[0]
    where = {}
    for i, l in enumerate(lines):
        if l != '' and l != '#endif' and l != '}':
            q = [j for j, g in enumerate(out) if g == l]
            vp.check(len(q) == 1, 'every old line is still there')
            where[i] = q[0]
    for i, l in enumerate(TOPS[top]):
        if l != '' and l != '// about this':
            vp.check(where[i] < p, 'a new line goes after the file comment, the header guard or #pragma once')
            vp.cover(top)
    depth = 0
    for j in range(p):
        if out[j][:4] == '#if ' or out[j][:9] == 'namespace':
            depth += 1
        elif out[j] == '}' or (out[j] == '#endif'):
            depth -= 1
    whole = 'guard' not in top and [k for k in body if k not in ('com', 'blank')] == ['ifinc']   # a conditional around the whole file counts as a guard
    vp.check(depth == 0 or whole, 'a new line goes neither into a conditional nor into a namespace')
    if 'guard' in top:
        vp.check(out[-1] == '#endif' and p < len(out) - 1, 'a new line goes inside the header guard')
    same = [i for i, k in enumerate(body) if k == kind]
    if same and kind != 'w':
        # beside the first include of its own kind: only includes and declarations, comments and blanks of that block lie between
        w = where[bnames[same[0]]]
        between = out[min(p, w) + 1:max(p, w)]
        vp.check(not any(g[:4] == 'int ' or g[:3] == '#if' or g[:9] == 'namespace' or g == '}' for g in between), 'a new include joins the first block with includes of its kind')
        vp.cover('joins')
    code = [i for i, k in enumerate(body) if k == 'code']
    incs = [i for i, k in enumerate(body) if k in ('q', 's')]
    if code and (not incs or code[0] < incs[0]) and not incs:
        vp.check(p < where[bnames[code[0]]], 'without other includes a new line goes before all code')
        vp.cover('before code')
    if kind == 'w' and incs and all(b in ('q', 's', 'fwd', 'blank') for b in body):
        pass
    if kind != 'w' and incs and code and incs[0] < code[0] and not same:
        # the other kind's block takes it
        lo = [i for i in incs]
        vp.check(any(abs(where[bnames[i]] - p) >= 1 and not any(g[:4] == 'int ' for g in out[min(p, where[bnames[i]]) + 1:max(p, where[bnames[i]])]) for i in lo), 'a new include joins a block of includes when there is one')
        vp.cover('other kind')
