"""Twice is the same as once."""


def base(p):
    return p.split('/')[-1]


def gen(vp, n, kinds):
    lines, incs = [], []
    for i in range(n):
        k = vp.choose('k%d' % i, kinds)
        if k == 'q':
            l = '#include "' + vp.strn('n%d' % i, 1, 'agz') + '.h"'
        elif k == 'sysc':
            l = '#include <' + vp.strn('n%d' % i, 1, 'ab') + '.h>'
        elif k == 'sys':
            l = '#include <' + vp.strn('n%d' % i, 1, 'ab') + '>'
        elif k == 'own':
            l = '#include "dir/foo.h"'
        elif k == 'inl':
            l = '#include "' + vp.strn('n%d' % i, 1, 'ag') + '-inl.h"'
        elif k == 'same':
            l = '#include "' + vp.strn('n%d' % i, 1, 'bz') + '/foo.h"'
        elif k == 'why':
            l = '#include "' + vp.strn('n%d' % i, 1, 'agz') + '.h"  // ' + vp.strn('w%d' % i, 1, 'pq')
        elif k == 'assoc':
            l = '#include "g.h"  // IWYU pragma: associated'
        elif k == 'barrier':
            l = '#include <linux/' + vp.strn('n%d' % i, 1, 'ab') + '.h>'
        elif k == 'com':
            l = '// ' + vp.strn('n%d' % i, 1, 'xy')
        elif k == 'fwd':
            l = 'class ' + vp.strn('n%d' % i, 1, 'AB') + ';'
        else:
            l = k
        lines.append(l)
    return lines


def once(vp, M, name, content, flags):
    m = M.fix_includes
    fs = M.fixlib.FS({name: content})
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.SortIncludesInFiles([name], flags))
    new = fs.files[name]
    same = bool(new == content)
    vp.check(r == (0 if same else 1), 'a file counts as changed exactly when its contents change')
    vp.check((fs.written == []) == same, 'a file is written exactly when its contents change')
    return new


def first_include(lines):
    for l in lines:
        if l[:8] == '#include':
            return l
    return ''


def namesake(l):
    """A quoted include that shares only the base name of the edited file."""
    return bool(l[-7:] == '/foo.h"') and not bool(l == '#include "dir/foo.h"')


def comment(l):
    l = l.strip()
    return bool(l[:2] == '//') or bool(l[:2] == '/*')


def repeated(lines):
    keys = []
    for l in lines:
        if l[:8] == '#include':
            j = l.find('  //')
            keys.append(l if j < 0 else l[:j])
    return any(bool(keys[i] == keys[j]) for i in range(len(keys)) for j in range(i))


def h_twice(vp, M):
    name = vp.choose('file', vp.param('FILES', ['dir/foo.cc']))
    flags = M.fixlib.Flags(sort_only=True, reorder=vp.choose('reorder', vp.param('RE', [True, False])), blank_lines=vp.choose('blank', [True, False]),
                           quoted_includes_first=vp.choose('qfirst', vp.param('QF', [False, True])), safe_headers=vp.choose('safe', vp.param('SAFE', [False, True])),
                           separate_project_includes=vp.choose('proj', vp.param('PROJ', [None])), update_comments=False)
    lines = vp.choose('head', vp.param('HEAD', [[], ['// license']]))
    lines = lines + gen(vp, vp.choose('n', list(range(1, vp.param('N', 3) + 1))), vp.param('K', ['q', 'sysc', 'sys', 'own', '', 'com', 'int x;', 'same']))
    tail = vp.choose('tail', vp.param('TAIL', [[], ['int z;']]))
    lines = lines + tail
    eol = vp.choose('eol', vp.param('EOL', ['\n']))
    text = eol.join(lines) + eol
    a = once(vp, M, name, vp.bytes(text), flags)
    b = once(vp, M, name, a, flags)
    vp.out('a', a)
    vp.out('b', b)
    if a == vp.bytes(text):
        vp.cover('sorted')
    else:
        vp.cover('changed')
    x, y = first_include(lines), first_include(a.decode('ascii').split(eol))
    if (namesake(x) or namesake(y)) and not bool(x == y) and not bool(a == b):
        vp.check(False, 'an include that shares only the base name of the file is its own header only while it is first')
    out = a.decode('ascii').split(eol)
    if repeated(lines) and comment(out[0]) and not bool(out[0] == lines[0]) and not bool(a == b):
        vp.check(False, 'a repeated include stays until its comment, moved to the top of the file, counts as the heading')
    vp.check(a == b, 'sorting a sorted file changes nothing')


def section(name, add, remove, total):
    return ([name + ' should add these lines:'] + add + ['', name + ' should remove these lines:'] + remove +
            ['', 'The full include-list for ' + name + ':'] + total + ['---', ''])


def h_report(vp, M):
    """After a report was applied, sorting or a report without change leaves the file alone."""
    m = M.fix_includes
    flags = dict(reorder=vp.choose('reorder', [True, False]), blank_lines=vp.choose('blank', [True, False]), comments=vp.choose('comments', [True, False]),
                 keep_iwyu_namespace_format=vp.choose('keep', [True, False]))
    n = vp.choose('n', list(range(1, vp.param('N', 2) + 1)))
    lines = ['int top;'] + gen(vp, n, ['q', 'sys', 'why', '', 'com', 'int x;', 'fwd']) + ['', 'int z;']
    inc = [i for i, l in enumerate(lines) if l[:1] == '#']
    fwd = [i for i, l in enumerate(lines) if l[:6] == 'class ']
    gone = [i for i in inc + fwd if vp.choose('del%d' % i, 2)]
    adds = vp.choose('adds', [[], ['#include "m.h"'], ['class K;'], ['#include <m>', 'namespace n { class K; }']])
    total = []
    for i in inc + fwd:
        if i not in gone:
            l = lines[i]
            j = l.find('  //')
            l = l if j < 0 else l[:j]
            total.append(l + ('  // lines %d-%d' % (i + 1, i + 1) if i in fwd else '  // for T' if vp.choose('why', [True, False]) else ''))
    text = section('f.cc', adds, ['- %s  // lines %d-%d' % (lines[i][:lines[i].find('  //')] if '  //' in lines[i] else lines[i], i + 1, i + 1) for i in gone], total + [a for a in adds])
    fs = M.fixlib.FS({'f.cc': vp.bytes('\n'.join(lines) + '\n')})
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in text]), None, M.fixlib.Flags(**flags), None))
    a = fs.files['f.cc']
    vp.check((r == 1) == bool(fs.written), 'a file counts as fixed exactly when it is written')
    vp.check((r == 1) == (not bool(a == fs.orig['f.cc'])), 'a file counts as fixed exactly when its contents change')
    if not gone and not adds:
        vp.check(fs.written == [], 'a report without change leaves the file alone')
        vp.end()
    b = once(vp, M, 'f.cc', a, M.fixlib.Flags(sort_only=True, **flags))
    vp.out('a', a)
    vp.out('b', b)
    vp.check(a == b, 'sorting the fixed file changes nothing')
    for line in ('(f.cc has correct #includes/fwd-decls)',):
        fs = M.fixlib.FS({'f.cc': a})
        r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([line + '\n']), None, M.fixlib.Flags(**flags), None))
        vp.check(r == 0 and fs.written == [] and fs.files['f.cc'] == a, 'a report without change leaves the file alone')
    vp.cover('report')
