"""Command-line options of fix_includes, end to end through main()."""


def section(name, add, remove, total):
    return ([name + ' should add these lines:'] + add + ['', name + ' should remove these lines:'] + remove +
            ['', 'The full include-list for ' + name + ':'] + total + ['---', ''])


def run_main(vp, M, argv, text, files):
    m = M.fix_includes
    fs = M.fixlib.FS(files)
    old = m.sys.stdin
    m.sys.stdin = iter([l + '\n' for l in text])
    try:
        r = M.fixlib.with_fs(vp, M, fs, lambda: m.main(['fix_includes.py'] + argv))
    finally:
        m.sys.stdin = old
    vp.check(r == 0, 'a run without critical error returns zero')
    return fs


SOURCE = ['.c', '.C', '.cc', '.CC', '.cxx', '.CXX', '.cpp', '.CPP', '.c++', '.C++', '.cp']


def h_safe(vp, M):
    """Nothing is removed from a header unless asked for; additions still happen."""
    name = vp.choose('dir', ['', 'd/', 'd.cc/']) + 'f' + vp.str('ext', 0, vp.param('N', 4), vp.param('A', '.chxpC+H'))
    vp.assume(name[-1:] != ':')
    opt = vp.choose('opt', [[], ['--safe_headers'], ['--nosafe_headers'], ['--nosafe_headers', '--safe_headers'], ['--safe_headers', '--nosafe_headers']])
    safe = not opt or opt[-1] == '--safe_headers'
    add = vp.choose('add', [False, True])
    text = section(name, ['#include "n.h"'] if add else [], ['- #include "b.h"  // lines 2-2', '- class C;  // lines 4-4'],
                   ['#include "a.h"'] + (['#include "n.h"'] if add else []))
    old = '#include "a.h"\n#include "b.h"\n\nclass C;\n\nint x;\n'
    fs = run_main(vp, M, opt, text, {name: vp.bytes(old)})
    base = name[name.rfind('/') + 1:]
    dot = base.rfind('.')
    ext = base[dot:] if dot > 0 else ''
    source = any(ext == s for s in SOURCE)
    got = [l for l in fs.files[name].decode('ascii').split('\n') if l != '']
    vp.out('got', got)
    keep = safe and not source
    want = ['#include "a.h"'] + (['#include "b.h"'] if keep else []) + (['#include "n.h"'] if add else []) + (['class C;'] if keep else []) + ['int x;']
    vp.check(vp.eq(got, want), 'lines go from sources, and from headers only when that is allowed')
    if keep and not add:
        vp.check(fs.written == [], 'a header with nothing to add is left alone')
    vp.cover('source' if source else 'header')
    vp.cover('safe' if safe else 'unsafe')


PATS = [('a', lambda s: [c == 'a' for c in s], any), ('^a', lambda s: [s[0] == 'a'], any), ('b$', lambda s: [s[-1] == 'b'], any),
        ('a/', lambda s: [s[i:i + 2] == 'a/' for i in range(len(s))], any), ('^[^a]*$', lambda s: [c != 'a' for c in s], all),
        ('^b|a$', lambda s: [s[0] == 'b', s[-1] == 'a'], any)]


def h_restrict(vp, M):
    """Which files are touched."""
    n = vp.param('K', 2)
    names = [vp.strn('n%d' % i, vp.param('N', 3), 'ab/') for i in range(n)]
    for i in range(n):
        vp.assume(vp.And(names[i][0] != '/', names[i][-1] != '/'))
        for j in range(i):
            vp.assume(names[i] != names[j])
    base = vp.choose('base', [None, '/r'])
    ig = vp.choose('ignore', [None] + list(range(len(PATS))))
    on = vp.choose('only', [None] + list(range(len(PATS))))
    listed = vp.choose('listed', vp.param('L', [None, 'aab', 'none']))
    argv = ['--nosafe_headers'] + (['--basedir', base] if base else []) + (['--ignore_re', PATS[ig][0]] if ig is not None else []) + \
        (['--only_re', PATS[on][0]] if on is not None else []) + ([listed] if listed else [])
    text, files = [], {}
    old = '#include "a.h"\n#include "b.h"\n'
    m = M.fix_includes
    cwd = m.os.getcwd()

    def norm(b, p):
        if not b:
            return p
        while '//' in p:
            i = p.find('//')
            p = p[:i] + p[i + 1:]
        return b + '/' + p
    for f in names:
        text += section(f, [], ['- #include "b.h"  // lines 2-2'], ['#include "a.h"'])
    # the same file under two spellings is another property's subject
    reals = [norm(base, f) for f in names]
    for i in range(n):
        for j in range(i):
            vp.assume(reals[i] != reals[j])
    fs = M.fixlib.FS({})
    for f in reals:
        fs.files[f] = vp.bytes(old)
    oldin = m.sys.stdin
    m.sys.stdin = iter([l + '\n' for l in text])
    try:
        M.fixlib.with_fs(vp, M, fs, lambda: m.main(['fix_includes.py'] + argv))
    finally:
        m.sys.stdin = oldin
    for f, r in zip(names, reals):
        def hit(k):
            return bool(PATS[k][2](bool(x) for x in PATS[k][1](r)))
        sel = (listed is None) or bool(r == norm(cwd, listed))
        if sel and ig is not None:
            sel = not hit(ig)
        if sel and on is not None:
            sel = hit(on)
        touched = any(r == w for w in fs.written)
        vp.check(touched == sel, 'exactly the selected files are edited')
        vp.cover('selected' if sel else 'skipped')


def names_of(l):
    i = l.find('"')
    i = l.find('<') if i < 0 else i
    return l[i:i + 5]


def h_text(vp, M):
    """Comments, order, blank lines and namespace form."""
    copt = vp.choose('copt', [[], ['--comments'], ['--update_comments'], ['--comments', '--nocomments'], ['--nocomments', '--update_comments'], ['--update_comments', '--noupdate_comments']])
    ropt = vp.choose('ropt', [[], ['--reorder'], ['--reorder', '--noreorder']])
    bopt = vp.choose('bopt', [[], ['--noblank_lines'], ['--noblank_lines', '-b']])
    nopt = vp.choose('nopt', [[], ['-m'], ['--keep_iwyu_namespace_format', '--nokeep_iwyu_namespace_format']])
    qopt = vp.choose('qopt', [[], ['--quoted_includes_first']])
    comments = False
    for c in copt:
        if c == '--comments' or c == '--nocomments':
            comments = c == '--comments'
    update = bool(copt) and copt[-1] == '--update_comments'
    comments = comments or update
    reorder = ropt == ['--reorder']
    blank = bopt != ['--noblank_lines']
    keep = nopt == ['-m']
    n = [vp.strn('n%d' % i, 1, 'pqr') for i in range(4)]
    vp.assume(vp.And(n[0] != n[1], n[2] != n[3]))
    inc = ['#include <%s.h>' % n[0], '#include <%s.h>' % n[1], '#include "%s.h"' % n[2], '#include "%s.h"' % n[3]]
    oldc = vp.choose('oldc', [[], [0], [0, 3]])
    why = vp.choose('why', [[], [0, 1, 2], [1, 3, 4]])
    body = [inc[i] + ('  // old' if i in oldc else '') for i in range(4)]
    newinc = '#include <z.h>'
    what = vp.choose('what', ['add', 'none', 'remove'])
    y = vp.choose('y', ['Y', 'U'])
    adds = [newinc + ('  // for Z, z' if 4 in why else ''), 'namespace n { class Z; }', 'namespace n { class %s; }' % y] if what == 'add' else []
    gone = [1] if what == 'remove' else []
    total = [inc[i] + ('  // for T%d' % i if i in why else '') for i in range(4) if i not in gone]
    total += [adds[0]] + adds[1:] if adds else []
    total += ['class X;  // lines 6-6']
    old = '\n'.join(body) + '\n\nclass X;\n\nint x;\n'
    fs = run_main(vp, M, copt + ropt + bopt + nopt + qopt, section('f.cc', adds, ['- %s  // lines 2-2' % inc[1]] if gone else [], total), {'f.cc': vp.bytes(old)})
    got = fs.files['f.cc'].decode('ascii').split('\n')
    vp.out('got', got)
    if what == 'none' and not update:
        vp.check(fs.written == [], 'a report without change leaves the file alone')
        vp.cover('untouched')
        return
    line = {}
    for i in range(4):
        line[i] = inc[i] + '  // for T%d' % i if comments and i in why else body[i]
    sysg = [(inc[i], line[i]) for i in (0, 1) if i not in gone] + ([(newinc, newinc + '  // for Z, z' if comments and 4 in why else newinc)] if adds else [])
    qg = [(inc[i], line[i]) for i in (2, 3)]
    fwd = []
    if adds:
        ds = ['Z', y]
        if reorder:
            ds = sorted(ds)
        fwd = ['namespace n { class %s; }' % d for d in ds] if keep else ['namespace n {', 'class %s;' % ds[0], 'class %s;' % ds[1], '}  // namespace n']

    def order(g):
        if reorder and len(g) > 1:
            for i in range(len(g)):
                for j in range(len(g) - 1):
                    if g[j + 1][0] < g[j][0]:
                        g[j], g[j + 1] = g[j + 1], g[j]
        return [x[1] for x in g]
    a, b = order(sysg), order(qg)
    first, second = (b, a) if qopt else (a, b)
    want = first + ([''] if blank else []) + second + [''] + ['class X;'] + fwd
    # the reading of the output: a namespace block may be set off by blank lines
    k = len(want)
    lines = [l for l in got]
    core = lines[:k]
    if adds and not keep:
        # compare without blank lines from the first declaration on
        j = len(first) + len(second) + (1 if blank else 0)
        core = lines[:j] + [''] + [l for l in lines[j:] if l != ''][:1 + len(fwd)]
        rest = [l for l in lines[j:] if l != ''][1 + len(fwd):]
    else:
        rest = [l for l in lines[k:] if l != '']
    vp.check(vp.eq(core, want), 'comments, order, blank lines and namespaces are as the options say')
    vp.check(vp.eq(rest, ['int x;']), 'the rest stays')
    vp.cover('comments' if comments else 'nocomments')
    vp.cover('reorder' if reorder else 'noreorder')
    vp.cover('keep' if keep else 'normal')
    vp.cover('blank' if blank else 'noblank')
    if update:
        vp.cover('update')
