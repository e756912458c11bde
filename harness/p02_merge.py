"""Several reports for the same file."""


def section(name, add, remove, total):
    return ([name + ' should add these lines:'] + add + ['', name + ' should remove these lines:'] + remove +
            ['', 'The full include-list for ' + name + ':'] + total + ['---', ''])


def run(vp, M, text, files, flags, cwd=None, only=None):
    m = M.fix_includes
    fs = M.fixlib.FS(files)
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in text]), only, flags, cwd))
    return fs, r


OLD = ['#include "a.h"', '#include "b.h"', 'class C;', 'int x;']
DEL = ['- #include "a.h"  // lines 1-1', '- #include "b.h"  // lines 2-2', '- class C;  // lines 3-3']


def expect(keep, add_inc, add_fwd):
    inc = sorted(keep[:2] + add_inc) if 0 else sorted([l for l in keep if l.startswith('#')] + add_inc)
    fwd = sorted([l for l in keep if l.startswith('class')] + add_fwd)
    r = inc + ([''] if inc and fwd else []) + fwd
    return r + ([''] if r else []) + ['int x;']


def h_merge(vp, M):
    n = vp.param('R', 2)
    dele, adds, text = None, [], []
    base = vp.choose('base', [None, '/r'])
    real = 'f.cc' if base is None else '/r/f.cc'
    for i in range(n):
        if i == n - 1 and vp.choose('correct', 2):
            text += ['(%s has correct #includes/fwd-decls)' % real]
            d, a, listed = [], [], False
            vp.cover('correct')
        else:
            d = [j for j in range(3) if vp.choose('del%d%d' % (i, j), 2)]
            a = [x for x in ['#include "d.h"', '#include "e.h"', 'class D;'] if vp.choose('add%d%s' % (i, x), 2)]
            name = 'f.cc' if base is None else vp.choose('name%d' % i, ['f.cc', '/r/f.cc', './f.cc', 'x/../f.cc'] if i else ['f.cc'])
            total = [OLD[j] + ('  // lines 3-3' if j == 2 else '  // lines %d-%d' % (j + 1, j + 1) if vp.choose('num%d' % i, 2) else '') for j in range(3) if j not in d]
            text += section(name, a, [DEL[j] for j in d], total)
        dele = d if dele is None else [j for j in dele if j in d]
        adds += [x for x in a if x not in adds]
    # the declaration is known only when some report lists it
    fs, r = run(vp, M, text, {real: vp.bytes('\n'.join(OLD) + '\n')}, M.fixlib.Flags(basedir=base))
    keep = [OLD[j] for j in range(3) if j not in dele]
    want = expect(keep, [a for a in adds if a[0] == '#'], [a for a in adds if a[0] == 'c'])
    got = fs.files[real]
    vp.out('got', got)
    lines = [x for x in got.decode('ascii').split('\n')]
    # blank lines between the groups are not the subject here
    lines = [l for l in lines if l != '']
    vp.check(vp.eq([l for l in lines], [l for l in want if l != '']), 'a line goes when every report removes it and comes when any adds it, once')
    vp.check(r == (1 if dele or adds else 0), 'the file counts as fixed exactly when it changes')
    vp.check(len([w for w in fs.written]) <= 1, 'the file is written at most once')
    if dele:
        vp.cover('agreed removal')
    if adds:
        vp.cover('added')
    if not dele and not adds:
        vp.check(fs.written == [], 'a file on which no change is agreed is left alone')
        vp.cover('nothing agreed')


def h_sets(vp, M):
    """Merging of the collected facts, with symbolic contents; order of the reports does not matter."""
    m = M.fix_includes
    lines = vp.choose('lines', [False, True])
    n = vp.choose('n', [2, 3] if vp.param('N3', False) or lines else [2])
    recs = []
    for i in range(n):
        r = m.IWYUOutputRecord('f.cc')
        facts = {}
        for what in ('lines_to_delete', 'some_include_lines'):
            facts[what] = [j for j in (4, 5) if lines and (j == 4 or what[0] == 'l') and vp.choose('%s%d%d' % (what, i, j), 2)]
            for j in facts[what]:
                getattr(r, what).add(j)
        k = () if lines else vp.choose('fwd%d' % i, [(), ((7, 8),), ((9, 11),)])
        for s in k:
            r.seen_forward_declare_lines.add(s)
            if vp.choose('nested%d' % i, 2):
                r.nested_forward_declare_lines.add(s)
                facts['nested'] = s
        facts['fwd'] = k
        facts['add'] = [vp.strn('add%d' % i, 1, 'xyz')] if not lines and vp.choose('hasadd%d' % i, 2) else []
        for x in facts['add']:
            r.includes_and_forward_declares_to_add.add(x)
        key = 'p' if lines else vp.strn('key%d' % i, 1, 'pq')
        r.full_include_lines[key] = 'line'
        facts['key'] = key
        recs.append((r, facts))
    a = recs[0][0]
    for r, f in recs[1:]:
        a.Merge(r)
    dele = [j for j in (4, 5) if all(j in f['lines_to_delete'] for r, f in recs)]
    vp.check(sorted(a.lines_to_delete) == dele, 'only lines every report removes are removed')
    vp.check(sorted(a.some_include_lines) == [j for j in (4, 5) if any(j in f['some_include_lines'] for r, f in recs)], 'include lines of all reports are known')
    vp.check(sorted(a.seen_forward_declare_lines) == sorted(set(s for r, f in recs for s in f['fwd'])), 'declarations of all reports are known')
    vp.check(sorted(a.nested_forward_declare_lines) == sorted(set(f['nested'] for r, f in recs if 'nested' in f)), 'nested declarations of all reports are known')
    adds = []
    for r, f in recs:
        for x in f['add']:
            if not any(x == y for y in adds):
                adds.append(x)
    vp.check(vp.eq(list(a.includes_and_forward_declares_to_add), adds), 'lines any report adds are added, each once, first mentioned first')
    keys = list(a.full_include_lines)
    for r, f in recs:
        vp.check(vp.Or(*[f['key'] == k for k in keys]), 'full lists are united')
    vp.check(bool(a.HasContentfulChanges()) == bool(adds or dele), 'changes are asked for exactly when something is added or removed')
    vp.cover('sets')


def h_template(vp, M):
    """The same declaration asked for with different parameter names is added once."""
    n1, n2 = vp.strn('t1', 1, 'TU'), vp.strn('t2', 1, 'TU')
    c1, c2 = vp.strn('c1', 1, 'AB'), vp.strn('c2', 1, 'AB')
    ns = vp.choose('ns', ['', 'a', 'b'])
    ns2 = vp.choose('ns2', ['', 'a', 'b'])

    def d(t, c, ns):
        s = 'template <typename %s> class %s;' % (t, c)
        return 'namespace %s { %s }' % (ns, s) if ns else s
    text = []
    for a in (d(n1, c1, ns), d(n2, c2, ns2)):
        text += section('f.cc', [a], [], [])
    fs, r = run(vp, M, text, {'f.cc': vp.bytes('int x;\n')}, M.fixlib.Flags(keep_iwyu_namespace_format=True))
    got = [l for l in fs.files['f.cc'].decode('ascii').split('\n') if l != '']
    same = c1 == c2 and ns == ns2
    vp.check(len(got) == (2 if same else 3), 'declarations of the same entity are added once, of different entities each')
    vp.check(any(l == d(n1, c1, ns) for l in got), 'the first form is the one added')
    if not same:
        vp.check(any(l == d(n2, c2, ns2) for l in got), 'a different entity is added too')
    vp.cover('same' if same else 'different')
