"""Reading the report."""

SPANS = [(1, 1), (3, 5), (10, 11), (9, 9)]
NAME = 'ab.'


def parse(M, text, flags):
    p = M.fix_includes.IWYUOutputParser()
    return p.ParseOneRecord(iter([l + '\n' for l in text]), flags)


def uniq(xs):
    r = []
    for x in xs:
        for y in r:
            if x == y:
                break
        else:
            r.append(x)
    return r


def body(vp, i, kinds, why):
    """(text, kind, key) of one listed include or declaration."""
    k = vp.choose('kind%d' % i, kinds)
    s = vp.strn('n%d' % i, 2, NAME)
    if k == 'sys':
        return '#include <%s>' % s, k, '<%s>' % s
    if k == 'quoted':
        return '#include "%s"' % s, k, '"%s"' % s
    if k == 'class':
        s = vp.strn('c%d' % i, 1, 'AB')
        return 'class %s;' % s, k, None
    if k == 'ns':
        s = vp.strn('c%d' % i, 1, 'AB')
        return 'namespace a { class %s; }' % s, k, None
    if k == 'tmpl':
        s = vp.strn('c%d' % i, 1, 'AB')
        return 'template <typename T> struct %s;' % s, k, None
    s = vp.strn('c%d' % i, 1, 'AB')
    return 'class O::%s;' % s, 'nested', None


ALLK = ['sys', 'quoted', 'class', 'ns', 'tmpl']


def finish(vp, rec, name, dele, inc, fwd, nested, add, full):
    vp.check(rec is not None, 'a complete section yields a record')
    vp.check(rec.filename == name, 'the record names the file of its section')
    vp.out('add', list(rec.includes_and_forward_declares_to_add))
    vp.check(sorted(rec.lines_to_delete) == sorted(set(dele)), 'exactly the lines of the remove list are deleted')
    vp.check(sorted(rec.some_include_lines) == sorted(set(inc)), 'exactly the numbered includes are known as include lines')
    vp.check(sorted(rec.seen_forward_declare_lines) == sorted(set(fwd)), 'exactly the numbered declarations are known, with their extent')
    vp.check(sorted(rec.nested_forward_declare_lines) == sorted(set(nested)), 'exactly the declarations of nested classes are marked nested')
    vp.check(vp.eq(list(rec.includes_and_forward_declares_to_add), uniq(add)), 'the lines to add are the add list without comments, in order')
    got = [(k, rec.full_include_lines[k]) for k in rec.full_include_lines]
    want = []
    for k, v in full:
        for j, (k2, v2) in enumerate(want):
            if k == k2:
                want[j] = (k2, v)
                break
        else:
            want.append((k, v))
    vp.check(vp.eq([list(x) for x in got], [list(x) for x in want]), 'the full list maps each include to its line')
    vp.check(bool(rec.HasContentfulChanges()) == bool(add or dele), 'a record asks for changes exactly when it adds or removes something')


def section(name, add, remove, total, blank=('', '', '')):
    return ([name + ' should add these lines:'] + add + list(blank[:1]) + [name + ' should remove these lines:'] + remove + list(blank[1:2]) +
            ['The full include-list for ' + name + ':'] + total + ['---'])


def fname(vp):
    return vp.strn('file', 2, 'ab/. ') + vp.choose('ext', ['.cc', '.h'])


def h_add(vp, M):
    f = M.fixlib.Flags(comments=vp.choose('comments', [False, True]))
    add, text = [], []
    for i in range(vp.choose('n', vp.param('N', 2) + 1)):
        b, k, key = body(vp, i, ALLK, True)
        c = vp.choose('com%d' % i, ['', '  // for X, Y', '  // IWYU pragma: keep', ' '])
        add.append(b)
        text.append(b + c)
        if vp.choose('blank%d' % i, 2) if i == 0 else 0:
            text.append('')
    name = 'x.cc'
    rec = parse(M, section(name, text, [], []), f)
    finish(vp, rec, name, [], [], [], [], add, [])
    if len(add) > 1:
        vp.cover('two adds')
    if len(uniq(add)) < len(add):
        vp.cover('same twice')


def h_remove(vp, M):
    f = M.fixlib.Flags(comments=vp.choose('comments', [False, True]))
    dele, inc, fwd, nested, text = [], [], [], [], []
    for i in range(vp.choose('n', vp.param('N', 2) + 1)):
        b, k, key = body(vp, i, ALLK + ['nested'], True)
        a, z = vp.choose('span%d' % i, SPANS)
        c = '  // lines %d-%d' % (a, z)
        text.append('- ' + b + c)
        dele += list(range(a, z + 1))
        if k not in ('sys', 'quoted'):
            fwd.append((a, z + 1))
            if k == 'nested':
                nested.append((a, z + 1))
                vp.cover('nested')
    inc = []
    # the remove list starts its lines with '- ', so its includes are not recorded as sanity lines
    rec = parse(M, section('x.cc', [], text, []), f)
    got = sorted(rec.some_include_lines)
    for x in got:
        vp.check(x in dele, 'include lines come from the lists')
        inc.append(x)
    finish(vp, rec, 'x.cc', dele, inc, fwd, nested, [], [])
    vp.cover('remove')


def h_digits(vp, M):
    """Line numbers are read in full."""
    a = vp.strn('a', 2, '0129')
    vp.assume(a[0] != '0')
    kind = vp.choose('kind', ['sys', 'class'])
    b = '#include <v>' if kind == 'sys' else 'class C;'
    rec = parse(M, section('x.cc', [], ['- ' + b + '  // lines ' + a + '-' + a], []), M.fixlib.Flags())
    n = int(a)
    finish(vp, rec, 'x.cc', [n], list(rec.some_include_lines), [] if kind == 'sys' else [(n, n + 1)], [], [], [])
    vp.cover('digits')


def h_total(vp, M):
    comments = vp.choose('comments', [False, True])
    f = M.fixlib.Flags(comments=comments)
    inc, fwd, nested, full, text = [], [], [], [], []
    for i in range(vp.choose('n', vp.param('N', 2) + 1)):
        b, k, key = body(vp, i, ALLK + ['nested'], True)
        c = vp.choose('com%d' % i, ['', '  // for X', '  // lines'])
        if c == '  // lines':
            a, z = vp.choose('span%d' % i, SPANS)
            c += ' %d-%d' % (a, z)
            if key is not None:
                inc += list(range(a, z + 1))
            else:
                fwd.append((a, z + 1))
                if k == 'nested':
                    nested.append((a, z + 1))
        text.append(b + c)
        if key is not None:
            full.append((key, b + c if comments and c == '  // for X' else b))
            vp.cover('full comments %s' % comments)
    rec = parse(M, section('x.cc', [], [], text), f)
    finish(vp, rec, 'x.cc', [], inc, fwd, nested, [], full)


def h_names(vp, M):
    """Any file name, with and without a base directory; unrelated text around."""
    name = fname(vp)
    base = vp.choose('base', [None, '/r', '/r/'])
    pre = []
    if vp.choose('npre', 2):
        pre = ['', vp.choose('pre', ['x.cc:1:2: warning: ', '#include <no>', '- #include <no>  // lines 1-1']), 'In file']
    eol = vp.choose('eol', ['\n', '\r\n'])
    kind = vp.choose('section', ['edit', 'none'])
    post = ['y.cc should add these lines:', '#include <later>']
    if kind == 'none':
        text = ['(' + name + ' has correct #includes/fwd-decls)']
        add = []
    else:
        add = ['#include <n>']
        text = section(name, add, [], ['#include <n>'], blank=vp.choose('blank', [('', ''), (), ('',)]))
    want = name
    it = iter([l + eol for l in pre + text + post])
    rec = M.fix_includes.IWYUOutputParser().ParseOneRecord(it, M.fixlib.Flags(basedir=base))
    if base and not name.startswith('/'):
        import posixpath
        got = rec.filename
        vp.check(got.startswith('/r/') or got == '/r' or got == '/', 'a relative name is taken relative to the base directory')
        if '..' not in name and '//' not in name and './' not in name and name[0] != ' ' and '/ ' not in name:
            vp.check(got == '/r/' + name, 'a relative name is taken relative to the base directory')
            vp.cover('base')
        want = got
    finish(vp, rec, want, [], [], [], [], add, [('<n>', '#include <n>')] if add else [])
    rest = list(it)
    vp.check(len(rest) == 2, 'reading stops at the end of the section')
    vp.cover(kind)


HEAD = {'add': ' should add these lines:', 'remove': ' should remove these lines:'}


def h_order(vp, M):
    """Headings in any order and for any file: a record comes only from a complete, ordered section."""
    n = vp.choose('n', list(range(1, vp.param('N', 4) + 1)))
    want = None
    state, cur = None, None
    text = []
    nxt = {None: ('add', 'none'), 'add': ('remove',), 'remove': ('total',), 'total': ('end',)}
    for i in range(n):
        h = vp.choose('h%d' % i, ['add', 'remove', 'total', 'end', 'none'])
        f = '' if h == 'end' else vp.choose('f%d' % i, ['x.cc', 'y.cc'])
        text.append('---' if h == 'end' else 'The full include-list for %s:' % f if h == 'total' else
                    '(%s has correct #includes/fwd-decls)' % f if h == 'none' else f + HEAD[h])
        if want is None:
            if f and state is not None and f != cur:
                want = 'error'
            elif h not in nxt[state]:
                want = 'error'
            else:
                state = h
                cur = f or cur
                if h in ('end', 'none'):
                    want = cur
    try:
        rec = parse(M, text, M.fixlib.Flags())
        got = rec.filename if rec is not None else None
    except M.fix_includes.FixIncludesError:
        got = 'error'
    vp.out('got', got)
    vp.check(got == want, 'a record comes exactly from a complete, well-ordered section; a truncated one gives none and a disordered one an error')
    vp.cover('order %s' % want)


def h_stream(vp, M):
    """A whole report: every well-formed section is applied, no other is."""
    m = M.fix_includes
    n = vp.choose('n', list(range(1, vp.param('N', 3) + 1)))
    text, files, want, kinds = [], {}, [], []
    for i in range(n):
        name = 'f%d.cc' % i
        files[name] = vp.bytes('#include "old.h"\nint x;\n')
        k = vp.choose('k%d' % i, ['add', 'remove', 'none', 'empty', 'noline', 'disorder', 'mixed'])
        kinds.append(k)
        add, rem = ['#include "new.h"'], ['- #include "old.h"  // lines 1-1']
        if k == 'add':
            text += section(name, add, [], add)
        elif k == 'remove':
            text += section(name, [], rem, [])
        elif k == 'none':
            text += ['(%s has correct #includes/fwd-decls)' % name]
        elif k == 'empty':
            text += section(name, [], [], [])
        elif k == 'noline':
            text += section(name, add, ['- #include "old.h"'], add)
        elif k == 'disorder':
            text += section(name, add, rem, add)[2:]
        else:
            s = section(name, add, rem, add)
            text += [name.replace('f', 'g') + ' should add these lines:'] + s[1:]
        if k in ('add', 'remove'):
            want.append((name, k))
        if k in ('noline', 'disorder', 'mixed'):
            vp.cover(k)
    if vp.choose('truncated', 2):
        files['t.cc'] = vp.bytes('#include "old.h"\nint x;\n')
        text += section('t.cc', ['#include "new.h"'], [], [])[:vp.choose('cut', [1, 2, 4, 6])]
        vp.cover('truncated')
    fs = M.fixlib.FS(files)
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in text]), None, M.fixlib.Flags(), None))
    vp.check(r == len(want), 'the number of fixed files is returned')
    vp.check([x for x in fs.written] == [x[0] for x in want], 'exactly the files of well-formed sections with changes are written, in report order')
    for name, k in want:
        vp.check(fs.files[name] == (b'#include "new.h"\n#include "old.h"\n\nint x;\n' if k == 'add' else b'int x;\n'), 'the file is edited as its section says')
    bad = [k for k in kinds if k in ('noline', 'disorder', 'mixed')]
    vp.check(('ERROR' in vp.stdout()) == bool(bad), 'malformed sections, and only they, are reported')
