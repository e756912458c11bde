"""Several files in one run, some of them failing."""

STATES = ['change', 'nochange', 'correct', 'mismatch', 'range', 'absent', 'unreadable', 'readfail', 'unopenable', 'writefail', 'unencodable', 'malformed', 'empty', 'deselected']
FAULTY = {'unreadable': 'open', 'readfail': 'read', 'unopenable': 'openw', 'writefail': 'write'}


def section(name, add, remove, total):
    return ([name + ' should add these lines:'] + add + ['', name + ' should remove these lines:'] + remove +
            ['', 'The full include-list for ' + name + ':'] + total + ['---', ''])


def report(name, st, x):
    """-> lines of the tool's report, bytes of the file, bytes after the run"""
    old = '#include "a.h"\n#include "%s.h"\n\nint x;\n' % x
    if st == 'correct':
        return ['(%s has correct #includes/fwd-decls)' % name], old, old
    if st == 'nochange':
        # removals in headers are ignored in this mode
        return section(name, [], ['- #include "a.h"  // lines 1-1'], []), old, old
    if st == 'mismatch':
        return section(name, [], ['- #include "%s.h"  // lines 4-4' % x], []), old, old
    if st == 'range':
        return section(name, [], ['- #include "%s.h"  // lines 9-9' % x], []), old, old
    if st == 'malformed':
        return [name + ' should add these lines:', '', name + ' should remove these lines:', 'bogus', '', 'The full include-list for ' + name + ':', '---', ''], old, old
    if st == 'unencodable':
        return section(name, ['#include "\u00e9.h"'], [], ['#include "a.h"']), old, old
    if st == 'empty':
        return section(name, ['#include "a.h"'], [], ['#include "a.h"']), '', ''
    return section(name, [], ['- #include "%s.h"  // lines 2-2' % x], ['#include "a.h"']), old, '#include "a.h"\n\nint x;\n'


def run(vp, M, n, mode):
    m = M.fix_includes
    st = [vp.choose('st%d' % i, [s for s in vp.param('S', STATES)]) for i in range(n)]
    names = ['f%d.%s' % (i, 'h' if st[i] == 'nochange' else 'cc') for i in range(n)]
    xs = [vp.strn('x%d' % i, 1, 'bz') for i in range(n)]
    text, files, want = [], {}, {}
    for f, s, x in zip(names, st, xs):
        t, a, b = report(f, s, x)
        text += t
        if s != 'absent':
            files[f] = vp.bytes(a)
            want[f] = vp.bytes(b) if s == 'change' and not mode else vp.bytes(a)
    state = dict(zip(names, st))
    fs = M.fixlib.FS(files, lambda op, name: FAULTY.get(state.get(name)) == op)
    only = set(f for f in names if state[f] != 'deselected') if 'deselected' in st else None
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in text]), only, M.fixlib.Flags(dry_run=mode, safe_headers=True), None))
    return names, state, files, want, fs, r, xs


def h_many(vp, M):
    n = vp.param('K', 2)
    dry = vp.choose('dry', [False, True])
    names, state, files, want, fs, r, xs = run(vp, M, n, dry)
    out = vp.stdout() + vp.stderr()
    vp.out('r', r)
    vp.out('out', out)
    fixed = 0
    for f in names:
        s = state[f]
        if s == 'change':
            fixed += 1
        if dry and s in ('unopenable', 'writefail', 'unencodable'):
            # nothing is written, so nothing fails; the change is shown
            fixed += 1
        if f in files and not (s == 'writefail' and not dry):
            vp.check(fs.files[f] == want[f], 'a file is fixed as its report says, or left exactly as it was')
        if s in ('deselected',):
            vp.check(('open', f) not in fs.log, 'a file that was not asked for is not even opened')
        if s != 'change' or dry:
            vp.check(f not in fs.written or s == 'writefail', 'a file that needs no change is not written')
        else:
            vp.check(fs.written.count(f) == 1, 'a file that changes is written once')
        if s in ('absent', 'unreadable', 'readfail', 'mismatch', 'range') or (s in ('unopenable', 'writefail', 'unencodable') and not dry):
            vp.check(f in out, 'a file that cannot be fixed is named')
        vp.cover(s)
    if dry:
        vp.check(fs.written == [], 'a dry run writes nothing')
        vp.cover('dry')
    vp.check(r == fixed, 'the result counts the files fixed')
    vp.check('IWYU edited %d files' % fixed in out, 'the summary counts the files fixed')


def h_diff(vp, M):
    """What a dry run shows is what a real run does."""
    m = M.fix_includes
    x = vp.choose('x', ['b', 'z'])
    s = vp.choose('s', ['change', 'nochange', 'correct', 'add', 'addfirst'])
    name = 'f.h' if s == 'nochange' else 'f.cc'
    eol = vp.choose('eol', ['\n', '\r\n'])
    more = vp.choose('more', ['', '// tail' + eol, 'int y;', '#include "c.h"' + eol])
    t, a, b = report(name, s, x)
    if s == 'add':
        t = section('f.cc', ['#include "y.h"', 'class Q;'], [], [])
    if s == 'addfirst':
        t = section('f.cc', ['#include "0.h"'], ['- #include "a.h"  // lines 1-1'], [])
    a = a.replace('\n', eol) + more
    real = M.fixlib.FS({name: vp.bytes(a)})
    flags = dict(safe_headers=True, reorder=vp.choose('reorder', [False, True]))
    r1 = M.fixlib.with_fs(vp, M, real, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in t]), None, M.fixlib.Flags(**flags), None))
    before = len(vp.stdout())
    fs = M.fixlib.FS({name: vp.bytes(a)})
    r2 = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in t]), None, M.fixlib.Flags(dry_run=True, **flags), None))
    text = vp.stdout()[before:]
    vp.out('text', text)
    vp.check(fs.files[name] == vp.bytes(a) and fs.written == [], 'a dry run changes nothing')
    vp.check(r1 == r2, 'a dry run counts what a real run fixes')
    old, new, on = [], [], False
    for l in text.split('\n'):
        if l.startswith('@@'):
            on = True
        elif l.startswith('IWYU edited'):
            break
        elif on:
            if l[:1] != '+':
                old.append(l[1:])
            if l[:1] != '-':
                new.append(l[1:])
    if r1:
        vp.check(on, 'a change is shown')
        vp.check([l.rstrip() for l in a.split('\n')][:len(old)] == old, 'the lines shown as old are those of the file')
        vp.check(vp.eq([l.rstrip() for l in real.files[name].decode('ascii').split('\n')][:len(new)], new), 'the lines shown as new are those of the fixed file')
        vp.cover('shown')
    else:
        vp.check(not on, 'no change is shown when there is none')
        vp.check(real.written == [], 'a file without change is not written')
        vp.cover('none')


def h_sort(vp, M):
    """The sort-only mode goes through the same gate."""
    m = M.fix_includes
    n = vp.param('K', 2)
    names = ['f%d.cc' % i for i in range(n)]
    state, files, want = {}, {}, {}
    dry = vp.choose('dry', [False, True])
    fixed = 0
    for i, f in enumerate(names):
        s = vp.choose('st%d' % i, ['any', 'absent', 'unreadable', 'readfail', 'unopenable', 'writefail', 'empty'])
        state[f] = s
        a, b = vp.strn('a%d' % i, 1, 'pq'), vp.strn('b%d' % i, 1, 'pq')
        x, y = '#include "%s.h"\n' % a, '#include "%s.h"\n' % b
        tail = '\nint z;\n'
        if s != 'absent':
            files[f] = vp.bytes('' if s == 'empty' else x + y + tail)
            want[f] = files[f]
        if s in ('any', 'unopenable', 'writefail'):
            # equal lines collapse, others are sorted
            after = x + tail if a == b else x + y + tail if a < b else y + x + tail
            if not vp.eq(vp.bytes(after), files[f]):
                if s == 'any' or dry:
                    fixed += 1
                if s == 'any' and not dry:
                    want[f] = vp.bytes(after)
    fs = M.fixlib.FS(files, lambda op, name: FAULTY.get(state.get(name)) == op)
    argv = ['fix_includes.py', '-s', '--reorder'] + (['-n'] if dry else []) + names
    if vp.choose('main', [True, False]):
        r = M.fixlib.with_fs(vp, M, fs, lambda: m.main(argv))
        vp.check(r == 0, 'a run that ended without critical error returns zero')
        vp.cover('main')
    else:
        r = M.fixlib.with_fs(vp, M, fs, lambda: m.SortIncludesInFiles(names, M.fixlib.Flags(dry_run=dry, sort_only=True)))
        vp.check(r == fixed, 'the result counts the files fixed')
    for f in files:
        if state[f] != 'writefail' or dry:
            vp.check(fs.files[f] == want[f], 'sorted, or left exactly as it was')
    vp.check('IWYU edited %d files' % fixed in vp.stdout(), 'the summary counts the files fixed')
    if dry:
        vp.check(fs.written == [], 'a dry run writes nothing')
    vp.cover('sorted')
