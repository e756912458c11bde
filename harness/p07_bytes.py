"""Bytes, line numbers and line ends of the edited file."""


def ends(vp, b):
    """Offsets just after each real line end of the byte string."""
    r = []
    i = 0
    n = len(b)
    while i < n:
        c = b[i:i + 1]
        if c == b'\n':
            r.append(i + 1)
        elif c == b'\r':
            if i + 1 < n and b[i + 1:i + 2] == b'\n':
                i += 1
            r.append(i + 1)
        i += 1
    return r


def h_bytes(vp, M):
    """Read, count, write back."""
    m = M.fix_includes
    b = vp.bytes((vp.choose('bom', ['', '\xef\xbb\xbf']) if vp.param('BOM', True) else '') + vp.str('b', 0, vp.param('N', 4), vp.param('A', 'a\n\r\x0c\x1c\x85\xc2\xa8\xe2\x80')))
    fs = M.fixlib.FS({'f': b})

    def go():
        info = m.FileInfo.parse('f')
        lines = m._ReadFile('f', info)
        vp.check(lines is not None, 'every file can be read')
        m._WriteFile('f', info, list(lines))
        return info, lines
    info, lines = M.fixlib.with_fs(vp, M, fs, go)
    vp.out('lines', lines)
    vp.out('back', fs.files['f'])
    vp.check(fs.files['f'] == b, 'a file written back unchanged keeps its bytes')
    e = ends(vp, b)
    n = len(e) + (1 if len(b) and (not e or e[-1] != len(b)) else 0)
    if info.encoding == 'utf-8-sig':
        vp.cover('bom')
        if len(b) == 3:
            n = 0
    vp.check(len(lines) == n, 'lines are those of the compiler')
    for l in lines[:-1]:
        vp.check(vp.Or(l[-1:] == '\n', l[-1:] == '\r'), 'every line but the last ends with a line end')
    for l in lines:
        k = len(l) - 1
        if k > 0 and l[k] == '\n' and l[k - 1] == '\r':
            k -= 1
        vp.check(vp.And(*[vp.And(l[j] != '\n', l[j] != '\r') for j in range(k)]), 'a line holds no line end inside')
    win = unix = 0
    for i in e:
        if b[i - 1:i] == b'\n':
            if i > 1 and b[i - 2:i - 1] == b'\r':
                win += 1
            else:
                unix += 1
    if win > unix:
        vp.check(info.linesep == '\r\n', 'the line end most used')
        vp.cover('win')
    elif unix > win:
        vp.check(info.linesep == '\n', 'the line end most used')
        vp.cover('unix')
    vp.cover(info.encoding)


def h_edit(vp, M):
    """An edit of a file with odd bytes: the right line goes, all other bytes stay."""
    m = M.fix_includes
    # the bytes before the includes are inside comments
    n = vp.param('N', 2)
    eol = vp.choose('eol', ['\n', '\r\n'])
    bom = vp.choose('bom', ['', '\xef\xbb\xbf']) if vp.param('BOM', False) else ''
    alpha = vp.param('A', 'a\n\x0c\x85\xe9')
    p = '/*' + vp.strn('p', n, alpha) + '*/' + eol + 'int x;' + vp.choose('xl', vp.param('XL', ['', '\x0c', '\r'])) + eol
    s = 'int y;' + eol + '//' + vp.strn('s', n, alpha) + vp.choose('last', ['', eol])
    inc = ['#include "b.h"', '#include "c.h"']
    b = bom + p + ''.join(l + eol for l in inc) + eol + s
    before = vp.bytes(bom + p)
    start = len(ends(vp, before)) + 1
    add = vp.choose('add', [None, '#include "d.h"', 'class Q;'])
    text = ['f.cc should add these lines:'] + ([add] if add else []) + ['', 'f.cc should remove these lines:']
    k = vp.choose('del', 3)
    if k < 2:
        text += ['- %s  // lines %d-%d' % (inc[k], start + k, start + k)]
    vp.assume(bool(add) or k < 2)
    text += ['', 'The full include-list for f.cc:'] + ['%s  // lines %d-%d' % (inc[j], start + j, start + j) for j in range(2) if j != k] + ['---', '']
    fs = M.fixlib.FS({'f.cc': vp.bytes(b)})
    flags = M.fixlib.Flags(reorder=vp.choose('reorder', vp.param('RE', [True])), blank_lines=False)
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in text]), None, flags, None))
    got = fs.files['f.cc']
    vp.out('got', got)
    vp.check(r == 1, 'the file is fixed')
    crs = lines = 0
    for x in ends(vp, vp.bytes(b)):
        if vp.bytes(b)[x - 1:x] == b'\n':
            lines += 1
            if x > 1 and vp.bytes(b)[x - 2:x - 1] == b'\r':
                crs += 1
    # the bound keeps the file's own line end in the majority
    vp.assume((crs * 2 > lines) == (eol == '\r\n') and crs * 2 != lines)
    incs = [inc[j] for j in range(2) if j != k] + ([add] if add and add[0] == '#' else [])
    fwd = add is not None and add[0] == 'c'
    mid = ''.join(l + eol for l in incs)
    head = vp.bytes(bom + p)
    vp.check(got[:len(head)] == head, 'bytes before the includes stay')
    tail = vp.bytes(s)
    vp.check(got[len(got) - len(tail):] == tail, 'bytes after the includes stay')
    rest = got[len(head):len(got) - len(tail)]
    opts = [mid + eol]
    if fwd:
        # with or without blank lines around the declaration
        opts = [mid + x + add + eol + y for x in ('', eol) for y in ('', eol)]
    vp.check(vp.Or(*[rest == vp.bytes(o) for o in opts]), 'exactly the listed line goes, and an added one has the line end of the file')
    vp.cover('edit')
    vp.cover('add' if add else 'noadd')
