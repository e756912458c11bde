"""Rewriting keeps every line that no edit concerns."""


class L:
    """One line of the source file."""

    def __init__(self, kind, text, ident=0):
        self.kind, self.text = kind, text
        self.dead = False       # goes away
        self.block = None       # opener: index of its closing line
        self.head = ident       # index of the first line of a declaration
        self.last = None


MOV = ('q', 's', 'w', 't')
BLANK, COMMENT = 'b', 'c'


def gen(vp, kinds, n, depth, lines, mov, guard=False):
    """Append up to n items; blocks contain further items."""
    while n > 0:
        k = vp.choose('k%d' % len(lines), ['end'] + kinds + (['if', 'ifelse', 'ns'] if depth else []))
        if k == 'end':
            return 0 if depth == vp.param('D', 1) else n
        n -= 1
        i = len(lines)
        if k in MOV:
            c = vp.strn('n%d' % i, 1, 'az')
            t = {'q': '#include "' + c + '%d.h"' % i, 's': '#include <' + c + '%d>' % i, 'w': 'class ' + c + '%d;' % i, 't': 'template <typename T>'}[k]
            lines.append(L(k, t))
            mov.append(i)
            if k == 't':
                lines.append(L('t', 'class ' + c + '%d;' % i, 0))
                lines[i + 1].head = i
            lines[i].head = i
        elif k == 'b':
            lines.append(L('b', ''))
        elif k == 'c':
            lines.append(L('c', vp.choose('cs%d' % i, ['// c%d', '/* c%d */'] if vp.param('CC', 0) else ['// c%d']) % i))
        elif k == 'm':
            lines.append(L('c', '/* m%d' % i))
            lines.append(L('c', '   m%d */' % i))
        elif k in ('if', 'ifelse'):
            lines.append(L('if', '#if X%d' % i))
            n = gen(vp, kinds, n, depth - 1, lines, mov)
            if k == 'ifelse':
                lines.append(L('else', '#else  // X%d' % i))
                n = gen(vp, kinds, n, depth - 1, lines, mov)
            lines[i].block = len(lines)
            lines.append(L('endif', '#endif  // X%d' % i))
        elif k == 'ns':
            lines.append(L('ns', 'namespace n%d {' % i))
            n = gen(vp, kinds, n, depth - 1, lines, mov)
            lines[i].block = len(lines)
            lines.append(L('nsend', '}  // namespace n%d' % i))
        else:
            lines.append(L('x', {'x': 'int v%d;' % i, 'd': '#define D%d' % i, 'p': '#pragma once  // p%d' % i, 'h': '#pragma pack(push, %d)' % i, 'o': '#pragma pack(pop, %d)' % i, 'a': 'using namespace u%d;' % i}[k]))
    return n


def attached(lines, i):
    """First line of the comments that belong to line i (file-top comments belong to nothing)."""
    j = i
    while j > 0 and lines[j - 1].kind == COMMENT:
        j -= 1
    return j if j > 0 else i


def kill(lines, a, z):
    for j in range(a, z):
        lines[j].dead = True


def settle(lines):
    """Blocks left empty by the removals go, with their comments."""
    again = True
    while again:
        again = False
        for i, l in enumerate(lines):
            if l.block is None or l.dead:
                continue
            inner = lines[i + 1:l.block]
            empty = all(x.dead or x.kind in (BLANK, COMMENT) or (l.kind == 'if' and x.kind == 'else') for x in inner)
            if empty:
                kill(lines, attached(lines, i), l.block + 1)
                again = True


def h_keep(vp, M):
    lines, mov = [], []
    guard = vp.choose('guard', [False, True]) if vp.param('G', 1) else False
    if vp.param('TOP', 0):
        lines.append(L('c', '// top'))
        if vp.choose('topblank', 2):
            lines.append(L('b', ''))
    if guard:
        lines += [L('if', '#ifndef GUARD'), L('x', '#define GUARD')]
        g = len(lines) - 2
    gen(vp, vp.param('K', ['q', 'w', 'x', 'c', 'b']), vp.param('N', 4), vp.param('D', 1), lines, mov)
    if guard:
        lines[g].block = len(lines)
        lines.append(L('endif', '#endif'))
    if vp.param('NEED', 1) and not mov:
        vp.end()
    dele = [i for i in mov if vp.choose('del%d' % i, 2)]
    add = vp.choose('add', vp.param('ADD', [None, '#include "new.h"', 'class New;']))
    name = vp.choose('name', ['x.cc', 'x.h']) if vp.param('SAFE', 0) else 'x.cc'
    flags = M.fixlib.Flags(reorder=vp.choose('reorder', [True, False]), safe_headers=bool(vp.param('SAFE', 0)), blank_lines=bool(vp.param('BL', 0)))
    inc, fwd = [], []
    for i in mov:
        if lines[i].kind in ('q', 's'):
            inc.append(i + 1)
        else:
            fwd.append((i + 1, i + 2 + (lines[i].kind == 't')))
    dl = []
    for i in dele:
        dl += [i + 1] + ([i + 2] if lines[i].kind == 't' else [])
    out = M.fixlib.fix(M, name, [l.text for l in lines], flags, deletes=dl, inc=inc, fwd=fwd, add=[add] if add else [])
    got = M.fixlib.strip_eol(out)
    vp.out('got', got)
    for l in out:
        vp.check(l.endswith('\n') and l.count('\n') == 1, 'every output line ends in one line end')
    # what must remain
    att = {i: attached(lines, i) for i in mov}
    if not (vp.param('SAFE', 0) and name == 'x.h'):
        for i in dele:
            kill(lines, att[i], i + 1 + (lines[i].kind == 't'))
        settle(lines)
    else:
        vp.cover('safe header')
    owner = {}
    for i in mov:
        for j in range(att[i], i):
            owner[j] = i
    where = {}
    want = 0
    for i, l in enumerate(lines):
        if l.kind == BLANK or l.dead:
            continue
        want += 1
        k = [p for p, g in enumerate(got) if g == l.text] if not (l.kind == 't' and l.head == i) else None
        if k is None:
            continue
        vp.check(len(k) == 1, 'every line that no edit concerns is still there, once, unmodified')
        where[i] = k[0]
    for i, l in enumerate(lines):
        if i in mov and l.kind == 't' and not l.dead:
            where[i] = where[i + 1] - 1
            vp.check(where[i] >= 0 and got[where[i]] == l.text, 'a declaration of several lines stays together')
        if l.dead and l.kind != BLANK and l.kind != 't':
            vp.check(not any(g == l.text for g in got), 'removed lines are gone')
    if add:
        want += 1
        vp.check(len([1 for g in got if g == add]) == 1, 'a line to add is there exactly once')
    vp.check(len([1 for g in got if g != '']) == want, 'nothing else appears')
    # order: everything but movable lines (and their comments) is a barrier
    bars = [i for i in sorted(where) if i not in owner and lines[i].kind not in MOV]
    for a, b in zip(bars, bars[1:]):
        vp.check(where[a] < where[b], 'lines that may not move keep their order')
    for i in where:
        if i in owner or lines[i].kind in MOV:
            for b in bars:
                vp.check((where[i] < where[b]) == (i < b), 'no include or declaration moves across other lines')
    for i in mov:
        if not lines[i].dead:
            for j in range(att[i], i):
                vp.check(where[j] == where[i] - (i - j), 'a comment stays right above the line it belongs to')
                vp.cover('attached comment')
    # untouched stretches are verbatim
    pos_add = [p for p, g in enumerate(got) if add and g == add]
    last = None
    for i, l in enumerate(lines):
        if l.kind == BLANK:
            continue
        if i in bars and last is not None and last in bars:
            if not any(where[last] < p < where[i] for p in pos_add):
                vp.check(where[i] - where[last] == i - last, 'blank lines away from any edit stay as they are')
                vp.cover('untouched stretch')
        last = i
    if dele:
        vp.cover('removed')
    if add:
        vp.cover('added')
    if any(l.block is not None and l.dead for l in lines):
        vp.cover('emptied block')


def h_dup(vp, M):
    """Repeated includes at the top level collapse to the first; elsewhere they stay."""
    n = vp.param('N', 4)
    lines, inblock, blk = [], [], False
    gone = []
    for i in range(n):
        k = vp.choose('k%d' % i, ['inc', 'inccom', 'if', 'code', 'blank'])
        if k == 'if':
            if blk:
                lines.append('#endif')
            else:
                lines.append('#if X')
            blk = not blk
        elif k == 'code':
            lines.append('int v%d;' % i)
        elif k == 'blank':
            lines.append('')
        else:
            lines.append('#include "' + vp.strn('n%d' % i, 1, 'ab') + '.h"' + ('  // why' if k == 'inccom' else ''))
            if vp.choose('del%d' % i, 2):
                gone.append(i + 2)   # line 1 comes before
        inblock.append(blk)
    if blk:
        lines += ['int e;', '#endif']
        inblock += [True, True]
    lines = ['int a;'] + lines
    inblock = [False] + inblock
    out = M.fixlib.strip_eol(M.fixlib.fix(M, 'x.cc', lines, M.fixlib.Flags(reorder=vp.choose('reorder', [True, False])), deletes=gone, inc=gone))
    vp.out('got', out)
    seen, want = [], []
    for j, (l, b) in enumerate(zip(lines, inblock)):
        if j + 1 in gone:
            vp.cover('removed duplicate')
            continue
        if l[:1] == '#' and l[:4] == '#inc':
            key = l[:14]
            if not b:
                if any(key == s for s in seen):
                    vp.cover('duplicate')
                    continue
                seen.append(key)
            else:
                vp.cover('in conditional')
            want.append(l)
    got = [g for g in out if g[:4] == '#inc']
    vp.check(len(got) == len(want), 'an include is kept unless the same one stands before it at the top level')
    for w in want:
        vp.check(len([1 for g in got if g == w]) == len([1 for x in want if x == w]), 'each kept include is there as often as before')


def h_refuse(vp, M):
    """A report that does not fit the file is refused."""
    n = vp.param('N', 3)
    kinds = [vp.choose('k%d' % i, ['inc', 'code', 'com', 'blank', 'fwd']) for i in range(n)]
    text = [{'inc': '#include "a%d.h"', 'code': 'int v%d;', 'com': '// c%d', 'blank': '', 'fwd': 'class C%d;'}[k] for k in kinds]
    text = [t % i if '%' in t else t for i, t in enumerate(text)]
    fwd = [(i + 1, i + 2) for i, k in enumerate(kinds) if k == 'fwd']
    what = vp.choose('what', ['delete', 'include', 'fwd'])
    ln = vp.int('line', 1, n + 2)
    dele, inc = [], []
    m = M.fix_includes
    if what == 'delete':
        dele = [ln]
    elif what == 'include':
        inc = [ln]
    else:
        fwd = fwd + [(ln, ln + 1)]
    try:
        M.fixlib.fix(M, 'x.cc', text, M.fixlib.Flags(), deletes=dele, inc=inc, fwd=fwd)
        ok = True
    except m.FixIncludesError:
        ok = False
    k = int(ln)
    if k > n:
        vp.check(not ok, 'a line number past the end of the file is refused')
        vp.cover('past end')
    else:
        fits = {'delete': ('inc', 'fwd'), 'include': ('inc',), 'fwd': ('inc', 'fwd', 'code', 'com', 'blank')}[what]
        vp.check(ok == (kinds[k - 1] in fits), 'a line number that names another kind of line is refused')
        vp.cover('fits' if ok else 'refused')


def h_stale(vp, M):
    """Reports of which some line numbers no longer fit, given as text."""
    n = vp.param('N', 3)
    kinds = [vp.choose('k%d' % i, ['inc', 'code']) for i in range(n)]
    text = ['#include "a%d.h"' % i if k == 'inc' else 'int v%d;' % i for i, k in enumerate(kinds)]
    ok = True
    rem, total = [], []
    for i in range(vp.choose('nrem', 2)):
        ln = vp.choose('r%d' % i, list(range(1, n + 2)))
        rem.append('- #include "r%d.h"  // lines %d-%d' % (i, ln, ln))
        ok = ok and ln <= n and kinds[ln - 1] == 'inc'
    for i in range(vp.choose('ntotal', 4)):
        ln = vp.choose('t%d' % i, list(range(0, n + 2)))
        total.append('#include "t%d.h"' % i + ('  // lines %d-%d' % (ln, ln) if ln else vp.choose('w%d' % i, ['', '  // for X'])))
        if ln:
            ok = ok and ln <= n and kinds[ln - 1] == 'inc'
    m = M.fix_includes
    rep = (['f.cc should add these lines:', '#include "new.h"', '', 'f.cc should remove these lines:'] + rem +
           ['', 'The full include-list for f.cc:'] + total + ['---', ''])
    fs = M.fixlib.FS({'f.cc': vp.bytes('\n'.join(text) + '\n')})
    r = M.fixlib.with_fs(vp, M, fs, lambda: m.ProcessIWYUOutput(iter([l + '\n' for l in rep]), None, M.fixlib.Flags(), None))
    vp.check((r == 1) == ok, 'a report is applied exactly when every include it locates is where it says')
    vp.check(ok or fs.files['f.cc'] == fs.orig['f.cc'], 'a refused report changes nothing')
    vp.cover('applied' if ok else 'stale')
