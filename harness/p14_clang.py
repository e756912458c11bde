"""Compiler-style formatting of a report."""


def h_report(vp, M):
    t = M.iwyu_tool
    style = vp.choose('style', ['clang', 'clang-warning'])
    word = {'clang': 'error', 'clang-warning': 'warning'}[style]
    text, want = '', []
    nsec = vp.choose('sections', vp.param('S', [1, 2]))
    full = nsec - 1   # the last section is general; earlier ones take fewer forms
    maxl = vp.param('L', 2)
    for s in range(nsec):
        f = vp.strn('file%d' % s, 2, 'ab/.') + '.cc'
        g = vp.choose('general%d' % s, 3) if s == 0 or vp.param('MID', 0) else 0
        if g:
            m = 'a.cc:' + vp.strn('gen%d' % s, 1, '1x ') + ': warning: ' + vp.strn('genb%d' % s, 1, '-a#(')
            text += m + '\n'
            want.append(m)
            if g == 2:
                text += '\n'
        if vp.choose('correct%d' % s, 2):
            text += '\n(' + f + ' has correct #includes/fwd-decls)\n'
            want.append(f + ':1:1: note: #includes/fwd-decls are correct')
            vp.cover('correct')
            continue
        text += '\n' + f + ' should add these lines:\n'
        for i in range(vp.choose('nadd%d' % s, maxl + 1) if s == full else 1):
            n = '#include <' + vp.str('add%d%d' % (s, i), 1, 2, 'a/.') + '>'
            c = vp.choose('why%d%d' % (s, i), 3) if s == full else 1
            if c == 0:
                text += n + '\n' + ('\n' if vp.param('BLANKS', 0) and vp.choose('blank%d%d' % (s, i), 2) else '')
                want.append("%s:1:1: %s: add '%s'" % (f, word, n))
            elif c == 1:
                why = 'for ' + vp.strn('sym%d%d' % (s, i), 2, 'a,/ ')
                text += n + '  // ' + why + '\n'
                want.append("%s:1:1: %s: add '%s' (%s)" % (f, word, n, why))
                vp.cover('add why')
            else:
                d = 'namespace a { class ' + vp.strn('cls%d%d' % (s, i), 1, 'AB') + '; }'
                text += d + '\n'
                want.append("%s:1:1: %s: add '%s'" % (f, word, d))
        text += '\n' + f + ' should remove these lines:\n'
        for i in range(vp.choose('nrem%d' % s, vp.param('LR', maxl) + 1) if s == full else 1):
            n = '#include "' + vp.str('rem%d%d' % (s, i), 1, 2, 'a-/') + '"'
            a = vp.strn('line%d%d' % (s, i), 2, '1270')
            k = vp.choose('lines%d%d' % (s, i), 3) if s == full else 1
            if k == 0:
                text += '- ' + n + '  // lines ' + a + '-' + a + '\n'
                want.append("%s:%s:1: %s: superfluous '%s'" % (f, a, word, n))
                vp.cover('remove')
            elif k == 1:
                text += '- ' + n + '  // lines ' + a + '-99\n'
                want.append("%s:%s:1: %s: superfluous '%s'" % (f, a, word, n))
            else:
                # reports without comments carry no line numbers
                text += '- ' + n + '\n'
                want.append("%s:1:1: %s: superfluous '%s'" % (f, word, n))
                vp.cover('remove without line')
        text += '\nThe full include-list for ' + f + ':\n'
        for i in range(vp.choose('nlist%d' % s, 2) if s == full else 1):
            text += '#include <' + vp.strn('full%d%d' % (s, i), 1, 'ab') + '>  // for x\n'
        text += '---\n'
    if vp.param('MID', 0) and vp.choose('last', 2):
        m = 'b.cc:2: ' + vp.strn('lastm', 1, 'a-(#')
        text += m + '\n'
        want.append(m)
        vp.cover('last')
    got = t.FORMATTERS[style](text)
    vp.out('got', got)
    vp.check(vp.eq(got, '\n'.join(want)), 'every add, remove and verdict appears once, in order, with its file, line and text')


def h_iwyu(vp, M):
    s = vp.str('s', 0, vp.param('N', 4), 'a\n- #')
    vp.check(vp.eq(M.iwyu_tool.FORMATTERS['iwyu'](s), s), 'the default format passes the report through')
    vp.cover('plain')
