import py
A = [None, '#include "new.h"', 'class New;', '#include <new>']
py.check('P03', 'p03_rewrite.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_keep', params={'N': 3, 'D': 1, 'K': ['q', 'w', 'x', 'c', 'b']}, thorough={'N': 4}, every=11),
    dict(entry='h_keep', params={'N': 4, 'D': 1, 'K': ['q', 'x', 'b'], 'G': 0}, thorough={'N': 5}, every=11),
    dict(entry='h_keep', params={'N': 3, 'D': 0, 'TOP': 1, 'K': ['q', 'w', 'c', 'b'], 'G': 1}, thorough={'N': 4}, every=5),
    dict(entry='h_keep', params={'N': 3, 'D': 0, 'G': 0, 'K': ['q', 's', 't', 'm', 'd', 'p', 'a', 'c', 'h', 'o'], 'CC': 1, 'ADD': A, 'BL': 1}, thorough={'N': 4}, every=7),
    dict(entry='h_keep', params={'N': 4, 'D': 2, 'G': 0, 'K': ['w'], 'ADD': [None]}, every=7, thorough={'K': ['q', 'x']}),
    dict(entry='h_keep', params={'N': 3, 'D': 1, 'K': ['q', 'w', 'c'], 'SAFE': 1}, every=7),
    dict(entry='h_dup', params={'N': 4}, every=7), dict(entry='h_refuse'), dict(entry='h_stale', params={'N': 2}, thorough={'N': 3}, every=11),
], must_cover=['removed', 'added', 'emptied block', 'attached comment', 'untouched stretch', 'duplicate', 'in conditional', 'past end', 'fits', 'refused', 'applied', 'stale', 'removed duplicate', 'safe header'],
    bounds='files of up to 4 (thorough 5) items - includes, one- and two-line declarations, line and block comments, blanks, defines, pragmas, code, conditionals with and without else and namespaces nested up to twice - with and without header guard and top comment, symbolic include and declaration names, every subset removed, nothing or one line added, both reorder settings; line numbers up to 2 past the end, in reports with up to one removal and three listed includes',
    outside='longer files; lines that are both comment and code', stubs=['file access is an in-memory stand-in'])
