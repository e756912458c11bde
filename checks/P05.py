import py
F = ['dir/foo.cc', 'foo.cc', 'dir/foo_test.cc', 'foo_unittest.cc', 'x/foo_regtest.cpp', 'dir/internal/foo.cc', 'foo', 'dir.d/foo']
py.check('P05', 'p05_order.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_sort', params={'N': 3, 'K': ['sysc', 'sys', 'q', 'w'], 'T': 1, 'BL': [True]}, every=41, thorough={'N': 4}),
    dict(entry='h_sort', params={'N': 2, 'K': ['sysc', 'sys', 'q', 'foo', 'w']}, every=11, thorough={'N': 3}),
    dict(entry='h_sort', params={'N': 2, 'K': ['foo', 'q', 'assoc', 'sysc'], 'QF': [False], 'FILES': F, 'T': 1, 'RE': [True], 'BL': [True]}, every=11, thorough={'N': 3, 'SP': ['#include ', '# include  ']}),
    dict(entry='h_sort', params={'N': 2, 'K': ['proj', 'q', 'inl', 'w'], 'SP': ['#include ', '# include  '], 'PROJ': [None, '<tld>', 'dir/', 'own/'], 'GAP': [0, 1], 'T': 2}, every=41, thorough={'N': 3}),
    dict(entry='h_sort', params={'N': 2, 'K': ['foo', 'sys'], 'STEMS': ['foo', 'oo', 'afoo', 'foo_test'], 'DIRS': ['', 'dir/', 'y/'], 'FILES': ['dir/foo.cc', 'foo_test.cc', 'y/afoo.cc'], 'T': 1, 'QF': [False], 'BL': [True], 'RE': [True]}, every=11, thorough={'N': 3, 'DIRS': ['', 'dir/']}),
    dict(entry='h_sort', params={'N': 2, 'K': ['sysc', 'sys', 'q', 'w'], 'WHY': ['', '  // as in v1.2', ' // for "a.h" <b>', '  /* x.y */'], 'PRE': [0, 1], 'T': 1, 'BL': [True]}, every=11, thorough={'N': 3, 'WHY': ['', '  // as in v1.2']}),
    dict(entry='h_barrier', params={'N': 4}, every=7, thorough={'N': 5}), dict(entry='h_set', params={'N': 3}, every=11, thorough={'N': 4}), dict(entry='h_place', params={'N': 3}, every=7, thorough={'N': 4}),
], must_cover=['three', 'kind1', 'kind2', 'kind3', 'kind4', 'kind5', 'gap', 'reorder True', 'reorder False', 'comment above', 'barrier', 'set', 'joins', 'before code', 'other kind', 'com', 'guard', 'comguard', 'once', 'guardcom'],
    bounds='blocks of up to 3 (thorough 4) includes and declarations of every kind with symbolic names, eight edited-file names, own-header spellings in four directories and six extensions, three project settings, headers whose name is only a part of that of the edited file, comments above and behind a line, both reorder/blank/quoted-first settings; barriers among 4 lines; every permutation of a block; a new include, system include or declaration in files of 7 head shapes and up to 3 (4) body parts',
    outside='longer blocks', stubs=[])
