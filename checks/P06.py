import py
MORE = ['q', 'sysc', 'own', 'inl', 'why', 'assoc', 'barrier', 'com', 'fwd', '', 'int x;', '#if A', '#else', '#endif', '#pragma once', '#ifndef G', '#define G', 'namespace n {', '}', '/* c */', '  // c']
py.check('P06', 'p06_idem.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_twice', params={'N': 3}, every=41, thorough={'N': 4}),
    dict(entry='h_twice', params={'N': 3, 'K': MORE, 'FILES': ['dir/foo.h'], 'QF': [False], 'RE': [True], 'SAFE': [False], 'HEAD': [[]]}, every=41, thorough={'N': 4, 'TAIL': [['int z;']]}),
    dict(entry='h_twice', params={'N': 2, 'EOL': ['\r\n'], 'K': ['q', 'sys', '', 'com', 'int x;'], 'QF': [False], 'SAFE': [False]}, every=11, thorough={'N': 3}),
    dict(entry='h_report', params={'N': 2}, every=41, thorough={'N': 3}),
], must_cover=['sorted', 'changed', 'report'],
    bounds='every file of up to 3 (thorough 4) lines of 8 kinds under every order, blank-line, quoted-first and safe-headers setting, and of 21 kinds (guards, conditionals, pragmas, namespaces, comments) for a header, sorted twice (up to 2, thorough 3, lines also with Windows line ends); a report with any removals and four kinds of additions over up to 2 (3) lines followed by a sort and by a report without change',
    outside='longer files', stubs=['file access is an in-memory stand-in'])
