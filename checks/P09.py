import py
ONE = ['namespace a { class %s; }', 'namespace a { namespace b { class %s; } }', 'namespace a { namespace { class %s; } }', 'namespace { class %s; }', 'namespace a { class %s; }  // keep', 'namespace a {class %s;}', 'namespace a { class %s; class Z; }']
py.check('P09', 'p09_fwd.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_ns', params={'N': 3}, every=41, thorough={'N': 4}),
    dict(entry='h_ns', params={'N': 3, 'K': ['ns', 'decl', 'one', 'com', 'inc', 'tmpl'], 'O': ['std', 'com', 'cxx17', 'macro'], 'ONE': ONE, 'COM': ['// keep', '// keep namespace a { class B; }'], 'X17': True, 'P': [[], ['a'], ['a', 'b'], ['a', '']]}, every=41, thorough={'N': 4}),
    dict(entry='h_many', params={'N': 2, 'P': [['?'], ['?', '?'], ['?', '?', '?']]}, every=11, thorough={'N': 3, 'P': [['?'], ['?', '?']]}),
    dict(entry='h_many', params={'N': 2}, every=11, thorough={'N': 3}),
], must_cover=['std', 'anon', 'two', 'allman', 'mixed', 'macro', 'cxx17', 'com', 'one', 'comment', 'trailing', 'ns', 'removed', 'added', 'many'],
    bounds='every file of up to 3 (thorough 4) lines of 6 kinds (nine spellings of a namespace opening, one-line and separate declarations, templates, comments, code, includes) with symbolic namespace and class names, every removal, one added declaration in up to three namespaces; 2 (3) additions of four kinds in seven namespaces and in every namespace path of up to three symbolic names into three files',
    outside='deeper nesting; conditionals inside namespaces; braces in comments of a namespace line', stubs=[])
