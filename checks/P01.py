import py
py.check('P01', 'p01_parse.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_add', params={'N': 2}, thorough={'N': 3}, every=7), dict(entry='h_remove', params={'N': 2}, thorough={'N': 3}, every=7),
    dict(entry='h_digits'), dict(entry='h_total', params={'N': 2}, every=7, thorough={'N': 3}), dict(entry='h_names', every=11),
    dict(entry='h_order', params={'N': 5}, thorough={'N': 6}, every=7), dict(entry='h_stream', params={'N': 2}, thorough={'N': 3}, every=3),
], must_cover=['two adds', 'same twice', 'nested', 'remove', 'digits', 'full comments True', 'full comments False', 'base', 'edit', 'none', 'order x.cc', 'order error', 'order None', 'noline', 'disorder', 'mixed', 'truncated'],
    bounds='one section with up to 2 (thorough 3) lines per list of every kind, symbolic names of 2 characters and every listed line span; every sequence of up to 5 (6) headings over two files; reports of up to 2 (3) sections of 7 kinds plus a truncated one',
    outside='longer lists; include names containing //', stubs=['file access is an in-memory stand-in'])
