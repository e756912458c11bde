import py
ALL = ''.join(map(chr, range(256)))
SOME = ''.join(map(chr, range(128))) + '\x81\x83\x85\x88\x8d\x90\x98\xa0\xa8\xc2\xe2\xff'
py.check('P07', 'p07_bytes.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_bytes', params={'N': 4, 'A': 'a\n\r\x0c\x85\xc2'}, every=11, thorough={'N': 5, 'A': 'a\n\r\x0c\x1c\x85\xc2\xa8\xe2\x80'}), dict(entry='h_bytes', params={'N': 1, 'A': ALL}, every=11, thorough={'N': 2}),
    dict(entry='h_bytes', params={'N': 2, 'A': SOME}, every=11, thorough={'N': 3}),
    dict(entry='h_edit', params={'N': 1}, every=11, thorough={'N': 2, 'BOM': True, 'RE': [False, True], 'A': 'a\n\x0c\x1c\x85\xc2\xe9', 'XL': ['', ' \t', '\x0c', '\r']}),
], must_cover=['bom', 'win', 'unix', 'ascii', 'utf-8', 'utf-8-sig', 'windows-1250', 'windows-1252', 'latin-1', 'edit', 'add', 'noadd'],
    bounds='every file of up to 4 (thorough 5) bytes over letters, line ends, form feed and UTF-8 lead and tail bytes, with and without a byte order mark, and every file of 1 (2) arbitrary bytes, of up to 2 (3) ASCII and 12 selected other bytes; an edit of a file with 1 (2) such bytes before and after the includes',
    outside='longer files; encodings the program does not name', stubs=['file access is an in-memory stand-in'])
