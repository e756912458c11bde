import py
py.check('P02', 'p02_merge.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_merge', params={'R': 2}, every=13, thorough={'R': 3}), dict(entry='h_sets', every=5, thorough={'N3': True}), dict(entry='h_template', every=3),
], must_cover=['correct', 'agreed removal', 'added', 'nothing agreed', 'sets', 'same', 'different'],
    bounds='2 (thorough 3) reports for one file, every subset of 3 removable and 3 addable lines per report, four spellings of the file name; merged fact sets with symbolic membership and names',
    outside='more reports per file', stubs=['file access is an in-memory stand-in'])
