import py
py.check('P08', 'p08_many.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_many', params={'K': 3}, every=11, thorough={'K': 3}), dict(entry='h_diff', every=3), dict(entry='h_sort', params={'K': 2}, every=5, thorough={'K': 3}),
], must_cover=['change', 'nochange', 'correct', 'mismatch', 'range', 'absent', 'unreadable', 'readfail', 'unopenable', 'writefail', 'unencodable', 'malformed', 'empty', 'deselected', 'dry', 'shown', 'none', 'main', 'sorted'],
    bounds='every combination of 14 outcomes (faults at open, read, open for writing and write, reports that do not fit, absent and unselected files) over 3 files, real and dry runs; the shown difference for 5 kinds of report and 4 kinds of file; sort-only runs through the command line',
    outside='a write that fails half way leaves what was written', stubs=['file access is an in-memory stand-in with symbolic faults'])
