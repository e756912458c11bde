import py
py.check('P04', 'p04_options.py', ['fix_includes', 'fixlib'], [
    dict(entry='h_safe', params={'N': 4}, every=7, thorough={'N': 5}), dict(entry='h_restrict', every=7, thorough={'N': 4}), dict(entry='h_text', every=41),
], must_cover=['source', 'header', 'safe', 'unsafe', 'selected', 'skipped', 'comments', 'nocomments', 'reorder', 'noreorder', 'keep', 'normal', 'blank', 'noblank', 'update', 'untouched'],
    bounds='file names with every extension of up to 3 (thorough 4) characters over .chxpC+H in three directories and every safe-headers setting; two files with names of 3 (4) characters against 6 x 6 restriction and ignore patterns, a base directory and a file list; every combination of the comment, order, blank-line, namespace and quoted-first options over a file of four includes with symbolic names',
    outside='patterns other than the six; more files', stubs=['file access and standard input are in-memory stand-ins'])
