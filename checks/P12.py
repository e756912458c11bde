import py
py.check('P12', 'p12_selection.py', ['iwyu_tool'], [
    dict(entry='h_subpath', params={'N': 4}, thorough={'N': 5}),
    dict(entry='h_fixup', params={'L': 2}, thorough={'L': 3}),
    dict(entry='h_slice', params={'E': 2}, thorough={'E': 3}, every=3),
], must_cover=['below', 'sibling', 'fixup', 'all', 'warned', 'some'],
    bounds='canonical paths of up to 4-5 symbolic characters; databases of 1-2 (thorough 3) entries, 0-2 requested paths in 6 spellings, any subset of them missing',
    outside='symbolic links and Windows paths', stubs=['os.path.realpath: lexical normalisation, working directory /w, no symlinks; os.path.exists: arbitrary answer per path'])
