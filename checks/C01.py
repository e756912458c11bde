import cpp
cpp.check('C01', ['c01_strings.cpp'], [], [
    dict(entry='h_split_ws', params={'N': 4}, thorough={'N': 6}),
    dict(entry='h_split_quotes', params={'N': 5}, thorough={'N': 7}),
    dict(entry='h_split_quotes', params={'N': 3, 'A': 1}, thorough={'N': 5}),
    dict(entry='h_split', params={'N': 4}, thorough={'N': 6}),
    dict(entry='h_strip_ws', params={'N': 4}, thorough={'N': 7}),
    dict(entry='h_affix', params={'N': 4}, thorough={'N': 6}),
    dict(entry='h_past', params={'N': 5}, thorough={'N': 7}),
    dict(entry='h_replace', params={'N': 5}, thorough={'N': 6}),
    dict(entry='h_ellipsize', params={'N': 9}, thorough={'N': 11}),
], must_cover=['split_ws 2 words', 'quoted word', 'split 3', 'strip both', 'prefix', 'suffix', 'past', 'replaced', 'ellipsis'],
    bounds='strings up to 4-9 characters (per entry, see jobs); white-space functions over all 255 non-NUL bytes, the others over 3-letter alphabets; segment limits 0-3; widths 0-11',
    outside='longer strings; empty search text for replace-all (does not terminate, callers never pass it)',
    stubs=['isspace in the C locale', 'memcmp/memchr/strlen models'])
