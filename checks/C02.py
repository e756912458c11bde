import cpp
cpp.check('C02', ['c02_canon.cpp'], ['iwyu_path_util.cc'], [
    dict(entry='h_canon_raw', params={'N': 5}, thorough={'N': 6}),
    dict(entry='h_norm', params={'N': 6}, thorough={'N': 8}),
    dict(entry='h_canon_family', params={'N': 2}, thorough={'N': 3}),
    dict(entry='h_header', params={'N': 5}, thorough={'N': 6}),
    dict(entry='h_special'),
], must_cover=['stripped', 'normalized', 'family', 'source', 'quoted', 'special'],
    bounds='arbitrary paths of up to 5-6 characters over the letters that occur in extensions; component families: 9 directory shapes x 6 suffixes x 18 extensions x names of up to 2-3 symbolic characters',
    outside='longer names; Windows separators (POSIX build)', stubs=['llvm::sys::path POSIX rules (cross-checked natively)'])
