import cpp
TUS = ['iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc']
cpp.check('C07', ['c07_mapping.cpp'], TUS, [
    dict(entry='h_graph', params={'N': 3, 'M': 4, 'F': f, 'T': t}, thorough={'N': 4, 'M': 4}) for f in range(3) for t in range(3)] + [
    dict(entry='h_graph', params={'N': 4, 'M': 3, 'F': f}) for f in range(4)] + [
    dict(entry='h_graph', params={'N': 3, 'M': 3, 'F': f}) for f in range(3)] + [
    dict(entry='h_graph', params={'N': 3, 'M': 2}), dict(entry='h_graph', params={'N': 2, 'M': 1}),
    dict(entry='h_graph', params={'N': 2, 'M': 0}),
    dict(entry='h_dup', params={'F': 0}), dict(entry='h_dup', params={'F': 1}), dict(entry='h_dup', params={'F': 2}),
    dict(entry='h_symbol', params={'M': 2}, thorough={'M': 3}), dict(entry='h_symbol', params={'M': 1, 'F': 1}, thorough={'M': 3}),
    dict(entry='h_regex'),
], must_cover=['chain-private', 'cycle', 'symbol', 'regex-group', 'regex-no'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='mapping graphs: every multiset-free list of up to 4 mappings over 3 header names or 3 mappings over 4 (4 over 4 in thorough), in every order, cycles and self mappings included, every public/private choice per header, every queried pair of headers; duplicate mappings: every list of 3 over 3 names; symbols: up to 2 mapped headers over 4 names and 2 (thorough 3) header mappings; pattern keys: 3 patterns in both dialects against every seen path with two free characters',
    outside='more headers or mappings per graph; headers whose visibility is stated twice differently (the program stops with a message); the built-in tables; the matching of patterns itself (C06)',
    stubs=['llvm::Regex and std::regex replaced by a bounded backtracking matcher in symbolic runs (witnesses replay on the real ones)'])
