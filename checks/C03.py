import cpp
cpp.check('C03', ['c03_quoted.cpp'], ['iwyu_path_util.cc', 'iwyu_verrs.cc'], [
    dict(entry='h_quoted', params={'N': 2, 'S': 1}, thorough={'N': 3, 'S': 2}),
    dict(entry='h_includer', params={'N': 3}, thorough={'N': 4}),
    dict(entry='h_quote_misc'),
    dict(entry='h_searchlist'),
], must_cover=['system', 'user', 'none', 'includer', 'quote', 'list3'], extra=['-fno-access-control'],
    bounds='up to 2 user and 1-2 system directories out of 7 shapes (nested, sibling-prefix, dotted, relative); paths with up to 2-3 symbolic characters',
    outside='longer paths and lists; Windows paths', stubs=['llvm::sys::path POSIX rules, make_absolute with working directory /usr (native replay runs there)'])
