import cpp
cpp.check('C09', ['c09_spelling.cpp'], ['iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc'], [
    dict(entry='h_history', params={'K': 2}, thorough={'K': 3}), dict(entry='h_mapped'), dict(entry='h_symbol'), dict(entry='h_equiv'),
], must_cover=['as-written', 'by-path', 'friend', 'text', 'private-mapped', 'symbol', 'equivalent'],
    extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='two nested search paths (one system), includer and header in any of 4 directories with symbolic names; histories of up to 2 (thorough 3) include lines by 3 includers with 2 kinds of spelling with symbolic characters; one mapping (to a file or a text), private by path or by name, friend or not, header and mapped header included or not; 4 equivalent path forms',
    outside='longer histories, chains of mappings (C07), symbolic links',
    stubs=['llvm::Regex/std::regex replaced by a bounded matcher in symbolic runs'])
