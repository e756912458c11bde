import cpp
cpp.check('C06', ['c06_patterns.cpp'], ['iwyu_regex.cc', 'iwyu_path_util.cc', 'iwyu_verrs.cc', 'iwyu_globals.cc', 'iwyu_port.cc', 'iwyu_include_picker.cc'], [
    dict(entry='h_match', params={'N': 4}, thorough={'N': 5}),
    dict(entry='h_replace', params={'N': 4}, thorough={'N': 5}),
    dict(entry='h_groups', params={'N': 4}, thorough={'N': 5}),
    dict(entry='h_keep', params={'N': 3}, thorough={'N': 4}),
    dict(entry='h_also', params={'N': 3}, thorough={'N': 4}),
    dict(entry='h_moc'),
], must_cover=['match', 'partial', 'replaced', 'group', 'two-groups', 'kept', 'also-checked', 'glob-no', 'moc'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='15 pattern families (literals, wildcards, stars, options, classes, top-level and grouped alternatives, escaped and given anchors) against every name of up to 4 (thorough: 5) characters over the characters that occur in them, both dialects; '
           'replacements with a symbolic character and with one or two groups; up to 2 globs (symbolic, up to 3-4 characters, with ./ and ../ prefixes) against every path of up to 3-4 characters',
    outside='other patterns, lookaround, bracket expressions in globs; malformed patterns',
    stubs=['llvm::Regex and std::regex are modelled by a backtracking matcher (POSIX leftmost-longest, ECMAScript first match) in the symbolic run, fnmatch by its contract; native replays use the real ones'])
