import cpp
TUS = ['iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc']
cpp.check('C08', ['c08_directives.cpp'], TUS, [
    dict(entry='h_entry', params={'D': 0}), dict(entry='h_entry', params={'D': 1}), dict(entry='h_entry', params={'D': 2}), dict(entry='h_entry', params={'D': 3}), dict(entry='h_entry', params={'D': 4}),
    dict(entry='h_shape'), dict(entry='h_ref'),
    dict(entry='h_vis', params={'K': 3}, thorough={'K': 4}), dict(entry='h_friend'), dict(entry='h_internal', params={'L': 2}, thorough={'L': 3}), dict(entry='h_asm'),
], must_cover=['file', 'error', 'self', 'two', 'one-then-error', 'private-include', 'private-path', 'public-over-path', 'friend', 'friend-outside', 'stranger', 'internal-friend', 'internal-stranger', 'asm', 'asm-user'],
    extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='mapping files: one entry of every directive with symbolic fields (names with symbolic quote/angle/@ ends, 4 visibility words, 0-5 fields, 3 value shapes) alone or next to a good entry; up to 3 entries of 5 kinds; 4 files referring to each other, to missing ones and to themselves; '
           'visibility: up to 3 (thorough 4) statements of 4 kinds about 2 headers, contradictions included; friends: 5 patterns, both dialects, every 2-character user name in and outside the search path; internal/ directories with 2 (thorough 3) symbolic characters including regex metacharacters; <asm-*> headers',
    outside='text-level YAML syntax (the LLVM parser is trusted; it parses the rendered text in every native replay), non-scalar fields inside a list, mapping files found relative to the working directory, patterns that do not compile, top-level internal/ directories',
    stubs=['LLVM YAML parser replaced by the document tree in symbolic runs', 'MemoryBuffer::getFile and file existence answered from an in-memory table in both modes', 'llvm::Regex/std::regex replaced by a bounded matcher in symbolic runs'])
