import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = [dict(entry='h_use', params=dict(U=u, A=a, P=p)) for u in (0, 1) for a in ((0, 1) if u else (0,)) for p in (0, 1)]
jobs += [dict(entry='h_prefix', params=dict(M=m, P=p, G=1 - p)) for m in range(3) for p in (0, 1)]
cpp.check('C14', ['c14_demand.cpp'], W, jobs, must_cover=['present', 'violation', 'dropped', 'none', 'one', 'more'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='one use in the main file or in a header; every graph of a main file, an optional associated header and three headers with one include each (targets symbolic, cycles included), with or without a source file included; every place of the definition, one private header mapped to a public one or not; a command-line (in a system directory or not) or precompiled header that includes one of three headers, a further include behind it, two own includes, every subset of the headers used, three modes, with and without include guards',
    outside='uses of declarations found in the syntax tree (what counts as a builtin, members of a class, namespaces), which belong to the AST analysis; forward declarations under prefix-header modes; more than one use in h_use',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them'])
