import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = [dict(entry='h_decl_use', params=dict(K=k, U=u)) for k in (1, 2, 4, 5, 6) for u in (0, 1)]
jobs += [dict(entry='h_decl_use', params=dict(K=1, U=u, S=1)) for u in (0, 1)]
jobs += [dict(entry='h_decl_use', params=dict(K=0, U=u, T=t, P=p, V=v)) for u in (0, 1) for t in (0, 1) for p in (0, 1) for v in (0, 1) if v == 0 or p == 0]
jobs += [dict(entry='h_decl_use', params=dict(K=0, U=u, S=1)) for u in (0, 1)]
jobs += [dict(entry='h_decl_use', params=dict(K=3, U=u, P=p, V=v)) for u in (0, 1) for p in (0, 1) for v in (0, 1) if v == 0 or p == 0]
cpp.check('C20', ['c20_uses.cpp'], W, jobs, must_cover=['dropped', 'present', 'violation', 'member of a class of the file', 'member of a class elsewhere', 'inner', 'inner elsewhere', 'mapped builtin', 'definition'], extra=['-fno-access-control', '-fno-rtti'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='one use (of a namespace: with or without a use of something in it) in the main file or in a header, before or behind the declaration when both are in one file; every graph of a main file with one or two includes and three headers with one include each (targets symbolic, cycles included); a function or variable with one or two declarations in any of the files, a member of a class declared in any of the files, a namespace, a local declaration, a built-in function with or without a mapping, a built-in template, a replaceable operator new; the use being the definition of the symbol or not; one private header mapped to a public one or not; transitive-includes-only or not',
    outside='which declarations are built-in, replaceable, local or members, and which declaration a use refers to (AST analysis); more than one use',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them', 'a declaration is a Clang declaration object whose fields the harness sets; its redeclarations and the syntax-tree helpers (local, built-in, replaceable, in a namespace) are answered by the harness'])
