import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = [dict(entry='h_include', params=dict(A=a, B=b)) for a in (0, 1) for b in (0, 1)]
jobs += [dict(entry='h_names', params=dict(P=p, P2=r)) for p in (1, 2) for r in (1, 2)]
jobs += [dict(entry='h_decl', params=dict(F=f, V=v, W=0, N=4), thorough=dict(N=5)) for f in (0, 1, 2, 4) for v in (1, 2, 3)]
jobs += [dict(entry='h_decl', params=dict(F=f, V=v, W=1, N=3), thorough=dict(N=4)) for f in (0, 2) for v in (1, 3)]
jobs += [dict(entry='h_owner', params=dict(P=p, D=d, X=x, S=s), thorough=dict(N=3)) for p in (0, 1) for d in (0, 1, 2) for x in (0, 1) for s in (0, 1)]
cpp.check('C18', ['c18_scope.cpp'], W, jobs, must_cover=['present', 'absent', 'elsewhere', 'same', 'other', 'kept', 'exported', 'neither', 'mine', 'also', 'foreign'],
    extra=['-fno-access-control', '-fno-rtti'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='a no_include directive in the main file, its own header or another, for every one of five names, with an include of the same or another name; names of 1..2 components with up to two anonymous namespaces each; files of 4 (thorough 5) region directives and declarations; a main file with 2 (thorough 3) headers in three directories, one possibly included by the other',
    outside='no_include for the spelling of a header below two search paths; patterns with more than one wildcard (C06)',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them', 'a declaration is represented by its source range'])
