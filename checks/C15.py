import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = [dict(entry='h_assoc', params=dict(I=i, O=o, H=h)) for i in range(4) for o in (0, 1) for h in (0, 1) if i or o or h]
jobs += [dict(entry='h_print', params=dict(N=n, A=a)) for n in range(4) for a in range(1 << n)]
jobs += [dict(entry='h_print', params=dict(N=n, A=0, E=1)) for n in range(3)]
jobs += [dict(entry='h_template', params=dict(N=n, K=k)) for n in range(4) for k in range(4) if n < 3 or k == 0] + [dict(entry='h_template', params=dict(N=4, K=3), tiers=('thorough',))]
for n, tiers in ((1, {}), (2, dict(tiers=('thorough',)))):
    jobs += [dict(entry='h_decl', params=dict(O=o, D=d, I=i, N=n, M=0), **(tiers if i != 3 or o in (1, 2) else {})) for o in range(4) for d in range(3) for i in (1, 2, 3, 6, 7)] if n == 2 else \
            [dict(entry='h_decl', params=dict(O=o, D=d, I=i, N=n, M=0), **({} if i in (3, 6) else dict(tiers=('thorough',)))) for o in range(4) for d in range(3) for i in (1, 2, 3, 6, 7)]
    jobs += [dict(entry='h_decl', params=dict(O=o, D=d, I=i, N=n, M=m), **({} if n == 1 and i == 6 and o != 2 else dict(tiers=('thorough',)))) for m in range(1, 9) for o in range(4) for d in range(3) for i in (3, 6)]
jobs += [dict(entry='h_decl', params=dict(O=o, D=1, I=6, N=1, M=7 if s < 2 else 9, S=s), **({} if o == 0 else dict(tiers=('thorough',)))) for s in range(1, 6) for o in range(4)]
cpp.check('C15', ['c15_forward.cpp'], W, jobs, must_cover=['added', 'kept', 'removed', 'none', 'declared', 'provided', 'global', 'flat', 'nested', 'template', 'enum with a type'], extra=['-fno-access-control', '-fno-rtti'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='a class declared or defined in a directly or indirectly included header, in another header, before, between and after three places of use in the main file, or nowhere; one use (thorough, and for some layouts quick: two) at any of the places, needing the declaration or the definition, referring to any of the declarations; the two headers demanded by other symbols or not; normal, no-forward-declarations, inhibited, exported, nested, local, inline-namespace, library-namespace (std, __gnu_cxx), namespaces with a similar name, and macro modes; an associated header with its own declaration and uses; up to 3 namespaces with names of 1..2 characters, anonymous ones included, struct, union, class and the three kinds of enumeration with and without an underlying type; a template head of up to 3 (thorough: 4) characters of the punctuation that default arguments and bodies have',
    outside='other uses of templates than printing; elaborated type specifiers; which decl a use refers to (AST analysis); two uses of one class that refer to different declarations; a forward declaration present although a directive inhibits it',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them', 'a declaration is a Clang declaration object whose fields the harness sets; the redeclaration chain, the definition and the syntax-tree helpers (nested, local, inline namespace, macro) are answered by the harness', 'the file is C++; Clang\'s print-out of a template is composed by the harness'])
