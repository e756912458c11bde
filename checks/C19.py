import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = [dict(entry='h_body', params=dict(N=n)) for n in range(4)] + [dict(entry='h_body', params=dict(N=4), tiers=('thorough',))]
jobs += [dict(entry='h_body', params=dict(N=4, T=1))] + [dict(entry='h_users', params=dict(M=m)) for m in (0, 1)]
jobs += [dict(entry='h_use', params={}), dict(entry='h_includer', params=dict(P=0)), dict(entry='h_includer', params=dict(P=1))]
cpp.check('C19', ['c19_macro.cpp'], W, jobs, must_cover=['call', 'object', 'other', 'none', 'main', 'associated', 'kept', 'nothing', 'stands', 'plain', 'users'], extra=['-fno-access-control', '-fno-rtti'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='a macro whose body has up to 3 tokens (4 when the first names a function-like macro; thorough: always), each an object-like macro, a function-like macro, the name of a parameter or a macro, an undefined name, an opening parenthesis, a comment or something else, marked as not to be expanded or not; one use (expansion, #ifdef, #ifndef, #elifdef, #elifndef, defined, mention in a macro) in the main file, its associated header, a header or the file behind the definition, of a macro defined in any of them, predefined or undefined; a header that defines a macro and includes its user directly or through another, reported or not, a prefix header or not, the user public, private or unmapped; three includes that use any of two macros of their includer',
    outside='the operands of # and ## in a macro (taken as uses); what else an expansion uses (syntax tree); more than one use; #undef and redefinition',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them', 'macros, their tokens and their definitions are Clang objects whose fields the harness sets', 'the identifier table of the preprocessor holds just the made-up macros'])
