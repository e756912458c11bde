import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
T = dict(tiers=('thorough',))
jobs = [dict(entry='h_self', params=dict(D=d, C=d % 2), thorough=dict(K=3), **({} if d in (0, 2, 5, 7) else T)) for d in range(8)]
jobs += [dict(entry='h_assoc', params=dict(D=d, C=d % 2, H=h), thorough=dict(K=3), **({} if d in (0, 1, 6, 7) else T)) for d in range(8) for h in range(4)]
cpp.check('C10', ['c10_cover.cpp'], W, jobs, must_cover=['one', 'many', 'none'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='3 uses, each of a private header standing behind 1..2 (thorough: 3) of three public headers or the file itself, in every order; half of the subsets (thorough: every subset) of the public headers included directly; a private header included directly or not; every subset (of two) demanded by an associated header',
    outside='more than 3 uses or 3 candidate headers; symbol mappings as the source of candidates (C07); forward declarations (C15)',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them'])
