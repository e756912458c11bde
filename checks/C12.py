import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = [dict(entry='h_order', params=dict(Q=q, P=p, N=2)) for q in (0, 1) for p in (0, 1)]
jobs += [dict(entry='h_order', params=dict(Q=q, N=3, F=f), **({} if q else dict(tiers=('thorough',)))) for q in (1, 0) for f in range(8)]
jobs += [dict(entry='h_comment', params=dict(V=v, H=h, S=s), thorough=dict(S=s + (v == 1))) for v, h, s in ((0, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (3, 2, 2))]
jobs.append(dict(entry='h_comment', params=dict(V=1, H=2, S=4)))
cpp.check('C12', ['c11_report.cpp'], W, jobs,
    must_cover=['inl', 'order', 'bare', 'cut', 'whole'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='order: 2 includes (3 with quoted_includes_first, thorough: both ways) of eight forms (quoted, angled, with and without .h, associated by name or by directive, associated -inl.h, -inl.h of others, in a directory) with symbolic names, each present or to be added, with and without pch_in_code; comments: 1..2 headers, up to 2 symbols of four lengths with symbolic names and counts, every maximum length 0..60, verbosity 0..3; four symbols of one letter in every order',
    outside='names longer than in the bounds; forward declarations come last (C15)',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them'])
