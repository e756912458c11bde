import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = []
for t in range(13):
    for m in range(4):
        jobs.append(dict(entry='h_text', params=dict(T=t, M=m, C=0)))
        jobs.append(dict(entry='h_text', params=dict(T=t, M=m, C=1), **({} if m == 3 else dict(tiers=('thorough',)))))
for f in range(5):
    for i in (0, 1):
        jobs.append(dict(entry='h_region', params=dict(F=f, I=i, N=3 if i else 4, K=1 - i), thorough=dict(N=5)))
for f in range(4):
    jobs.append(dict(entry='h_line', params=dict(F=f, N=2), thorough=dict(N=3)))
cpp.check('C13', ['c13_pragma.cpp'], W, jobs, must_cover=['none', 'bad', 'directive', 'region', 'refused', 'plain'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='every directive with any one character replaced, inserted or left out, or any two appended; files of up to 4 (thorough 5) includes and region directives in any order, well-formed or misspelt; 2 (thorough 3) includes with directives behind them',
    outside='deviations in two places at once; patterns of friends (C06, C07); two comments on one line',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them'])
