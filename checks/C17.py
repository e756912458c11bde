import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
jobs = []
for o in range(3):
    for r in range(4):      # the first include of the main file
        for x in (1, 0):                     # 1: the two includes of a file in one order only
            t = {} if x else dict(tiers=('thorough',))
            jobs.append(dict(entry='h_reach', params=dict(P=0, O=o, R=r, X=x), **t))
            jobs += [dict(entry='h_reach', params=dict(P=1, O=o, R=r, X=x, M=m), **t) for m in (0, 1, 3, 5)]
    jobs += [dict(entry='h_reach', params=dict(P=p, O=o, R=r, X=1, Y=1), **({} if r < 2 else dict(tiers=('thorough',)))) for p in (0, 1) for r in range(4)]
    if o < 2: jobs += [dict(entry='h_reach', params=dict(P=p, O=o, R=0, X=1, N=4), tiers=('thorough',)) for p in (0, 1)]
cpp.check('C17', ['c17_reach.cpp'], W, jobs, must_cover=['all', 'some', 'mapped', 'unmapped'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='every graph of a main file, 3 headers (thorough: 4, as far as time allows) with two includes each and one without, cycles included, none or half of the headers in a system directory, in three orders of discovery; one private header behind one or two public headers; every choice of the headers stated to be public',
    outside='larger graphs; two files with the same name (#include_next)',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them'])
