import cpp
W = ['iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_location_util.cc', 'iwyu_port.cc', 'iwyu_globals.cc', 'iwyu_lexer_utils.cc']
cpp.check('C11', ['c11_report.cpp'], W, [dict(entry='h_lists', params=dict(V=v, L=3, S=s), thorough=dict(L=4)) for v in (0, 1, 3) for s in range(3)],
    must_cover=['same', 'add', 'remove', 'both', 'correct'], extra=['-fno-access-control'], sym_extra=['-I' + cpp.ENG + '/symstubs'],
    bounds='a file of 3 lines (thorough: 4) plus code, each line blank or an include of one of three headers with symbolic names, each include marked keep or not, repeats included; every subset of the headers used; update_comments on and off; verbosity 0, 1, 3',
    outside='more lines or headers; forward declarations in the lists (C15); prefix headers (C14)',
    stubs=['the source manager is a table of made-up files; the preprocessor\'s events are delivered by the harness in the order in which Clang delivers them'])
