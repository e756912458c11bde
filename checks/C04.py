import cpp
cpp.check('C04', ['c04_options.cpp'], ['iwyu_path_util.cc', 'iwyu_verrs.cc', 'iwyu_regex.cc'], [
    dict(entry='h_option', params={'N': 2}, thorough={'N': 4}),
    dict(entry='h_two'),
    dict(entry='h_unknown', params={'N': 2}, thorough={'N': 3}),
    dict(entry='h_route', params={'W': 4}, thorough={'W': 6}),
], must_cover=['ecmascript', 'exit-bad', 'negative-exit', 'two-flags', 'same-twice', 'abbreviated', 'refused', 'short-r', 'help', 'two-tool-words', 'dangling-Xiwyu'],
    extra=['-fno-access-control'],
    bounds='each of the 20 documented options alone, in both spellings (=value and separate word), with symbolic values of up to 2 (thorough: 4) characters (names of choices with one symbolic character, integers around the int limits); '
           'every ordered pair of 11 options; option texts made of 7 stems plus up to 2-3 symbolic characters and every single-letter option; command lines of up to 4 (thorough: 6) words with a symbolic 2-byte word',
    outside='longer values and command lines; the Windows option parser; option values read from the environment (IWYU_VERBOSE is taken as unset)',
    stubs=['getopt_long is modelled from its documented GNU contract in the symbolic run and the C library\'s own is used in every native replay',
           'exit is intercepted so that the exit status is asserted; the help text itself is not'])
