"""Command-line partition."""


def h_bootstrap(vp, M):
    t = M.iwyu_tool
    calls = []

    def fake_main(*a, **k):
        calls.append((a, k))
        return rc
    rc = vp.int('rc', -5, 5)
    own = ['iwyu_tool.py']
    opts = {}
    if vp.choose('v', 2):
        own.append('-v')
    style = vp.choose('o', [None, 'clang', 'clang-warning', 'iwyu'])
    if style:
        own += ['-o', style]
    jobs = vp.choose('j', [None, '1', '7'])
    if jobs:
        own += ['-j', jobs]
    load = vp.choose('l', [None, '2.5'])
    if load:
        own += ['-l', load]
    own += ['-p', 'DB']
    srcs = ['x.cc', 'y z.cc'][:vp.choose('nsrc', 3)]
    own += srcs
    sep = vp.choose('sep', 2)
    n = vp.choose('nextra', vp.param('N', 3) + 1) if sep else 0
    extra = [vp.str('e%d' % i, 0, 3 if i == 0 else 2, '-aX') for i in range(n)]
    argv = own + (['--'] if sep else []) + extra
    saved = t.main
    t.main = fake_main
    try:
        got = t._bootstrap(list(argv))
    finally:
        t.main = saved
    vp.check(len(calls) == 1, 'the run happens once')
    a, k = calls[0]
    names = ['compilation_db_path', 'source_files', 'verbose', 'formatter', 'jobs', 'max_load_average', 'extra_args']
    v = dict(zip(names, a))
    for x in k:
        v[x] = k[x]
    vp.out('extra', list(v['extra_args']))
    vp.check(got == rc, 'the exit code of the run is returned')
    vp.check(vp.eq(list(v['extra_args']), extra), 'everything after the first lone -- goes to the tool unchanged, and nothing else does')
    vp.check(v['compilation_db_path'] == 'DB' and list(v['source_files']) == srcs, 'the database and sources are passed on')
    vp.check(bool(v['verbose']) == ('-v' in own), 'the verbosity is passed on')
    vp.check(v['formatter'] is t.FORMATTERS[style or 'iwyu'], 'the requested output format is used')
    vp.check(v['jobs'] == int(jobs or 1), 'the number of jobs is passed on')
    vp.check(v['max_load_average'] == float(load or 0), 'the load limit is passed on')
    if n and extra[0] == '--':
        vp.cover('second dashes')
    if n == 2:
        vp.cover('extra')
