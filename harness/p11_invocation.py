"""Invocations made from compilation-database entries."""


def program(vp):
    pre = vp.choose('dir', ['', '/b/', 'x-', 'clang-', 'cl.exe/', 'clang-cl/'])
    mid = vp.str('mid', 0, vp.param('P', 2), 'c.l-x')
    suf = vp.choose('suf', ['cl.exe', 'clang-cl', 'cl', 'clang-cl.exe', 'g++', 'clang', 'exe', '-cl'])
    return pre + mid + suf


def is_cl(vp, p):
    """cl.exe (native or clang's) or clang-cl, by name ending."""
    return vp.Or(p[-6:] == 'cl.exe', p[-8:] == 'clang-cl')


def base(vp, M):
    t = M.iwyu_tool
    t.IWYU_EXECUTABLE = '/opt/IWYU'
    extra = [['-Xiwyu', '--verbose=3'], [], ['-x']][vp.choose('extra', 3)]
    return t, list(extra)


def expect(vp, inv, prog, extra, args, cwd):
    cl = bool(is_cl(vp, prog))
    want = ['/opt/IWYU'] + (['--driver-mode=cl'] if cl else []) + extra + args
    vp.out('command', inv.command)
    vp.check(vp.eq(inv.command, want), 'the invocation is the tool, the extra arguments and the entry\'s arguments, in order, with the driver mode for a Microsoft-style compiler')
    vp.check(inv.cwd == cwd, 'it runs in the directory of the entry')
    vp.cover('cl' if cl else 'plain')


def h_arguments(vp, M):
    t, extra = base(vp, M)
    n = vp.choose('nargs', vp.param('A', 2) + 1)
    args = [vp.str('arg%d' % i, 0, 2, 'a-/@" c\\') for i in range(n)]
    wrap = vp.choose('wrapper', [[], ['ccache']])
    prog = program(vp)
    entry = {'arguments': wrap + [prog] + args, 'directory': '/d', 'file': 'f.cc'}
    if vp.choose('both', 2):
        entry['command'] = 'other words'
    before = list(entry['arguments'])
    keep = list(extra)
    inv = t.Invocation.from_compile_command(entry, extra)
    expect(vp, inv, prog, keep, args, '/d')
    vp.check(vp.eq(extra, keep), 'the extra arguments shared by all invocations are left alone')
    vp.check(vp.eq(entry['arguments'], before), 'the database entry is left alone')
    vp.check(vp.eq(str(inv), ' '.join(inv.command)), 'the invocation is shown as its command line')
    if wrap:
        vp.cover('wrapper')


def h_command(vp, M):
    """The command string is split the way the shell would split it."""
    t, extra = base(vp, M)
    n = vp.choose('nargs', vp.param('A', 2) + 1)
    args = []
    line = vp.choose('prog', ['g++', 'ccache g++', '/b/clang-cl'])
    prog = line.split(' ')[-1]
    for i in range(n):
        a = vp.str('arg%d' % i, 0, vp.param('L', 2), 'a-"\\ \'')
        q = vp.choose('q%d' % i, 3)
        if q == 0:
            # single quotes: everything literal
            vp.assume(vp.Not("'" in a))
            line = line + ' ' + "'" + a + "'"
        elif q == 1:
            # double quotes with escapes
            line = line + ' "' + a.replace('\\', '\\\\').replace('"', '\\"') + '"'
        else:
            vp.assume(len(a) > 0)
            for c in a:
                vp.assume(c == 'a' or c == '-')
            line = line + '  ' + a
        args.append(a)
    entry = {'command': line, 'directory': '/e', 'file': 'f.cc'}
    inv = t.Invocation.from_compile_command(entry, list(extra))
    expect(vp, inv, prog, extra, args, '/e')
    vp.cover('command')


def h_neither(vp, M):
    t, extra = base(vp, M)
    k = vp.str('key', 0, 3, 'cmdarg')
    vp.assume(k != 'arguments' and k != 'command')
    try:
        t.Invocation.from_compile_command({k: 'a b', 'directory': '/d', 'file': 'f'}, extra)
        ok = True
    except ValueError:
        ok = False
    vp.check(not ok, 'an entry without a command is refused')
    vp.cover('refused')


def h_msvc(vp, M):
    p = program(vp)
    vp.check(bool(M.iwyu_tool.is_msvc_driver(p)) == bool(is_cl(vp, p)), 'Microsoft-style compilers are recognised by name')
    s = vp.str('s', 0, vp.param('S', 6), 'cl.ex')
    vp.check(bool(M.iwyu_tool.is_msvc_driver(s)) == bool(is_cl(vp, s)), 'Microsoft-style compilers are recognised by name')
    vp.cover('msvc')


def h_main(vp, M):
    """The whole run: every database entry becomes one invocation, in order, with all extra arguments."""
    t, extra = base(vp, M)
    import json as _json
    n = vp.choose('n', [1, 2, 3])
    db = []
    for i in range(n):
        db.append({'arguments': [vp.choose('p%d' % i, ['g++', 'cl.exe']), vp.str('a%d' % i, 1, 1, 'ab-')], 'directory': '/d%d' % i, 'file': '/s/f%d.cc' % i})
    calls = []

    def execute(invocations, verbose, formatter, jobs, max_load_average=0):
        calls.append((list(invocations), verbose, formatter, jobs, max_load_average))
        return vp_rc

    class FakeJson:
        @staticmethod
        def load(f):
            return [dict(e) for e in db]

    class F:
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def read(self): return ''
        def close(self): pass
    vp_rc = vp.int('rc', -2, 2)
    saved = t.json, t.execute
    t.open = lambda *a, **k: F()
    t.json, t.execute = FakeJson, execute
    try:
        rc = t.main('/nonexistent-db', [], False, 'fmt', 3, 1.5, list(extra))
    finally:
        t.json, t.execute = saved
        del t.open
    vp.check(len(calls) == 1, 'the invocations are run in one go')
    invs, verbose, fmt, jobs, load = calls[0]
    vp.check(rc == vp_rc, 'the exit code of the run is the result')
    vp.check(fmt == 'fmt' and jobs == 3 and load == 1.5, 'the run options are passed on')
    vp.check(len(invs) == n, 'one invocation per database entry')
    for i in range(n):
        e = db[i]
        want = ['/opt/IWYU'] + (['--driver-mode=cl'] if e['arguments'][0] == 'cl.exe' else []) + extra + e['arguments'][1:]
        vp.check(vp.eq(invs[i].command, want), 'each invocation has the extra arguments and its own entry\'s arguments')
        vp.check(invs[i].cwd == e['directory'], 'each invocation runs in its own entry\'s directory')
    vp.cover('main')
