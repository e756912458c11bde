"""Windows command line splitting against the documented rules."""


def spec(vp, s):
    """The documented rules, position by position (independent formulation)."""
    args, cur, inq, have, i, n = [], '', False, False, 0, len(s)
    while i < n:
        j = i
        while j < n and s[j] == '\\':
            j += 1
        k = j - i
        if j < n and s[j] == '"':
            cur = cur + '\\' * (k // 2)
            have = True
            if k % 2:
                cur = cur + '"'
            else:
                inq = not inq
            i = j + 1
            continue
        if k:
            cur = cur + '\\' * k
            have = True
            i = j
            continue
        c = s[i]
        i += 1
        if (c == ' ' or c == '\t') and not inq:
            if have:
                args.append(cur)
            cur, have = '', False
        else:
            cur = cur + c
            have = True
    if have:
        args.append(cur)
    return args


def h_split(vp, M):
    s = vp.str('s', 0, vp.param('N', 5), 'ab "\\\t')
    got = list(M.iwyu_tool.win_split(s))
    want = spec(vp, s)
    vp.out('got', got)
    vp.check(vp.eq(got, want), 'the split is the one a Windows program would receive')
    if len(got) == 2:
        vp.cover('two')
    if len(got) and len(got[-1]) and got[-1][-1] == '\\':
        vp.cover('trailing backslash')


def quote(a):
    """Standard Windows quoting of one argument."""
    r, k = '"', 0
    for c in a:
        if c == '\\':
            k += 1
            continue
        if c == '"':
            r = r + '\\' * (2 * k + 1) + '"'
        else:
            r = r + '\\' * k + c
        k = 0
    return r + '\\' * (2 * k) + '"'


def h_roundtrip(vp, M):
    n = vp.choose('n', [1, 2])
    args = [vp.str('a%d' % i, 0, vp.param('N', 3), 'a \\"') for i in range(n)]
    line = ' '.join([quote(a) for a in args])
    got = list(M.iwyu_tool.win_split(line))
    vp.out('got', got)
    vp.check(vp.eq(got, args), 'quoted arguments come back unchanged')
    vp.cover('roundtrip')
