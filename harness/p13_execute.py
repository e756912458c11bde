"""Scheduling of the tool processes."""


class World:
    def __init__(self, vp, n, polls, limit):
        self.vp, self.n = vp, n
        self.started, self.running = [], 0
        self.maxrun = 0
        self.polls = polls
        self.limit = limit
        self.fakeos = None
        self.order = []


class Proc:
    def __init__(self, w, i, rc, out):
        self.w, self.i, self._rc, self._out = w, i, rc, out
        self.done = False
        self.reads = 0

    def poll(self):
        w = self.w
        if not self.done:
            # the scheduler decides whether it has finished by now
            if w.polls > 0:
                w.polls -= 1
                if w.vp.choose('finished', 2):
                    self.finish()
            else:
                self.finish()
        return self._rc if self.done else None

    def finish(self):
        if not self.done:
            self.done = True
            self.w.running -= 1
            self.w.order.append(self.i)

    def wait(self):
        self.finish()
        return self._rc

    @property
    def returncode(self):
        return self._rc if self.done else None

    def get_output(self):
        self.finish()   # blocks until the process is complete
        self.reads += 1
        return self._out


class Inv:
    def __init__(self, w, i, rc, out):
        self.w, self.i, self.rc, self.out = w, i, rc, out

    def start(self, verbose):
        w = self.w
        w.started.append(self.i)
        if w.fakeos is not None and w.fakeos.last is not None and w.running > 0 and w.limit > 0:
            w.vp.check(w.fakeos.last <= w.limit, 'no further job starts while the load is above the limit')
        w.running += 1
        if w.running > w.maxrun:
            w.maxrun = w.running
        self.proc = Proc(w, self.i, self.rc, self.out)
        return self.proc


class FakeTime:
    def __init__(self, real):
        self._real = real

    def sleep(self, s):
        pass

    def __getattr__(self, n):
        return getattr(self._real, n)


class FakeOs:
    def __init__(self, real, vp):
        self._real, self._vp, self._n = real, vp, 0
        self.last = None

    def getloadavg(self):
        # arbitrary load, finally idle
        self._n += 1
        self.last = self._vp.int('load', 0, 5) if self._n <= 3 else 0
        return (self.last, 0, 0)

    def __getattr__(self, n):
        return getattr(self._real, n)


def worst(codes):
    neg = [c for c in codes if c < 0]
    if neg:
        return min(neg)
    return max([0] + [c for c in codes if not (c < 0)])


def run(vp, M, n, jobs, polls, load):
    t = M.iwyu_tool
    w = World(vp, n, polls, load or 0)
    rcs = [vp.int('rc%d' % i, -2, 3) for i in range(n)]
    outs = ['<%d' % i + vp.strn('o%d' % i, 1, 'ab') + '\nx%d>' % i for i in range(n)]
    invs = [Inv(w, i, rcs[i], outs[i]) for i in range(n)]
    shown = []

    def formatter(output):
        shown.append(output)
        return '[' + output + ']'
    saved = t.time, t.os
    t.time, t.os = FakeTime(t.time), FakeOs(t.os, vp)
    w.fakeos = t.os
    try:
        rc = t.execute(list(invs), False, formatter, jobs, load) if load is not None else t.execute(list(invs), False, formatter, jobs)
    finally:
        t.time, t.os = saved
    vp.out('order', w.order)
    vp.check(sorted(w.started) == list(range(n)), 'every job is started exactly once')
    vp.check(w.maxrun <= jobs, 'no more than the allowed number of jobs run at a time')
    vp.check(w.running == 0, 'every job has finished at the end')
    text = vp.stdout()
    total = 0
    for i in range(n):
        piece = '[' + outs[i] + ']\n'
        k = text.count('<%d' % i)
        vp.check(k == 1, 'the output of every job is printed exactly once')
        vp.check(piece in text, 'the output of every job is printed whole, through the formatter')
        total += len(piece)
    vp.check(len(text) == total, 'nothing else is printed')
    vp.out('rc', rc)
    vp.check(rc == worst(rcs), 'the exit code is the worst one of all jobs')
    if n >= 2 and w.order[0] != 0:
        vp.cover('out of order')
    vp.cover('n%d jobs%d' % (n, jobs))
    if w.maxrun == jobs and jobs > 1:
        vp.cover('parallel')


def h_execute(vp, M):
    n = vp.choose('n', vp.param('N', 3) + 1)
    jobs = vp.choose('jobs', [1, 2, 3])
    run(vp, M, n, jobs, vp.param('K', 4), None)


def h_load(vp, M):
    n = vp.choose('n', vp.param('NS', [1, 2, 3]))
    run(vp, M, n, vp.choose('jobs', vp.param('J', [1, 2, 3])), vp.param('K', 2), vp.choose('maxload', [1, 3]))


def h_worst(vp, M):
    """Two exit codes, then chains of them, over a wide range."""
    f = M.iwyu_tool.worst_exit_code
    n = vp.choose('n', [1, 2, 3])
    codes = [vp.int('c%d' % i, -255, 255) for i in range(n)]
    r = 0
    for c in codes:
        r = f(r, c)
    ok = False
    for c in codes + [0]:
        if r == c:
            ok = True
    vp.check(ok, 'the result is one of the codes')
    for c in codes:
        if c < 0:
            vp.check(vp.And(r < 0, r <= c), 'an abnormal exit wins over every normal one, the lowest first')
            vp.cover('negative')
        else:
            vp.check(vp.Or(r < 0, r >= c), 'otherwise the largest code wins')
            vp.cover('positive')
    vp.check((r == 0) == all(c == 0 for c in codes), 'success only when every job succeeded')


class RealProc:
    """Stand-in for subprocess.Popen."""

    def __init__(self, log, rc):
        self.log, self.rc, self.waited = log, rc, False

    def poll(self):
        return self.rc if self.waited else None

    def wait(self):
        self.log.append('wait')
        self.waited = True
        return self.rc

    @property
    def returncode(self):
        return self.rc if self.waited else None


class Out:
    def __init__(self, log, data):
        self.log, self.data, self.pos = log, data, len(data)

    def seek(self, n):
        self.log.append('seek')
        self.pos = n

    def read(self):
        self.log.append('read')
        r = self.data[self.pos:]
        self.pos = len(self.data)
        return r

    def close(self):
        self.log.append('close')


class Bytes:
    """Bytes of the output (decoding is UTF-8)."""

    def __init__(self, s):
        self.s = s

    def __len__(self):
        return len(self.s)

    def __getitem__(self, i):
        return Bytes(self.s[i])

    def decode(self, enc='utf-8', errors='strict'):
        return self.s


def h_process(vp, M):
    log = []
    data = vp.str('data', 0, 3, 'a\n ')
    rc = vp.int('rc', -3, 3)
    p = M.iwyu_tool.Process(RealProc(log, rc), Out(log, Bytes(data)))
    vp.check(p.poll() is None, 'a running process has no exit code')
    got = p.get_output()
    vp.check(vp.eq(got, data), 'the whole output of the process is returned')
    vp.check('wait' in log and log.index('wait') < log.index('read'), 'the output is read only after the process has finished')
    vp.check(p.returncode == rc, 'the exit code of the process is kept')
    vp.cover('process')


def h_start(vp, M):
    """Starting an invocation runs its command in its directory with merged output."""
    t = M.iwyu_tool
    calls = []

    class FakeSub:
        STDOUT, PIPE, DEVNULL = -2, -1, -3

        @staticmethod
        def Popen(cmd, **k):
            calls.append((list(cmd), k))
            return RealProc([], 0)

    class FakeTemp:
        @staticmethod
        def TemporaryFile(*a, **k):
            return 'OUTFILE'

    n = vp.choose('n', [1, 2, 3])
    cmd = ['tool'] + [vp.str('a%d' % i, 0, 2, 'a- "') for i in range(n)]
    cwd = '/' + vp.str('cwd', 0, 2, 'a/')
    verbose = vp.choose('verbose', [False, True])
    saved = t.subprocess, t.tempfile
    t.subprocess, t.tempfile = FakeSub, FakeTemp
    try:
        p = t.Invocation(list(cmd), cwd).start(verbose)
    finally:
        t.subprocess, t.tempfile = saved
    vp.check(len(calls) == 1, 'the process is started once')
    c, k = calls[0]
    vp.check(vp.eq(c, cmd), 'the process gets exactly the command')
    vp.check(k.get('cwd') == cwd, 'the process runs in the directory of the entry')
    vp.check(k.get('stdout') == 'OUTFILE' and k.get('stderr') == -2, 'standard output and error go to one place')
    vp.check(p.outfile == 'OUTFILE', 'the output is read from where it was written')
    vp.check((' '.join(cmd) in vp.stderr()) if verbose else vp.stderr() == '', 'the command is shown exactly when asked')
    vp.cover('start')
