"""Shared by the fix_includes harnesses: flags, a file system stand-in and readers of the result."""


class Flags:
    def __init__(self, **k):
        self.blank_lines = False
        self.comments = False
        self.update_comments = False
        self.dry_run = False
        self.ignore_re = None
        self.only_re = None
        self.safe_headers = False
        self.separate_project_includes = None
        self.keep_iwyu_namespace_format = False
        self.reorder = True
        self.basedir = None
        self.quoted_includes_first = False
        self.sort_only = False
        self.files = []
        for n in k:
            setattr(self, n, k[n])


class Handle:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        self.parts = []
        self.closed = False

    def read(self, n=None):
        self.fs.log.append(('read', self.name))
        if self.fs.fault('read', self.name):
            raise IOError('read error')
        return self.fs.files[self.name]

    def write(self, data):
        self.fs.log.append(('write', self.name))
        if self.fs.fault('write', self.name):
            raise IOError('write error')
        self.parts.append(data)
        self.fs.files[self.name] = self.fs.files[self.name] + data
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class FS:
    """Stands in for open(): files are byte strings in memory."""

    def __init__(self, files, fault=None, empty=b''):
        self.files = dict(files)
        self.orig = dict(files)
        self.log = []
        self.fault = fault or (lambda op, name: False)
        self.empty = empty
        self.written = []

    def open(self, name, mode='r', *a, **k):
        if 'b' not in mode:
            raise RuntimeError('text mode is not modelled')
        if 'w' in mode:
            self.log.append(('openw', name))
            if self.fault('openw', name):
                raise PermissionError(13, 'Permission denied', name)
            self.written.append(name)
            self.files[name] = self.empty
        else:
            self.log.append(('open', name))
            if name not in self.files or self.fault('open', name):
                raise FileNotFoundError(2, 'No such file or directory', name)
        return Handle(self, name, mode)

    def changed(self):
        return [n for n in self.files if n in self.written]


def with_fs(vp, M, fs, f):
    """f() with the module's file access replaced; -> result."""
    m = M.fix_includes
    fs.empty = vp.bytes('')
    m.open = fs.open
    try:
        return f()
    finally:
        del m.open


def strip_eol(lines):
    r = []
    for l in lines:
        while len(l) and (l[-1] == '\n' or l[-1] == '\r'):
            l = l[:-1]
        r.append(l)
    return r


def fix(M, name, text_lines, flags, deletes=(), inc=(), fwd=(), nested=(), add=(), full=(), linesep='\n'):
    """Run the rewriting of one file; text_lines without line ends -> output lines without line ends."""
    m = M.fix_includes
    rec = m.IWYUOutputRecord(name)
    for d in deletes:
        rec.lines_to_delete.add(d)
    for d in inc:
        rec.some_include_lines.add(d)
    for d in fwd:
        rec.seen_forward_declare_lines.add(d)
    for d in nested:
        rec.nested_forward_declare_lines.add(d)
    for a in add:
        rec.includes_and_forward_declares_to_add.add(a)
    for k, v in full:
        rec.full_include_lines[k] = v
    old, new = m.FixOneFile(rec, [l + linesep for l in text_lines], flags, m.FileInfo(linesep, 'utf-8'))
    return new


def count(vp, lines, x):
    """How many of lines equal x (forks)."""
    n = 0
    for l in lines:
        if l == x:
            n += 1
    return n
