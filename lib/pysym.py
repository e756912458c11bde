"""Symbolic execution of Python source.

The current source of a module is loaded through an AST instrumentation which
lets strings with symbolic characters, symbolic integers and symbolic booleans
flow through it.  Every branch on a symbolic value is decided by the domain of a
single character or, for relations between several, by Z3; both feasible sides
are explored by re-execution with a decision prefix.  Strings have a concrete
length on each path.
"""
import ast, builtins, os, re as _re, sys, types
import z3

_parser = _re._parser
_const = _re._constants


class PathEnd(BaseException):
    """The path's assumptions are unsatisfiable or it was ended on purpose."""


class Unsupported(BaseException):
    """The code did something the engine does not model."""


class Violated(BaseException):
    pass


class Budget(BaseException):
    pass


# ------------------------------------------------------------------ expressions
class Var:
    __slots__ = ('id', 'name', 'dom', 'z')

    def __init__(self, id, name, dom):
        self.id, self.name, self.dom = id, name, dom
        self.z = z3.Int('v%d' % id if id >= 0 else 'u')


def e_not(e):
    if e is True or e is False:
        return not e
    if e[0] == 'not':
        return e[1]
    return ('not', e)


def e_and(es):
    r = []
    for e in es:
        if e is False:
            return False
        if e is not True:
            r.append(e)
    return True if not r else r[0] if len(r) == 1 else ('and', tuple(r))


def e_or(es):
    r = []
    for e in es:
        if e is True:
            return True
        if e is not False:
            r.append(e)
    return False if not r else r[0] if len(r) == 1 else ('or', tuple(r))


def e_vars(e, s):
    if e is True or e is False:
        return s
    k = e[0]
    if k == 'in':
        s.add(e[1])
    elif k in ('eq', 'lt'):
        s.add(e[1])
        s.add(e[2])
    elif k == 'z':
        s |= e[2]
    elif k == 'not':
        e_vars(e[1], s)
    else:
        for x in e[1]:
            e_vars(x, s)
    return s


def e_eval(e, val):
    """val: dict Var -> int (total over the variables of e)."""
    if e is True or e is False:
        return e
    k = e[0]
    if k == 'in':
        return val(e[1]) in e[2]
    if k == 'eq':
        return val(e[1]) == val(e[2])
    if k == 'lt':
        return val(e[1]) < val(e[2])
    if k == 'not':
        return not e_eval(e[1], val)
    if k == 'and':
        return all(e_eval(x, val) for x in e[1])
    if k == 'or':
        return any(e_eval(x, val) for x in e[1])
    if k == 'z':
        return z3.is_true(z3.simplify(z3.substitute(e[1], *[(v.z, z3.IntVal(val(v))) for v in e[2]])))
    raise AssertionError(k)


def _ranges(s):
    s = sorted(s)
    r = []
    for x in s:
        if r and r[-1][1] == x - 1:
            r[-1][1] = x
        else:
            r.append([x, x])
    return r


def z_in(v, s):
    return z3.Or([v.z == a if a == b else z3.And(v.z >= a, v.z <= b) for a, b in _ranges(s)]) if s else z3.BoolVal(False)


def e_z3(e):
    if e is True or e is False:
        return z3.BoolVal(e)
    k = e[0]
    if k == 'in':
        return z_in(e[1], e[2])
    if k == 'eq':
        return e[1].z == e[2].z
    if k == 'lt':
        return e[1].z < e[2].z
    if k == 'not':
        return z3.Not(e_z3(e[1]))
    if k == 'and':
        return z3.And([e_z3(x) for x in e[1]])
    if k == 'or':
        return z3.Or([e_z3(x) for x in e[1]])
    return e[1]


# ------------------------------------------------------------------ path state
class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.dom_decisions = 0
        self.z3_decisions = 0
        self.asserts = 0
        self.assert_queries = 0
        self.forks = 0
        self.unknown = 0


STATS = Stats()
FUNCS = set()
C = None  # current path


_ASK = {}


def ask(dom, s):
    """Z3's answer to: can a character of dom be in s, can it be outside s (cached)."""
    k = (dom, s)
    r = _ASK.get(k)
    if r is None:
        v = Var(-1, '', ())
        r = []
        for neg in (False, True):
            sol = z3.SimpleSolver()
            sol.add(z_in(v, dom))
            sol.add(z3.Not(z_in(v, s)) if neg else z_in(v, s))
            STATS.z3_calls += 1
            r.append(sol.check() == z3.sat)
        _ASK[k] = r = tuple(r)
        assert r == (bool(s & dom), bool(dom - s))
    STATS.dom_decisions += 1
    return r


class Path:
    def __init__(self, prefix=(), params=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pending = []
        self.dom = {}
        self.tainted = set()
        self.solver = None
        self.vars = []
        self.inputs = []   # (name, kind, payload)
        self.outs = []
        self.covers = set()
        self.params = params or {}
        self.names = {}
        self.steps = 0
        self.base_asserted = False

    # -- variables
    def newvar(self, name, dom):
        v = Var(len(self.vars), name, dom)
        self.vars.append(v)
        self.dom[v] = frozenset(dom) if dom is not None else None
        return v

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set('timeout', 20000)
        return self.solver

    def taint(self, vs):
        for v in vs:
            if v not in self.tainted:
                self.tainted.add(v)
                if self.dom[v] is not None:
                    self._solver().add(z_in(v, self.dom[v]))

    def tri(self, e):
        if e is True or e is False:
            return e
        k = e[0]
        if k == 'in':
            d = self.dom[e[1]]
            if d <= e[2]:
                return True
            if not (d & e[2]):
                return False
            return None
        if k == 'eq':
            if e[1] is e[2]:
                return True
            a, b = self.dom[e[1]], self.dom[e[2]]
            if not (a & b):
                return False
            if len(a) == 1 and a == b:
                return True
            return None
        if k == 'lt':
            if e[1] is e[2]:
                return False
            a, b = self.dom[e[1]], self.dom[e[2]]
            if max(a) < min(b):
                return True
            if min(a) >= max(b):
                return False
            return None
        if k == 'not':
            r = self.tri(e[1])
            return None if r is None else not r
        if k == 'and':
            r = True
            for x in e[1]:
                t = self.tri(x)
                if t is False:
                    return False
                if t is None:
                    r = None
            return r
        if k == 'or':
            r = False
            for x in e[1]:
                t = self.tri(x)
                if t is True:
                    return True
                if t is None:
                    r = None
            return r
        return None

    def free_vars(self, e):
        return [v for v in e_vars(e, set()) if self.dom[v] is None or len(self.dom[v]) > 1]

    def split(self, e, v):
        """Values of v's domain for which e holds (e has no other free variable)."""
        def val(u, x):
            return x if u is v else next(iter(self.dom[u]))
        return frozenset(x for x in self.dom[v] if e_eval(e, lambda u: val(u, x)))

    def add(self, e):
        """Constrain the path by e (known satisfiable, or checked by the caller)."""
        if e is True:
            return
        if e is False:
            raise PathEnd()
        if e[0] == 'and':
            for x in e[1]:
                self.add(x)
            return
        if e[0] == 'not' and e[1][0] == 'or':
            for x in e[1][1]:
                self.add(e_not(x))
            return
        t = self.tri(e)
        if t is True:
            return
        if t is False:
            raise PathEnd()
        fv = self.free_vars(e)
        if len(fv) == 1 and self.dom[fv[0]] is not None:
            v = fv[0]
            s = self.split(e, v)
            if not s:
                raise PathEnd()
            self.dom[v] = s
            if v in self.tainted:
                self._solver().add(z_in(v, s))
            return
        self.taint(fv)
        # variables fixed to a single value are substituted through their domain
        self.taint([v for v in e_vars(e, set()) if v not in self.tainted])
        self._solver().add(e_z3(e))

    def check(self, e):
        """Is the path condition plus e satisfiable?"""
        s = self._solver()
        self.taint([v for v in e_vars(e, set()) if v not in self.tainted])
        import time
        t = time.time()
        STATS.z3_calls += 1
        s.push()
        s.add(e_z3(e))
        r = s.check()
        self.model = s.model() if r == z3.sat else None
        s.pop()
        STATS.z3_time += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
            raise Unsupported('solver gave no answer')
        return r == z3.sat

    def feasible(self, e):
        """(can be true, can be false), cheaply when possible."""
        t = self.tri(e)
        if t is not None:
            return t, not t
        fv = self.free_vars(e)
        if len(fv) == 1 and fv[0] not in self.tainted and self.dom[fv[0]] is not None:
            s = self.split(e, fv[0])
            return ask(self.dom[fv[0]], s)
        STATS.z3_decisions += 1
        a = self.check(e)
        if not a:
            return False, True
        return True, self.check(e_not(e))

    def branch(self, e):
        """Decide the condition e, exploring both sides if both are feasible."""
        t = self.tri(e)
        if t is not None:
            return t
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(e if d else e_not(e))
            return bool(d)
        ct, cf = self.feasible(e)
        STATS.forks += 1
        if ct and cf:
            self.pending.append(self.trace + [0])
            d = 1
        elif ct:
            d = 1
        elif cf:
            d = 0
        else:
            raise PathEnd()
        self.pos += 1
        self.prefix.append(d)
        self.trace.append(d)
        self.add(e if d else e_not(e))
        return bool(d)

    def choose(self, n):
        """An n-way decision without constraint (n concrete alternatives)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for i in range(n - 1, 0, -1):
                self.pending.append(self.trace + [i])
            d = 0
            self.prefix.append(0)
        self.pos += 1
        self.trace.append(d)
        return d

    def concretize_var(self, v):
        while True:
            d = self.dom[v]
            if d is not None and len(d) == 1:
                return next(iter(d))
            if d is None:
                raise Unsupported('concretising an unbounded integer')
            x = min(d)
            if self.branch(('in', v, frozenset([x]))):
                return x

    def final_model(self, rnd=None):
        """A value for each variable satisfying the path condition."""
        m = None
        if self.tainted:
            STATS.z3_calls += 1
            if self._solver().check() != z3.sat:
                raise PathEnd()
            m = self._solver().model()
        r = {}
        for v in self.vars:
            if v in self.tainted:
                x = m.eval(v.z, model_completion=True).as_long()
            else:
                d = sorted(self.dom[v])
                x = d[rnd.randrange(len(d))] if rnd else d[0]
            r[v] = x
        return r


def branch(e):
    if e is True or e is False:
        return e
    return C.branch(e)


# ------------------------------------------------------------------ symbolic values
class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return branch(self.e)

    def __and__(self, o):
        return mkbool(e_and([self.e, bexpr(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(e_or([self.e, bexpr(o)]))
    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__


def bexpr(b):
    return b.e if isinstance(b, SymBool) else bool(b)


def mkbool(e):
    if e is True or e is False:
        return e
    t = C.tri(e) if C is not None else None
    return SymBool(e) if t is None else t


class SymInt:
    """An integer expression over symbolic integers."""
    __slots__ = ('z', 'vs')

    def __init__(self, z, vs):
        self.z, self.vs = z, vs

    @staticmethod
    def lift(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, (int, bool)):
            return SymInt(z3.IntVal(int(x)), frozenset())
        if isinstance(x, SymBool):
            return SymInt(z3.IntVal(int(bool(x))), frozenset())
        return None

    def _bin(self, o, f):
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        return mkint(f(self.z, o.z), self.vs | o.vs)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b) if isinstance(o, (int, SymInt)) else o * self.__index__()
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.z, self.vs)
    def __abs__(self): return self if self >= 0 else -self
    def __pos__(self): return self

    def _cmp(self, o, f):
        if isinstance(o, float):
            o = SymInt(z3.RealVal(o), frozenset())
            return mkbool(('z', f(z3.ToReal(self.z), o.z), frozenset(self.vs)))
        o = SymInt.lift(o)
        if o is None:
            return NotImplemented
        r = z3.simplify(f(self.z, o.z))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return mkbool(('z', r, frozenset(self.vs | o.vs)))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return bool(self != 0)

    def __index__(self):
        """Concretise."""
        for v in sorted(self.vs, key=lambda v: v.id):
            C.concretize_var(v)
        return e_int(self)
    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.__index__(), spec)


def e_int(i, val=None):
    val = val or (lambda v: next(iter(C.dom[v])))
    r = z3.simplify(z3.substitute(i.z, *[(v.z, z3.IntVal(val(v))) for v in i.vs])) if i.vs else z3.simplify(i.z)
    return r.as_long()


def mkint(z, vs):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z, frozenset(vs))


WS = frozenset(ord(c) for c in map(chr, range(0x3100)) if c.isspace())


def c_in(c, s):
    """Condition 'character c is one of the set s'."""
    if isinstance(c, int):
        return c in s
    return ('in', c, s)


def c_eq(a, b):
    if isinstance(a, int):
        return a == b if isinstance(b, int) else ('in', b, frozenset([a]))
    if isinstance(b, int):
        return ('in', a, frozenset([b]))
    return True if a is b else ('eq', a, b)


def c_lt(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a < b
        return ('in', b, frozenset(x for x in b.dom if x > a))
    if isinstance(b, int):
        return ('in', a, frozenset(x for x in a.dom if x < b))
    return False if a is b else ('lt', a, b)


def chars(s):
    return s.c if isinstance(s, SymStr) else tuple(map(ord, s))


def isstr(x):
    return isinstance(x, (str, SymStr))


def mk(cs):
    """A string from characters (real str when all are concrete)."""
    for c in cs:
        if not isinstance(c, int):
            d = C.dom[c] if C is not None else c.dom
            if len(d) > 1:
                break
    else:
        return ''.join(chr(c if isinstance(c, int) else next(iter(C.dom[c] if C is not None else c.dom))) for c in cs)
    return SymStr(tuple(cs))


def s_eq(a, b):
    ca, cb = chars(a), chars(b)
    if len(ca) != len(cb):
        return False
    return e_and([c_eq(x, y) for x, y in zip(ca, cb)])


def s_lt(a, b):
    ca, cb = chars(a), chars(b)
    r = len(ca) < len(cb)
    for x, y in reversed(list(zip(ca, cb))):
        lt, eq = c_lt(x, y), c_eq(x, y)
        r = e_or([lt, e_and([eq, r])])
    return r


def _lower(cs, fn):
    r = []
    for c in cs:
        if isinstance(c, int):
            r.extend(map(ord, fn(chr(c))))
        else:
            d = C.dom[c]
            if all(fn(chr(x)) == chr(x) for x in d):
                r.append(c)
            else:
                r.extend(map(ord, fn(chr(C.concretize_var(c)))))
    return r


class SymStr:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    # -- basics
    def __len__(self): return len(self.c)
    def __bool__(self): return len(self.c) > 0

    def __iter__(self):
        for x in self.c:
            yield mk((x,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            f = lambda x: None if x is None else x.__index__()
            return mk(self.c[slice(f(i.start), f(i.stop), f(i.step))])
        return mk((self.c[i.__index__()],))

    def __add__(self, o):
        return mk(self.c + chars(o)) if isstr(o) else NotImplemented

    def __radd__(self, o):
        return mk(chars(o) + self.c) if isstr(o) else NotImplemented

    def __mul__(self, n): return mk(self.c * n.__index__())
    __rmul__ = __mul__

    def __eq__(self, o):
        return mkbool(s_eq(self, o)) if isstr(o) else NotImplemented

    def __ne__(self, o):
        return mkbool(e_not(s_eq(self, o))) if isstr(o) else NotImplemented

    def __lt__(self, o): return mkbool(s_lt(self, o)) if isstr(o) else NotImplemented
    def __gt__(self, o): return mkbool(s_lt(o, self)) if isstr(o) else NotImplemented
    def __le__(self, o): return mkbool(e_not(s_lt(o, self))) if isstr(o) else NotImplemented
    def __ge__(self, o): return mkbool(e_not(s_lt(self, o))) if isstr(o) else NotImplemented
    def __hash__(self): return hash(concrete(self))
    def __str__(self): return concrete(self)
    def __repr__(self): return repr(concrete(self))
    def __format__(self, spec): return format(concrete(self), spec)
    def __fspath__(self): return concrete(self)

    def __contains__(self, o):
        return self.find(o) >= 0

    def __mod__(self, args):
        return fmt_mod(concrete(self), args)

    # -- searching
    def _at(self, sub, i):
        """Condition 'sub occurs at i'."""
        cs = chars(sub)
        if i < 0 or i + len(cs) > len(self.c):
            return False
        return e_and([c_eq(a, b) for a, b in zip(self.c[i:i + len(cs)], cs)])

    def _span(self, start, end):
        n = len(self.c)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        if not isstr(sub):
            raise TypeError('must be str')
        s, e = self._span(start, end)
        for i in range(s, e - len(sub) + 1):
            if branch(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._span(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if branch(self._at(sub, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e = self._span(start, end)
        if not len(sub):
            return e - s + 1
        n = 0
        while s + len(sub) <= e:
            if branch(self._at(sub, s)):
                n += 1
                s += len(sub)
            else:
                s += 1
        return n

    def startswith(self, p, start=None, end=None):
        s, e = self._span(start, end)
        if isinstance(p, tuple):
            return mkbool(e_or([bexpr(self.startswith(x, start, end)) for x in p]))
        if not isstr(p):
            raise TypeError('startswith first arg must be str or a tuple of str, not %s' % type(p).__name__)
        return mkbool(self._at(p, s) if s + len(p) <= e else False)

    def endswith(self, p, start=None, end=None):
        s, e = self._span(start, end)
        if isinstance(p, tuple):
            return mkbool(e_or([bexpr(self.endswith(x, start, end)) for x in p]))
        if not isstr(p):
            raise TypeError('endswith first arg must be str or a tuple of str, not %s' % type(p).__name__)
        return mkbool(self._at(p, e - len(p)) if e - len(p) >= s else False)

    # -- stripping and splitting
    def _setof(self, x):
        if x is None:
            return lambda c: c_in(c, WS)
        cs = chars(x)
        if all(isinstance(c, int) for c in cs):
            st = frozenset(cs)
            return lambda c: c_in(c, st)
        return lambda c: e_or([c_eq(c, d) for d in cs])

    def lstrip(self, x=None):
        f = self._setof(x)
        i = 0
        while i < len(self.c) and branch(f(self.c[i])):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, x=None):
        f = self._setof(x)
        i = len(self.c)
        while i > 0 and branch(f(self.c[i - 1])):
            i -= 1
        return mk(self.c[:i])

    def strip(self, x=None):
        r = self.lstrip(x)
        return r.rstrip(x)

    def split(self, sep=None, maxsplit=-1):
        r = []
        if sep is None:
            i, n = 0, len(self.c)
            while True:
                while i < n and branch(c_in(self.c[i], WS)):
                    i += 1
                if i >= n:
                    return r
                if maxsplit >= 0 and len(r) >= maxsplit:
                    j = n
                    while branch(c_in(self.c[j - 1], WS)):
                        j -= 1
                    r.append(mk(self.c[i:j]))
                    return r
                j = i
                while j < n and not branch(c_in(self.c[j], WS)):
                    j += 1
                r.append(mk(self.c[i:j]))
                i = j
        if not len(sep):
            raise ValueError('empty separator')
        i = 0
        while maxsplit < 0 or len(r) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            r.append(mk(self.c[i:j]))
            i = j + len(sep)
        r.append(mk(self.c[i:]))
        return r

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        r = []
        if sep is None:
            j = len(self.c)
            while True:
                while j > 0 and branch(c_in(self.c[j - 1], WS)):
                    j -= 1
                if j <= 0:
                    return r[::-1]
                if len(r) >= maxsplit:
                    i = 0
                    while branch(c_in(self.c[i], WS)):
                        i += 1
                    r.append(mk(self.c[i:j]))
                    return r[::-1]
                i = j
                while i > 0 and not branch(c_in(self.c[i - 1], WS)):
                    i -= 1
                r.append(mk(self.c[i:j]))
                j = i
        j = len(self.c)
        while len(r) < maxsplit:
            i = self.rfind(sep, 0, j)
            if i < 0:
                break
            r.append(mk(self.c[i + len(sep):j]))
            j = i
        r.append(mk(self.c[:j]))
        return r[::-1]

    def partition(self, sep):
        i = self.find(sep)
        return (mk(self.c), '', '') if i < 0 else (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', mk(self.c)) if i < 0 else (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    LB = frozenset(map(ord, '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'))

    def splitlines(self, keepends=False):
        r, i, n = [], 0, len(self.c)
        while i < n:
            j = i
            while j < n and not branch(c_in(self.c[j], self.LB)):
                j += 1
            e = j
            if j < n:
                if j + 1 < n and branch(c_in(self.c[j], frozenset([13]))) and branch(c_in(self.c[j + 1], frozenset([10]))):
                    e = j + 2
                else:
                    e = j + 1
            r.append(mk(self.c[i:e if keepends else j]))
            i = e
        return r

    def replace(self, old, new, count=-1):
        if not len(old):
            raise Unsupported('replace of the empty string')
        r, i, n = [], 0, 0
        while True:
            j = self.find(old, i) if count < 0 or n < count else -1
            if j < 0:
                return mk(tuple(r) + self.c[i:])
            r.extend(self.c[i:j])
            r.extend(chars(new))
            i = j + len(old)
            n += 1

    def join(self, it):
        r, first = [], True
        for x in it:
            if not isstr(x):
                raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
            if not first:
                r.extend(self.c)
            first = False
            r.extend(chars(x))
        return mk(tuple(r))

    def removeprefix(self, p): return mk(self.c[len(p):]) if branch(self._at(p, 0)) else mk(self.c)
    def removesuffix(self, p):
        return mk(self.c[:len(self.c) - len(p)]) if len(p) and branch(self._at(p, len(self.c) - len(p))) else mk(self.c)

    def lower(self): return mk(tuple(_lower(self.c, str.lower)))
    def upper(self): return mk(tuple(_lower(self.c, str.upper)))
    casefold = lower

    def _all(self, pred):
        if not self.c:
            return False
        return mkbool(e_and([pred(chr(c)) if isinstance(c, int) else ('in', c, frozenset(x for x in c.dom if pred(chr(x)))) for c in self.c]))

    def isspace(self): return self._all(str.isspace)
    def isdigit(self): return self._all(str.isdigit)
    isnumeric = isdecimal = isdigit
    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isupper(self): return concrete(self).isupper()
    def islower(self): return concrete(self).islower()
    def isidentifier(self): return concrete(self).isidentifier()

    def format(self, *a, **k): return fmt_format(self, a, k)

    def encode(self, encoding='utf-8', errors='strict'):
        r, i, n = [], 0, len(self.c)
        while i < n:
            c = self.c[i]
            if (isinstance(c, int) and c < 128) or (not isinstance(c, int) and branch(c_in(c, _ASCII))):
                r.append(c)
            else:
                x = c if isinstance(c, int) else C.concretize_var(c)
                try:
                    r.extend(chr(x).encode('utf-8' if encoding == 'utf-8-sig' else encoding, errors))
                except UnicodeEncodeError as e:
                    j = i + 1
                    # consecutive characters that fail are reported as one range
                    while j < n:
                        d = self.c[j] if isinstance(self.c[j], int) else C.concretize_var(self.c[j])
                        try:
                            chr(d).encode(encoding)
                            break
                        except UnicodeEncodeError:
                            j += 1
                    raise UnicodeEncodeError(e.encoding, concrete(self), i, j, e.reason)
            i += 1
        if encoding == 'utf-8-sig':
            r = [0xef, 0xbb, 0xbf] + r
        return SymBytes(mk(tuple(r)))

    def expandtabs(self, *a): return concrete(self).expandtabs(*a)

    def ljust(self, w, f=' '): return self + f * max(0, w - len(self.c))
    def rjust(self, w, f=' '): return f * max(0, w - len(self.c)) + self

    def translate(self, t):
        return mk(tuple(x for c in self.c for x in map(ord, chr(C.concretize_var(c) if not isinstance(c, int) else c).translate(t))))


STR_METHODS = [m for m in dir(SymStr) if not m.startswith('_') and m not in ('c', 'LB')]


_ASCII = frozenset(range(128))


def _latin(x):
    """The characters of a byte string."""
    if isinstance(x, SymBytes):
        return x.s
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).decode('latin-1')
    raise TypeError('a bytes-like object is required, not %s' % type(x).__name__)


class SymBytes:
    """A byte string whose bytes may be symbolic (held as a string of characters 0..255)."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def _s(self):
        return self.s if isinstance(self.s, SymStr) else SymStr(chars(self.s))

    def __len__(self): return len(self.s)
    def __bool__(self): return len(self.s) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.s[i])
        c = chars(self.s)[i]
        return c if isinstance(c, int) else C.concretize_var(c)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __eq__(self, o):
        return mkbool(s_eq(self.s, _latin(o))) if isinstance(o, (SymBytes, bytes, bytearray)) else False

    def __ne__(self, o):
        return mkbool(e_not(bexpr(self == o)))

    def __hash__(self): return hash(concrete(self.s))
    def __add__(self, o): return SymBytes(mk(chars(self.s) + chars(_latin(o))))
    def __radd__(self, o): return SymBytes(mk(chars(_latin(o)) + chars(self.s)))

    def __contains__(self, o):
        if isinstance(o, int):
            o = bytes([o])
        return _latin(o) in self._s()

    def count(self, x, *a): return self._s().count(_latin(x), *a)
    def find(self, x, *a): return self._s().find(_latin(x), *a)
    def rfind(self, x, *a): return self._s().rfind(_latin(x), *a)
    def index(self, x, *a): return self._s().index(_latin(x), *a)

    def startswith(self, x, *a):
        return self._s().startswith(tuple(_latin(y) for y in x) if isinstance(x, tuple) else _latin(x), *a)

    def endswith(self, x, *a):
        return self._s().endswith(tuple(_latin(y) for y in x) if isinstance(x, tuple) else _latin(x), *a)

    def replace(self, a, b, n=-1): return SymBytes(self._s().replace(_latin(a), _latin(b), n))
    def split(self, sep=None, n=-1): return [SymBytes(x) for x in self._s().split(None if sep is None else _latin(sep), n)]
    def strip(self, x=None): return SymBytes(self._s().strip(' \t\n\r\x0b\x0c' if x is None else _latin(x)))
    def rstrip(self, x=None): return SymBytes(self._s().rstrip(' \t\n\r\x0b\x0c' if x is None else _latin(x)))

    def splitlines(self, keepends=False):
        r, i, cs = [], 0, chars(self.s)
        n = len(cs)
        while i < n:
            j = i
            while j < n and not branch(c_in(cs[j], frozenset([10, 13]))):
                j += 1
            e = j
            if j < n:
                e = j + 1
                if j + 1 < n and branch(c_in(cs[j], frozenset([13]))) and branch(c_in(cs[j + 1], frozenset([10]))):
                    e = j + 2
            r.append(SymBytes(mk(cs[i:e if keepends else j])))
            i = e
        return r

    def join(self, it):
        r = None
        for x in it:
            r = SymBytes(_latin(x)) if r is None else r + self + x
        return SymBytes('') if r is None else r

    def decode(self, encoding='utf-8', errors='strict'):
        r, run = [], []
        enc = encoding
        cs = chars(self.s)
        if enc.lower().replace('_', '-') == 'utf-8-sig':
            enc = 'utf-8'
            if len(cs) >= 3 and branch(s_eq(mk(cs[:3]), '\xef\xbb\xbf')):
                cs = cs[3:]

        def flush():
            if run:
                r.extend(map(ord, bytes(run).decode(enc, errors)))
                run.clear()
        for c in cs:
            if (isinstance(c, int) and c < 128) or (not isinstance(c, int) and branch(c_in(c, _ASCII))):
                flush()
                r.append(c)
            else:
                run.append(c if isinstance(c, int) else C.concretize_var(c))
        flush()
        return mk(tuple(r))

    def __repr__(self): return repr(concrete(self.s).encode('latin-1'))
    def __str__(self): return repr(self)


def concrete(s):
    if isinstance(s, str):
        return s
    return ''.join(chr(c if isinstance(c, int) else C.concretize_var(c)) for c in s.c)


def has_sym(x, depth=0):
    if isinstance(x, (SymStr, SymInt, SymBool, SymBytes)):
        return True
    if depth < 4 and isinstance(x, (tuple, list)):
        return any(has_sym(y, depth + 1) for y in x)
    return False


# ------------------------------------------------------------------ formatting
def to_str(x):
    """str(x), symbolic strings kept."""
    if isstr(x):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return str(x.__index__()) if isinstance(x, SymInt) else str(bool(x))
    if isinstance(x, (BaseException,)) and len(x.args) == 1 and type(x).__str__ in (BaseException.__str__, Exception.__str__):
        return to_str(x.args[0])
    f = type(x).__str__
    if f is object.__str__:
        f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)   # keep a symbolic result
    if isinstance(x, (list, tuple, dict, set, SymSet, SymDict)):
        return str(deep_concrete(x))
    return str(x)


def deep_concrete(x):
    if isinstance(x, SymStr):
        return concrete(x)
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, list):
        return [deep_concrete(y) for y in x]
    if isinstance(x, tuple):
        return tuple(deep_concrete(y) for y in x)
    if isinstance(x, (set, SymSet)):
        return set(deep_concrete(y) for y in x)
    if isinstance(x, (dict, SymDict)):
        return {deep_concrete(k): deep_concrete(v) for k, v in x.items()}
    return x


_SPEC = _re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])')


def fmt_mod(f, args):
    """'%' formatting keeping symbolic strings."""
    out = []
    i = 0
    tup = args if isinstance(args, tuple) else (args,)
    n = 0
    for m in _SPEC.finditer(f):
        out.append(f[i:m.start()])
        i = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = args[m.group(1)]
        else:
            if n >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[n]
            n += 1
        if m.group(5) == 's':
            s = to_str(v)
            w = int(m.group(3) or 0)
            if m.group(4) is not None:
                s = s[:int(m.group(4))]
            if len(s) < w:
                pad = ' ' * (w - len(s))
                s = s + pad if '-' in m.group(2) else pad + s
            out.append(s)
        else:
            out.append(('%' + (m.group(2) or '') + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + m.group(5)) % deep_concrete(v))
    if not isinstance(args, (dict, SymDict)) and n < len(tup):
        raise TypeError('not all arguments converted during string formatting')
    out.append(f[i:])
    return s_join('', out)


def fmt_format(f, a, k):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(concrete(f)):
        out.append(lit)
        if field is None:
            continue
        m = _re.match(r'^(\w*)((?:\.\w+|\[[^\]]*\])*)$', field)
        if not m:
            raise Unsupported('format field ' + field)
        if m.group(1) == '':
            v = a[auto]
            auto += 1
        elif m.group(1).isdigit():
            v = a[int(m.group(1))]
        else:
            v = k[m.group(1)]
        for t in _re.findall(r'\.(\w+)|\[([^\]]*)\]', m.group(2)):
            v = getattr(v, t[0]) if t[0] else v[int(t[1]) if t[1].isdigit() else t[1]]
        out.append(fmt_value(v, conv, spec))
    return s_join('', out)


def fmt_value(v, conv, spec):
    if conv == 'r':
        v = repr(deep_concrete(v))
    if not spec:
        return to_str(v)
    return format(deep_concrete(v), concrete(spec))


def s_join(sep, it):
    it = list(it)
    if isinstance(sep, str) and all(isinstance(x, str) for x in it):
        return sep.join(it)
    return SymStr(chars(sep)).join(it)


# ------------------------------------------------------------------ dict and set
class SymDict:
    """dict whose symbolic keys are compared by forking on equality."""

    def __init__(self, *a, **k):
        self._d = {}      # concrete key -> entry
        self._l = []      # entries in insertion order: [key, value]
        self._s = 0       # number of symbolic keys
        if a and a[0] is not None:
            self.update(a[0])
        if k:
            self.update(k)

    def _find(self, key):
        if not has_sym(key):
            e = self._d.get(key)
            if e is not None:
                return e
            if self._s:
                for e in self._l:
                    if e[2] and e[0] == key:
                        return e
            return None
        for e in self._l:
            if e[0] is key:
                return e
        for e in self._l:
            if e[0] == key:
                return e
        return None

    def __missing__(self, key):
        raise KeyError(key)

    def __getitem__(self, key):
        e = self._find(key)
        return self.__missing__(key) if e is None else e[1]

    def __setitem__(self, key, v):
        e = self._find(key)
        if e is not None:
            e[1] = v
            return
        sym = has_sym(key)
        e = [key, v, sym]
        self._l.append(e)
        if sym:
            self._s += 1
        else:
            self._d[key] = e

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._l = [x for x in self._l if x is not e]
        if e[2]:
            self._s -= 1
        else:
            del self._d[e[0]]

    def __contains__(self, key): return self._find(key) is not None
    def __iter__(self): return iter([e[0] for e in self._l])
    def __reversed__(self): return iter([e[0] for e in self._l][::-1])
    def __len__(self): return len(self._l)
    def __bool__(self): return bool(self._l)
    def keys(self):
        r = SymSetView()
        r._m = SymDict.copy(self) if type(self) is SymDict else SymSetView._plain(self)
        return r
    def values(self): return [e[1] for e in self._l]
    def items(self): return [(e[0], e[1]) for e in self._l]

    def get(self, key, dflt=None):
        e = self._find(key)
        return dflt if e is None else e[1]

    def setdefault(self, key, dflt=None):
        e = self._find(key)
        if e is None:
            self[key] = dflt
            return dflt
        return e[1]

    def pop(self, key, *d):
        e = self._find(key)
        if e is None:
            if d:
                return d[0]
            raise KeyError(key)
        v = e[1]
        del self[key]
        return v

    def popitem(self, last=True):
        e = self._l[-1 if last else 0]
        del self[e[0]]
        return e[0], e[1]

    def update(self, *a, **k):
        if a:
            o = a[0]
            for key in (o.keys() if hasattr(o, 'keys') else []):
                self[key] = o[key]
            if not hasattr(o, 'keys'):
                for key, v in o:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def clear(self):
        self._d, self._l, self._s = {}, [], 0

    def copy(self):
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        r._l = [list(e) for e in self._l]
        r._d = {e[0]: e for e in r._l if not e[2]}
        return r
    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, (dict, SymDict)):
            return NotImplemented
        if len(o) != len(self):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def __repr__(self): return repr(deep_concrete(self))


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SymCounter(SymDict):
    def __init__(self, it=()):
        SymDict.__init__(self)
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, key): return 0


class SymSet:
    def __init__(self, it=()):
        if isinstance(it, SymSet):
            self._m = it._m.copy()
            return
        if isinstance(it, SymDict):
            self._m = SymSetView._plain(it)
            return
        self._m = SymDict()
        for x in it:
            self._m[x] = True

    def add(self, x):
        if x not in self._m:
            self._m[x] = True

    def discard(self, x):
        if x in self._m:
            del self._m[x]

    def remove(self, x): del self._m[x]
    def pop(self): return self._m.popitem(False)[0]
    def clear(self): self._m.clear()
    def copy(self): return type(self)(self)
    __copy__ = copy
    def __contains__(self, x): return x in self._m
    def __iter__(self): return iter(self._m)
    def __len__(self): return len(self._m)
    def __bool__(self): return len(self._m) > 0

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *os):
        self._m = self.intersection(*os)._m

    def union(self, *os):
        r = type(self)(self)
        SymSet.update(r, *os)
        return r

    def difference(self, *os):
        r = type(self)(self)
        SymSet.difference_update(r, *os)
        return r

    def intersection(self, *os):
        os = [o if isinstance(o, (set, frozenset, SymSet)) else SymSet(o) for o in os]
        return type(self)(x for x in self if all(in_(x, o) for o in os))

    def symmetric_difference(self, o):
        o = SymSet(o)
        return type(self)([x for x in self if x not in o] + [x for x in o if x not in self])

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o): return all(x in self for x in o)
    def isdisjoint(self, o): return not any(x in self for x in o)

    def _other(self, o):
        return isinstance(o, (set, frozenset, SymSet, type({}.keys())))

    def __or__(self, o): return self.union(o) if self._other(o) else NotImplemented
    def __and__(self, o): return self.intersection(o) if self._other(o) else NotImplemented
    def __sub__(self, o): return self.difference(o) if self._other(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if self._other(o) else NotImplemented
    def __ror__(self, o): return SymSet(o).union(self)
    def __rand__(self, o): return SymSet(o).intersection(self)
    def __rsub__(self, o): return SymSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return self.issubset(o) and len(self) < len(o)
    def __gt__(self, o): return self.issuperset(o) and len(self) > len(o)

    def __eq__(self, o):
        if not self._other(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    __hash__ = None

    def __repr__(self): return repr(deep_concrete(self))


class SymFrozenSet(SymSet):
    def __hash__(self):
        return hash(frozenset(deep_concrete(list(self))))


class SymSetView(SymSet):
    """dict.keys()."""
    @staticmethod
    def _plain(d):
        m = SymDict()
        m._l = [list(e) for e in d._l]
        m._d = {e[0]: e for e in m._l if not e[2]}
        m._s = d._s
        return m

    def _iter_mkset(self): pass


# ------------------------------------------------------------------ regular expressions
def _cat(name):
    if name == _const.CATEGORY_DIGIT:
        return str.isdigit
    if name == _const.CATEGORY_NOT_DIGIT:
        return lambda c: not c.isdigit()
    if name == _const.CATEGORY_SPACE:
        return str.isspace
    if name == _const.CATEGORY_NOT_SPACE:
        return lambda c: not c.isspace()
    if name == _const.CATEGORY_WORD:
        return lambda c: c.isalnum() or c == '_'
    if name == _const.CATEGORY_NOT_WORD:
        return lambda c: not (c.isalnum() or c == '_')
    raise Unsupported('regex category %s' % name)


_word = _cat(_const.CATEGORY_WORD)


class SymMatch:
    def __init__(self, pat, string, groups, pos):
        self.re, self.string, self._g, self.pos = pat, string, groups, pos

    def _idx(self, g):
        if isstr(g):
            return self.re._names[concrete(g)]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            s = self._g.get(self._idx(g))
            r.append(None if s is None else self.string[s[0]:s[1]])
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g): return self.group(g)

    def groups(self, default=None):
        return tuple(default if self._g.get(i) is None else self.group(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        r = SymDict()
        for n, i in self.re._names.items():
            r[n] = default if self._g.get(i) is None else self.group(i)
        return r

    def start(self, g=0):
        s = self._g.get(self._idx(g))
        return -1 if s is None else s[0]

    def end(self, g=0):
        s = self._g.get(self._idx(g))
        return -1 if s is None else s[1]

    def span(self, g=0): return (self.start(g), self.end(g))

    def expand(self, t): return expand_template(self, t)

    @property
    def lastindex(self): raise Unsupported('lastindex')

    def __bool__(self): return True


class SymPattern:
    cache = {}

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = int(flags)
        self.real = _re.compile(pattern, flags)
        self.groups = self.real.groups
        self._names = dict(self.real.groupindex)
        self.groupindex = self._names
        self.tree = _parser.parse(pattern, flags)
        self.f0 = self.tree.state.flags
        self._memo = {}

    # -- single character conditions
    def _charset(self, node, flags):
        """Predicate on a one-character str for a single-character node, or None."""
        op, av = node
        ic = flags & _re.I
        if op is _const.LITERAL:
            ch = chr(av)
            if ic:
                return lambda c: c.lower() == ch.lower()
            return lambda c: c == ch
        if op is _const.NOT_LITERAL:
            ch = chr(av)
            if ic:
                return lambda c: c.lower() != ch.lower()
            return lambda c: c != ch
        if op is _const.ANY:
            if flags & _re.S:
                return lambda c: True
            return lambda c: c != '\n'
        if op is _const.IN:
            neg = False
            ps = []
            for o, a in av:
                if o is _const.NEGATE:
                    neg = True
                elif o is _const.LITERAL:
                    ps.append(lambda c, a=a: ord(c) == a)
                elif o is _const.RANGE:
                    ps.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
                elif o is _const.CATEGORY:
                    ps.append(_cat(a))
                else:
                    raise Unsupported('regex class %s' % o)

            def f(c):
                r = any(p(c) for p in ps)
                if not r and ic:
                    r = any(p(c.swapcase()) for p in ps)
                return r != neg
            return f
        return None

    def _test(self, node, flags, c):
        key = (id(node), flags)
        p = self._memo.get(key)
        if p is None:
            p = self._memo[key] = (self._charset(node, flags), node)
        p = p[0]
        if isinstance(c, int):
            return p(chr(c))
        s = frozenset(x for x in c.dom if p(chr(x)))
        return branch(('in', c, s))

    def _m(self, seq, i, cs, pos, g, flags, k):
        """Match nodes seq[i:] at pos; k(pos, groups) is the continuation."""
        if i == len(seq):
            return k(pos, g)
        node = seq[i]
        op, av = node
        if op in (_const.LITERAL, _const.NOT_LITERAL, _const.ANY, _const.IN):
            if pos >= len(cs) or not self._test(node, flags, cs[pos]):
                return None
            return self._m(seq, i + 1, cs, pos + 1, g, flags, k)
        if op is _const.SUBPATTERN:
            grp, addf, delf, p = av
            f2 = (flags | addf) & ~delf

            def k2(q, g2, start=pos):
                if grp is not None:
                    g2 = dict(g2)
                    g2[grp] = (start, q)
                return self._m(seq, i + 1, cs, q, g2, flags, k)
            return self._m(p, 0, cs, pos, g, f2, k2)
        if op is _const.BRANCH:
            for alt in av[1]:
                r = self._m(alt, 0, cs, pos, g, flags, lambda q, g2: self._m(seq, i + 1, cs, q, g2, flags, k))
                if r is not None:
                    return r
            return None
        if op in (_const.MAX_REPEAT, _const.MIN_REPEAT, getattr(_const, 'POSSESSIVE_REPEAT', None)):
            lo, hi, p = av
            hi = len(cs) + 1 if hi is _const.MAXREPEAT else hi
            if op is getattr(_const, 'POSSESSIVE_REPEAT', None):
                raise Unsupported('possessive repeat')
            cont = lambda q, g2: self._m(seq, i + 1, cs, q, g2, flags, k)
            if len(p) == 1 and p[0][0] in (_const.LITERAL, _const.NOT_LITERAL, _const.ANY, _const.IN):
                node1 = p[0]
                if op is _const.MAX_REPEAT:
                    n = 0
                    while n < hi and pos + n < len(cs) and self._test(node1, flags, cs[pos + n]):
                        n += 1
                    while n >= lo:
                        r = cont(pos + n, g)
                        if r is not None:
                            return r
                        n -= 1
                    return None
                n = 0
                while True:
                    if n >= lo:
                        r = cont(pos + n, g)
                        if r is not None:
                            return r
                    if n >= hi or pos + n >= len(cs) or not self._test(node1, flags, cs[pos + n]):
                        return None
                    n += 1

            def rep(n, q, g2):
                if op is _const.MIN_REPEAT and n >= lo:
                    r = cont(q, g2)
                    if r is not None:
                        return r
                if n < hi:
                    r = self._m(p, 0, cs, q, g2, flags, lambda q2, g3: rep(n + 1, q2, g3) if (q2 != q or n < lo) else None)
                    if r is not None:
                        return r
                if op is _const.MAX_REPEAT and n >= lo:
                    return cont(q, g2)
                return None
            return rep(0, pos, g)
        if op is _const.AT:
            if not self._at(av, cs, pos, flags):
                return None
            return self._m(seq, i + 1, cs, pos, g, flags, k)
        if op in (_const.ASSERT, _const.ASSERT_NOT):
            d, p = av
            if d >= 0:
                r = self._m(p, 0, cs, pos, g, flags, lambda q, g2: (q, g2))
            else:
                w = p.getwidth()[0]
                r = self._m(p, 0, cs, pos - w, g, flags, lambda q, g2: (q, g2) if q == pos else None) if pos >= w else None
            if (r is None) == (op is _const.ASSERT):
                return None
            return self._m(seq, i + 1, cs, pos, r[1] if r else g, flags, k)
        if op is _const.GROUPREF:
            s = g.get(av)
            if s is None:
                return None
            sub = cs[s[0]:s[1]]
            if pos + len(sub) > len(cs) or not branch(e_and([c_eq(a, b) for a, b in zip(sub, cs[pos:])])):
                return None
            return self._m(seq, i + 1, cs, pos + len(sub), g, flags, k)
        if op is _const.GROUPREF_EXISTS:
            grp, yes, no = av
            p = yes if g.get(grp) is not None else no
            if p is None:
                return self._m(seq, i + 1, cs, pos, g, flags, k)
            return self._m(p, 0, cs, pos, g, flags, lambda q, g2: self._m(seq, i + 1, cs, q, g2, flags, k))
        if op is getattr(_const, 'ATOMIC_GROUP', None):
            r = self._m(av, 0, cs, pos, g, flags, lambda q, g2: (q, g2))
            return None if r is None else self._m(seq, i + 1, cs, r[0], r[1], flags, k)
        raise Unsupported('regex op %s' % op)

    def _at(self, av, cs, pos, flags):
        n = len(cs)
        nl = lambda j: branch(c_in(cs[j], frozenset([10])))
        if av is _const.AT_BEGINNING_STRING:
            return pos == 0
        if av is _const.AT_BEGINNING:
            return pos == 0 or (bool(flags & _re.M) and nl(pos - 1))
        if av is _const.AT_END_STRING:
            return pos == n
        if av is _const.AT_END:
            if pos == n:
                return True
            if flags & _re.M:
                return nl(pos)
            return pos == n - 1 and nl(pos)
        if av in (_const.AT_BOUNDARY, _const.AT_NON_BOUNDARY):
            def w(j):
                if j < 0 or j >= n:
                    return False
                c = cs[j]
                if isinstance(c, int):
                    return _word(chr(c))
                return branch(('in', c, frozenset(x for x in c.dom if _word(chr(x)))))
            b = w(pos - 1) != w(pos)
            return b == (av is _const.AT_BOUNDARY)
        raise Unsupported('regex anchor %s' % av)

    def _run(self, string, pos, full=False):
        cs = chars(string)
        k = (lambda q, g: (q, g) if q == len(cs) else None) if full else (lambda q, g: (q, g))
        r = self._m(self.tree, 0, cs, pos, {}, self.f0, k)
        if r is None:
            return None
        g = dict(r[1])
        g[0] = (pos, r[0])
        return SymMatch(self, string, g, pos)

    def match(self, s, pos=0):
        s = norm(s)
        if isinstance(s, str):
            return self.real.match(s, pos)
        return self._run(s, pos)

    def fullmatch(self, s, pos=0):
        s = norm(s)
        if isinstance(s, str):
            return self.real.fullmatch(s, pos)
        return self._run(s, pos, True)

    def search(self, s, pos=0):
        s = norm(s)
        if isinstance(s, str):
            return self.real.search(s, pos)
        for i in range(pos, len(s) + 1):
            m = self._run(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        s = norm(s)
        if isinstance(s, str):
            yield from self.real.finditer(s)
            return
        i = 0
        last = -1
        while i <= len(s):
            m = self.search(s, i)
            if m is None:
                return
            a, b = m.span()
            if a == b and a == last:
                i = a + 1
                if i > len(s):
                    return
                m = self.search(s, i)
                if m is None:
                    return
                a, b = m.span()
            yield m
            last = b
            i = b if b > a else b
            if a == b:
                last = b

    def findall(self, s):
        s = norm(s)
        if isinstance(s, str):
            return self.real.findall(s)
        r = []
        for m in self.finditer(s):
            r.append(m.group() if self.groups == 0 else m.groups('')[0] if self.groups == 1 else m.groups(''))
        return r

    def split(self, s, maxsplit=0):
        s = norm(s)
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        r, i = [], 0
        for m in self.finditer(s):
            if maxsplit and len(r) >= maxsplit:
                break
            r.append(s[i:m.start()])
            r.extend(m.groups())
            i = m.end()
        r.append(s[i:])
        return r

    def subn(self, repl, s, count=0):
        s = norm(s)
        if isinstance(s, str) and isinstance(repl, str):
            return self.real.subn(repl, s, count)
        out, i, n = [], 0, 0
        for m in (self.finditer(s) if not isinstance(s, str) else self.real.finditer(s)):
            if count and n >= count:
                break
            out.append(s[i:m.start()])
            out.append(repl(m) if callable(repl) else expand_template(m, repl))
            i = m.end()
            n += 1
        out.append(s[i:])
        return s_join('', out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


def expand_template(m, t):
    cs = chars(t)
    out, i = [], 0
    while i < len(cs):
        c = cs[i]
        if not isinstance(c, int) and 92 in C.dom[c]:
            c = C.concretize_var(c)
        if c == 92 and i + 1 < len(cs):
            d = cs[i + 1]
            d = d if isinstance(d, int) else C.concretize_var(d)
            ch = chr(d)
            if ch.isdigit():
                out.append(m.group(int(ch)) or '')
                i += 2
                continue
            if ch == 'g':
                j = i + 3
                while cs[j] != ord('>'):
                    j += 1
                name = ''.join(map(chr, cs[i + 3:j]))
                out.append(m.group(int(name) if name.isdigit() else name) or '')
                i = j + 1
                continue
            out.append({'n': '\n', 't': '\t', '\\': '\\', 'r': '\r'}.get(ch, '\\' + ch))
            i += 2
            continue
        out.append(mk((c,)))
        i += 1
    return s_join('', out)


def norm(s):
    """A real str when every character is fixed by now."""
    if isinstance(s, SymStr):
        return mk(s.c)
    if not isinstance(s, str):
        raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
    return s


class ReShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 're')
        for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE', 'error', 'RegexFlag'):
            setattr(self, n, getattr(_re, n))
        self.Pattern, self.Match = SymPattern, SymMatch
        self._c = {}

    def compile(self, p, flags=0):
        if isinstance(p, SymPattern):
            return p
        p = concrete(p)
        k = (p, int(flags))
        if k not in self._c:
            self._c[k] = SymPattern(p, flags)
        return self._c[k]

    def match(self, p, s, flags=0): return self.compile(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return self.compile(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return self.compile(p, flags).search(s)
    def sub(self, p, r, s, count=0, flags=0): return self.compile(p, flags).sub(r, s, count)
    def subn(self, p, r, s, count=0, flags=0): return self.compile(p, flags).subn(r, s, count)
    def split(self, p, s, maxsplit=0, flags=0): return self.compile(p, flags).split(s, maxsplit)
    def findall(self, p, s, flags=0): return self.compile(p, flags).findall(s)
    def finditer(self, p, s, flags=0): return self.compile(p, flags).finditer(s)

    def escape(self, s):
        s = norm(s)
        if isinstance(s, str):
            return _re.escape(s)
        out = []
        for x in s:
            out.append(_re.escape(concrete(x)))
        return ''.join(out)


RE = ReShim()


# ------------------------------------------------------------------ hooks for instrumented code
def in_(a, b):
    if isinstance(b, SymStr) or (isinstance(b, str) and isinstance(a, SymStr)):
        return SymStr(chars(b)).__contains__(a)
    if isinstance(b, (dict, set, frozenset)) and has_sym(a):
        return any(bool(k == a) for k in list(b))
    return a in b


def notin_(a, b):
    return not in_(a, b)


def mod_(a, b):
    if isinstance(a, str):
        if has_sym(b) or isinstance(b, SymDict) or not _plain(b):
            return fmt_mod(a, b)
        return a % b
    return a % b


def _plain(b):
    if isinstance(b, tuple):
        return all(_plain(x) for x in b)
    return isinstance(b, (str, int, float)) or b is None


_SM = frozenset(STR_METHODS)


def callm_(o, name, *a, **k):
    """o.name(*a, **k) where name is the name of a str method."""
    if isinstance(o, str):
        if name == 'join':
            return s_join(o, a[0])
        if name == 'format':
            return fmt_format(o, a, k)
        if any(has_sym(x) for x in a):
            return getattr(SymStr(chars(o)), name)(*a, **k)
    elif isinstance(o, bytes):
        if name in ('join', 'decode') or any(has_sym(x) for x in a):
            return getattr(SymBytes(_latin(o)), name)(*a, **k) if name != 'decode' else o.decode(*a, **k)
    elif isinstance(o, SymStr):
        n = norm(o)
        if isinstance(n, str):
            return callm_(n, name, *a, **k)
    elif o is str or o is SymStrType:
        return callm_(a[0], name, *a[1:], **k)
    return getattr(o, name)(*a, **k)


class SymStrType(type):
    pass


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isstr(x)

    def __subclasscheck__(cls, t):
        return issubclass(t, (str, SymStr))

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return to_str(a[0])
        return str(*a, **k)

    def __getattr__(cls, n):
        if n in _SM:
            return lambda o, *a, **k: callm_(o, n, *a, **k)
        return getattr(str, n)


class StrShim(metaclass=_StrMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymStr):
            return int(concrete(a[0]), *a[1:])
        if a and isinstance(a[0], SymInt):
            return a[0]
        return int(*a, **k)


class IntShim(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __call__(cls, *a):
        return bool(*a)


class BoolShim(metaclass=_BoolMeta):
    pass


def isinstance_(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        if u is str or u is StrShim:
            if isstr(x):
                return True
        elif u is int or u is IntShim:
            if isinstance(x, (int, SymInt, SymBool)):
                return True
        elif u is bytes:
            if isinstance(x, (bytes, SymBytes)):
                return True
        elif u is dict or u is SymDict:
            if isinstance(x, (dict, SymDict)):
                return True
        elif u is set or u is SymSet:
            if isinstance(x, (set, SymSet)) and not isinstance(x, SymFrozenSet):
                return True
        elif isinstance(x, u):
            return True
    return False


def ord_(c):
    if isinstance(c, SymStr):
        return ord(concrete(c))
    return ord(c)


def hash_(x):
    return hash(x)


def repr_(x):
    return repr(deep_concrete(x))


def max_(*a, **k):
    return max(*a, **k)


def fstr_(*parts):
    return s_join('', [p if isstr(p) else fmt_value(*p) for p in parts])


def print_(*a, **k):
    f = k.get('file')
    sep, end = k.get('sep', ' '), k.get('end', '\n')
    if sep is None:
        sep = ' '
    s = s_join('', [s_join(sep, [to_str(x) for x in a]), end])
    (f if f is not None else OUT).write(s)


class Capture:
    """A stream stand-in collecting what is written."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self): pass
    def isatty(self): return False

    def text(self):
        return s_join('', self.parts)


OUT = Capture()
ERR = Capture()


class CollectionsShim(types.ModuleType):
    OrderedDict = SymDict
    defaultdict = SymDefaultDict
    Counter = SymCounter
    import collections as _c
    namedtuple = staticmethod(_c.namedtuple)
    deque = _c.deque


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []

    def _call(self, name, *args):
        return ast.Call(func=ast.Name(id='__vp_' + name + '__', ctx=ast.Load()), args=list(args), keywords=[])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(self._call('in' if isinstance(n.ops[0], ast.In) else 'notin', n.left, n.comparators[0]), n)
        if len(n.ops) > 1:
            for o in n.ops:
                if isinstance(o, (ast.In, ast.NotIn)):
                    raise Unsupported('chained in')
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self._call('mod', n.left, n.right), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in _SM:
            c = self._call('callm', n.func.value, ast.Constant(n.func.attr), *n.args)
            c.keywords = n.keywords
            return ast.copy_location(c, n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(chr(v.conversion) if v.conversion > 0 else None)
                parts.append(ast.Tuple(elts=[v.value, conv, v.format_spec or ast.Constant('')], ctx=ast.Load()))
        return ast.copy_location(self._call('fstr', *parts), n)

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        if n.format_spec:
            n.format_spec = self.visit(n.format_spec)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpacking display')
        return ast.copy_location(self._call('dict', ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)], ctx=ast.Load())), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._call('set', ast.List(elts=n.elts, ctx=ast.Load())), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._call('set', ast.ListComp(elt=n.elt, generators=n.generators)), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._call('dict', ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)), n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        q = '.'.join(self.fn)
        self.fn.pop()
        mark = ast.Expr(self._call('fn', ast.Constant(q)))
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(i, mark)
        return n

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n


def hooks(modname):
    return {
        '__vp_in__': in_, '__vp_notin__': notin_, '__vp_mod__': mod_, '__vp_callm__': callm_, '__vp_fstr__': fstr_, '__vp_dict__': SymDict, '__vp_set__': SymSet,
        '__vp_fn__': lambda q: FUNCS.add(modname + '.' + q),
        'isinstance': isinstance_, 'str': StrShim, 'int': IntShim, 'bool': BoolShim, 'set': SymSet, 'frozenset': SymFrozenSet, 'dict': SymDict,
        'ord': ord_, 'repr': repr_, 'print': print_,
    }


class DifflibShim(types.ModuleType):
    """difflib on fully chosen texts."""
    def __init__(self):
        import difflib
        types.ModuleType.__init__(self, 'difflib')
        self._d = difflib
        self.SequenceMatcher = difflib.SequenceMatcher

    def unified_diff(self, a, b, *r, **k):
        return self._d.unified_diff([concrete(x) for x in a], [concrete(x) for x in b], *r, **k)

    def context_diff(self, a, b, *r, **k):
        return self._d.context_diff([concrete(x) for x in a], [concrete(x) for x in b], *r, **k)

    def ndiff(self, a, b, *r, **k):
        return self._d.ndiff([concrete(x) for x in a], [concrete(x) for x in b], *r, **k)


def load_instrumented(path, modname, extra=None):
    """The module at path, instrumented; imports of re/collections/os/shlex are shimmed."""
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src, path)
    tree = Instr().visit(tree)
    ast.fix_missing_locations(tree)
    m = types.ModuleType(modname)
    m.__file__ = path
    g = m.__dict__
    g.update(hooks(modname))
    real_import = builtins.__import__
    shims = {'re': RE, 'collections': CollectionsShim('collections'), 'os': os_shim(), 'shlex': None, 'os.path': None, 'difflib': DifflibShim()}
    shims.update(extra or {})

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name == 'shlex' and shims['shlex'] is None:
            shims['shlex'] = load_stdlib('shlex')
        if name == 'os.path':
            return shims['os'] if not fromlist else shims['os'].path
        if shims.get(name) is not None:
            return shims[name]
        return real_import(name, globals, locals, fromlist, level)
    b = dict(builtins.__dict__)
    b['__import__'] = imp
    b.update({k: v for k, v in hooks(modname).items() if not k.startswith('__vp')})
    g['__builtins__'] = b
    exec(compile(tree, path, 'exec'), g)
    return m


_LIB = {}


def load_stdlib(name):
    """An instrumented copy of a pure-Python standard module."""
    if name in _LIB:
        return _LIB[name]
    import importlib.util
    import sysconfig
    path = os.path.join(sysconfig.get_path('stdlib'), name + '.py')
    import io as _io

    class IoShim(types.ModuleType):
        pass
    io = IoShim('io')

    class StringIO:
        def __init__(self, s=''):
            self.s, self.i = s, 0

        def read(self, n=None):
            r = self.s[self.i:] if n is None else self.s[self.i:self.i + n]
            self.i += len(r)
            return r

        def readline(self):
            j = self.i
            while j < len(self.s):
                j += 1
                if self.s[j - 1] == '\n':
                    break
            r = self.s[self.i:j]
            self.i = j
            return r

        def close(self): pass
    io.StringIO = StringIO
    if name == 'posixpath':
        src = open(path).read()
        tree = ast.parse(src, path)
        osm = types.ModuleType('os')
        osm.__dict__.update({k: getattr(os, k) for k in dir(os) if not k.startswith('__')})
        osm.fspath = lambda p: p if isstr(p) else os.fspath(p)
        gen = load_stdlib('genericpath')
        m = _load_tree(tree, path, name, {'os': osm, 'genericpath': gen}, block=('posix',))
        # the C helpers are bound by the try blocks; the fallbacks are pure Python
        osm.path = m
    elif name == 'genericpath':
        osm = types.ModuleType('os')
        osm.__dict__.update({k: getattr(os, k) for k in dir(os) if not k.startswith('__')})
        osm.fspath = lambda p: p if isstr(p) else os.fspath(p)
        m = _load_tree(ast.parse(open(path).read(), path), name=name, path=path, shims={'os': osm})
    else:
        m = _load_tree(ast.parse(open(path).read(), path), name=name, path=path, shims={'io': io, 're': RE, 'os': os, 'sys': sys})
        if name == 'shlex':
            m.StringIO = StringIO
    _LIB[name] = m
    return m


def _load_tree(tree, path, name, shims, block=()):
    tree = ast.fix_missing_locations(Instr().visit(tree))
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update(hooks(name))
    real_import = builtins.__import__

    def imp(n, globals=None, locals=None, fromlist=(), level=0):
        if n in block:
            raise ImportError(n)
        if n in shims:
            return shims[n]
        return real_import(n, globals, locals, fromlist, level)
    b = dict(builtins.__dict__)
    b['__import__'] = imp
    b.update({k: v for k, v in hooks(name).items() if not k.startswith('__vp')})
    m.__dict__['__builtins__'] = b
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m


def os_shim():
    m = types.ModuleType('os')
    m.__dict__.update({k: getattr(os, k) for k in dir(os) if not k.startswith('__')})
    m.path = load_stdlib('posixpath')
    m.fspath = lambda p: p if isstr(p) else os.fspath(p)
    return m


# ------------------------------------------------------------------ harness API
def _fill(v, val):
    """v with every symbolic part evaluated by val."""
    if isinstance(v, SymStr):
        return ''.join(chr(c if isinstance(c, int) else val(c)) for c in v.c)
    if isinstance(v, SymBytes):
        return _fill(v.s, val).encode('latin-1')
    if isinstance(v, SymInt):
        return e_int(v, val)
    if isinstance(v, SymBool):
        return e_eval(v.e, val)
    if isinstance(v, (list, tuple)):
        return [_fill(x, val) for x in v]
    if isinstance(v, (set, frozenset, SymSet)):
        return sorted((_fill(x, val) for x in v), key=repr)
    if isinstance(v, (dict, SymDict)):
        return sorted(([_fill(k, val), _fill(x, val)] for k, x in v.items()), key=repr)
    return v


class SymVP:
    """The harness API during symbolic execution."""
    symbolic = True

    def param(self, name, dflt): return C.params.get(name, dflt)

    def _name(self, n):
        i = C.names.get(n, 0)
        C.names[n] = i + 1
        return '%s#%d' % (n, i)

    def choose(self, name, options):
        """One of the options (a list, or a number n for 0..n-1)."""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        d = C.choose(len(opts)) if len(opts) > 1 else 0
        C.inputs.append((self._name(name), 'choice', d))
        return opts[d]

    def bool(self, name):
        v = C.newvar(name, (0, 1))
        C.inputs.append((self._name(name), 'int', v))
        return mkbool(('in', v, frozenset([1])))

    def int(self, name, lo, hi):
        v = C.newvar(name, range(lo, hi + 1))
        C.inputs.append((self._name(name), 'int', v))
        return SymInt(v.z, frozenset([v]))

    def strn(self, name, n, alphabet):
        vs = tuple(C.newvar(name, tuple(sorted(set(map(ord, alphabet))))) for _ in range(n))
        C.inputs.append((self._name(name), 'str', vs))
        return mk(vs)

    def str(self, name, lo, hi, alphabet):
        n = self.choose(name + '.len', list(range(lo, hi + 1)))
        return self.strn(name, n, alphabet)

    def bytes(self, s): return SymBytes(s)

    def assume(self, cond):
        e = bexpr(cond)
        if e is True:
            return
        if e is False:
            raise PathEnd()
        t = C.tri(e)
        if t is False or (t is None and not C.feasible(e)[0]):
            raise PathEnd()
        C.add(e)

    def check(self, cond, msg):
        STATS.asserts += 1
        e = bexpr(cond)
        if e is True:
            return
        if e is not False:
            t = C.tri(e)
            if t is True:
                return
            STATS.assert_queries += 1
            if t is None and not C.check(e_not(e)):
                C.add(e)
                return
            C.add(e_not(e))
        raise Violated(msg)

    def cover(self, tag): C.covers.add(tag)

    def out(self, name, v): C.outs.append((name, v))

    def end(self): raise PathEnd()

    def And(self, *cs): return mkbool(e_and([bexpr(c) for c in cs]))
    def Or(self, *cs): return mkbool(e_or([bexpr(c) for c in cs]))
    def Not(self, c): return mkbool(e_not(bexpr(c)))

    def eq(self, a, b):
        """a == b without forking, for strings and (nested) sequences."""
        if isstr(a) and isstr(b):
            return mkbool(s_eq(a, b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return mkbool(e_and([bexpr(self.eq(x, y)) for x, y in zip(a, b)]))
        return a == b

    def capture(self): return Capture()
    def stdout(self): return OUT.text()
    def stderr(self): return ERR.text()


class Failed(Exception):
    pass


class ConcVP:
    """The harness API during native replay of a recorded case."""
    symbolic = False

    def __init__(self, inputs, params):
        self.inp = dict((n, (k, v)) for n, k, v in inputs)
        self.params, self.names = params, {}
        self.outs, self.covers, self.missing = [], set(), 0

    def param(self, name, dflt): return self.params.get(name, dflt)

    def _get(self, n, dflt):
        i = self.names.get(n, 0)
        self.names[n] = i + 1
        k = '%s#%d' % (n, i)
        if k not in self.inp:
            self.missing += 1
            return dflt
        return self.inp[k][1]

    def choose(self, name, options):
        opts = list(range(options)) if isinstance(options, int) else list(options)
        d = self._get(name, 0)
        return opts[d if d < len(opts) else 0]

    def bool(self, name): return bool(self._get(name, 0))
    def int(self, name, lo, hi): return self._get(name, lo)
    def strn(self, name, n, alphabet): return self._get(name, alphabet[0] * n)

    def str(self, name, lo, hi, alphabet):
        n = self.choose(name + '.len', list(range(lo, hi + 1)))
        return self.strn(name, n, alphabet)

    def bytes(self, s): return s.encode('latin-1')

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def check(self, cond, msg):
        if not cond:
            raise Failed(msg)

    def cover(self, tag): self.covers.add(tag)
    def out(self, name, v): self.outs.append((name, _fill(v, None)))
    def end(self): raise PathEnd()
    def And(self, *cs): return all(cs)
    def Or(self, *cs): return any(cs)
    def Not(self, c): return not c
    def eq(self, a, b): return (list(a) == list(b) if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) else a == b)
    def capture(self): return Capture()
    def stdout(self): return sys.stdout.getvalue()
    def stderr(self): return sys.stderr.getvalue()
