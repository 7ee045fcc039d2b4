"""Symbolic execution core: paths, decisions, obligations, symbolic scalars."""

import contextlib
import enum
import fractions
import sys
import time

import z3


# --------------------------------------------------------------- control

class Ctl(BaseException):
    """Engine control exceptions (never caught by verified code)"""


class Infeasible(Ctl):
    """Current path is infeasible / deliberately cut"""


class Cut(Ctl):
    """Path ended by the engine (obligations of this path already posed)"""


class Unsupported(Ctl):
    """Construct outside the engine's reach (tool limit)"""


class NeedCarry(Ctl):
    """A loop iteration reads state written by earlier iterations"""

    def __init__(self, loc):
        super().__init__(loc)
        self.loc = loc


class ForkSeen(Ctl):
    """A genuine fork happened where only concrete control is allowed"""


class Restart(Ctl):
    """Restart exploration of a loop body"""


class Obligation:
    __slots__ = ('label', 'status', 'time', 'model', 'where', 'backend')

    def __init__(self, label, status, t, model=None, where='', backend='z3'):
        self.label = label
        self.status = status        # proved | refuted | unknown
        self.time = t
        self.model = model
        self.where = where
        self.backend = backend


class Explorer:

    def __init__(self, parent=None):
        self.parent = parent
        self.prefix = []
        self.trace = []
        self.todo = []
        self.conds = []     # decision conditions on this path (z3)
        self.facts = []     # assumed facts on this path (z3)


class Engine:
    """Singleton engine state"""

    def __init__(self):
        self.stamps = 0
        self.reset()

    def reset(self, timeout=10000, branch_timeout=1500):
        self.timeout = timeout
        self.branch_timeout = branch_timeout
        self.solver = z3.Solver()
        self.solver.set('timeout', branch_timeout)
        self.journal = []
        self.explorer = None
        self.path_stamp = 0
        self.gstack = []            # generic indices in scope
        self.counter = 0
        self.obligations = []
        self.paths = 0
        self.solver_time = 0.0
        self.checks = 0
        self.covers = {}
        self.bound = None           # None: proof mode, int: bounded mode
        self.max_paths = 20000
        self.deadline = None
        self.emit_stack = []
        self.assumptions = set()
        self.functions = set()
        self.witness_terms = []     # candidate instantiation terms
        self.stop_on_refuted = True
        self.model_hook = None
        self.universals = []
        self.tracing = True
        self.heap = {}
        self.depth = 0
        self.nofork = False
        self.after_needed = set()
        self.loop_invs = {}
        self.loop_carry = {}
        self.loop_handlers = {}
        self.cover_hits = set()
        self.live = {}              # label -> posed in a satisfiable context
        self.carry_spec = None      # invariants of other carried state
        self.export = False         # universals of iterations are kept
        self.hints = []             # intervals of guarded segments
        self.while_rule = None      # contract-supplied rule of while loops
        self.for_rule = None        # contract-supplied rule of for loops
        self.dict_spec = None       # invariants of dicts changed by loops

    # -- names

    def name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    def fresh(self, base, sort):
        n = self.name(base)
        if self.gstack:
            f = z3.Function(n, *[g.sort() for g in self.gstack], sort)
            return f(*self.gstack)
        return z3.Const(n, sort)

    # -- journal

    def mark(self):
        return len(self.journal)

    def undo(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()[0]()

    def on_undo(self, fn, birth=0):
        """birth: creation stamp of the modified object; objects created in
        the current path are not restored (they may escape from it)"""
        if birth <= self.path_stamp:
            self.journal.append((fn, birth))

    def stamp(self):
        self.stamps += 1
        return self.stamps

    def keep_since(self, mark, path_stamp):
        """Commit changes since mark to objects born after path_stamp"""
        self.journal[mark:] = [i for i in self.journal[mark:]
                               if i[1] <= path_stamp]

    # -- solver

    def _check(self, *extra, timeout=None):
        t0 = time.monotonic()
        if self.deadline and t0 > self.deadline:
            raise Unsupported('unit time budget exhausted')
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set('timeout', self.branch_timeout)
        self.solver_time += time.monotonic() - t0
        self.checks += 1
        return r

    def assume(self, t, fact=True):
        t = bool_term(t)
        if z3.is_true(t):
            return
        self.solver.add(t)
        if fact and self.explorer:
            self.explorer.facts.append(t)

    def decide(self, t):
        """Fork on z3 condition"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        ex = self.explorer
        if ex is None:
            raise Unsupported('decision outside of exploration')
        i = len(ex.trace)
        if i < len(ex.prefix) and not self.nofork:
            c = ex.prefix[i]
            val = c[0] == 'T'
            ex.trace.append(c)
            cond = t if val else z3.Not(t)
            self.solver.add(cond)
            ex.conds.append(cond)
            return val
        rt = self._check(t)
        rf = self._check(z3.Not(t))
        can_t = rt != z3.unsat
        can_f = rf != z3.unsat
        if not can_t and not can_f:
            raise Infeasible()
        if can_t and can_f:
            if self.nofork:
                raise ForkSeen()
            ex.todo.append([*ex.trace, 'F'])
            val, c = True, 'T'
        elif can_t:
            val, c = True, 'T!'
        else:
            val, c = False, 'F!'
        if not self.nofork:
            ex.trace.append(c)
        cond = t if val else z3.Not(t)
        self.solver.add(cond)
        ex.conds.append(cond)
        return val

    def choose(self, n, label='choice'):
        """Demonic choice among n alternatives"""
        if n == 1:
            return 0
        x = self.fresh(label, z3.IntSort())
        for i in range(n - 1):
            if self.decide(x == i):
                return i
        self.assume(x == n - 1)
        return n - 1

    def feasible(self, *extra):
        return self._check(*extra) != z3.unsat

    def entails(self, t, timeout=None):
        return self._check(z3.Not(bool_term(t)), timeout=timeout) == z3.unsat

    def prove(self, t, label):
        """Pose obligation: t holds on the current path"""
        t = bool_term(t)
        t0 = time.monotonic()
        if z3.is_true(z3.simplify(t)):
            self.obligations.append(Obligation(label, 'proved', 0.0,
                                               backend='simplify'))
            self._vacuity(t, label)
            return True
        r = self._check(z3.Not(t), timeout=self.timeout)
        dt = time.monotonic() - t0
        if r == z3.unsat:
            self._vacuity(t, label)
            self.obligations.append(Obligation(label, 'proved', dt))
            return True
        if r == z3.sat:
            m = self.solver.model()
            self.obligations.append(Obligation(
                label, 'refuted', dt, self._model(m)))
            return False
        # second opinion with a fresh solver
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.set('smt.random_seed', 7)
        s.add(*self.solver.assertions())
        s.add(z3.Not(t))
        r = s.check()
        dt = time.monotonic() - t0
        self.solver_time += dt
        if r == z3.unsat:
            self.obligations.append(Obligation(label, 'proved', dt))
            return True
        if r == z3.sat:
            self.obligations.append(Obligation(
                label, 'refuted', dt, self._model(s.model())))
            return False
        self.obligations.append(Obligation(label, 'unknown', dt))
        return False

    def _vacuity(self, t, label):
        """some obligation of each label must be posed in a satisfiable
        context (unless it claims that the context is impossible)"""
        if self.live.get(label) is True or z3.is_false(z3.simplify(t)):
            return
        n = self.live.get(label, 0)
        if n > 60:
            return
        self.live[label] = True if self._check() != z3.unsat else n + 1

    def _model(self, m):
        if self.model_hook:
            try:
                return self.model_hook(m)
            except Exception as e:
                return {'error': repr(e)}
        out = {}
        for d in m.decls()[:80]:
            out[str(d)] = str(m[d])[:200]
        return out

    # -- exploration

    def explore(self, fn, on_outcome):
        """Explore all paths of fn(); on_outcome(kind, value, explorer) is
        called inside each path's solver context."""
        ex = Explorer(self.explorer)
        saved = self.explorer
        todo = [[]]
        base_counter = self.counter
        first = True
        nofork = self.nofork
        path_stamp = self.path_stamp
        while todo:
            prefix = todo.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('path budget exhausted')
            self.solver.push()
            mark = self.mark()
            if not first and saved is None:
                self.counter = base_counter
            first = False
            ex = Explorer(saved)
            ex.prefix = prefix
            self.explorer = ex
            self.nofork = False
            self.path_stamp = self.stamp()
            gs = list(self.gstack)
            es = list(self.emit_stack)
            try:
                try:
                    kind, value = 'ret', fn()
                except Infeasible:
                    kind, value = 'infeasible', None
                except Cut:
                    kind, value = 'cut', None
                except Ctl:
                    raise
                except Exception as e:
                    kind, value = 'exc', e
                if kind != 'infeasible':
                    try:
                        on_outcome(kind, value, ex)
                    except Infeasible:
                        pass
            finally:
                self.undo(mark)
                self.gstack[:] = gs
                self.emit_stack[:] = es
                self.solver.pop()
                self.explorer = saved
                self.nofork = nofork
                self.path_stamp = path_stamp
            todo.extend(ex.todo)


X = Engine()


# ----------------------------------------------------------- scalar values

def bool_term(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f'not a boolean: {x!r}')


def int_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymOpt):
        return int_term(x.force())
    if z3.is_expr(x):
        return x
    raise Unsupported(f'not an integer: {x!r}')


I = z3.IntSort()
B = z3.BoolSort()


class Sym:
    """Base of symbolic values"""
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f'hash of symbolic {type(self).__name__}')


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t) if not (z3.is_const(t)) else t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkint(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return SymInt(t)


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return X.decide(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == bool_term(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkbool(z3.And(self.t, bool_term(o)))

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bool_term(o)))

    def __add__(self, o):
        return mkint(int_term(self) + int_term(o))

    __radd__ = __add__

    def __repr__(self):
        return f'SymBool({self.t})'


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.t))
    if isinstance(x, SymOpt):
        return not_(x.truth())
    return not x


def and_(*xs):
    return mkbool(z3.And(*[bool_term(x) for x in xs]) if xs
                  else z3.BoolVal(True))


def or_(*xs):
    return mkbool(z3.Or(*[bool_term(x) for x in xs]) if xs
                  else z3.BoolVal(False))


def implies(a, b):
    return mkbool(z3.Implies(bool_term(a), bool_term(b)))


def iff(a, b):
    return mkbool(bool_term(a) == bool_term(b))


class SymNum(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return X.decide(self.t != 0)

    def __repr__(self):
        return f'{type(self).__name__}({self.t})'

    __hash__ = Sym.__hash__


def _isnum(x):
    return isinstance(x, (int, SymInt, SymBool)) and not isinstance(
        x, enum.Enum)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported(f'symbolic integer used as native index: {self.t}')

    def __int__(self):
        return self.__index__()

    def _bin(self, o, f):
        if isinstance(o, SymReal):
            return NotImplemented
        if isinstance(o, float):
            return SymReal(f(z3.ToReal(self.t), real_term(o)))
        if isinstance(o, SymOpt):
            o = o.force()
        if not _isnum(o):
            return NotImplemented
        return mkint(f(self.t, int_term(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.t)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t / z3.IntVal(o))
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.t % z3.IntVal(o))
        return NotImplemented

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.t)).__truediv__(o)

    def __rtruediv__(self, o):
        return SymReal(z3.ToReal(self.t)).__rtruediv__(o)

    def _cmp(self, o, f):
        if isinstance(o, (SymReal, float)):
            return SymReal(z3.ToReal(self.t))._cmp(o, f)
        if isinstance(o, SymOpt):
            o = o.force()
        if not _isnum(o):
            return NotImplemented
        return mkbool(f(self.t, int_term(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SymReal, float)):
            return SymReal(z3.ToReal(self.t)).__eq__(o)
        if not _isnum(o):
            return False
        return mkbool(self.t == int_term(o))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__


def real_term(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite float')
        f = fractions.Fraction(repr(x))
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    return z3.ToReal(int_term(x))


class SymReal(SymNum):
    """Floating point number modelled as a mathematical real"""
    __slots__ = ()

    def _bin(self, o, f):
        if not isinstance(o, (int, float, SymInt, SymReal)):
            return NotImplemented
        return SymReal(f(self.t, real_term(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        return SymReal(-self.t)

    def _cmp(self, o, f):
        if not isinstance(o, (int, float, SymInt, SymReal)):
            return NotImplemented
        return mkbool(f(self.t, real_term(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymReal)):
            return False
        return mkbool(self.t == real_term(o))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def trunc(self):
        """int(x): rounding towards zero"""
        fl = z3.ToInt(self.t)
        return mkint(z3.If(z3.Or(self.t >= 0, z3.ToReal(fl) == self.t),
                           fl, fl + 1))

    def round(self):
        """round half to even"""
        fl = z3.ToInt(self.t)
        d = self.t - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        return mkint(z3.If(d < half, fl,
                           z3.If(d > half, fl + 1,
                                 z3.If(fl % 2 == 0, fl, fl + 1))))


# opaque values ---------------------------------------------------------

class SymVal(Sym):
    """Opaque value of some kind, identified by an integer term

    Concrete python values of the same kind are given distinct integer codes.
    """
    __slots__ = ('t', 'kind', 'pytype', 'extra')

    def __init__(self, t, kind, pytype=object, extra=None):
        self.t = t
        self.kind = kind
        self.pytype = pytype
        self.extra = extra

    def __bool__(self):
        ext = self.extra
        if ext and 'truth' in ext:
            return bool(ext['truth'](self))
        if self.kind == 'Str':
            return bool(mkbool(self.t != lit('', 'Str')))
        raise Unsupported(f'truth value of opaque {self.t}')

    def __eq__(self, o):
        o = lift(o, self.kind)
        if o is None:
            return False
        return mkbool(self.t == o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __add__(self, o):
        return _add(self, o)

    def __radd__(self, o):
        return _add(o, self)

    def __getattr__(self, name):
        ext = object.__getattribute__(self, 'extra')
        if ext and name in ext.get('attrs', {}):
            return ext['attrs'][name](self)
        raise AttributeError(name)

    def __repr__(self):
        return f'Sym{self.kind}({self.t})'


def str_cat(parts):
    """concatenation of strings"""
    f = z3.Function('Str.cat', I, I, I)
    r = None
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            p = lit(p, 'Str')
        else:
            p = p.t
        r = p if r is None else f(r, p)
    return '' if r is None else SymVal(r, 'Str', str)


def _add(*ps):
    if all(isinstance(p, str) or type(p) is SymVal and p.kind == 'Str'
           for p in ps):
        return str_cat(ps)
    return NotImplemented


_codes = {}
_code_values = {}


def code(value, kind):
    """Integer code of a concrete python value of opaque kind"""
    key = (kind, type(value).__name__, repr(value))
    if key not in _codes:
        _codes[key] = len(_codes) + 1
        _code_values[kind, _codes[key]] = value
    return _codes[key]


def decode(kind, n):
    return _code_values.get((kind, n))


_kind_types = {'Str': (str,)}


def lift(o, kind):
    """z3 term for value o of opaque kind, or None when never equal"""
    if isinstance(o, SymOpt):
        o = o.force()
    if isinstance(o, SymVal):
        return o.t if o.kind == kind else None
    if hasattr(o, '_lift_'):
        return o._lift_(kind)
    if kind == 'Json':
        if o is None or isinstance(o, (str, int, float, bool)):
            return z3.IntVal(code(o, kind))
        return None
    if isinstance(o, _kind_types.get(kind, ())):
        return z3.IntVal(code(o, kind))
    return None


def lit(value, kind):
    return z3.IntVal(code(value, kind))


class SymOpt(Sym):
    """Value that may be None; forced (forked) on use"""
    __slots__ = ('isnone', 'mk', '_v')

    def __init__(self, isnone, mk):
        self.isnone = isnone
        self.mk = mk
        self._v = None

    def is_none(self):
        return mkbool(self.isnone)

    def value(self):
        """Value, assuming not None (no fork)"""
        if self._v is None:
            v = self.mk()
            return v
        return self._v

    def force(self):
        if X.decide(self.isnone):
            return None
        return self.value()

    def truth(self):
        if X.decide(self.isnone):
            return False
        v = self.value()
        return v if isinstance(v, SymBool) else bool(v)

    def __bool__(self):
        return bool(self.truth())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = self.force()
        return getattr(v, name)

    def __eq__(self, o):
        if o is None:
            return mkbool(self.isnone)
        if isinstance(o, SymOpt):
            return mkbool(z3.Or(
                z3.And(self.isnone, o.isnone),
                z3.And(z3.Not(self.isnone), z3.Not(o.isnone),
                       bool_term(eq(self.value(), o.value())))))
        return mkbool(z3.And(z3.Not(self.isnone),
                             bool_term(eq(self.value(), o))))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def _f(self, o, op):
        return cmp(op, self.force(),
                   o.force() if isinstance(o, SymOpt) else o)

    def __lt__(self, o):
        return self._f(o, '<')

    def __le__(self, o):
        return self._f(o, '<=')

    def __gt__(self, o):
        return self._f(o, '>')

    def __ge__(self, o):
        return self._f(o, '>=')

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __sub__(self, o):
        return self.force() - o

    def __rsub__(self, o):
        return o - self.force()

    def __repr__(self):
        return f'SymOpt({self.isnone})'


# ------------------------------------------------------------ comparisons

def symbolic(x):
    """Does x contain symbolic parts (tuples searched)"""
    if isinstance(x, Sym):
        return True
    if isinstance(x, tuple):
        return any(symbolic(i) for i in x)
    return False


_custom = {}


def _has_custom(x, name):
    """User-defined comparison method in a (named)tuple class"""
    c = type(x)
    k = (c, name)
    if k not in _custom:
        f = getattr(c, name, None)
        _custom[k] = f is not None and f is not getattr(tuple, name)
    return _custom[k]


def eq(a, b):
    """a == b as bool or SymBool"""
    if isinstance(a, SymOpt) or isinstance(b, SymOpt):
        return a == b if isinstance(a, SymOpt) else b == a
    if hasattr(b, '_eq_') and not hasattr(a, '_eq_'):
        a, b = b, a
    if hasattr(a, '_eq_'):
        return a._eq_(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if _has_custom(a, '__eq__'):
            return a == b
        if len(a) != len(b):
            return False
        if not symbolic(a) and not symbolic(b):
            return a == b
        ts = []
        for x, y in zip(a, b):
            r = eq(x, y)
            if r is False:
                return False
            if r is not True:
                ts.append(bool_term(r))
        return mkbool(z3.And(*ts)) if ts else True
    r = a == b
    if r is NotImplemented:
        return False
    return r


def lt(a, b, strict=True):
    """lexicographic a < b (<= when not strict)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        name = '__lt__' if strict else '__le__'
        if _has_custom(a, name) or not (symbolic(a) or symbolic(b)):
            return a < b if strict else a <= b
        n = min(len(a), len(b))
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        res = z3.BoolVal(res)
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            e = bool_term(eq(x, y))
            ls = bool_term(lt(x, y))
            res = z3.Or(ls, z3.And(e, res))
        return mkbool(res)
    if isinstance(a, SymOpt):
        a = a.force()
    if isinstance(b, SymOpt):
        b = b.force()
    return a < b if strict else a <= b


def cmp(op, a, b):
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return not_(eq(a, b))
    if op in ('is', 'is not'):
        r = _is(a, b)
        return r if op == 'is' else not_(r)
    if op in ('in', 'not in'):
        r = contains(b, a)
        return r if op == 'in' else not_(r)
    if isinstance(a, SymOpt):
        a = a.force()
    if isinstance(b, SymOpt):
        b = b.force()
    if isinstance(a, tuple) and isinstance(b, tuple):
        if op == '<':
            return lt(a, b)
        if op == '<=':
            return lt(a, b, False)
        if op == '>':
            if _has_custom(a, '__gt__'):
                return a > b
            return lt(b, a)
        if op == '>=':
            if _has_custom(a, '__ge__'):
                return a >= b
            return lt(b, a, False)
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    raise Unsupported(op)


def _is(a, b):
    if isinstance(b, SymOpt) and not isinstance(a, SymOpt):
        a, b = b, a
    if isinstance(a, SymOpt):
        if b is None:
            return a.is_none()
        return _is(a.force(), b)
    if hasattr(a, '_is_'):
        return a._is_(b)
    if hasattr(b, '_is_'):
        return b._is_(a)
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    return a is b


def contains(c, x):
    if isinstance(c, SymOpt):
        c = c.force()
    f = getattr(type(c), '_contains_', None)
    if f:
        return f(c, x)
    if isinstance(c, (tuple, list)):
        ts = []
        for i in c:
            r = eq(i, x)
            if r is True:
                return True
            if r is not False:
                ts.append(bool_term(r))
        return mkbool(z3.Or(*ts)) if ts else False
    if isinstance(c, (dict, set, frozenset)) and symbolic(x):
        return contains(list(c), x)
    return x in c
