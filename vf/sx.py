"""Forking symbolic execution of the real Python code over bounded numbers.

`Num` is a symbolic rational n/d (n: z3 Int term, d: constant).  The functions under
test run unmodified; the names `int`, `float`, `abs`, `Decimal`, `Fraction` and
`sp.Rational`, as the modules of /repo see them, are replaced for the duration of the run
by versions that let a `Num` through.  A branch on a symbolic condition forks (both sides
are explored when the solver finds both feasible).  Where a `Num` must become an ordinary
number (hashing, indexing, formatting, a C function), the path forks over every value
that the path condition still allows.  Domains are bounded, so exploration is complete.
"""
from __future__ import annotations

import builtins
import contextlib
import decimal
import fractions
import math
import numbers
import sys
from fractions import Fraction
from math import gcd

import sympy as sp

from .env import z3

CURRENT: "Explorer | None" = None


class TooManyPaths(Exception):
    pass


class Explorer:
    """Depth-first exploration; one instance per symbolic run."""

    def __init__(self, chk, domain, max_paths: int = 20_000) -> None:
        self.chk = chk
        self.domain = list(domain)
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set("timeout", 60_000)
        self.solver.add(*self.domain)
        self.pc: list = []
        self.prefix: list = []
        self.taken: list = []
        self.todo: list = []
        self.paths: list = []
        self.forks = 0
        self._model = None

    # -- solver
    def _sat(self, *extra) -> bool:
        import time

        t = time.time()
        r = self.solver.check(*extra)
        self.chk.solver_s += time.time() - t
        self.chk.queries += 1
        if r == z3.unknown:
            from .report import Inconclusive

            raise Inconclusive("solver answered unknown on a path condition")
        self.chk.by_verdict["sat" if r == z3.sat else "unsat"] += 1
        return r == z3.sat

    def _push(self, cond) -> None:
        self.pc.append(cond)
        self.solver.add(cond)

    def decide(self, cond, cand=None) -> bool:
        """Branch on a condition; prefix entries are (decision, candidate value)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        done = self.known.get(cond.get_id())
        if done is not None:
            return done[1]
        val = self._decide(cond, cand)
        neg = z3.simplify(z3.Not(cond))
        self.known[cond.get_id()] = (cond, val)
        self.known[neg.get_id()] = (neg, not val)
        return val

    def _decide(self, cond, cand) -> bool:
        n = len(self.taken)
        if n < len(self.prefix):
            val = self.prefix[n][0]
            self.taken.append((val, cand))
            self._push(cond if val else z3.Not(cond))
            return val
        can_t = self._sat(cond)
        can_f = self._sat(z3.Not(cond)) if can_t else True
        if can_t and can_f:
            self.forks += 1
            self.todo.append([*self.taken, (False, cand)])
            val = True
        else:
            val = can_t
        self.taken.append((val, cand))
        self._push(cond if val else z3.Not(cond))
        return val

    def value(self, term) -> int:
        """Concrete value of an Int term on this path (forks over all of them)."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        known = self.known.get(term.get_id())
        if known is not None:
            return known[1]
        while True:
            n = len(self.taken)
            v = self.prefix[n][1] if n < len(self.prefix) else None
            if v is None:
                v = self._candidate(term)
            if self.decide(term == v, v):
                self.known[term.get_id()] = (term, v)
                return v

    def _candidate(self, term) -> int:
        """Smallest feasible value: deterministic, so that prefixes replay."""
        self.solver.push()
        assert self._sat()
        v = self.solver.model().eval(term, model_completion=True).as_long()
        while True:
            self.solver.add(term < v)
            if not self._sat():
                break
            v = self.solver.model().eval(term, model_completion=True).as_long()
        self.solver.pop()
        return v

    # -- exploration
    def run(self, fn):
        """All paths of fn(): list of (path condition, result | Raised)."""
        global CURRENT
        self.todo = [[]]
        while self.todo:
            self.prefix = self.todo.pop()
            self.pc, self.taken, self.known = [], [], {}
            self.solver = z3.Solver()
            self.solver.set("timeout", 60_000)
            self.solver.add(*self.domain)
            clear_caches()
            prev, CURRENT = CURRENT, self
            try:
                with injected():
                    try:
                        out = fn()
                    except Exception as e:  # noqa: BLE001
                        out = Raised(e)
            finally:
                CURRENT = prev
            if self._infeasible(out):
                continue
            self.paths.append((list(self.pc), out))
            if len(self.paths) > self.max_paths:
                raise TooManyPaths(f"more than {self.max_paths} paths")
        clear_caches()
        self.chk.count("paths", len(self.paths))
        self.chk.count("forks", self.forks)
        self._covers()
        return self.paths

    @staticmethod
    def _infeasible(out) -> bool:
        return isinstance(out, Raised) and isinstance(out.exc, Discard)

    def _covers(self) -> None:
        """The path conditions cover the whole domain (discarded paths excluded)."""
        if self.chk is None or getattr(self, "partial", False):
            return
        s = z3.Solver()
        s.set("timeout", 60_000)
        s.add(*self.domain)
        s.add(*[z3.Not(z3.And(pc)) if pc else z3.BoolVal(False) for pc, _ in self.paths])
        import time

        t = time.time()
        r = s.check()
        self.chk.solver_s += time.time() - t
        self.chk.queries += 1
        if r != z3.unsat:
            raise RuntimeError(f"paths do not cover the domain ({r})")
        self.chk.by_verdict["unsat"] += 1


class Discard(Exception):
    pass


class Raised:
    def __init__(self, exc) -> None:
        self.exc = exc

    def __repr__(self):
        return f"raised {type(self.exc).__name__}: {self.exc}"


def clear_caches() -> None:
    """functools caches of the code under test must not leak between paths."""
    for name, mod in list(sys.modules.items()):
        if not name.startswith("ampform_dpd") or mod is None:
            continue
        for v in list(vars(mod).values()):
            if hasattr(v, "cache_clear") and getattr(v, "__module__", "").startswith("ampform_dpd"):
                v.cache_clear()
            if isinstance(v, type) and v.__module__.startswith("ampform_dpd"):
                for a in list(vars(v).values()):
                    f = a.fget if isinstance(a, property) else a
                    if hasattr(f, "cache_clear"):
                        f.cache_clear()


# ------------------------------------------------------------------ symbolic values
class Bool:
    __slots__ = ("z",)

    def __init__(self, z) -> None:
        self.z = z

    def __bool__(self):
        return CURRENT.decide(self.z)

    def __and__(self, o):
        return Bool(z3.And(self.z, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return Bool(z3.Or(self.z, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return Bool(z3.Not(self.z))

    def __eq__(self, o):
        return Bool(self.z == zb(o))

    def __ne__(self, o):
        return Bool(self.z != zb(o))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"Bool({self.z})"


def zb(x):
    return x.z if isinstance(x, Bool) else z3.BoolVal(bool(x))


def divisors(d: int) -> list[int]:
    """All divisors, largest first."""
    small = [g for g in range(1, math.isqrt(d) + 1) if d % g == 0]
    return sorted({*small, *(d // g for g in small)}, reverse=True)


class Num:
    """n/d with a symbolic integer n; `kind` is the type a concretisation returns."""

    def __init__(self, n, d: int = 1, kind=None) -> None:
        self.n = n if z3.is_expr(n) else z3.IntVal(int(n))
        self.d = d
        self.kind = kind or (int if d == 1 else float)

    # concretisation
    def frac(self) -> Fraction:
        return Fraction(CURRENT.value(self.n), self.d)

    def concrete(self):
        f = self.frac()
        return to_kind(f, self.kind)

    def __hash__(self):
        return hash(self.frac())

    def __int__(self):
        return int(self.frac())

    def __float__(self):
        return float(self.frac())

    def __complex__(self):
        return complex(float(self.frac()))

    def __index__(self):
        f = self.frac()
        if f.denominator != 1 or self.kind is not int:
            raise TypeError(f"'{self.kind.__name__}' object cannot be interpreted as an integer")
        return int(f)

    def __trunc__(self):
        return math.trunc(self.frac())

    def __round__(self, nd=None):
        return round(self.frac(), nd) if nd is not None else round(self.frac())

    def __floor__(self):
        return Num(floordiv(self.n, self.d))

    def __ceil__(self):
        return -Num(floordiv(-self.n, self.d))

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __repr__(self):
        if CURRENT is None:
            return f"Num({self.n}/{self.d})"
        return repr(self.concrete())

    def _sympy_(self):
        f = self.frac()
        if self.kind is float:
            return sp.Float(float(f))
        return sp.Rational(f.numerator, f.denominator)

    def as_integer_ratio(self):
        f = self.frac()
        return f.numerator, f.denominator

    @property
    def denominator(self):
        if self.d == 1:
            return 1
        # reduced denominator: fork on gcd(n, d)
        for g in divisors(self.d):
            if g == 1 or CURRENT.decide(self.n % g == 0):
                return self.d // g
        raise AssertionError

    @property
    def numerator(self):
        den = self.denominator
        return Num(z3.simplify(floordiv(self.n, self.d // den)))

    p = numerator
    q = denominator

    @property
    def is_integer(self):
        if self.kind is float:
            return lambda: Bool(self.n % self.d == 0)
        return bool(Bool(self.n % self.d == 0))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def __getattr__(self, name):
        if name.startswith("__") or CURRENT is None:
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    # arithmetic
    def _bin(self, o, f):
        o = num(o)
        if o is None:
            return NotImplemented
        d = self.d * o.d // gcd(self.d, o.d)
        a = self.n * (d // self.d)
        b = o.n * (d // o.d)
        return Num(z3.simplify(f(a, b)), d, join(self.kind, o.kind))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        o = num(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return norm(z3.simplify(self.n * o.n), self.d * o.d, join(self.kind, o.kind))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        v = o.frac()
        k = join(self.kind, o.kind)
        if v == 0:
            raise ZeroDivisionError("division by zero")
        s = 1 if v > 0 else -1
        return norm(z3.simplify(self.n * (v.denominator * s)), self.d * abs(v.numerator), float if k is int else k)

    def __rtruediv__(self, o):
        o = num(o)
        return NotImplemented if o is None else o / self

    def __floordiv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        v = o.frac()
        if v == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        s = 1 if v > 0 else -1
        return Num(z3.simplify(floordiv(self.n * (v.denominator * s), self.d * abs(v.numerator))), 1, join(self.kind, o.kind))

    def __rfloordiv__(self, o):
        o = num(o)
        return NotImplemented if o is None else o // self

    def __mod__(self, o):
        o = num(o)
        return NotImplemented if o is None else self - (self // o) * o

    def __rmod__(self, o):
        o = num(o)
        return NotImplemented if o is None else o % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        e = num(o)
        if e is None:
            return NotImplemented
        v = e.frac()
        if v.denominator != 1:
            return float(self) ** float(v)
        out = Num(1, 1, self.kind)
        for _ in range(abs(int(v))):
            out = out * self
        return out if v >= 0 else 1 / out

    def __rpow__(self, o):
        b = num(o)
        if b is None:
            return NotImplemented
        if b.frac() == -1 and self.d == 1:
            return Num(z3.If(self.n % 2 == 0, z3.IntVal(1), z3.IntVal(-1)), 1, int)
        return b ** self

    def __neg__(self):
        return Num(z3.simplify(-self.n), self.d, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(z3.simplify(z3.If(self.n >= 0, self.n, -self.n)), self.d, self.kind)

    # comparison
    def _cmp(self, o, f):
        o = num(o)
        if o is None:
            return NotImplemented
        return Bool(z3.simplify(f(self.n * o.d, o.n * self.d)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return CURRENT.decide(self.n != 0)


numbers.Real.register(Num)


def floordiv(a, b: int):
    return a / z3.IntVal(b)  # z3 integer division floors for positive b


def norm(n, d, kind):
    return Num(n, d, kind)


def to_kind(f: Fraction, kind):
    if kind is float:
        return float(f)
    if kind is int:
        return int(f)
    if kind is decimal.Decimal:
        return decimal.Decimal(f.numerator) / f.denominator
    if kind is Fraction:
        return f
    return sp.Rational(f.numerator, f.denominator)


def join(a, b):
    for k in (float, decimal.Decimal, sp.Rational, Fraction, int):
        if a is k or b is k:
            return k
    return a


def num(x) -> Num | None:
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(int(x))
    if isinstance(x, int):
        return Num(x)
    if isinstance(x, float):
        f = Fraction(x)
        return Num(f.numerator, f.denominator, float)
    if isinstance(x, decimal.Decimal):
        f = Fraction(x)
        return Num(f.numerator, f.denominator, decimal.Decimal)
    if isinstance(x, Fraction):
        return Num(x.numerator, x.denominator, Fraction)
    if isinstance(x, sp.Rational):
        return Num(int(x.p), int(x.q), sp.Rational)
    if isinstance(x, sp.Float):
        f = Fraction(float(x))
        return Num(f.numerator, f.denominator, float)
    return None


def frac_of(x) -> Fraction | None:
    """Value of a concrete number."""
    n = num(x)
    if n is None or not z3.is_int_value(z3.simplify(n.n)):
        return None
    return Fraction(z3.simplify(n.n).as_long(), n.d)


# ------------------------------------------------------------------ injected names
class _TypeProxy(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._real) or (isinstance(obj, Num) and obj.kind is cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __eq__(cls, o):
        return o is cls._real or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(cls._real)

    def __or__(cls, o):
        return cls._real | o


def _proxy(real, make, name):
    return _TypeProxy(name, (), {"_real": real, "_make": staticmethod(make), "__origin__": real})


def _float(*a):
    if a and isinstance(a[0], Num):
        return Num(a[0].n, a[0].d, float)
    return builtins.float(*a)


def _int(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], Num):
        x = a[0]
        if x.d == 1:
            return Num(x.n, 1, int)
        q = floordiv(x.n, x.d)
        t = z3.If(z3.Or(x.n >= 0, x.n % x.d == 0), q, q + 1)
        return Num(z3.simplify(t), 1, int)
    return builtins.int(*a, **k)


def _rational(*a, **k):
    if a and isinstance(a[0], Num):
        x = a[0]
        if len(a) > 1 and a[1] is not None:
            x = x / a[1]
        return Num(x.n, x.d, sp.Rational)
    if len(a) > 1 and isinstance(a[1], Num):
        return _rational(num(a[0]) / a[1])
    return sp.Rational(*a, **k)


def _decimal(*a):
    if a and isinstance(a[0], Num):
        return Num(a[0].n, a[0].d, decimal.Decimal)
    return decimal.Decimal(*a)


def _fraction(*a, **k):
    if a and isinstance(a[0], Num):
        x = a[0] / a[1] if len(a) > 1 else a[0]
        return Num(x.n, x.d, Fraction)
    return fractions.Fraction(*a, **k)


def _sympify(x, *a, **k):
    if isinstance(x, Num):
        return Num(x.n, x.d, sp.Rational) if x.kind is not float else x
    return sp.sympify(x, *a, **k)


def _nsimplify(x, *a, **k):
    if isinstance(x, Num):
        return Num(x.n, x.d, sp.Rational)
    return sp.nsimplify(x, *a, **k)


def _integer(x):
    return _rational(_int(x)) if isinstance(x, Num) else sp.Integer(x)


class _Sp:
    def __init__(self) -> None:
        self.__dict__.update(Rational=RATIONAL, sympify=_sympify, S=_S(), nsimplify=_nsimplify, Integer=INTEGER)

    def __getattr__(self, name):
        return getattr(sp, name)


class _S:
    def __call__(self, x):
        return _sympify(x)

    def __getattr__(self, name):
        return getattr(sp.S, name)


FLOAT = _proxy(float, _float, "float")
INT = _proxy(int, _int, "int")
RATIONAL = _proxy(sp.Rational, _rational, "Rational")
INTEGER = _proxy(sp.Integer, _integer, "Integer")
DECIMAL = _proxy(decimal.Decimal, _decimal, "Decimal")
FRACTION = _proxy(Fraction, _fraction, "Fraction")
SP = _Sp()

_BY_VALUE = [
    (sp, SP), (sp.Rational, RATIONAL), (sp.Integer, INTEGER), (decimal.Decimal, DECIMAL), (Fraction, FRACTION),
    (sp.sympify, _sympify), (sp.nsimplify, _nsimplify),
]


@contextlib.contextmanager
def injected():
    """Replace number constructors in the namespaces of the code under test."""
    saved = []
    missing = object()
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name in {"ampform_dpd", "qrules.quantum_numbers"} or name.startswith("ampform_dpd.")):
            continue
        d = vars(mod)
        if name == "qrules.quantum_numbers":  # converters of the input objects
            for key, fake in (("Fraction", FRACTION), ("int", INT)):
                saved.append((d, key, d.get(key, missing)))
                d[key] = fake
            continue
        for key in ("float", "int"):
            saved.append((d, key, d.get(key, missing)))
            d[key] = FLOAT if key == "float" else INT
        for key, val in list(d.items()):
            for real, fake in _BY_VALUE:
                if val is real:
                    saved.append((d, key, val))
                    d[key] = fake
    try:
        yield
    finally:
        for d, key, val in reversed(saved):
            if val is missing:
                d.pop(key, None)
            else:
                d[key] = val


# ------------------------------------------------------------------ inputs
def ints(name, lo, hi):
    z = z3.Int(name)
    return Num(z), [z >= lo, z <= hi]


def half(name, lo2, hi2, kind=float):
    """name/2 with lo2 <= name <= hi2."""
    z = z3.Int(name)
    return Num(z, 2, kind), [z >= lo2, z <= hi2]


def pick(index: Num, items):
    """items[index] on this path."""
    return items[CURRENT.value(index.n)]


def zn(x):
    """(numerator term, denominator) of a symbolic or concrete number, or None."""
    n = num(x)
    return None if n is None else (n.n, n.d)


def same(x, term, den: int = 1):
    """z3 Bool: the value x equals term/den."""
    n = num(x)
    if n is None:
        return z3.BoolVal(False)
    return n.n * den == term * n.d
