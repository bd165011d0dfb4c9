"""Translate the SymPy expressions that the real code builds into `poly.Frac`."""
from __future__ import annotations

from fractions import Fraction
from functools import lru_cache

import sympy as sp
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import WignerD

from .env import z3
from .poly import Ctx, Frac, Poly


class Untranslatable(Exception):
    pass


class UnknownSymbol(Untranslatable):
    """The code's expression depends on a quantity that its specification does not know."""

    def __init__(self, symbol) -> None:
        self.symbol = symbol
        super().__init__(f"unknown symbol {symbol!r}")


@lru_cache(maxsize=None)
def _wigner_doit(j, m, mp):
    b = sp.Symbol("__beta", real=True)
    return sp.expand_trig(WignerD(j, m, mp, 0, b, 0).doit()), b


@lru_cache(maxsize=None)
def _wigner_raw(j, m, mp):
    b = sp.Symbol("__beta", real=True)
    return WignerD(j, m, mp, 0, b, 0).doit(), b


@lru_cache(maxsize=None)
def _cg_value(args):
    return sp.nsimplify(CG(*args).doit())


class Translator:
    """sympy -> Frac.

    env:    {sympy Symbol/Indexed/expr: Frac|Poly}
    angles: {sympy Symbol (angle): Angle}
    """

    def __init__(self, ctx: Ctx, env=None, angles=None, auto=None, tidy=False) -> None:
        self.ctx = ctx
        self.env = {}
        for k, v in (env or {}).items():
            self.env[k] = v if isinstance(v, Frac) else Frac(v)
        self.angles = dict(angles or {})
        self.auto = auto  # callable(symbol) -> Frac for unknown symbols
        self.memo: dict = {}
        self.tidy = tidy
        self.visited_types: set[str] = set()

    # angle = (list of (Fraction multiplier, symbol)); half-angle generators c,s
    def half(self, sym) -> tuple[Frac, Frac]:
        if sym in self.angles:
            return self.angles[sym]
        n = str(sym)
        c = self.ctx.gen(f"cos({n}/2)")
        s = self.ctx.gen(f"sin({n}/2)", square=lambda: 1 - c * c)
        self.angles[sym] = (Frac(c), Frac(s))
        return self.angles[sym]

    def _cis(self, arg) -> tuple[Frac, Frac]:
        """(cos, sin) of a linear combination of angle symbols (+ multiples of pi)."""
        ctx = self.ctx
        C, S = ctx.frac(1), ctx.frac(0)
        for term in sp.Add.make_args(sp.expand(arg)):
            coeff, sym = term.as_coeff_Mul()
            if sym == sp.pi or sym == 1:
                val = sp.cos(term), sp.sin(term)
                c, s = self(val[0]), self(val[1])
            else:
                if not isinstance(sym, sp.Symbol):
                    raise Untranslatable(f"trigonometric argument {arg}")
                n = Fraction(int((2 * coeff).p), int((2 * coeff).q))
                if n.denominator != 1:
                    raise Untranslatable(f"trigonometric argument {arg}")
                n = n.numerator
                hc, hs = self.half(sym)
                if n < 0:
                    hs, n = -hs, -n
                c, s = ctx.frac(1), ctx.frac(0)
                for _ in range(n):
                    c, s = c * hc - s * hs, s * hc + c * hs
            C, S = C * c - S * s, S * c + C * s
        return C, S

    def __call__(self, e) -> Frac:
        if isinstance(e, Frac):
            return e
        if not isinstance(e, sp.Basic):
            e = sp.sympify(e)
        hit = self.memo.get(e)
        if hit is None:
            hit = self.ctx.tidy(self._tr(e)) if self.tidy else self._tr(e)
            self.memo[e] = hit
        return hit

    def _tr(self, e) -> Frac:
        ctx = self.ctx
        if e in self.env:
            return self.env[e]
        self.visited_types.add(type(e).__name__)
        if isinstance(e, sp.Rational):
            return ctx.frac(Fraction(int(e.p), int(e.q)))
        if isinstance(e, sp.Float):
            return ctx.frac(Fraction(float(e)))
        if e is sp.I:
            return Frac(ctx.I)
        if e is sp.pi:
            return Frac(ctx.gen("pi", pos=True))
        if isinstance(e, (sp.Symbol, sp.Indexed)):
            if self.auto is not None:
                return self.auto(e)
            raise UnknownSymbol(e)
        if isinstance(e, sp.Add):
            out = ctx.frac(0)
            for a in e.args:
                out = out + self(a)
            return out
        if isinstance(e, sp.Mul):
            out = ctx.frac(1)
            for a in e.args:
                f = self(a)
                if f.num.is_zero():
                    return f
                out = out * f
            return out
        if isinstance(e, sp.Pow):
            b, x = e.args
            if isinstance(b, sp.Abs) and x == 2:
                return self(b.args[0]).abs2()
            if isinstance(x, sp.Integer):
                return self(b) ** int(x)
            if isinstance(x, sp.Rational) and x.q == 2:
                return ctx.sqrt(self(b)) ** int(x.p)
            raise Untranslatable(f"power {e}")
        if isinstance(e, sp.exp):
            return self._uf("exp", e.args)
        if isinstance(e, sp.Abs):
            v = self(e.args[0])
            return ctx.sqrt(v.abs2())
        if isinstance(e, sp.conjugate):
            return self(e.args[0]).conj()
        if isinstance(e, sp.re):
            v = self(e.args[0])
            return (v + v.conj()) * Fraction(1, 2)
        if isinstance(e, sp.im):
            v = self(e.args[0])
            return (v - v.conj()) * Fraction(-1, 2) * ctx.I
        if isinstance(e, (sp.cos, sp.sin)):
            c, s = self._cis(e.args[0])
            return c if isinstance(e, sp.cos) else s
        if isinstance(e, sp.KroneckerDelta):
            d = e.doit()
            if isinstance(d, sp.Integer):
                return self(d)
            raise Untranslatable(str(e))
        if isinstance(e, WignerD):
            j, m, mp, a, b, g = e.args
            if a == 0 and g == 0 and isinstance(b, sp.Symbol):
                raw, sym = _wigner_raw(j, m, mp)
                c, s = self.half(b)
                sub = Translator(ctx, angles={sym: (c, s)})
                return sub(raw)
            return self(e.doit())
        if isinstance(e, CG):
            return self(_cg_value(e.args))
        if isinstance(e, (sp.Min, sp.Max)):
            return self._extremum(e)
        if isinstance(e, sp.Piecewise):
            for val, cond in e.args:
                known = self._decide(cond)
                if known is None:
                    raise Untranslatable(f"undecided condition {cond}")
                if known:
                    return self(val)
            raise Untranslatable(f"no branch of {e}")
        if hasattr(e, "evaluate"):
            return self(e.evaluate())
        if hasattr(e, "doit"):
            d = e.doit(deep=False) if _accepts_deep(e) else e.doit()
            if d != e:
                return self(d)
        raise Untranslatable(f"{type(e).__name__}: {e}")

    def _extremum(self, e) -> Frac:
        """Minimum or maximum whose winner is the same for all values in the domain."""
        inner = unclip(e)
        if inner is not None:  # no-op exactly if |x| <= 1
            x = self(inner)
            rest = self.ctx.frac(1) - x * x
            if any(self.ctx.vanishes(rest.num * d - n * rest.den, "clipped value") for n, d in self.ctx.roots):
                return x
        best = self(e.args[0])
        for a in e.args[1:]:
            f = self(a)
            diff = f - best if isinstance(e, sp.Max) else best - f
            if self._sign(diff, ">="):
                best = f
            elif not self._sign(diff, "<="):
                raise Untranslatable(f"undecided extremum {e}")
        return best

    def _sign(self, f: Frac, op: str) -> bool:
        """Is `f op 0` for all values of the generators (solver)?"""
        p = f.num * f.den
        if op in (">=", "<=") and p.is_zero():
            return True
        if self.ctx.I.t.keys() & {((i, 1),) for i in p.gens()}:
            return False
        if op == ">=":
            for n, d in self.ctx.roots:  # square of a real number
                if self.ctx.vanishes(f.num * d - n * f.den, "square"):
                    return True
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.ctx.constraints())
        v = p.to_z3()
        s.add({">=": v < 0, "<=": v > 0, ">": v <= 0, "<": v >= 0, "==": v != 0, "!=": v == 0}[op])
        return s.check() == z3.unsat

    def _decide(self, cond):
        if cond in (True, sp.true):
            return True
        if cond in (False, sp.false):
            return False
        if isinstance(cond, (sp.And, sp.Or)):
            vals = [self._decide(c) for c in cond.args]
            stop = isinstance(cond, sp.Or)
            if stop in vals:
                return stop
            return None if None in vals else not stop
        if isinstance(cond, sp.Not):
            v = self._decide(cond.args[0])
            return None if v is None else not v
        op = getattr(cond, "rel_op", None)
        neg = {">=": "<", "<": ">=", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
        if op not in neg:
            return None
        f = self(cond.lhs) - self(cond.rhs)
        return True if self._sign(f, op) else False if self._sign(f, neg[op]) else None

    def _uf(self, name, args) -> Frac:
        fr = tuple(self(a) for a in args)
        for key, v in self.ctx.uf.items():
            if key[0] == name and len(key[1]) == len(fr) and all(
                (a.num * b.den - b.num * a.den).is_zero() for a, b in zip(key[1], fr)
            ):
                return v
        v = Frac(self.ctx.gen(f"{name}#{len(self.ctx.uf)}", pos=name == "exp"))
        self.ctx.uf[(name, fr)] = v
        return v


def unclip(e):
    """x of Min(1, Max(-1, x)) or Max(-1, Min(1, x)), else None."""
    for outer, inner, a, b in ((sp.Min, sp.Max, 1, -1), (sp.Max, sp.Min, -1, 1)):
        if isinstance(e, outer) and len(e.args) == 2 and a in e.args:
            i = next(x for x in e.args if x != a)
            if isinstance(i, inner) and len(i.args) == 2 and b in i.args:
                return next(x for x in i.args if x != b)
    return None


def _accepts_deep(e) -> bool:
    try:
        e.doit(deep=False)
    except TypeError:
        return False
    return True


def to_frac(ctx: Ctx, x) -> Frac:
    return x if isinstance(x, Frac) else Frac(x) if isinstance(x, Poly) else ctx.frac(x)
