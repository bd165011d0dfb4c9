"""Sparse polynomials / rational functions over real generators with square relations.

A `Ctx` owns *generators*.  Every generator denotes a real number, except ``I``.  A
generator may carry a relation ``g**2 == p`` (p a polynomial in earlier generators):
``I**2 == -1``, ``s**2 == 1 - c**2``, ``E**2 == m**2 + p**2``, square roots...
Arithmetic keeps polynomials reduced modulo those relations, so a polynomial that
normalises to 0 is 0 for every value of the generators.  The converse is left to the
solver, which gets the normal form, all relations and all sign constraints.
"""
from __future__ import annotations

from fractions import Fraction
from math import isqrt

from .env import z3


class Ctx:
    def __init__(self) -> None:
        self.names: list[str] = []
        self.rel: list[Poly | None] = []
        self.index: dict[str, int] = {}
        self.nonneg: set[int] = set()
        self.pos: set[int] = set()
        self.side: list = []  # extra z3 constraints (callables ctx -> BoolRef)
        self.assumed: list[str] = []  # human-readable
        self.roots: dict[Poly, Frac] = {}
        self.uf: dict = {}
        self.radicands: list = []
        self.candidates: list = []  # Fracs that may replace an equal, uglier one
        self.zvars: dict[int, object] = {}
        self.opaque: set[int] = set()  # generators that `tidy` never expands
        self._sq: dict = {}
        self._sq_lazy: dict = {}
        self.oblig: list = []  # (Poly, text): polynomials claimed to vanish
        self.sampler = None  # (ctx, rng) -> {generator: float} satisfying the relations
        self.lazy = True  # keep products unreduced (except I*I); see `linearise`
        self.I = self.gen("I", square=lambda: self.const(-1))

    # -- generators
    def gen(self, name: str, square=None, nonneg=False, pos=False) -> "Poly":
        if name in self.index:
            return self.mono(self.index[name])
        i = len(self.names)
        self.names.append(name)
        self.rel.append(None)
        self.index[name] = i
        if square is not None:
            self.rel[i] = square() if callable(square) else square
        if nonneg:
            self.nonneg.add(i)
        if pos:
            self.pos.add(i)
        return self.mono(i)

    def complex_gen(self, name: str) -> "Poly":
        return self.gen(name + ".re") + self.I * self.gen(name + ".im")

    def mono(self, i: int) -> "Poly":
        return Poly(self, {((i, 1),): 1})

    def const(self, c) -> "Poly":
        c = Fraction(c)
        if c.denominator == 1:
            c = int(c)
        return Poly(self, {(): c} if c else {})

    def frac(self, c) -> "Frac":
        return Frac(self.const(c))

    # -- square roots
    def register_root(self, root) -> None:
        """Declare that `root` is a non-negative real; sqrt(root**2) will return it."""
        root = root if isinstance(root, Frac) else Frac(root)
        sq = root * root
        self.roots[(sq.num, sq.den)] = root

    def sqrt_int(self, n: int) -> "Poly":
        if n < 0:
            return self.I * self.sqrt_int(-n)
        out = self.const(1)
        p = 2
        while p * p <= n and p < 5000:
            while n % (p * p) == 0:
                n //= p * p
                out = out * p
            if n % p == 0:
                n //= p
                out = out * self._sqrt_prime(p)
            p += 1
        if n > 1:
            r = isqrt(n)
            out = out * r if r * r == n else out * self._sqrt_prime(n)
        return out

    def _sqrt_prime(self, p: int) -> "Poly":
        return self.gen(f"sqrt{p}", square=self.const(p), pos=True)

    def sqrt(self, f: "Frac") -> "Frac":
        for (n, d), root in self.roots.items():
            if self.vanishes(f.num * d - n * f.den, "registered root"):
                return root
        num, den = f.num, f.den
        rad = num * den  # sqrt(n/d) = sqrt(n*d)/|d|
        c = rad.as_const()
        if c is not None and den.as_const() is not None:
            r = self.sqrt_int(c.numerator * c.denominator)
            d = abs(den.as_const()) * c.denominator
            return Frac(r, self.const(d))
        return self._sqrt_poly(rad) / Frac(den)

    def _sqrt_poly(self, p: "Poly") -> "Frac":
        content = p.content()
        prim = p.scale(Fraction(1) / content)
        # take out common even powers of non-negative generators
        common = prim.common_monomial()
        out = self.const(1)
        strip = []
        for i, e in common:
            if e >= 2 and (i in self.nonneg or i in self.pos):
                k = e // 2
                out = out * self.mono(i) ** k
                strip.append((i, 2 * k))
        if strip:
            prim = prim.div_monomial(tuple(strip))
        r = self.sqrt_int(content.numerator * content.denominator)
        out = Frac(out * r, self.const(content.denominator))
        if prim == self.const(1):
            return out
        if prim.as_const() is not None:
            c = prim.as_const()
            return out * Frac(self.sqrt_int(c.numerator * c.denominator), self.const(c.denominator))
        for (n, d), root in self.roots.items():
            if self.vanishes(prim * d - n, "registered root"):
                return out * root
        name = f"sqrt({prim})"
        g = self.gen(name, square=prim, nonneg=True)
        self.radicands.append(prim)
        self.assumed.append(f"{prim} >= 0 (argument of a square root)")
        return out * Frac(g)

    def vanishes(self, p: "Poly", text: str) -> bool:
        """Normal form is zero; recorded as an obligation for the solver."""
        if p.is_zero():
            return True
        if not self.reduced(p).is_zero():
            return False
        self.oblig.append((p, text))
        return True

    def tidy(self, f: "Frac", limit: int = 12) -> "Frac":
        """Replace a large numerator/denominator by its normal form (with obligation)."""
        if self.opaque and (self.opaque & f.num.gens() or self.opaque & f.den.gens()):
            return f
        for cand in self.candidates:
            if (f.num, f.den) != (cand.num, cand.den) and f.num.t and self.vanishes(
                f.num * cand.den - cand.num * f.den, "equal rational functions"
            ):
                return cand
        num, den = f.num, f.den
        changed = False
        for n, p in enumerate((num, den)):
            if len(p.t) <= limit:
                continue
            low = self.reduced(p)
            if low != p and len(low.t) <= len(p.t):
                self.oblig.append((p - low, "normal form of a subexpression"))
                num, den = (low, den) if n == 0 else (num, low)
                changed = True
        return Frac(num, den) if changed else f

    def active_rel(self):
        return self.rel[:1] + [None] * (len(self.rel) - 1) if self.lazy else self.rel

    def reduced(self, p: "Poly") -> "Poly":
        """Normal form of a polynomial that was built in lazy mode."""
        was, self.lazy = self.lazy, False
        try:
            return p * self.const(1)
        finally:
            self.lazy = was

    def linearise(self, p: "Poly", skip=frozenset()) -> list:
        """Instances m == (m/g^2) * p_g of the relations needed to rewrite p.

        Each is a consequence of the relation of g, so treating every monomial as an
        independent real unknown over-approximates: unsat of the linear problem proves
        the identity.
        """
        out, seen = [], set()
        todo = list(p.t)
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            g = next((i for i, e in reversed(m) if e >= 2 and i not in skip and self.rel[i] is not None), None)
            if g is None:
                continue
            rest = tuple((i, e - 2 if i == g else e) for i, e in m if not (i == g and e == 2))
            acc: dict = {}
            for mm, v in self.rel[g].t.items():
                k = _mmul(rest, mm)
                acc[k] = acc.get(k, 0) + v
            out.append((m, acc))
            todo.extend(acc)
        return out

    # -- solver side
    def zvar(self, i: int):
        if i not in self.zvars:
            self.zvars[i] = z3.Real(f"g{i}_{self.names[i]}")
        return self.zvars[i]

    def constraints(self) -> list:
        cs = []
        for i in range(len(self.names)):
            if i == 0:
                continue
            v = self.zvar(i)
            if self.rel[i] is not None:
                cs.append(v * v == self.rel[i].to_z3())
            if i in self.nonneg:
                cs.append(v >= 0)
            if i in self.pos:
                cs.append(v > 0)
        cs.extend(f() for f in self.side)
        return cs


class Poly:
    __slots__ = ("ctx", "t", "_h")

    def __init__(self, ctx: Ctx, terms: dict) -> None:
        self.ctx = ctx
        self.t = terms
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        if isinstance(other, Poly):
            return self.t == other.t
        return NotImplemented

    def is_zero(self) -> bool:
        return not self.t

    def as_const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def scale(self, c) -> "Poly":
        if not c:
            return Poly(self.ctx, {})
        return Poly(self.ctx, {m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return self.scale(-1)

    def _coerce(self, o):
        if isinstance(o, Poly):
            return o
        if isinstance(o, (int, Fraction)):
            return self.ctx.const(o)
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, v in b.items():
            w = r.get(m, 0) + v
            if w:
                r[m] = w
            else:
                del r[m]
        return Poly(self.ctx, r)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return self._coerce(o) - self

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            return self.scale(o)
        if not isinstance(o, Poly):
            return NotImplemented
        rel = self.ctx.active_rel()
        out: dict = {}
        pending: list = []
        for m1, v1 in self.t.items():
            for m2, v2 in o.t.items():
                m = _mmul(m1, m2)
                v = v1 * v2
                bad = None
                for i, e in m:
                    if e >= 2 and rel[i] is not None:
                        bad = i
                if bad is None:
                    w = out.get(m, 0) + v
                    if w:
                        out[m] = w
                    else:
                        out.pop(m, None)
                else:
                    pending.append((m, v))
        if pending:
            acc: dict = {}
            for m, v in pending:
                acc[m] = acc.get(m, 0) + v
            for m, v in acc.items():
                if not v:
                    continue
                for mm, x in self.ctx_reduce(m).t.items():
                    w = out.get(mm, 0) + x * v
                    if w:
                        out[mm] = w
                    else:
                        out.pop(mm, None)
        return Poly(self.ctx, out)

    def ctx_reduce(self, m) -> "Poly":
        cache = self.ctx._sq_lazy if self.ctx.lazy else self.ctx._sq
        hit = cache.get(m)
        if hit is not None:
            return hit
        rel = self.ctx.active_rel()
        plain = []
        extra = []
        for i, e in m:
            if e >= 2 and rel[i] is not None:
                extra.append((i, e // 2))
                if e % 2:
                    plain.append((i, 1))
            else:
                plain.append((i, e))
        res = Poly(self.ctx, {tuple(plain): 1})
        for i, k in extra:
            for _ in range(k):
                res = res * rel[i]
        cache[m] = res
        return res

    __rmul__ = __mul__

    def square(self) -> "Poly":
        rel = self.ctx.active_rel()
        items = list(self.t.items())
        acc: dict = {}
        for a, (m1, v1) in enumerate(items):
            m = _mmul(m1, m1)
            acc[m] = acc.get(m, 0) + v1 * v1
            v1 = 2 * v1
            for b in range(a + 1, len(items)):
                m2, v2 = items[b]
                m = _mmul(m1, m2)
                acc[m] = acc.get(m, 0) + v1 * v2
        out: dict = {}
        red: dict = {}
        for m, v in acc.items():
            if not v:
                continue
            if any(e >= 2 and rel[i] is not None for i, e in m):
                for mm, w in self.ctx_reduce(m).t.items():
                    red[mm] = red.get(mm, 0) + w * v
            else:
                out[m] = v
        for m, v in red.items():
            w = out.get(m, 0) + v
            if w:
                out[m] = w
            else:
                out.pop(m, None)
        return Poly(self.ctx, out)

    def abs2(self) -> "Poly":
        re, im = self.split()
        return re.square() + im.square()

    def __pow__(self, n: int):
        out = self.ctx.const(1)
        base = self
        while n:
            if n & 1:
                out = out * base
            n >>= 1
            if n:
                base = base * base
        return out

    def conj(self) -> "Poly":
        return Poly(
            self.ctx,
            {m: (-v if any(i == 0 for i, _ in m) else v) for m, v in self.t.items()},
        )

    def split(self) -> tuple["Poly", "Poly"]:
        re, im = {}, {}
        for m, v in self.t.items():
            if m and m[0][0] == 0:
                im[m[1:]] = v
            else:
                re[m] = v
        return Poly(self.ctx, re), Poly(self.ctx, im)

    def content(self) -> Fraction:
        from math import gcd

        num = 0
        den = 1
        for v in self.t.values():
            num = gcd(num, abs(v.numerator))
            den = den * v.denominator // gcd(den, v.denominator)
        return Fraction(num, den) if num else Fraction(1)

    def common_monomial(self):
        common = None
        for m in self.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                return ()
        return tuple(sorted((common or {}).items()))

    def div_monomial(self, mono) -> "Poly":
        d = dict(mono)
        out = {}
        for m, v in self.t.items():
            mm = tuple((i, e - d.get(i, 0)) for i, e in m if e - d.get(i, 0))
            out[mm] = v
        return Poly(self.ctx, out)

    def gens(self) -> set[int]:
        return {i for m in self.t for i, _ in m}

    def coeff_of(self, gens: set[int]) -> dict:
        """Group as {monomial in gens: Poly in the rest}."""
        out: dict = {}
        for m, v in self.t.items():
            key = tuple(x for x in m if x[0] in gens)
            rest = tuple(x for x in m if x[0] not in gens)
            out.setdefault(key, {})[rest] = v
        return {k: Poly(self.ctx, t) for k, t in out.items()}

    def eval(self, values: dict):
        tot = 0
        for m, v in self.t.items():
            x = float(v)
            for i, e in m:
                x = x * (1j if i == 0 else values[i]) ** e
            tot = tot + x
        return tot

    def to_z3(self):
        terms = []
        for m, v in self.t.items():
            fs = [z3.RealVal(str(v))] if v != 1 or not m else []
            for i, e in m:
                if i == 0:
                    raise ValueError("complex polynomial sent to the solver")
                fs.extend([self.ctx.zvar(i)] * e)
            terms.append(z3.Product(fs) if len(fs) > 1 else fs[0])
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def __str__(self):
        if not self.t:
            return "0"
        names = self.ctx.names
        return " + ".join(
            (f"{v}" if not m else ("" if v == 1 else f"{v}*"))
            + "*".join(names[i] + (f"^{e}" if e > 1 else "") for i, e in m)
            for m, v in sorted(self.t.items())
        )

    __repr__ = __str__


def _norm(c):
    return int(c) if c.denominator == 1 else c


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    na, nb = len(a), len(b)
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Frac:
    """num/den; den is a non-zero polynomial (assumed non-zero, reported)."""

    __slots__ = ("num", "den")

    def __init__(self, num: Poly, den: Poly | None = None) -> None:
        self.num = num
        self.den = den if den is not None else num.ctx.const(1)
        if self.den.is_zero():
            raise ZeroDivisionError("denominator is identically zero")
        c = self.den.as_const()
        if c is not None and c != 1:
            self.num = self.num.scale(_norm(Fraction(1) / c))
            self.den = num.ctx.const(1)
        elif c is None:
            if self.num.is_zero():
                self.den = num.ctx.const(1)
                return
            if self.num == self.den:
                self.num = self.den = num.ctx.const(1)
                return
            # cancel common monomials of generators without relations
            a, b = dict(self.num.common_monomial()), dict(self.den.common_monomial())
            common = tuple(sorted((i, min(e, b[i])) for i, e in a.items() if i in b))
            if common:
                self.num = self.num.div_monomial(common)
                self.den = self.den.div_monomial(common)

    @property
    def ctx(self):
        return self.num.ctx

    def _c(self, o):
        if isinstance(o, Frac):
            return o
        if isinstance(o, Poly):
            return Frac(o)
        if isinstance(o, (int, Fraction)):
            return self.ctx.frac(o)
        if isinstance(o, float):
            return self.ctx.frac(Fraction(o))
        return None

    def __add__(self, o):
        o = self._c(o)
        if self.den == o.den:
            return Frac(self.num + o.num, self.den)
        return Frac(self.num * o.den + o.num * self.den, self.den * o.den)

    __radd__ = __add__

    def __neg__(self):
        return Frac(-self.num, self.den)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        if self.num == o.den:
            return Frac(o.num, self.den)
        if o.num == self.den:
            return Frac(self.num, o.den)
        return Frac(self.num * o.num, self.den * o.den)

    __rmul__ = __mul__

    def inv(self):
        return Frac(self.den, self.num)

    def __truediv__(self, o):
        return self * self._c(o).inv()

    def __rtruediv__(self, o):
        return self._c(o) * self.inv()

    def __pow__(self, n: int):
        if n < 0:
            return self.inv() ** (-n)
        return Frac(self.num**n, self.den**n)

    def conj(self):
        return Frac(self.num.conj(), self.den.conj())

    def abs2(self):
        return Frac(self.num.abs2(), self.den.abs2())

    def realden(self) -> "Frac":
        """Same value with a real denominator."""
        _, im = self.den.split()
        if im.is_zero():
            return self
        c = self.den.conj()
        return Frac(self.num * c, self.den * c)

    def eval(self, values):
        return self.num.eval(values) / self.den.eval(values)

    def __str__(self):
        return f"({self.num})/({self.den})"
