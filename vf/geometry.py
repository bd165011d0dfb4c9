"""Physical three-body kinematics with symbolic momenta: the oracle for all angles.

Everything is expressed in momenta inside one rest frame, so the invariants sigma_k and
m0^2 that the code's formulas use become polynomials, and an angle's cosine and sine are
plain scalar and cross products: nothing here copies a formula of the code.
"""
from __future__ import annotations

import math
from fractions import Fraction

import sympy as sp

from .env import z3
from .poly import Ctx, Frac
from .trans import Translator

CYC = {1: (2, 3), 2: (3, 1), 3: (1, 2)}
M = {i: sp.Symbol(f"m{i}", nonnegative=True) for i in range(4)}
SIG = {i: sp.Symbol(f"sigma{i}", nonnegative=True) for i in range(1, 4)}


def nxt(i):
    return CYC[i][0]


class Geometry:
    """`frame`: 0 = rest frame of the decaying state; i in 1..3 = rest frame of i;
    ('R', k) = rest frame of the isobar recoiling against k."""

    def __init__(self, frame) -> None:
        self.frame = frame
        self.ctx = ctx = Ctx()
        c = ctx.gen("c")  # cosine of the opening angle
        s = ctx.gen("s", square=lambda: 1 - c * c, pos=True)
        self.c, self.s = c, s
        ctx.register_root(s)
        self.p4: dict[int, tuple] = {}  # (E, x, y)
        if frame == 0:
            m = {i: ctx.gen(f"m{i}", nonneg=True) for i in (1, 2, 3)}
            p1, p2 = ctx.gen("p1", pos=True), ctx.gen("p2", pos=True)
            P3 = p1 * p1 + p2 * p2 + 2 * p1 * p2 * c
            E1 = ctx.gen("E1", square=m[1] ** 2 + p1 * p1, pos=True)
            E2 = ctx.gen("E2", square=m[2] ** 2 + p2 * p2, pos=True)
            E3 = ctx.gen("E3", square=m[3] ** 2 + P3, pos=True)
            p3 = ctx.gen("p3", square=P3, pos=True)
            self.mom = {1: p1, 2: p2, 3: p3}
            self.p4 = {
                1: (E1, p1, ctx.const(0)),
                2: (E2, p2 * c, p2 * s),
                3: (E3, -p1 - p2 * c, -(p2 * s)),
            }
            m0 = E1 + E2 + E3
            self.masses = {0: m0, **m}
        elif isinstance(frame, int):
            i = frame
            j, k = CYC[i]
            m = {x: ctx.gen(f"m{x}", pos=x == i, nonneg=True) for x in (1, 2, 3)}
            pj, pk = ctx.gen(f"p{j}", pos=True), ctx.gen(f"p{k}", pos=True)
            Ej = ctx.gen(f"E{j}", square=m[j] ** 2 + pj * pj, pos=True)
            Ek = ctx.gen(f"E{k}", square=m[k] ** 2 + pk * pk, pos=True)
            P0sq = pj * pj + pk * pk + 2 * pj * pk * c
            p0 = ctx.gen("p0", square=P0sq, pos=True)
            E0 = m[i] + Ej + Ek
            m0 = ctx.gen("m0", square=E0 * E0 - P0sq, pos=True)
            self.p4 = {
                i: (m[i], ctx.const(0), ctx.const(0)),
                j: (Ej, pj, ctx.const(0)),
                k: (Ek, pk * c, pk * s),
            }
            self.masses = {0: m0, **m}
            self.mom = {j: pj, k: pk, 0: p0}
        else:
            _, k = frame
            i, j = CYC[k]
            m = {x: ctx.gen(f"m{x}", nonneg=True) for x in (1, 2, 3)}
            p, q = ctx.gen("p", pos=True), ctx.gen("q", pos=True)
            Ei = ctx.gen(f"E{i}", square=m[i] ** 2 + p * p, pos=True)
            Ej = ctx.gen(f"E{j}", square=m[j] ** 2 + p * p, pos=True)
            Ek = ctx.gen(f"E{k}", square=m[k] ** 2 + q * q, pos=True)
            # -p_k along +x; p_i at angle with cosine c from that axis
            self.p4 = {
                i: (Ei, p * c, p * s),
                j: (Ej, -(p * c), -(p * s)),
                k: (Ek, -q, ctx.const(0)),
            }
            E0 = Ei + Ej + Ek
            m0 = ctx.gen("m0", square=E0 * E0 - q * q, pos=True)
            self.masses = {0: m0, **m}
        self.p4[0] = tuple(
            self.p4[1][n] + self.p4[2][n] + self.p4[3][n] for n in range(3)
        )
        env = {M[x]: v for x, v in self.masses.items()}
        self.sigma = {}
        for k in (1, 2, 3):
            a, b = CYC[k]
            v = tuple(self.p4[a][n] + self.p4[b][n] for n in range(3))
            self.sigma[k] = v[0] * v[0] - v[1] * v[1] - v[2] * v[2]
            env[SIG[k]] = self.sigma[k]
        self._register_kallen()
        self.tr = Translator(ctx, env, tidy=True)
        ctx.side.append(lambda: z3.And(ctx.zvar(c_index(ctx)) > -1, ctx.zvar(c_index(ctx)) < 1))

    def _register_kallen(self) -> None:
        """sqrt(Kallen(x,y,z)) = 2 M |p| in this frame (checked: root^2 == argument)."""
        ctx = self.ctx
        if self.frame == 0:
            for i in (1, 2, 3):
                ctx.register_root(2 * self.masses[0] * self.mom[i])
        elif isinstance(self.frame, int):
            mi = self.masses[self.frame]
            for p in self.mom.values():
                ctx.register_root(2 * mi * p)
        else:
            k = self.frame[1]
            i, j = CYC[k]
            W = self.p4[i][0] + self.p4[j][0]
            ctx.register_root(2 * W * ctx.gen("p"))
            ctx.register_root(2 * W * ctx.gen("q"))
            ctx.register_root(W)

    # -- vectors and oriented angles
    def vec(self, i):
        return self.p4[i][1], self.p4[i][2]

    def axis(self, x):
        """Quantisation axis of chain x: for the rotated state `frame`."""
        ctx = self.ctx
        f = self.frame
        if f == 0:  # isobar x flies opposite to particle x
            vx, vy = self.vec(x)
            return (-vx, -vy), self.mom[x]
        if x == f:  # chain f: particle f recoils from its isobar, axis along p0
            return self.vec(0), self.mom[0]
        other = ({1, 2, 3} - {x, f}).pop()  # isobar x contains f and `other`
        return self.vec(other), self.mom[other]

    def oracle(self, x, y) -> tuple[Frac, Frac]:
        """(cos, sin) of the oriented angle from axis y to axis x.

        Orientation: for a final-state frame, counter-clockwise with 1->2->3
        counter-clockwise; for the decaying state the opposite rotation is used, as its
        helicity indices enter transposed.
        """
        (ax, ay), na = self.axis(x)
        (bx, by), nb = self.axis(y)
        if x == y:
            return self.ctx.frac(1), self.ctx.frac(0)
        dot = ax * bx + ay * by
        cross = bx * ay - by * ax  # rotation from b to a
        if self.frame == 0:
            cross = -cross
        return Frac(dot, na * nb), Frac(cross, na * nb)

    def scattering_oracle(self):
        return Frac(self.c), Frac(self.s)

    # -- the code's expression as (cos, sin)
    def cis(self, e) -> tuple[Frac, Frac]:
        c, s = self._cis(e)
        return self.ctx.tidy(c), self.ctx.tidy(s)

    def _cis(self, e) -> tuple[Frac, Frac]:
        ctx, tr = self.ctx, self.tr
        e = sp.sympify(e)
        if e == 0:
            return ctx.frac(1), ctx.frac(0)
        if isinstance(e, sp.acos):
            x = tr(e.args[0])
            return x, self._sqrt1m(x)
        if isinstance(e, sp.asin):
            x = tr(e.args[0])
            return self._sqrt1m(x), x
        if isinstance(e, sp.atan2):
            y, x = tr(e.args[0]), tr(e.args[1])
            r = ctx.sqrt(x * x + y * y)
            return x / r, y / r
        if isinstance(e, sp.Add):
            C, S = ctx.frac(1), ctx.frac(0)
            for a in e.args:
                c, s = self.cis(a)
                C, S = C * c - S * s, S * c + C * s
            return C, S
        coeff, rest = e.as_coeff_Mul()
        if rest == sp.pi and (2 * coeff).is_integer:
            return tr(sp.cos(e)), tr(sp.sin(e))
        if coeff.is_integer and rest != e:
            c, s = self.cis(rest)
            n = int(coeff)
            if n < 0:
                s, n = -s, -n
            C, S = ctx.frac(1), ctx.frac(0)
            for _ in range(n):
                C, S = C * c - S * s, S * c + C * s
            return C, S
        d = e.doit(deep=False)
        if d != e:
            return self.cis(d)
        raise ValueError(f"not an angle expression: {e}")

    def _sqrt1m(self, x: Frac) -> Frac:
        return self.ctx.sqrt(self.ctx.frac(1) - x * x)

    def register_sines(self, pairs) -> None:
        """Known |sin| values: cross products with s>0 are non-negative up to sign."""
        for C, S in pairs:
            if S.num.is_zero():
                continue
            lead = next(iter(S.num.t.values()))
            self.ctx.register_root(S if lead > 0 else -S)

    # -- numbers
    def numeric(self, model) -> dict:
        """Real-valued generator values of a solver model (recomputed in floats)."""
        vals = {}
        ctx = self.ctx
        for i in range(1, len(ctx.names)):
            r = ctx.rel[i]
            if r is None:
                v = model.eval(ctx.zvar(i), model_completion=True) if model is not None else None
                vals[i] = _num(v) if v is not None else 1.0
            else:
                x = r.eval(vals)
                vals[i] = math.sqrt(max(x, 0.0)) if not isinstance(x, complex) else math.sqrt(max(x.real, 0))
        return vals

    def point(self, vals) -> dict:
        subs = {M[i]: _re(self.masses[i].eval(vals)) for i in range(4)}
        subs |= {SIG[k]: _re(self.sigma[k].eval(vals)) for k in (1, 2, 3)}
        return subs


def c_index(ctx):
    return ctx.index["c"]


def _re(x):
    return x.real if isinstance(x, complex) else float(x)


def _num(v) -> float:
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if isinstance(v, z3.RatNumRef):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return float(v.as_decimal(20).rstrip("?"))


def eval_angle(expr, subs) -> float:
    """The real expression at a numeric point (independent of the encoding)."""
    e = sp.sympify(expr).doit()
    v = complex(sp.N(e.subs({k: sp.Float(x, 40) for k, x in subs.items()}), 20))
    return v
