"""D01-D04: lineshapes."""
from __future__ import annotations

import random
import warnings
from fractions import Fraction
from itertools import product

import sympy as sp

from ..env import z3
from ..models import H, Spec, build
from ..poly import Ctx, Frac
from ..report import Inconclusive
from ..trans import Translator

warnings.simplefilter("ignore")

# squared Blatt-Weisskopf factors normalised to 1 at z = 1:  N z^L / P(z)
BW = {
    0: (1, [1]),
    1: (2, [1, 1]),
    2: (13, [9, 3, 1]),
    3: (277, [225, 45, 6, 1]),
    4: (12746, [11025, 1575, 135, 10, 1]),
}


class Kin:
    """Break-up kinematics above threshold with k = 2 W q as a generator."""

    def __init__(self) -> None:
        self.ctx = Ctx()
        self.ctx.sampler = sample
        self.env: dict = {}
        self.chan: dict = {}
        self.vals: dict = {}  # sympy symbol -> generator name

    def pos(self, sym, name=None):
        g = self.ctx.gen(name or str(sym), pos=True)
        self.env[sym] = g
        return Frac(g)

    def nonneg(self, sym):
        g = self.ctx.gen(str(sym), nonneg=True)
        self.env[sym] = g
        return Frac(g)

    def energy(self, sym):
        """sym (an invariant mass squared) = W^2 with W > 0."""
        g = self.ctx.gen(f"W({sym})", pos=True)
        self.env[sym] = g * g
        return Frac(g)

    def channel(self, W: Frac, ma: Frac, mb: Frac, tag: str) -> Frac:
        """k = 2 W q(W; ma, mb) > 0; registers the square roots that belong to it."""
        ctx = self.ctx
        w, a, b = (x.num for x in (W, ma, mb))
        up, lo = w * w - (a + b) ** 2, w * w - (a - b) ** 2
        if not a.t or not b.t or a == b:
            return self._special_channel(W, up, lo, a, b, tag)
        k = ctx.gen(f"k({tag})", square=ctx.reduced(up * lo), pos=True)
        r = ctx.gen(f"r({tag})", square=up, pos=True)
        ctx.opaque |= k.gens() | r.gens()
        k, r = Frac(k), Frac(r)
        ctx.register_root(r)
        ctx.roots[(lo, ctx.const(1))] = k / r
        ctx.oblig.append(((k * k).num - up * lo, "k^2 = product of the two thresholds"))
        ctx.register_root(k)
        ctx.candidates += [k * k / (W * W * 4)]
        ctx.side.append(lambda: ctx.zvar(next(iter(w.gens()))) > a.to_z3() + b.to_z3())
        return k

    def _special_channel(self, W: Frac, up, lo, a, b, tag) -> Frac:
        """Equal or vanishing masses: one of the two thresholds is a square."""
        ctx = self.ctx
        w = W.num
        if not a.t and not b.t:
            return W * W
        r = ctx.gen(f"r({tag})", square=ctx.reduced(up), pos=True)
        ctx.opaque |= r.gens()
        ctx.register_root(Frac(r))
        if a == b:
            ctx.register_root(W)
            k = W * Frac(r)
        else:
            k = Frac(up)
        ctx.register_root(k)
        ctx.candidates += [k * k / (W * W * 4)]
        ctx.side.append(lambda: ctx.zvar(next(iter(w.gens()))) > a.to_z3() + b.to_z3())
        return k

    def translator(self):
        return Translator(self.ctx, self.env, tidy=True)

    # -- independent formulas
    def q2(self, W, k):
        return k * k / (W * W * 4)

    def ff2(self, W, k, L, R):
        n, coeffs = BW[L]
        z = self.q2(W, k) * R * R
        den = self.ctx.frac(0)
        for i, c in enumerate(coeffs):
            den = den + z**i * c
        return z**L * n / den

    def ff(self, W, k, L, R):
        return self.ctx.sqrt(self.ff2(W, k, L, R))

    def rho(self, W, k):
        return k / (W * W)  # 2 q / W

    def width(self, W, k, W0, k0, G0, L, R):
        return G0 * self.ff2(W, k, L, R) / self.ff2(W0, k0, L, R) * self.rho(W, k) / self.rho(W0, k0)


def agree(chk, kin: Kin, expr, oracle, what, key, known=None) -> bool:
    """expr (real) == oracle for all kinematics; `known`: {key: other oracle}."""
    tr = kin.translator()
    ctx = kin.ctx
    own = set(range(len(ctx.names)))
    got = tr(expr)
    try:
        sample(ctx, random.Random(chk.seed))
    except RuntimeError:
        # a square root of the code's expression is imaginary wherever the kinematics
        # are physical: compare at points of the oracle's own variables
        return not _outside(chk, kin, expr, oracle, own, what, key)
    model = chk.equal(ctx, got, oracle, what)
    if model is None:
        chk.count("formulas", 1)
        if chk.validated < 8:
            vals = sample(ctx, random.Random(chk.seed))
            real, enc = real_number(kin, expr, vals), complex(got.eval(vals))
            chk.validated += 1
            if abs(real - enc) > 1e-8 * max(1, abs(real)):
                raise RuntimeError(f"encoding disagrees with SymPy: {what}: {enc} vs {real}")
        return True
    for n in range(5):
        vals = sample(ctx, random.Random(chk.seed + n))
        real, exp = real_number(kin, expr, vals), complex(oracle.eval(vals))
        if abs(real - exp) > 1e-8 * max(1, abs(exp)):
            data = {"real_code": str(real), "expected": str(exp), "values": {str(s): str(complex(Frac(g).eval(vals) if not isinstance(g, Frac) else g.eval(vals)).real) for s, g in kin.env.items()}}
            for kk, (other, txt) in (known or {}).items():
                if chk.equal(ctx, got, other, what + " (known deviation)") is None:
                    chk.violation(kk, txt, data, True)
                    return False
            chk.violation(key, what, data, True)
            return False
    chk.violation(key, what, {}, False)
    return False


def _outside(chk, kin, expr, oracle, own, what, key) -> bool:
    ctx = kin.ctx
    for n in range(5):
        vals = sample(ctx, random.Random(chk.seed + n), own)
        real, exp = real_number(kin, expr, vals), complex(oracle.eval(vals))
        diff = z3.Real("difference")
        model = chk.prove([diff == z3.RealVal(str(abs(real - exp)))], diff <= z3.RealVal(str(1e-8 * max(1, abs(exp)))), what)
        if model is not None:
            chk.violation(key, what, {"real_code": str(real), "expected": str(exp), "values": {str(s): str(g) for s, g in vals.items()}}, True)
            return True
    raise Inconclusive(f"{what}: no sample point")


def sample(ctx, rng, only=None) -> dict:
    import math

    vals: dict = {}
    for _ in range(2000):
        vals.clear()
        ok = True
        for i in range(1, len(ctx.names)):
            if only is not None and i not in only:
                continue
            r = ctx.rel[i]
            n = ctx.names[i]
            if r is None:
                vals[i] = rng.uniform(2.0, 3.5) if n.startswith("W(") or n in ("m_top",) else rng.uniform(0.3, 1.5)
                if n in ("m0",):
                    vals[i] = rng.uniform(1.9, 2.6)
                if n.startswith(("m1", "m2", "ma", "mb", "m3")):
                    vals[i] = rng.uniform(0.1, 0.8)
                if n == "M":
                    vals[i] = rng.uniform(6.0, 8.0)
            else:
                x = complex(r.eval(vals)).real
                if x <= 0:
                    ok = False
                    break
                vals[i] = math.sqrt(x)
        if ok:
            for key, v in ctx.uf.items():
                if key[0] == "exp" and (only is None or next(iter(v.num.gens())) in only):
                    vals[next(iter(v.num.gens()))] = math.exp(complex(key[1][0].eval(vals)).real)
            return dict(vals)
    raise RuntimeError("no sample point")


def real_number(kin, expr, vals):
    e = sp.sympify(expr).doit()
    rep = {}
    for s, g in kin.env.items():
        f = g if isinstance(g, Frac) else Frac(g)
        rep[s] = sp.Float(complex(f.eval(vals)).real, 30)
    for s in list(e.free_symbols):
        if s not in rep:
            n = kin.ctx.index.get(str(s))
            if n is None:
                raise RuntimeError(f"unknown symbol {s}")
            rep[s] = sp.Float(vals[n], 30)
    return complex(sp.N(e.xreplace(rep), 20))


def symbols():
    return sp.symbols("s m0 Gamma0 m1 m2 R", nonnegative=True)


PHSP = sp.symbols("rho_0:4", positive=True)


def any_phase_space(s, m1, m2) -> sp.Expr:
    """A symmetric phase-space factor with free coefficients: tells s and both masses apart."""
    return PHSP[0] + PHSP[1] * s + PHSP[2] * (m1 + m2) + PHSP[3] * m1 * m2


def with_phase_space(kin, a, b) -> None:
    """Let the oracle use `any_phase_space` of these masses."""
    c = [kin.pos(x) for x in PHSP]
    kin.rho = lambda W, k: c[0] + c[1] * W * W + c[2] * (a + b) + c[3] * a * b  # noqa: ARG005


def lmax(chk):
    return 4 if chk.thorough else 3


def d01(chk) -> None:
    from ampform_dpd.dynamics import BreitWigner, RelativisticBreitWigner, SimpleBreitWigner

    chk.encoded("dynamics.RelativisticBreitWigner.evaluate", "dynamics.BreitWigner.evaluate/energy_dependent_width", "dynamics.SimpleBreitWigner.evaluate", "ampform EnergyDependentWidth/FormFactor/PhaseSpaceFactor (as called)")
    chk.bound(f"L = 0..{lmax(chk)}; all masses >= 0, width, radius > 0, s and m0^2 above the two-body threshold, otherwise arbitrary; plus the listed coincidences (equal masses, zero masses, unit radius, equal symbols)")
    s, m0, G0, m1, m2, R = symbols()
    for alias, L in [(al, L) for al in ALIASES for L in range(lmax(chk) + 1)]:
        if alias and L > (3 if chk.thorough else 1):
            continue
        coincide(chk, alias, L)
    for L in range(lmax(chk) + 1):
        kin, W, M0, g, r, k, k0 = two_body(s, m0, G0, m1, m2, R)
        w = kin.width(W, k, M0, k0, g, L, r)
        i = Frac(kin.ctx.I)
        exp = M0 * g / (M0 * M0 - W * W - i * M0 * w)
        agree(chk, kin, RelativisticBreitWigner(s, m0, G0, m1, m2, L, R), exp, f"relativistic Breit-Wigner, L={L}", f"rel:{L}")
        exp1 = 1 / (M0 * M0 - W * W - i * M0 * w)
        agree(chk, kin, BreitWigner(s, m0, G0, m1, m2, L, R), exp1, f"Breit-Wigner with running width, L={L}", f"bw:{L}")
        causal(chk, kin, RelativisticBreitWigner(s, m0, G0, m1, m2, L, R), f"relativistic Breit-Wigner, L={L}", f"causal:{L}", exp)
        if chk.full:
            return
    chk.bound("phase-space factor: the default one, and (L = 0..3) an arbitrary symmetric bilinear function of s and the masses")
    for L in range(4):
        kin, W, M0, g, r, k, k0 = two_body(s, m0, G0, m1, m2, R)
        with_phase_space(kin, Frac(kin.env[m1]), Frac(kin.env[m2]))
        den = M0 * M0 - W * W - Frac(kin.ctx.I) * M0 * kin.width(W, k, M0, k0, g, L, r)
        kw = dict(phsp_factor=any_phase_space)
        agree(chk, kin, RelativisticBreitWigner(s, m0, G0, m1, m2, L, R, **kw), M0 * g / den, f"relativistic Breit-Wigner, L={L}, other phase-space factor", f"rel-phsp:{L}")
        agree(chk, kin, BreitWigner(s, m0, G0, m1, m2, L, R, **kw), 1 / den, f"Breit-Wigner with running width, L={L}, other phase-space factor", f"bw-phsp:{L}")
    for what, e in (("constant-width Breit-Wigner", SimpleBreitWigner(s, m0, G0)), ("Breit-Wigner without channel", BreitWigner(s, m0, G0))):
        kin = Kin()
        W, M0, g = kin.energy(s), kin.pos(m0), kin.pos(G0)
        exp = 1 / (M0 * M0 - W * W - Frac(kin.ctx.I) * M0 * g)
        agree(chk, kin, e, exp, what, what.replace(" ", "-"))
    # at the pole mass the running width is the nominal width: value i
    for L in range(lmax(chk) + 1):
        kin = Kin()
        M0, g, a, b, r = kin.pos(m0), kin.pos(G0), kin.nonneg(m1), kin.nonneg(m2), kin.pos(R)
        kin.channel(M0, a, b, "m0")
        agree(chk, kin, RelativisticBreitWigner(m0**2, m0, G0, m1, m2, L, R), Frac(kin.ctx.I), f"relativistic Breit-Wigner at s = m0^2, L={L}", f"pole:{L}")


# arguments that coincide or are numbers: the code may decide on them
ALIASES = [{"m2": "m1"}, {"m1": 0}, {"m2": 0}, {"m1": 0, "m2": 0}, {"R": 1}, {"R": "G0"}, {"m1": "G0"}, {"m2": "m1", "R": 1}]


def coincide(chk, alias, L) -> None:
    from ampform_dpd.dynamics import BreitWigner, RelativisticBreitWigner

    s, m0, G0, m1, m2, R = symbols()
    names = {"m1": m1, "m2": m2, "R": R, "G0": G0}
    args = {n: sp.Integer(v) if isinstance(v, int) else names[v] for n, v in alias.items()}
    kin, W, M0, g, r, k, k0 = two_body(s, m0, G0, args.get("m1", m1), args.get("m2", m2), args.get("R", R))
    w = kin.width(W, k, M0, k0, g, L, r)
    i = Frac(kin.ctx.I)
    den = M0 * M0 - W * W - i * M0 * w
    full = (s, m0, G0, args.get("m1", m1), args.get("m2", m2), L, args.get("R", R))
    txt = ", ".join(f"{n}={v}" for n, v in alias.items())
    agree(chk, kin, RelativisticBreitWigner(*full), M0 * g / den, f"relativistic Breit-Wigner, L={L}, {txt}", f"rel:{L}:{txt}")
    agree(chk, kin, BreitWigner(*full), 1 / den, f"Breit-Wigner with running width, L={L}, {txt}", f"bw:{L}:{txt}")


def two_body(s, m0, G0, m1, m2, R):
    kin = Kin()
    W, M0, g = kin.energy(s), kin.pos(m0), kin.pos(G0)

    def arg(x, make):
        if isinstance(x, sp.Integer):
            return kin.ctx.frac(int(x))
        if x in kin.env:
            return Frac(kin.env[x])
        return make(x)

    a, b, r = arg(m1, kin.nonneg), arg(m2, kin.nonneg), arg(R, kin.pos)
    k = kin.channel(W, a, b, "s")
    k0 = kin.channel(M0, a, b, "m0")
    return kin, W, M0, g, r, k, k0


def causal(chk, kin, expr, what, key, exp) -> None:
    """Im of the lineshape is positive above threshold (numerator of Im / |den|^2)."""
    f = kin.translator()(expr)
    g = f.num * f.den.conj()  # f = num conj(den) / |den|^2
    _, im = g.split()
    # positivity of a polynomial with positive coefficients in positive generators
    ctx = kin.ctx
    cons = ctx.constraints()
    pos = im
    if not all(v > 0 for v in im.t.values()):
        pos = ctx.reduced(im)
    try:
        v = _positive_query(chk, ctx, pos, what)
    except Inconclusive:
        return
    if v is not None:
        vals = sample(ctx, random.Random(chk.seed))
        val = real_number(kin, expr, vals)
        if val.imag <= 0:
            chk.violation(key, f"{what}: imaginary part is not positive", {"value": str(val)}, True)
    del cons


def _positive_query(chk, ctx, p, what):
    """p > 0 where every generator is positive: monomials become positive unknowns."""
    names = {}
    cons = []

    def var(m):
        if m == ():
            return z3.RealVal(1)
        if m not in names:
            names[m] = z3.Real("*".join(f"{ctx.names[i]}^{e}" for i, e in m))
            if all(i in ctx.pos or e % 2 == 0 for i, e in m):
                cons.append(names[m] > 0 if all(i in ctx.pos for i, e in m) else names[m] >= 0)
            elif all(i in ctx.pos or i in ctx.nonneg for i, e in m):
                cons.append(names[m] >= 0)
        return names[m]

    tot = z3.Sum([z3.RealVal(str(v)) * var(m) for m, v in p.t.items()])
    return chk.prove(cons, tot > 0, f"{what}: imaginary part positive")


def d02(chk) -> None:
    top = lmax(chk)
    chk.encoded("dynamics.BreitWignerMinL.evaluate", "dynamics.BuggBreitWigner.evaluate", "dynamics.FlattéSWave.evaluate")
    chk.bound(f"l_dec, l_prod = 0..{top}, l_dec + l_prod <= 7 (other phase-space factors: l_dec + l_prod <= 3); all energies above the thresholds involved, masses >= 0, widths, radii > 0; plus listed coincidences of the arguments")
    items = [("grid", i) for i in reversed(range(2 * (top + 1) ** 2))]
    items += [("alias", i) for i in range(8)] + [("rest", 0)]
    chk.pmap(d02_item, items)


def d02_item(chk, item) -> None:
    from ampform_dpd.dynamics import BreitWignerMinL, BuggBreitWigner, FlattéSWave

    kind, nr = item
    top = lmax(chk)
    s, m0, G0, m1, m2, R = symbols()
    mt, m3, Rp = sp.symbols("M m3 R_prod", nonnegative=True)
    for (ld, lp), other in [] if kind != "grid" else [list(product(product(range(top + 1), repeat=2), (False, True)))[nr]]:
        if not chk.thorough and (abs(ld - lp) > 1 or (other and ld > 1)):
            continue
        if ld + lp > 7 or other and (max(ld, lp) > 2 or ld + lp > 3):
            continue
        kin, W, M0, g, r, k, k0 = two_body(s, m0, G0, m1, m2, R)
        T, sp3, rp = kin.pos(mt, "M"), kin.nonneg(m3), kin.pos(Rp)
        ctx = kin.ctx
        kp = kin.channel(T, W, sp3, "prod")
        kp0 = kin.channel(T, M0, sp3, "prod0")
        ctx.roots[(W * W).num, ctx.const(1)] = W
        if other:
            with_phase_space(kin, Frac(kin.env[m1]), Frac(kin.env[m2]))
        w = kin.width(W, k, M0, k0, g, ld, r)
        bw = 1 / (M0 * M0 - W * W - Frac(ctx.I) * M0 * w)
        exp = kin.ff(T, kp, lp, rp) / kin.ff(T, kp0, lp, rp) * bw * kin.ff(W, k, ld, r) / kin.ff(M0, k0, ld, r)
        kw = dict(phsp_factor=any_phase_space) if other else {}
        agree(chk, kin, BreitWignerMinL(s, mt, m3, m0, G0, m2, m1, ld, lp, R, Rp, **kw), exp, f"Breit-Wigner with minimal L: l_dec={ld}, l_prod={lp}{', other phase-space factor' if other else ''}", f"minl:{ld}:{lp}{':phsp' if other else ''}")
        if chk.full:
            return
    # coinciding arguments
    same = [{"m2": "m1"}, {"m1": 0}, {"m1": 0, "m2": 0}, {"m3": "m1"}, {"m3": 0}, {"R_prod": "R"}, {"R_prod": 1, "R": 1}, {"m3": "m2", "m2": "m1"}]
    for alias, (ld, lp) in [] if kind != "alias" else product([same[nr]], [(1, 1), (1, 2), (0, 1)] if chk.thorough else [(1, 1), (0, 1)]):
        names = {"m1": m1, "m2": m2, "m3": m3, "R": R, "R_prod": Rp}
        val = {**names, **{n: sp.Integer(v) if isinstance(v, int) else names[v] for n, v in alias.items()}}
        if alias.get("m3") == "m2":
            val["m3"] = m1
        kin, W, M0, g, r, k, k0 = two_body(s, m0, G0, val["m1"], val["m2"], val["R"])
        ctx = kin.ctx
        get = lambda x, make: ctx.frac(int(x)) if isinstance(x, sp.Integer) else Frac(kin.env[x]) if x in kin.env else make(x)  # noqa: B023, E731
        T, sp3, rp = kin.pos(mt, "M"), get(val["m3"], kin.nonneg), get(val["R_prod"], kin.pos)
        kp, kp0 = kin.channel(T, W, sp3, "prod"), kin.channel(T, M0, sp3, "prod0")
        ctx.roots[(W * W).num, ctx.const(1)] = W
        bw = 1 / (M0 * M0 - W * W - Frac(ctx.I) * M0 * kin.width(W, k, M0, k0, g, ld, r))
        exp = kin.ff(T, kp, lp, rp) / kin.ff(T, kp0, lp, rp) * bw * kin.ff(W, k, ld, r) / kin.ff(M0, k0, ld, r)
        expr = BreitWignerMinL(s, mt, val["m3"], m0, G0, val["m2"], val["m1"], ld, lp, val["R"], val["R_prod"])
        txt = ", ".join(f"{n}={v}" for n, v in alias.items())
        agree(chk, kin, expr, exp, f"Breit-Wigner with minimal L: l_dec={ld}, l_prod={lp}, {txt}", f"minl:{ld}:{lp}:{txt}")
    if kind != "rest":
        return
    gam = sp.Symbol("gamma", nonnegative=True)
    names = {"m1": m1, "m2": m2, "gamma": gam, "G0": G0}
    for alias in ({}, {"m2": "m1"}, {"m1": 0}, {"m2": 0}, {"m1": 0, "m2": 0}, {"gamma": 0}, {"gamma": 1}, {"gamma": "G0"}, {"G0": 0}, {"m1": "G0"}):
        val = {**names, **{n: sp.Integer(v) if isinstance(v, int) else names[v] for n, v in alias.items()}}
        kin = Kin()
        ctx = kin.ctx
        get = lambda x: ctx.frac(int(x)) if isinstance(x, sp.Integer) else Frac(kin.env[x]) if x in kin.env else kin.pos(x)  # noqa: B023, E731
        W, M0, g, a, b, c = kin.energy(s), kin.pos(m0), *(get(val[n]) for n in ("G0", "m1", "m2", "gamma"))
        expo = kin.translator()._uf("exp", (-val["gamma"] * s,)) if val["gamma"] != 0 else ctx.frac(1)
        sA = a * a - b * b * Fraction(1, 2)
        g2 = (W * W - sA) / (M0 * M0 - sA) * M0 * g * expo
        txt = "".join(f", {n}={v}" for n, v in alias.items())
        agree(chk, kin, BuggBreitWigner(s, m0, val["G0"], val["m1"], val["m2"], val["gamma"]), 1 / (M0 * M0 - W * W - Frac(ctx.I) * g2), "Bugg lineshape" + txt, "bugg" + txt)
    names = dict(zip(("G1", "G2", "ma1", "mb1", "ma2", "mb2"), sp.symbols("G1 G2 ma1 mb1 ma2 mb2", nonnegative=True)))
    for alias in ({}, {"G2": "G1"}, {"ma2": "ma1"}, {"mb1": "ma1"}, {"mb2": "ma2"}, {"ma2": "ma1", "mb2": "mb1"}, {"ma1": 0}, {"mb2": 0}, {"ma1": 0, "mb1": 0}):
        val = {**names, **{n: sp.Integer(v) if isinstance(v, int) else names[v] for n, v in alias.items()}}
        kin = Kin()
        ctx = kin.ctx
        W, M0 = kin.energy(s), kin.pos(m0)
        get = lambda x, make: ctx.frac(int(x)) if isinstance(x, sp.Integer) else Frac(kin.env[x]) if x in kin.env else make(x)  # noqa: B023, E731
        g1, g2 = get(val["G1"], kin.pos), get(val["G2"], kin.pos)
        a1, b1, a2, b2 = (get(val[x], kin.nonneg) for x in ("ma1", "mb1", "ma2", "mb2"))
        k2, k02 = kin.channel(W, a2, b2, "ch2"), kin.channel(M0, a2, b2, "ch2,m0")
        k1 = k2 if {val["ma1"], val["mb1"]} == {val["ma2"], val["mb2"]} else kin.channel(W, a1, b1, "ch1")
        q = lambda kk, w: kk / (w * 2)  # noqa: E731
        w = g1 * q(k1, W) / q(k02, M0) * M0 / W + g2 * q(k2, W) / q(k02, M0) * M0 / W
        expr = FlattéSWave(s, m0, (val["G1"], val["G2"]), (val["ma1"], val["mb1"]), (val["ma2"], val["mb2"]))
        txt = "".join(f", {n}={v}" for n, v in alias.items())
        agree(chk, kin, expr, 1 / (M0 * M0 - W * W - Frac(ctx.I) * M0 * w), "Flatté lineshape" + txt, "flatte" + txt)


def d03(chk) -> None:
    from ampform_dpd.dynamics import ChannelArguments, MultichannelBreitWigner

    chk.encoded("dynamics.MultichannelBreitWigner.evaluate", "dynamics.ChannelArguments.evaluate", "dynamics.BreitWigner.evaluate")
    top = 3 if chk.thorough else 2
    chk.bound(f"1..3 channels, L = 0..{top} per channel, and listed cases of 4, 5 and 7 channels; order of channels: all rotations; channels that share or repeat arguments; energies above thresholds")
    s, m0, _, _, _, R = symbols()
    many = [(0,) * 4, (1, 0, 0, 0), (0, 0, 0, 1), (0,) * 5, (0, 1, 0, 0, 0, 0, 0)]
    for n in (1, 2, 3, 4):
        for Ls in product(range(top + 1), repeat=n) if n < 4 else many:
            if n == 3 and len(set(Ls)) < (2 if chk.thorough else 3):
                continue
            kin = Kin()
            ctx = kin.ctx
            W, M0 = kin.energy(s), kin.pos(m0)
            tot = ctx.frac(0)
            chans = []
            for c, L in enumerate(Ls):
                Gs, a, b, Rc = sp.symbols(f"G{c} ma{c} mb{c} R{c}", nonnegative=True)
                g, fa, fb, r = kin.pos(Gs), kin.nonneg(a), kin.nonneg(b), kin.pos(Rc)
                k = kin.channel(W, fa, fb, f"ch{c}")
                tot = tot + g * M0 / W * kin.ff2(W, k, L, r)
                chans.append(ChannelArguments(s, m0, Gs, a, b, L, Rc))
            exp = 1 / (M0 * M0 - W * W - Frac(ctx.I) * M0 * tot)
            for rot in range(n if n < 4 else 1):
                cs = tuple(chans[rot:] + chans[:rot])
                if not agree(chk, kin, MultichannelBreitWigner(s, m0, cs), exp, f"multichannel Breit-Wigner, L={Ls}, first channel {rot}", f"multi:{Ls}"):
                    break
            if chk.full:
                return
    # channels that share arguments or are equal (charge states), massless products
    G, ma, mb, ma2 = sp.symbols("G ma mb ma_2", nonnegative=True)
    G2 = sp.Symbol("G2", nonnegative=True)
    for L in range(top + 1):
        for args in (
            ((G, ma, mb), (G, ma, mb)), ((G, ma, mb), (G, mb, ma)), ((G, ma, mb), (G2, ma, mb)), ((G, ma, mb), (G, ma2, mb)),
            ((G, ma, ma), (G, mb, mb)), ((G, ma, mb), (G2, 0, 0)), ((G, 0, 0), (G2, ma, 0)), ((G, 0, 0), (G, 0, 0)), ((G, ma, mb),) * 3,
        ):
            kin = Kin()
            ctx = kin.ctx
            W, M0, r = kin.energy(s), kin.pos(m0), kin.pos(R)
            get = lambda x, make: ctx.frac(0) if x == 0 else Frac(kin.env[x]) if x in kin.env else make(x)  # noqa: B023, E731
            ks = {}
            tot = ctx.frac(0)
            for Gs, a, b in args:
                g, fa, fb = get(Gs, kin.pos), get(a, kin.nonneg), get(b, kin.nonneg)
                key = frozenset((a, b))
                if key not in ks:
                    ks[key] = kin.channel(W, fa, fb, f"ch{len(ks)}")
                tot = tot + g * M0 / W * kin.ff2(W, ks[key], L, r)
            exp = 1 / (M0 * M0 - W * W - Frac(ctx.I) * M0 * tot)
            chans = tuple(ChannelArguments(s, m0, Gs, a, b, L, R) for Gs, a, b in args)
            agree(chk, kin, MultichannelBreitWigner(s, m0, chans), exp, f"multichannel Breit-Wigner, L={L}, channels {args}", f"multi-same:{L}:{args}")


# ------------------------------------------------------------------ D04
def d04(chk) -> None:
    from ..geometry import CYC

    chk.encoded("dynamics.builder.BreitWignerBuilder.__call__", "dynamics.builder._create_*", "dynamics.builder.get_mandelstam_s", "create_mass_symbol")
    top = 3 if chk.thorough else 2
    chk.bound(f"all three subsystems, both orders of the decay products and of the production node, all 8 option combinations, L_dec, L_prod = 0..{top}; kinematics above threshold, sigma^2 above threshold where the known deviation applies")
    for k in (1, 2, 3):
        for flags in product((True, False), repeat=3):
            for n, (lp, ld) in enumerate([(0, 1), (1, 2), (2, 0), (1, 1), (2, 2)] + ([(3, 3), (3, 1), (0, 3)] if chk.thorough else [])):
                builder_case(chk, k, flags, lp, ld, swap=n % 2 == 1, pswap=n % 3 == 2, CYC=CYC)
                if chk.full:
                    return


def builder_case(chk, k, flags, lp, ld, swap, pswap, CYC) -> None:
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    spec = Spec((1, 0, 0, 0), [dict(k=k, j=ld, name="R", latex="R^*", ls=((lp, 1), (ld, 0)), swap=swap, pswap=pswap)])
    syms = [sp.Symbol(f"mass_{i}", positive=True) for i in range(4)] + [sp.Symbol("mass_R", positive=True), sp.Symbol("width_R", positive=True)]
    spec.masses = tuple(syms[:4])
    spec.chains[0]["mass"], spec.chains[0]["width"] = syms[4], syms[5]
    edw, dff, pff = flags
    chain = build(spec).chains[0]
    other = edw and not pff and (lp + ld) % 2 == 0
    kw = dict(phsp_factor=any_phase_space) if other else {}
    out = BreitWignerBuilder(energy_dependent_width=edw, decay_form_factor=dff, production_form_factor=pff, **kw)(chain)
    i, j = CYC[k]
    S = lambda n: sp.Symbol(n, nonnegative=True)  # noqa: E731
    sig, mi, mj, mk, mt = S(f"sigma{k}"), S(f"m{i}"), S(f"m{j}"), S(f"m{k}"), S("m0")
    mR, wR, rad, radp = S("m_{R^*}"), S(r"\Gamma_{R^*}"), S(r"R_\mathrm{res}"), S(f"R_{{{chain.parent.latex}}}")
    kin = Kin()
    ctx = kin.ctx
    W = kin.energy(sig)
    M0, g = kin.pos(mR, "m0"), kin.pos(wR)
    a, b, c = (kin.nonneg(x) for x in (mi, mj, mk))
    T = kin.pos(mt, "M")
    r, rp = kin.pos(rad), kin.pos(radp)
    k1, k0, kp = kin.channel(W, a, b, "s"), kin.channel(M0, a, b, "m0"), None
    exp = ctx.frac(1)
    i_ = Frac(ctx.I)
    if other:
        with_phase_space(kin, a, b)
    if edw:
        exp = exp * M0 * g / (M0 * M0 - W * W - i_ * M0 * kin.width(W, k1, M0, k0, g, ld, r))
    else:
        exp = exp / (M0 * M0 - W * W - i_ * M0 * g)
    known = {}
    # production vertex: mass of the isobar's symbol as the code names it
    prod_ff = ctx.frac(1)
    if pff:
        kp = kin.channel(T, M0, c, "prod")
        prod_ff = kin.ff(T, kp, lp, rp)
    exp = exp * prod_ff
    full = exp
    if dff:
        full = exp * kin.ff(W, k1, ld, r)
        W4 = kin.channel(W * W, a, b, "sigma^2")
        known[f"decay-form-factor-sigma-squared"] = (exp * kin.ff(W * W, W4, ld, r), "the form factor of the resonance decay vertex is evaluated at the square of the invariant mass squared (BreitWignerBuilder with decay_form_factor)")
    what = f"builder lineshape (running width={edw}, decay ff={dff}, production ff={pff}), subsystem {k}, L_prod={lp}, L_dec={ld}"
    agree(chk, kin, out.expression, full, what, f"builder:{flags}:{k}:{lp}:{ld}", known if ld > 0 else None)
    # parameters: complete and with the particles' own values
    want = {mR: syms[4], wR: syms[5], mi: syms[i], mj: syms[j], mk: syms[k], mt: syms[0], rad: 1, radp: 1}
    pos = [z3.Real(str(x)) > 0 for x in syms]
    for sym, val in out.parameters.items():
        if sym not in want:
            chk.violation("builder-params", f"{what}: unexpected parameter {sym}", {}, True)
            return
        zz = lambda v: z3.Real(str(v)) if isinstance(v, sp.Symbol) else z3.RealVal(str(v))  # noqa: E731
        if chk.prove(pos, zz(val) == zz(want[sym]), f"{what}: default of {sym}") is not None:
            chk.violation("builder-params", f"{what}: default of {sym} is {val}, expected {want[sym]}", {}, True)
            return
    miss = sp.sympify(out.expression).free_symbols - set(out.parameters) - {S(f"sigma{n}") for n in (1, 2, 3)} - {S(f"m{n}") for n in range(4)} - set(PHSP)
    if miss:
        chk.violation("builder-params", f"{what}: no default for {miss}", {}, True)
