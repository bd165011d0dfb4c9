"""Decays with chosen structure, and the independent textbook oracle for amplitudes."""
from __future__ import annotations

import zlib
from fractions import Fraction
from functools import lru_cache
from math import factorial

import sympy as sp

from .geometry import CYC, Geometry, M, SIG, _num, eval_angle
from .poly import Ctx, Frac, Poly
from .trans import Translator

H = sp.Rational(1, 2)
DRESSES = 4


def half(x) -> sp.Rational:
    return sp.Rational(x)


def proj(j):
    j = sp.Rational(j)
    return [-j + n for n in range(int(2 * j) + 1)]


class Spec:
    """Structure of a decay. chains: list of dicts(k, j, name, ls=(prod, dec), swap, pswap).

    Names, masses and the listing order of the outer states must not matter, so they are varied with
    the structure (`dress`): distinct, all final states alike, named like the resonances, or massless.
    """

    def __init__(self, spins, chains, parities=(1, 1, 1, 1), masses=(5.0, 1.0, 0.6, 0.3), label="", dress=None):
        self.spins = [sp.Rational(s) for s in spins]
        self.parities = parities
        self.masses = masses
        self.chains = [dict(c) for c in chains]
        first = {}
        for n, c in enumerate(self.chains):
            c.setdefault("name", f"R{n}")
            c.setdefault("latex", c["name"])
            m = first.setdefault((c["name"], c["latex"], c["j"]), n)  # one resonance has one mass and width
            c.setdefault("mass", 2.0 + 0.1 * m)
            c.setdefault("width", 0.1 + 0.01 * m)
            c["j"] = sp.Rational(c["j"])
            c.setdefault("ls", (None, None))
            c.setdefault("parity", 1)
            c.setdefault("swap", False)
            c.setdefault("pswap", False)
        self.label = label
        self.dress = zlib.crc32(str(self).encode()) % DRESSES if dress is None else dress
        if masses == (5.0, 1.0, 0.6, 0.3):
            self.masses = (masses, (5.0, 0.6, 0.6, 0.6), masses, (5.0, 0.0, 0.0, 0.0))[self.dress]

    @property
    def names(self):
        if self.dress == 1:
            return ["p"] * 4
        return [f"p{i}" if self.dress in (0, 3) else self.chains[i % len(self.chains)]["name"] for i in range(4)]

    @property
    def order(self):
        return [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 0, 1), (1, 0, 3, 2)][self.dress]

    def dressed(self, dress):
        """The same structure in another presentation."""
        return Spec(self.spins, self.chains, self.parities, label=self.label, dress=dress)

    def __str__(self):
        js = ",".join(map(str, self.spins))
        ch = "; ".join(
            f"{c['name']}(J={c['j']}) in subsystem {c['k']}" + (f" LS={c['ls']}" if c["ls"] != (None, None) else "")
            for c in self.chains
        )
        return f"J=({js}) [{ch}]"


def build(spec: Spec, order=None):
    from ampform_dpd.decay import (
        IsobarNode,
        Particle,
        State,
        ThreeBodyDecay,
        ThreeBodyDecayChain,
    )

    st = {
        i: State(
            name=spec.names[i], latex=f"p_{i}" if spec.dress in (0, 3) else spec.names[i], spin=spec.spins[i], parity=spec.parities[i],
            mass=spec.masses[i], width=0.0, index=i,
        )
        for i in range(4)
    }
    chains = []
    for c in spec.chains:
        i, j = CYC[c["k"]]
        if c["swap"]:
            i, j = j, i
        R = Particle(
            name=c["name"], latex=c["latex"], spin=c["j"], parity=c["parity"],
            mass=c["mass"], width=c["width"],
        )
        iso = IsobarNode(R, st[i], st[j], interaction=c["ls"][1])
        kids = (st[c["k"]], iso) if c["pswap"] else (iso, st[c["k"]])
        chains.append(ThreeBodyDecayChain(IsobarNode(st[0], *kids, interaction=c["ls"][0])))
    states = {i: st[i] for i in (order or spec.order)}
    return ThreeBodyDecay(states=states, chains=tuple(chains))


# ---------------------------------------------------------------- textbook functions
@lru_cache(maxsize=None)
def wigner_d_terms(j, m, mp):
    """Wigner's closed formula: list of (coeff**2-free sqrt factor, terms)."""
    j, m, mp = map(Fraction, (str(j), str(m), str(mp)))
    f = lambda x: factorial(int(x))  # noqa: E731
    rad = f(j + m) * f(j - m) * f(j + mp) * f(j - mp)
    terms = []
    for k in range(0, int(2 * j) + 1):
        a, b, c, d = j + mp - k, k, m - mp + k, j - m - k
        if min(a, b, c, d) < 0:
            continue
        sign = (-1) ** int(m - mp + k)
        terms.append((Fraction(sign, f(a) * f(b) * f(c) * f(d)), int(2 * j + mp - m - 2 * k), int(m - mp + 2 * k)))
    return rad, terms


def wigner_d(ctx: Ctx, j, m, mp, half_angle) -> Frac:
    """d^j_{m,mp}(beta), Condon-Shortley convention, from cos, sin of beta/2."""
    if abs(m) > j or abs(mp) > j:
        return ctx.frac(0)
    rad, terms = wigner_d_terms(sp.Rational(j), sp.Rational(m), sp.Rational(mp))
    c, s = half_angle
    out = ctx.frac(0)
    for co, pc, ps in terms:
        out = out + (c**pc) * (s**ps) * co
    return out * Frac(ctx.sqrt_int(rad))


@lru_cache(maxsize=None)
def cg_square(j1, m1, j2, m2, J, M_):
    """(sign, value^2) of the Clebsch-Gordan coefficient by Racah's formula."""
    j1, m1, j2, m2, J, M_ = (Fraction(str(x)) for x in (j1, m1, j2, m2, J, M_))
    if m1 + m2 != M_ or abs(m1) > j1 or abs(m2) > j2 or abs(M_) > J:
        return 0, Fraction(0)
    if not abs(j1 - j2) <= J <= j1 + j2:
        return 0, Fraction(0)
    for j, m in ((j1, m1), (j2, m2), (J, M_)):
        if (j - m).denominator != 1:
            return 0, Fraction(0)
    if (j1 + j2 - J).denominator != 1:
        return 0, Fraction(0)
    f = lambda x: factorial(int(x))  # noqa: E731
    pref = Fraction(
        (2 * int(2 * J) // 2 + 1) if False else int(2 * J + 1)
    ) * Fraction(
        f(J + j1 - j2) * f(J - j1 + j2) * f(j1 + j2 - J), f(j1 + j2 + J + 1)
    ) * f(J + M_) * f(J - M_) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2)
    tot = Fraction(0)
    for k in range(0, int(j1 + j2 + J) + 2):
        ds = (k, j1 + j2 - J - k, j1 - m1 - k, j2 + m2 - k, J - j2 + m1 + k, J - j1 - m2 + k)
        if min(ds) < 0:
            continue
        den = 1
        for d in ds:
            den *= f(d)
        tot += Fraction((-1) ** k, den)
    return (1 if tot > 0 else -1 if tot < 0 else 0), pref * tot * tot


def cg(ctx: Ctx, j1, m1, j2, m2, J, M_) -> Frac:
    sign, sq = cg_square(*(sp.Rational(x) for x in (j1, m1, j2, m2, J, M_)))
    if not sign:
        return ctx.frac(0)
    return Frac(ctx.sqrt_int(sq.numerator * sq.denominator), ctx.const(sq.denominator)) * sign


def ls_factor(ctx, J, L, S, s1, l1, s2, l2) -> Frac:
    """sqrt((2L+1)/(2J+1)) <s1 l1 s2 -l2|S d> <L 0 S d|J d>, d = l1 - l2."""
    d = sp.Rational(l1) - sp.Rational(l2)
    r = ctx.sqrt(Frac(ctx.const(int(2 * L + 1)), ctx.const(int(2 * sp.Rational(J) + 1))))
    return r * cg(ctx, s1, l1, s2, -sp.Rational(l2), S, d) * cg(ctx, L, 0, S, d, J, d)


# ---------------------------------------------------------------- meaning of angles
_MEANING: dict = {}
_POINT: dict = {}


def _ref_point():
    """One generic physical point (frame 0) with all oriented angles, in floats."""
    if not _POINT:
        geo = Geometry(0)
        vals = {}
        ctx = geo.ctx
        base = {"c": 0.31, "m1": 1.0, "m2": 0.7, "m3": 0.4, "p1": 0.9, "p2": 1.3}
        import math

        for i in range(1, len(ctx.names)):
            r = ctx.rel[i]
            vals[i] = base[ctx.names[i]] if r is None else math.sqrt(r.eval(vals))
        _POINT["subs"] = geo.point(vals)
    return _POINT["subs"]


def angle_meaning(chk, expr):
    """('theta', k) or ('rot', i, x, y) or ('zero',) with proof, else ('unknown', expr)."""
    expr = sp.sympify(expr)
    if expr in _MEANING:
        return _MEANING[expr]
    if expr == 0:
        out = ("zero",)
    else:
        out = ("unknown", expr)
        for kind in _candidates():
            geo = Geometry(kind[1]) if kind[0] == "rot" else Geometry(("R", kind[1]))
            oracle = _kind_oracle(geo, kind)
            if not _numeric_match(geo, kind, expr):
                continue
            geo.register_sines([oracle])
            try:
                ce, se = geo.cis(expr)
            except Exception:  # noqa: BLE001
                continue
            if all(
                chk.identity(geo.ctx, a - b, f"angle in model is {kind}") is None
                for a, b in ((ce, oracle[0]), (se, oracle[1]))
            ):
                out = kind
                break
    _MEANING[expr] = out
    return out


def _kind_oracle(geo, kind):
    """(cos, sin) of the geometric angle that `kind` stands for."""
    if kind[0] == "rot":
        return geo.oracle(kind[2], kind[3])
    c, s = geo.scattering_oracle()
    return (-c, s) if kind[0] == "antitheta" else (c, s)  # other product: pi - theta


def _candidates():
    for k in (1, 2, 3):
        yield ("theta", k)
    for k in (1, 2, 3):
        yield ("antitheta", k)
    for i in (0, 1, 2, 3):
        for x in (1, 2, 3):
            for y in (1, 2, 3):
                if x != y:
                    yield ("rot", i, x, y)


def _numeric_match(geo, kind, expr) -> bool:
    from ampform_dpd.angles import formulate_scattering_angle, formulate_zeta_angle

    # cheap filter only: structural equality with the public formula, or same numbers
    pub = (
        formulate_scattering_angle(*CYC[kind[1]][:: -1 if kind[0] == "antitheta" else 1])[1]
        if kind[0] in {"theta", "antitheta"}
        else formulate_zeta_angle(kind[1], kind[2], kind[3])[1]
    )
    if pub == expr:
        return True
    import math

    vals = {}
    ctx = geo.ctx
    base = iter((0.31, 1.1, 0.7, 0.4, 0.9, 1.3, 0.8))
    n = {"c": 0.31, "m1": 1.0, "m2": 0.7, "m3": 0.4, "p1": 0.9, "p2": 1.3, "p3": 1.7, "p": 0.8, "q": 1.2}
    for i in range(1, len(ctx.names)):
        r = ctx.rel[i]
        vals[i] = n.get(ctx.names[i], next(base, 1.0)) if r is None else math.sqrt(max(0.0, complex(r.eval(vals)).real))
    oracle = _kind_oracle(geo, kind)
    true = math.atan2(complex(oracle[1].eval(vals)).real, complex(oracle[0].eval(vals)).real)
    try:
        return abs(eval_angle(expr, geo.point(vals)) - true) < 1e-6
    except (TypeError, ValueError):
        return False


class AngleBank:
    """Half-angle generators shared by model and oracle.

    rot(i, x, y): half-angle of the oriented rotation from axis y to axis x of state i,
    expressed through base rotations so that the exact composition law is built in:
    rot(i,3,1) etc. follow from rot(i,1,2), rot(i,2,3) (order of the final state) and for
    the decaying state rot(0,1,2)+rot(0,2,3)+rot(0,3,1) = one full turn.
    """

    def __init__(self, ctx: Ctx, zero_states=()) -> None:
        self.ctx = ctx
        self.theta: dict = {}
        self.base: dict = {}
        self.unknown: dict = {}

    def _gen(self, name):
        c = self.ctx.gen(f"cos({name}/2)")
        s = self.ctx.gen(f"sin({name}/2)", square=lambda: 1 - c * c)
        return Frac(c), Frac(s)

    def one(self):
        return self.ctx.frac(1), self.ctx.frac(0)

    def get(self, meaning):
        if meaning[0] == "zero":
            return self.one()
        if meaning[0] == "theta":
            return self._gen(f"theta{meaning[1]}")
        if meaning[0] == "antitheta":
            c, s = self._gen(f"theta{meaning[1]}")
            return s, c
        if meaning[0] == "rot":
            _, i, x, y = meaning
            return self.rot(i, x, y)
        n = self.unknown.setdefault(meaning[1], len(self.unknown))
        return self._gen(f"unknown{n}")

    def rot(self, i, x, y):
        if x == y:
            return self.one()
        if i == 0:
            order = {(1, 2): 1, (2, 3): 1, (3, 1): 1}
        else:
            j, k = CYC[i]
            # axes ordered k, i, j counter-clockwise: positive (i,k), (j,i), (j,k)
            order = {(i, k): 1, (j, i): 1, (j, k): 1}
        if (x, y) not in order:
            c, s = self.rot(i, y, x)
            return c, -s
        if i == 0:
            if (x, y) == (3, 1):  # 2 pi - (1,2) - (2,3)
                c, s = self._add(self._gen("rot0_12"), self._gen("rot0_23"))
                return -c, s
            return self._gen(f"rot0_{x}{y}")
        j, k = CYC[i]
        if (x, y) == (j, k):
            return self._add(self._gen(f"rot{i}_{j}{i}"), self._gen(f"rot{i}_{i}{k}"))
        return self._gen(f"rot{i}_{x}{y}")

    @staticmethod
    def _add(a, b):
        return a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]


class ModelView:
    """Translate the expressions of an AmplitudeModel; couplings become complex generators."""

    def __init__(self, chk, ctx: Ctx, model, bank: AngleBank, opaque_amplitudes=False, tidy=False):
        self.chk, self.ctx, self.model, self.bank = chk, ctx, model, bank
        self.angles = {}
        for sym, e in model.variables.items():
            self.angles[sym] = bank.get(angle_meaning(chk, e))
        self.opaque = opaque_amplitudes
        self.sign = None  # k -> +-1 for opaque amplitudes
        self.alias = None  # symbol -> Frac or None
        self.symbols: dict[str, object] = {}
        self.aliased: dict = {}
        self.tr = Translator(ctx, angles=self.angles, auto=self._auto, tidy=tidy)

    def _auto(self, s):
        if isinstance(s, sp.Symbol) and s in self.angles:
            raise ValueError(f"bare angle {s}")
        if isinstance(s, sp.Indexed) and not self.opaque and s in self.model.amplitudes:
            return self.tr(self.model.amplitudes[s].doit(deep=False))
        if self.alias is not None:
            hit = self.alias(s)
            if hit is not None:
                self.aliased[s] = hit
                return hit
        name = coupling_key(s)
        self.symbols.setdefault(str(name), s)
        f = Frac(self.ctx.complex_gen(str(name)))
        if self.sign is not None and isinstance(s, sp.Indexed):
            f = f * self.sign(amp_key(s)[0])
        return f

    def __call__(self, e):
        return self.tr(e)


def coupling_key(s):
    if isinstance(s, sp.Indexed):
        return f"{s.base.label}[{', '.join(map(str, s.indices))}]"
    return str(s)


def amp_key(indexed):
    """A^k[l0,l1,l2,l3] -> (k, (l0..l3))."""
    label = str(indexed.base.label)
    return int(label[-1]), tuple(indexed.indices)


def coupling(ctx: Ctx, typ: str, latex: str, a, b, ls=False) -> Frac:
    base = R"\mathcal{H}^\mathrm{" + ("LS," if ls else "") + typ + "}"
    return Frac(ctx.complex_gen(f"{base}[{latex}, {a}, {b}]"))


def oracle_amplitude(ctx: Ctx, spec: Spec, k: int, lam, bank: AngleBank, dyn, basis=(True, True), coef=None) -> Frac:
    """DPD chain amplitude summed over the chains of subsystem k (textbook formula)."""
    i, j = CYC[k]
    s = spec.spins
    lam = [sp.Rational(x) for x in lam]
    out = ctx.frac(0)
    for n, c in enumerate(spec.chains):
        if c["k"] != k:
            continue
        lr = lam[0] + lam[k]
        if lr not in proj(c["j"]):
            continue
        t = wigner_d(ctx, c["j"], lr, lam[i] - lam[j], bank.get(("theta", k)))
        t = t * (-1) ** int(s[k] - lam[k]) * (-1) ** int(s[j] - lam[j])
        t = t * dyn(n)
        prod, dec = c["ls"]
        if basis[0]:
            pa = (lr, lam[k])
        else:
            pa = prod
            a, b = ((c["j"], lr), (s[k], lam[k]))
            if c["pswap"]:
                a, b = b, a
            t = t * ls_factor(ctx, s[0], prod[0], prod[1], *a, *b)
        if basis[1]:
            da = (lam[i], lam[j])
        else:
            da = dec
            a, b = ((s[i], lam[i]), (s[j], lam[j]))
            if c["swap"]:
                a, b = b, a
            t = t * ls_factor(ctx, c["j"], dec[0], dec[1], *a, *b)
        if coef is not None:
            t = t * coef(c, pa, da)
        else:
            t = t * coupling(ctx, "production", c["latex"], *pa, ls=not basis[0])
            t = t * coupling(ctx, "decay", c["latex"], *da, ls=not basis[1])
        out = out + t
    return out


def oracle_intensity(ctx: Ctx, spec: Spec, ref: int, bank: AngleBank, amp, subsystems):
    """Sum over external helicities of |sum_k sum_l' A^k d d d d|^2."""
    from itertools import product as prod

    s = spec.spins
    tot = ctx.frac(0)
    dcache: dict = {}

    def d(i, k, m, mp):
        key = (i, k, m, mp)
        if key not in dcache:
            dcache[key] = wigner_d(ctx, s[i], m, mp, bank.rot(i, k, ref))
        return dcache[key]

    grid = [proj(x) for x in s]
    for lam in prod(*grid):
        a = ctx.frac(0)
        for k in subsystems:
            for lp in prod(*grid):
                w = ctx.frac(1)
                for i in range(4):
                    w = w * (d(0, k, lam[0], lp[0]) if i == 0 else d(i, k, lp[i], lam[i]))
                    if w.num.is_zero():
                        break
                if not w.num.is_zero():
                    a = a + w * amp(k, lp)
        tot = tot + a.abs2()
    return tot


# ---------------------------------------------------------------- numeric replay
def numeric_subs(kin=None):
    return dict(kin or _ref_point())


def numeric_value(model, e, values: dict, kin=None):
    """Evaluate a model expression in floats: couplings/dynamics by str name."""
    kin = numeric_subs(kin)
    e = sp.sympify(e)
    e = e.doit()
    for _ in range(3):
        rep = {a: v.doit() for a, v in model.amplitudes.items()}
        if not any(a in rep for a in e.atoms(sp.Indexed)):
            break
        e = e.xreplace(rep)
    ang = {s: sp.N(sp.sympify(v).doit().xreplace({k: sp.Float(x, 30) for k, x in kin.items()}), 20) for s, v in model.variables.items()}
    rep = {}
    for s in e.free_symbols | e.atoms(sp.Indexed):
        key = str(coupling_key(s))
        if key in values:
            rep[s] = sp.sympify(values[key])
    e = e.xreplace(rep).xreplace(ang).xreplace({k: sp.Float(x, 30) for k, x in kin.items()})
    return complex(sp.N(e, 15))


def gen_values(ctx: Ctx, model) -> dict:
    """Float values of all generators in a solver model (relations recomputed)."""
    import math

    from .env import z3

    vals = {}
    for i in range(1, len(ctx.names)):
        v = _num(model.eval(ctx.zvar(i), model_completion=True)) if model is not None else 0.37 + 0.11 * i % 1
        vals[i] = v
    for i in range(1, len(ctx.names)):
        r = ctx.rel[i]
        if r is not None:
            x = r.eval(vals)
            x = x.real if isinstance(x, complex) else x
            vals[i] = math.copysign(math.sqrt(max(x, 0.0)), vals[i] if vals[i] else 1.0)
    return vals


def random_values(ctx: Ctx, rng) -> dict:
    import math

    vals = {}
    for i in range(1, len(ctx.names)):
        r = ctx.rel[i]
        if r is None:
            n = ctx.names[i]
            vals[i] = rng.uniform(-0.9, 0.9) if n.startswith("cos(") else rng.uniform(0.2, 1.7)
        else:
            x = r.eval(vals)
            x = x.real if isinstance(x, complex) else x
            vals[i] = math.sqrt(max(x, 0.0))
    return vals


def real_value(view: ModelView, e, vals):
    """The real expression, evaluated by SymPy at the given generator values."""
    import math

    e = sp.sympify(e).doit()
    if not view.opaque:
        for _ in range(3):
            amps = {a: view.model.amplitudes[a].doit() for a in e.atoms(sp.Indexed) if a in view.model.amplitudes}
            if not amps:
                break
            e = e.xreplace(amps)
    rep = {}
    for sym, (c, s) in view.angles.items():
        rep[sym] = sp.Float(2 * math.atan2(_re(s.eval(vals)), _re(c.eval(vals))), 20)
    for name, sym in view.symbols.items():
        re, im = view.ctx.index[name + ".re"], view.ctx.index[name + ".im"]
        rep[sym] = sp.Float(vals[re]) + sp.I * sp.Float(vals[im])
        if view.sign is not None and isinstance(sym, sp.Indexed):
            rep[sym] = rep[sym] * view.sign(amp_key(sym)[0])
    for sym, f in view.aliased.items():
        v = complex(f.eval(vals))
        rep[sym] = sp.Float(v.real) + sp.I * sp.Float(v.imag)
    value = sp.N(e.xreplace(rep), 15)
    if left := sorted(map(str, value.free_symbols)):
        raise Undefined(", ".join(left))
    return complex(value)


class Undefined(Exception):
    """A value depends on symbols for which the model has no definition."""


def _re(x):
    return x.real if isinstance(x, complex) else float(x)
