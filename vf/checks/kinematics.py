"""K01-K05: angles and invariants of the decay plane."""
from __future__ import annotations

import cmath
import math
from itertools import product

import sympy as sp

from ..env import z3
from ..geometry import CYC, Geometry, M, SIG, eval_angle
from ..poly import Frac
from ..report import Inconclusive


def seed_model(chk, geo, what):
    """A generic physical point (doubles as the vacuity twin)."""
    ctx = geo.ctx
    cons = ctx.constraints()
    import random

    rng = random.Random(chk.seed * 7919 + 13)
    for i in range(1, len(ctx.names)):
        if ctx.rel[i] is None:
            n = ctx.names[i]
            q = rng.randint(11, 39)
            cons.append(ctx.zvar(i) == z3.RealVal(f"{q}/40" if n == "c" else f"{q}/10"))
    m = chk.solve(cons, f"physical point for {what}")
    chk.vacuity += 1
    if m is None:
        raise RuntimeError("no physical point")
    return m


def check_angle(chk, geo: Geometry, expr, oracle, what, key, range_strict=True):
    """Prove expr == oracle angle for all kinematics of `geo`; report violations."""
    C, S = oracle
    geo.register_sines([oracle])
    try:
        ce, se = geo.cis(expr)
    except (ValueError, ZeroDivisionError) as e:
        raise RuntimeError(f"{what}: {e}") from e
    for label, got, exp in (("cosine", ce, C), ("sine", se, S)):
        model = chk.identity(geo.ctx, got - exp, f"{what}: {label} equals the geometric one")
        if model is not None:
            ok, data = replay_angle(geo, expr, oracle, model)
            chk.violation(key, f"{what} has the wrong {label}", data, ok)
            return False
    # encoding validation and branch (mod 2 pi) at one generic point
    model = seed_model(chk, geo, what)
    bad, data = replay_angle(geo, expr, oracle, model)
    chk.validated += 1
    if bad:
        chk.violation(key, f"{what} differs from the geometric angle", data, True)
        return False
    return True


def replay_angle(geo, expr, oracle, model):
    """(reproduced?, data): evaluate the real expression against the geometric angle."""
    vals = geo.numeric(model)
    subs = geo.point(vals)
    C, S = oracle
    true = math.atan2(_r(S.eval(vals)), _r(C.eval(vals)))
    got = eval_angle(expr, subs)
    data = {
        "kinematics": {str(k): v for k, v in subs.items()},
        "expected_angle": true,
        "real_code_angle": str(got),
        "expression": str(expr)[:200],
    }
    return abs(got - true) > 1e-6, data


def _r(x):
    return x.real if isinstance(x, complex) else float(x)


def k01(chk) -> None:
    from ampform_dpd.angles import formulate_scattering_angle

    chk.encoded("angles.formulate_scattering_angle")
    chk.bound("all masses >= 0 and all momenta p, q > 0, -1 < cos(theta) < 1 in the isobar rest frame")
    for k in (1, 2, 3):
        i, j = CYC[k]
        geo = Geometry(("R", k))
        _, expr = formulate_scattering_angle(i, j)
        check_angle(chk, geo, expr, geo.scattering_oracle(), f"theta_{i}{j}", f"theta{i}{j}")
        if chk.full:
            return
    from . import discrete

    discrete.scattering_ids(chk)


def k02(chk) -> None:
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle

    chk.encoded("angles.formulate_theta_hat_angle", "angles.formulate_zeta_angle (initial state)")
    chk.bound("all masses >= 0, momenta > 0, opening angle strictly between 0 and pi, rest frame of the decaying state")
    for i, j in product((1, 2, 3), repeat=2):
        geo = Geometry(0)
        for name, (_, expr) in (
            ("theta-hat", formulate_theta_hat_angle(i, j)),
            ("zeta^0", formulate_zeta_angle(0, i, j)),
        ):
            check_angle(chk, geo, expr, geo.oracle(i, j), f"{name}_{i}({j})", f"thetahat{i}{j}")
            if chk.full:
                return
    from . import discrete

    discrete.theta_hat_ids(chk)


def k03(chk) -> None:
    from ampform_dpd.angles import formulate_zeta_angle

    chk.encoded("angles.formulate_zeta_angle")
    chk.bound("rotated particle massive, other masses >= 0, momenta > 0, non-collinear, rest frame of the rotated particle")
    for i, a, r in product((1, 2, 3), (1, 2, 3), (0, 1, 2, 3)):
        geo = Geometry(i)
        _, expr = formulate_zeta_angle(i, a, r)
        # reference 0: the state's own chain defines the canonical axis
        check_angle(chk, geo, expr, geo.oracle(a, r or i), f"zeta^{i}_{a}({r})", f"zeta{i}{a}{r}")
        if chk.full:
            return


def k04(chk) -> None:
    """Group law of the rotations: identity, inverse, composition, closing relation."""
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle

    chk.encoded("angles.formulate_theta_hat_angle", "angles.formulate_zeta_angle")
    chk.bound("as for the single angles; all 3x27 + 27 subsystem triples")
    for i in (0, 1, 2, 3):
        geo = Geometry(i)
        get = (lambda a, b: formulate_zeta_angle(i, a, b)[1])
        cis = {}
        for a, b in product((1, 2, 3), repeat=2):
            geo.register_sines([geo.oracle(a, b)])
        for a, b in product((1, 2, 3), repeat=2):
            cis[a, b] = geo.cis(get(a, b))
        for a, b, c in product((1, 2, 3), repeat=3):
            (c1, s1), (c2, s2), (c3, s3) = cis[a, b], cis[b, c], cis[a, c]
            for label, diff in (
                ("cosine", c1 * c2 - s1 * s2 - c3),
                ("sine", s1 * c2 + c1 * s2 - s3),
            ):
                model = chk.identity(geo.ctx, diff, f"state {i}: R_{a}({b}) R_{b}({c}) = R_{a}({c}), {label}")
                if model is None:
                    continue
                vals = geo.numeric(model)
                subs = geo.point(vals)
                ang = [eval_angle(get(*x), subs) for x in ((a, b), (b, c), (a, c))]
                ok = abs(cmath.exp(1j * (ang[0] + ang[1] - ang[2])) - 1) > 1e-6
                chk.violation(
                    f"group{i}{a}{b}{c}",
                    f"state {i}: angle {a}({b}) + {b}({c}) != {a}({c})",
                    {"angles": [str(x) for x in ang], "kinematics": {str(k): v for k, v in subs.items()}},
                    ok,
                )
                break
            if chk.full:
                return
        if i == 0:
            closing(chk, geo, get)
    for a, b in product((1, 2, 3), repeat=2):
        x, y = formulate_theta_hat_angle(a, b)[1], formulate_theta_hat_angle(b, a)[1]
        geo = Geometry(0)
        geo.register_sines([geo.oracle(a, b), geo.oracle(b, a)])
        (c1, s1), (c2, s2) = geo.cis(x), geo.cis(y)
        for diff in (c1 - c2, s1 + s2):
            model = chk.identity(geo.ctx, diff, f"theta-hat_{a}({b}) = - theta-hat_{b}({a})")
            if model is not None:
                vals = geo.numeric(model)
                subs = geo.point(vals)
                v = eval_angle(x, subs), eval_angle(y, subs)
                chk.violation(f"anti{a}{b}", "reference rotation is not antisymmetric", {"angles": [str(t) for t in v]}, abs(cmath.exp(1j * (v[0] + v[1])) - 1) > 1e-6)


def closing(chk, geo, get) -> None:
    """theta-hat_1(2) + theta-hat_2(3) + theta-hat_3(1) = 2 pi (exactly one turn)."""
    subs = geo.point(geo.numeric(seed_model(chk, geo, "closing relation")))
    tot = sum(eval_angle(get(a, b), subs) for a, b in ((1, 2), (2, 3), (3, 1)))
    chk.validated += 1
    if abs(tot - 2 * math.pi) > 1e-6:
        chk.violation("closing", "the three consecutive reference rotations do not close to one turn", {"sum": str(tot)}, True)


def k05(chk) -> None:
    """Angles are real exactly on the physical region; invariants obey the sum rule."""
    from ampform.kinematics.phasespace import Kibble

    from ampform_dpd.angles import (
        formulate_scattering_angle,
        formulate_theta_hat_angle,
        formulate_zeta_angle,
    )
    from ..poly import Ctx
    from ..trans import Translator, unclip

    chk.encoded("angles.formulate_scattering_angle", "angles.formulate_theta_hat_angle", "angles.formulate_zeta_angle")
    chk.bound("m0, m1, m2, m3 > 0 and sigma_1, sigma_2 arbitrary reals with all three Kallen functions positive; sigma_3 from the sum rule")
    exprs = {}
    for k in (1, 2, 3):
        i, j = CYC[k]
        exprs[f"theta_{i}{j}"] = formulate_scattering_angle(i, j)[1]
    for i, j in product((1, 2, 3), repeat=2):
        exprs[f"theta-hat_{i}({j})"] = formulate_theta_hat_angle(i, j)[1]
    for i, a, r in product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        exprs[f"zeta^{i}_{a}({r})"] = formulate_zeta_angle(i, a, r)[1]
    for name, e in exprs.items():
        ctx = Ctx()
        mass = {i: ctx.gen(f"m{i}", pos=True) for i in range(4)}
        s1, s2 = ctx.gen("sigma1"), ctx.gen("sigma2")
        s3 = sum((mass[i] * mass[i] for i in range(4)), ctx.const(0)) - s1 - s2
        env = {M[i]: mass[i] for i in range(4)} | {SIG[1]: s1, SIG[2]: s2, SIG[3]: s3}
        tr = Translator(ctx, env, tidy=True)
        arg = _acos_arg(e)
        if arg is None:
            if e != 0:
                raise RuntimeError(f"{name}: {e}")
            continue
        inner = unclip(arg)
        if inner is not None:
            # a clipped cosine never leaves [-1, 1]: disagrees wherever Kibble > 0
            _report_real(chk, ctx, e, name, None, env)
            if chk.full:
                return
            continue
        x = tr(arg)
        x2 = ctx.tidy(x * x, 0)  # square roots cancel: rational in masses and invariants
        num = ctx.tidy(Frac(x2.den - x2.num), 0).num  # (1 - x^2) * den
        kib = ctx.tidy(tr(Kibble(*[SIG[i] for i in (1, 2, 3)], *[M[i] for i in range(4)]).doit()), 0)
        # 1 - x^2 = -Kibble * f with a positive f:  find f as exact quotient, let the
        # solver confirm identity and sign.
        base, f = _quotient(ctx, num, kib.num)
        if f is None:
            ident = num + kib.num
        else:
            ident = num * base + kib.num * f
        model = chk.identity(ctx, ident, f"{name}: 1 - cos^2 = -Kibble * positive / (Kallen * Kallen)")
        kall = [v for v in (x2.den,) ]
        if model is None:
            zc = []
            for i in range(4):
                zc.append(ctx.zvar(ctx.index[f"m{i}"]) > 0)
            # inside: Kibble < 0 => |cos| < 1; outside: Kibble > 0 => |cos| > 1
            K = kib.num.to_z3()
            model = _sign_query(chk, ctx, f, base, name)
        if model is not None:
            _report_real(chk, ctx, e, name, model, env)
            if chk.full:
                return


def _sign_query(chk, ctx, f, base, name):
    """The cofactors relating 1-cos^2 to -Kibble are positive for positive masses/sigma."""
    cons = ctx.constraints()
    sig = [ctx.zvar(ctx.index["sigma1"]) > 0, ctx.zvar(ctx.index["sigma2"]) > 0]
    s3 = sum((ctx.gen(f"m{i}") * ctx.gen(f"m{i}") for i in range(4)), ctx.const(0)) - ctx.gen("sigma1") - ctx.gen("sigma2")
    sig.append(s3.to_z3() > 0)
    chk.reachable([*cons, *sig], f"{name} sign query")
    claim = z3.Or(z3.And(f.to_z3() > 0, base.to_z3() > 0), z3.And(f.to_z3() < 0, base.to_z3() < 0))
    return chk.prove([*cons, *sig], claim, f"{name}: real exactly where the Kibble function is <= 0")


def _acos_arg(e):
    e = sp.sympify(e)
    if isinstance(e, sp.acos):
        return e.args[0]
    coeff, rest = e.as_coeff_Mul()
    if coeff == -1 and isinstance(rest, sp.acos):
        return rest.args[0]
    return None


def _quotient(ctx, num, kib):
    """num * base == -kib * f with monomial-like base, f (or (None, None))."""
    syms = {i: sp.Symbol(f"g{i}") for i in num.gens() | kib.gens()}

    def to_sp(p):
        return sp.Add(*[sp.Rational(v.numerator, v.denominator) * sp.Mul(*[syms[i] ** e for i, e in m]) for m, v in p.t.items()])

    q = sp.cancel(to_sp(num) / to_sp(-kib))
    n, d = sp.fraction(q)
    inv = {v: i for i, v in syms.items()}

    def back(e):
        out = ctx.const(0)
        poly = sp.Poly(e, *syms.values())
        gens = poly.gens
        from fractions import Fraction

        for mon, co in poly.terms():
            t = ctx.const(Fraction(int(co.p), int(co.q)))
            for g, ee in zip(gens, mon):
                if ee:
                    t = t * ctx.mono(inv[g]) ** ee
            out = out + t
        return out

    n, d = sp.expand(n), sp.expand(d)
    if len(sp.Add.make_args(n)) > 12 or len(sp.Add.make_args(d)) > 12:
        return None, None
    return back(d), back(n)


def _report_real(chk, ctx, e, name, model, env):
    """Find a point where reality of the angle and physicality disagree; replay it."""
    import random

    from ampform.kinematics.phasespace import Kibble

    rng = random.Random(chk.seed)
    arg = sp.lambdify([*M.values(), *SIG.values()], _acos_arg(e).doit(), "math")
    kib = sp.lambdify([*SIG.values(), *M.values()], Kibble(*SIG.values(), *M.values()).doit(), "math")
    for _ in range(20_000):
        m = [rng.uniform(0.1, 1.5) for _ in range(3)]
        m0 = sum(m) + rng.uniform(0.1, 3.0)
        s1, s2 = rng.uniform(0, m0**2), rng.uniform(0, m0**2)
        s3 = m0**2 + sum(x * x for x in m) - s1 - s2
        try:
            x = arg(m0, *m, s1, s2, s3)
        except (ValueError, ZeroDivisionError):
            continue
        k = kib(s1, s2, s3, m0, *m)
        inside = k < -1e-6
        if s3 <= 0 or abs(k) < 1e-6 or 0 < abs(abs(x) - 1) < 1e-9:
            continue
        if not all(_inside_box(i, m0, m, (s1, s2, s3)) for i in range(3)):
            continue
        if inside != (abs(x) <= 1):
            chk.violation(
                f"real:{name}", f"{name} is {'not ' if inside else ''}real {'in' if inside else 'out'}side the physical region",
                {"m0": m0, "m": m, "sigma": [s1, s2, s3], "kibble": k, "cosine": x}, True)
            return
    raise Inconclusive(f"{name}: identity with the Kibble function fails, but no disagreeing point was found")


def _inside_box(i, m0, m, s) -> bool:
    j, k = (i + 1) % 3, (i + 2) % 3
    return (m[j] + m[k]) ** 2 < s[i] < (m0 - m[i]) ** 2


# ------------------------------------------------------------------ K06
def k06(chk) -> None:
    """The invariants of a model are the squared pair masses; masses match their symbols."""
    from itertools import permutations

    import ampform_dpd as A
    from ..models import Spec, build

    chk.encoded("formulate_invariants", "formulate_third_mandelstam", "create_mass_symbol_mapping", "AmplitudeModel.invariants (formulate)", "AmplitudeModel.masses")
    chk.bound("all masses >= 0, momenta > 0, any opening angle; outer states listed in each of the 24 orders; all ordered pairs of known invariants")
    geo = Geometry(0)
    total = geo.sigma[1] + geo.sigma[2] + geo.sigma[3]
    masses2 = sum((geo.masses[i] ** 2 for i in range(4)), geo.ctx.const(0))
    if chk.identity(geo.ctx, total - masses2, "sum rule of the geometric pair masses") is not None:
        raise RuntimeError("geometry")
    spec = Spec((0, 0, 0, 0), [dict(k=k, j=0, name=f"R{k}", latex=f"R_{k}") for k in (1, 2, 3)])
    spec.masses = tuple(sp.Symbol(f"M{i}", positive=True) for i in range(4))
    z = {s: z3.Real(str(s)) for s in spec.masses}
    pos = [v > 0 for v in z.values()]
    chk.reachable(pos, "masses")
    for order in permutations(range(4)):
        decay = build(spec, order=order)
        tables = {"invariants": A.formulate_invariants(decay)}
        model = None
        if order in {(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)}:
            model = A.DalitzPlotDecompositionBuilder(decay).formulate(reference_subsystem=1)
            tables["model invariants"] = model.invariants
        for name, table in tables.items():
            if set(table) != set(SIG.values()):
                chk.violation(f"invariants:{order}", f"{name} of states in order {order} are {list(table)}", {}, True)
                return
            for k in (1, 2, 3):
                if not _invariant(chk, geo, table[SIG[k]], k, f"{name}, states in order {order}"):
                    return
        for x, y in permutations((1, 2, 3), 2):
            e = A.formulate_third_mandelstam(decay, x, y)
            if not _invariant(chk, geo, e, 6 - x - y, f"third invariant from {x}, {y}, states in order {order}"):
                return
        if not _invariant(chk, geo, A.formulate_third_mandelstam(decay), 3, f"third invariant (default), order {order}"):
            return
        maps = {"mass mapping": A.create_mass_symbol_mapping(decay)}
        if model is not None:
            maps["model masses"] = model.masses
        for name, table in maps.items():
            if set(table) != set(M.values()):
                chk.violation(f"masses:{order}", f"{name} has symbols {list(table)}", {}, True)
                return
            for i in range(4):
                got = z.get(table[M[i]])
                bad = got is None or chk.prove(pos, got == z[spec.masses[i]], f"{name}, order {order}: mass of state {i}") is not None
                if bad:
                    chk.violation(f"masses:{order}", f"{name} gives {table[M[i]]} for the mass of state {i}", {"order": order}, True)
                    return


def _invariant(chk, geo, expr, k, what) -> bool:
    try:
        got = geo.tr(sp.sympify(expr).doit())
    except (KeyError, ValueError) as e:
        chk.violation(f"invariant:{k}", f"{what}: sigma_{k} = {expr} is no function of masses and invariants ({e})", {}, True)
        return False
    # the expression may use the other two invariants, not itself
    if SIG[k] in expr.free_symbols:
        chk.violation(f"invariant:{k}", f"{what}: sigma_{k} is defined by itself: {expr}", {}, True)
        return False
    model = chk.identity(geo.ctx, got - geo.sigma[k], f"{what}: sigma_{k} is the squared mass of its pair")
    if model is None:
        return True
    vals = geo.numeric(model)
    subs = geo.point(vals)
    real = complex(sp.sympify(expr).doit().subs(subs))
    data = {"kinematics": {str(a): b for a, b in subs.items()}, "expression": str(expr), "real_code": str(real), "expected": subs[SIG[k]]}
    chk.violation(f"invariant:{k}", f"{what}: sigma_{k} is not the squared mass of its pair", data, abs(real - complex(subs[SIG[k]])) > 1e-7)
    return False
