"""B01-B10: the amplitude model assembled by the DPD builder."""
from __future__ import annotations

import random
import warnings
from itertools import product
from math import prod

import sympy as sp

from ..models import (
    DRESSES,
    AngleBank,
    H,
    ModelView,
    Spec,
    Undefined,
    amp_key,
    build,
    coupling,
    coupling_key,
    gen_values,
    oracle_amplitude,
    oracle_intensity,
    proj,
    random_values,
    real_value,
)
from ..poly import Ctx, Frac

warnings.simplefilter("ignore")


def builder(decay, *a, **k):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    return DalitzPlotDecompositionBuilder(decay, *a, **k)


def compare(chk, view, expr, oracle, what, key, sign=1) -> bool:
    """expr (real code) == oracle for all couplings, angles, dynamics."""
    ctx = view.ctx
    got = view(expr)
    model = chk.equal(ctx, got, oracle, what)
    if model is None:
        return True
    for vals in (gen_values(ctx, model), random_values(ctx, random.Random(chk.seed))):
        try:
            real = real_value(view, expr, vals)
        except Undefined as left:
            chk.violation(key, f"{what}: it depends on {left}, without definition", {}, True)
            return False
        exp = complex(oracle.eval(vals))
        if abs(real - exp) > 1e-7 * max(1, abs(exp), abs(real)):
            chk.violation(key, what, {"real_code": str(real), "expected": str(exp),
                                      "values": {ctx.names[i]: v for i, v in vals.items()}}, True)
            return False
    chk.violation(key, what, {"real_code": str(real), "expected": str(exp)}, False)
    return False


def validate(chk, view, expr, oracle, what, key) -> None:
    """Push one random point through the real expression and through the encoding."""
    vals = random_values(view.ctx, random.Random(chk.seed + chk.validated))
    enc = complex(view(expr).eval(vals))
    real = real_value(view, expr, vals)
    chk.validated += 1
    if abs(enc - real) > 1e-7 * max(1, abs(real)):
        raise RuntimeError(f"encoding disagrees with SymPy at a random point: {what}: {enc} vs {real}")


def subs_label(ks):
    return "".join(map(str, ks))


# ------------------------------------------------------------------ B01 / B02
def intensity_specs(chk):
    S = [
        (H, H, 0, 0), (1, 0, 0, 0), (0, 1, 0, H), (1, H, H, 0), (0, H, 0, H), (H, 0, H, 0), (H, 0, 0, H), (2, 0, 0, 0),
    ]
    if chk.thorough:
        S += [(1, 0, 1, 0), (1, 0, H, H), (sp.Rational(3, 2), H, 0, 0), (H, 1, H, 0), (0, 1, 1, 0), (1, H, 0, H), (H, 0, 1, H), (0, 0, H, sp.Rational(3, 2))]
    return [tuple(map(sp.Rational, s)) for s in S]


def pair_spec(spins, ks):
    """One resonance per subsystem with the lowest spin that its vertices allow."""
    chains = []
    for n, k in enumerate(ks):
        from ..geometry import CYC

        i, j = CYC[k]
        jr = (spins[i] + spins[j]) % 1
        chains.append(dict(k=k, j=jr, name=f"R{k}"))
    return Spec(spins, chains)


def b01(chk) -> None:
    chk.encoded("DalitzPlotDecompositionBuilder.formulate", "formulate_aligned_amplitude", "angles.formulate_zeta_angle", "spin.create_spin_range")
    chk.bound("spins of the four outer states from the listed configurations; amplitudes A^k[...] and all rotation angles are free symbols")
    items = []
    for spins in intensity_specs(chk):
        for ks in [(1, 2), (2, 3), (1, 3), (1,), (2,), (3,)] + ([(1, 2, 3)] if max(spins) <= H or chk.thorough else []):
            items.append((spins, ks))
    items.sort(key=lambda t: -len(t[1]) * prod(2 * s + 1 for s in t[0]))
    chk.pmap(intensity_item, items)


def intensity_item(chk, item) -> None:
    spins, ks = item
    base = pair_spec(spins, ks)
    for n, ref in enumerate(ks if len(ks) > 1 else (1, 2, 3)):
        for clean in (False, True) if ref == ks[0] else (False,):
            spec = base.dressed((base.dress + n + 2 * clean) % DRESSES if clean or n % 2 else 3)
            one_intensity(chk, spec, ks, ref, clean)
            if chk.full:
                return


def one_intensity(chk, spec, ks, ref, clean) -> None:
    b = builder(build(spec))
    m = b.formulate(reference_subsystem=ref, cleanup_summations=clean)
    ctx = Ctx()
    bank = AngleBank(ctx)
    view = ModelView(chk, ctx, m, bank, opaque_amplitudes=True)
    amp = lambda k, lam: Frac(ctx.complex_gen(f"A^{k}[{', '.join(map(str, lam))}]"))  # noqa: E731
    exp = oracle_intensity(ctx, spec, ref, bank, amp, ks)
    what = f"intensity of {spec}, reference {ref}{', cleaned' if clean else ''} is the helicity sum of |aligned amplitude|^2"
    if compare(chk, view, m.intensity, exp, what, f"intensity:{','.join(map(str, spec.spins))}:{subs_label(ks)}:{ref}"):
        if prod(2 * x + 1 for x in spec.spins) <= 4 and len(ks) > 1 and not chk.validated:
            validate(chk, view, m.intensity, exp, what, "")
    chk.count("models", 1)


# ------------------------------------------------------------------ B02
def b02(chk) -> None:
    chk.encoded("DalitzPlotDecompositionBuilder.formulate", "formulate_aligned_amplitude", "angles.formulate_zeta_angle")
    chk.bound("spins and subsystem sets from the listed configurations; amplitudes A^k[...] and rotation angles free; half-angle branches as fixed by K02-K04")
    chk.assume("for a half-integer initial spin the three initial-state rotations add up to one full turn, so one relative sign per subsystem is conventional and is taken out")
    items = []
    for spins in intensity_specs(chk):
        for ks in [(1, 2), (2, 3), (1, 3)] + ([(1, 2, 3)] if max(spins) <= H or chk.thorough else []):
            items.append((spins, ks))
    items.sort(key=lambda t: -len(t[1]) * prod(2 * s + 1 for s in t[0]))
    chk.pmap(reference_item, items)


def reference_item(chk, item) -> None:
    spins, ks = item
    spec = pair_spec(spins, ks)
    b = builder(build(spec))
    models = {r: b.formulate(reference_subsystem=r) for r in (1, 2, 3)}
    half0 = spins[0].q == 2
    ctx = Ctx()
    bank = AngleBank(ctx)
    views, vals = {}, {}
    for r in (1, 2, 3):
        views[r] = v = ModelView(chk, ctx, models[r], bank, opaque_amplitudes=True, tidy=True)
        if half0:
            v.sign = lambda k, r=r: -1 if {k, r} == {1, 3} else 1
        vals[r] = v(models[r].intensity)
    for r in (2, 3):
        what = f"intensity of {spec} with reference {r} equals that with reference 1"
        m = chk.equal(ctx, vals[r], vals[1], what)
        if m is None:
            continue
        for g in (gen_values(ctx, m), random_values(ctx, random.Random(chk.seed))):
            try:
                a, c = (real_value(views[x], models[x].intensity, g) for x in (r, 1))
            except Undefined as left:
                chk.violation(f"reference:{','.join(map(str, spins))}:{subs_label(ks)}:{r}", f"{what}: it depends on {left}, without definition", {}, True)
                return
            if abs(a - c) > 1e-7 * max(1, abs(a), abs(c)):
                chk.violation(f"reference:{','.join(map(str, spins))}:{subs_label(ks)}:{r}", what,
                              {"reference_1": str(c), f"reference_{r}": str(a)}, True)
                return
        chk.violation("reference", what, {}, False)


# ------------------------------------------------------------------ B03 / B04
F32 = sp.Rational(3, 2)
F52 = sp.Rational(5, 2)


def dyn_symbol(c, n):
    return sp.Symbol(f"D_{n}")


def with_dynamics(decay, spec, b):
    """Register one opaque complex function per chain."""
    from ampform_dpd import DefinedExpression

    for n, ch in enumerate(decay.chains):
        sym = sp.Symbol(f"D_{n}")
        b.dynamics_choices.register_builder(ch, lambda _c, s=sym: DefinedExpression(s, {s: 1.0}))


def amp_expr(chk, model, k, lam, key, what):
    from ampform_dpd import _generate_amplitude_index_bases  # noqa: F401

    sym = {amp_key(a): a for a in model.amplitudes}.get((k, tuple(lam)))
    if sym is None:
        chk.violation(key, f"{what}: amplitude A^{k}{list(map(str, lam))} is missing",
                      {"present": [str(a) for a in model.amplitudes][:20]}, True)
        return None
    return model.amplitudes[sym]


def check_amplitudes(chk, spec, basis, key, min_ls=None, coef=None, rename=None, **kw) -> bool:
    decay = build(spec)
    b = builder(decay, min_ls=basis if min_ls is None else min_ls)
    with_dynamics(decay, spec, b)
    model = b.formulate(**kw)
    ctx = Ctx()
    bank = AngleBank(ctx)
    view = ModelView(chk, ctx, model, bank)
    dyn = lambda n: Frac(ctx.complex_gen(f"D_{n}"))  # noqa: E731
    ks = sorted({c["k"] for c in spec.chains})
    for k in ks:
        for lam in product(*[proj(s) for s in spec.spins]):
            what = f"amplitude of subsystem {k}, helicities {tuple(map(str, lam))}, of {spec}"
            e = amp_expr(chk, model, k, lam, key, what)
            if e is None:
                return False
            exp = oracle_amplitude(ctx, spec, k, lam, bank, dyn, basis=basis, coef=(lambda *a: coef(ctx, *a)) if coef else None)
            if not compare(chk, view, e, exp, what, key):
                return False
            if not chk.validated and not exp.num.is_zero():
                validate(chk, view, e, exp, what, key)
    chk.count("models", 1)
    return True


def chain_specs(chk):
    """(spins, [chains]) with resonance spins compatible with both vertices."""
    R = sp.Rational
    base = [
        (H, H, 0, 0), (1, 0, 0, 0), (0, 1, 0, H), (1, H, H, 0), (0, H, 0, H), (H, 0, H, 0),
        (H, 0, 0, H), (F32, H, 0, 0), (1, 0, 1, 0), (0, 0, 1, 1), (H, H, 1, 0),
    ]
    if chk.thorough:
        base += [(H, H, H, H), (1, 1, H, H), (2, 0, 0, 0), (2, 1, 0, 0), (H, F32, 0, 0), (H, 0, F32, 1), (1, 0, 0, 1), (0, 0, F32, H), (F32, H, 1, 0), (F52, H, 0, 0), (1, H, 0, F32)]
    from ..geometry import CYC

    for spins in base:
        spins = tuple(R(s) for s in spins)
        for k in (1, 2, 3):
            i, j = CYC[k]
            par = (spins[i] + spins[j]) % 1
            if (spins[0] + spins[k] + par) % 1:
                continue
            top = 3 if chk.thorough else 2
            js = [par + n for n in range(top + 1 if par == 0 else top)]
            yield spins, k, js


def b03(chk) -> None:
    chk.encoded("formulate_subsystem_amplitude", "DalitzPlotDecompositionBuilder.formulate", "_create_scaling_factors", "spin.create_spin_range")
    chk.bound("external spins from the listed configurations, resonance spin up to 5/2 (quick) or 7/2; couplings, dynamics and scattering angle free")
    chk.pmap(b03_item, list(chain_specs(chk)))


def b03_item(chk, item) -> None:
    spins, k, js = item
    for n, (swap, pswap) in enumerate(((False, False), (True, False), (False, True))):
        chains = [dict(k=k, j=j, name=f"R{j}".replace("/", "_"), swap=swap, pswap=pswap) for j in js]
        spec = Spec(spins, chains, dress=(3, 1, 2)[n])
        if not check_amplitudes(chk, spec, (True, True), f"amp:{','.join(map(str, spins))}:{k}", min_ls=True):
            return


def ls_values(J, s1, s2, lmax):
    """All (L, S) that couple s1 x s2 x L to J."""
    J, s1, s2 = map(sp.Rational, (J, s1, s2))
    S = abs(s1 - s2)
    while S <= s1 + s2:
        for L in range(lmax + 1):
            if abs(L - S) <= J <= L + S and (L + S - J).q == 1:
                yield (L, S)
        S += 1


def b04(chk) -> None:
    chk.encoded("formulate_subsystem_amplitude", "_formulate_clebsch_gordan_factors", "_create_scaling_factors", "DalitzPlotDecompositionBuilder.formulate")
    chk.bound("as the helicity basis, with every (L, S) up to L = 3 (quick: one resonance spin per structure) at either vertex; couplings, dynamics and angle free")
    items = []
    for spins, k, js in chain_specs(chk):
        for j in js[: None if chk.thorough else 2]:
            for basis in ((False, False), (True, False), (False, True)):
                items.append((spins, k, j, basis))
    chk.pmap(b04_item, items)


def b04_item(chk, item) -> None:
    from ..geometry import CYC

    spins, k, jr, basis = item
    i, j = CYC[k]
    prods = list(ls_values(spins[0], jr, spins[k], 3))
    decs = list(ls_values(jr, spins[i], spins[j], 3))
    n = max(len(prods), len(decs))
    if not prods or not decs:
        return
    for m in range(n):
        ls = (prods[m % len(prods)], decs[(m + m // len(decs)) % len(decs)] if len(decs) > 1 else decs[0])
        swap, pswap = m % 2 == 1, m % 3 == 1
        spec = Spec(spins, [dict(k=k, j=jr, name="R", ls=ls, swap=swap, pswap=pswap)], dress=(m + len(str(basis)) + 3) % DRESSES)
        key = f"ls:{','.join(map(str, spins))}:{k}:{jr}:{basis}"
        if not check_amplitudes(chk, spec, basis, key):
            return


# ------------------------------------------------------------------ B05
def rich_spec():
    """Small decay with chains in all three subsystems, LS at both vertices, (L, S) valid."""
    return Spec(
        (H, H, 0, 0),
        [
            dict(k=1, j=1, name="V", latex="V", ls=((0, H), (1, 0))),
            dict(k=1, j=0, name="S", latex="S", ls=((0, H), (0, 0))),
            dict(k=2, j=F32, name="N", latex="N^*", ls=((1, F32), (1, H))),
            dict(k=3, j=H, name="L", latex=R"\Lambda", ls=((0, H), (0, H)), swap=True),
        ],
    )


def specs_symbolic():
    from ..geometry import CYC

    out = [rich_spec()]
    out.append(Spec((1, H, H, 0), [
        dict(k=1, j=H, name="A", ls=((0, 1), (0, H))),
        dict(k=2, j=F32, name="B", ls=((0, 1), (1, H)), pswap=True),
    ]))
    out.append(Spec((0, 1, 0, 1), [
        dict(k=1, j=1, name="A", ls=((0, 0), (0, 1))), dict(k=3, j=1, name="C", ls=((1, 1), (0, 1))),
    ]))
    out.append(Spec((1, 0, 0, 0), [dict(k=k, j=1, name=f"R{k}", ls=((1, 1), (1, 0))) for k in (1, 2, 3)]))
    del CYC
    return out


def b05(chk) -> None:
    """The returned model is closed and its defaults carry the particles' own values."""
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    chk.encoded("DalitzPlotDecompositionBuilder.formulate", "create_mass_symbol_mapping", "formulate_invariants", "dynamics.builder.BreitWignerBuilder", "formulate_subsystem_amplitude")
    chk.bound("four decay structures x all couplings bases x dynamics options; all masses and widths are arbitrary positive reals (symbolic)")
    for n, spec in enumerate(specs_symbolic()):
        for min_ls in (True, False, (True, False), (False, True)):
            for coef in (False, True):
                for dyn in (None, (True, True, True), (False, False, False)):
                    if not chk.thorough and coef and dyn == (False, False, False):
                        continue
                    closed_model(chk, n, spec, min_ls, coef, dyn, BreitWignerBuilder)
                    if chk.full:
                        return
    # coinciding values: massless particles, zero widths, equal masses
    chk.bound("also with every single mass or width zero, all final-state masses equal, all resonance masses equal")
    for n, spec in enumerate(specs_symbolic()[: None if chk.thorough else 2]):
        special = [frozenset({f"mass{i}"}) for i in range(4)] + [frozenset({"mass1", "mass2", "mass3"})]
        special += [frozenset({f"{q}R{i}"}) for i in range(len(spec.chains)) for q in ("mass", "width")]
        cases = [{x: 0 for x in s} for s in special] + [{f"mass{i}": "same" for i in (1, 2, 3)}, {f"massR{i}": "same" for i in range(len(spec.chains))}]
        for m, case in enumerate(cases):
            closed_model(chk, n, spec, False, False, (None, (True, True, True), (False, False, False))[m % 3], BreitWignerBuilder, case)
            closed_model(chk, n, spec, False, False, (None, (True, True, True), (False, False, False))[(m + 1) % 3], BreitWignerBuilder, case)
            if chk.full:
                return


def closed_model(chk, n, spec, min_ls, coef, dyn, BreitWignerBuilder, case=None) -> None:
    from ..env import z3

    case = case or {}

    def value(key, name):
        v = case.get(key)
        return sp.S.Zero if v == 0 and key in case else sp.Symbol(name if v is None else "M_same", positive=True)

    sym = {f"mass{i}": value(f"mass{i}", f"M{i}") for i in range(4)}
    for i, c in enumerate(spec.chains):
        c["mass"] = sym[f"massR{i}"] = value(f"massR{i}", f"MR{i}")
        c["width"] = sym[f"widthR{i}"] = value(f"widthR{i}", f"WR{i}")
    spec.masses = tuple(sym[f"mass{i}"] for i in range(4))
    order = [(0, 1, 2, 3), (3, 1, 0, 2), (2, 0, 3, 1)][(n + len(str(min_ls))) % 3]
    decay = build(spec, order=order)
    b = builder(decay, min_ls=min_ls)
    if dyn is not None:
        for ch in decay.chains:
            b.dynamics_choices.register_builder(ch, BreitWignerBuilder(*dyn))
    m = b.formulate(reference_subsystem=spec.chains[0]["k"], use_coefficients=coef)
    key = f"closed:{n}"
    what = f"model of {spec} (min_ls={min_ls}, coefficients={coef}, dynamics={dyn}{', ' + str(case) if case else ''})"
    inv = {sp.Symbol(f"sigma{i}", nonnegative=True) for i in (1, 2, 3)}
    z = {s: z3.RealVal(0) if s == 0 else z3.Real(str(s)) for s in sym.values()}
    exp = {sp.Symbol(f"m{i}", nonnegative=True): sym[f"mass{i}"] for i in range(4)}
    optional = {}
    for i, c in enumerate(spec.chains):
        optional[sp.Symbol(f"m_{{{c['latex']}}}", nonnegative=True)] = sym[f"massR{i}"]
        optional[sp.Symbol(Rf"\Gamma_{{{c['latex']}}}", nonnegative=True)] = sym[f"widthR{i}"]
    # 1. values: an arbitrary positive mass of the particle is the value of its symbol
    pos = [v > 0 for s, v in z.items() if s != 0]
    chk.reachable(pos, what)
    for name, table in (("parameter default", m.parameter_defaults), ("mass", m.masses)):
        want = dict(exp)
        if name == "parameter default":
            want |= {k: v for k, v in optional.items() if k in table}
        for s, v in want.items():
            got = table.get(s)
            if got is None:
                chk.violation(key, f"{what}: no {name} for {s}", {"symbols": [str(x) for x in table]}, True)
                return
            g = z.get(got) if isinstance(got, sp.Basic) else z3.RealVal(str(got))
            if g is None:
                chk.violation(key, f"{what}: {name} of {s} is {got}, expected {v}", {}, True)
                return
            model = chk.prove(pos, g == z[v], f"{what}: {name} of {s} equals the particle's value")
            if model is not None:
                chk.violation(key, f"{what}: {name} of {s} is the value {got} of another particle instead of {v}", {}, True)
                return
    # 2. closure: two valuations that agree on the listed symbols give the same model
    free = set()
    for e in [m.intensity, *m.amplitudes.values(), *m.variables.values(), *m.invariants.values()]:
        free |= e.free_symbols | {x for x in e.atoms(sp.Indexed)}
    free = {s for s in free if not isinstance(s, sp.IndexedBase)}
    labels = set()
    for s in list(free):
        if isinstance(s, sp.Indexed):
            labels |= s.base.free_symbols | {s.base.label}
            for x in s.indices:
                labels |= x.free_symbols
    used = _used_symbols(m)
    known = set(m.parameter_defaults) | inv | set(m.variables)
    v1 = {s: z3.Real(f"a!{s}") for s in used}
    v2 = {s: z3.Real(f"b!{s}") for s in used}
    agree = [v1[s] == v2[s] for s in used if s in known]
    model = chk.prove(agree, z3.And([v1[s] == v2[s] for s in used] or [z3.BoolVal(True)]), f"{what}: every quantity it depends on is a parameter, an invariant or a defined angle")
    if model is not None:
        bad = [str(s) for s in used if s not in known]
        chk.violation(key, f"{what} depends on undeclared symbols {bad[:5]}", {"undeclared": bad}, True)
        return
    for s, e in m.variables.items():
        extra = sp.sympify(e).free_symbols - set(m.parameter_defaults) - inv
        if extra:
            chk.violation(key, f"{what}: angle {s} depends on {extra}", {}, True)
            return
    if set(m.invariants) != inv:
        chk.violation(key, f"{what}: invariants are {list(m.invariants)}", {}, True)
    chk.count("models", 1)


def _used_symbols(m):
    """Symbols on which the fully evaluated model depends (amplitude symbols resolved)."""
    todo, seen = [m.intensity], set()
    out = set()
    while todo:
        e = todo.pop()
        if isinstance(e, sp.Indexed):
            if e in seen:
                continue
            seen.add(e)
            if e in m.amplitudes:
                todo.append(m.amplitudes[e])
            else:
                out.add(e)
            continue
        if isinstance(e, sp.Symbol):
            out.add(e)
            continue
        if type(e).__name__ == "PoolSum":
            todo.append(e.evaluate())
            continue
        if isinstance(e, sp.KroneckerDelta) or (not e.args):
            continue
        if isinstance(e, sp.Mul) and any(getattr(a, "is_zero", False) for a in e.args):
            continue
        if isinstance(e, sp.Mul) and any(isinstance(a, sp.KroneckerDelta) and a.doit() == 0 for a in e.args):
            continue
        if hasattr(e, "evaluate") and not isinstance(e, (sp.Add, sp.Mul, sp.Pow)):
            todo.extend(a for a in e.args)
            continue
        todo.extend(e.args)
    return out


# ------------------------------------------------------------------ B06
def b06(chk) -> None:
    chk.encoded("DalitzPlotDecompositionBuilder.__init__/formulate", "formulate_subsystem_amplitude", "_create_scaling_factors", "PoolSum.cleanup (as used)")
    chk.bound("decay structures as listed; every combination of options; couplings, dynamics, angles free")
    specs = specs_symbolic()
    items = [(n, opt) for n in range(len(specs)) for opt in ("cleanup", "all", "coef", "minls", "clean_sub")]
    chk.pmap(b06_item, items)


def coefficient(ctx, c, pa, da, basis):
    """Value of the per-chain coefficient: product of the two couplings it replaces."""
    return coupling(ctx, "production", c["latex"], *pa, ls=not basis[0]) * coupling(ctx, "decay", c["latex"], *da, ls=not basis[1])


def b06_item(chk, item) -> None:
    n, opt = item
    spec = specs_symbolic()[n]
    key = f"option:{opt}:{n}"
    ks = sorted({c["k"] for c in spec.chains})
    for basis in ((True, True), (False, False), (True, False), (False, True)):
        decay = build(spec)
        b = builder(decay, min_ls=basis)
        with_dynamics(decay, spec, b)
        m0 = b.formulate(reference_subsystem=ks[0])
        if opt == "cleanup":
            m1 = b.formulate(reference_subsystem=ks[0], cleanup_summations=True)
            same_intensity(chk, spec, m0, m1, "cleanup_summations", key)
            same_amplitudes(chk, spec, m0, m1, "cleanup_summations", key)
        elif opt == "all":
            b1 = builder(decay, min_ls=basis, all_subsystems=True)
            with_dynamics(decay, spec, b1)
            m1 = b1.formulate(reference_subsystem=ks[0])
            same_intensity(chk, spec, m0, m1, "all_subsystems", key)
            same_amplitudes(chk, spec, m0, m1, "all_subsystems", key)
        elif opt == "minls":
            if basis[0] != basis[1]:
                continue
            b1 = builder(decay, min_ls=basis[0])
            with_dynamics(decay, spec, b1)
            m1 = b1.formulate(reference_subsystem=ks[0])
            same_intensity(chk, spec, m0, m1, "min_ls given as bool or as pair", key)
            same_amplitudes(chk, spec, m0, m1, "min_ls given as bool or as pair", key)
        elif opt == "coef":
            m1 = b.formulate(reference_subsystem=ks[0], use_coefficients=True)
            same_amplitudes(chk, spec, m0, m1, "one coefficient per chain", key, basis=basis)
            same_intensity(chk, spec, m0, m1, "one coefficient per chain", key)
        elif opt == "clean_sub":
            # the best-subsystem default only picks a reference
            m1 = b.formulate()
            if ks != [1]:
                for lam in product(*[proj(s) for s in spec.spins]):
                    pass
            same_amplitudes(chk, spec, m0, m1, "default reference subsystem", key)
        if chk.full:
            return


def same_intensity(chk, spec, m0, m1, opt, key) -> None:
    ctx = Ctx()
    bank = AngleBank(ctx)
    v0 = ModelView(chk, ctx, m0, bank, opaque_amplitudes=True)
    v1 = ModelView(chk, ctx, m1, bank, opaque_amplitudes=True)
    what = f"option {opt} leaves the intensity of {spec} unchanged"
    differ(chk, ctx, (v0, m0.intensity), (v1, m1.intensity), what, key)


def differ(chk, ctx, one, two, what, key) -> bool:
    (v0, e0), (v1, e1) = one, two
    model = chk.equal(ctx, v0(e0), v1(e1), what)
    if model is None:
        return False
    for g in (gen_values(ctx, model), random_values(ctx, random.Random(chk.seed))):
        try:
            a, c = real_value(v0, e0, g), real_value(v1, e1, g)
        except Undefined as left:
            chk.violation(key, f"{what}: it depends on {left}, without definition", {}, True)
            return True
        if abs(a - c) > 1e-7 * max(1, abs(a), abs(c)):
            chk.violation(key, what, {"first": str(a), "second": str(c)}, True)
            return True
    chk.violation(key, what, {}, False)
    return True


def same_amplitudes(chk, spec, m0, m1, opt, key, basis=None) -> None:
    ctx = Ctx()
    bank = AngleBank(ctx)
    v0 = ModelView(chk, ctx, m0, bank)
    v1 = ModelView(chk, ctx, m1, bank)
    if basis is not None:
        v1.alias = lambda s: _coef_alias(ctx, spec, s, basis)
    a0 = {amp_key(a): e for a, e in m0.amplitudes.items()}
    a1 = {amp_key(a): e for a, e in m1.amplitudes.items()}
    for ak in sorted(set(a0) | set(a1), key=str):
        what = f"option {opt}: amplitude {ak[0]}{list(map(str, ak[1]))} of {spec} is unchanged"
        if differ(chk, ctx, (v0, a0.get(ak, sp.S.Zero)), (v1, a1.get(ak, sp.S.Zero)), what, key):
            return


def _coef_alias(ctx, spec, s, basis):
    if not isinstance(s, sp.Indexed) or len(s.indices) != 4:
        return None
    label = str(s.base.label)
    for c in sorted(spec.chains, key=lambda c: -len(c["latex"])):
        if label.endswith(c["latex"] + "}"):
            return coefficient(ctx, c, s.indices[:2], s.indices[2:], basis)
    return None


# ------------------------------------------------------------------ B08
def b08(chk) -> None:
    """Superposition and independence of the order of the chains."""
    chk.encoded("DalitzPlotDecompositionBuilder.formulate", "formulate_subsystem_amplitude", "ThreeBodyDecay.get_subsystem")
    chk.bound("decay structures as listed, chain order: identity, reversed, rotated; couplings, dynamics, angles free")
    n = len(superposition_specs())
    chk.pmap(b08_item, [(n, basis, dyn) for n in range(n) for basis in ((True, True), (False, False)) for dyn in ("own", "none", "shared")])


def superposition_specs():
    """As the others, and resonances that appear in several chains (other LS, other subsystem)."""
    R = dict(name="R", latex="R")
    return [
        *specs_symbolic(),
        Spec((1, 0, 0, 0), [dict(k=3, j=1, ls=((0, 1), (1, 0)), **R), dict(k=3, j=1, ls=((2, 1), (1, 0)), **R), dict(k=3, j=1, ls=((1, 1), (1, 0)), name="Q", latex="R")]),
        Spec((H, H, 0, 0), [dict(k=1, j=1, ls=((0, H), (1, 0)), **R), dict(k=1, j=1, ls=((1, H), (1, 0)), **R), dict(k=2, j=H, ls=((0, H), (0, H)), **R), dict(k=1, j=0, ls=((0, H), (0, 0)), **R)]),
        Spec((0, 1, 0, 0), [dict(k=3, j=1, name=x, latex="R", ls=((1, 1), (0, 1)), mass=2.0) for x in ("R", "Q")] + [dict(k=1, j=1, ls=((1, 1), (1, 0)), **R)]),
        Spec((H, 0, H, 0), [dict(k=1, j=H, ls=((0, H), (0, H)), **R)] * 2 + [dict(k=2, j=0, name="S", ls=((0, H), (0, 0)))]),
        # many chains in one subsystem and a single one in another
        Spec((0, 0, 0, 0), [dict(k=3, j=0, name="Z", ls=((0, 0), (0, 0)))] + [dict(k=2, j=n % 3, name=f"R{n}", ls=((n % 3, n % 3), (n % 3, 0))) for n in range(11)]),
    ]


def b08_item(chk, item) -> None:
    n, basis, dyn = item
    spec = superposition_specs()[n]
    ref = spec.chains[0]["k"]
    full = _model(spec, basis, range(len(spec.chains)), ref, dyn)
    key = f"superposition:{n}:{dyn}"
    ctx = Ctx()
    bank = AngleBank(ctx)
    v = ModelView(chk, ctx, full, bank)
    parts = [_model(spec, basis, [i], spec.chains[i]["k"], dyn) for i in range(len(spec.chains))]
    pv = [ModelView(chk, ctx, p, bank) for p in parts]
    amps = {amp_key(a): e for a, e in full.amplitudes.items()}
    pam = [{amp_key(a): e for a, e in p.amplitudes.items()} for p in parts]
    for ak, e in amps.items():
        what = f"amplitude {ak[0]}{list(map(str, ak[1]))} of {spec} is the sum over its chains"
        tot = ctx.frac(0)
        for w, pa in zip(pv, pam):
            if ak in pa:
                tot = tot + w(pa[ak])
        if not compare(chk, v, e, tot, what, key):
            return
    rng = list(range(len(spec.chains)))
    for order in (rng[::-1], rng[1:] + rng[:1]):
        other = _model(spec, basis, order, ref, dyn)
        c2 = Ctx()
        b2 = AngleBank(c2)
        differ(chk, c2, (ModelView(chk, c2, full, b2, True), full.intensity), (ModelView(chk, c2, other, b2, True), other.intensity),
               f"intensity of {spec} does not depend on the order of the chains", key)
        w = ModelView(chk, ctx, other, bank)
        oa = {amp_key(a): e for a, e in other.amplitudes.items()}
        for ak in sorted(set(amps) | set(oa), key=str):
            if differ(chk, ctx, (v, amps.get(ak, sp.S.Zero)), (w, oa.get(ak, sp.S.Zero)), f"amplitude {ak} of {spec} does not depend on the order of the chains", key):
                return


def _model(spec, basis, order, ref, dyn="own"):
    from ampform_dpd import DefinedExpression
    from ampform_dpd.decay import ThreeBodyDecay

    decay = build(spec)
    sub = ThreeBodyDecay(states=decay.states, chains=tuple(decay.chains[i] for i in order))
    b = builder(sub, min_ls=basis)
    for i in order if dyn != "none" else ():
        s = sp.Symbol(f"D_{decay.chains.index(decay.chains[i])}" if dyn == "own" else "D_all")
        b.dynamics_choices.register_builder(decay.chains[i], lambda _c, s=s: DefinedExpression(s, {s: 1.0}))
    return b.formulate(reference_subsystem=ref)


# ------------------------------------------------------------------ B09 / B10
def b09(chk) -> None:
    """Each chain is multiplied by exactly the dynamics registered for it."""
    chk.encoded("DynamicsConfigurator.register_builder/get_builder", "formulate_subsystem_amplitude", "ThreeBodyDecay.find_chain")
    chk.bound("decays with up to 4 chains, incl. several chains of one resonance (other LS or other subsystem); every subset registered; lineshapes are free symbols")
    R = dict(name="R", latex="R")
    cases = [
        Spec((H, H, 0, 0), [
            dict(k=1, j=1, ls=((0, H), (1, 0)), **R), dict(k=1, j=1, ls=((1, H), (1, 0)), **R), dict(k=1, j=1, ls=((2, F32), (1, 0)), **R),
        ], label="same resonance, several LS"),
        Spec((1, 0, 0, 0), [dict(k=k, j=1, ls=((1, 1), (1, 0)), name="R", latex=f"R") for k in (1, 2)], label="same resonance in two subsystems"),
        Spec((0, 0, 0, 0), [dict(k=k, j=j, ls=((j, j), (j, 0)), name=n, latex=n) for k, j, n in ((1, 0, "N(1440)"), (2, 1, "N(1440)+"), (3, 1, "n(1440)"))], label="names that contain one another"),
        rich_spec(),
    ]
    for spec in cases:
        n = len(spec.chains)
        for mask in range(1 << n):
            for how in ("chain", "name"):
                dynamics_case(chk, spec, mask, how)
                if chk.full:
                    return


def dynamics_case(chk, spec, mask, how) -> None:
    from ampform_dpd import DefinedExpression

    decay = build(spec)
    b = builder(decay, min_ls=False)
    assigned: dict = {}
    for i, ch in enumerate(decay.chains):
        if mask >> i & 1:
            for n, c in enumerate(spec.chains):
                if n == i or (how == "name" and c["name"] == spec.chains[i]["name"]):
                    assigned[n] = i
            old = sp.Symbol("D_old")
            s = sp.Symbol(f"D_{i}")
            ident = ch if how == "chain" else ch.resonance.name
            # a later registration replaces an earlier one
            b.dynamics_choices.register_builder(ident, lambda _c, s=old: DefinedExpression(s, {s: 0.0}))
            b.dynamics_choices.register_builder(ident, lambda _c, s=s: DefinedExpression(s, {s: 1.0}))
    model = b.formulate(reference_subsystem=spec.chains[0]["k"])
    ctx = Ctx()
    bank = AngleBank(ctx)
    view = ModelView(chk, ctx, model, bank)
    dyn = lambda i: Frac(ctx.complex_gen(f"D_{assigned[i]}")) if i in assigned else ctx.frac(1)  # noqa: E731
    for k in sorted({c["k"] for c in spec.chains}):
        for lam in product(*[proj(s) for s in spec.spins]):
            what = f"lineshapes of the chains of {spec.label or spec} (registered by {how}, mask {mask:b}) in amplitude {k}{list(map(str, lam))}"
            e = amp_expr(chk, model, k, lam, "dynamics", what)
            exp = oracle_amplitude(ctx, spec, k, lam, bank, dyn, basis=(False, False))
            if not compare(chk, view, e, exp, what, f"dynamics:{spec.label or 'rich'}"):
                return
    for i in range(len(decay.chains)):
        s = sp.Symbol(f"D_{i}")
        if (s in model.parameter_defaults) != (i in assigned.values()):
            chk.violation("dynamics-params", f"parameters of the lineshape of chain {i} are {'missing' if i in assigned.values() else 'unexpected'}", {"spec": str(spec)}, True)
            return


def b10(chk) -> None:
    """Formulating is a function of decay, options and registered dynamics only."""
    chk.encoded("DalitzPlotDecompositionBuilder.formulate", "DynamicsConfigurator")
    chk.bound("histories of up to 3 earlier formulate/registration calls on the same builder, changed copies of earlier results, and lineshapes composed of parts that several chains and models share; couplings, dynamics, angles free")
    chk.pmap(b10_item, [(n, h) for n in range(len(specs_symbolic())) for h in range(9)])


def shared_dynamics(how):
    """A builder whose parts are created once and used for every chain and model."""
    from ampform_dpd import DefinedExpression

    g = sp.Symbol("g_shared")
    base = DefinedExpression(g, {g: 2.0})

    def make(chain):
        x = sp.Symbol(f"D_{chain.resonance.name}")
        own = DefinedExpression(x, {x: 1.0})
        if how == "constant":
            return base
        if how == "product":
            return base * own
        if how == "pair":
            return base * (x, {x: 1.0})
        if how == "scaled":
            return (base * 3) * own
        return own * base

    return make


def b10_item(chk, item) -> None:
    from ampform_dpd import DefinedExpression

    n, h = item
    spec = specs_symbolic()[n]
    ks = sorted({c["k"] for c in spec.chains})
    key = f"history:{n}:{h}"

    def fresh():
        d = build(spec)
        return d, builder(d, min_ls=(h % 2 == 0))

    if h >= 5:
        shared_history(chk, spec, key, h)
        return
    d0, b0 = fresh()
    with_dynamics(d0, spec, b0)
    m0 = b0.formulate(reference_subsystem=ks[-1])
    d1, b1 = fresh()
    if h == 0:
        b1.formulate(reference_subsystem=ks[0], use_coefficients=True)
        b1.formulate(cleanup_summations=True)
    elif h == 1:
        for ch in d1.chains:
            b1.dynamics_choices.register_builder(ch, lambda _c: DefinedExpression(sp.Symbol("D_tmp"), {sp.Symbol("D_tmp"): 3.0}))
        b1.formulate(reference_subsystem=ks[0])
    elif h == 2:
        other = builder(d1, min_ls=False)
        with_dynamics(d1, spec, other)
        other.formulate(reference_subsystem=ks[0], use_coefficients=True)
        builder(d1, all_subsystems=True).formulate(reference_subsystem=ks[0])
    elif h == 4:  # the owner of an earlier model changes it
        with_dynamics(d1, spec, b1)
        for old in (b1.formulate(reference_subsystem=ks[-1]), b1.formulate_subsystem_amplitude(*[proj(s)[0] for s in spec.spins], ks[0])):
            for table in (old.parameter_defaults, old.variables, old.amplitudes, old.masses, old.invariants):
                for x in list(table):
                    table[x] = sp.Integer(17)
                table[sp.Symbol("extra")] = sp.Integer(3)
    else:
        for k in ks:
            b1.formulate_subsystem_amplitude(*[proj(s)[0] for s in spec.spins], k)
        b1.formulate_aligned_amplitude(*sp.symbols("lambda:4", rational=True), ks[0])
    with_dynamics(d1, spec, b1)
    m1 = b1.formulate(reference_subsystem=ks[-1])
    same_intensity(chk, spec, m0, m1, "an earlier call", key)
    same_amplitudes(chk, spec, m0, m1, "an earlier call", key)
    same_tables(chk, m0, m1, key)


def shared_history(chk, spec, key, h) -> None:
    """A model of the last chain alone, before and after models of the other chains."""
    from ampform_dpd.decay import ThreeBodyDecay

    how = ("product", "constant", "pair", "scaled")[h - 5]
    decay = build(spec)

    def model(make, chains):
        b = builder(ThreeBodyDecay(states=decay.states, chains=tuple(chains)), min_ls=False)
        for ch in chains:
            b.dynamics_choices.register_builder(ch, make)
        return b.formulate()

    make = shared_dynamics(how)
    model(make, decay.chains)
    m1 = model(make, decay.chains[-1:])
    m0 = model(shared_dynamics(how), decay.chains[-1:])
    one = Spec(spec.spins, spec.chains[-1:])
    same_amplitudes(chk, one, m0, m1, f"an earlier call with shared lineshape ({how})", key)
    same_tables(chk, m0, m1, key)


def same_tables(chk, m0, m1, key) -> None:
    for name in ("variables", "masses", "invariants"):
        if getattr(m0, name) != getattr(m1, name):
            chk.violation(key, f"{name} depend on earlier calls", {"first": str(getattr(m0, name))[:300], "second": str(getattr(m1, name))[:300]}, True)
            return
    p0 = {str(k): v for k, v in m0.parameter_defaults.items()}
    p1 = {str(k): v for k, v in m1.parameter_defaults.items()}
    if p0 != p1:
        chk.violation(key, "parameter defaults depend on earlier calls", {"only_one": sorted(set(p0.items()) ^ set(p1.items()))[:6]}, True)
