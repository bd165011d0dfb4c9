"""G01-G03: models deserialised from amplitude-serialisation definitions."""
from __future__ import annotations

import logging
import random
import warnings
from fractions import Fraction
from itertools import product

import sympy as sp

from ..env import z3
from ..geometry import CYC
from ..models import (
    AngleBank,
    H,
    ModelView,
    Spec,
    amp_key,
    cg,
    ls_factor,
    oracle_intensity,
    proj,
    random_values,
    real_value,
    wigner_d,
)
from ..poly import Ctx, Frac
from ..sx import Raised
from .builder import compare, differ, validate
from .discrete import FALSE, TRUE, Inputs, conc, symbolic_check, z2, zint
from .dynamics import Kin, agree

warnings.simplefilter("ignore")
logging.getLogger("ampform_dpd").setLevel(logging.CRITICAL)
PERM = [(1, 2, 3), (1, 3, 2), (2, 1, 3), (2, 3, 1), (3, 1, 2), (3, 2, 1)]


def model_dict(initial, final, chains, functions=(), reference=None, n_dist=1):
    dist = {
        "name": "model", "type": "HadronicUnpolarizedIntensity", "variables": [],
        "decay_description": {
            "kinematics": {"initial_state": initial, "final_state": final},
            "reference_topology": reference or [[1, 2], 3],
            "chains": chains,
            "appendix": {},
        },
    }
    other = {**dist, "name": "other", "decay_description": {**dist["decay_description"], "chains": [], "reference_topology": [[2, 3], 1]}}
    return {"distributions": [dist, other][:n_dist] if n_dist else [], "functions": list(functions), "domains": [], "misc": {}, "parameter_points": []}


def state(i, spin="0", mass=None):
    return {"index": i, "name": f"p{i}", "spin": spin, "mass": 1.0 + i if mass is None else mass}


def chain_def(k, name="R", spin="0", swap=False, pswap=False, vswap=False, tswap=False, weight="1", prod=None, dec=None, fun="f"):
    i, j = CYC[k]
    pair = [j, i] if swap else [i, j]
    outer = [k, pair] if pswap else [pair, k]
    top = [k, [j, i]] if tswap else [[i, j], k]
    vp = {"type": "helicity", "node": outer, "helicities": ("0", "0"), "formfactor": "", **(prod or {})}
    vd = {"type": "helicity", "node": pair, "helicities": ("0", "0"), "formfactor": "", **(dec or {})}
    return {
        "name": name, "propagators": [{"spin": spin, "node": pair, "parametrization": fun}], "weight": weight,
        "vertices": [vd, vp] if vswap else [vp, vd], "topology": top,
    }


# ------------------------------------------------------------------ G01
def half_string(n: int) -> str:
    return str(Fraction(n, 2))


def g01(chk) -> None:
    from ampform_dpd.io.serialization.decay import get_spectator_id, to_decay
    from ampform_dpd.io.serialization.format import get_function_definition

    chk.encoded("serialization.decay.to_decay", "serialization.decay.to_decay_chain", "serialization.decay.get_states", "serialization.decay._to_particle", "serialization.format.get_decay_chains/get_function_definition")
    n = 3 if chk.thorough else 2
    chk.bound(f"(a) one chain: all orders of final-state list, products, production vertex, vertices, topology; spins 0..2; (b) {n} chains over two resonances, three spectators, two spins, both product orders, differing or equal helicities; (c) 0..2 distributions, function tables of four entries with free names")
    tex = lambda s: rf"\mathrm{{{s}}}"  # noqa: E731

    def body(v):
        js = {i: half_string(conc(v[f"j{i}"])) for i in range(4)}
        final = [state(i, js[i]) for i in PERM[conc(v["perm"])]]
        ch = chain_def(conc(v["k"]), "R", half_string(conc(v["jr"])), *[v[x] == 1 for x in ("swap", "pswap", "vswap", "tswap")])
        d = to_decay(model_dict(state(0, js[0]), final, [ch]), **({"to_latex": tex} if v["tex"] == 1 else {}))
        (c,) = d.chains
        st = {i: (s.index, s.name, s.latex, s.mass, s.spin) for i, s in d.states.items()}
        same = c.parent == d.states[0] and all(p == d.states[p.index] for p in (*c.decay_products, c.spectator))
        return st, same, [p.index for p in c.decay_products], c.spectator.index, (c.resonance.name, c.resonance.latex), c.resonance.spin

    def claim(v, res):
        if isinstance(res, Raised):
            return FALSE
        st, same, pair, spec, (name, latex), spin = res
        if sorted(st) != [0, 1, 2, 3] or not same or name != "R":
            return FALSE
        if any(s[:2] != (i, f"p{i}") or s[3] != 1.0 + i for i, s in st.items()):
            return FALSE
        k = zint(v["k"])
        cs = [k == spec, z2(v["jr"]) / 2 == z3.IntVal(int(2 * spin))]
        cs += [zint(v[f"j{i}"]) == z3.IntVal(int(2 * s[4])) for i, s in st.items()]
        lat = [(s[2], s[1]) for s in st.values()] + [(latex, name)]
        cs.append(z3.If(zint(v["tex"]) == 1, z3.BoolVal(all(a == tex(b) for a, b in lat)), z3.BoolVal(all(a == b for a, b in lat))))
        cs.append(z3.Or([z3.And(k == x, zint(v["swap"]) == sw, z3.BoolVal(pair == (list(CYC[x]) if not sw else list(CYC[x])[::-1]))) for x in (1, 2, 3) for sw in (0, 1)]))
        return z3.And(cs)

    flags = {x: (0, 1, 1, int) for x in ("swap", "pswap", "vswap", "tswap", "tex")}
    none = {x: (0, 0, 1, int) for x in flags}
    zero = {f"j{i}": (i, i, 1, int) for i in range(4)}
    spins = {f"j{i}": (0, 2 if i else 3, 1, int) for i in range(4)}
    symbolic_check(chk, Inputs(perm=(0, 5, 1, int), k=(1, 3, 1, int), jr=(1, 1, 1, int), **flags, **zero), body, claim,
                   "states and chain of a definition, in every order of its lists", "to-decay-order")
    symbolic_check(chk, Inputs(perm=(4, 4, 1, int), k=(2, 2, 1, int), jr=(0, 4, 1, int), **none, **spins), body, claim,
                   "spins of a definition", "to-decay-spins")

    def body_many(v):
        chains = [chain_def(conc(v[f"k{t}"]), f"R{conc(v[f'r{t}'])}", half_string(conc(v[f"s{t}"])), v[f"w{t}"] == 1, t == 1, weight=f"{t}+{t}i",
                            prod={"helicities": ("1/2", "0") if v[f"h{t}"] == 1 else ("0", "1/2")}) for t in range(n)]
        d = to_decay(model_dict(state(0), [state(i) for i in (1, 2, 3)], chains))
        return [(c.spectator.index, c.resonance.name, int(2 * c.resonance.spin), [p.index for p in c.decay_products]) for c in d.chains]

    def claim_many(v, res):
        if isinstance(res, Raised):
            return FALSE

        def match(c, t):
            k, name, s2, pair = c
            if sorted([k, *pair]) != [1, 2, 3]:
                return FALSE
            sw = 0 if pair == list(CYC[k]) else 1
            return z3.And(zint(v[f"k{t}"]) == k, zint(v[f"r{t}"]) == int(name[1:]), zint(v[f"s{t}"]) == s2, zint(v[f"w{t}"]) == sw)

        cs = [z3.Sum([z3.If(match(c, t), 1, 0) for c in res]) == 1 for t in range(n)]
        cs += [z3.Or([match(c, t) for t in range(n)]) for c in res]
        return z3.And(cs)

    spec = {}
    for t in range(n):
        spec |= {f"k{t}": (1, 3, 1, int), f"r{t}": (0, 1, 1, int), f"s{t}": (1, 2, 1, int), f"w{t}": (0, 1, 1, int), f"h{t}": (0, 1 if t == 0 else 0, 1, int)}
        if t == 2:
            spec["s2"] = (1, 1, 1, int)
    symbolic_check(chk, Inputs(**spec), body_many, claim_many, "each distinct chain of a definition occurs exactly once", "to-decay-chains")

    def body_table(v):
        names = [f"f{conc(v[f'n{x}'])}" for x in range(4)]
        funs = [{"name": nm, "type": f"T{x}"} for x, nm in enumerate(names)]
        m = model_dict(state(0), [state(i) for i in (1, 2, 3)], [chain_def(1)], funs, n_dist=conc(v["nd"]))
        try:
            f = get_function_definition("f0", m)["type"]
        except KeyError:
            f = None
        return f, [c.spectator.index for c in to_decay(m).chains]

    def claim_table(v, res):
        nd = zint(v["nd"])
        if isinstance(res, Raised):
            return z3.And(nd == 0, z3.BoolVal(isinstance(res.exc, ValueError)))
        f, specs = res
        ns = [zint(v[f"n{x}"]) for x in range(4)]
        first = [z3.And(ns[x] == 0, *[y != 0 for y in ns[:x]]) for x in range(4)]
        ok = z3.And([y != 0 for y in ns]) if f is None else first[int(f[1:])]
        return z3.And(nd >= 1, ok, z3.BoolVal(specs == [1]))

    symbolic_check(chk, Inputs(nd=(0, 2, 1, int), **{f"n{x}": (0, 2, 1, int) for x in range(4)}), body_table, claim_table,
                   "functions are looked up by name, chains belong to the first distribution", "tables")

    def body_top(v):
        a, b, c = (conc(v[x]) for x in "abc")
        t = [[a, [b, c]], [[b, c], a], [[a, b], [c]], [a, b], [a, b, c]][conc(v["shape"])]
        return get_spectator_id(t)

    def claim_top(v, res):
        sh = zint(v["shape"])
        a, b, c = (zint(v[x]) for x in "abc")
        one, distinct = sh <= 1, z3.Distinct(a, b, c)  # with repeated identifiers a topology means nothing
        if isinstance(res, Raised):
            return z3.Or(z3.Not(distinct), z3.And(z3.Not(one), z3.BoolVal(isinstance(res.exc, ValueError))))
        return z3.Or(z3.Not(distinct), z3.And(one, a == res))

    symbolic_check(chk, Inputs(shape=(0, 4, 1, int), a=(1, 3, 1, int), b=(1, 3, 1, int), c=(1, 3, 1, int)), body_top, claim_top,
                   "the spectator of a topology is its single direct final state", "topology")


# ------------------------------------------------------------------ G02
def S(name):
    return sp.Symbol(name, nonnegative=True)


def plain_model(k, functions, swap=False, pswap=False, vswap=False, tswap=False, prod=None, dec=None, extra=()):
    """Four spinless outer states, one spin-0 chain: amplitude = weight x dynamics."""
    mass = {i: sp.Symbol(f"mass_{i}", positive=True) for i in range(4)}
    final = [state(i, "0", mass[i]) for i in ((3, 1, 2) if swap else (1, 2, 3))]
    ch = chain_def(k, "R", "0", swap, pswap, vswap, tswap, "2", prod, dec)
    return model_dict(state(0, "0", mass[0]), final, [ch, *extra], functions, [[1, 2], 3]), mass


def decoys(kind):
    """Functions with other names around the one in use."""
    bw = {"type": "BreitWigner", "mass": 9.0, "width": 8.0, "ma": 7.0, "mb": 6.0, "l": 4, "d": 5.0}
    bl = {"type": "BlattWeisskopf", "radius": 11.0, "l": 3}
    return [{**bw, "name": "f_"}, {**bl, "name": "F"}, {**bw, "name": "g"}, {**bl, "name": "ff"}] if kind else []


def evaluated(expr, params):
    return sp.sympify(expr).xreplace({k: sp.sympify(v) for k, v in params.items()})


def g02(chk) -> None:
    chk.encoded("serialization.dynamics.formulate_breit_wigner", "serialization.dynamics.formulate_multichannel_breit_wigner", "serialization.dynamics.formulate_form_factor", "serialization.dynamics.formulate_dynamics", "serialization.amplitude.formulate (spinless)", "dynamics.BreitWigner/MultichannelBreitWigner")
    top = 4 if chk.thorough else 3
    chk.bound(f"three subsystems, both orders of products and production vertex; L = 0..{top} (multichannel 0..2, two to five channels); every number of the definition (masses, widths, radii, channel masses) an arbitrary positive real; energies above thresholds")
    items = [("bw", k, L, sw) for k in (1, 2, 3) for L in range(top + 1) for sw in (False, True)]
    items += [("ff", k, L, sw) for k in (1, 2, 3) for L in range(top + 1) for sw in (False, True)]
    items += [("multi", k, Ls, k == 2) for k in (1, 2, 3) for Ls in ([(0, 1), (1, 0), (2, 2), (0, 0)] + ([(0, 1, 2), (2, 0, 1), (1, 1, 1), (0, 0, 0, 0), (1, 0, 0, 0, 0)] if k == 3 or chk.thorough else []))]
    items += [("chain", k, n, n % 2 == 1) for k in (1, 2, 3) for n in range(6)]
    items += [("radius", k, n, False) for k in (1, 2, 3) for n in range(4)]
    items += [("errors", 1, 0, False)]
    chk.pmap(g02_item, items)


def g02_item(chk, item) -> None:
    kind, k, L, sw = item
    {"bw": serial_bw, "ff": serial_ff, "multi": serial_multi, "chain": serial_chain, "radius": serial_radius, "errors": serial_errors}[kind](chk, k, L, sw)


def bw_def(tag, L, d=None, name="f", ma=None, mb=None):
    s = {n: sp.Symbol(f"{n}{tag}", positive=True) for n in ("mass", "width", "ma", "mb", "d")}
    return {"name": name, "type": "BreitWigner", "mass": s["mass"], "width": s["width"], "ma": ma or s["ma"], "mb": mb or s["mb"], "l": L, "d": d or s["d"]}


def start(k, masses=()):
    kin = Kin()
    W = kin.energy(S(f"sigma{k}"))
    return kin, W


def take(kin, sym, name=None, mass=False):
    if sym in kin.env:
        g = kin.env[sym]
        return g if isinstance(g, Frac) else Frac(g)
    return kin.pos(sym, name)


def oracle_bw(kin, W, f, k1, tag=""):
    """1/(m^2 - s - i m Gamma(s)) of a definition; k1: momentum generator of (ma, mb)."""
    M0, g, r = take(kin, f["mass"], f"m0{tag}"), take(kin, f["width"]), take(kin, f["d"])
    k0 = kin.channel(M0, take(kin, f["ma"], f"ma{tag}"), take(kin, f["mb"], f"mb{tag}"), f"m0{tag}")
    w = kin.width(W, k1, M0, k0, g, int(f["l"]), r)
    return 1 / (M0 * M0 - W * W - Frac(kin.ctx.I) * M0 * w)


def serial_bw(chk, k, L, sw) -> None:
    from ampform_dpd.io.serialization.dynamics import formulate_breit_wigner, formulate_dynamics

    f = bw_def("", L)
    m, _ = plain_model(k, [*decoys(L % 2), f, *decoys(1)], swap=sw)
    ch = m["distributions"][0]["decay_description"]["chains"][0]
    for how in ("direct", "chain"):
        out = formulate_breit_wigner(ch["propagators"][0], "R", m) if how == "direct" else formulate_dynamics(ch, m)
        kin, W = start(k)
        a, b = take(kin, f["ma"], "ma"), take(kin, f["mb"], "mb")
        k1 = kin.channel(W, a, b, "s")
        exp = oracle_bw(kin, W, f, k1)
        agree(chk, kin, evaluated(out.expression, out.parameters), exp, f"Breit-Wigner of a definition ({how}), subsystem {k}, L={L}, products {'reversed' if sw else 'in order'}", f"serial-bw:{k}:{L}")
    i, j = ch["propagators"][0]["node"]
    for sym, want in ((S(f"m{i}"), f["ma"]), (S(f"m{j}"), f["mb"])):
        got = out.parameters.get(sym)
        if got is None or chk.prove([], z3.Real(str(got)) == z3.Real(str(want)), f"default of {sym}") is not None:
            chk.violation(f"serial-bw:{k}:{L}", f"default of {sym} in a Breit-Wigner definition is {got}, expected {want}", {}, True)
            return


def serial_ff(chk, k, L, sw) -> None:
    from ampform_dpd.io.serialization.dynamics import formulate_form_factor

    r = sp.Symbol("radius", positive=True)
    f = {"name": "F", "type": "BlattWeisskopf", "radius": r, "l": L}
    i, j = CYC[k]
    for pswap in (False, True):
        m, _ = plain_model(k, [{**f, "name": "F0", "radius": 7.0, "l": 1}, f, {**f, "name": "F1", "l": 0}], swap=sw, pswap=pswap, prod={"formfactor": "F"}, dec={"formfactor": "F"})
        vp, vd = m["distributions"][0]["decay_description"]["chains"][0]["vertices"]
        kin, W = start(k)
        a, b = kin.nonneg(S(f"m{i}")), kin.nonneg(S(f"m{j}"))
        out = formulate_form_factor(vd, m)
        exp = kin.ff(W, kin.channel(W, a, b, "s"), L, take(kin, r))
        agree(chk, kin, evaluated(out.expression, out.parameters), exp, f"decay form factor of a definition, subsystem {k}, L={L}", f"serial-ff-decay:{k}:{L}")
        kin, W = start(k)
        T, c = kin.pos(S("m0"), "M"), kin.nonneg(S(f"m{k}"))
        kp = kin.channel(T, W, c, "prod")
        kin.ctx.roots[(W * W).num, kin.ctx.const(1)] = W
        out = formulate_form_factor(vp, m)
        exp = kin.ff(T, kp, L, take(kin, r))
        agree(chk, kin, evaluated(out.expression, out.parameters), exp, f"production form factor of a definition, subsystem {k}, L={L}", f"serial-ff-prod:{k}:{L}")
        if chk.full:
            return


def serial_multi(chk, k, Ls, sw) -> None:
    from ampform_dpd.io.serialization.dynamics import formulate_dynamics, formulate_multichannel_breit_wigner

    ms = sp.Symbol("mass", positive=True)
    chans = [{"gsq": sp.Symbol(f"gsq{n}", positive=True), "ma": sp.Symbol(f"ma{n}", positive=True), "mb": sp.Symbol(f"mb{n}", positive=True), "l": L, "d": sp.Symbol(f"d{n}", positive=True)} for n, L in enumerate(Ls)]
    f = {"name": "f", "type": "MultichannelBreitWigner", "mass": ms, "channels": chans}
    m, _ = plain_model(k, [*decoys(1), f], swap=sw)
    ch = m["distributions"][0]["decay_description"]["chains"][0]
    for how in ("direct", "chain"):
        out = formulate_multichannel_breit_wigner(ch["propagators"][0], "R", m) if how == "direct" else formulate_dynamics(ch, m)
        kin, W = start(k)
        M0 = kin.pos(ms, "m0")
        tot = kin.ctx.frac(0)
        for n, c in enumerate(chans):
            kc = kin.channel(W, kin.pos(c["ma"]), kin.pos(c["mb"]), f"ch{n}")
            tot = tot + kin.pos(c["gsq"]) * M0 / W * kin.ff2(W, kc, Ls[n], kin.pos(c["d"]))
        exp = 1 / (M0 * M0 - W * W - Frac(kin.ctx.I) * M0 * tot)
        agree(chk, kin, evaluated(out.expression, out.parameters), exp, f"multichannel Breit-Wigner of a definition ({how}), subsystem {k}, L={Ls}", f"serial-multi:{k}:{Ls}")


def spinless_amplitude(chk, m, k, n_chain=None):
    from ampform_dpd.io.serialization.amplitude import formulate

    out = formulate(m)
    table = {amp_key(a): e for a, e in out.amplitudes.items()}
    return evaluated(table[k, (0, 0, 0, 0)], out.parameter_defaults)


def chain_oracle(kin, W, k, f, lp, ld, rp, rd, mass, tag=""):
    i, j = CYC[k]
    a, b, c = (take(kin, mass[x]) for x in (i, j, k))
    T = take(kin, mass[0], "M")
    k1 = kin.channel(W, a, b, "s")
    exp = oracle_bw(kin, W, f, k1, tag) * 2
    if ld is not None:
        exp = exp * kin.ff(W, k1, ld, take(kin, rd))
    if lp is not None:
        kp = kin.channel(T, W, c, "prod")
        kin.ctx.roots[(W * W).num, kin.ctx.const(1)] = W
        exp = exp * kin.ff(T, kp, lp, take(kin, rp))
    return exp


def serial_chain(chk, k, n, sw) -> None:
    """Spinless chain of a full model: weight x lineshape x form factors of its vertices."""
    lp, ld = [(None, None), (1, None), (None, 2), (1, 1), (2, 1), (0, 2)][n]
    rd, rp = sp.Symbol("d", positive=True), sp.Symbol("rp", positive=True)
    mass = {i: sp.Symbol(f"mass_{i}", positive=True) for i in range(4)}
    i, j = CYC[k]
    if sw:
        i, j = j, i
    f = bw_def("", [0, 1, 2][n % 3], d=rd, ma=mass[i], mb=mass[j])
    fp = {"name": "FP", "type": "BlattWeisskopf", "radius": rp, "l": lp}
    fd = {"name": "FD", "type": "BlattWeisskopf", "radius": rd, "l": ld}
    m, _ = plain_model(k, [fd, *decoys(1), f, fp], sw, n % 3 == 1, n % 4 == 1, n % 4 == 2, {"formfactor": "FP" if lp is not None else ""}, {"formfactor": "FD" if ld is not None else ""})
    expr = spinless_amplitude(chk, m, k)
    kin, W = start(k)
    for x, nm in zip(mass.values(), ("M", "m1", "m2", "m3")):
        take(kin, x, nm)
    exp = chain_oracle(kin, W, k, f, lp, ld, rp, rd, mass)
    agree(chk, kin, expr, exp, f"amplitude of a spinless chain of a definition, subsystem {k}, L_prod={lp}, L_dec={ld}", f"serial-chain:{k}:{n}")


def serial_radius(chk, k, n, sw) -> None:
    """Functions of one definition with different radii keep their own (known: they do not)."""
    d, rd, rp, d2, rp2 = (sp.Symbol(x, positive=True) for x in ("d", "rd", "rp", "d_2", "rp_2"))
    mass = {i: sp.Symbol(f"mass_{i}", positive=True) for i in range(4)}
    i, j = CYC[k]
    f = bw_def("", 1, d=d, ma=mass[i], mb=mass[j])
    fp = {"name": "FP", "type": "BlattWeisskopf", "radius": rp, "l": 1}
    fd = {"name": "FD", "type": "BlattWeisskopf", "radius": rd, "l": 1}
    k2 = k % 3 + 1
    i2, j2 = CYC[k2]
    f2 = {**bw_def("2", 1, d=d2, name="f2", ma=mass[i2], mb=mass[j2])}
    fp2 = {"name": "FP2", "type": "BlattWeisskopf", "radius": rp2, "l": 1}
    kin, W = start(k)
    for x, nm in zip(mass.values(), ("M", "m1", "m2", "m3")):
        take(kin, x, nm)
    txt = ("functions of a definition share one radius parameter: ", "the last one read is used for all of them")
    if n == 0:  # lineshape and form factor of one chain
        m, _ = plain_model(k, [f, fd], dec={"formfactor": "FD"})
        exp = chain_oracle(kin, W, k, f, None, 1, None, rd, mass)
        other = chain_oracle(kin, W, k, {**f, "d": rd}, None, 1, None, rd, mass)
        key, what = "serial-shared-radius:chain", "lineshape and decay form factor of one chain with different radii"
    elif n == 1:  # lineshapes of two chains
        m, _ = plain_model(k, [f, f2], extra=[chain_def(k2, "R2", weight="1", fun="f2")])
        exp = chain_oracle(kin, W, k, f, None, None, None, None, mass)
        other = chain_oracle(kin, W, k, {**f, "d": d2}, None, None, None, None, mass)
        key, what = "serial-shared-radius:lineshapes", "lineshapes of two chains with different radii"
    elif n == 3:  # one name, two functions
        m, _ = plain_model(k, [f, {**f2, "d": d}], extra=[chain_def(k2, "R", weight="1", fun="f2")])
        exp = chain_oracle(kin, W, k, f, None, None, None, None, mass)
        other = chain_oracle(kin, W, k, {**f, "mass": f2["mass"], "width": f2["width"]}, None, None, None, None, mass, "_2")
        key, what = "serial-shared-name", "chains of one name with different lineshape functions"
        txt = ("functions of a definition share mass and width parameters: ", "the last one read is used for all of them")
    else:  # production form factors of two chains
        m, _ = plain_model(k, [f, {**f2, "d": d}, fp, fp2], prod={"formfactor": "FP"}, extra=[chain_def(k2, "R2", weight="1", fun="f2", prod={"formfactor": "FP2"})])
        exp = chain_oracle(kin, W, k, f, 1, None, rp, None, mass)
        other = chain_oracle(kin, W, k, f, 1, None, rp2, None, mass)
        key, what = "serial-shared-radius:production", "production form factors of two chains with different radii"
    expr = spinless_amplitude(chk, m, k)
    for x in (d, rd, rp, d2, rp2, f2["mass"], f2["width"]):
        if x in expr.free_symbols:
            take(kin, x)
    agree(chk, kin, expr, exp, f"{what}, subsystem {k}", f"serial-radius:{k}:{n}", {key: (other, f"{txt[0]}{what}: {txt[1]}")})


def serial_errors(chk, *_a) -> None:
    """Unknown function types are refused, builders given by the user are used."""
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization.dynamics import formulate_dynamics, formulate_form_factor

    def body(v):
        t = ["BreitWigner", "MultichannelBreitWigner", "Custom", "BreitWignerWidthExpLikeBugg", "BlattWeisskopf"][conc(v["type"])]
        f = {**bw_def("", 1), "type": t, "channels": [{"gsq": 1, "ma": 1, "mb": 1, "l": 0, "d": 1}] * conc(v["n"]), "radius": 1}
        m, _ = plain_model(1, [f], dec={"formfactor": "f"})
        ch = m["distributions"][0]["decay_description"]["chains"][0]
        if v["ff"] == 1:
            return formulate_form_factor(ch["vertices"][1], m)
        own = lambda propagator, resonance, model: DefinedExpression(sp.Symbol(f"own_{propagator['parametrization']}_{resonance}"), {})  # noqa: E731, ARG005
        return formulate_dynamics(ch, m, additional_definitions={"Custom": own} if v["add"] == 1 else None)

    def claim(v, res):
        t, ff, add = zint(v["type"]), zint(v["ff"]) == 1, zint(v["add"]) == 1
        ok = z3.Or(z3.And(ff, t == 4), z3.And(z3.Not(ff), z3.Or(t == 0, z3.And(t == 1, zint(v["n"]) >= 2), z3.And(t == 2, add))))
        if isinstance(res, Raised):
            return z3.And(z3.Not(ok), z3.BoolVal(isinstance(res.exc, NotImplementedError)))
        own = res.expression == sp.Symbol("own_f_R")
        return z3.And(ok, z3.BoolVal(own) == z3.And(z3.Not(ff), t == 2))

    symbolic_check(chk, Inputs(type=(0, 4, 1, int), n=(0, 3, 1, int), ff=(0, 1, 1, int), add=(0, 1, 1, int)), body, claim,
                   "function types without implementation are refused, user-defined ones are used", "serial-types")


# ------------------------------------------------------------------ G03
def g03(chk) -> None:
    chk.encoded("serialization.amplitude.formulate", "serialization.amplitude.formulate_chain_amplitude", "serialization.amplitude.formulate_recoupling", "serialization.amplitude.formulate_aligned_amplitude", "serialization.amplitude._get_weight", "angles.formulate_scattering_angle (all six pairs)")
    chk.bound("listed outer spins, resonance spin up to 5/2; one chain per stated helicity combination; helicity, parity (+, -, none) and LS vertices in all combinations; all orders of products, vertices, production vertex; weights, dynamics and angles free")
    R = sp.Rational
    cases = [(H, H, 0, 0), (1, H, H, 0), (0, 1, 0, H), (H, 0, H, 1)]
    if chk.thorough:
        cases += [(1, 1, 0, 0), (H, 0, 0, H), (R(3, 2), H, 0, 0), (1, H, 0, H), (0, H, H, 1)]
    items = []
    for spins in cases:
        for k in (1, 2, 3):
            i, j = CYC[k]
            par = (R(spins[i]) + spins[j]) % 1
            if (R(spins[0]) + spins[k] + par) % 1:
                continue
            for n, (tp, td) in enumerate(product(("helicity", "parity", "ls"), repeat=2)):
                for o in range(4 if chk.thorough else 2):
                    items.append(("amp", tuple(map(R, spins)), k, par + (n + o) % (3 if max(spins) < 1 else 2), tp, td, 5 * n + 3 * k + 7 * o))
    for spins in [(H, H, 0, 0), (1, 0, 0, 0), (0, 1, 0, H)] + ([(1, H, H, 0), (H, 0, H, 0)] if chk.thorough else []):
        for ks in [(1, 2), (2, 3), (1, 3), (1,), (2,), (3,), (1, 2, 3)]:
            for ref in (1, 2, 3):
                if max(spins) > H and len(ks) > 2:
                    continue
                items.append(("intensity", tuple(map(R, spins)), ks, ref))
    items = [("names", n) for n in ((3, 2) if chk.thorough else (2,))] + [("weights",), *items]
    chk.pmap(g03_item, items)


def serial_names(chk, N) -> None:
    """Chains may share names, stated helicities and subsystems; each keeps its own weight."""
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization.amplitude import formulate

    HEL = [("1/2", "0", "0", "1/2"), ("-1/2", "0", "0", "-1/2")]
    chk.bound(f"{N} chains of particles with J = (1/2, 1/2, 0, 0), each with any subsystem, one of two names, stated helicities and (L, S) at the production vertex, helicity or LS vertex")

    def chain(v, n):
        k, name, h, ls, typ = (conc(v[f"{x}{n}"]) for x in ("k", "r", "h", "ls", "t"))
        hel = HEL[h][0]
        i, j = CYC[k]
        prod = {"helicities": ("0", hel) if k == 1 else (hel, "0")}
        dec = {"helicities": tuple("0" if x != 1 else hel for x in (i, j))}
        if typ:
            prod |= {"type": "ls", "l": str(ls), "s": "1/2"}
        return chain_def(k, f"R{name}", "0" if k == 1 else "1/2", weight=f"{n + 2} + {n + 1}.5i", prod=prod, dec=dec, fun=f"f{n}")

    def own(propagator, resonance, model):  # noqa: ARG001
        D = sp.Symbol("D_" + propagator["parametrization"][1:])
        return DefinedExpression(D, {D: 1.0})

    def body(v):
        m = model_dict(state(0, "1/2"), [state(1, "1/2"), state(2), state(3)], [chain(v, n) for n in range(N)], [{"name": f"f{n}", "type": "Opaque"} for n in range(N)])
        model = formulate(m, additional_builders={"Opaque": own})
        out = []
        for n in range(N):
            D = sp.Symbol(f"D_{n}")
            factors = {f for e in model.amplitudes.values() for t in sp.Add.make_args(e) if D in t.free_symbols for f in sp.Mul.make_args(t) if f.is_Symbol and f != D}
            out.append([complex(model.parameter_defaults[f]) for f in factors])
        return out

    def claim(v, res):
        return FALSE if isinstance(res, Raised) else z3.BoolVal([[complex(n + 2, n + 1.5)] for n in range(N)] == res)

    rng = dict(k=(1, 3), r=(0, 1), h=(0, 1), ls=(0, 1), t=(0, 1))
    if N == 3:
        rng["ls"] = (0, 0)
    spec = {f"{x}{n}": (*lim, 1, int) for n in range(N) for x, lim in rng.items()}
    if N == 3:
        spec["t0"] = spec["t2"] = (0, 0, 1, int)
    symbolic_check(chk, Inputs(**spec), body, claim, "every chain of a definition is multiplied by its own weight", f"serial-names:{N}")


NUMBERS = ["0", "1", "-1", "0.5", "1e-3", "-2.5e-7", "3e-10", "1e-17", "0.1", "0.30000000000000004", "-123456.7890123", "1.5e12", "7E+2", ".25"]


def serial_weights(chk) -> None:
    """Weights are complex numbers in text form, taken over exactly."""
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization.amplitude import formulate

    top = len(NUMBERS) - 1
    chk.bound(f"weights with real and imaginary part of {top + 1} magnitudes (1e-17 to 1.5e12, up to 17 digits), with and without spaces, with or without imaginary part")
    own = lambda propagator, resonance, model: DefinedExpression(sp.Symbol("D"), {sp.Symbol("D"): 1.0})  # noqa: E731, ARG005

    def text(a, b, form):
        x, y = NUMBERS[a], NUMBERS[b]
        if form == 2:
            return x
        if form == 3:
            return y + "i"
        sign, y = ("-", y[1:]) if y[0] == "-" else ("+", y)
        gap = " " if form == 1 else ""
        return f"{x}{gap}{sign}{gap}{y}i"

    def body(v):
        w = text(conc(v["a"]), conc(v["b"]), conc(v["form"]))
        m = model_dict(state(0), [state(i) for i in (1, 2, 3)], [chain_def(1, weight=w)], [{"name": "f", "type": "Opaque"}])
        model = formulate(m, additional_builders={"Opaque": own})
        return [complex(x) for s, x in model.parameter_defaults.items() if str(s).startswith("c^")]

    def claim(v, res):
        if isinstance(res, Raised) or len(res) != 1:
            return FALSE
        a, b, form = zint(v["a"]), zint(v["b"]), zint(v["form"])
        re = [z3.RealVal(str(Fraction(float(x)))) for x in NUMBERS]
        pick = lambda i: z3.Sum([z3.If(i == n, r, 0) for n, r in enumerate(re)])  # noqa: E731
        want_re, want_im = z3.If(form == 3, 0, pick(a)), z3.If(form == 2, 0, pick(b))
        got = [z3.RealVal(str(Fraction(x))) for x in (res[0].real, res[0].imag)]
        return z3.And(want_re == got[0], want_im == got[1])

    symbolic_check(chk, Inputs(a=(0, top, 1, int), b=(0, top, 1, int), form=(0, 3, 1, int)), body, claim,
                   "weights of a definition are taken over exactly", "serial-weights")


def g03_item(chk, item) -> None:
    if item[0] == "amp":
        serial_amplitude(chk, *item[1:])
    elif item[0] == "names":
        serial_names(chk, item[1])
    elif item[0] == "weights":
        serial_weights(chk)
    else:
        serial_intensity(chk, *item[1:])


def frac_str(x):
    return str(sp.Rational(x))


def serial_amplitude(chk, spins, k, jr, tp, td, seed) -> None:
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization.amplitude import formulate

    rng = random.Random(seed)
    swap, pswap, vswap, tswap = (bool(seed >> b & 1) for b in range(4))
    i, j = CYC[k]
    a, b = (j, i) if swap else (i, j)
    chains, meta = [], []
    stated = [(lr, lk, la, lb) for lr in proj(jr) for lk in proj(spins[k]) for la in proj(spins[a]) for lb in proj(spins[b]) if abs(la - lb) <= jr]
    stated = [h for h in stated if abs(h[0] - h[1]) <= spins[0]]
    rng.shuffle(stated)
    lsp = [x for x in _ls(spins[0], jr, spins[k])]
    lsd = [x for x in _ls(jr, spins[a], spins[b])]
    fs = ["+", "-", "", " - "]
    for n, (lr, lk, la, lb) in enumerate(stated[: 6 if chk.thorough else 4]):
        hp = [frac_str(lr), frac_str(lk)]
        if pswap:
            hp = hp[::-1]
        prod = {"type": tp, "helicities": hp}
        dec = {"type": td, "helicities": [frac_str(la), frac_str(lb)]}
        c = dict(lr=lr, lk=lk, la=la, lb=lb)
        for nm, t, vert, ls in (("p", tp, prod, lsp), ("d", td, dec, lsd)):
            if t == "parity":
                f = fs[(n + seed) % 4]
                vert["parity_factor"] = f
                c["f" + nm] = {"+": 1, "-": -1, "": 0}[f.strip()]
            if t == "ls":
                L, SS = ls[(n + seed) % len(ls)]
                vert["l"], vert["s"] = (str(L), frac_str(SS)) if n % 2 else (L, frac_str(SS))
                c["ls" + nm] = (L, SS)
        w = [f"{n + 1} + {n + 2}.5i", f"-{n + 1}.25-{n + 1}i", f"{n + 10}.5"][n % 3]
        c["w"] = [complex(n + 1, n + 2.5), complex(-n - 1.25, -n - 1), complex(n + 10.5)][n % 3]
        name = "R" if seed % 2 else f"R{n}"  # usually one chain per helicity of the resonance
        chains.append(chain_def(k, name, frac_str(jr), swap, pswap, vswap, tswap, w, prod, dec, fun=f"f{n}"))
        meta.append(c)
    if not chains:
        return
    final = [state(x, frac_str(spins[x])) for x in PERM[seed % 6]]
    funs = [{"name": f"f{n}", "type": "Opaque"} for n in range(len(chains))]
    m = model_dict(state(0, frac_str(spins[0])), final, chains, funs, [k, [j, i]])
    own = lambda propagator, resonance, model: DefinedExpression(sp.Symbol("D_" + propagator["parametrization"][1:]), {sp.Symbol("D_" + propagator["parametrization"][1:]): 1.0})  # noqa: E731, ARG005
    model = formulate(m, additional_builders={"Opaque": own})
    what0 = f"definition with J=({','.join(map(str, spins))}), isobar J={jr} in subsystem {k}, vertices {tp}/{td}, product order {a}{b}"
    key = f"serial-amp:{','.join(map(str, spins))}:{k}:{tp}:{td}"
    weights = {}
    for n, c in enumerate(meta):
        syms = [s for s, v in model.parameter_defaults.items() if not isinstance(v, sp.Basic) and complex(v) == c["w"] and str(s).startswith("c^")]
        if len(syms) != 1:
            chk.violation(key, f"{what0}: no single parameter has the weight {c['w']} of chain {n}", {"parameters": str(model.parameter_defaults)[:600]}, True)
            return
        weights[n] = syms[0]
    for x in range(4):
        got = model.parameter_defaults.get(S(f"m{x}"))
        if got != 1.0 + x or model.masses.get(S(f"m{x}")) != 1.0 + x:
            chk.violation(key, f"{what0}: mass m{x} has the value {got}", {}, True)
            return
    ctx = Ctx()
    bank = AngleBank(ctx)
    view = ModelView(chk, ctx, model, bank)
    half = bank.get(("antitheta", k) if swap else ("theta", k))
    table = {amp_key(s): e for s, e in model.amplitudes.items()}
    for lam in product(*[proj(s) for s in spins]):
        e = table.get((k, tuple(lam)))
        if e is None:
            chk.violation(key, f"{what0}: amplitude {tuple(map(str, lam))} is missing", {}, True)
            return
        full = stated_f = ctx.frac(0)
        for n, c in enumerate(meta):
            fac = Frac(ctx.complex_gen(str(weights[n]))) * Frac(ctx.complex_gen(f"D_{n}"))
            la, lb, lk = lam[a], lam[b], lam[k]
            hd = vertex(ctx, td, c, "d", jr, (spins[a], la, c["la"]), (spins[b], lb, c["lb"]))
            pa = lambda lr: ((jr, lr, c["lr"]), (spins[k], lk, c["lk"]))  # noqa: B023, E731
            order = (lambda t: t[::-1]) if pswap else (lambda t: t)
            lr = lam[0] + lk
            if abs(lr) <= jr and abs(la - lb) <= jr:
                full = full + fac * hd * vertex(ctx, tp, c, "p", spins[0], *order(pa(lr))) * wigner_d(ctx, jr, lr, la - lb, half)
            stated_f = stated_f + fac * hd * vertex(ctx, tp, c, "p", spins[0], *order(pa(c["lr"]))) * wigner_d(ctx, jr, c["lr"], c["la"] - c["lb"], half)
        what = f"{what0}, helicities {tuple(map(str, lam))}"
        diff = full - stated_f
        if diff.num.is_zero():
            if not compare(chk, view, e, full, what, key):
                return
            if chk.validated < 3 and not full.num.is_zero():
                validate(chk, view, e, full, what, key)
            continue
        if chk.equal(ctx, view(e), full, what) is None:
            continue
        if chk.equal(ctx, view(e), stated_f, what + " (known deviation)") is None:
            vals = random_values(ctx, random.Random(chk.seed))
            chk.violation("serial-stated-helicities", "amplitudes of a definition use the helicities that a chain states instead of those of the amplitude: components with another initial or product helicity are wrong",
                          {"example": what, "real_code": str(real_value(view, e, vals)), "expected": str(complex(full.eval(vals)))}, abs(real_value(view, e, vals) - complex(full.eval(vals))) > 1e-9)
            continue
        compare(chk, view, e, stated_f, what, key)
        return
    chk.count("models", 1)


def _ls(J, s1, s2, lmax=3):
    from .builder import ls_values

    return list(ls_values(J, s1, s2, lmax))


def vertex(ctx, typ, c, tag, j, first, second):
    """Recoupling of a vertex; first/second = (spin, helicity, stated helicity)."""
    (ja, la, la0), (jb, lb, lb0) = first, second
    if typ == "ls":
        L, SS = c["ls" + tag]
        return ls_factor(ctx, j, L, SS, ja, la, jb, lb)
    out = int((la, lb) == (la0, lb0))
    if typ == "parity":
        out += c["f" + tag] * int((la, lb) == (-la0, -lb0))
    return ctx.frac(out)


def serial_intensity(chk, spins, ks, ref) -> None:
    from ampform_dpd import DefinedExpression
    from ampform_dpd.io.serialization.amplitude import formulate

    chains = []
    for k in ks:
        i, j = CYC[k]
        jr = (spins[i] + spins[j]) % 1
        ok = [(lr, lk, li, lj) for lr in proj(jr) for lk in proj(spins[k]) for li in proj(spins[i]) for lj in proj(spins[j]) if abs(li - lj) <= jr]
        lr, lk, li, lj = ok[0]
        chains.append(chain_def(k, f"R{k}", frac_str(jr), weight=f"{k}", prod={"helicities": [frac_str(lr), frac_str(lk)]}, dec={"helicities": [frac_str(li), frac_str(lj)]}))
    chains = chains[::-1]
    final = [state(x, frac_str(spins[x])) for x in PERM[(ref + sum(ks)) % 6]]
    i, j = CYC[ref]
    top = [ref, [i, j]] if sum(ks) % 2 else [[j, i], ref]
    m = model_dict(state(0, frac_str(spins[0])), final, chains, [{"name": "f", "type": "Opaque"}], top)
    own = lambda propagator, resonance, model: DefinedExpression(sp.Symbol("D"), {sp.Symbol("D"): 1.0})  # noqa: E731, ARG005
    clean = len(ks) == 2 and ref == ks[0]
    model = formulate(m, cleanup_summations=clean, additional_builders={"Opaque": own})
    ctx = Ctx()
    bank = AngleBank(ctx)
    view = ModelView(chk, ctx, model, bank, opaque_amplitudes=True)
    amp = lambda k, lam: Frac(ctx.complex_gen(f"A^{k}[{', '.join(map(str, lam))}]"))  # noqa: E731
    spec = Spec(spins, [dict(k=k, j=0) for k in ks])
    exp = oracle_intensity(ctx, spec, ref, bank, amp, sorted(ks))
    what = f"intensity of a definition with J=({','.join(map(str, spins))}), subsystems {ks}, reference topology {top}{', cleaned' if clean else ''}"
    compare(chk, view, model.intensity, exp, what, f"serial-intensity:{','.join(map(str, spins))}:{ks}:{ref}")
    inv = {str(s) for s in model.invariants}
    if inv != {"sigma1", "sigma2", "sigma3"}:
        chk.violation("serial-invariants", f"{what}: invariants {inv}", {}, True)
    chk.count("models", 1)


# ------------------------------------------------------------------ G04
def g04(chk) -> None:
    chk.encoded("serialization.amplitude.formulate", "serialization.amplitude.formulate_chain_amplitude", "serialization.dynamics.formulate_dynamics/formulate_breit_wigner/formulate_multichannel_breit_wigner/formulate_form_factor", "serialization.amplitude._get_weight")
    chk.bound("definitions with two or three chains (lineshapes, multichannel lineshapes, form factors; helicity, parity and LS vertices) in any pair of subsystems; every number of a definition arbitrary; options: names rendered by a function, cleaned summations, own builders; histories: another definition with the same names, own builders for the same types or other options used before, the same call twice")
    items = [("shape", k, how) for k in (1, 2, 3) for how in OPTIONS]
    items += [("spin", n, how) for n in range(3) for how in OPTIONS]
    chk.pmap(g04_item, items)


OPTIONS = ("plain", "latex", "clean", "builders", "replaced", "twice", "after-other", "after-builders", "after-latex")


def tex_name(name: str) -> str:
    return rf"\Lambda\left({name}\right)^{{*}}"


def opaque_builder(propagator, resonance, model):  # noqa: ARG001
    from ampform_dpd import DefinedExpression

    D = sp.Symbol("D_" + propagator["parametrization"])
    return DefinedExpression(D, {D: 1.0})


def other_builder(propagator, resonance, model):  # noqa: ARG001
    from ampform_dpd import DefinedExpression

    D = sp.Symbol("X_" + propagator["parametrization"])
    return DefinedExpression(D, {D: 2.0})


def formulated_as(m, how, builders, other):
    """The model of a definition, with an option or after a history."""
    from ampform_dpd.io.serialization.amplitude import formulate

    kw = {"additional_builders": builders} if builders else {}
    if how == "after-other":
        formulate(other, **kw)
    if how == "after-builders":
        formulate(m, additional_builders={"BreitWigner": other_builder, "MultichannelBreitWigner": other_builder, "Opaque": other_builder})
    if how == "after-latex":
        formulate(m, cleanup_summations=True, to_latex=tex_name, **kw)
    if how == "twice":
        formulate(m, **kw)
    if how == "latex":
        kw["to_latex"] = tex_name
    if how == "clean":
        kw["cleanup_summations"] = True
    if how == "builders":
        kw["additional_builders"] = {**(builders or {}), "Custom": other_builder, "BlattWeisskopf": other_builder}
    return formulate(m, **kw)


def g04_item(chk, item) -> None:
    kind, n, how = item
    (shape_options if kind == "shape" else spin_options)(chk, n, how)


def shape_options(chk, k, how) -> None:
    """Lineshapes and form factors of a definition under an option: the same functions."""
    import copy

    rp, rd = sp.Symbol("rp", positive=True), sp.Symbol("d", positive=True)
    mass = {i: sp.Symbol(f"mass_{i}", positive=True) for i in range(4)}
    k2 = k % 3 + 1
    (i, j), (i2, j2) = CYC[k], CYC[k2]

    def definition(z):
        f = {**bw_def(z, 1, d=rd, ma=mass[i], mb=mass[j])}
        f2 = {**bw_def("2" + z, 2, d=rd, name="f2", ma=mass[i2], mb=mass[j2])}
        fp = {"name": "FP", "type": "BlattWeisskopf", "radius": rp, "l": 1}
        fd = {"name": "FD", "type": "BlattWeisskopf", "radius": rd, "l": 1}
        m, _ = plain_model(k, [f, f2, fp, fd], prod={"formfactor": "FP"}, dec={"formfactor": "FD"}, extra=[chain_def(k2, "R2", weight="3", fun="f2")])
        return m, f, f2

    m, f, f2 = definition("")
    before = copy.deepcopy(m)
    builders = {"BreitWigner": opaque_builder} if how == "replaced" else None
    model = formulated_as(m, how, builders, definition("_o")[0])
    what = f"lineshapes of a definition with chains in subsystems {k} and {k2}, {how}"
    key = f"serial-options:{k}:{how}"
    if m != before:
        chk.violation(key, f"{what}: formulating changes the definition", {}, True)
        return
    table = {amp_key(a): e for a, e in model.amplitudes.items()}
    defaults = {s: v for s, v in model.parameter_defaults.items() if str(s) not in {"D_f", "D_f2"}}
    for kk, w, fun, ff in ((k, 2, f, True), (k2, 3, f2, False)):
        if (kk, (0, 0, 0, 0)) not in table:
            chk.violation(key, f"{what}: no amplitude of subsystem {kk}", {}, True)
            return
        expr = evaluated(table[kk, (0, 0, 0, 0)], defaults)
        kin, W = start(kk)
        for x, nm in zip(mass.values(), ("M", "m1", "m2", "m3")):
            take(kin, x, nm)
        a, b, c = (take(kin, mass[x]) for x in (*CYC[kk], kk))
        if how == "replaced":
            exp = take(kin, sp.Symbol(f"D_{fun['name']}")) * w
        else:
            exp = oracle_bw(kin, W, fun, kin.channel(W, a, b, "s"), "") * w
        if ff:
            k1 = kin.channel(W, a, b, "s")
            kp = kin.channel(take(kin, mass[0]), W, c, "prod")
            kin.ctx.roots[(W * W).num, kin.ctx.const(1)] = W
            exp = exp * kin.ff(W, k1, 1, take(kin, rd)) * kin.ff(take(kin, mass[0]), kp, 1, take(kin, rp))
        agree(chk, kin, expr, exp, f"{what}: amplitude of subsystem {kk}", key)
        if chk.full:
            return


def spin_options(chk, n, how) -> None:
    """Amplitudes and intensity of a definition with spins under an option."""
    from types import SimpleNamespace

    import copy

    spins = [(H, H, 0, 0), (1, 0, 0, 0), (0, H, 0, H)][n]
    cases = [
        [dict(k=1, j="0", hp=("0", "1/2"), w="1.5+2i"), dict(k=3, j="1/2", hp=("1/2", "0"), hd=("-1/2", "0"), tp="parity", w="-3i"), dict(k=3, j="1/2", hp=("1/2", "0"), hd=("1/2", "0"), tp="parity", w="4")],
        [dict(k=2, j="1", hp=("1", "0"), tp="ls", w="2"), dict(k=3, j="1", hp=("0", "0"), w="0.25-1i")],
        [dict(k=2, j="1", hp=("0", "0"), hd=("1/2", "-1/2"), td="parity", w="5+1i"), dict(k=1, j="1/2", hp=("1/2", "1/2"), hd=("0", "1/2"), w="7"), dict(k=3, j="1/2", hp=("-1/2", "-1/2"), hd=("-1/2", "0"), td="ls", w="-2i")],
    ][n]

    tag = "abcdefghi"[OPTIONS.index(how)]  # names of its own, so that no earlier case of this process plays a role

    def definition(scale, tag=tag):
        chains = []
        for x, c in enumerate(cases):
            i, j = CYC[c["k"]]
            hd = c.get("hd") or tuple(frac_str(spins[y]) for y in (i, j))
            prod, dec = ({"type": t, "helicities": h, **({"parity_factor": "-"} if t == "parity" else {"l": "1", "s": frac_str(SS)} if t == "ls" else {})} for t, h, SS in ((c.get("tp", "helicity"), c["hp"], sp.Rational(c["j"]) + spins[c["k"]]), (c.get("td", "helicity"), hd, spins[i] + spins[j])))
            w = c["w"] if scale == 1 else "9"
            chains.append(chain_def(c["k"], f"R{x}{tag}", c["j"], weight=w, prod=prod, dec=dec, fun=f"f{x}"))
        return model_dict(state(0, frac_str(spins[0])), [state(y, frac_str(spins[y])) for y in (1, 2, 3)], chains, [{"name": f"f{x}", "type": "Opaque"} for x in range(len(cases))])

    builders = {"Opaque": opaque_builder}
    m = definition(1)
    before = copy.deepcopy(m)

    def numbers(model):
        """The model with its own weights inserted."""
        sub = {s: sp.nsimplify(sp.sympify(v), rational=True) for s, v in model.parameter_defaults.items() if not str(s).startswith("D_") and str(s) not in {"m0", "m1", "m2", "m3"}}
        return SimpleNamespace(amplitudes={a: e.xreplace(sub) for a, e in model.amplitudes.items()}, intensity=model.intensity.xreplace(sub), variables=model.variables, parameter_defaults=model.parameter_defaults)

    out = numbers(formulated_as(m, how, builders, definition(2)))
    base = numbers(formulated_as(definition(1, tag + "_plain"), "plain", builders, None))
    what, key = f"definition with J=({','.join(map(str, spins))}), {how}", f"serial-options:{n}:{how}"
    if m != before:
        chk.violation(key, f"{what}: formulating changes the definition", {}, True)
        return
    ctx = Ctx()
    bank = AngleBank(ctx)
    v0, v1 = ModelView(chk, ctx, base, bank), ModelView(chk, ctx, out, bank)
    a0, a1 = ({amp_key(a): e for a, e in x.amplitudes.items()} for x in (base, out))
    for ak in sorted(set(a0) | set(a1), key=str):
        if differ(chk, ctx, (v0, a0.get(ak, sp.S.Zero)), (v1, a1.get(ak, sp.S.Zero)), f"{what}: amplitude {ak[0]}{list(map(str, ak[1]))}", key):
            return
    ctx = Ctx()
    bank = AngleBank(ctx)
    v0, v1 = (ModelView(chk, ctx, x, bank, opaque_amplitudes=True) for x in (base, out))
    differ(chk, ctx, (v0, base.intensity), (v1, out.intensity), f"{what}: intensity", key)
    d0, d1 = ({str(s): complex(v) for s, v in x.parameter_defaults.items() if str(s).startswith("m")} for x in (base, out))
    if d0 != d1:
        chk.violation(key, f"{what}: other masses", {"plain": str(d0), "option": str(d1)}, True)
    chk.count("models", 1)


del cg, TRUE
