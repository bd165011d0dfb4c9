"""S, E, A: spins, couplings, decay containers and conversions, by forking symbolic
execution (vf.sx) of the real functions over bounded integers and half-integers."""
from __future__ import annotations

import logging
import time
import warnings
from fractions import Fraction
from itertools import permutations, product

import sympy as sp

from .. import sx
from ..env import z3
from ..report import Inconclusive
from ..sx import Explorer, Num, Raised, num, same

warnings.simplefilter("ignore")
logging.getLogger("ampform_dpd").setLevel(logging.CRITICAL)


class Inputs:
    """Named bounded rationals: name -> (lo, hi, den, kind); values name/den."""

    def __init__(self, **spec) -> None:
        self.spec = spec
        self.extra: list = []

    def z(self, name):
        return z3.Int(name)

    def symbolic(self) -> dict:
        return {n: Num(z3.Int(n), d, kind) for n, (lo, hi, d, kind) in self.spec.items()}

    def domain(self) -> list:
        out = []
        for n, (lo, hi, *_rest) in self.spec.items():
            out += [z3.Int(n) >= lo, z3.Int(n) <= hi]
        return out + self.extra

    def concrete(self, model) -> dict:
        out = {}
        for n, (lo, hi, d, kind) in self.spec.items():
            v = model.eval(z3.Int(n), model_completion=True).as_long()
            out[n] = sx.to_kind(Fraction(v, d), kind)
        return out


def symbolic_check(chk, inputs: Inputs, body, claim, what, key, stop=True) -> bool:
    """Explore body(values) on all paths; claim(values, result) must hold on each."""
    dom = inputs.domain()
    chk.reachable(dom, what)
    syms = inputs.symbolic()
    ex = Explorer(chk, dom)
    ok = True


    def judge(values, res):
        try:
            return claim(values, res)
        except (IndexError, KeyError, TypeError, AttributeError, ValueError):
            return FALSE  # not even the form of a result (replayed below)

    for pc, res in ex.run(lambda: body(syms)):
        model = chk.prove([*dom, *pc], judge(syms, res), what)
        if model is None:
            chk.nontrivial += 1
            continue
        ok = False
        conc = inputs.concrete(model)
        sx.clear_caches()
        try:
            real = body(conc)
        except Exception as e:  # noqa: BLE001
            real = Raised(e)
        held = z3.is_true(z3.simplify(judge(conc, real)))
        if held and str(real) != str(res):
            # the code uses an operation that symbolic numbers do not have: the solver lists
            # the values of this path instead
            found = listed_values(chk, inputs, [*dom, *pc], body, judge, what)
            if found is None:
                ok = True
                continue
            conc, real, held = found
        chk.violation(key, what, {"input": {k: str(v) for k, v in conc.items()}, "real_code": str(real)[:400], "symbolic": str(res)[:400]}, not held)
        if stop or chk.full:
            return False
    # encoding validation: one concrete run per check agrees with its path
    return ok


def listed_values(chk, inputs, constraints, body, judge, what, limit=30_000):
    """Every value of a path, one by one -> (values, result, held) of the first that fails."""
    s = z3.Solver()
    s.add(*constraints)
    for _ in range(limit):
        if time.time() > chk.t0 + 700:
            break
        chk.queries += 1
        r = s.check()
        if r == z3.unsat:
            chk.by_verdict["unsat"] += 1
            return None
        if r != z3.sat:
            break
        chk.by_verdict["sat"] += 1
        model = s.model()
        conc = inputs.concrete(model)
        sx.clear_caches()
        try:
            real = body(conc)
        except Exception as e:  # noqa: BLE001
            real = Raised(e)
        if not z3.is_true(z3.simplify(judge(conc, real))):
            return conc, real, False
        s.add(z3.Or([z3.Int(n) != model.eval(z3.Int(n), model_completion=True) for n in inputs.spec]))
    raise Inconclusive(f"{what}: too many values for an operation without symbolic form")


def zint(v):
    """z3 term of an integer-valued input (symbolic or concrete)."""
    n = num(v)
    assert n.d == 1, v
    return n.n


def z2(v):
    """z3 term of 2*v for an integer or half-integer input."""
    n = num(v)
    return n.n * (2 // n.d) if n.d in (1, 2) else None


def is_seq(x):
    return isinstance(x, (list, tuple))


def raised(res, *types) -> bool:
    return isinstance(res, Raised) and isinstance(res.exc, types or (Exception,))


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ------------------------------------------------------------------ ids of angles (K01, K02)
def valid_pair(i, j):
    return z3.And(i != j, i >= 1, i <= 3, j >= 1, j <= 3)


def scattering_ids(chk) -> None:
    from ampform_dpd.angles import formulate_scattering_angle

    def body(v):
        return formulate_scattering_angle(v["i"], v["j"])

    def claim(v, res):
        ok = valid_pair(zint(v["i"]), zint(v["j"]))
        if isinstance(res, Raised):
            cyc = z3.Or([z3.And(zint(v["i"]) == a, zint(v["j"]) == b) for a, b in ((1, 2), (2, 3), (3, 1))])
            return z3.And(z3.BoolVal(isinstance(res.exc, (ValueError, NotImplementedError))), z3.Not(cyc))
        return ok

    symbolic_check(chk, Inputs(i=(-1, 5, 1, int), j=(-1, 5, 1, int)), body, claim,
                   "a scattering angle exists exactly for pairs of distinct final states", "scattering-ids")


def theta_hat_ids(chk) -> None:
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle

    def body(v):
        return formulate_theta_hat_angle(v["i"], v["j"])

    def claim(v, res):
        i, j = zint(v["i"]), zint(v["j"])
        ok = z3.And(i >= 1, i <= 3, j >= 1, j <= 3)
        return z3.And(z3.Not(ok), z3.BoolVal(isinstance(res.exc, ValueError))) if isinstance(res, Raised) else ok

    symbolic_check(chk, Inputs(i=(-1, 5, 1, int), j=(-1, 5, 1, int)), body, claim,
                   "a reference rotation exists exactly for subsystems 1, 2, 3", "theta-hat-ids")

    del formulate_zeta_angle


# ------------------------------------------------------------------ S01
def s01(chk) -> None:
    from ampform_dpd.spin import create_rational_range, create_spin_range

    top = 24 if chk.thorough else 13
    chk.encoded("spin.create_spin_range", "spin.create_rational_range", "spin.arange")
    chk.bound(f"spins 0, 1/2, ..., {top}/2 given as float, int or Rational; ranges between half-integers in [-{top}/4, {top}/4]")

    def claim(v, res):
        n = z2(v["j"])
        if not is_seq(res):
            return FALSE
        return z3.And(n + 1 == len(res), *[same(x, -n + 2 * i, 2) for i, x in enumerate(res)])

    for kind in (float, sp.Rational):
        symbolic_check(chk, Inputs(j=(0, top, 2, kind)), lambda v: create_spin_range(v["j"]), claim,
                       f"projections of a spin ({kind.__name__}) are exactly -j, -j+1, ..., j", f"spin-range:{kind.__name__}")
    symbolic_check(chk, Inputs(j=(0, top // 2, 1, int)), lambda v: create_spin_range(v["j"]), claim,
                   "projections of an integer spin are exactly -j, ..., j", "spin-range:int")

    def claim_range(v, res):
        a, b = z2(v["a"]), z2(v["b"])
        if not is_seq(res):
            return FALSE
        n = len(res)
        return z3.And(*[same(x, a + 2 * i, 2) for i, x in enumerate(res)], z3.Or(n == 0, a + 2 * (n - 1) <= b), a + 2 * n > b)

    h = top // 2
    for kind in (float, sp.Rational):
        symbolic_check(chk, Inputs(a=(-h, h, 2, kind), b=(-h, h, 2, kind)), lambda v: create_rational_range(v["a"], v["b"]), claim_range,
                       "a range holds exactly the values a, a+1, ... up to b", f"range:{kind.__name__}")

    def exact(v):
        return [type(x).__name__ in ("Rational", "Integer", "Half", "Zero", "One", "NegativeOne") or isinstance(x, sp.Rational) for x in create_spin_range(v["j"])]

    del exact
    types_exact(chk, create_spin_range)


def types_exact(chk, create_spin_range) -> None:
    """The real (uninstrumented) values are exact rationals of type Rational."""
    for n in range(8):
        for j in (n / 2, sp.Rational(n, 2)):
            got = create_spin_range(j)
            chk.validated += 1
            if [sp.Rational(-n, 2) + i for i in range(n + 1)] != got or not all(isinstance(x, sp.Rational) for x in got):
                chk.violation("spin-range:type", f"projections of spin {j} are {got}", {}, True)
                return


# ------------------------------------------------------------------ S02 / S03
def allowed_ls(J2, a2, b2, L, S2):
    """(L, S) with S in |a-b|..a+b (steps of 1) and |L-S| <= J <= L+S; doubled numbers."""
    diff = z3.If(a2 >= b2, a2 - b2, b2 - a2)
    LS = z3.If(2 * L >= S2, 2 * L - S2, S2 - 2 * L)
    return z3.And(S2 >= diff, S2 <= a2 + b2, (S2 - diff) % 2 == 0, J2 >= LS, J2 <= 2 * L + S2)


def s02(chk) -> None:
    from ampform_dpd.spin import generate_ls_couplings

    top = 5 if chk.thorough else 4
    lmax = 5 if chk.thorough else 4
    chk.encoded("spin.generate_ls_couplings", "spin.create_rational_range", "spin.arange")
    chk.bound(f"three spins 0..{top}/2 whose sum is an integer, max_L = 0..{lmax} or default (3); two spins up to 5 with the third up to 1 and max_L = 6")

    def claim_for(default):
        def claim(v, res):
            if not is_seq(res) or not all(is_seq(x) and len(x) == 2 for x in res):
                return FALSE
            J2, a2, b2 = z2(v["J"]), z2(v["a"]), z2(v["b"])
            mL = z3.IntVal(3) if default else zint(v["L"])
            cs = []
            for L, S in product(range((3 if default else lmax) + 1), range(2 * top + 1)):
                have = z3.Or([z3.And(same(l, z3.IntVal(L)), same(s, z3.IntVal(S), 2)) for l, s in res])
                cs.append(have == z3.And(L <= mL, allowed_ls(J2, a2, b2, L, z3.IntVal(S))))
            # sorted without duplicates, nothing else
            for x, y in zip(res, res[1:]):
                (l1, s1), (l2, s2) = [(num(p), num(q)) for p, q in (x, y)]
                cs.append(z3.Or(l1.n * l2.d < l2.n * l1.d, z3.And(l1.n * l2.d == l2.n * l1.d, s1.n * s2.d < s2.n * s1.d)))
            for l, s in res:
                l, s = num(l), num(s)
                cs += [l.n >= 0, l.n <= l.d * lmax, l.n % l.d == 0, s.n >= 0, s.n <= s.d * top, (2 * s.n) % s.d == 0]
            return z3.And(cs)

        return claim

    inp = Inputs(J=(0, top, 2, float), a=(0, top, 2, float), b=(0, top, 2, float), L=(0, lmax, 1, int))
    inp.extra.append((z3.Int("J") + z3.Int("a") + z3.Int("b")) % 2 == 0)
    symbolic_check(chk, inp, lambda v: generate_ls_couplings(v["J"], v["a"], v["b"], v["L"]), claim_for(False),
                   "generated LS couplings are exactly those allowed by angular-momentum conservation up to max_L", "ls")
    # high spins: one of the three at a time
    for big in (0, 1, 2) if chk.thorough else (0,):
        lo = 9
        rng = [(0, 2, 2, float)] * 3
        rng[big] = (lo, lo + 1, 2, float)
        rng[(big + 1) % 3] = (lo - 1, lo + 1, 2, float)
        top, lmax = lo + 2, 6
        inp = Inputs(J=rng[0], a=rng[1], b=rng[2], L=(5 if chk.thorough else 6, 6, 1, int))
        inp.extra.append((z3.Int("J") + z3.Int("a") + z3.Int("b")) % 2 == 0)
        symbolic_check(chk, inp, lambda v: generate_ls_couplings(v["J"], v["a"], v["b"], v["L"]), claim_for(False),
                       "generated LS couplings are exactly those allowed: high spins", f"ls-high:{big}")
    top, lmax = (5, 5) if chk.thorough else (4, 4)
    inp = Inputs(J=(0, top, 2, sp.Rational), a=(0, top, 2, sp.Rational), b=(0, top, 2, sp.Rational))
    inp.extra.append((z3.Int("J") + z3.Int("a") + z3.Int("b")) % 2 == 0)
    symbolic_check(chk, inp, lambda v: generate_ls_couplings(v["J"], v["a"], v["b"]), claim_for(True),
                   "generated LS couplings (default maximum, exact spins) are exactly the allowed ones", "ls-default")


def s03(chk) -> None:
    from ampform_dpd.spin import filter_parity_violating_ls

    n = 4 if chk.thorough else 3
    chk.encoded("spin.filter_parity_violating_ls")
    chk.bound(f"lists of {n} couplings with L = 0..6 and any S = 0..3, in any order, duplicates included; the three parities +-1, given as int or float")
    for kind in (int, float):
        spec = {f"L{i}": (0, 6, 1, int) for i in range(n)} | {f"S{i}": (0, 6, 2, sp.Rational) for i in range(n)}
        spec |= {f"p{i}": (-1, 1, 1, kind) for i in range(3)}
        inp = Inputs(**spec)
        inp.extra += [z3.Int(f"p{i}") != 0 for i in range(3)]

        def body(v):
            ls = [(v[f"L{i}"], v[f"S{i}"]) for i in range(n)]
            return filter_parity_violating_ls(ls, v["p0"], v["p1"], v["p2"])

        def claim(v, res):
            if not is_seq(res) or not all(is_seq(x) and len(x) == 2 for x in res):
                return FALSE
            L = [num(v[f"L{i}"]).n for i in range(n)]
            p = [num(v[f"p{i}"]).n for i in range(3)]
            keep = [p[0] * p[1] * p[2] == z3.If(x % 2 == 0, z3.IntVal(1), z3.IntVal(-1)) for x in L]
            rank = [z3.Sum([z3.If(k, 1, 0) for k in keep[:i]]) if i else z3.IntVal(0) for i in range(n)]
            cs = [z3.Sum([z3.If(k, 1, 0) for k in keep]) == len(res)]
            for pos, (l, s) in enumerate(res):
                cs += [z3.Implies(z3.And(keep[i], rank[i] == pos), z3.And(same(l, L[i]), same(s, z2(v[f"S{i}"]), 2))) for i in range(n)]
            return z3.And(cs)

        symbolic_check(chk, inp, body, claim, f"exactly the parity-conserving couplings survive, in order (parities as {kind.__name__})", f"parity:{kind.__name__}")


# ------------------------------------------------------------------ E01 / E02
def mk_state(index, name=None, spin=0, mass=1.0, parity=1, width=0.0, latex=None):
    from ampform_dpd.decay import State

    name = name or f"p{index}"
    return State(name=name, latex=latex or name, spin=spin, parity=parity, mass=mass, width=width, index=index)


def mk_chain(parent, spectator, c1, c2, res=None, swap=False, prod=None, dec=None):
    from ampform_dpd.decay import IsobarNode, Particle, ThreeBodyDecayChain

    res = res or Particle(name="R", latex="R", spin=0, parity=1, mass=1.0, width=0.1)
    node = IsobarNode(res, c1, c2, interaction=dec)
    kids = (spectator, node) if swap else (node, spectator)
    return ThreeBodyDecayChain(IsobarNode(parent, *kids, interaction=prod))


def e01(chk) -> None:
    from ampform_dpd.decay import LSCoupling, Particle, State, ThreeBodyDecay

    chk.encoded("decay.ThreeBodyDecayChain.__attrs_post_init__", "decay.ThreeBodyDecay.__attrs_post_init__", "_attrs.assert_spin_value", "_attrs.to_rational", "_attrs.to_ls")
    chk.bound("chains: four indices in 0..3 (thorough: 0..4), either node order; decays: up to 2 chains whose states may differ from the declared ones in mass, index or spin; spins n/12")

    # quantum numbers: exactly integers and half-integers are accepted, stored exactly
    top = 48 if chk.thorough else 30
    for cls, mk, get in (
        ("Particle", lambda s: Particle("a", "a", s, 1, 1.0, 0.0), lambda p: p.spin),
        ("State", lambda s: mk_state(1, spin=s), lambda p: p.spin),
        ("LSCoupling", lambda s: LSCoupling(1, s), lambda p: p.S),
    ):
        def claim(v, res):
            n = num(v["s"])
            good = (n.n * 2) % n.d == 0
            if isinstance(res, Raised):
                return z3.And(z3.Not(good), z3.BoolVal(isinstance(res.exc, ValueError)))
            return z3.And(good, same(res, n.n, n.d))

        for kind in (sp.Rational,):
            symbolic_check(chk, Inputs(s=(0, top, 12, kind)), lambda v: get(mk(v["s"])), claim,
                           f"{cls} accepts exactly integer and half-integer spins", f"spin:{cls}")

        # finely resolved numbers close to (half-)integers, in every accepted type
        for kind in (float, sp.Rational, Fraction):
            inp = Inputs(s=(-(2**14), 6 * 2**14, 2**14, kind), h=(0, 9 if chk.thorough else 5, 1, int), e=(-1, 1, 1, int), w=(0, 2, 1, int))
            steps = (1, 2**7, 3 * 2**9)
            step = z3.Sum([z3.If(z3.Int("w") == i, t, 0) for i, t in enumerate(steps)])
            inp.extra.append(z3.Int("s") == z3.Int("h") * 2**13 + z3.Int("e") * step)
            symbolic_check(chk, inp, lambda v: get(mk(v["s"])), claim,
                           f"{cls} accepts exactly integer and half-integer spins, given as {kind.__name__}", f"spin:{cls}")
            if chk.full:
                return
    chk.bound("also spins h/2 + e*w for h = 0..5, e = -1, 0, 1 and distances w = 2^-14, 2^-7, 3/32, as float, exact rational, fraction")

    # distinct indices in a chain
    hi = 4 if chk.thorough else 3

    def chain_body(v):
        a, b, c, d = (mk_state(v[x], name=x) for x in "abcd")
        ch = mk_chain(a, b, c, d, swap=bool(v["swap"] == 1))
        return ch.parent.index, ch.spectator.index, [p.index for p in ch.decay_products], [p.index for p in ch.final_state]

    def chain_claim(v, res):
        ids = [zint(v[x]) for x in "abcd"]
        distinct = z3.Distinct(ids)
        if isinstance(res, Raised):
            return z3.And(z3.Not(distinct), z3.BoolVal(isinstance(res.exc, ValueError)))
        parent, spec, dec, fin = res
        cs = [distinct, same(parent, ids[0]), same(spec, ids[1]), same(dec[0], ids[2]), same(dec[1], ids[3])]
        fz = [num(x).n for x in fin]
        cs += [len(fin) == 3, fz[0] < fz[1], fz[1] < fz[2]]
        cs += [z3.Or([f == x for f in fz]) for x in ids[1:]]
        return z3.And(cs)

    symbolic_check(chk, Inputs(**{x: (0, hi, 1, int) for x in "abcd"}, swap=(0, 1, 1, int)), chain_body, chain_claim,
                   "a chain is accepted exactly when its four states have different IDs, and exposes its parts", "chain-ids")

    # outer states must carry an index (be states, not bare particles)
    def typed_body(v):
        parts = [mk_state(i) if v[f"t{i}"] == 1 else Particle(f"p{i}", f"p{i}", 0, 1, 1.0, 0.0) for i in range(4)]
        mk_chain(parts[0], parts[1], parts[2], parts[3])
        return True

    symbolic_check(chk, Inputs(**{f"t{i}": (0, 1, 1, int) for i in range(4)}), typed_body,
                   lambda v, res: z3.And([zint(v[f"t{i}"]) == 1 for i in range(4)]) if not isinstance(res, Raised) else z3.Or([zint(v[f"t{i}"]) == 0 for i in range(4)]),
                   "a chain is accepted exactly when all outer particles are numbered states", "chain-types")

    # chains must share the decay's states
    n = 2

    def decay_body(v):
        states = {i: mk_state(i, mass=v[f"m{i}"], spin=0) for i in range(4)}
        chains = []
        for c in range(n):
            own = [mk_state(i, mass=v[f"m{i}_{c}"], spin=0) for i in range(4)]
            k = 1 + c
            i, j = [x for x in (1, 2, 3) if x != k]
            chains.append(mk_chain(own[0], own[k], own[j], own[i], swap=c == 1))
        return ThreeBodyDecay(states=states, chains=chains)

    def decay_claim(v, res):
        same_all = z3.And([zint(v[f"m{i}"]) == zint(v[f"m{i}_{c}"]) for i in range(4) for c in range(n)])
        return z3.And(z3.Not(same_all), z3.BoolVal(isinstance(res.exc, ValueError))) if isinstance(res, Raised) else same_all

    hi = 2 if chk.thorough else 1
    spec = {f"m{i}": (1, 1, 1, int) for i in range(4)} | {f"m{i}_{c}": (1, hi + 1, 1, int) for i in range(4) for c in range(n)}
    symbolic_check(chk, Inputs(**spec), decay_body, decay_claim, "a decay is accepted exactly when every chain has its initial and final states", "decay-states")

    # the same for decays with more chains: the states of every one of them count
    many = 6 if chk.thorough else 4

    def many_body(v):
        states = {i: mk_state(i, mass=1, spin=0) for i in range(4)}
        size, odd, which = conc(v["size"]), conc(v["odd"]), conc(v["which"])
        chains = []
        for c in range(size):
            own = [mk_state(i, mass=v["m"] if c == odd and i == which else 1, spin=0) for i in range(4)]
            k = 1 + c % 3
            i, j = [x for x in (1, 2, 3) if x != k]
            chains.append(mk_chain(own[0], own[k], own[i], own[j], Particle(f"R{c}", "R", 0, 1, 1.0, 0.1)))
        return ThreeBodyDecay(states=states, chains=chains if size % 2 else iter(chains))

    def many_claim(v, res):
        ok = z3.Or(zint(v["m"]) == 1, zint(v["odd"]) >= zint(v["size"]))
        return z3.And(z3.Not(ok), z3.BoolVal(isinstance(res.exc, ValueError))) if isinstance(res, Raised) else ok

    symbolic_check(chk, Inputs(size=(1, many, 1, int), odd=(0, many - 1, 1, int), which=(0, 3, 1, int), m=(1, 2, 1, int)), many_body, many_claim,
                   "a decay with several chains is accepted exactly when every chain has its states", "decay-many")

    # declared states that no chain has, or chains with states that were not declared
    def declared_body(v):
        states = {i: mk_state(i) for i in (0, 1, 2, 3, 4) if i == 0 or v[f"d{i}"] == 1}
        own = [mk_state(i) for i in range(4)]
        return ThreeBodyDecay(states=states, chains=[mk_chain(own[0], own[k], *(own[x] for x in (1, 2, 3) if x != k)) for k in range(1, 1 + conc(v["size"]))])

    def declared_claim(v, res):
        ok = z3.And([zint(v[f"d{i}"]) == int(i < 4) for i in (1, 2, 3, 4)])
        return z3.And(z3.Not(ok), z3.BoolVal(isinstance(res.exc, ValueError))) if isinstance(res, Raised) else ok

    symbolic_check(chk, Inputs(size=(1, 3, 1, int), **{f"d{i}": (0, 1, 1, int) for i in (1, 2, 3, 4)}), declared_body, declared_claim,
                   "a decay is accepted exactly when it declares the final states of its chains", "decay-declared")

    # wrong assignment of identical-looking particles: the index counts
    def perm_body(v):
        states = {i: mk_state(i, name="p") for i in range(4)}
        ids = [v["a"], v["b"], v["c"]]
        own = [mk_state(i, name="p") for i in ids]
        return ThreeBodyDecay(states=states, chains=[mk_chain(states[0], *own)])

    def perm_claim(v, res):
        ids = [zint(v[x]) for x in "abc"]
        ok = z3.And(z3.Distinct(ids), *[z3.And(x >= 1, x <= 3) for x in ids])
        return z3.And(z3.Not(ok), z3.BoolVal(isinstance(res.exc, ValueError))) if isinstance(res, Raised) else ok

    symbolic_check(chk, Inputs(a=(0, 4, 1, int), b=(0, 4, 1, int), c=(0, 4, 1, int)), perm_body, perm_claim,
                   "a decay of equal particles is accepted exactly when each chain holds all three final-state IDs", "decay-ids")


def e02(chk) -> None:
    from ampform_dpd.decay import Particle, ThreeBodyDecay, get_decay_product_ids

    n = 4 if chk.thorough else 3
    chk.encoded("decay.ThreeBodyDecay.get_subsystem", "decay.ThreeBodyDecay.find_chain", "decay.get_decay_product_ids", "decay.ThreeBodyDecay.initial_state/final_state")
    chk.bound(f"decays with {n} chains, each with any spectator 1..3 and any of 3 resonance names, chains equal or different in mass; subsystem IDs 1..3, product IDs queried for -1..5")

    names = ("R", "R1", "r")

    def spectator(v, c, states):
        k = sx.CURRENT.value(num(v[f"k{c}"]).n) if isinstance(v[f"k{c}"], Num) else int(v[f"k{c}"])
        i, j = [x for x in (1, 2, 3) if x != k]
        r = sx.CURRENT.value(num(v[f"r{c}"]).n) if isinstance(v[f"r{c}"], Num) else int(v[f"r{c}"])
        m = conc(v["m"])  # chains of the same name differ in mass, or are equal
        res = Particle(names[r], "R", 0, 1, 1.0 + (c if m == 0 else 0 if m == 1 else c % 2), 0.1)
        return mk_chain(states[0], states[k], states[i], states[j], res=res, swap=c % 2 == 1 and m != 1)

    def body(v):
        states = {i: mk_state(i) for i in (2, 0, 3, 1)}
        chains = [spectator(v, c, states) for c in range(n)]
        decay = ThreeBodyDecay(states=states, chains=chains)
        sub = decay.get_subsystem(v["q"])
        found = []
        for r in range(3):
            try:
                hit = decay.find_chain(names[r])
                found.append(next(i for i, c in enumerate(chains) if c == hit))
            except KeyError:
                found.append(-1)
        return [c for c in chains if c.spectator.index == conc(v["q"])] == list(sub.chains), len(sub.chains), found, sub.states == decay.states, [s.index for s in decay.final_state.values()], decay.initial_state.index, {k: s.index for k, s in decay.final_state.items()}

    def claim(v, res):
        if isinstance(res, Raised):
            return FALSE
        in_order, picked, found, states_same, fin, ini, fmap = res
        q = zint(v["q"])
        cs = [z3.BoolVal(in_order and states_same and sorted(fin) == [1, 2, 3] and ini == 0 and fmap == {1: 1, 2: 2, 3: 3})]
        cs.append(z3.Sum([z3.If(zint(v[f"k{c}"]) == q, 1, 0) for c in range(n)]) == picked)
        for r in range(3):
            first = z3.IntVal(-1)
            for c in reversed(range(n)):
                first = z3.If(zint(v[f"r{c}"]) == r, z3.IntVal(c), first)
            cs.append(first == found[r])
        return z3.And(cs)

    for m, top, what in (((0, 0), 2, "chains that differ in mass"), ((1, 2), 1, "equal chains")):
        symbolic_check(chk, Inputs(**{f"k{c}": (1, 3, 1, int) for c in range(n)}, **{f"r{c}": (0, top, 1, int) for c in range(n)}, q=(1, 3, 1, int), m=(*m, 1, int)), body, claim,
                       f"selecting a subsystem keeps exactly its chains; lookup by resonance name finds the first such chain ({what})", "subsystem")

    # a chain exposes its parts for any construction order and any way to give couplings
    from ampform_dpd.decay import IsobarNode, LSCoupling, ThreeBodyDecayChain

    def parts_body(v):
        states = {i: mk_state(i, name="p") for i in range(4)}
        k = conc(v["k"])
        i, j = [x for x in (1, 2, 3) if x != k]
        if v["pair"] == 1:
            i, j = j, i
        how = conc(v["how"])

        def ls(L, S, use):
            if not use:
                return None
            return LSCoupling(v[L], v[S]) if how else (v[L], v[S])

        hp, hd = bool(v["hasP"] == 1), bool(v["hasD"] == 1)
        res = Particle("R", "R", v["J"], -1, 1.5, 0.5)
        node = IsobarNode(res, states[i], states[j], interaction=ls("LD", "SD", hd))
        kids = (states[k], node) if v["swap"] == 1 else (node, states[k])
        c = ThreeBodyDecayChain(IsobarNode(states[0], *kids, interaction=ls("LP", "SP", hp)))
        ok = c.parent is states[0] and c.initial_state is states[0] and c.spectator is states[k] and c.decay_products == (states[i], states[j])
        ok = ok and c.final_state == (states[1], states[2], states[3]) and c.resonance is res and c.decay_node is node and c.production_node is c.decay
        return ok, [None if x is None else (x.L, x.S) for x in (c.incoming_ls, c.outgoing_ls)], c.resonance.spin

    def parts_claim(v, res):
        if isinstance(res, Raised) or not res[0]:
            return FALSE
        cs = [same(res[2], z2(v["J"]), 2)]
        for tag, got in zip("PD", res[1]):
            has = zint(v[f"has{tag}"]) == 1
            cs.append(z3.Not(has) if got is None else z3.And(has, same(got[0], zint(v[f"L{tag}"])), same(got[1], z2(v[f"S{tag}"]), 2)))
        return z3.And(cs)

    flags = {x: (0, 1, 1, int) for x in ("pair", "swap", "how", "hasP", "hasD")}
    fixed = dict(LP=(1, 1, 1, int), SP=(3, 3, 2, float), LD=(2, 2, 1, int), SD=(1, 1, 2, float), J=(5, 5, 2, float))
    symbolic_check(chk, Inputs(k=(1, 3, 1, int), **flags, **fixed), parts_body, parts_claim,
                   "a chain exposes the states, resonance and couplings it was made of: structure", "chain-parts")
    on = {x: (1, 1, 1, int) for x in flags} | {"how": (0, 1, 1, int)}
    nums = dict(LP=(0, 3, 1, int), SP=(0, 4, 2, float), LD=(0, 2, 1, int), SD=(0, 2, 2, float), J=(2, 3, 2, float))
    symbolic_check(chk, Inputs(k=(2, 2, 1, int), **on, **nums), parts_body, parts_claim,
                   "a chain exposes the states, resonance and couplings it was made of: quantum numbers", "chain-numbers")

    def ids_claim(v, res):
        k = zint(v["k"])
        if isinstance(res, Raised):
            return z3.And(z3.Or(k < 1, k > 3), z3.BoolVal(isinstance(res.exc, ValueError)))
        i, j = (num(x).n for x in res)
        return z3.And(k >= 1, k <= 3, i == k % 3 + 1, j == i % 3 + 1)

    symbolic_check(chk, Inputs(k=(-1, 5, 1, int)), lambda v: tuple(get_decay_product_ids(v["k"])), ids_claim,
                   "decay products of a subsystem are the other two states in cyclic order", "product-ids")


# ------------------------------------------------------------------ A01-A04 qrules adapter
def conc(v):
    """Concrete integer value of an input on this path."""
    if isinstance(v, Num):
        return sx.CURRENT.value(v.n)
    return int(v)


def topology(k, ids=(0, 1, 2, 3, 4), order=0):
    """Isobar topology with spectator ids[k]."""
    from qrules.topology import Edge, Topology

    i, j = [x for x in (1, 2, 3) if x != k]
    edges = {
        ids[0]: Edge(None, 0), ids[k]: Edge(0, None), ids[4]: Edge(0, 1), ids[i]: Edge(1, None), ids[j]: Edge(1, None),
    }
    keys = list(edges)
    if order:
        keys = keys[order:] + keys[:order]
    else:
        keys.sort()
    return Topology(nodes={0, 1}, edges={x: edges[x] for x in keys})


def q_particle(name, spin=0, mass=1.0, width=0.0, parity=1, latex=None, pid=0):
    from qrules.particle import Particle

    return Particle(name=name, pid=pid, latex=latex, spin=spin, mass=mass, width=width, parity=parity)


def a01(chk) -> None:
    """to_three_body_decay: states, chains and couplings of the transitions, each once."""
    chk.encoded("adapter.qrules.to_three_body_decay", "adapter.qrules.convert_transitions", "adapter.qrules._to_decay_chain", "adapter.qrules._to_particle/_to_state/_to_ls_coupling")
    chk.bound("2 transitions (thorough: also 3); each with any spectator, L = 0..3 and S = 0..2 at either node (or none), one of two resonances, any spin projection label, eight numberings of the states, both orders of node and state mappings, as list or iterator; parities -1, +1 or undefined")
    chk.pmap(a01_item, [(n, part) for n in ((2, 3) if chk.thorough else (2,)) for part in ("structure", "couplings")])


def a01_item(chk, item) -> None:
    n, part = item
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import FrozenTransition
    from qrules.transition import State as QState

    from ampform_dpd.adapter.qrules import to_three_body_decay

    def body(v):
        # initial < final < intermediate IDs; the second one is how qrules numbers
        ids = ((0, 1, 2, 3, 4), (-1, 0, 1, 2, 3), (0, 2, 3, 4, 5), (1, 2, 3, 4, 5), (-1, 1, 2, 3, 4), (-3, 0, 1, 2, 5), (0, 1, 2, 4, 5), (0, 1, 3, 5, 7))[conc(v["ids"])]
        par = {0: None, 1: 1, 2: -1}[conc(v["parity"])]
        ts = []
        outer = [q_particle(f"p{i}", spin=Fraction(i, 2), mass=1.0 + i, width=0.25 * i, parity=(1, -1, 1, 1)[i] if i != 3 else par, latex=None if i == 2 else rf"\pi_{i}") for i in range(4)]
        for t in range(n):
            k = conc(v[f"k{t}"])
            r = conc(v[f"r{t}"])
            res = q_particle(f"R{r}", spin=1 + r, mass=2.0 + r, width=0.5 + r, parity=par if r else 1, latex=f"R_{r}")
            rev = bool(v["rev"] == 1)
            nodes = {}
            for node, tag in ((0, "P"), (1, "D")):
                L, S = v[f"L{tag}{t}"], v[f"S{tag}{t}"]
                nodes[node] = InteractionProperties() if v["none"] == 1 else InteractionProperties(l_magnitude=L, l_projection=0, s_magnitude=S, s_projection=0)
            states = {ids[i]: QState(outer[i], Fraction(i, 2) % 1 if t % 2 == 0 else -(Fraction(i, 2) % 1)) for i in range(4)}
            states[ids[4]] = QState(res, 0)
            if rev:
                nodes = dict(reversed(nodes.items()))
                states = dict(reversed(states.items()))
            ts.append(FrozenTransition(topology(k, ids), states=states, interactions=nodes))
        d = to_three_body_decay(iter(ts) if rev else ts)  # noqa: F821
        out = []
        for c in d.chains:
            ls = [None if x is None else (x.L, x.S) for x in (c.incoming_ls, c.outgoing_ls)]
            out.append((c.spectator.index, tuple(sorted(p.index for p in c.decay_products)), c.resonance.name, ls, (c.resonance.latex, c.resonance.mass, c.resonance.width, c.resonance.parity, c.resonance.spin)))
        st = {i: (s.name, s.latex, s.spin, s.parity, s.mass, s.width, s.index) for i, s in d.states.items()}
        return out, st, par

    def claim(v, res):
        if isinstance(res, Raised):
            return FALSE
        chains, st, par = res
        exp = {i: (f"p{i}", f"p{i}" if i == 2 else rf"\pi_{i}", sp.Rational(i, 2), (1, -1, 1, 1)[i] if i != 3 else par, 1.0 + i, 0.25 * i, i) for i in range(4)}
        if st != exp:
            return FALSE
        props = {f"R{r}": (f"R_{r}", 2.0 + r, 0.5 + r, par if r else 1, sp.Integer(1 + r)) for r in range(2)}
        for c in chains:
            if props.get(c[2]) != c[4] or c[1] != tuple(x for x in (1, 2, 3) if x != c[0]):
                return FALSE

        def match(c, t):
            cs = [zint(v[f"k{t}"]) == c[0], zint(v[f"r{t}"]) == int(c[2][1:])]
            for (L, S), ls in zip(((f"LP{t}", f"SP{t}"), (f"LD{t}", f"SD{t}")), c[3]):
                if ls is None:
                    cs.append(zint(v["none"]) == 1)
                else:
                    cs += [zint(v["none"]) == 0, same(ls[0], zint(v[L])), same(ls[1], z2(v[S]), 2)]
            return z3.And(cs)

        cs = [z3.Or([match(c, t) for c in chains] or [FALSE]) for t in range(n)]
        cs += [z3.Or([match(c, t) for t in range(n)]) for c in chains]
        for t in range(n):  # no duplicates
            cs.append(z3.Sum([z3.If(match(c, t), 1, 0) for c in chains]) == 1)
        return z3.And(cs)

    base = dict(none=(0, 1, 1, int), parity=(0, 2, 1, int), ids=(0, 7, 1, int), rev=(0, 1, 1, int))
    kr = {f"k{t}": (1, 3, 1, int) for t in range(n)} | {f"r{t}": (0, 1, 1, int) for t in range(n)}
    ls = {f"L{tag}{t}": (0, 3, 1, int) for t in range(n) for tag in "PD"} | {f"S{tag}{t}": (0, 4, 2, sp.Rational) for t in range(n) for tag in "PD"}
    fixed = lambda d: {k: (lo, lo, den, kind) for k, (lo, hi, den, kind) in d.items()}  # noqa: E731
    if part == "structure":  # conversion options and structure
        opts = base if n == 2 else fixed(base) | {"ids": (0, 1, 1, int)}
        symbolic_check(chk, Inputs(**opts, **kr, **fixed(ls)), body, claim, "conversion keeps states, spectators and resonances; every distinct chain once", f"convert-structure:{n}")
    else:
        few = {k: (0, 2 if k[:2] == "LP" and n == 2 else int(n == 2 or k[0] == "L" or k == "SD0"), den, kind) for k, (lo, hi, den, kind) in ls.items()}
        if chk.thorough and n == 2:
            few = {k: (lo, min(hi, 3 if k[:2] == "LP" else 2 - int(k in {"SP1", "SD1"})), den, kind) for k, (lo, hi, den, kind) in ls.items()}
        symbolic_check(chk, Inputs(**fixed(base) | {"rev": base["rev"]}, **fixed(kr), **few), body, claim, "conversion keeps the LS couplings of either node; every distinct chain once", f"convert-ls:{n}")


def a02(chk) -> None:
    """Minimal-LS filter."""
    n = 3
    hi = 3 if chk.thorough else 2
    chk.encoded("adapter.qrules.filter_min_ls", "adapter.qrules._get_decay_product_ids", "adapter.qrules.to_three_body_decay (min_ls)")
    chk.bound(f"{n} transitions with L = 0..{hi}, S in {{0, 1}} (thorough: 0..2) at either node, two resonances, two spectators; filter on either, both or no node")
    chk.pmap(a02_item, [(kind, m) for m in range(4) for kind in ("L", "S", "decay")])


def a02_item(chk, item) -> None:
    kind, mode = item
    from qrules.topology import FrozenTransition

    from ampform_dpd.adapter.qrules import filter_min_ls, to_three_body_decay
    from ampform_dpd.decay import LSCoupling, Particle

    n = 3
    hi = 3 if chk.thorough else 2
    P = Particle

    def transitions(v):
        ts = []
        for t in range(n):
            k = conc(v[f"k{t}"])
            r = conc(v[f"r{t}"])
            states = {i: mk_state(i) for i in range(4)} | {4: P(f"R{r}", "R", 0, 1, 1.0, 0.1)}
            ts.append(FrozenTransition(topology(k), states=states, interactions={
                0: LSCoupling(v[f"LP{t}"], v[f"SP{t}"]), 1: LSCoupling(v[f"LD{t}"], v[f"SD{t}"])}))
        return ts

    def body_for(nodes):
        def body(v):
            ts = transitions(v)
            out = filter_min_ls(iter(ts) if v["lazy"] == 1 else ts, nodes)
            rows = []
            for t in out:
                (spec,) = t.topology.get_edge_ids_outgoing_from_node(0) - {4}
                rows.append((spec, t.states[4].name, [(t.interactions[i].L, t.interactions[i].S) for i in (0, 1)]))
            return rows

        return body

    def claim_for(nodes):
        eff = {0, 1} if nodes is None else nodes

        def claim(v, rows):
            if isinstance(rows, Raised):
                return FALSE
            val = {}
            for t in range(n):
                for node, tag in ((0, "P"), (1, "D")):
                    val[t, node] = (zint(v[f"L{tag}{t}"]), z2(v[f"S{tag}{t}"]))

            def group(a, b):
                cs = [zint(v[f"k{a}"]) == zint(v[f"k{b}"]), zint(v[f"r{a}"]) == zint(v[f"r{b}"])]
                for node in (0, 1):
                    if node not in eff:
                        cs += [val[a, node][0] == val[b, node][0], val[a, node][1] == val[b, node][1]]
                return z3.And(cs)

            def le(x, y):
                return z3.Or(x[0] < y[0], z3.And(x[0] == y[0], x[1] <= y[1]))

            def represents(row, t):
                spec, name, ls = row
                cs = [zint(v[f"k{t}"]) == spec, zint(v[f"r{t}"]) == int(name[1:])]
                for node in (0, 1):
                    L, S = num(ls[node][0]), num(ls[node][1])
                    got = (L.n, S.n * (2 // S.d))
                    if node in eff:
                        mem = [t2 for t2 in range(n)]
                        cs.append(z3.And([z3.Implies(group(t, t2), le(got, val[t2, node])) for t2 in mem]))
                        cs.append(z3.Or([z3.And(group(t, t2), got[0] == val[t2, node][0], got[1] == val[t2, node][1]) for t2 in mem]))
                    else:
                        cs += [got[0] == val[t, node][0], got[1] == val[t, node][1]]
                return z3.And(cs)

            cs = []
            for t in range(n):
                cs.append(z3.Sum([z3.If(represents(r, t), 1, 0) for r in rows]) == 1)
            for r in rows:
                cs.append(z3.Or([represents(r, t) for t in range(n)]))
            return z3.And(cs)

        return claim

    smax = 4 if chk.thorough else 2
    opt, nodes = ((True, None), ((True, False), {0}), ((False, True), {1}), (False, set()))[mode]
    ls = {}
    if kind == "L":
        spec = {f"k{t}": (1, 2, 1, int) for t in range(n)} | {f"r{t}": (0, 0, 1, int) for t in range(n)}
        for t in range(n):
            ls |= {f"LP{t}": (0, hi if t else 1, 1, int), f"SP{t}": (0, 0, 2, sp.Rational), f"LD{t}": (0, 1, 1, int), f"SD{t}": (0, 0, 2, sp.Rational)}
        spec["k0"] = spec["k1"] = (1, 1, 1, int)
        symbolic_check(chk, Inputs(**spec, **ls, lazy=(0, 0, 1, int)), body_for(nodes), claim_for(nodes), f"minimal-LS filter on nodes {nodes}: L", f"minls-L:{nodes}")
    elif kind == "S":
        spec = {f"k{t}": (1, 1, 1, int) for t in range(n)} | {f"r{t}": (0, 1 if t == 2 else 0, 1, int) for t in range(n)}
        for t in range(n):
            ls |= {f"LP{t}": (0, 1 if t == 1 or chk.thorough else 0, 1, int), f"SP{t}": (0, smax, 2, sp.Rational), f"LD{t}": (1, 1, 1, int), f"SD{t}": (0, 1 if t else 0, 2, sp.Rational)}
        symbolic_check(chk, Inputs(**spec, **ls, lazy=(0, 0, 1, int)), body_for(nodes), claim_for(nodes), f"minimal-LS filter on nodes {nodes}: S and resonances", f"minls-S:{nodes}")
        # any iterable of transitions: one that can be read only once too
        small = {x: (lo, lo + (x in {"LP0", "LD1", "r2"}), den, t) for x, (lo, hi_, den, t) in {**spec, **ls}.items()}
        symbolic_check(chk, Inputs(**small, lazy=(0, 1, 1, int)), body_for(nodes), claim_for(nodes), f"minimal-LS filter on nodes {nodes}: list or iterator", f"minls-iter:{nodes}")
    else:  # the decay created with min_ls = (production, decay) or bool
        def body(v):
            d = to_three_body_decay(transitions(v), min_ls=opt)
            return [(c.spectator.index, c.resonance.name, [(x.L, x.S) for x in (c.incoming_ls, c.outgoing_ls)]) for c in d.chains]

        spec = {f"k{t}": (1, 1, 1, int) for t in range(n)} | {f"r{t}": (0, 1 if t == 2 else 0, 1, int) for t in range(n)}
        for t in range(n):
            ls |= {f"LP{t}": (0, 1, 1, int), f"SP{t}": (0, 0, 2, sp.Rational), f"LD{t}": (0, 1, 1, int), f"SD{t}": (0, 0, 2, sp.Rational)}
        symbolic_check(chk, Inputs(**spec, **ls), body, claim_for(nodes), f"decay created with min_ls={opt}", f"minls-decay:{opt}")


def a03(chk) -> None:
    """Permutation of equal final states."""
    from qrules.topology import FrozenTransition

    from ampform_dpd.adapter.qrules import permute_equal_final_states
    from ampform_dpd.decay import Particle

    chk.encoded("adapter.qrules.permute_equal_final_states", "adapter.qrules._get_equal_final_state_ids", "adapter.qrules._uniqueness_repr")
    chk.bound("one or two transitions, any spectator, any identity pattern of the three final states, own or qrules particles, IDs 1..3 or 0..2; typeset names default, equal or pairwise different")

    def body(v):
        from qrules.transition import State as QState

        names = [f"n{conc(v[x])}" for x in "abc"]
        k = conc(v["k"])
        ids = (0, 1, 2, 3, 4) if v["shift"] == 0 else (-1, 0, 1, 2, 3)
        tex = [[None, None, None], ["a", "a", "a"], ["a", "b", "c"]][conc(v["tex"])]
        if v["own"] == 1:
            states = {0: mk_state(0)} | {i: mk_state(i, name=names[i - 1], latex=tex[i - 1]) for i in (1, 2, 3)} | {4: Particle("R", "R", 0, 1, 1.0, 0.1)}
        else:
            states = {0: QState(q_particle("X"), 0)} | {i: QState(q_particle(names[i - 1], latex=tex[i - 1]), 0) for i in (1, 2, 3)} | {4: QState(q_particle("R"), 0)}
        states = {ids[i]: s for i, s in states.items()}
        t = FrozenTransition(topology(k, ids), states=states, interactions={0: None, 1: None})
        if v["many"] == 1:
            t2 = FrozenTransition(topology(k % 3 + 1, ids), states=states, interactions={0: None, 1: None})
            out = permute_equal_final_states([t, t2] if v["shift"] == 0 else (x for x in (t, t2)))
        else:
            out = permute_equal_final_states(t)
        inv = {x: i for i, x in enumerate(ids)}
        rows = []
        for o in out:
            (spec,) = o.topology.get_edge_ids_outgoing_from_node(0) - {ids[4]}
            rows.append((inv[spec], o.states == t.states and o.interactions == t.interactions, tuple(sorted(inv[x] for x in o.topology.get_edge_ids_outgoing_from_node(1)))))
        return rows

    def claim(v, rows):
        if isinstance(rows, Raised):
            return FALSE
        if not all(ok and dec == tuple(x for x in (1, 2, 3) if x != spec) for spec, ok, dec in rows):
            return FALSE
        name = {i + 1: zint(v[x]) for i, x in enumerate("abc")}
        k = zint(v["k"])
        k2 = k % 3 + 1

        def cnt(s):
            return sum(1 for r in rows if r[0] == s)

        cs = []
        for s in (1, 2, 3):
            def reach(kk, s=s):
                return z3.Or([z3.And(kk == a, z3.Or(a == s, name[a] == name[s])) for a in (1, 2, 3)])
            want = z3.If(reach(k), 1, 0) + z3.If(z3.And(zint(v["many"]) == 1, reach(k2)), 1, 0)
            cs.append(want == cnt(s))
        return z3.And(cs)

    symbolic_check(chk, Inputs(a=(0, 2, 1, int), b=(0, 2, 1, int), c=(0, 2, 1, int), k=(1, 3, 1, int), own=(0, 1, 1, int), many=(0, 1, 1, int), shift=(0, 1, 1, int), tex=(0, 2, 1, int)),
                   body, claim, "permuting equal final states yields every spectator reachable by exchanging equal particles, once each", "permute")


def a04(chk) -> None:
    """Relabelling of state IDs."""
    from qrules.topology import FrozenTransition
    from qrules.transition import ReactionInfo

    from ampform_dpd.adapter.qrules import normalize_state_ids

    del ReactionInfo
    chk.encoded("adapter.qrules.normalize_state_ids")
    lo, hi = (-3, 6) if chk.thorough else (-1, 5)
    chk.bound(f"five different state IDs in {lo}..{hi} in increasing order of role, any spectator, any insertion order of the edges (5 rotations); transition, topology or list of transitions")

    def body(v):
        ids = [conc(v[f"i{n}"]) for n in range(5)]
        k = conc(v["k"])
        order = conc(v["order"])
        top = topology(k, ids, order)
        states = {ids[n]: f"s{n}" for n in range(5)}
        keys = ids[order:] + ids[:order]
        t = FrozenTransition(top, states={x: states[x] for x in keys}, interactions={0: "P", 1: "D"})
        how = conc(v["how"])
        if how == 0:
            out = normalize_state_ids(t)
        elif how == 1:
            (out,) = normalize_state_ids([t])
        else:
            out = FrozenTransition(normalize_state_ids(top), states={n: f"s{n}" for n in range(5)}, interactions={0: "P", 1: "D"})
        tp = out.topology
        return (
            [out.states[n] for n in range(5)], sorted(out.states), sorted(tp.incoming_edge_ids), sorted(tp.outgoing_edge_ids), sorted(tp.intermediate_edge_ids),
            sorted(tp.get_edge_ids_outgoing_from_node(0)), sorted(tp.get_edge_ids_outgoing_from_node(1)), dict(out.interactions),
        )

    def claim(v, res):
        if isinstance(res, Raised):
            return FALSE
        states, keys, inc, out, mid, n0, n1, inter = res
        static = states == [f"s{n}" for n in range(5)] and keys == list(range(5)) and (inc, out, mid) == ([0], [1, 2, 3], [4]) and inter == {0: "P", 1: "D"}
        if not static or len(n0) != 2 or n0[1] != 4:
            return FALSE
        k = zint(v["k"])
        return z3.And(k == n0[0], z3.BoolVal(n1 == [x for x in (1, 2, 3) if x != n0[0]]))

    inp = Inputs(**{f"i{n}": (lo, hi, 1, int) for n in range(5)}, k=(1, 3, 1, int), order=(0, 4, 1, int) if chk.thorough else (0, 2, 1, int), how=(0, 2, 1, int))
    inp.extra += [z3.Int(f"i{n}") < z3.Int(f"i{n + 1}") for n in range(4)]
    symbolic_check(chk, inp, body, claim, "relabelling maps the IDs in increasing order to 0, 1, ... and keeps states and graph", "relabel")
    if not chk.full:
        chk.bound("any assignment of five IDs of arbitrary order to initial, final and intermediate states (120), any spectator, as frozen or mutable transition, with or without intermediate state, in a reaction, problem set or tuple (7 containers)")
        chk.pmap(a04_roles, list(range(7)))
    if not chk.full:
        a04_collections(chk)


def a04_roles(chk, how) -> None:
    """The role of an ID (initial, intermediate, final) does not follow its size."""
    from itertools import permutations as perms

    from qrules.topology import FrozenTransition, MutableTransition
    from qrules.transition import ProblemSet, ReactionInfo
    from qrules.transition import State as QState

    from ampform_dpd.adapter.qrules import normalize_state_ids

    roles = list(perms(range(5)))
    def body(v):
        base = (conc(v["x"]), conc(v["x"]) + 1, conc(v["x"]) + 2, 7, 11)
        perm = roles[conc(v["perm"])]
        ids = [base[p] for p in perm]
        k = conc(v["k"])
        top = topology(k, ids)
        states = {ids[n]: QState(q_particle(f"s{n}", mass=1.0 + n), 0) for n in range(5)}
        inter = {0: "P", 1: "D"}
        fixed = FrozenTransition(top, states=states, interactions=inter)
        part = {i: s for i, s in states.items() if i != ids[4]}
        if how == 0:
            out = normalize_state_ids(fixed)
        elif how == 1:
            out = normalize_state_ids(MutableTransition(top, dict(states), dict(inter)))
        elif how == 2:
            out = normalize_state_ids(MutableTransition(top, dict(part), dict(inter)))
        elif how == 3:
            (out,) = normalize_state_ids(ReactionInfo([fixed], formalism="helicity")).transitions
        elif how == 4:
            (out,) = normalize_state_ids((fixed,))
        else:
            ps = ProblemSet(top, MutableTransition(top, dict(part), {}), MutableTransition(top, dict(states), dict(inter)))
            got = normalize_state_ids(ps)
            out = got.initial_facts if how == 5 else got.solving_settings
            if not got.topology == got.initial_facts.topology == got.solving_settings.topology:
                return None
        names = {i: s.particle.name for i, s in out.states.items()}
        tp = out.topology
        return perm, k, names, {i: (e.originating_node_id, e.ending_node_id) for i, e in tp.edges.items()}, dict(out.interactions)

    def claim(v, res):
        if isinstance(res, Raised) or res is None:
            return FALSE
        perm, k, names, edges, inter = res
        want = {0: (None, 0), 4: (0, 1)} | {i: ((0, None) if i == k else (1, None)) for i in (1, 2, 3)}
        n_states = 4 if how in (2, 5) else 5
        ok = edges == {perm[n]: e for n, e in want.items()}
        ok &= names == {perm[n]: f"s{n}" for n in range(n_states)}
        ok &= inter == ({} if how == 5 else {0: "P", 1: "D"})
        return z3.And(zint(v["k"]) == k, z3.BoolVal(ok))

    inp = Inputs(x=(-2, 0, 1, int) if chk.thorough else (-1, -1, 1, int), perm=(0, len(roles) - 1, 1, int), k=(1, 3, 1, int))
    symbolic_check(chk, inp, body, claim, f"relabelling follows the order of the IDs, whatever their role, and keeps states on their edges (container {how})", "relabel-roles")


def a04_collections(chk) -> None:
    """Collections are relabelled entry by entry."""
    from qrules.topology import FrozenTransition

    from ampform_dpd.adapter.qrules import normalize_state_ids

    chk.bound("collections of three entries, each one of three transitions with own numberings, as list, tuple, iterator of transitions or of topologies")

    def body(v):
        make = []
        for n, ids in enumerate(((0, 1, 2, 3, 4), (-1, 0, 1, 2, 3), (2, 4, 5, 7, 9))):
            make.append(FrozenTransition(topology(n + 1, ids), states={ids[m]: f"s{n}{m}" for m in range(5)}, interactions={0: "P", 1: "D"}))
        picks = [conc(v[x]) for x in "abc"]
        items = [make[p] for p in picks]
        how = conc(v["how"])
        arg = items if how == 0 else tuple(items) if how == 1 else iter(items) if how == 2 else [t.topology for t in items]
        out = list(normalize_state_ids(arg))
        if how == 3:
            return [(tp.get_edge_ids_outgoing_from_node(0) - {4}).copy().pop() - 1 for tp in out]
        if not all(list(t.states.values()) == [f"s{t.states[0][1]}{m}" for m in range(5)] for t in out):
            return None
        return [int(t.states[0][1]) for t in out]

    def claim(v, res):
        if isinstance(res, Raised) or res is None or len(res) != 3:
            return FALSE
        return z3.And([zint(v[x]) == r for x, r in zip("abc", res)])

    symbolic_check(chk, Inputs(a=(0, 2, 1, int), b=(0, 2, 1, int), c=(0, 2, 1, int), how=(0, 3, 1, int)), body, claim,
                   "relabelling a collection relabels each entry, in order, repeated entries included", "relabel-collection")


del permutations, time


# ------------------------------------------------------------------ B11 / D05
def b11(chk) -> None:
    """Default reference subsystem: one with the most chains; others warn only if they have no chain."""
    import warnings

    from ampform_dpd import DalitzPlotDecompositionBuilder
    from ampform_dpd.decay import Particle, ThreeBodyDecay

    n = 6 if chk.thorough else 5
    chk.encoded("DalitzPlotDecompositionBuilder.formulate", "DalitzPlotDecompositionBuilder.formulate_aligned_amplitude", "_get_best_reference_subsystems", "_check_reference_subsystems")
    chk.bound(f"0 to {n} chains over the three subsystems in any order, with equal or different resonances; reference subsystem not given or 1, 2, 3; particles with spins (1, 1/2, 1/2, 1)")

    def decay(v):
        size = conc(v["size"])
        spins = [1, Fraction(1, 2), Fraction(1, 2), 1]
        states = {i: mk_state(i, spin=spins[i]) for i in range(4)}
        chains = []
        for c in range(size):
            k = conc(v[f"k{c}"])
            i, j = [x for x in (1, 2, 3) if x != k]
            name = f"R{c % 2}" if v["same"] == 1 else f"R{c}"
            chains.append(mk_chain(states[0], states[k], states[i], states[j], Particle(name, name, Fraction(k != 3, 2), 1, 1.0, 0.1)))
        return ThreeBodyDecay(states=states, chains=chains)

    def body(v):
        d = decay(v)
        b = DalitzPlotDecompositionBuilder(d)
        ref = None if v["ref"] == 0 else conc(v["ref"])
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            helicities = (sp.Integer(0), sp.S.Half, sp.S.Half, sp.Integer(1))
            chosen = b.formulate_aligned_amplitude(*helicities, ref)
            warned = bool(got)
            same_as = [k for k in (1, 2, 3) if b.formulate_aligned_amplitude(*helicities, k) == chosen] if ref is None else []
        return same_as, warned

    def claim(v, res):
        size = zint(v["size"])
        ks = [zint(v[f"k{c}"]) for c in range(n)]
        count = {k: z3.Sum([z3.If(z3.And(c < size, ks[c] == k), 1, 0) for c in range(n)]) for k in (1, 2, 3)}
        ref = zint(v["ref"])
        if isinstance(res, Raised):
            return z3.And(size == 0, ref == 0, z3.BoolVal(isinstance(res.exc, ValueError)))
        same_as, warned = res
        best = z3.Or([z3.And([count[k] >= count[x] for x in (1, 2, 3)]) for k in same_as] or [FALSE])
        absent = z3.Or([z3.And(ref == k, count[k] == 0) for k in (1, 2, 3)])
        return z3.If(ref == 0, z3.And(best, size > 0), z3.BoolVal(warned) == absent)

    spec = dict(size=(0, n, 1, int), ref=(0, 3, 1, int), same=(0, 1, 1, int)) | {f"k{c}": (1, 3, 1, int) for c in range(n)}
    inp = Inputs(**{**spec, "ref": (0, 0, 1, int)})
    inp.extra += [z3.Implies(z3.Int("size") <= c, z3.Int(f"k{c}") == 1) for c in range(n)]
    symbolic_check(chk, inp, body, claim, "without a given reference subsystem the one with the most chains is taken", "default-reference")
    inp = Inputs(**{**spec, "ref": (1, 3, 1, int), "size": (0, 2, 1, int)})
    inp.extra += [z3.Implies(z3.Int("size") <= c, z3.Int(f"k{c}") == 1) for c in range(n)]
    symbolic_check(chk, inp, body, claim, "a reference subsystem without chains gives a warning, others do not", "reference-warning")


def d05(chk) -> None:
    """Products of defined expressions."""
    from ampform_dpd import DefinedExpression

    from ..poly import Ctx, Frac
    from ..trans import Translator

    chk.encoded("DefinedExpression.__mul__")
    chk.bound("products of two or three factors, each a defined expression, an (expression, parameters) tuple or list, a symbol or a number, also zero (the first one a defined expression); parameters with equal or different names; operands used again afterwards")
    names = ("p", "q", "r")

    def operand(kind, n, key):
        x, par = sp.Symbol(f"x{n}"), sp.Symbol(names[key])
        e = x + n * par
        pars = {par: 10.0 + n}
        return [lambda: DefinedExpression(e, pars), lambda: (e, pars), lambda: [e, pars], lambda: e, lambda: sp.Rational(2 * n + 1, 2), lambda: 0, lambda: DefinedExpression(e), DefinedExpression][kind](), (e if kind in {0, 1, 2, 3, 6} else [sp.Rational(2 * n + 1, 2), sp.Integer(0), None, sp.S.One][kind - 4]), (pars if kind < 3 else {})

    def body(v):
        ops = [operand(conc(v[f"k{n}"]), n, conc(v[f"p{n}"])) for n in range(conc(v["n"]))]
        before = [(str(o.expression), dict(o.parameters)) if isinstance(o, DefinedExpression) else str(o) for o, _, _ in ops]
        out = ops[0][0]
        for o, _, _ in ops[1:]:
            if v["inplace"] == 1:
                out *= o
            else:
                out = out * o
        after = [(str(o.expression), dict(o.parameters)) if isinstance(o, DefinedExpression) else str(o) for o, _, _ in ops]
        want = sp.Integer(1)
        pars = {}
        for _, e, p in ops:
            want = want * e
            pars = pars | p
        ctx = Ctx()
        tr = Translator(ctx, auto=lambda s: Frac(ctx.complex_gen(str(s))))
        differs = chk.equal(ctx, tr(sp.sympify(out.expression)), tr(sp.sympify(want)), "expression of a product") is not None
        return differs, dict(out.parameters) == pars, before == after, isinstance(out, DefinedExpression)

    def claim(v, res):
        return FALSE if isinstance(res, Raised) else z3.BoolVal(not res[0] and all(res[1:]))

    firsts = (0, 6, 7)
    for kind0 in firsts:
        symbolic_check(chk, Inputs(n=(1, 3, 1, int), k0=(kind0, kind0, 1, int), k1=(0, 7, 1, int), k2=(0, 7 if chk.thorough else 4, 1, int), p0=(0, 0, 1, int), p1=(0, 1, 1, int), p2=(0, 2, 1, int), inplace=(0, 1, 1, int)), body, claim,
                       "a product of defined expressions has the product of the expressions and all parameters", f"products:{kind0}")
