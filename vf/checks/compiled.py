"""C01, C02: compiled (lambdified) functions; B07: complete expression of a model.

The compiled function is executed on JAX tracers; the recorded program (jaxpr) is then
executed symbolically, operation by operation, on `poly.Frac` values.
"""
from __future__ import annotations

import math
import random
import shutil
import tempfile
import warnings
from fractions import Fraction
from itertools import product

import numpy as np
import sympy as sp

from ..models import AngleBank, H, ModelView, Spec, build, oracle_amplitude, oracle_intensity
from ..poly import Ctx, Frac
from ..report import own_cache
from ..trans import Translator, Untranslatable
from .builder import builder, compare, subs_label, with_dynamics
from .dynamics import Kin, sample, two_body

warnings.simplefilter("ignore")
Frac.sqrt = lambda self: self.ctx.sqrt(self)  # numpy.sqrt of an object calls this


# ------------------------------------------------------------------ program execution
def exact(x: float):
    """Fraction q or ('sqrt', sign, q): the exact number that the double x stands for."""
    x = float(x)
    f = Fraction(x)
    if f.denominator <= 2**12:
        return f
    g = f.limit_denominator(5000)
    if abs(f - g) <= abs(f) * Fraction(4, 10**16):
        return g
    sq = Fraction(x * x).limit_denominator(5000)
    if abs(float(sq) - x * x) <= 2e-15 * x * x:
        return ("sqrt", 1 if x > 0 else -1, sq)
    return f  # no short form: the exact binary value


class Single(Exception):
    """A value is not computed in double precision."""


class Modulus:
    """|of|, not yet expanded (its square needs no root)."""

    def __init__(self, of) -> None:
        self.of = of


class Machine:
    """Executes a jaxpr on arrays of Frac / linear forms of angles."""

    def __init__(self, ctx: Ctx, tr: Translator) -> None:
        self.ctx, self.tr = ctx, tr
        self.prims: set[str] = set()

    # -- numbers
    def num(self, v):
        if isinstance(v, (Frac, sp.Basic, bool)):
            return v
        if isinstance(v, (np.bool_,)):
            return bool(v)
        if isinstance(v, complex) or np.iscomplexobj(v):
            v = complex(v)
            return self.real(v.real) + self.real(v.imag) * Frac(self.ctx.I)
        return self.real(float(v))

    def real(self, x):
        e = exact(x)
        if isinstance(e, Fraction):
            return self.ctx.frac(e)
        _, sign, q = e
        return Frac(self.ctx.sqrt_int(q.numerator * q.denominator), self.ctx.const(q.denominator)) * sign

    def array(self, v):
        a = np.asarray(v)
        if a.dtype == object:
            return a
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = self.num(a[i].item())
        return out

    def each(self, fn, *arrs, keep=False):
        if not keep:
            arrs = [self.force(a) for a in arrs]
        arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in arrs])
        out = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = fn(*[a[i] for a in arrs])
        return out

    def force(self, a):
        a = np.asarray(a, dtype=object)
        if any(isinstance(x, Modulus) for x in a.flat):
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                out[i] = self.ctx.sqrt(a[i].of.abs2()) if isinstance(a[i], Modulus) else a[i]
            return out
        return a

    def lin(self, v):
        """constant as a SymPy number, for linear forms of angles."""
        if isinstance(v, sp.Basic):
            return v
        c = v.num.as_const() if v.den.as_const() is not None else None
        if c is None:
            raise Untranslatable("angle combined with a non-constant")
        return sp.Rational(c / v.den.as_const())

    def bin(self, op, x, y):
        if isinstance(x, sp.Basic) or isinstance(y, sp.Basic):
            if op == "mul" or op == "div":
                a, b = self.lin(x), self.lin(y)
                return a * b if op == "mul" else a / b
            try:
                a, b = self.lin(x), self.lin(y)
            except Untranslatable:
                raise
            return a + b if op == "add" else a - b
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        return x / y

    def power(self, x, e):
        q = Fraction(e).limit_denominator(4)
        if q.denominator == 1:
            return x ** int(q)
        if q.denominator == 2:
            return self.ctx.sqrt(x) ** q.numerator
        raise Untranslatable(f"power {e}")

    def trig(self, name, x):
        if not isinstance(x, sp.Basic):
            if x.num.is_zero():
                return self.ctx.frac(1 if name == "cos" else 0)
            raise Untranslatable(f"{name} of a non-angle")
        return self.tr(sp.cos(x) if name == "cos" else sp.sin(x))

    def compare(self, name, x, y):
        d = x - y
        c = d.num.as_const() if d.den.as_const() is not None else None
        if c is None:
            raise Untranslatable(f"branch on {name}")
        c = c / d.den.as_const()
        return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[name]

    # -- programs
    def run(self, jaxpr, consts, args):
        env: dict = {}

        def read(v):
            return self.array(v.val) if hasattr(v, "val") else env[v]

        def write(v, x):
            env[v] = x

        for v, x in zip(jaxpr.constvars, consts):
            write(v, self.array(x))
        for v, x in zip(jaxpr.invars, args):
            write(v, x)
        for eq in jaxpr.eqns:
            for v in eq.outvars:
                dt = np.dtype(v.aval.dtype)
                if dt.kind in "fc" and dt.itemsize not in ({"f": (8,), "c": (16,)}[dt.kind]):
                    raise Single(str(dt))
            ins = [read(v) for v in eq.invars]
            outs = self.step(eq, ins)
            for v, x in zip(eq.outvars, outs):
                write(v, x)
        return [read(v) for v in jaxpr.outvars]

    def step(self, eq, ins):  # noqa: PLR0911, PLR0912
        p, n = eq.params, eq.primitive.name
        self.prims.add(n)
        ctx = self.ctx
        if n in {"pjit", "jit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call", "remat"}:
            inner = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
            if hasattr(inner, "consts"):
                return self.run(inner.jaxpr, inner.consts, ins)
            return self.run(inner, (), ins)
        if n in {"add", "add_any", "sub", "mul", "div"}:
            op = "add" if n == "add_any" else n
            return [self.each(lambda a, b: self.bin(op, a, b), *ins)]
        one = {
            "neg": lambda a: -a,
            "integer_pow": lambda a: a.of.abs2() ** (int(p["y"]) // 2) if isinstance(a, Modulus) else a ** int(p["y"]),
            "square": lambda a: a.of.abs2() if isinstance(a, Modulus) else a * a,
            "sqrt": lambda a: ctx.sqrt(a),
            "rsqrt": lambda a: 1 / ctx.sqrt(a),
            "conj": lambda a: a.conj(),
            "real": lambda a: (a + a.conj()) * Fraction(1, 2),
            "imag": lambda a: (a - a.conj()) * Fraction(-1, 2) * ctx.I,
            "abs": lambda a: Modulus(a),
            "cos": lambda a: self.trig("cos", a),
            "sin": lambda a: self.trig("sin", a),
            "acos": lambda a: sp.Symbol(f"acos#{self.store(a)}"),
            "exp": lambda a: self.exp(a),
            "copy": lambda a: a, "copy_p": lambda a: a,
        }
        if n in one:
            even = n == "square" or (n == "integer_pow" and p["y"] % 2 == 0)
            return [self.each(one[n], *ins, keep=even or n in {"copy", "copy_p"})]
        if n == "convert_element_type":
            if np.dtype(p["new_dtype"]).kind == "i":
                self.each(lambda a: self.integer(a), *ins)
            return [ins[0]]
        if n == "pow":
            return [self.each(lambda a, b: self.power(a, self.constant(b)), *ins)]
        if n == "complex":
            return [self.each(lambda a, b: a + b * Frac(ctx.I), *ins)]
        if n == "select_n":
            return [self.each(lambda c, *cs: cs[int(c)], *ins)]
        if n in {"lt", "le", "gt", "ge", "eq", "ne"}:
            return [self.each(lambda a, b: self.compare(n, a, b), *ins)]
        if n == "broadcast_in_dim":
            shape = [1] * len(p["shape"])
            for d, i in zip(np.shape(ins[0]), p["broadcast_dimensions"]):
                shape[i] = d
            return [np.broadcast_to(np.reshape(ins[0], shape), p["shape"])]
        if n == "squeeze":
            return [np.squeeze(ins[0], axis=tuple(p["dimensions"]))]
        if n == "reshape":
            return [np.reshape(ins[0], p["new_sizes"])]
        raise Untranslatable(f"primitive {n}")

    def constant(self, v) -> float:
        if not (isinstance(v, Frac) and v.num.as_const() is not None and v.den.as_const() is not None):
            raise Untranslatable("non-constant exponent")
        return v.num.as_const() / v.den.as_const()

    def integer(self, v):
        if isinstance(v, Frac) and self.constant(v) % 1 == 0:
            return v
        raise Untranslatable("conversion to integers")

    def exp(self, a):
        for key, v in self.ctx.uf.items():
            if key[0] == "exp" and (key[1][0].num * a.den - a.num * key[1][0].den).is_zero():
                return v
        v = Frac(self.ctx.gen(f"exp#{len(self.ctx.uf)}", pos=True))
        self.ctx.uf[("exp", (a,))] = v
        return v

    def store(self, a) -> int:
        self.args = getattr(self, "args", [])
        self.args.append(a)
        return len(self.args) - 1


def trace(f, values: dict):
    """jaxpr of the compiled function f for scalar double (complex) arguments."""
    import jax

    ex = [0.37 + 0.11 * n + (0.2j if isinstance(v, Frac) and 0 in v.num.gens() else 0) for n, v in enumerate(values.values())]
    return jax.make_jaxpr(lambda *xs: f(dict(zip(values, xs))))(*ex)


def execute(ctx, tr, f, inputs: dict, updates=None):
    """Symbolic result of f; inputs: name -> Frac or angle symbol.

    `updates` are parameters that are set with update_parameters (symbolically).
    """
    names = list(inputs)
    upd = list(updates or {})
    if upd:
        def call(data):
            old = {n: f.parameters[n] for n in upd}
            f.update_parameters({n: data[n] for n in upd})
            try:
                return f({n: data[n] for n in names})
            finally:
                f.update_parameters(old)
    else:
        call = f
    jp = trace(call, {**inputs, **(updates or {})})
    m = Machine(ctx, tr)
    args = []
    for v in [*inputs.values(), *(updates or {}).values()]:
        a = np.empty((), dtype=object)
        a[()] = v
        args.append(a)
    out = m.run(jp.jaxpr, jp.consts, args)
    if len(out) != 1 or np.shape(out[0]) != ():
        raise Untranslatable(f"result of shape {[np.shape(o) for o in out]}")
    return m.force(out[0])[()], m


# ------------------------------------------------------------------ C01
DEFAULT = [Fraction(n, 8) for n in (11, 13, 7, 19, 5, 23, 17, 29, 3, 31, 37, 9)]


def value_key(sym) -> str:
    return sym.name


def one_function(chk, make, what, key, mode) -> None:
    """make() -> (expr, Kin/AnglesEnv). Compares compiled function and expression."""
    from ampform_dpd.io.cached import lambdify

    expr, env = make(mode)
    free = sorted(sp.sympify(expr).free_symbols, key=lambda s: s.name)
    data, pars, updates = {}, {}, {}
    for s in free:
        if s in env.fixed:
            pars[s] = env.fixed[s]
            if mode == "update" and s in env.updated:
                updates[s.name] = env.value(s)
        else:
            data[s.name] = env.value(s)
    # listed parameters that the expression does not contain must not matter
    if mode != "plain":
        pars[sp.Symbol("unused_parameter")] = 2.0
    try:
        f = lambdify(expr, pars) if mode != "plain" else lambdify(expr)
        got, m = execute(env.ctx, env.tr, f, data, updates)
    except Single as err:
        chk.violation(key, f"{what}: computed in {err} instead of double precision", {"dtype": str(err)}, True)
        return
    chk.count("compiled functions", 1)
    chk.count("program operations", len(m.prims))
    if mode != "plain":
        want = {s.name: complex(v) for s, v in pars.items()}
        if {k: complex(v) for k, v in f.parameters.items()} != want:
            chk.violation(key, f"{what}: parameters of the compiled function are {f.parameters}", {"expected": str(want)}, True)
            return
    oracle = env.oracle(expr)
    got = env.result(got, m, expr)
    if chk.equal(env.ctx, got, oracle, what) is None:
        if chk.validated < 4 and not expr.has(sp.acos):
            vals = env.sample(random.Random(chk.seed))
            for k, v in updates.items():
                f.update_parameters({k: env.number(v, vals)})
            real = complex(np.asarray(f({k: env.number(v, vals) for k, v in data.items()})))
            enc = complex(got.eval(vals))
            if abs(real - enc) > 1e-8 * max(1, abs(enc)):
                raise RuntimeError(f"encoding disagrees with the compiled function: {what}: {enc} vs {real}")
            chk.validated += 1
        return
    for n in range(6):
        vals = env.sample(random.Random(chk.seed + n))
        point = {k: env.number(v, vals) for k, v in data.items()}
        for k, v in updates.items():
            f.update_parameters({k: env.number(v, vals)})
        real = complex(np.asarray(f(point)))
        exp = env.exact_value(expr, vals)
        if abs(real - exp) > 1e-9 * max(1e-3, abs(exp)):
            chk.violation(key, what, {"compiled": str(real), "expression": str(exp), "arguments": {k: str(v) for k, v in point.items()}}, True)
            return
    chk.violation(key, what, {}, False)


ACOS = sp.Symbol("acos")


class Env:
    """Values of the symbols of an expression: Frac, angle symbols or fixed defaults."""

    def __init__(self, ctx, tr, fixed=None, updated=(), values=None) -> None:
        self.ctx, self.tr = ctx, tr
        self.fixed = fixed or {}
        self.updated = set(updated)
        self.values = values or {}

    def value(self, s):
        if s in self.tr.angles:
            return s
        if s in self.values:
            return self.values[s]
        return self.tr(s)

    def result(self, got, m, expr):
        """Compiled value; for +-acos(...) its argument (1 if the prefactor differs)."""
        if not isinstance(got, sp.Basic):
            return got
        (sym,) = got.free_symbols
        same = sp.simplify(got - self.outer(expr).subs(ACOS, sym)) == 0
        arg = m.args[int(sym.name[5:])]
        return arg if same else self.oracle(expr) + 1

    @staticmethod
    def outer(expr):
        e = sp.sympify(expr)
        return e.xreplace({a: ACOS for a in e.atoms(sp.acos)})

    def oracle(self, expr):
        e = sp.sympify(expr)
        at = e.atoms(sp.acos)
        return self.tr(next(iter(at)).args[0] if len(at) == 1 else e)

    def sample(self, rng):
        return sample(self.ctx, rng)

    def number(self, v, vals):
        if isinstance(v, sp.Symbol):
            c, s = self.tr.angles[v]
            return 2 * math.atan2(complex(s.eval(vals)).real, complex(c.eval(vals)).real)
        x = complex(v.eval(vals))
        return x.real if abs(x.imag) < 1e-300 else x

    def exact_value(self, expr, vals):
        rep = {}
        for s in sp.sympify(expr).free_symbols:
            x = self.value(s) if s not in self.fixed or s in self.updated else self.fixed[s]
            x = x if isinstance(x, (float, int, complex)) else self.number(x, vals)
            rep[s] = sp.Float(x) if not isinstance(x, complex) else sp.Float(x.real) + sp.I * sp.Float(x.imag)
        return complex(sp.N(sp.sympify(expr).doit().xreplace(rep), 17))


# -- the functions that are compiled
S_ = sp.symbols("s m0 Gamma0 m1 m2 R", nonnegative=True)
NUM = dict(m0=1.75, Gamma0=0.125, m1=0.25, m2=0.375, R=1.5, m_top=4.5, m_spec=0.5, R_prod=0.75, gamma=0.625)


def lineshape(name, L=0, doit=True):
    """-> maker(mode) of (expression, Env)."""

    def make(mode):
        from ampform_dpd import dynamics as dyn

        s, m0, G0, m1, m2, R = S_
        mt, m3, Rp, gam = sp.symbols("m_top m_spec R_prod gamma", nonnegative=True)
        keep = {m0, R} if mode == "update" else set()
        fixed = {}
        kin = Kin()

        def arg(x, make_):
            if mode == "plain" or x in keep:
                return make_(x)
            kin.env[x] = kin.ctx.const(Fraction(NUM[x.name]))
            return Frac(kin.env[x])

        used = [m0, G0, m1, m2, R]
        if name == "minl":
            used += [mt, m3, Rp]
        if name == "bugg":
            used = [m0, G0, m1, m2, gam]
        if name == "simple":
            used = [m0, G0]
        W = kin.energy(s)
        M0, g = arg(m0, kin.pos), arg(G0, kin.pos)
        if name != "simple":
            a, b = arg(m1, kin.nonneg), arg(m2, kin.nonneg)
            kin.channel(W, a, b, "s")
            if name != "bugg":
                kin.channel(M0, a, b, "m0")
                arg(R, kin.pos)
        if name == "minl":
            T, c = arg(mt, lambda x: kin.pos(x, "M")), arg(m3, kin.nonneg)
            arg(Rp, kin.pos)
            kin.channel(T, W, c, "prod")
            kin.channel(T, M0, c, "prod0")
            kin.ctx.roots[(W * W).num, kin.ctx.const(1)] = W
        if name == "bugg":
            arg(gam, kin.pos)
        expr = {
            "rel": lambda: dyn.RelativisticBreitWigner(s, m0, G0, m1, m2, L, R),
            "bw": lambda: dyn.BreitWigner(s, m0, G0, m1, m2, L, R),
            "simple": lambda: dyn.SimpleBreitWigner(s, m0, G0),
            "minl": lambda: dyn.BreitWignerMinL(s, mt, m3, m0, G0, m2, m1, L, max(L - 1, 0), R, Rp),
            "bugg": lambda: dyn.BuggBreitWigner(s, m0, G0, m1, m2, gam),
            "flatte": lambda: dyn.FlattéSWave(s, m0, (G0, 2 * G0), (m1, m2), (m2, m1)),
            "multi": lambda: dyn.MultichannelBreitWigner(s, m0, tuple(dyn.ChannelArguments(s, m0, x * G0, m1, m2, l, R) for x, l in ((1, L), (3, 0)))),
        }[name]()
        if mode != "plain":
            free = sp.sympify(expr).doit().free_symbols
            fixed = {x: NUM[x.name] for x in used if x in free}
            # defaults of parameters that are set later do not matter, whatever they are
            fixed |= {x: (0.0, 1.0)[x.name == "m0"] for x in keep & set(fixed)}
        env = Env(kin.ctx, kin.translator(), fixed, keep & set(fixed), {})
        return (expr.doit() if doit else expr), env

    return make


def model_specs(chk):
    """Decays whose complete intensity is expanded: (spec, reference, min_ls)."""
    R = sp.Rational
    out = [
        (Spec((0, 0, 0, 0), [dict(k=1, j=0, name="A"), dict(k=1, j=1, name="B"), dict(k=2, j=1, name="C"), dict(k=3, j=2, name="D")]), 2, True),
        (Spec((H, H, 0, 0), [dict(k=1, j=1, name="A", ls=((0, H), (1, 0)))]), 1, False),
        (Spec((H, H, 0, 0), [dict(k=2, j=H, name="A"), dict(k=3, j=H, name="B", latex=R"\Lambda")]), 3, True),
        (Spec((1, 0, 0, 0), [dict(k=3, j=1, name="A", ls=((1, 1), (1, 0))), dict(k=2, j=0, name="B", ls=((0, 1), (0, 0)), latex="B_0")]), 2, (True, False)),
        (Spec((0, 0, 1, 0), [dict(k=1, j=1, name="A"), dict(k=3, j=0, name="B")]), 3, True),
    ]
    if chk.thorough:
        out += [
            (Spec((0, H, 0, H), [dict(k=1, j=H, name="A"), dict(k=2, j=1, name="B")]), 1, True),
            (Spec((H, 0, H, 0), [dict(k=1, j=R(3, 2), name="A", ls=((1, R(3, 2)), (1, H))), dict(k=2, j=1, name="B", ls=((0, H), (1, 0)))]), 1, False),
            (Spec((1, 0, 0, 0), [dict(k=k, j=1, name=f"R{k}") for k in (1, 2, 3)]), 1, True),
        ]
    return out


def formulated(spec, ref, min_ls, dynamics=False, clean=False):
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    decay = build(spec)
    b = builder(decay, min_ls=min_ls)
    if dynamics:
        for ch in decay.chains:
            b.dynamics_choices.register_builder(ch, BreitWignerBuilder(True, False, False))
    else:
        with_dynamics(decay, spec, b)
    return b.formulate(reference_subsystem=ref, cleanup_summations=clean)


# ------------------------------------------------------------------ B07
def b07(chk) -> None:
    chk.encoded("AmplitudeModel.full_expression", "DalitzPlotDecompositionBuilder.formulate", "io.cached.unfold (as re-exported)")
    chk.bound("decays as listed in model_specs; with and without cleaned summations; all couplings, lineshape values, angles free")
    chk.pmap(b07_item, [(n, clean, way) for n in range(len(model_specs(chk))) for clean in (False, True) for way in ("full_expression", "unfold")])


def b07_item(chk, item) -> None:
    import logging

    logging.disable(logging.WARNING)
    n, clean, way = item
    spec, ref, min_ls = model_specs(chk)[n]
    m = formulated(spec, ref, min_ls, clean=clean)
    if way == "unfold":
        from ampform_dpd.io import cached

        full = cached.unfold(m)
    else:
        full = m.full_expression
    ctx = Ctx()
    bank = AngleBank(ctx)
    view = ModelView(chk, ctx, m, bank)
    basis = (min_ls, min_ls) if isinstance(min_ls, bool) else min_ls
    dyn = lambda i: Frac(ctx.complex_gen(f"D_{i}"))  # noqa: E731
    ks = sorted({c["k"] for c in spec.chains})
    memo = {}

    def amp(k, lam):
        if (k, lam) not in memo:
            memo[k, lam] = oracle_amplitude(ctx, spec, k, lam, bank, dyn, basis=basis)
        return memo[k, lam]

    exp = oracle_intensity(ctx, spec, ref, bank, amp, ks)
    what = f"complete expression ({way}) of {spec}, reference {ref}, min_ls={min_ls}{', cleaned' if clean else ''}"
    left = [a for a in full.atoms(sp.Indexed) if a in m.amplitudes or str(a.base.label).startswith("A^")]
    if left:
        chk.violation(f"full:{way}:{n}", f"{what} still contains amplitude symbols", {"symbols": str(left[:5])}, True)
        return
    compare(chk, view, full, exp, what, f"full:{way}:{n}")
    chk.count("models", 1)


# ------------------------------------------------------------------ C01
def model_function(n, part, thorough):
    """maker for `part` of model n: the intensity or ('variable', i) / ('amplitude', i)."""

    class T:
        pass

    T.thorough = thorough
    spec, ref, min_ls = model_specs(T)[n]

    def make(mode):
        from ampform_dpd.io import cached

        m = formulated(spec, ref, min_ls)
        ctx = Ctx()
        view = ModelView(_Quiet(), ctx, m, AngleBank(ctx))
        expr = cached.unfold(m) if part == "intensity" else m.amplitudes[sorted(m.amplitudes, key=str)[part]].doit()
        free = {s for s in expr.free_symbols if isinstance(s, (sp.Symbol, sp.Indexed))}
        bases = {s.base.label for s in free if isinstance(s, sp.Indexed)}
        free -= bases
        fixed, updated = {}, set()
        if mode != "plain":
            pars = sorted((s for s in free if s not in m.variables), key=str)
            tiny = 2.0**-32
            nums = [0.5 - 1.25j, 1.5, -0.75 + 0.25j, 2.0 + 1j * tiny, 0.375j, -1.125, tiny * (3 - 2j), 0.625 + 2j]
            fixed = {s: nums[i % len(nums)] for i, s in enumerate(pars)}
            if mode == "update":
                updated = set(pars[::2])
                fixed |= {s: (0.0, 1.0, 0j, -1.0, 1, 0)[i // 2 % 6] for i, s in enumerate(pars) if s in updated}
            auto = view._auto

            def aliased(s):
                if s in fixed and s not in updated:
                    v = complex(fixed[s])
                    return ctx.frac(Fraction(v.real)) + ctx.frac(Fraction(v.imag)) * Frac(ctx.I)
                return auto(s)

            view.tr.auto = aliased
        return expr, ModelEnv(ctx, view.tr, fixed, updated)

    return make


class _Quiet:
    """Stands in for a check where angles are only labelled, not decided."""

    seed = 1

    def identity(self, *a, **k):
        return None


class ModelEnv(Env):
    def sample(self, rng):
        from ..models import random_values

        return random_values(self.ctx, rng)


def variable_function(n, which, thorough):
    """Angles: the argument of the arc cosine, as function of the invariants and masses."""

    class T:
        pass

    T.thorough = thorough
    spec, ref, min_ls = model_specs(T)[n]

    def make(mode):
        m = formulated(spec, ref, min_ls)
        todo = {**m.variables, **m.invariants}
        expr = sp.sympify(todo[sorted(todo, key=str)[which]]).doit()
        ctx = Ctx()
        keep = {sp.Symbol("m0", nonnegative=True), sp.Symbol("m2", nonnegative=True)}
        fixed = {}
        if mode != "plain":
            fixed = {s: v for s, v in m.masses.items() if s in expr.free_symbols}
            fixed = {s: 0.625 + i / 4 for i, s in enumerate(sorted(fixed, key=str))}
        upd = keep & set(fixed) if mode == "update" else set()
        fixed |= {s: 0.0 for s in upd}

        def auto(s):
            if s in fixed and s not in upd:
                return ctx.frac(Fraction(fixed[s]))
            return Frac(ctx.gen(str(s), pos=True))

        return expr, VariableEnv(ctx, Translator(ctx, auto=auto), fixed, upd)

    return make


class VariableEnv(Env):
    def sample(self, rng):
        vals = {}
        for i in range(1, len(self.ctx.names)):
            r = self.ctx.rel[i]
            vals[i] = rng.uniform(0.5, 2) if r is None else abs(complex(r.eval(vals))) ** 0.5
        return vals

    def exact_value(self, expr, vals):
        return super().exact_value(expr, vals)


def c01(chk) -> None:
    top = 3 if chk.thorough else 2
    chk.encoded("io.cached.lambdify", "io.cached._lambdify_impl", "the compiled JAX program of every listed expression")
    chk.bound(f"compiled: all lineshapes with L = 0..{top} (minimal-L one with free parameters: L <= 1), all amplitudes, angles, invariants and the complete intensity of the decays in model_specs; every argument and parameter free (couplings complex, kinematics above threshold); parameters: none, fixed defaults, some updated to arbitrary values; scalar arguments")
    items = []
    for mode in ("plain", "default", "update"):
        for name in ("rel", "bw", "simple", "minl", "bugg", "flatte", "multi"):
            for L in range(top + 1 if name in {"rel", "bw", "minl", "multi"} else 1):
                if name != "minl" or mode != "plain" or L < 2:  # expensive, no new code path
                    items.append(("shape", name, L, mode))
        for n in range(len(model_specs(chk))):
            items.insert(0, ("intensity", n, mode))
            items.append(("amplitudes", n, mode))
            items.append(("variables", n, mode))
    chk.pmap(c01_item, items)


def c01_item(chk, item) -> None:
    import logging

    logging.disable(logging.WARNING)
    kind, *rest = item
    mode = rest[-1]
    text = {"plain": "", "default": " with default parameters", "update": " after updating parameters"}[mode]
    key = f"compiled:{kind}:{':'.join(map(str, rest))}"
    if kind == "shape":
        name, L, _ = rest
        one_function(chk, lineshape(name, L), f"compiled lineshape {name}, L={L}{text}", key, mode)
        return
    n = rest[0]
    spec, ref, min_ls = model_specs(chk)[n]
    m = formulated(spec, ref, min_ls)
    if kind == "intensity":
        one_function(chk, model_function(n, "intensity", chk.thorough), f"compiled intensity of {spec}{text}", key, mode)
    elif kind == "amplitudes":
        for a in range(len(m.amplitudes)):
            one_function(chk, model_function(n, a, chk.thorough), f"compiled amplitude {a} of {spec}{text}", key, mode)
    else:
        for a in range(len(m.variables) + len(m.invariants)):
            one_function(chk, variable_function(n, a, chk.thorough), f"compiled variable {a} of {spec}{text}", key, mode)


# ------------------------------------------------------------------ C02
def requests(tag):
    """name -> (expression, parameters or None, backend); `tag` keeps histories apart."""
    a, b, x, y = (sp.Symbol(f"{n}_{tag}") for n in "abxy")
    ar, xr = (sp.Symbol(f"{n}_{tag}", real=True) for n in "ax")
    xp = sp.Symbol(f"x_{tag}", positive=True)
    e = a * x + b
    A = sp.IndexedBase(f"A_{tag}")
    return {
        "plain": (e, None), "empty": (e, {}),
        "a=1.5": (e, {a: 1.5}), "a=2.5": (e, {a: 2.5}), "b=1.5": (e, {b: 1.5}),
        "a,b": (e, {a: 1.5, b: -0.5}), "b,a": (e, {b: 1.5, a: -0.5}), "x=1.5": (e, {x: 1.5}),
        "a=1.5+": (e, {a: 1.5 + 2.0**-45}), "a=1.5-": (e, {a: 1.5 - 2.0**-30}), "a=tiny": (e, {a: 2.0**-60}), "a=0": (e, {a: 0.0}), "a=1": (e, {a: 1}), "complex a+": (e, {a: 1.5 + 1j * 2.0**-40}),
        "complex a": (e, {a: 1.5 + 0.25j}), "real symbols": (ar * xr + b, {ar: 1.5}), "conj": (sp.conjugate(a) * x + b, {a: 1.5 + 0.25j}),
        "other": (a * x - b, {a: 1.5}), "swapped": (b * x + a, {a: 1.5}), "root": (a * sp.sqrt(xp) + b, {a: 1.5}),
        "square": (a * x**2 + b, {a: 1.5}), "cube": (a * x**3 + b, {a: 1.5}), "more": (e + y, {a: 1.5}),
        "indexed": (A[0] * x + A[1], {A[0]: 1.5}), "indexed 1": (A[0] * x + A[1], {A[1]: 1.5}), "number": (sp.Rational(3, 2) * x + b, {a: 1.5}),
        "over": (a / x + b, {a: 1.5}), "over square": (a / x**2 + b, {a: 1.5}), "plain over": (a / x + b, None), "plain over square": (a / x**2 + b, None),
        "numpy plain": (e, None), "numpy a=1.5": (e, {a: 1.5}), "numpy root": (a * sp.sqrt(xp) + b, {a: 1.5}),
    }


def _as_frac(ctx, v):
    if isinstance(v, np.ndarray):
        v = v[()]
    return v if isinstance(v, Frac) else ctx.frac(Fraction(float(v)))


def histories(chk):
    names = list(requests(0))
    upd = [n for n in names if requests(0)[n][1]]
    out = [((p, False), (q, False)) for p in names for q in names if p != q]
    out += [((p, True), (p, False)) for p in upd] + [((p, True), (q, False)) for p in upd[:6] for q in upd[:6] if p != q]
    out += [((p, True), (p, True), (p, False)) for p in upd]
    if chk.thorough:
        out += [((p, True), (q, True), (p, False)) for p in upd for q in upd if p != q]
        out += [((p, False), (q, u), (r, False)) for p in names[:8] for q in names[:8] for r in names[:8] if len({p, q, r}) == 3 for u in (False, True) if not u or q in upd]
    return out


def c02(chk) -> None:
    chk.encoded("io.cached.lambdify", "io.cached._lambdify_impl", "the compiled JAX program of every request")
    hs = histories(chk)
    chk.bound(f"{len(hs)} histories of 2 or 3 compile requests ({len(requests(0))} kinds that share names, structure or parameters; parameters possibly updated to arbitrary values in between), each in a first process and again, in reverse order, in a second process that finds the cache of the first; arguments and updated parameters free")
    items = list(enumerate(hs))
    chunks = [(phase, items[n::8]) for phase in (1, 2) for n in range(8)]
    chk.pmap(c02_item, chunks[:8])
    if not chk.violations:
        chk.pmap(c02_item, chunks[8:])


def c02_item(chk, item) -> None:
    import logging

    logging.disable(logging.WARNING)
    phase, part = item
    own_cache(f"histories-{part[0][0]}")
    for tag, history in part:
        steps = list(history) if phase == 1 else list(history)[::-1]
        done = []
        for name, update in steps:
            if not request(chk, tag, name, update, done, phase):
                return
            done.append(name + (" (then updated)" if update else ""))
        chk.count("histories", 1)


def request(chk, tag, name, update, done, phase) -> bool:
    from ampform_dpd.io.cached import lambdify

    expr, pars = requests(tag)[name]
    ctx = Ctx()
    cplx = {"conj", "complex a", "complex a+"}

    def auto(s):
        if pars and s in pars:
            v = complex(pars[s])
            return ctx.frac(Fraction(v.real)) + ctx.frac(Fraction(v.imag)) * Frac(ctx.I)
        return Frac(ctx.complex_gen(s.name)) if name in cplx else Frac(ctx.gen(s.name, pos=True))

    tr = Translator(ctx, auto=auto)
    after = ", ".join(done) or "nothing"
    what = f"function compiled for request '{name}' in process {phase} after {after}"
    key = f"history:{name}:{phase}:{'|'.join(done)}"
    mine = dict(pars) if pars is not None else None
    plain_numpy = name.startswith("numpy")
    if plain_numpy:
        f = lambdify(expr, "numpy") if mine is None else lambdify(expr, mine, backend="numpy")
    else:
        f = lambdify(expr) if mine is None else lambdify(expr, mine)
    bases = {s.base.label for s in expr.atoms(sp.Indexed)}
    free = [s for s in expr.free_symbols - bases if not (pars and s in pars)]
    want = {s.name: v for s, v in (pars or {}).items()}
    if pars is not None and ({k: complex(v) for k, v in f.parameters.items()} != {k: complex(v) for k, v in want.items()}):
        chk.violation(key, f"{what}: its parameters are {f.parameters} instead of {want}", {}, True)
        return False
    try:
        data = {s.name: tr(s) for s in free}
        if plain_numpy:  # the compiled Python function runs on symbolic values itself
            got = _as_frac(ctx, f(data))
        else:
            got, _ = execute(ctx, tr, f, data)
    except Single as err:
        chk.violation(key, f"{what}: computed in {err}", {}, True)
        return False
    except (KeyError, TypeError, AttributeError, ValueError) as err:
        chk.violation(key, f"{what}: fails with {type(err).__name__} {err}", {}, True)
        return False
    if chk.equal(ctx, got, tr(expr), what) is not None:
        rng = random.Random(chk.seed)
        rep = {s: rng.uniform(0.5, 2) for s in free}
        real = complex(np.asarray(f({s.name: v for s, v in rep.items()})))
        exp = complex(sp.N(expr.subs({**rep, **(pars or {})})))
        chk.violation(key, what, {"compiled": str(real), "expression": str(exp)}, abs(real - exp) > 1e-9)
        return False
    chk.count("requests", 1)
    if update:
        first = sorted(want)[0]
        if not plain_numpy:
            new = Frac(ctx.complex_gen("new") if name in cplx else ctx.gen("new", pos=True))
            got, _ = execute(ctx, tr, f, data, {first: new})
            sym = next(s for s in pars if s.name == first)
            fresh = Translator(ctx, auto=lambda s: new if s == sym else auto(s))
            if chk.equal(ctx, got, fresh(expr), what + " and given another parameter value") is not None:
                chk.violation(key, f"{what}: a new value of its parameter {first} is not used", {}, True)
                return False
        f.update_parameters({first: 7.25})
        if mine != pars:
            chk.violation(key, f"{what}: updating it changed the caller's parameters", {}, True)
            return False
    return True
