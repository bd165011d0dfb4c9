"""Harness: queries, counterexamples, replay, evidence, exit codes."""
from __future__ import annotations

import json
import os
import signal
import sys
import time
import multiprocessing as mp
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from pathlib import Path

from .env import z3
from .trans import UnknownSymbol

WALL = 840
ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
KNOWN = ROOT / "known-findings.txt"


class Inconclusive(Exception):
    """The check could not decide; reported as an error exit, never as success."""


class Check:
    def __init__(self, pid: str, tier: str, seed: int) -> None:
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.queries = 0
        self.by_verdict = {"unsat": 0, "sat": 0}
        self.nontrivial = 0
        self.twins = 0
        self.relation_instances = 0
        self.solver_s = 0.0
        self.vacuity = 0
        self.replays = 0
        self.functions: set[str] = set()
        self.bounds: list[str] = []
        self.assumptions: list[str] = []
        self.samples: list = []
        self.violations: list[dict] = []
        self.known_hits: list[str] = []
        self.stats: dict = {}
        self.validated = 0
        self.timeout_ms = 60_000
        self.stop_after = 3
        self.errors: list[str] = []
        self.quiet = False

    # -- book-keeping
    def encoded(self, *names: str) -> None:
        self.functions.update(names)

    def bound(self, text: str) -> None:
        if text not in self.bounds:
            self.bounds.append(text)

    def assume(self, text: str) -> None:
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, key: str, n: int = 1) -> None:
        self.stats[key] = self.stats.get(key, 0) + n

    @property
    def full(self) -> bool:
        return len(self.violations) >= self.stop_after

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    # -- parallel work
    def pmap(self, fn, items) -> None:
        """fn(sub_check, item) for all items in worker processes; results are merged."""
        items = list(items)
        n = min(len(items), int(os.environ.get("VF_JOBS", "0")) or min(8, os.cpu_count() or 1))
        if n <= 1:
            for it in items:
                fn(self, it)
                if self.full:
                    return
            return
        ex = ProcessPoolExecutor(n, mp_context=mp.get_context("fork"))
        futs = [ex.submit(_worker, fn, self.pid, self.tier, self.seed, it) for it in items]
        pending = set(futs)
        limit = self.t0 + WALL
        try:
            while pending and not self.full and time.time() < limit:
                done, pending = wait(pending, timeout=2, return_when=FIRST_COMPLETED)
                for f in done:
                    err, sub = f.result()
                    self._merge(sub)
                    if err:
                        self.errors.append(err)  # decided at the end: others may find more
                if self.violations:  # no need for many counterexamples
                    limit = min(limit, time.time() + 20)
            if pending and not self.violations:
                self.errors.append(f"no answer within {WALL} s")
        finally:
            for f in futs:
                f.cancel()
            for proc in list((ex._processes or {}).values()):  # noqa: SLF001
                proc.kill()
            ex.shutdown(wait=True)

    def _merge(self, d: dict) -> None:
        for k in ("queries", "nontrivial", "relation_instances", "solver_s", "vacuity", "replays", "validated"):
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d["by_verdict"].items():
            self.by_verdict[k] += v
        for k, v in d["stats"].items():
            if isinstance(v, int):
                self.count(k, v)
        self.functions |= d["functions"]
        for t in d["bounds"]:
            self.bound(t)
        for t in d["assumptions"]:
            self.assume(t)
        self.samples = (self.samples + d["samples"])[:6]
        for h in d["known_hits"]:
            if h not in self.known_hits:
                self.known_hits.append(h)
                print(h, flush=True)
        self.violations.extend(d["violations"])

    # -- solver
    def solve(self, constraints, what: str, timeout_ms=None):
        """Decide satisfiability; returns a z3 model or None (unsat)."""
        s = z3.Solver()
        s.set("timeout", timeout_ms or self.timeout_ms)
        s.add(*constraints)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            self.by_verdict["unsat"] += 1
            return None
        if r == z3.sat:
            self.by_verdict["sat"] += 1
            return s.model()
        raise Inconclusive(f"solver answered unknown ({s.reason_unknown()}) for: {what}")

    def prove(self, assumptions, claim, what: str, timeout_ms=None):
        """None if `claim` holds for all values satisfying `assumptions`, else a model."""
        if len(self.samples) < 6:
            txt = str(claim)
            self.samples.append({"query": what, "claim": txt[:300]})
        return self.solve([*assumptions, z3.Not(claim)], what, timeout_ms)

    def reachable(self, constraints, what: str, timeout_ms=None) -> None:
        """Vacuity twin: the assumptions of a query must be satisfiable."""
        m = self.solve(constraints, "reachability of " + what, timeout_ms)
        self.vacuity += 1
        if m is None:
            raise Inconclusive(f"vacuous query: assumptions of {what} are unsatisfiable")

    # -- polynomial identities
    def identity(self, ctx, diff, what: str, extra=()):
        """Is the Frac/Poly `diff` zero for all generator values? -> model or None."""
        from .poly import Frac

        return self.equal(ctx, diff if isinstance(diff, Frac) else Frac(diff), ctx.frac(0), what, extra)

    def equal(self, ctx, a, b, what: str, extra=()):
        """a == b for all generator values?  -> None (proved) or a model of a != b.

        First a linear query: every monomial becomes an unknown, the defining relations
        of the generators enter as their instances on the monomials that occur; unsat
        proves the identity.  If that is satisfiable, the non-linear query decides.
        """
        self._obligations(ctx)
        if self._far_apart(ctx, a, b):
            m = self._sat_relaxed(ctx, None, None, [a.den, b.den], what, factors=(a.num, b.den, b.num, a.den))
            if m is not None:
                return m
        left, right = a.num * b.den, b.num * a.den
        if ctx.opaque:
            if self._linear_attempt(ctx, left, right, what, ctx.opaque):
                return None
            m = self._sat_relaxed(ctx, left, right, [a.den, b.den], what)
            if m is not None:
                return m
        if self._linear_unsat(ctx, left, right, what):
            return None
        diff = ctx.reduced(left - right)
        re, im = diff.split()
        claim = z3.And(re.to_z3() == 0, im.to_z3() == 0)
        used = ctx.constraints()
        for f in (a, b):
            if f.den.as_const() is None:
                dre, dim = ctx.reduced(f.den).split()
                used.append(z3.Or(dre.to_z3() != 0, dim.to_z3() != 0))
        m = self._sat_relaxed(ctx, left, right, [a.den, b.den], what)
        if m is not None:
            return m
        try:
            return self.prove([*used, *extra], claim, what, timeout_ms=10_000)
        except Inconclusive:
            # The solver could not build an exact model of a non-identity: search for
            # one with rational sample points fixed for the free generators.
            return self._sat_hint(ctx, re, im, [*used, *extra], what)

    def _far_apart(self, ctx, a, b) -> bool:
        """Floating-point hint that a != b: ask for a counterexample before expanding."""
        import random

        rng = random.Random(self.seed * 17 + 3)
        for _ in range(2):
            try:
                vals = ctx.sampler(ctx, rng) if ctx.sampler else _random_point(ctx, rng)
                if vals is None:
                    return False
                x, y = complex(a.eval(vals)), complex(b.eval(vals))
            except (RuntimeError, ZeroDivisionError, OverflowError, KeyError):
                return False
            if not abs(x - y) > 1e-4 * max(abs(x), abs(y)) + 1e-7:
                return False
        return True

    def _sat_relaxed(self, ctx, left, right, dens, what, factors=None):
        """Counterexample with the square-root generators fixed to 30 digits.

        Only used to *find* a counterexample (which the caller replays on the real
        code); a proof never relies on it.
        """
        import random
        from fractions import Fraction
        from math import isqrt

        rng = random.Random(self.seed * 31 + 5)
        scale = 10**30
        for _ in range(3):
            try:
                vals = ctx.sampler(ctx, rng) if ctx.sampler else _random_point(ctx, rng)
            except RuntimeError:
                return None
            if vals is None:
                return None
            ex: dict = {}
            for i in range(1, len(ctx.names)):
                if ctx.rel[i] is None:
                    ex[i] = Fraction(round(vals[i] * 1000), 1000)
                else:
                    x = _exact(ctx.rel[i], ex)
                    if x < 0:
                        break
                    ex[i] = Fraction(isqrt(int(x * scale * scale)), scale)
                    if vals[i] < 0:
                        ex[i] = -ex[i]
            else:
                s = z3.Solver()
                s.set("timeout", 20_000)
                polys = factors or (left, right, *dens)
                gens = {g for p in polys for g in p.gens()} - {0}
                s.add(*[ctx.zvar(i) == z3.RealVal(str(ex[i])) for i in gens])
                tol = z3.RealVal("1/1000000000000")
                if factors:
                    (pr, pi), (qr, qi), (ur, ui), (wr, wi) = [p.split() for p in factors]
                    size = 1 + (abs(_exact(pr, ex)) + abs(_exact(pi, ex))) * (abs(_exact(qr, ex)) + abs(_exact(qi, ex)))
                    pr, pi, qr, qi, ur, ui, wr, wi = (p.to_z3() for p in (pr, pi, qr, qi, ur, ui, wr, wi))
                    lr, li = pr * qr - pi * qi - ur * wr + ui * wi, pr * qi + pi * qr - ur * wi - ui * wr
                else:
                    size = 1 + abs(_exact(left.split()[0], ex)) + abs(_exact(left.split()[1], ex))
                    lr, li = (p.to_z3() for p in (left - right).split())
                mag = z3.RealVal(str(size))
                s.add(z3.Or(lr > tol * mag, lr < -tol * mag, li > tol * mag, li < -tol * mag))
                for d in dens:
                    dr, di = d.split()
                    s.add(z3.Or(dr.to_z3() != 0, di.to_z3() != 0))
                t = time.time()
                r = s.check()
                self.solver_s += time.time() - t
                self.queries += 1
                if r == z3.sat:
                    self.by_verdict["sat"] += 1
                    return s.model()
                if r == z3.unsat:
                    self.by_verdict["unsat"] += 1
        return None

    def _obligations(self, ctx) -> None:
        todo, ctx.oblig = ctx.oblig, []
        for p, text in todo:
            if ctx.opaque and self._linear_attempt(ctx, p, ctx.const(0), text, ctx.opaque):
                continue
            if not self._linear_unsat(ctx, p, ctx.const(0), text):
                raise RuntimeError(f"encoder obligation failed: {text}")

    def _linear_unsat(self, ctx, left, right, what) -> bool:
        """Polynomial identity left == right modulo the relations, by linear queries.

        Generators that occur in no relation (couplings, amplitudes) are factored out:
        one query per distinct pair of coefficients.
        """
        if len(left.t) + len(right.t) < 150:
            return self._linear_query(ctx, left, right, what)
        bound = {0}
        for i, r in enumerate(ctx.rel):
            if r is not None:
                bound.add(i)
                bound |= r.gens()
        free = set(range(len(ctx.names))) - bound
        ca, cb = left.coeff_of(free), right.coeff_of(free)
        done = set()
        zero = ctx.const(0)
        for key in ca.keys() | cb.keys():
            x, y = ca.get(key, zero), cb.get(key, zero)
            if (x, y) in done:
                continue
            done.add((x, y))
            if not self._linear_query(ctx, x, y, what + f" [coefficient of {'*'.join(ctx.names[i] for i, _ in key)}]"):
                return False
        return True

    def _linear_query(self, ctx, left, right, what) -> bool:
        return self._linear_attempt(ctx, left, right, what, frozenset())

    def _linear_attempt(self, ctx, left, right, what, skip) -> bool:
        from .poly import Poly

        re, im = (left - right).split()  # relations are only needed where terms differ
        eqs = ctx.linearise(Poly(ctx, {**re.t, **im.t}), skip)
        self.relation_instances += len(eqs)
        names: dict = {}

        def var(m):
            if m == ():
                return z3.RealVal(1)
            if m not in names:
                names[m] = z3.Real("*".join(f"{ctx.names[i]}^{e}" if e > 1 else ctx.names[i] for i, e in m))
            return names[m]

        def lin(terms):
            return z3.Sum([var(k) if v == 1 else z3.RealVal(str(v)) * var(k) for k, v in terms.items()]) if terms else z3.RealVal(0)

        (lr, li), (rr, ri) = left.split(), right.split()
        claim = z3.And(lin(lr.t) == lin(rr.t), lin(li.t) == lin(ri.t))
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", self.timeout_ms)
        for m, acc in eqs:
            s.add(var(m) == lin(acc))
        s.add(z3.Not(claim))
        if len(self.samples) < 6 and len(left.t) < 60 and (left.t or right.t):
            self.samples.append({"query": what, "claim": str(claim)[:400], "relation_instances": len(eqs)})
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        self.nontrivial += bool(left.t or right.t)
        if r == z3.unsat:
            self.by_verdict["unsat"] += 1
            if eqs and self.twins < 3:
                self._twin(z3, [var(m) == lin(acc) for m, acc in eqs], what)
            return True
        if r == z3.sat:
            self.by_verdict["sat"] += 1
        return False

    def _twin(self, z3, instances, what: str) -> None:
        """Vacuity twin: the relation instances alone must not prove an absurdity."""
        self.twins += 1
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", self.timeout_ms)
        s.add(*instances)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            raise Inconclusive(f"vacuous query: relation instances of {what} are contradictory")
        if r == z3.sat:
            self.by_verdict["sat"] += 1
            self.vacuity += 1

    def _sat_hint(self, ctx, re, im, cons, what):
        import random

        rng = random.Random(12345)
        gens = [i for i in range(1, len(ctx.names)) if ctx.rel[i] is None]
        for _ in range(12):
            fix = [ctx.zvar(i) == z3.RealVal(f"{rng.randint(1, 40)}/{rng.randint(10, 20)}") for i in gens]
            s = z3.Solver()
            s.set("timeout", 10_000)
            s.add(*cons, *fix, z3.Or(re.to_z3() != 0, im.to_z3() != 0))
            t = time.time()
            r = s.check()
            self.solver_s += time.time() - t
            self.queries += 1
            if r == z3.sat:
                self.by_verdict["sat"] += 1
                return s.model()
        raise Inconclusive(f"solver answered unknown and found no witness for: {what}")

    # -- outcomes
    def violation(self, key: str, what: str, data: dict, reproduced: bool) -> None:
        """Report a counterexample.  `key` identifies it in the known-findings file."""
        self.replays += 1
        if not reproduced:
            raise Inconclusive(f"counterexample did not reproduce on the real code: {what} {data}")
        known = load_known(self.pid)
        if key in known:
            line = f"KNOWN-FINDING: property={self.pid} {known[key]}"
            if line not in self.known_hits:
                self.known_hits.append(line)
                if not self.quiet:
                    print(line, flush=True)
            return
        self.violations.append({"key": key, "what": what, "data": data})

    def finish(self) -> int:
        out = ROOT / "evidence" / "replay"
        out.mkdir(parents=True, exist_ok=True)
        code = 0
        if self.violations:
            code = 1
            path = out / f"{self.pid}-{self.tier}.json"
            path.write_text(json.dumps({"property": self.pid, "violations": self.violations}, indent=1, default=str))
            for v in self.violations:
                print(f"{v['key']}: {v['what']} :: {json.dumps(v['data'], default=str)[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        self.write_evidence()
        return code

    def write_evidence(self) -> None:
        wall = time.time() - self.t0
        cov = {
            "explanation": (
                "Symbolic execution of the real functions listed in `functions_encoded`; each"
                " obligation is negated and sent to Z3; unsat = holds for every value within"
                " `bounds`. Counts below are measured on this run."
            ),
            "functions_encoded": sorted(self.functions),
            "bounds": self.bounds,
            "queries_discharged": self.queries,
            "verdicts": self.by_verdict,
            "nontrivial_queries": self.nontrivial,
            "relation_instances": self.relation_instances,
            "solver_s": round(self.solver_s, 3),
            "vacuity_twins_sat": self.vacuity,
            "counterexamples_replayed": self.replays,
            "encoding_validated_points": self.validated,
            "known_findings_hit": self.known_hits,
            "samples": self.samples,
            **self.stats,
        }
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{self.pid}.json").write_text(
            json.dumps(
                {
                    "property": self.pid,
                    "tier": self.tier,
                    "seed": self.seed,
                    "level": "other",
                    "coverage": cov,
                    "assumptions": self.assumptions,
                    "wall_s": round(wall, 3),
                    "violations": len(self.violations),
                },
                indent=1,
                default=str,
            )
        )


def _exact(p, ex):
    from fractions import Fraction

    tot = Fraction(0)
    for m, v in p.t.items():
        x = Fraction(v)
        for i, e in m:
            x *= ex[i] ** e
        tot += x
    return tot


def _random_point(ctx, rng):
    import math

    for _ in range(300):
        vals: dict = {}
        for i in range(1, len(ctx.names)):
            if ctx.rel[i] is None:
                vals[i] = rng.uniform(-0.9, 0.9) if ctx.names[i].startswith("cos(") else rng.uniform(0.2, 1.7)
            else:
                x = complex(ctx.rel[i].eval(vals)).real
                if x < 0:
                    break
                vals[i] = math.sqrt(x)
        else:
            return vals
    return None


def own_cache(name: str) -> None:
    """Workers run at the same time; the library's disk cache is not made for that."""
    base = os.environ.setdefault("VF_CACHE", os.environ.get("COMPWA_CACHE_DIR", ""))
    if not base:
        return
    os.environ["COMPWA_CACHE_DIR"] = os.path.join(base, name)
    from ampform.sympy import _cache

    clear = getattr(getattr(_cache, "_get_cache_dir", None), "cache_clear", None)
    if clear is not None:
        clear()


def _worker(fn, pid, tier, seed, item):
    own_cache(f"worker-{os.getpid()}")
    sub = Check(pid, tier, seed)
    sub.quiet = True
    err = None
    try:
        fn(sub, item)
    except Exception as e:  # noqa: BLE001
        if not crash_is_violation(sub, e, str(item)[:200]):
            traceback.print_exc()
            err = f"{type(e).__name__}: {e} (item {str(item)[:200]})"
    d = {k: v for k, v in vars(sub).items() if k not in ("t0",)}
    return err, d


def crash_is_violation(chk, exc, where: str) -> bool:
    """An exception raised inside the code under test on valid input is a violation."""
    if isinstance(exc, Inconclusive):
        return False
    if isinstance(exc, UnknownSymbol):
        sym = exc.symbol
        known = getattr(sym, "assumptions0", {})
        chk.violation(
            f"symbol:{sym}", f"an expression depends on {sym}, which is none of the quantities it may depend on",
            {"symbol": str(sym), "assumptions": str({k: v for k, v in known.items() if k != "commutative"})[:300], "input": where}, True)
        return True
    tb, last = exc.__traceback__, None
    frames = []
    while tb is not None:
        frames.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    repo = [i for i, f in enumerate(frames) if "/repo/src/ampform_dpd" in f]
    if not repo or any("/verif/vf" in f for f in frames[repo[-1] + 1 :]):
        return False
    last = frames[repo[-1]]
    chk.violation(
        f"crash:{type(exc).__name__}",
        f"valid input makes the code raise {type(exc).__name__}: {str(exc)[:200]}",
        {"in": last, "input": where, "traceback": traceback.format_exception(exc)[-6:]}, True)
    return True


def load_known(pid: str) -> dict[str, str]:
    """known-findings.txt lines:  KNOWN property=<id> key=<key> :: <what fails>."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f"KNOWN property={pid} key="):
                head, what = line.split(" :: ", 1)
                out[head.split(" key=", 1)[1]] = what
    return out


def run_check(pid: str, tier: str, fn) -> int:
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = Check(pid, tier, seed)

    def late(*_a):
        raise Inconclusive(f"no answer within {WALL + 30} s")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(WALL + 30)
    try:
        try:
            fn(chk)
        except Exception as e:  # noqa: BLE001
            if not crash_is_violation(chk, e, ""):
                raise
        if not chk.violations and chk.errors:
            raise Inconclusive(chk.errors[0])
        if not chk.violations and chk.queries == 0:
            raise Inconclusive("no query was discharged")
        code = chk.finish()
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        if chk.violations:  # a reproduced violation was already found
            return chk.finish()
        chk.write_evidence()
        print(f"ERROR property={pid} {type(e).__name__}: {e}", file=sys.stderr)
        return 2
    n = chk.queries
    print(
        f"{pid} {tier}: {n} queries ({chk.by_verdict}), solver {chk.solver_s:.2f}s,"
        f" wall {time.time() - chk.t0:.1f}s, exit {code}"
    )
    return code
