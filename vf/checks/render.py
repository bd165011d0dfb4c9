"""H01: Markdown tables and chain rendering show the values of the objects they list."""
from __future__ import annotations

import re
import warnings
from fractions import Fraction

import sympy as sp

from ..env import z3
from ..geometry import CYC
from ..sx import Raised, num
from .discrete import FALSE, Inputs, conc, symbolic_check, z2, zint

warnings.simplefilter("ignore")


def cells(table: str):
    rows = [r for r in table.splitlines() if r.strip()]
    out = []
    for r in rows:
        r = r.strip()
        if not (r.startswith("|") and r.endswith("|")):
            return None
        out.append([c.strip() for c in r[1:-1].split("|")])
    return out


def column(header, word):
    hits = [n for n, h in enumerate(header) if word in h]
    return hits[0] if len(hits) == 1 else None


def jp(cell):
    """'$\\frac{3}{2}^-$' or '$J=1$' -> (2 J, parity or None)."""
    t = cell.strip("$")
    par = None
    if t.endswith(("^+", "^-")):
        par = 1 if t[-1] == "+" else -1
        t = t[:-2]
    t = t.removeprefix("J=")
    m = re.fullmatch(r"\\frac\{(\d+)\}\{(\d+)\}", t)
    f = Fraction(int(m[1]), int(m[2])) if m else Fraction(t)
    return int(2 * f), par


def number(cell):
    return int(cell.replace(",", ""))


def h01(chk) -> None:
    chk.encoded("io.as_markdown_table", "io._as_resonance_markdown_table", "io._as_decay_markdown_table", "io._create_markdown_table_*", "io._render_jp", "io.aslatex (chains)")
    chk.bound("tables of 1..3 particles or states and of 1..3 chains (decay or list); masses and widths any multiple of 1/4 MeV in 0..5 (thorough 0..40) MeV above 0, 900, 1998 or 999995 MeV; J = 0..5/2; parity +, -, none; LS couplings present or absent at either vertex of any chain, L = 0..3; listings (lists or tuples) of up to 4 (thorough 5) entries out of 3, repeated in any way")
    items = [("chains", (rows, as_list)) for rows in (3, 2, 1) for as_list in (0, 1)] + [("values", x) for x in range(5)]
    items += [("repeated", kind) for kind in range(3)] + [("masses", x) for x in range(4)] + [("widths", x) for x in range(4)] + [("particles", rows) for rows in (3, 2, 1)]
    chk.pmap(h01_item, items)


def h01_item(chk, item) -> None:
    from ampform_dpd.io import as_markdown_table, aslatex

    wide = chk.thorough
    part, arg = item
    top = 160 if wide else 20

    def near(cell, term):
        """|cell - term/4| <= 1/2 (MeV)."""
        c = 4 * number(cell)
        return z3.And(c - term <= 2, term - c <= 2)

    def particle(n, mass4, width4, j, par, **kw):
        from ampform_dpd.decay import Particle, State

        cls = State if kw else Particle
        return cls(name=f"n{n}", latex=rf"\alpha_{n}", spin=j, parity=par, mass=mass4, width=width4, **kw)

    offs = (0, 3600, 7992, 3999980)
    parities = {0: None, 1: 1, 2: -1}

    def gev(n, o):
        return float(Fraction(n + o, 4000))

    # -- particles and states
    def body(v):
        rows = []
        nrows = conc(v["rows"])
        for n in range(nrows):
            st = conc(v["kind"]) == 1 or (conc(v["kind"]) == 2 and n == 1)
            m = gev(conc(v["m"]), offs[conc(v["om"])]) if n == 0 else 1.0 + n
            w = gev(conc(v["w"]), offs[conc(v["ow"])]) if n == 0 else 0.25 + n
            rows.append(particle(n, m, w, sp.Rational(conc(v["j"]), 2) if n == nrows - 1 else n, parities[conc(v["par"])] if n == nrows - 1 else 1, **({"index": n + conc(v["i0"])} if st else {})))
        return cells(as_markdown_table(rows))

    def claim(v, res):
        if isinstance(res, Raised) or not res or len(res) < 3:
            return FALSE
        head, rows = res[0], res[2:]
        if any(len(r) != len(head) for r in res):
            return FALSE
        cm, cw, cj, ci = (column(head, x) for x in ("mass", "width", "J^P", "index"))
        if None in (cm, cw, cj):
            return FALSE
        cs = [zint(v["rows"]) == len(rows)]
        for n, r in enumerate(rows):
            if f"`n{n}`" not in r or rf"$\alpha_{n}$" not in r:
                return FALSE
            m, w = (zint(v["m"]) + pick(v["om"], offs), zint(v["w"]) + pick(v["ow"], offs)) if n == 0 else (4000 * (1 + n), 4000 * n + 1000)
            cs += [near(r[cm], m), near(r[cw], w)]
            j2, par = jp(r[cj])
            last = n == len(rows) - 1
            cs.append((zint(v["j"]) if last else z3.IntVal(2 * n)) == j2)
            cs.append((zint(v["par"]) if last else z3.IntVal(1)) == {None: 0, 1: 1, -1: 2}[par])
            kind = zint(v["kind"])
            st = z3.Or(kind == 1, z3.And(kind == 2, n == 1))
            shown = FALSE if ci is None else z3.And(z3.BoolVal(r[ci].isdigit()), zint(v["i0"]) + n == (int(r[ci]) if r[ci].isdigit() else -1))
            blank = z3.BoolVal(ci is None or r[ci] == "")
            cs.append(z3.If(st, shown, blank))
        return z3.And(cs)

    def pick(v, table):
        t = zint(v)
        out = z3.IntVal(table[-1])
        for n, x in enumerate(table[:-1]):
            out = z3.If(t == n, z3.IntVal(x), out)
        return out

    one = {x: (0, 0, 1, int) for x in ("om", "ow", "par", "kind")} | {"j": (1, 1, 1, int), "rows": (1, 1, 1, int), "i0": (1, 1, 1, int)}
    if part == "particles":
        full = Inputs(**one | {"i0": (0, 1, 1, int), "rows": (arg, arg, 1, int), "kind": (0, 1, 1, int), "par": (0, 2, 1, int), "j": (0, 5, 1, int)}, m=(4, 4, 1, int), w=(8, 8, 1, int))
        symbolic_check(chk, full, body, claim, "particle tables: rows, quantum numbers", "table-particles")
    if part == "masses":
        vals = Inputs(**one | {"om": (arg, arg, 1, int), "ow": (0, 1, 1, int)}, m=(0, top, 1, int), w=(0, 8, 1, int))
        symbolic_check(chk, vals, body, claim, "particle tables: masses", "table-masses")
    if part == "widths":
        vals = Inputs(**one | {"om": (1, 1, 1, int), "ow": (arg, arg, 1, int)}, m=(0, 3, 1, int), w=(0, top, 1, int))
        symbolic_check(chk, vals, body, claim, "particle tables: widths", "table-widths")

    # -- chains
    def decay(v):
        from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain

        st = {i: State(name=f"p{i}", latex=f"p_{i}", spin=0, parity=1, mass=1.0, width=0.0, index=i) for i in range(4)}
        chains = []
        for n in range(conc(v["rows"])):
            i, j = CYC[n % 3 + 1]
            ls = []
            for t in "PD":
                L = conc(v[f"L{t}{n}"])
                ls.append(None if L < 0 else LSCoupling(L, sp.Rational(conc(v[f"S{t}"]), 2)))
            R = Particle(name=f"R{n}", latex=rf"\rho_{n}", spin=sp.Rational(n, 2), parity=(1, -1, None)[n], mass=gev(conc(v["m"]), 4000 * n), width=gev(conc(v["w"]), 400 * n))
            chains.append(ThreeBodyDecayChain(IsobarNode(st[0], IsobarNode(R, st[i], st[j], interaction=ls[1]), st[n % 3 + 1], interaction=ls[0])))
        return chains if v["as_list"] == 1 else ThreeBodyDecay(states=st, chains=tuple(chains))

    def body_chains(v):
        d = decay(v)
        chains = d if v["as_list"] == 1 else d.chains
        return cells(as_markdown_table(d)), [aslatex(c) for c in chains]

    def claim_chains(v, res):
        if isinstance(res, Raised):
            return FALSE
        table, tex = res
        if not table or len(table) < 3:
            return FALSE
        head, rows = table[0], table[2:]
        if any(len(r) != len(head) for r in table) or len(tex) != len(rows):
            return FALSE
        cr, cm, cw, cj, cd, cp = (column(head, x) for x in ("resonance", "mass", "width", "J^P", "dec}", "prod}"))
        if None in (cr, cm, cw, cj):
            return FALSE
        cs = [zint(v["rows"]) == len(rows)]
        for n, r in enumerate(rows):
            i, j = CYC[n % 3 + 1]
            if not re.search(rf"\\rho_{n}.*p_{i} p_{j}", r[cr]):
                return FALSE
            if jp(r[cj]) != (n, (1, -1, None)[n]):
                return FALSE
            cs += [near(r[cm], zint(v["m"]) + 4000 * n), near(r[cw], zint(v["w"]) + 400 * n)]
            arrows = re.findall(r"\\to|\\xrightarrow\[S=(.*?)\]\{L=(.*?)\}", tex[n])
            order = re.sub(r"\\to|\\xrightarrow\[.*?\]\{.*?\}|\\left|\\right|[()\s]", " ", tex[n]).split()
            if len(arrows) != 2 or order != ["p_0", rf"\rho_{n}", f"p_{i}", f"p_{j}", f"p_{n % 3 + 1}"]:
                return FALSE
            for t, c, (S, L) in zip("PD", (cp, cd), arrows):
                want = zint(v[f"L{t}{n}"])
                got = None if c is None or r[c] in ("", "-") else int(r[c])
                cs.append(want == (-1 if got is None else got))
                if L == "":
                    cs.append(want == -1)
                else:
                    f = Fraction(S)
                    cs += [want == int(L), zint(v[f"S{t}"]) * f.denominator == 2 * f.numerator]
        return z3.And(cs)

    if part == "chains":
        rows, as_list = arg
        Ls = {f"L{t}{n}": (-1, -1 if n >= rows else (3 if wide else 2) if n == 0 else 0, 1, int) for n in range(3) for t in "PD"}
        symbolic_check(chk, Inputs(rows=(rows, rows, 1, int), as_list=(as_list, as_list, 1, int), SP=(1, 1, 1, int), SD=(2, 2, 1, int), m=(2, 2, 1, int), w=(3, 3, 1, int), **Ls),
                       body_chains, claim_chains, "chain tables and chain rendering: rows, LS columns", "table-chains")
    if part == "values":
        few = {f"L{t}{n}": (1, 1 + (t == "P"), 1, int) for n in range(3) for t in "PD"}
        symbolic_check(chk, Inputs(rows=(2, 2, 1, int), as_list=(0, 0, 1, int), SP=(arg, arg, 1, int), SD=(0, 4, 1, int), m=(0, top // 2, 1, int), w=(0, 3, 1, int), **few | {"LP1": (1, 1, 1, int), "LP2": (1, 1, 1, int)}),
                       body_chains, claim_chains, "chain tables and chain rendering: values", "table-chain-values")
    if part == "repeated":
        repeated(chk, decay, arg)


def repeated(chk, decay, kind) -> None:
    """A listing shows every entry it is given, in that order: repeated, mixed, many."""
    from ampform_dpd.decay import Particle, State, ThreeBodyDecay
    from ampform_dpd.io import as_markdown_table

    n = 5 if chk.thorough else 4

    def entries():
        kw = dict(parity=1, mass=1.0, width=0.25)
        same = [State(name="a", latex="A", spin=1, index=0, **kw), State(name="b", latex="A", spin=0, index=2, **kw), Particle(name="a", latex="B", spin=1, **kw)]
        return same

    def body(v):
        picks = [conc(v[f"p{i}"]) for i in range(conc(v["rows"]))]
        if v["kind"] == 0:
            own = entries()
            items = [own[p] for p in picks] if v["copy"] == 0 else [entries()[p] for p in picks]
            table = cells(as_markdown_table(tuple(items) if picks[0] == 1 else items))
            pos = {"`a`$A$": 0, "`b`$A$": 1, "`a`$B$": 2}
            got = [pos["".join(c for c in r if c.startswith("`") or c in ("$A$", "$B$"))] for r in table[2:]]
        else:
            one = {"rows": 3, "as_list": 1, "SP": 2, "SD": 2, "m": 2, "w": 3} | {f"L{t}{i}": 0 for t in "PD" for i in range(3)}
            own = decay(one)
            items = [own[p] for p in picks] if v["copy"] == 0 else [decay(one)[p] for p in picks]
            c = own[0]
            states = {s.index: s for s in (c.initial_state, *c.final_state)}
            table = cells(as_markdown_table((tuple(items) if picks[0] == 1 else items) if v["kind"] == 1 else ThreeBodyDecay(states=states, chains=tuple(items))))
            cr = column(table[0], "resonance")
            got = [int(re.search(r"\\rho_(\d)", r[cr])[1]) for r in table[2:]]
        return got

    def claim(v, res):
        if isinstance(res, Raised):
            return FALSE
        return z3.And(zint(v["rows"]) == len(res), *[zint(v[f"p{i}"]) == x for i, x in enumerate(res)])

    symbolic_check(chk, Inputs(rows=(1, n, 1, int), kind=(kind, kind, 1, int), copy=(0, 1, 1, int), **{f"p{i}": (0, 2, 1, int) for i in range(n)}), body, claim,
                   "a table shows every entry of its listing, in order", "table-entries")


del z2, num
