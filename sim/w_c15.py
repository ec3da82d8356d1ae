"""C15: a moment has one identity, however and whenever it is named.

One program answers a seeded sequence of look-ups - of moments it contains and
of ones it has never seen - in seeded spellings (name, legacy name, symbol,
moment, factor, operator array with copies relabelled, operators commuted,
squared or reversed, products of names in any order), interleaved with
settings and regenerations.  What each look-up means is decided by the
reference algebra (sim/ref.py, sim/refsdp.py); that it does not depend on the
history is decided by a new program asked the same questions in another order.
"""
import random

import numpy as np

from . import progs, scen
from .core import Inconclusive, Violation
from .lab import pick
from .mosek_node import NODE, Policy
from .ref import LPRef, TooLarge
from .refsdp import SDPRef

PROP = "C15"
RUNS = {"quick": 700, "thorough": 14000}
RULE = ("one run = 8-30 look-ups of moments in seeded spellings and order, "
        "interleaved with settings; non-trivial when one moment was named in "
        "two different ways")
ASSUME = ["two products denote the same moment when commutation, projector "
          "and orthogonality relations, relabelling of copies (of every "
          "causally disconnected factor) and, for the SDP, the adjoint "
          "make them equal"]
ZERO = "zero"
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3")]
SPELL = ["name", "legacy", "symbol", "moment", "factor", "array", "tuple",
         "list", "string", "product", "symproduct"]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .45 else "sdp"
    name, col = scen.draw(rng, ptype, None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    if ptype == "lp" and rng.random() < .3:
        opts["include_all_outcomes"] = True
    steps = []
    pool = [[rng.choice(["in", "in", "word", "prod"]), rng.randrange(1 << 30)]
            for _ in range(rng.randint(3, 8))]
    for _ in range(rng.randint(8, 30)):
        r = rng.random()
        if r < .80:
            steps.append({"look": rng.choice(pool),
                          "spell": rng.choice(SPELL),
                          "seed": rng.randrange(1 << 30),
                          "via": rng.choice(["sanitise", "sanitise", "values",
                                             "bounds", "objective",
                                             "moment"])})
        elif r < .86:
            steps.append({"op": progs.gen_dist(rng, ptype, 1)})
        elif r < .90:
            steps.append({"op": {"op": "novals", "how": "values"}})
        elif r < .94:
            steps.append({"op": {"op": "query",
                                 "what": rng.choice(progs.QUERIES),
                                 "ref": progs.gen_ref(rng)}})
        elif ptype == "sdp":
            steps.append({"op": {"op": "regen", "col": rng.choice(
                scen.columns(name, SDPS))}})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": [pick(rng, sc, ptype)], "steps": steps,
            "order": rng.randrange(1 << 30)}


class Algebra:
    """Words of operators and what they mean, for both kinds of program."""

    def __init__(self, spec):
        self.sc = scen.get(spec["sc"])
        self.ptype = spec["ptype"]
        try:
            if self.ptype == "lp":
                self.lp = LPRef(self.sc, size_only=True)
                self.st, self.T = self.lp.st, self.lp.T
                full = spec["opts"].get("include_all_outcomes")
                kids = [any(i in self.st.obs_parents[j]
                            for j in range(self.st.n))
                        for i in range(self.st.n)]
                self.ops = [(t, o) for t in range(len(self.T))
                            for o in range(self.lp.card[t] - (0 if full or
                                           kids[self.T[t][0]] else 1))]
            else:
                self.q = SDPRef(self.sc, [[]])
                self.lp, self.st = self.q.lp, self.q.st
                self.T, self.ops = self.lp.T, self.q.ops
        except TooLarge:
            raise Inconclusive("too large for the reference")
        self.opix = {op: k for k, op in enumerate(self.ops)}
        n = len(self.ops)
        self.comm = [[bool(self.lp.adj[self.ops[a][0], self.ops[b][0]])
                      for b in range(n)] for a in range(n)]
        self.memo = {}

    def row(self, x):
        """Operator number -> the program's array encoding."""
        t, o = self.ops[x]
        i, cp, e = self.T[t]
        cp = dict(cp)
        return [i + 1] + [cp.get(s, 0) for s in self.st.sources] + [e, o]

    def of_row(self, r):
        r = [int(v) for v in r]
        t = self.lp.ix[r[0] - 1, tuple(
            (s, r[1 + j]) for j, s in enumerate(self.st.sources)
            if r[1 + j] > 0), r[-2]]
        return self.opix[t, r[-1]]

    def ident(self, w):
        """What <w> is: a hashable."""
        w = tuple(w)
        if w in self.memo:
            return self.memo[w]
        if self.ptype == "sdp":
            n = self.q.normal(w)
            if n is None:
                r = ZERO
            else:
                r = min(self.q.parts(n), self.q.parts(tuple(reversed(n))))
        else:
            seen = {}
            r = None
            for x in w:
                t, o = self.ops[x]
                if seen.setdefault(t, o) != o:
                    r = ZERO
            if r is None:
                r = self.lp.key([self.T[t] + (o,)
                                 for t, o in sorted(seen.items())])
        self.memo[w] = r
        return r

    def join(self, parts):
        """Identity of a product of expectation values given by words."""
        ids = [self.ident(w) for w in parts]
        if ZERO in ids:
            return ZERO
        if self.ptype == "lp":
            return tuple(sorted(x for i in ids for x in i))
        a, b = [], []
        for w in parts:
            n = self.q.normal(w)
            a += self.q.parts(n)
            b += self.q.parts(tuple(reversed(n)))
        return min(tuple(sorted(a)), tuple(sorted(b)))

    def of_moment(self, m):
        if m.is_zero:
            return ZERO
        words = []
        for f in m.factors:
            if f.is_zero:
                return ZERO
            words.append([self.of_row(r) for r in f.as_2d_array])
        return self.join(words)

    # -- spellings of a word ---------------------------------------------------
    def variant(self, w, rng):
        """Another word for the same moment."""
        w = list(w)
        lev = self.lp.lev
        if rng.random() < .6:
            pm = {s: (0,) + tuple(rng.sample(range(1, lev[s] + 1), lev[s]))
                  for s in self.st.sources}
            w = [self.opix[self.lp._move(self.ops[x][0], pm),
                           self.ops[x][1]] for x in w]
        if self.ptype == "sdp" and rng.random() < .3:
            w.reverse()
        if w and rng.random() < .25:
            k = rng.randrange(len(w))
            w.insert(k, w[k])
        for _ in range(2 * len(w)):
            if len(w) < 2:
                break
            k = rng.randrange(len(w) - 1)
            if self.comm[w[k]][w[k + 1]]:
                w[k], w[k + 1] = w[k + 1], w[k]
        return w


class Subject:
    """A program being asked."""

    def __init__(self, spec, A, ctx, checked=True):
        self.spec, self.A, self.ctx = spec, A, ctx
        self.u = progs.Unit(A.sc, spec["ptype"], spec["col"], spec["opts"],
                            ctx=ctx)
        if not progs.columns_ok(self.u):
            raise Inconclusive("too large")
        self.sdp = spec["ptype"] == "sdp"
        self.checked = checked

    @property
    def p(self):
        return self.u.prog

    def sanitise(self, x):
        return (self.p._sanitise_moment if self.sdp
                else self.p._sanitise_monomial)(x)

    def names(self, w):
        """Unambiguous operator names."""
        rows = np.array([self.A.row(x) for x in w],
                        dtype=self.p.np_dtype)
        lex = self.p.mon_to_lexrepr(rows)
        return [str(self.p._lexrepr_to_names[k]) for k in lex]


def contents(S):
    """Idents of the moments of the program (the 0 and 1 aside)."""
    out = {}
    for m in S.u.moments:
        if m.is_zero or m.is_one:
            continue
        i = S.A.of_moment(m)
        if S.checked:
            S.ctx.require(i not in out, "moments not identified",
                          f"{m.name} and {out.get(i) and out[i].name} are "
                          "the same moment")
        out[i] = m
    if S.checked:
        for what in ("name", "legacy_name", "symbol"):
            seen = {}
            for m in out.values():
                k = getattr(m, what)
                S.ctx.require(k not in seen, "ambiguous name",
                              f"{what} {k} denotes two moments: "
                              f"{S.A.of_moment(m)} and "
                              f"{seen.get(k) and S.A.of_moment(seen[k])}")
                seen[k] = m
    return out


def run(spec, ctx):
    NODE.reset(Policy())
    A = Algebra(spec)
    M = progs.Models(A.sc, spec["models"])
    S = Subject(spec, A, ctx)
    inside = contents(S)
    # the moments that are asked about, as products of words
    pool = {}

    def target(ref):
        key = tuple(ref)
        if key not in pool:
            kind, seed = ref
            rng = random.Random(seed)
            if kind == "in":
                ms = sorted(inside, key=repr)
                if not ms:
                    raise Inconclusive("no moments")
                m = inside[rng.choice(ms)]
                pool[key] = [[A.of_row(r) for r in f.as_2d_array]
                             for f in m.factors]
            else:
                n = 1 if kind == "word" else rng.randint(2, 3)
                parts = []
                for _ in range(n):
                    for _ in range(20):
                        w = word(A, rng, rng.randint(1, 3))
                        if A.ident(w) != ZERO:
                            break
                    parts.append(w)
                pool[key] = parts
        return pool[key]
    asked = []
    known = {}
    for step in spec["steps"]:
        if "op" in step:
            op = step["op"]
            if op["op"] == "query":
                progs.query(S.u, op)
            else:
                progs.apply(S.u, M, op, ctx)
            ctx.ev(op["op"])
            if op["op"] == "regen":
                S.u._classes = None
                if not progs.columns_ok(S.u):
                    raise Inconclusive("too large")
                inside = contents(S)
            continue
        parts = target(step["look"])
        want = A.join(parts)
        got = lookup(S, parts, want, step, inside)
        if got is None:
            continue
        asked.append((parts, want, step))
        m, how = got
        have = A.of_moment(m)
        ctx.ev("look", step["via"], how, m.name)
        ctx.state(scen.label(spec["sc"]), spec["ptype"], want)
        ctx.require(have == want, "mistaken for another moment",
                    f"{show(how)} means {want}, understood as {m.name} = "
                    f"{have}")
        if want == ZERO:
            continue
        if want in inside:
            ctx.require(m == inside[want] and m is inside[want] and
                        m.idx == inside[want].idx, "several identities",
                        f"{show(how)} gives {m.name} (index {m.idx}), the "
                        f"program's own is {inside[want].name} (index "
                        f"{inside[want].idx})")
            ctx.probe("looked up a moment of the program")
        if want in known:
            n0, how0, m0 = known[want]
            ctx.probe("same moment again")
            if how0 != how:
                ctx.probe("named in two ways")
            ctx.require(n0 == m.name and m == m0, "several identities",
                        f"{show(how0)} gave {n0}, {show(how)} gives "
                        f"{m.name}")
        else:
            for w2, (n2, h2, m2) in known.items():
                ctx.require(n2 != m.name and m2 != m, "moments collapse",
                            f"{show(how)} and {show(h2)} both give "
                            f"{m.name}")
        known[want] = (m.name, how, m)
    # a new program, asked in another order
    R = Subject(spec, A, ctx, checked=False)
    rng = random.Random(spec["order"])
    rng.shuffle(asked)
    facts = {}
    for parts, want, step in asked[:12]:
        got = lookup(R, parts, want, dict(step, via="sanitise"), {},
                     plain=True)
        if got is None or want == ZERO:
            continue
        m = got[0]
        if want not in known:
            continue
        a, b = facts_of(S, known[want][2]), facts_of(R, m)
        ctx.require(a == b, "depends on earlier look-ups",
                    f"{want}: {a} after the history, {b} on a new program")
        facts[want] = b
        ctx.probe("compared with a new program")


def facts_of(S, m):
    out = [m.name, m.legacy_name, bool(m.is_knowable), bool(m.is_zero),
           bool(m.is_one), m.n_operators, bool(m.is_atomic),
           [f.as_2d_array.tolist() for f in m.factors]]
    if S.sdp:
        out += [bool(m.is_hermitian), bool(m.is_nonnegative),
                bool(m.is_all_commuting)]
    return out


def sc_nonnet(S):
    return any(c in S.u.sc["dag"] for v in S.u.sc["dag"].values() for c in v)


def word(A, rng, n):
    if A.ptype == "sdp":
        return [rng.randrange(len(A.ops)) for _ in range(n)]
    for _ in range(30):
        w = [rng.randrange(len(A.ops)) for _ in range(n)]
        if all(A.comm[a][b] for a in w for b in w):
            return w
    return w[:1]


def show(how):
    s = str(how)
    return s if len(s) < 160 else s[:160] + "..."


def spellit(S, parts, spell, rng, inside, want):
    """(argument, description, may be refused)."""
    A, p = S.A, S.p
    own = inside.get(want)
    if own is not None and spell in ("name", "legacy", "symbol", "moment"):
        x = {"name": own.name, "legacy": own.legacy_name,
             "symbol": own.symbol, "moment": own}[spell]
        return x, f"{spell} {x}", False
    if spell == "factor" and own is not None and own.is_atomic:
        return own.factors[0], f"factor {own.name}", False
    if spell in ("product", "symproduct"):
        atoms = []
        for w in parts:
            m = S.sanitise(np.array([A.row(x) for x in w]))
            if m.is_zero:
                return None
            atoms += list(m.factors)
        if A.join([[A.of_row(r) for r in f.as_2d_array]
                   for f in atoms]) != want:
            return None               # a part was replaced by its adjoint
        if spell == "symproduct" and not {f.name for f in atoms} <= {
                f.name for m in S.u.moments for f in m.factors}:
            return None
        rng.shuffle(atoms)
        if spell == "product":
            # legacy names of atoms the program never met cannot be read,
            # nor, where parents are visible, some of their probabilities
            if sc_nonnet(S) and any(f.name not in p.atom_from_name
                                    for f in atoms):
                return None
            s = "*".join(rng.choice([f.name, f.legacy_name])
                         if f.legacy_name in p.atom_from_name else f.name
                         for f in atoms)
            return s, f"text {s}", False
        e = 1
        for f in atoms:
            e = e * f.symbol
        return e, f"expression {e}", False
    # one word in which the parts sit on different copies
    w = assemble(A, parts)
    if w is None:
        return None
    w = A.variant(w, rng)
    if spell == "string" and w:
        s = "<" + " ".join(S.names(w)) + ">"
        return s, f"text {s}", False
    a = np.array([A.row(x) for x in w])
    if spell == "tuple":
        a = tuple(tuple(int(v) for v in r) for r in a)
    elif spell == "list":
        a = a.tolist()
    return a, f"array {np.array(a).tolist()}", False


def assemble(A, parts):
    """One word whose expectation value is the product of those of the parts
    (on disjoint copies), or None when there are not enough copies."""
    if len(parts) == 1:
        return list(parts[0])
    st, lev = A.st, A.lp.lev
    used = {s: 0 for s in st.sources}
    out = []
    for w in parts:
        mine = {s: sorted({c for x in w for q, c in A.T[A.ops[x][0]][1]
                           if q == s}) for s in st.sources}
        mp = {}
        for s, cs in mine.items():
            if used[s] + len(cs) > lev[s]:
                return None
            mp[s] = {c: used[s] + k + 1 for k, c in enumerate(cs)}
            used[s] += len(cs)
        for x in w:
            t, o = A.ops[x]
            i, cp, e = A.T[t]
            out.append(A.opix[A.lp.ix[i, tuple((s, mp[s][c])
                                               for s, c in cp), e], o])
    return out if A.ident(out) == A.join(parts) else None


def lookup(S, parts, want, step, inside, plain=False):
    """Ask the program; (moment, description) or None when this way of
    asking does not apply."""
    ctx, A, p = S.ctx, S.A, S.p
    rng = random.Random(step["seed"])
    spell = step["spell"]
    if plain and spell not in ("array", "tuple", "list", "string"):
        spell = "array"
    x = spellit(S, parts, spell, rng, inside, want)
    if x is None:
        return None
    arg, how, _ = x
    via = step["via"]
    if want == ZERO or want not in inside and via != "moment":
        via = "sanitise"
    if via in ("values", "bounds", "objective") and \
            isinstance(arg, (np.ndarray, list)):
        arg = tuple(tuple(int(v) for v in r) for r in arg)
    if via == "moment":
        # as helper functions do: straight from the operators, noise
        w = assemble(A, parts)
        if w is None:
            return None
        a = np.array([A.row(y) for y in A.variant(w, rng)])
        m = ctx.call("Moment", p.Moment_2d, a) if S.sdp else \
            ctx.call("Monomial", p.Monomial, p.mon_to_lexrepr(a))
        ctx.probe("via moment")
        return m, f"operators {a.tolist()}"
    if via == "sanitise":
        return ctx.call(f"look-up by {step['spell']}", S.sanitise, arg), how
    if via == "values":
        p.set_bounds(None, "up")
        ctx.call("set_values", p.set_values, {arg: .125},
                 only_specified_values=True)
        out = [m for m in p.known_moments if not (m.is_one or m.is_zero)]
        vals = [float(p.known_moments[m]) for m in out]
        p.set_values(None)
    elif via == "bounds":
        p.set_values(None)            # bounds on known moments have no effect
        ctx.call("set_bounds", p.set_bounds, {arg: .875}, "up")
        b = p.moment_upperbounds
        out = [m for m in b if abs(float(b[m]) - .875) < 1e-12]
        vals = [.125 for m in out]
        p.set_bounds(None, "up")
    else:
        ctx.call("set_objective", p.set_objective, {arg: .125}, "max")
        out = [m for m, c in p.objective.items() if not m.is_one and c]
        vals = [float(p.objective[m]) for m in out]
        p.set_objective(None)
    ctx.probe("via " + via)
    ctx.require(len(out) == 1, "not one moment", f"{via} for {show(how)}: "
                f"{[m.name for m in out][:4]}")
    ctx.require(abs(vals[0] - .125) < 1e-12, "another value",
                f"{via} for {show(how)}: {vals}")
    m = out[0]
    return m, how


def nontrivial(spec, rec):
    return rec["probes"].get("named in two ways", 0)


def simpler(spec):
    st = spec["steps"]
    for i in range(len(st)):
        yield dict(spec, steps=st[:i] + st[i + 1:])
    for i, s in enumerate(st):
        if s.get("via") not in (None, "sanitise"):
            yield dict(spec, steps=st[:i] + [dict(s, via="sanitise")]
                       + st[i + 1:])
