"""Independent executable model of causal scenarios.

A *lab* builds one concrete realisation of a scenario - classical hidden
variables with deterministic responses, quantum states with projective
measurements, or (where only no-signalling matters) PR-type boxes - and
evaluates from first principles

* the observable distribution P(outcomes | private settings), and
* any moment of the inflated scenario, i.e. the expectation value of an
  ordered product of measurement operators acting on arbitrary copies of the
  sources.

Nothing here uses the code under test.
"""
import itertools
import math
import random

import numpy as np

from .scen import parties, is_network


class Structure:
    """Who touches what, derived from the scenario dictionary alone."""

    def __init__(self, sc):
        self.sc = sc
        self.names = parties(sc)
        self.n = len(self.names)
        lat = list(sc["cil"]) + list(sc["nil"])
        self.cil, self.nil = set(sc["cil"]), set(sc["nil"])
        dag = sc["dag"]
        self.sources = [k for k in dag if k not in self.names
                        and k not in lat]
        self.classical = {s: (sc["cl"] == "all" or s in sc["cl"])
                          for s in self.sources}
        pos = {p: i for i, p in enumerate(self.names)}
        # observable parents of each party, in party order
        self.obs_parents = []
        for i, p in enumerate(self.names):
            self.obs_parents.append([j for j, q in enumerate(self.names)
                                     if p in dag.get(q, ())])
        self.settings = [[sc["set"][i]] + [sc["out"][j] for j in
                                           self.obs_parents[i]]
                         for i in range(self.n)]
        self.n_eff = [int(np.prod(s)) for s in self.settings]
        # (source -> holders): holder is a party index or ('N', latent)
        self.holders = {}
        for s in self.sources:
            hs = []
            for ch in dag[s]:
                if ch in pos:
                    hs.append(pos[ch])
                elif ch in self.cil:
                    hs.append(("N", ch))
                else:
                    hs.extend(pos[d] for d in dag[ch])
            self.holders[s] = list(dict.fromkeys(hs))
        # latents feeding each party, and sources feeding it by any route
        self.lat_of = [[N for N in lat if self.names[i] in dag.get(N, ())]
                       for i in range(self.n)]
        self.src_of = []
        for i in range(self.n):
            ss = []
            for s in self.sources:
                direct = i in self.holders[s]
                via = any(("N", N) in self.holders[s]
                          for N in self.lat_of[i])
                if direct or via:
                    ss.append(s)
            self.src_of.append(ss)

    def eff(self, i, priv, outcomes):
        """Effective setting of party i."""
        return int(np.ravel_multi_index(
            [priv] + [outcomes[j] for j in self.obs_parents[i]],
            self.settings[i]))

    def uneff(self, i, e):
        t = [int(v) for v in np.unravel_index(e, self.settings[i])]
        return t[0], dict(zip(self.obs_parents[i], t[1:]))


def _unitary(g, d, real):
    a = g.standard_normal((d, d))
    if not real:
        a = a + 1j * g.standard_normal((d, d))
    q, r = np.linalg.qr(a)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def _projectors(g, d, k, style):
    """k orthogonal projectors summing to the identity on C^d."""
    if style == "comp":
        u = np.eye(d)
    elif style == "angle":                 # product of planar rotations
        u = np.eye(1)
        n = int(round(math.log2(d)))
        for _ in range(n):
            t = g.integers(0, 8) * math.pi / 16
            u = np.kron(u, [[math.cos(t), -math.sin(t)],
                            [math.sin(t), math.cos(t)]])
        if n > 1 and g.random() < .5:      # Bell basis
            b = np.zeros((d, d))
            h = d // 2
            for j in range(h):
                b[j, 2 * j], b[d - 1 - j, 2 * j] = 1, 1
                b[j, 2 * j + 1], b[d - 1 - j, 2 * j + 1] = 1, -1
            u = u @ (b / math.sqrt(2))
    else:
        u = _unitary(g, d, style == "real")
    lab = [int(v) for v in g.integers(0, k, d)]
    if d >= k and g.random() < .8:
        lab[:k] = range(k)
    P = [np.zeros((d, d), dtype=complex) for _ in range(k)]
    for j in range(d):
        P[lab[j]] += np.outer(u[:, j], u[:, j].conj())
    return P


STYLES = ("det", "hidden", "quantum", "chsh", "ghz", "mixed", "ns")


class Model:
    """One realisation.  `seed` and `style` determine it completely."""

    def __init__(self, sc, seed, style="hidden"):
        self.st = st = Structure(sc)
        self.sc, self.style = sc, style
        g = self.g = np.random.default_rng(seed)
        self.ns = style == "ns"
        if self.ns and any(st.classical.values()):
            raise ValueError("boxes need non-classical sources")
        quantum = style in ("quantum", "chsh", "ghz", "mixed")
        # total qubit budget keeps states small
        nq = sum(len(st.holders[s]) for s in st.sources
                 if not st.classical[s])
        self.kind, self.w, self.psi, self.sysdim = {}, {}, {}, {}
        for s in st.sources:
            q = quantum and not st.classical[s] and nq <= 6
            if style == "mixed" and g.random() < .4:
                q = False
            if self.ns:
                self.kind[s] = "ns"
                continue
            if q:
                self.kind[s] = "q"
                hs = st.holders[s]
                k = len(hs)
                if style == "chsh" or (style == "ghz" and k > 1):
                    v = np.zeros(2 ** k, complex)
                    v[0] = v[-1] = 1 / math.sqrt(2)
                else:
                    v = g.standard_normal(2 ** k) + \
                        1j * g.standard_normal(2 ** k) * (style == "quantum")
                    v = v / np.linalg.norm(v)
                self.psi[s] = v.reshape((2,) * k)
            else:
                self.kind[s] = "c"
                card = 1 if style == "det" else int(g.integers(2, 4))
                w = g.random(card) + .05
                if style == "hidden" and g.random() < .4:
                    w = np.ones(card)
                self.w[s] = w / w.sum()
        if self.ns:
            self._init_ns()
        else:
            self._init_ops()

    # -- responses ----------------------------------------------------------
    def _init_ops(self):
        st, g = self.st, self.g
        pstyle = {"chsh": "angle", "ghz": "angle", "mixed": "real",
                  "quantum": "cplx"}.get(self.style, "real")
        # intermediate classical latents: message cardinality and instrument
        self.latsys, self.latlam, self.latmsg, self.latins = {}, {}, {}, {}
        for N in sorted(st.cil):
            srcs = [s for s in st.sources if ("N", N) in st.holders[s]]
            qs = [s for s in srcs if self.kind[s] == "q"]
            cs = [s for s in srcs if self.kind[s] == "c"]
            self.latsys[N], self.latlam[N] = qs, cs
            m = 2 if not qs else 2 ** len(qs)
            self.latmsg[N] = m = min(m, 4)
            for lam in itertools.product(*[range(len(self.w[s]))
                                           for s in cs]):
                if qs:
                    self.latins[N, lam] = _projectors(
                        g, 2 ** len(qs), m, pstyle)
                else:
                    hot = int(g.integers(0, m))
                    self.latins[N, lam] = [
                        np.eye(1, dtype=complex) * (j == hot)
                        for j in range(m)]
        self.psys, self.plam = [], []
        for i in range(st.n):
            own = [s for s in st.src_of[i] if i in st.holders[s]]
            self.psys.append([s for s in own if self.kind[s] == "q"])
            self.plam.append([s for s in own if self.kind[s] == "c"])
        self._op = {}
        self.pstyle = pstyle

    def _own(self, i, e, lam, msg):
        """Projectors of party i on its own systems."""
        key = (i, e, lam, msg)
        if key not in self._op:
            k = self.sc["out"][i]
            # seeded by the key, so the order of evaluation is irrelevant
            g = np.random.default_rng(
                [int(self.g_seed()), i, e] + list(lam) + [97] + list(msg))
            d = 2 ** len(self.psys[i])
            if d == 1:
                hot = int(g.integers(0, k))
                self._op[key] = [np.eye(1, dtype=complex) * (a == hot)
                                 for a in range(k)]
            else:
                self._op[key] = _projectors(g, d, k, self.pstyle)
        return self._op[key]

    def g_seed(self):
        if not hasattr(self, "_gs"):
            self._gs = int(self.g.integers(0, 2 ** 31))
        return self._gs

    def operator(self, i, e, a, lam_of):
        """(systems, matrix): systems are (source, holder) pairs.
        `lam_of(source)` gives the hidden value of the relevant copy."""
        st = self.st
        lam = tuple(lam_of(s) for s in self.plam[i])
        lats = [N for N in st.lat_of[i] if N in st.cil]
        own_sys = [(s, i) for s in self.psys[i]]
        if not lats:
            return own_sys, self._own(i, e, lam, ())[a]
        sysn = own_sys[:]
        for N in lats:
            sysn += [(s, ("N", N)) for s in self.latsys[N]]
        tot = 0
        for msg in itertools.product(*[range(self.latmsg[N]) for N in lats]):
            M = self._own(i, e, lam, msg)[a]
            for N, m in zip(lats, msg):
                ll = tuple(lam_of(s) for s in self.latlam[N])
                M = np.kron(M, self.latins[N, ll][m])
            tot = tot + M
        return sysn, tot

    # -- moments ------------------------------------------------------------
    def moment(self, ops):
        """<product of ops>; op = (party index, {source: copy}, eff setting,
        outcome).  Real part (program moments are real)."""
        if self.ns:
            return self._moment_ns(ops)
        if not ops:
            return 1.0
        st = self.st
        copies = sorted({(s, c) for (i, cp, e, a) in ops
                         for s, c in cp.items()})
        cc = [k for k in copies if self.kind[k[0]] == "c"]
        qc = [k for k in copies if self.kind[k[0]] == "q"]
        axes, tens = {}, None
        pos = 0
        for s, c in qc:
            for h in st.holders[s]:
                axes[s, c, h] = pos
                pos += 1
            t = self.psi[s]
            tens = t if tens is None else np.multiply.outer(tens, t)
        if tens is None:
            tens = np.ones(())
        total = 0.0
        for lam in itertools.product(*[range(len(self.w[s]))
                                       for s, _ in cc]):
            asg = dict(zip(cc, lam))
            w = 1.0
            for (s, c), v in asg.items():
                w *= self.w[s][v]
            if w == 0:
                continue
            v = tens
            zero = False
            for (i, cp, e, a) in reversed(ops):
                sysn, M = self.operator(i, e, a,
                                        lambda s, cp=cp: asg[s, cp[s]])
                if M.shape == (1, 1):
                    if M[0, 0] == 0:
                        zero = True
                        break
                    continue
                ax = [axes[s, cp[s], h] for s, h in sysn]
                v = _apply(v, M, ax)
            if zero:
                continue
            total += w * float(np.real(np.vdot(tens, v)))
        return total

    def distribution(self, eta=0.0):
        """P(outcomes | settings); with `eta`, every party independently
        replaces its outcome by a uniform one with that probability (a local
        operation, so the result is still realisable)."""
        st, sc = self.st, self.sc
        P = np.zeros(tuple(sc["out"]) + tuple(sc["set"]))
        cp = [{s: 1 for s in st.src_of[i]} for i in range(st.n)]
        memo = {}

        def joint(effs, a0):
            if (effs, a0) not in memo:
                memo[effs, a0] = self.moment(
                    [(i, cp[i], effs[i], a0[i]) for i in range(st.n)])
            return memo[effs, a0]
        for x in np.ndindex(*sc["set"]):
            for a in np.ndindex(*sc["out"]):
                effs = tuple(st.eff(i, x[i], a) for i in range(st.n))
                if not eta:
                    P[a + x] = joint(effs, a)
                    continue
                for a0 in np.ndindex(*sc["out"]):
                    w = 1.0
                    for i in range(st.n):
                        w *= (1 - eta) * (a[i] == a0[i]) + eta / sc["out"][i]
                    P[a + x] += w * joint(effs, a0)
        P[np.abs(P) < 1e-15] = 0
        s = P.sum(axis=tuple(range(st.n)), keepdims=True)
        assert np.allclose(s, 1, atol=1e-9), s
        return P / s

    # -- no-signalling boxes -------------------------------------------------
    def _init_ns(self):
        """Each source is an n-party box: outputs uniform with
        xor(outputs) = and(inputs); parties wire inputs/outputs."""
        st, g = self.st, self.g
        self.win, self.wout = {}, {}
        for i in range(st.n):
            for e in range(st.n_eff[i]):
                self.win[i, e] = {s: int(g.integers(0, 2)) if st.n_eff[i] > 2
                                  else int(e % 2) if g.random() < .8 else
                                  int(g.integers(0, 2))
                                  for s in st.src_of[i]}
                k = self.sc["out"][i]
                nb = len(st.src_of[i])
                self.wout[i, e] = [int(v) for v in g.integers(0, k, 2 ** nb)]
                if g.random() < .6:
                    self.wout[i, e] = [
                        (bin(v).count("1") % 2) % k for v in range(2 ** nb)]

    def _moment_ns(self, ops):
        """Ops must be jointly measurable: each (source copy, holder) is
        measured with one input only."""
        st = self.st
        if not ops:
            return 1.0
        use = {}
        for (i, cp, e, a) in ops:
            for s in st.src_of[i]:
                k = (s, cp[s])
                u = self.win[i, e][s]
                prev = use.setdefault(k, {}).setdefault(i, (u, e))
                if prev != (u, e):
                    raise ValueError("not jointly measurable")
        boxes = []
        for k, d in sorted(use.items()):
            hs = self.st.holders[k[0]]
            ps = sorted(d)
            full = len(ps) == len(hs)
            tgt = int(all(d[p][0] for p in ps)) if full else None
            outs = []
            for o in itertools.product((0, 1), repeat=len(ps)):
                if full and sum(o) % 2 != tgt:
                    continue
                outs.append({(k, p): b for p, b in zip(ps, o)})
            boxes.append(outs)
        tot, cnt = 0, 0
        for combo in itertools.product(*boxes):
            cnt += 1
            val = {}
            for c in combo:
                val.update(c)
            good = True
            for (i, cp, e, a) in ops:
                bits = [val[(s, cp[s]), i] for s in st.src_of[i]]
                idx = int("".join(map(str, bits)), 2)
                if self.wout[i, e][idx] != a:
                    good = False
                    break
            tot += good
        return tot / cnt


def _apply(v, M, ax):
    k = len(ax)
    d = v.ndim
    t = M.reshape((2,) * (2 * k))
    r = np.tensordot(t, v, axes=(list(range(k, 2 * k)), ax))
    # result axes: 0..k-1 are new ax, the rest in order
    rest = [i for i in range(d) if i not in ax]
    order = [0] * d
    for j, i in enumerate(ax):
        order[i] = j
    for j, i in enumerate(rest):
        order[i] = k + j
    return np.transpose(r, order)


def styles_for(sc, ptype):
    """Model styles that are of the declared type for this scenario and the
    given program type ('lp' may use boxes)."""
    st = Structure(sc)
    out = ["det", "hidden"]
    nonc = [s for s in st.sources if not st.classical[s]]
    nq = sum(len(st.holders[s]) for s in nonc)
    if nonc and nq <= 6:
        out += ["quantum", "chsh", "ghz", "mixed"]
    if ptype == "lp" and len(nonc) == len(st.sources) and not sc["cil"] \
            and not sc["nil"]:
        out += ["ns"]
    return out


def op_of(st, row):
    """Translate an operator row of the program under test
    [party, copy of source 1.., setting, outcome] into a lab operator."""
    row = [int(v) for v in row]
    i = row[0] - 1
    cp = {s: row[1 + k] for k, s in enumerate(st.sources)
          if row[1 + k] > 0}
    return (i, cp, row[-2], row[-1])


def moment_value(model, mon):
    """Value of a program moment (product of independent factors)."""
    v = 1.0
    for f in mon.factors:
        v *= model.moment([op_of(model.st, r) for r in f.as_2d_array])
    return v


def pick(rng: random.Random, sc, ptype):
    st = styles_for(sc, ptype)
    w = [1 if s == "det" else 2 for s in st]
    return {"seed": rng.randrange(1 << 30), "style": rng.choices(st, w)[0]}
