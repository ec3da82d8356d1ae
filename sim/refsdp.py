"""Executable reference for the moment-matrix (SDP) relaxation, written from
the definition: a moment matrix over a documented set of operator products,
whose entries are equal when the products are equal as operators (commutation,
projectors, orthogonality), up to relabelling the copies of a source and
taking the adjoint.  Nothing here uses the code under test.
"""
import itertools
import random

import numpy as np

from . import ipm
from .ref import LPRef, TooLarge

ONE, ZERO = (), None


class SDPRef:
    def __init__(self, sc, col, maxcols=24):
        self.lp = LPRef(sc, size_only=True)
        self.sc, self.st = sc, self.lp.st
        st = self.st
        has_kids = [any(i in st.obs_parents[j] for j in range(st.n))
                    for i in range(st.n)]
        self.kids = has_kids
        self.ops = []                       # (template, outcome)
        for t, tt in enumerate(self.lp.T):
            k = self.lp.card[t]
            for o in range(k if has_kids[tt[0]] else k - 1):
                self.ops.append((t, o))
        self.opix = {op: k for k, op in enumerate(self.ops)}
        adj = self.lp.adj
        self.comm = [[bool(adj[a[0], b[0]]) for b in self.ops]
                     for a in self.ops]
        self.perms = self._perms()
        self._nf, self._key = {}, {}
        self.col = col
        self.columns = self._columns(col)
        if len(self.columns) > maxcols or \
                len(self.columns) ** 2 * len(self.perms) > 60000:
            raise TooLarge
        self._matrix()

    # -- the operator algebra -------------------------------------------------
    def _perms(self):
        """All copy relabellings as permutations of the operators."""
        st, lev = self.st, self.lp.lev
        out = []
        for combo in itertools.product(*[
                list(itertools.permutations(range(1, lev[s] + 1)))
                for s in st.sources]):
            pm = {s: (0,) + p for s, p in zip(st.sources, combo)}
            mv = [self.lp._move(t, pm) for t in range(len(self.lp.T))]
            out.append([self.opix[mv[t], o] for t, o in self.ops])
        return out

    def normal(self, w):
        """Normal form of a product, or None when it vanishes."""
        w = tuple(w)
        if w in self._nf:
            return self._nf[w]
        u = []
        for x in w:
            tx, ox = self.ops[x]
            drop = False
            for y in reversed(u):
                ty, oy = self.ops[y]
                if ty == tx:
                    if oy != ox:
                        self._nf[w] = None
                        return None
                    drop = True
                    break
                if not self.comm[x][y]:
                    break
            if not drop:
                u.append(x)
        # least representative of the commutation class
        out = []
        while u:
            best = None
            for k, x in enumerate(u):
                if all(self.comm[x][y] for y in u[:k]):
                    if best is None or x < u[best]:
                        best = k
            out.append(u.pop(best))
        self._nf[w] = tuple(out)
        return self._nf[w]

    def key(self, w):
        """Identity of the moment <w>."""
        n = self.normal(w)
        if n is None:
            return ZERO
        if n in self._key:
            return self._key[n]
        k = min(min(self.normal([p[x] for x in n]),
                    self.normal([p[x] for x in reversed(n)]))
                for p in self.perms)
        self._key[n] = k
        return k

    # -- generating set -------------------------------------------------------
    def subset(self, col):
        """Some words of a generating set, closed under copy relabelling, each
        in some spelling: {"base", "pick", "n", "form"}."""
        rng = random.Random(col["pick"])
        base = self._columns(col["base"])
        rest = [w for w in base if w]
        out = []
        while rest and len(out) < col["n"]:
            w = rng.choice(rest)
            orb = []
            for p in self.perms if not col.get("open") else [
                    range(len(self.ops))]:
                v = self.normal([p[x] for x in w])
                if v not in orb:
                    orb.append(v)
            rest = [v for v in rest if v not in orb]
            out += orb
        rng.shuffle(out)
        spelt = []
        for w in out:
            w = list(w)
            for _ in range(3 if len(w) > 1 else 0):
                k = rng.randrange(len(w) - 1)
                if self.comm[w[k]][w[k + 1]]:
                    w[k:k + 2] = w[k + 1], w[k]
            spelt.append(tuple(w))
        return [()] + out, [()] + spelt

    def rows2d(self, w):
        """2d encoding of a word (as InflationProblem documents it)."""
        out = []
        for x in w:
            t, o = self.ops[x]
            p, cop, s = self.lp.T[t]
            cop = dict(cop)
            out.append([p + 1] + [cop.get(q, 0) for q in self.st.sources]
                       + [s, o])
        return out

    def spelled(self, names):
        """The generating set as an argument of generate_relaxation."""
        words = self.subset(self.col)[1]
        width = len(self.st.sources) + 3
        if self.col["form"] == "2d":
            return [np.array(self.rows2d(w), dtype=int).reshape(-1, width)
                    for w in words]
        import sympy as sp
        out = []
        for w in words:
            e = sp.S.One
            for r in self.rows2d(w):
                e = e * sp.Symbol("_".join([names[r[0] - 1]] + [
                    str(v) for v in r[1:]]), commutative=False)
            out.append(e)
        return out

    def _columns(self, col):
        n = self.st.n
        if isinstance(col, dict):
            return self.subset(col)[0]
        party = lambda k: self.lp.T[self.ops[k][0]][0]
        cg = [k for k, (t, o) in enumerate(self.ops)]
        of = [[k for k in cg if party(k) == p] for p in range(n)]
        if isinstance(col, str) and col.startswith("physical"):
            N = int(col[8:])
            adj = self.lp.adj
            out = [()]
            seen = {()}
            T = range(len(self.lp.T))

            def grow(ch, rest):
                for i, t in enumerate(rest):
                    c2 = ch + [t]
                    if sum(self.lp.T[x][0] == self.lp.T[t][0]
                           for x in c2) > N:
                        continue
                    for os in itertools.product(*[
                            [o for o in range(self.lp.card[x])
                             if (x, o) in self.opix] for x in c2]):
                        w = self.normal([self.opix[x, o]
                                         for x, o in zip(c2, os)])
                        if w not in seen:
                            seen.add(w)
                            out.append(w)
                    if len(out) > 200:
                        raise TooLarge
                    grow(c2, [x for x in rest[i + 1:] if adj[x, t]])
            grow([], list(T))
            return out
        if isinstance(col, str) and col.startswith("npa"):
            N = int(col[3:])
            blocks = [b for k in range(N + 1) for b in
                      itertools.combinations_with_replacement(range(n), k)]
        elif isinstance(col, str):
            N = int(col[5:])
            blocks = [tuple(p for p in range(n) for _ in range(f[p]))
                      for f in itertools.product(range(N + 1), repeat=n)]
        else:
            blocks = [tuple(b) for b in col]
        out, seen = [], set()
        for b in blocks:
            for w in itertools.product(*[of[p] for p in b]):
                v = self.normal(w)
                if v is not None and len(v) == len(b) and v not in seen:
                    seen.add(v)
                    out.append(v)
            if len(out) > 200:
                raise TooLarge
        return out

    def _matrix(self):
        n = len(self.columns)
        G = {}
        for i in range(n):
            for j in range(i + 1):
                G[i, j] = self.key(tuple(reversed(self.columns[i]))
                                   + self.columns[j])
        self.G = G
        self.keys = sorted({k for k in G.values() if k not in (ONE, ZERO)},
                           key=lambda k: (len(k), k))
        self.by_parts = {}
        for k in self.keys:
            for w in (k, tuple(reversed(k))):
                self.by_parts.setdefault(self.parts(w), k)
        # normalisation of parties whose outcomes are all kept
        ix = {c: i for i, c in enumerate(self.columns)}
        self.norm = set()
        for i, c in enumerate(self.columns):
            for pos, x in enumerate(c):
                t, o = self.ops[x]
                if o or not self.kids[self.lp.T[t][0]]:
                    continue
                sub = self.normal(c[:pos] + c[pos + 1:])
                alts = [self.normal(c[:pos] + (self.opix[t, q],)
                                    + c[pos + 1:])
                        for q in range(self.lp.card[t])]
                if sub in ix and all(a in ix for a in alts):
                    for r in range(n):
                        e = {}
                        for col, sg in [(sub, 1)] + [(a, -1) for a in alts]:
                            j = ix[col]
                            k = G[max(r, j), min(r, j)]
                            if k is not ZERO:
                                e[k] = e.get(k, 0) + sg
                        e = tuple(sorted((k, v) for k, v in e.items() if v))
                        if e:
                            self.norm.add(e)
        self.norm = sorted(self.norm)

    # -- factors ----------------------------------------------------------------
    def factors(self, w):
        """Causally disconnected parts of a product, order preserved."""
        T = self.lp.T
        parts = []
        for x in w:
            t = set(T[self.ops[x][0]][1])
            hit = [p for p in parts if p[0] & t]
            idx = [x]
            cp = set(t)
            for p in hit:
                parts.remove(p)
                cp |= p[0]
                idx = p[1] + idx
            parts.append((cp, idx))
        order = {}
        out = []
        for cp, idx in parts:
            out.append(tuple(x for x in w if x in set(idx)))
        return out

    def rows(self, w):
        return [self.lp.T[self.ops[x][0]] + (self.ops[x][1],) for x in w]

    def canon_part(self, w):
        """A connected product up to relabelling copies onto 1..k."""
        memo = self.__dict__.setdefault("_cp", {})
        if w in memo:
            return memo[w]
        st = self.st
        rows = self.rows(w)
        used = {s: sorted({c for r in rows for q, c in r[1] if q == s})
                for s in st.sources}
        names = [s for s in st.sources if used[s]]
        best = None
        for combo in itertools.product(*[
                list(itertools.permutations(range(1, len(used[s]) + 1)))
                for s in names]):
            mp = {s: dict(zip(used[s], p)) for s, p in zip(names, combo)}
            v = []
            for i, cp, e, o in rows:
                t = self.lp.ix[i, tuple((s, mp[s][c]) for s, c in cp), e]
                v.append(self.opix[t, o])
            v = self.normal(v)
            if best is None or v < best:
                best = v
        memo[w] = best
        return best

    def parts(self, w):
        return tuple(sorted(self.canon_part(self.normal(p))
                            for p in self.factors(w)))

    def commuting(self, w):
        return all(self.comm[a][b] for a in w for b in w)

    def knowable(self, part):
        return self.commuting(part) and self.lp.knowable(self.rows(part))

    def value(self, P, part):
        return self.lp.marginal(P, self.rows(part))

    def nonneg(self, k):
        """Products of mutually commuting projectors."""
        return self.commuting(k)

    # -- translation --------------------------------------------------------------
    def of_program(self, mon):
        """Key of a program moment, or 'ONE'/'ZERO'/None when it is not in
        the matrix."""
        st = self.st
        parts = []
        for f in mon.factors:
            w = []
            for r in f.as_2d_array:
                r = [int(v) for v in r]
                t = self.lp.ix[r[0] - 1, tuple(
                    (s, r[1 + j]) for j, s in enumerate(st.sources)
                    if r[1 + j] > 0), r[-2]]
                w.append(self.opix[t, r[-1]])
            parts.append(self.canon_part(self.normal(w)))
        return self.by_parts.get(tuple(sorted(parts)))

    # -- known values ---------------------------------------------------------------
    def known(self, given, products=True, lpi=False):
        """given: {key: value}.  Equalities ({key: coeff}, rhs)."""
        own = set(self.keys)
        eqs = [({k: 1.0}, v) for k, v in given.items() if k in own]
        atoms = {}
        for k, v in given.items():
            for w in (k, tuple(reversed(k))):
                p = self.parts(w)
                if len(p) == 1:
                    atoms[p[0]] = v
        if products:
            for k in self.keys:
                ps = self.parts(k)
                if len(ps) < 2 or k in given and k in atoms:
                    continue
                val, rest = 1.0, []
                for p in ps:
                    if p in atoms:
                        val *= atoms[p]
                    else:
                        rest.append(p)
                if not rest:
                    eqs.append(({k: 1.0}, val))
                elif lpi and len(rest) < len(ps):
                    rest = tuple(sorted(rest))
                    r = self.by_parts.get(rest)
                    if r is None:
                        back = tuple(sorted(self.canon_part(self.normal(
                            tuple(reversed(q)))) for q in rest))
                        r = ("out", min(rest, back))
                    eqs.append(({k: 1.0, r: -val}, 0.0))
        return eqs

    def from_distribution(self, P):
        out = {}
        for k in self.keys:
            ps = self.parts(k)
            if len(ps) == 1 and self.knowable(ps[0]):
                out[k] = self.value(P, ps[0])
                continue
            for p in ps:
                # factors that are not moments of the matrix themselves
                if self.knowable(p) and (p,) not in self.by_parts:
                    out[p] = self.value(P, p)
        return out

    # -- the problem ---------------------------------------------------------------
    def solve(self, eqs=(), ineqs=(), obj=None, sense="max", fao=False,
              nonneg=()):
        """Returns (verdict, value); eqs/ineqs: ({key: coeff}, rhs)."""
        names = list(self.keys)
        extra = {k for lin, _ in list(eqs) + list(ineqs) for k in lin
                 if k is not ZERO and k and k[0] == "out"}
        names += sorted(extra)
        if fao:
            names.append("lambda")
        ix = {k: i for i, k in enumerate(names)}
        N = len(names)

        def vec(lin):
            v, c = np.zeros(N), 0.0
            for k, a in (lin.items() if isinstance(lin, dict) else lin):
                if k == ONE:
                    c += a
                elif k is not ZERO:
                    v[ix[k]] += a
            return v, c
        A, b = [], []
        for lin in self.norm:
            v, c = vec(lin)
            A.append(v)
            b.append(-c)
        for lin, rhs in eqs:
            v, c = vec(lin)
            A.append(v)
            b.append(rhs - c)
        G, h = [], []
        for k in sorted(set(nonneg) | {k for k in self.keys
                                       if self.nonneg(k)}):
            G.append(-vec({k: 1.0})[0])
            h.append(0.0)
        for lin, rhs in ineqs:
            v, c = vec(lin)
            G.append(-v)
            h.append(c - rhs)
        sv = ipm.Svec(len(self.columns))
        M = np.zeros((sv.dim, N))
        M0 = np.zeros(sv.dim)
        for k, (i, j) in enumerate(zip(sv.i, sv.j)):
            e = self.G[i, j]
            if e == ONE:
                M0[k] += sv.w[k]
            elif e is not ZERO:
                M[k, ix[e]] += sv.w[k]
            if fao and i == j:
                M[k, ix["lambda"]] -= 1
        # x = x0 + Nt
        x0, Z = np.zeros(N), np.eye(N)
        if A:
            A, b = np.array(A), np.array(b)
            rn = np.maximum(np.sqrt((A ** 2).sum(1)), 1e-13)
            if np.any((rn < 1e-12) & (np.abs(b) > 1e-7)):
                return "infeasible", None
            U, sg, Vt = np.linalg.svd(A, full_matrices=True)
            r = int((sg > 1e-9).sum())
            x0 = Vt[:r].T @ ((U[:, :r].T @ b) / sg[:r])
            if np.abs(A @ x0 - b).max() > 1e-7:
                return "infeasible", None
            Z = Vt[r:].T
        c0 = 0.0
        c = np.zeros(N)
        if fao:
            c[ix["lambda"]] = -1
        elif obj:
            c, c0 = vec(obj)
            c = -c if sense == "max" else c
        Gf = np.vstack([np.array(G).reshape(len(G), N), -M])
        hf = np.concatenate([h, M0])
        g, hh = Gf @ Z, hf - Gf @ x0
        # rows without variables
        ct = Z.T @ c
        P = np.zeros((Z.shape[1], 0))
        if Z.shape[1]:
            U2, s2, V2 = np.linalg.svd(g, full_matrices=True)
            r2 = int((s2 > 1e-9 * max(1.0, s2[0] if len(s2) else 1)).sum())
            P, null = V2[:r2].T, V2[r2:].T
            if np.linalg.norm(null.T @ ct) > 1e-8:
                return "unbounded", None
        R = ipm._cone(P.T @ ct, g @ P, hh, len(G), [sv], 80, 1e-9)
        if R[0] == "optimal":
            x = x0 + Z @ (P @ R[1])
            v = float(c @ x)
            if fao:
                return "feasible", -v
            return "feasible", (-v if sense == "max" else v) + c0
        return {"primal_infeasible": "infeasible",
                "dual_infeasible": "unbounded"}.get(R[0], "unknown"), None
