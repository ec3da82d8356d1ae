"""Executable reference for the inflation LP, written from the definition.

Events are assignments of outcomes to *templates*: (party, copy of each source
it reaches, effective setting).  A set of templates is jointly measurable when
no two of them measure the same copy of a non-classical system in different
ways.  The inflation problem asks for one distribution on every maximal
jointly measurable set such that

* each is a distribution, and two of them agree on what they share;
* relabelling the copies of a source changes nothing;
* the probability of an event equals the given value when it is known, the
  value of an event on causally disconnected parts being the product.

Nothing here uses the code under test.
"""
import itertools

import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog

from .lab import Structure

MAXVARS, MAXEVENTS = 1200, 12000


class TooLarge(Exception):
    pass


def templates(st, sc):
    lev = dict(zip(st.sources, sc["lev"]))
    out = []
    for i in range(st.n):
        for cp in itertools.product(*[range(1, lev[s] + 1)
                                      for s in st.src_of[i]]):
            for e in range(st.n_eff[i]):
                out.append((i, tuple(zip(st.src_of[i], cp)), e))
    return out


def compatible(st, t, u):
    """Jointly measurable?"""
    if t == u:
        return True
    (i, ct, e), (j, cu, f) = t, u
    ct, cu = dict(ct), dict(cu)
    if i == j:
        # systems measured by one party: the part of each source it holds
        # directly or through a non-classical latent; a classical latent only
        # broadcasts
        held = []
        for s in st.src_of[i]:
            if st.classical[s]:
                continue
            if i in st.holders[s]:
                held.append(s)
        clash = [s for s in held if ct[s] == cu[s]]
        if not clash:
            return True
        rel = st.src_of[i]
        return all(ct[s] == cu[s] for s in rel) and e == f
    # different parties act on different systems, except through a shared
    # non-classical latent: the latent's output depends on all of its inputs
    for N in st.nil:
        if i in _children(st, N) and j in _children(st, N):
            ins = [s for s in st.sources if N in st.sc["dag"][s]]
            q = [s for s in ins if not st.classical[s]]
            if not any(ct[s] == cu[s] for s in q):
                continue
            if not all(ct[s] == cu[s] for s in ins):
                return False
    return True


def _children(st, N):
    return [st.names.index(c) for c in st.sc["dag"][N] if c in st.names]


def cliques(adj):
    """Maximal cliques (Bron-Kerbosch with pivoting)."""
    n = len(adj)
    nb = [set(np.flatnonzero(adj[v])) - {v} for v in range(n)]
    out = []

    def grow(R, P, X):
        if not P and not X:
            out.append(tuple(sorted(R)))
            return
        piv = max(P | X, key=lambda v: len(nb[v] & P))
        for v in sorted(P - nb[piv]):
            grow(R | {v}, P & nb[v], X & nb[v])
            P = P - {v}
            X = X | {v}
    grow(set(), set(range(n)), set())
    return sorted(out)


class Union:
    def __init__(self, n):
        self.p = list(range(n))

    def find(self, x):
        while self.p[x] != x:
            self.p[x] = self.p[self.p[x]]
            x = self.p[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[max(a, b)] = min(a, b)


class LPRef:
    def __init__(self, sc, size_only=False):
        self.sc = sc
        self.st = st = Structure(sc)
        self.lev = dict(zip(st.sources, sc["lev"]))
        self.T = templates(st, sc)
        self.card = [sc["out"][t[0]] for t in self.T]
        if len(self.T) > 16:
            raise TooLarge
        self.ix = {t: k for k, t in enumerate(self.T)}
        n = len(self.T)
        adj = np.zeros((n, n), bool)
        for a in range(n):
            for b in range(n):
                adj[a, b] = compatible(st, self.T[a], self.T[b])
        self.adj = adj
        self.C = cliques(adj)
        self.off, tot = [], 0
        for c in self.C:
            self.off.append(tot)
            tot += int(np.prod([self.card[t] for t in c]))
            if tot > MAXVARS:
                raise TooLarge
        self.tot = tot
        if len(self.C) > 64 or sum(int(np.prod([self.card[t] + 1 for t in c]))
                                   for c in self.C) > MAXEVENTS:
            raise TooLarge
        if size_only:
            return
        self._symmetrise()
        self._base_rows()
        self._events()

    # -- symmetry -----------------------------------------------------------
    def _perms(self, generators=True):
        """Copy relabellings, as dicts source -> tuple."""
        for s in self.st.sources:
            L = self.lev[s]
            for a in range(1, L):
                p = list(range(L + 1))
                p[a], p[a + 1] = a + 1, a
                yield {s: p}

    def _move(self, t, perm):
        i, cp, e = self.T[t]
        return self.ix[i, tuple((s, perm[s][c] if s in perm else c)
                                for s, c in cp), e]

    def _symmetrise(self):
        uf = Union(self.tot)
        cix = {c: k for k, c in enumerate(self.C)}
        for perm in self._perms():
            mv = [self._move(t, perm) for t in range(len(self.T))]
            for k, c in enumerate(self.C):
                img = [mv[t] for t in c]
                d = tuple(sorted(img))
                k2 = cix[d]
                shape = [self.card[t] for t in c]
                idx = np.arange(int(np.prod(shape))).reshape(shape) \
                    + self.off[k]
                order = [img.index(t) for t in d]
                mine = np.transpose(idx, order).ravel()
                for a, b in zip(mine, range(self.off[k2],
                                            self.off[k2] + idx.size)):
                    uf.join(int(a), int(b))
        root = [uf.find(x) for x in range(self.tot)]
        lab = {r: k for k, r in enumerate(sorted(set(root)))}
        self.cls = np.array([lab[r] for r in root])
        self.nv = len(lab)

    def _functional(self, k, assign):
        """Probability of `assign` ({template: outcome}) in clique k."""
        c = self.C[k]
        shape = [self.card[t] for t in c]
        idx = np.arange(int(np.prod(shape))).reshape(shape)
        sel = tuple(assign.get(t, slice(None)) for t in c)
        v = np.asarray(idx[sel]).ravel() + self.off[k]
        u, m = np.unique(self.cls[v], return_counts=True)
        return tuple(zip(u.tolist(), m.tolist()))

    # -- constraints --------------------------------------------------------
    def _base_rows(self):
        rows = set()
        self.norm = [self._functional(k, {}) for k in range(len(self.C))]
        for k, l in itertools.combinations(range(len(self.C)), 2):
            S = sorted(set(self.C[k]) & set(self.C[l]))
            if not S:
                continue
            for o in itertools.product(*[range(self.card[t]) for t in S]):
                a = dict(zip(S, o))
                f, g = self._functional(k, a), self._functional(l, a)
                d = dict(f)
                for v, m in g:
                    d[v] = d.get(v, 0) - m
                d = tuple(sorted((v, m) for v, m in d.items() if m))
                if d:
                    rows.add(d)
        self.glue = sorted(rows)

    # -- events -------------------------------------------------------------
    def canon(self, rows):
        """Canonical form of an event under copy relabelling; rows are
        (party, ((source, copy)...), eff, outcome)."""
        key = tuple(sorted(rows))
        memo = self.__dict__.setdefault("_canon", {})
        if key in memo:
            return memo[key]
        used = {s: sorted({c for r in rows for q, c in r[1] if q == s})
                for s in self.st.sources}
        names = [s for s in self.st.sources if used[s]]
        best = None
        for combo in itertools.product(*[
                list(itertools.permutations(range(1, len(used[s]) + 1)))
                for s in names]):
            mp = {s: dict(zip(used[s], p)) for s, p in zip(names, combo)}
            v = tuple(sorted((i, tuple((s, mp[s][c]) for s, c in cp), e, o)
                             for i, cp, e, o in rows))
            if best is None or v < best:
                best = v
        memo[key] = best
        return best

    def split(self, rows):
        """Causally disconnected parts."""
        parts = []
        for r in rows:
            hit = [p for p in parts if any(set(r[1]) & set(q[1])
                                           for q in p)]
            new = [r]
            for p in hit:
                parts.remove(p)
                new = p + new
            parts.append(new)
        return parts

    def key(self, rows):
        return tuple(sorted(self.canon(p) for p in self.split(rows)))

    def _events(self):
        self.event = {}
        seen = set()
        for k, c in enumerate(self.C):
            for r in range(1, len(c) + 1):
                for S in itertools.combinations(c, r):
                    if S in seen:
                        continue
                    seen.add(S)
                    for o in itertools.product(*[range(self.card[t])
                                                 for t in S]):
                        rows = [self.T[t] + (x,) for t, x in zip(S, o)]
                        kk = self.key(rows)
                        if kk not in self.event:
                            self.event[kk] = self._functional(
                                k, dict(zip(S, o)))
                    if len(self.event) > MAXEVENTS:
                        raise TooLarge
        self.event[()] = None

    # -- knowability --------------------------------------------------------
    def knowable(self, atom):
        """Is this connected event an event of the original scenario?"""
        st = self.st
        ps = [r[0] for r in atom]
        if len(set(ps)) != len(ps):
            return False
        cp = {}
        for r in atom:
            for s, c in r[1]:
                if cp.setdefault(s, c) != c:
                    return False
        out = {r[0]: r[3] for r in atom}
        for i, _, e, _ in atom:
            _, par = st.uneff(i, e)
            for j, v in par.items():
                if out.get(j) != v:
                    return False
        return True

    def marginal(self, P, atom):
        """Value of a knowable event under the observable distribution."""
        n = self.st.n
        out, x = [slice(None)] * n, [0] * n
        for i, _, e, o in atom:
            out[i] = o
            x[i] = self.st.uneff(i, e)[0]
        return float(np.sum(P[tuple(out) + tuple(x)]))

    # -- the problem ---------------------------------------------------------
    def vec(self, lin):
        """lin: {key: coefficient} with () standing for 1 -> (row, const)."""
        v = np.zeros(self.nv)
        const = 0.0
        for k, c in lin.items():
            if k == ():
                const += c
                continue
            for j, m in self.event[k]:
                v[j] += c * m
        return v, const

    def known(self, given, products=True, lpi=False):
        """Equalities p(event) = value [* p(rest)] from given values
        {key: value}; returns list of ({key: coeff}, rhs)."""
        eqs = []
        atoms = {k[0]: v for k, v in given.items() if len(k) == 1}
        for k, v in given.items():
            eqs.append(({k: 1.0}, v))
        if products:
            for k in self.event:
                if len(k) < 2:
                    continue
                val, rest = 1.0, []
                for a in k:
                    if a in atoms:
                        val *= atoms[a]
                    else:
                        rest.append(a)
                if not rest:
                    eqs.append(({k: 1.0}, val))
                elif lpi and len(rest) < len(k):
                    eqs.append(({k: 1.0, tuple(sorted(rest)): -val}, 0.0))
        return eqs

    def from_distribution(self, P):
        atoms = {a for k in self.event for a in k if self.knowable(a)}
        return {(a,): self.marginal(P, a) for a in atoms}

    def solve(self, eqs=(), ineqs=(), obj=None, sense="max", margin=False):
        """eqs / ineqs: ({key: coeff}, rhs) meaning  = rhs / >= rhs.
        Returns (verdict, value); with `margin`, the least total violation of
        the eqs and ineqs."""
        A, b = [], []
        for f in dict.fromkeys(self.norm):
            v = np.zeros(self.nv)
            for j, m in f:
                v[j] += m
            A.append(v)
            b.append(1.0)
        for g in self.glue:
            v = np.zeros(self.nv)
            for j, m in g:
                v[j] += m
            A.append(v)
            b.append(0.0)
        hard = len(A)
        E = []
        for lin, rhs in eqs:
            v, c = self.vec(lin)
            E.append((v, rhs - c))
        G = []
        for lin, rhs in ineqs:
            v, c = self.vec(lin)
            G.append((-v, c - rhs))
        if not margin:
            Aeq = np.array(A + [v for v, _ in E])
            beq = np.array(b + [r for _, r in E])
            c = np.zeros(self.nv)
            c0 = 0.0
            if obj:
                c, c0 = self.vec(obj)
            s = -1 if sense == "max" else 1
            r = linprog(s * c, A_eq=sp.csr_matrix(Aeq), b_eq=beq,
                        A_ub=(sp.csr_matrix(np.array([v for v, _ in G]))
                              if G else None),
                        b_ub=[r for _, r in G] or None,
                        bounds=(0, None), method="highs")
            if r.status == 0:
                return "feasible", float(s * r.fun + c0)
            return ("infeasible" if r.status == 2 else "unknown"), None
        ne, ng = len(E), len(G)
        N = self.nv + 2 * ne + ng
        M = sp.lil_matrix((hard + ne, N))
        M[:hard, :self.nv] = np.array(A)
        for k, (v, _) in enumerate(E):
            M[hard + k, :self.nv] = v
            M[hard + k, self.nv + 2 * k] = 1
            M[hard + k, self.nv + 2 * k + 1] = -1
        U = sp.lil_matrix((ng, N))
        for k, (v, _) in enumerate(G):
            U[k, :self.nv] = v
            U[k, self.nv + 2 * ne + k] = -1
        c = np.zeros(N)
        c[self.nv:] = 1
        r = linprog(c, A_eq=M.tocsr(), b_eq=b + [x for _, x in E],
                    A_ub=U.tocsr() if ng else None,
                    b_ub=[x for _, x in G] or None, bounds=(0, None),
                    method="highs")
        return float(r.fun) if r.status == 0 else None

    def margin_of(self, eqs, ineqs):
        return self.solve(eqs, ineqs, margin=True)

    # -- supports -----------------------------------------------------------
    def support(self, P):
        """Is there a distribution with the same knowable events possible
        and impossible?"""
        A = []
        ref = dict(self.norm[0])
        for f in dict.fromkeys(self.norm[1:]):
            v = np.zeros(self.nv)
            for j, m in f:
                v[j] += m
            for j, m in ref.items():
                v[j] -= m
            A.append(v)
        for g in self.glue:
            v = np.zeros(self.nv)
            for j, m in g:
                v[j] += m
            A.append(v)
        up = []
        vals = {k[0]: v for k, v in self.from_distribution(P).items()}
        for k in self.event:
            if not k or not all(a in vals for a in k):
                continue
            x = np.prod([vals[a] for a in k])
            v, _ = self.vec({k: 1.0})
            if x < 1e-12:
                A.append(v)
            else:
                up.append(-v)
        r = linprog(np.zeros(self.nv), A_eq=sp.csr_matrix(np.array(A))
                    if A else None, b_eq=np.zeros(len(A)) if A else None,
                    A_ub=sp.csr_matrix(np.array(up)),
                    b_ub=-np.ones(len(up)), bounds=(0, None),
                    method="highs")
        return {0: "feasible", 2: "infeasible"}.get(r.status, "unknown")

    # -- translation ----------------------------------------------------------
    def of_program(self, mon):
        """Key of a program moment, from its operator arrays."""
        st = self.st
        parts = []
        for f in mon.factors:
            rows = []
            for r in f.as_2d_array:
                r = [int(v) for v in r]
                rows.append((r[0] - 1,
                             tuple((s, r[1 + j]) for j, s in
                                   enumerate(st.sources) if r[1 + j] > 0),
                             r[-2], r[-1]))
            parts.append(self.canon(rows))
        return tuple(sorted(parts))
