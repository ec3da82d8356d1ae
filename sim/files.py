"""Reading exported problems back, independently of the writers.

LP files (.lp, .mps) are read by MOSEK's own reader and answered by the
simulated solver.  SDP files (.dat-s, .csv, .mat) are parsed here into a
`Prob`, which a dense interior-point solver (sim/ipm.py) answers.  Objectives
in SDP files are to be maximised (the convention the repository's tests fix).
"""
import re

import numpy as np

from . import ipm


class Malformed(Exception):
    pass


# ---------------------------------------------------------------------- LP --
def read_lp(path):
    """-> the MOSEK task holding the file."""
    import mosek
    t = mosek.Task()
    try:
        t.readdata(path)
    except mosek.Error as e:
        raise Malformed(str(e)[:200])
    return t


def solve_lp(path):
    """(verdict, value, sense) of an exported LP."""
    import mosek
    t = read_lp(path)
    t.optimize()
    st = str(t.getsolsta(mosek.soltype.bas))
    sense = "max" if t.getobjsense() == mosek.objsense.maximize else "min"
    if "optimal" in st:
        return "feasible", t.getprimalobj(mosek.soltype.bas), sense
    if "prim_infeas" in st:
        return "infeasible", None, sense
    if "dual_infeas" in st:
        return "unbounded", None, sense
    return "none", None, sense


# --------------------------------------------------------------------- SDP --
class Prob:
    """maximise c.x + c0 subject to A x = b, G x <= h, mat(M x + M0) >= 0."""

    def __init__(self, n, size):
        self.n, self.sv = n, ipm.Svec(size)
        self.A, self.b, self.G, self.h = [], [], [], []
        self.M = np.zeros((self.sv.dim, n))
        self.M0 = np.zeros(self.sv.dim)
        self.pos = {(i, j): k for k, (i, j) in
                    enumerate(zip(self.sv.i, self.sv.j))}
        self.c, self.c0 = np.zeros(n), 0.0

    def cell(self, i, j, lin, const):
        k = self.pos[max(i, j), min(i, j)] if (max(i, j), min(i, j)) in \
            self.pos else self.pos[min(i, j), max(i, j)]
        for v, a in lin.items():
            self.M[k, v] += a * self.sv.w[k]
        self.M0[k] += const * self.sv.w[k]

    def row(self, lin, const, kind):
        v = np.zeros(self.n)
        for x, a in lin.items():
            v[x] += a
        if kind == "eq":
            self.A.append(v)
            self.b.append(-const)
        else:                      # lin + const >= 0
            self.G.append(-v)
            self.h.append(const)

    def solve(self, fao=False):
        N = self.n + bool(fao)
        pad = lambda a: np.hstack([np.array(a).reshape(len(a), self.n),
                                   np.zeros((len(a), N - self.n))])
        M = pad(self.M)
        if fao:
            for k, (i, j) in enumerate(zip(self.sv.i, self.sv.j)):
                if i == j:
                    M[k, -1] = -1
        c = np.zeros(N)
        c0 = 0.0
        if fao:
            c[-1] = 1
        else:
            c[:self.n] = self.c
            c0 = self.c0
        return affine(N, pad(self.A), np.array(self.b), pad(self.G),
                      np.array(self.h), self.sv, M, self.M0, c, c0)


def affine(N, A, b, G, h, sv, M, M0, c, c0):
    """(verdict, value) of  max c.x + c0."""
    x0, Z = np.zeros(N), np.eye(N)
    if len(A):
        rn = np.sqrt((A ** 2).sum(1))
        if np.any((rn < 1e-12) & (np.abs(b) > 1e-7)):
            return "infeasible", None
        U, sg, Vt = np.linalg.svd(A, full_matrices=True)
        r = int((sg > 1e-9).sum())
        x0 = Vt[:r].T @ ((U[:, :r].T @ b) / sg[:r])
        if np.abs(A @ x0 - b).max() > 1e-7:
            return "infeasible", None
        Z = Vt[r:].T
    Gf = np.vstack([G.reshape(len(G), N), -M])
    hf = np.concatenate([h, M0])
    g, hh = Gf @ Z, hf - Gf @ x0
    ct = -(Z.T @ c)
    P = np.zeros((Z.shape[1], 0))
    if Z.shape[1]:
        U2, s2, V2 = np.linalg.svd(g, full_matrices=True)
        r2 = int((s2 > 1e-9 * max(1.0, s2[0] if len(s2) else 1)).sum())
        P, null = V2[:r2].T, V2[r2:].T
        if np.linalg.norm(null.T @ ct) > 1e-8:
            return "unbounded", None
    # rows that no variable touches
    k = len(G)
    dead = [i for i in range(k) if np.abs(g[i] @ P).max(initial=0) < 1e-12]
    if any(hh[i] < -1e-7 for i in dead):
        return "infeasible", None
    keep = [i for i in range(len(Gf)) if i not in set(dead)]
    R = ipm._cone(P.T @ ct, (g @ P)[keep], hh[keep], k - len(dead), [sv], 80,
                  1e-9)
    if R[0] == "optimal":
        x = x0 + Z @ (P @ R[1])
        return "feasible", float(c @ x) + c0
    return {"primal_infeasible": "infeasible",
            "dual_infeasible": "unbounded"}.get(R[0], "unknown"), None


def num(s):
    try:
        return float(s)
    except ValueError:
        raise Malformed(f"not a number: {s!r}")


def read_sdpa(path):
    with open(path) as f:
        lines = f.read().split("\n")
    const = 0.0
    body = []
    for ln in lines:
        if ln.startswith('"') or ln.startswith("*"):
            m = re.search(r"constant term of value (\S+)", ln)
            if m:
                const = num(m.group(1))
            continue
        if ln.strip():
            body.append(ln)
    lead = lambda s: int(re.match(r"\s*(-?\d+)", s).group(1))
    n, nb = lead(body[0]), lead(body[1])
    inside = body[2].split("=")[0]
    blocks = [int(x) for x in re.findall(r"-?\d+", inside)]
    if len(blocks) != nb:
        raise Malformed(f"{nb} blocks announced, {len(blocks)} listed")
    c = [num(x) for x in re.split(r"[\s,{}()]+", body[3]) if x]
    if len(c) != n:
        raise Malformed(f"{n} variables, {len(c)} objective entries")
    psd = [k for k, d in enumerate(blocks) if d > 0]
    if len(psd) != 1:
        raise Malformed(f"blocks {blocks}")
    P = Prob(n, blocks[psd[0]])
    P.c, P.c0 = np.array(c), const
    diag = {k: [[{}, 0.0] for _ in range(-d)]
            for k, d in enumerate(blocks) if d < 0}
    seen = {}
    for ln in body[4:]:
        t = ln.split()
        if len(t) != 5:
            raise Malformed(ln)
        v, k, i, j = (int(x) for x in t[:4])
        a = num(t[4])
        k, i, j = k - 1, i - 1, j - 1
        if not 0 <= v <= n or not 0 <= k < nb or \
                not 0 <= i < abs(blocks[k]) or not 0 <= j < abs(blocks[k]):
            raise Malformed(f"entry outside its block: {ln!r}")
        q = seen.setdefault((v, k, min(i, j), max(i, j)), [])
        q.append(a)
    for (v, k, i, j), q in seen.items():
        a = sum(q)
        if k == psd[0]:
            if v:
                P.cell(i, j, {v - 1: a}, 0.0)
            else:
                P.cell(i, j, {}, -a)
        else:
            if i != j:
                raise Malformed(f"off-diagonal entry of a diagonal block")
            e = diag[k][i]
            if v:
                e[0][v - 1] = e[0].get(v - 1, 0) + a
            else:
                e[1] -= a
    for rows in diag.values():
        used = [[dict(e[0]), e[1]] for e in rows]
        # opposite rows state an equality
        k = 0
        while k < len(used):
            if k + 1 < len(used) and used[k][0] and \
                    {x: -a for x, a in used[k][0].items()} == \
                    used[k + 1][0] and used[k][1] == -used[k + 1][1]:
                P.row(used[k][0], used[k][1], "eq")
                k += 2
            else:
                P.row(used[k][0], used[k][1], "ge")
                k += 1
    return P


NAME = r"(?:[A-Za-z]*\[[^\]]*\]|<[^>]*>)(?:\^\d+)?"
TERM = re.compile(rf"([+-]?)(\d[\d.]*(?:e[+-]?\d+)?\*?)?"
                  rf"({NAME}(?:\*{NAME})*)?")


def split(line):
    """Split at commas outside brackets."""
    out, depth, cur = [], 0, ""
    for ch in line:
        if ch in "[<{(":
            depth += 1
        elif ch in "]>})":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def linear(s):
    """'0.5*P[..]-P[..]+0.1' -> ({name: coeff}, const)."""
    s = s.replace(" ", "")
    lin, const, at = {}, 0.0, 0
    while at < len(s):
        m = TERM.match(s, at)
        if not m or m.end() == at or not (m.group(2) or m.group(3)):
            raise Malformed(f"{s!r} at {at}")
        if at and not m.group(1):
            raise Malformed(f"{s!r} at {at}")
        a = -1.0 if m.group(1) == "-" else 1.0
        if m.group(2):
            if m.group(3) and not m.group(2).endswith("*"):
                raise Malformed(f"{s!r} at {at}")
            a *= num(m.group(2).rstrip("*"))
        if m.group(3):
            lin[m.group(3)] = lin.get(m.group(3), 0) + a
        else:
            const += a
        at = m.end()
    return lin, const


def read_csv(path, known, semi={}):
    """`known`: values of names that appear only as numbers in the matrix;
    `semi`: the same for names that appear as a number times another."""
    with open(path) as f:
        lines = f.read().split("\n")
    if not lines[0].startswith("Objective: "):
        raise Malformed(lines[0])
    at = lines.index("Bounds:")
    grid = [split(ln) for ln in lines[1:at]]
    n = len(grid)
    if any(len(r) != n for r in grid):
        raise Malformed("the matrix is not square")
    if lines[at + 1] != "Variable,lower,upper":
        raise Malformed(lines[at + 1])
    e = next(i for i, s in enumerate(lines) if s.startswith("Equalities"))
    q = next(i for i, s in enumerate(lines) if s.startswith("Inequalities"))
    bnds = [split(s) for s in lines[at + 2:e] if s.strip()]
    eqs = [linear(s) for s in lines[e + 1:q] if s.strip()]
    ineqs = [linear(s) for s in lines[q + 1:] if s.strip()]
    obj = linear(lines[0][len("Objective: "):])
    cells = {(i, j): linear(grid[i][j]) for i in range(n)
             for j in range(i, n)}
    names = {}

    def fold(lin, const):
        out = {}
        for k, a in lin.items():
            while k in semi and k not in known:
                a *= semi[k][0]
                k = semi[k][1]
            if k in known:
                const += a * known[k]
            else:
                out[names.setdefault(k, len(names))] = \
                    out.get(names.setdefault(k, len(names)), 0) + a
        return out, const
    for src in [cells.values(), eqs, ineqs, [obj]]:
        for lin, c in src:
            fold(lin, c)
    for b in bnds:
        fold({b[0]: 1}, 0)
    P = Prob(len(names), n)
    for (i, j), (lin, c) in cells.items():
        P.cell(i, j, *fold(lin, c))
    for lin, c in eqs:
        P.row(*fold(lin, c), "eq")
    for lin, c in ineqs:
        P.row(*fold(lin, c), "ge")
    for name, lo, up in bnds:
        if lo != "None":
            P.row(*fold({name: 1}, -num(lo)), "ge")
        if up != "None":
            P.row(*fold({name: -1}, num(up)), "ge")
    lin, P.c0 = fold(*obj)
    for k, a in lin.items():
        P.c[k] += a
    P.given = {(i, j): c for (i, j), (lin, c) in cells.items() if not lin}
    return P


def read_mat(path):
    from scipy.io import loadmat
    try:
        m = loadmat(path)
    except Exception as e:
        raise Malformed(f"{type(e).__name__}: {e}")
    mm = m["momentmatrix"]
    known = {int(r[0]): float(r[1]) for r in m["known_moments"]}
    semi = {int(r[0]): (float(r[1]), int(r[2]))
            for r in m["semiknown_moments"]}
    names = {}

    def fold(lin, const=0.0):
        out = {}
        for k, a in lin:
            k, a = int(k), float(a)
            hops = 0
            while k in semi and k not in known and hops < 50:
                a *= semi[k][0]
                k = semi[k][1]
                hops += 1
            if k in known:
                const += a * known[k]
            else:
                v = names.setdefault(k, len(names))
                out[v] = out.get(v, 0) + a
        return out, const

    def pairs(x):
        return [(r[0], r[1]) for r in x] if x.size else []

    def rows(x):
        out = []
        for e in (x[0] if x.size else []):
            s = e[0, 0]
            out.append(list(zip(s["moments"].ravel(), s["coeffs"].ravel())))
        return out
    n = len(mm)
    cells = {(i, j): fold([(mm[i, j], 1)]) for i in range(n)
             for j in range(i, n)}
    if not np.array_equal(mm, mm.T):
        raise Malformed("the moment matrix is not symmetric")
    eqs = [fold(r) for r in rows(m["moment_equalities"])]
    ineqs = [fold(r) for r in rows(m["moment_inequalities"])]
    lo = [fold([(k, 1)], -b) for k, b in pairs(m["moment_lowerbounds"])]
    up = [fold([(k, -1)], b) for k, b in pairs(m["moment_upperbounds"])]
    obj = fold(pairs(m["objective"]))
    P = Prob(len(names), n)
    for (i, j), e in cells.items():
        P.cell(i, j, *e)
    for e in eqs:
        P.row(*e, "eq")
    for e in ineqs + lo + up:
        P.row(*e, "ge")
    for k, a in obj[0].items():
        P.c[k] += a
    P.c0 = obj[1]
    P.given = {k: e[1] for k, e in cells.items() if not e[0]}
    P.names = {int(r[0][0, 0] if hasattr(r[0], "shape") else r[0]):
               str(r[1][0] if hasattr(r[1], "shape") else r[1])
               for r in m["moments_idx2name"]}
    return P
