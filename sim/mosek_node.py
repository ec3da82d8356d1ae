"""The simulated solver node.

`SimTask` derives from the *real* `mosek.Task`: every call that builds, names,
copies, reads or writes a problem still runs MOSEK's own native code, and the
whole of MOSEK Fusion's Python layer stays real.  Only `optimize()` and the
calls that read a solution back are answered by the simulator, which extracts
the problem that was really submitted, decides (through the seeded `Policy`)
whether this solve is answered, refused, cut short or interrupted, and computes
the answer with its own solvers (HiGHS for linear problems, the dense IPM of
`ipm.py` for semidefinite ones).
"""
import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog

from . import ipm


class SolverCrash(Exception):
    """An injected non-MOSEK exception inside the solver call."""


# ---------------------------------------------------------------- problems --
class Problem:
    """What the code under test really handed to the solver."""

    def __init__(self, mosek, task):
        T = task
        bk = mosek.boundkey
        self.nv, self.nc = T.getnumvar(), T.getnumcon()
        self.nb = T.getnumbarvar()
        if T.getnumacc() or T.getnumcone():
            raise NotImplementedError("conic constraints")
        self.c = np.array(T.getcslice(0, self.nv), float) if self.nv else \
            np.zeros(0)
        self.cfix = float(T.getcfix())
        self.maximize = T.getobjsense() == mosek.objsense.maximize
        if self.nc and T.getnumanz():
            i, j, v = T.getatrip()
        else:
            i, j, v = [], [], []
        self.A = sp.csr_matrix((np.array(v, float), (np.array(i, int),
                                np.array(j, int))), shape=(self.nc, self.nv))

        def bounds(k, lo, up):
            lo, up = np.array(lo, float), np.array(up, float)
            for t, key in enumerate(k):
                if key == bk.fr:
                    lo[t], up[t] = -np.inf, np.inf
                elif key == bk.lo:
                    up[t] = np.inf
                elif key == bk.up:
                    lo[t] = -np.inf
                elif key == bk.fx:
                    up[t] = lo[t]
            return lo, up
        self.blc, self.buc = bounds(*T.getconboundslice(0, self.nc)) \
            if self.nc else (np.zeros(0), np.zeros(0))
        self.blx, self.bux = bounds(*T.getvarboundslice(0, self.nv)) \
            if self.nv else (np.zeros(0), np.zeros(0))
        self.dims = [T.getdimbarvarj(j) for j in range(self.nb)]
        self.boff = np.cumsum([0] + [d * (d + 1) // 2 for d in self.dims])
        nX = int(self.boff[-1])
        self.barA = np.zeros((self.nc, nX))      # isometric svec coordinates
        self.barC = np.zeros(nX)
        if self.nb:
            def pos(jb, k, l):
                k, l = max(k, l), min(k, l)
                return self.boff[jb] + k * (k + 1) // 2 + l, \
                    (1.0 if k == l else ipm.SQ2)
            num, si, sj, sk, sl, sv = T.getbarablocktriplet()
            for a in range(num):
                p, w = pos(sj[a], sk[a], sl[a])
                self.barA[si[a], p] += w * sv[a]
            num, sj, sk, sl, sv = T.getbarcblocktriplet()
            for a in range(num):
                p, w = pos(sj[a], sk[a], sl[a])
                self.barC[p] += w * sv[a]

    def digest(self):
        """A label-free summary used in event logs."""
        return (self.nc, self.nv, tuple(self.dims), int(self.A.nnz),
                bool(self.maximize))


class Solution:
    """Solution in MOSEK's conventions."""

    def __init__(self, p):
        self.status = "unknown"
        self.xx = np.zeros(p.nv)
        self.y = np.zeros(p.nc)
        self.slc = np.zeros(p.nc)
        self.suc = np.zeros(p.nc)
        self.slx = np.zeros(p.nv)
        self.sux = np.zeros(p.nv)
        self.barx = np.zeros(int(p.boff[-1]))    # isometric svec
        self.bars = np.zeros(int(p.boff[-1]))
        self.pobj = 0.0
        self.dobj = 0.0
        self.says = None         # (solsta, prosta) of an early stop
        self.gone = False        # no solution available


def _fin(v):
    return np.isfinite(v)


# ------------------------------------------------------------- LP back end --
def solve_lp(p, rng=None):
    sol = Solution(p)
    sg = -1.0 if p.maximize else 1.0
    c = sg * p.c
    if np.any(p.blx > p.bux) or np.any(p.blc > p.buc):
        return _lp_infeasible(p, sol, sg, rng)
    eq = p.blc == p.buc
    lo, up = _fin(p.blc) & ~eq, _fin(p.buc) & ~eq
    A = p.A
    A_ub = sp.vstack([-A[lo], A[up]]) if (lo.any() or up.any()) else None
    b_ub = np.concatenate([-p.blc[lo], p.buc[up]]) if A_ub is not None \
        else None
    A_eq = A[eq] if eq.any() else None
    b_eq = p.blc[eq] if eq.any() else None
    bnds = np.column_stack([p.blx, p.bux])
    if p.nv == 0:
        bad = (eq & (np.abs(p.blc) > 1e-9)) | (p.blc > 1e-9) | (p.buc < -1e-9)
        if bad.any():
            return _lp_infeasible(p, sol, sg, rng)
        sol.status = "optimal"
        sol.pobj = sol.dobj = p.cfix
        return sol
    r = linprog(c, A_ub, b_ub, A_eq, b_eq, bnds, method="highs-ds")
    if r.status not in (0, 2, 3):
        r = linprog(c, A_ub, b_ub, A_eq, b_eq, bnds, method="highs-ipm")
    if r.status == 4 or r.status == 1:
        return sol
    if r.status == 2 or r.status == 3:
        # decide which of the two honestly
        inf = _lp_infeasible(p, Solution(p), sg, rng)
        if inf.status == "primal_infeasible":
            return inf
        return _lp_unbounded(p, sol, sg, c, A_ub, A_eq, bnds)
    x = r.x
    y = np.zeros(p.nc)
    slc, suc = np.zeros(p.nc), np.zeros(p.nc)
    if A_ub is not None:
        m = -np.asarray(r.ineqlin.marginals)
        k = int(lo.sum())
        slc[lo] = m[:k]
        suc[up] = m[k:]
    if A_eq is not None:
        ye = np.asarray(r.eqlin.marginals)
        slc[eq], suc[eq] = np.maximum(ye, 0), np.maximum(-ye, 0)
    slx = np.asarray(r.lower.marginals).copy()
    sux = -np.asarray(r.upper.marginals)
    val = float(c @ x)
    if rng is not None:
        x2, d2 = _alternative(p, c, val, x, rng)
        if x2 is not None:
            x = x2
        if d2 is not None:
            slc, suc, slx, sux = d2
    y = slc - suc
    sol.status = "optimal"
    sol.xx = x
    sol.y, sol.slc, sol.suc = sg * y, sg * slc, sg * suc
    sol.slx, sol.sux = sg * slx, sg * sux
    sol.pobj = float(p.c @ x) + p.cfix
    sol.dobj = sg * _dualval(p, slc, suc, slx, sux) + p.cfix
    return sol


def _dualval(p, slc, suc, slx, sux):
    v = 0.0
    for d, b, s in ((slc, p.blc, 1), (suc, p.buc, -1), (slx, p.blx, 1),
                    (sux, p.bux, -1)):
        k = _fin(b)
        v += s * float(d[k] @ b[k])
    return v


def _dual_matrix(p):
    """Columns: slc, suc, slx, sux; zero-bounded where the bound is infinite"""
    AT = p.A.T.tocsr()
    I = sp.identity(p.nv, format="csr")
    M = sp.hstack([AT, -AT, I, -I]).tocsr()
    b = np.concatenate([p.blc, -p.buc, p.blx, -p.bux])
    ub = np.where(_fin(b), np.inf, 0.0)
    b = np.where(_fin(b), b, 0.0)
    return M, b, ub


def _split(p, d):
    return np.split(d, [p.nc, 2 * p.nc, 2 * p.nc + p.nv])


def _alternative(p, c, val, x0, rng):
    """A seeded choice among the optimal primal and dual solutions."""
    eps = 1e-9 * (1 + abs(val))
    w = np.asarray([rng.random() for _ in range(p.nv)]) - 0.5
    box = 10 * (1 + np.abs(x0).max())
    eq = p.blc == p.buc
    lo, up = _fin(p.blc) & ~eq, _fin(p.buc) & ~eq
    A_ub = sp.vstack([-p.A[lo], p.A[up], sp.csr_matrix(c[None, :])])
    b_ub = np.concatenate([-p.blc[lo], p.buc[up], [val + eps]])
    bn = np.column_stack([np.maximum(p.blx, -box), np.minimum(p.bux, box)])
    x2 = d2 = None
    r = linprog(w, A_ub, b_ub, p.A[eq] if eq.any() else None,
                p.blc[eq] if eq.any() else None, bn, method="highs-ds")
    if r.status == 0:
        x2 = r.x
    M, b, ub = _dual_matrix(p)
    w = np.asarray([0.05 + rng.random() for _ in range(len(b))])
    r = linprog(w, sp.csr_matrix(-b[None, :]), [-val + eps], M, c,
                np.column_stack([np.zeros(len(b)), ub]), method="highs-ds")
    if r.status == 0:
        d2 = [np.maximum(v, 0) for v in _split(p, r.x)]
    return x2, d2


def _lp_infeasible(p, sol, sg, rng):
    M, b, ub = _dual_matrix(p)
    n = len(b)
    w = np.ones(n)
    if rng is not None:
        w = np.asarray([0.2 + rng.random() for _ in range(n)])
    if n == 0:
        return sol
    r = linprog(-b, sp.csr_matrix(w[None, :]), [1.0], M, np.zeros(p.nv),
                np.column_stack([np.zeros(n), ub]), method="highs-ds")
    if r.status == 0 and -r.fun > 1e-8:
        d = [np.maximum(v, 0) / -r.fun for v in _split(p, r.x)]
        sol.status = "primal_infeasible"
        sol.slc, sol.suc, sol.slx, sol.sux = (sg * v for v in d)
        sol.y = sol.slc - sol.suc
        sol.dobj = sg * 1.0
    return sol


def _lp_unbounded(p, sol, sg, c, A_ub, A_eq, bnds):
    bn = np.column_stack([np.where(_fin(p.blx), 0.0, -1.0),
                          np.where(_fin(p.bux), 0.0, 1.0)])
    r = linprog(c, A_ub, np.zeros(A_ub.shape[0]) if A_ub is not None else
                None, A_eq, np.zeros(A_eq.shape[0]) if A_eq is not None else
                None, bn, method="highs-ds")
    if r.status == 0 and r.fun < -1e-8:
        sol.status = "dual_infeasible"
        sol.xx = r.x / -r.fun
        sol.pobj = -sg
    return sol


# ------------------------------------------------------------ SDP back end --
def solve_sdp(p, rng=None):
    sol = Solution(p)
    sg = -1.0 if p.maximize else 1.0
    A = p.A.toarray()
    eq = p.blc == p.buc
    lo, up = _fin(p.blc) & ~eq, _fin(p.buc) & ~eq
    fx = p.blx == p.bux
    vlo, vup = _fin(p.blx) & ~fx, _fin(p.bux) & ~fx
    I = np.eye(p.nv)
    nX = len(p.barC)
    Aeq = np.vstack([A[eq], I[fx]])
    Beq = np.vstack([p.barA[eq], np.zeros((int(fx.sum()), nX))])
    beq = np.concatenate([p.blc[eq], p.blx[fx]])
    G = np.vstack([-A[lo], A[up], -I[vlo], I[vup]])
    H = np.vstack([-p.barA[lo], p.barA[up],
                   np.zeros((int(vlo.sum() + vup.sum()), nX))])
    h = np.concatenate([-p.blc[lo], p.buc[up], -p.blx[vlo], p.bux[vup]])
    r = ipm.solve(sg * p.c, sg * p.barC, Aeq, Beq, beq, G, H, h, p.dims)
    sol.iters = r.iters
    sol.status = r.status
    if r.status == "unknown":
        return sol
    if r.x is not None:
        sol.xx, sol.barx = r.x, r.X
    if r.z is not None:
        ne = int(eq.sum())
        ye = r.y[:ne]
        slc, suc = np.zeros(p.nc), np.zeros(p.nc)
        slx, sux = np.zeros(p.nv), np.zeros(p.nv)
        slc[eq], suc[eq] = np.maximum(ye, 0), np.maximum(-ye, 0)
        k = np.cumsum([int(lo.sum()), int(up.sum()), int(vlo.sum())])
        z = np.split(r.z, k)
        slc[lo], suc[up], slx[vlo], sux[vup] = z
        yf = r.y[ne:]
        slx[fx], sux[fx] = np.maximum(yf, 0), np.maximum(-yf, 0)
        sol.slc, sol.suc = sg * slc, sg * suc
        sol.slx, sol.sux = sg * slx, sg * sux
        sol.y = sol.slc - sol.suc
        sol.bars = sg * r.S
    if r.status == "optimal":
        sol.pobj = float(p.c @ r.x + p.barC @ r.X) + p.cfix
        sol.dobj = sg * r.dobj + p.cfix
    elif r.status == "primal_infeasible":
        sol.dobj = sg * r.dobj
    else:
        sol.pobj = sg * r.pobj
    return sol


# ------------------------------------------------------------------ policy --
class Policy:
    """Decides the outcome of each solve.  Replaced per run."""

    def __init__(self):
        self.count = 0
        self.log = []          # (digest, planned kind, status)
        self.plan = {}         # solve index -> fault dict
        self.alt = None        # random.Random for alternative optima
        self.observe = None    # callback(problem, solution)
        self.problems = None   # list collecting submitted problems

    def decide(self, idx):
        return self.plan.get(idx)


# what MOSEK may say when it stops early: (solution status, problem status)
EARLY = [("unknown", "unknown"), ("unknown", "prim_infeas_or_unbounded"),
         ("prim_feas", "prim_feas"), ("dual_feas", "dual_feas"),
         ("prim_and_dual_feas", "prim_and_dual_feas"),
         ("unknown", "ill_posed"), ("unknown", "unknown"), None]


class Node:
    def __init__(self):
        self.policy = Policy()

    def reset(self, policy=None):
        self.policy = policy or Policy()
        return self.policy


NODE = Node()


def install():
    """Replace `mosek.Task`; must run before MOSEK Fusion or the code under
    test take their own reference (both look the class up on the module)."""
    import mosek
    if getattr(mosek.Task, "_is_sim", False):
        return mosek
    Real = mosek.Task
    ST, PS, SS, RC = (mosek.soltype, mosek.prosta, mosek.solsta,
                      mosek.rescode)

    def tri(p, v):
        """isometric svec -> MOSEK's unscaled column-major lower triangle"""
        out = np.zeros_like(v)
        for b, d in enumerate(p.dims):
            M = ipm.Svec(d).mat(v[p.boff[b]:p.boff[b + 1]])
            j, i = np.triu_indices(d)
            out[p.boff[b]:p.boff[b + 1]] = M[i, j]
        return out

    class SimTask(Real):
        _is_sim = True
        _sim_p = None
        _sim_s = None
        _sim_rc = None

        def optimize(self, *a, **k):
            pol = NODE.policy
            idx = pol.count
            pol.count += 1
            fault = pol.decide(idx) or {}
            kind = fault.get("kind", "answer")
            self._sim_p = self._sim_s = None
            if kind == "license":
                pol.log.append((None, kind, "raised"))
                raise mosek.Error(RC.err_missing_license_file,
                                  "License cannot be located.")
            if kind == "space":
                pol.log.append((None, kind, "raised"))
                raise mosek.Error(RC.err_space, "Out of space.")
            if kind == "interrupt":
                pol.log.append((None, kind, "raised"))
                raise KeyboardInterrupt()
            if kind == "memory":
                pol.log.append((None, kind, "raised"))
                raise MemoryError("injected")
            if kind == "crash":
                pol.log.append((None, kind, "raised"))
                raise SolverCrash("injected")
            p = Problem(mosek, self)
            if pol.problems is not None:
                pol.problems.append(p)
            rng = pol.alt
            s = solve_sdp(p, rng) if p.nb else solve_lp(p, rng)
            self._sim_rc = RC.ok
            if kind in ("stall", "iterlimit", "timelimit", "numerical"):
                s = self._cut(p, s, fault)
                self._sim_rc = {"stall": RC.trm_stall,
                                "iterlimit": RC.trm_max_iterations,
                                "timelimit": RC.trm_max_time,
                                "numerical": RC.trm_numerical_problem}[kind]
            elif kind == "readback":
                s.gone = "error"
            elif kind == "noise" and s.status == "optimal":
                amp = fault.get("amp", 1e-9)
                g = np.random.default_rng(fault.get("seed", 0))
                for n in ("xx", "barx"):
                    v = getattr(s, n)
                    setattr(s, n, v + amp * g.standard_normal(v.shape) *
                            (1 + np.abs(v)))
            elif s.status == "unknown":
                self._sim_rc = RC.trm_stall
            self._sim_p, self._sim_s = p, s
            pol.log.append((p.digest(), kind, s.status))
            if pol.observe is not None:
                pol.observe(p, s)
            return self._sim_rc

        @staticmethod
        def _cut(p, s, fault):
            """An optimiser stopped early: status unknown, iterate is some
            unconverged point."""
            g = np.random.default_rng(fault.get("seed", 0))
            q = Solution(p)
            f = 0.3 + 0.6 * g.random()
            for n in ("xx", "y", "slc", "suc", "slx", "sux", "bars", "barx"):
                v = getattr(s, n)
                setattr(q, n, f * v + 0.05 * g.standard_normal(v.shape))
            q.pobj = float(p.c @ q.xx + p.barC @ q.barx) + p.cfix
            q.dobj = q.pobj + float(g.standard_normal())
            q.status = "unknown"
            q.says = EARLY[fault.get("early", 0) % len(EARLY)]
            q.gone = q.says is None
            return q

        # -- solution access ------------------------------------------------
        def _chk(self, st):
            if self._sim_s is not None and self._sim_s.gone == "error":
                raise mosek.Error(RC.err_space, "Out of space.")
            if not self.solutiondef(st):
                raise mosek.Error(RC.err_undef_solution,
                                  "The solution is not defined.")

        def solutiondef(self, st):
            if self._sim_s is None or st == ST.itg or \
                    self._sim_s.gone is True:
                return False
            if st == ST.bas:
                return not self._sim_p.nb
            return True

        def solutionsummary(self, *a, **k):
            return None

        def getsolsta(self, st):
            self._chk(st)
            if self._sim_s.says:
                return getattr(SS, self._sim_s.says[0])
            return {"optimal": SS.optimal,
                    "primal_infeasible": SS.prim_infeas_cer,
                    "dual_infeasible": SS.dual_infeas_cer,
                    "unknown": SS.unknown}[self._sim_s.status]

        def getprosta(self, st):
            self._chk(st)
            if self._sim_s.says:
                return getattr(PS, self._sim_s.says[1])
            return {"optimal": PS.prim_and_dual_feas,
                    "primal_infeasible": PS.prim_infeas,
                    "dual_infeasible": PS.dual_infeas,
                    "unknown": PS.unknown}[self._sim_s.status]

        def getprimalobj(self, st):
            self._chk(st)
            return self._sim_s.pobj

        def getdualobj(self, st):
            self._chk(st)
            return self._sim_s.dobj

        def _xc(self):
            p, s = self._sim_p, self._sim_s
            return p.A @ s.xx + p.barA @ s.barx

        def getsolution(self, st):
            self._chk(st)
            p, s = self._sim_p, self._sim_s
            kc = [mosek.stakey.unk] * p.nc
            kx = [mosek.stakey.unk] * p.nv
            L = lambda v: [float(t) for t in v]
            return (self.getprosta(st), self.getsolsta(st), kc, kx, [],
                    L(self._xc()), L(s.xx), L(s.y), L(s.slc), L(s.suc),
                    L(s.slx), L(s.sux), [0.0] * p.nv)

        def _slice(self, st, v, first, last, out=None, size=None):
            self._chk(st)
            r = np.asarray(v, float)[first:last]
            if out is None:
                return r.tolist()
            out[:] = r

        def getxxslice(self, st, f, l, o=None):
            return self._slice(st, self._sim_s.xx, f, l, o)

        def getslxslice(self, st, f, l, o=None):
            return self._slice(st, self._sim_s.slx, f, l, o)

        def getsuxslice(self, st, f, l, o=None):
            return self._slice(st, self._sim_s.sux, f, l, o)

        def getslcslice(self, st, f, l, o=None):
            return self._slice(st, self._sim_s.slc, f, l, o)

        def getsucslice(self, st, f, l, o=None):
            return self._slice(st, self._sim_s.suc, f, l, o)

        def getyslice(self, st, f, l, o=None):
            return self._slice(st, self._sim_s.y, f, l, o)

        def getxcslice(self, st, f, l, o=None):
            return self._slice(st, self._xc(), f, l, o)

        def getxx(self, st, o=None):
            return self._slice(st, self._sim_s.xx, 0, None, o)

        def getxc(self, st, o=None):
            return self._slice(st, self._xc(), 0, None, o)

        def gety(self, st, o=None):
            return self._slice(st, self._sim_s.y, 0, None, o)

        def getslx(self, st, o=None):
            return self._slice(st, self._sim_s.slx, 0, None, o)

        def getsux(self, st, o=None):
            return self._slice(st, self._sim_s.sux, 0, None, o)

        def getslc(self, st, o=None):
            return self._slice(st, self._sim_s.slc, 0, None, o)

        def getsuc(self, st, o=None):
            return self._slice(st, self._sim_s.suc, 0, None, o)

        def getbarxslice(self, st, f, l, size, o=None):
            p = self._sim_p
            return self._slice(st, tri(p, self._sim_s.barx), p.boff[f],
                               p.boff[l], o)

        def getbarsslice(self, st, f, l, size, o=None):
            p = self._sim_p
            return self._slice(st, tri(p, self._sim_s.bars), p.boff[f],
                               p.boff[l], o)

        def getbarxj(self, st, j, o=None):
            return self.getbarxslice(st, j, j + 1, 0, o)

        def getbarsj(self, st, j, o=None):
            return self.getbarsslice(st, j, j + 1, 0, o)

        def getintinf(self, item):
            if item == mosek.iinfitem.optimize_response:
                return int(self._sim_rc if self._sim_rc is not None else 0)
            return super().getintinf(item)

    SimTask.__name__ = "Task"
    mosek.Task = SimTask
    return mosek
