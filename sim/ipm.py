"""Small dense interior-point solver used by the simulated solver node.

Solves   minimise  c'x + <C, X>   (X block-diagonal, symmetric, PSD)
         subject   A x + <B_i, X> = b_i          (equalities)
                   G x + <H_k, X> <= h_k         (linear inequalities)
through a homogeneous self-dual embedding with Nesterov-Todd scaling.  All
dimensions are tiny (tens), so everything is dense.

The result is an honest status: "optimal", "primal_infeasible",
"dual_infeasible" or "unknown" (no convergence).
"""
import numpy as np
import scipy.linalg as sla

SQ2 = np.sqrt(2.0)
DATA = 1e-8         # a proof of infeasibility outlives such changes of data
ERR = 1e-4          # largest error of a value announced as optimal


class Svec:
    """Isometric vectorisation of symmetric n x n matrices."""
    _cache = {}

    def __new__(cls, n):
        if n not in cls._cache:
            self = object.__new__(cls)
            self.n = n
            self.i, self.j = np.tril_indices(n)
            self.w = np.where(self.i == self.j, 1.0, SQ2)
            self.dim = len(self.i)
            cls._cache[n] = self
        return cls._cache[n]

    def vec(self, M):
        return M[..., self.i, self.j] * self.w

    def mat(self, v):
        v = np.asarray(v) / self.w
        M = np.zeros(v.shape[:-1] + (self.n, self.n))
        M[..., self.i, self.j] = v
        M[..., self.j, self.i] = v
        return M


class Result:
    def __init__(self, status, **kw):
        self.status = status
        self.x = self.X = self.y = self.z = self.S = None
        self.pobj = self.dobj = None
        self.iters = 0
        self.__dict__.update(kw)


def solve(c, C, A, B, b, G, H, h, dims, maxit=80, tol=1e-9):
    """`C`,`B`,`H` are given on the stacked svec of the PSD blocks."""
    nx = len(c)
    sv = [Svec(d) for d in dims]
    nX = sum(s.dim for s in sv)
    cc = np.concatenate([c, C])
    AA = np.hstack([A, B]) if nX else A
    GG = np.hstack([G, H]) if nX else G
    n = nx + nX
    # scale rows of the equalities
    if AA.shape[0]:
        rn = np.sqrt((AA**2).sum(1))
        ok = rn > 1e-13
        if np.any(np.abs(b[~ok]) > 1e-9):
            k = np.where(~ok & (np.abs(b) > 1e-9))[0][0]
            y = np.zeros(len(b)); y[k] = np.sign(b[k])
            return Result("primal_infeasible", y=y, z=np.zeros(len(h)),
                          S=np.zeros(nX), dobj=float(y @ b))
        rs = np.where(ok, rn, 1.0)
        AAs, bs = AA / rs[:, None], b / rs
        U, sg, Vt = np.linalg.svd(AAs, full_matrices=True)
        r = int((sg > 1e-9 * max(1, sg[0] if len(sg) else 1)).sum())
        x0 = Vt[:r].T @ ((U[:, :r].T @ bs) / sg[:r])
        res = bs - AAs @ x0
        if np.linalg.norm(res) > 1e-7 * (1 + np.linalg.norm(bs)):
            y = res / rs
            return Result("primal_infeasible", y=y, z=np.zeros(len(h)),
                          S=np.zeros(nX), dobj=float(y @ b))
        N = Vt[r:].T
        # prefer the identity when there are no equalities
    else:
        x0 = np.zeros(n)
        N = np.eye(n)
    # cone rows: h - GG x >= 0 ; X = I X >= 0 (PSD)
    l = GG.shape[0]
    Gc = np.vstack([GG, np.hstack([np.zeros((nX, nx)), -np.eye(nX)])])
    hc = np.concatenate([h, np.zeros(nX)])
    g = Gc @ N
    hh = hc - Gc @ x0
    ct = N.T @ cc
    # drop free directions
    P = None
    if g.shape[1]:
        if g.shape[0] == 0:
            null = np.eye(g.shape[1]); P = np.zeros((g.shape[1], 0))
        else:
            U2, s2, V2 = np.linalg.svd(g, full_matrices=True)
            r2 = int((s2 > 1e-9 * max(1.0, s2[0] if len(s2) else 1.0)).sum())
            P, null = V2[:r2].T, V2[r2:].T
        free_cost = null.T @ ct
        if np.linalg.norm(free_cost) > 1e-8 * (1 + np.linalg.norm(ct)):
            # unbounded direction if feasible: decide feasibility first
            d = -(N @ (null @ free_cost))
            R = _cone(np.zeros(P.shape[1]), g @ P, hh, l, sv, maxit, tol)
            if R[0] == "optimal":
                return Result("dual_infeasible", x=d[:nx], X=d[nx:],
                              pobj=float(cc @ d), iters=R[-1])
            if R[0] == "primal_infeasible":
                return _pinf(R, cc, AA, b, Gc, hc, l)
            return Result("unknown", iters=R[-1])
        g, ct2 = g @ P, P.T @ ct
    else:
        ct2 = ct
    R = _cone(ct2, g, hh, l, sv, maxit, tol)
    st = R[0]
    if st == "optimal":
        _, t, s, z, it = R
        xx = x0 + N @ ((P @ t) if P is not None else t)
        if AA.shape[0]:
            y = np.linalg.lstsq(AA.T, cc + Gc.T @ z, rcond=None)[0]
        else:
            y = np.zeros(0)
        # min c'x: Ax=b (y), Gc x <= hc (z): c - A'y + G'z = 0
        return Result("optimal", x=xx[:nx], X=s[l:], y=y, z=z[:l], S=z[l:],
                      pobj=float(cc @ xx), dobj=float(y @ b - z @ hc),
                      iters=it, full=xx)
    if st == "primal_infeasible":
        return _pinf(R, cc, AA, b, Gc, hc, l)
    if st == "dual_infeasible":
        _, t, s, z, it = R
        d = N @ ((P @ t) if P is not None else t)
        return Result("dual_infeasible", x=d[:nx], X=d[nx:],
                      pobj=float(cc @ d), iters=it)
    return Result("unknown", iters=R[-1])


def _pinf(R, cc, AA, b, Gc, hc, l):
    _, t, s, z, it = R
    if AA.shape[0]:
        y = np.linalg.lstsq(AA.T, Gc.T @ z, rcond=None)[0]
    else:
        y = np.zeros(0)
    d = float(y @ b - z @ hc)
    if d <= 0:
        return Result("unknown", iters=it)
    return Result("primal_infeasible", y=y / d, z=z[:l] / d, S=z[l:] / d,
                  dobj=1.0, iters=it)


def _cone(c, G, h, l, sv, maxit, tol):
    """min c't  s.t.  Gt + s = h, s in R+^l x PSD...  Returns a tuple headed
    by the status.  G has full column rank (or no columns)."""
    m, n = G.shape
    deg = l + sum(s.n for s in sv)
    if m == 0:
        return ("optimal", np.zeros(n), np.zeros(0), np.zeros(0), 0)
    offs = []
    o = l
    for s_ in sv:
        offs.append((o, o + s_.dim, s_))
        o += s_.dim
    e = np.zeros(m)
    e[:l] = 1
    for a, b_, s_ in offs:
        e[a:b_] = s_.vec(np.eye(s_.n))
    s = e.copy(); z = e.copy(); t = np.zeros(n); tau = kap = 1.0
    nh = max(1.0, np.linalg.norm(h)); nc = max(1.0, np.linalg.norm(c))
    best = None

    def scal(s, z):
        Ws = []
        lam = np.zeros(m)
        lam[:l] = np.sqrt(s[:l] * z[:l])
        wl = np.sqrt(s[:l] / z[:l])
        for a, b_, q in offs:
            S, Z = q.mat(s[a:b_]), q.mat(z[a:b_])
            L1 = np.linalg.cholesky(S)
            L2 = np.linalg.cholesky(Z)
            U, d, Vt = np.linalg.svd(L2.T @ L1)
            R = L1 @ Vt.T / np.sqrt(d)
            Ri = (U / np.sqrt(d)).T @ L2.T   # R^{-1}
            Ws.append((R, Ri))
            lam[a:b_] = q.vec(np.diag(d))
        return wl, Ws, lam

    def WinvT(v, wl, Ws):      # W^{-T} v   (v may be 2-D: columns)
        out = np.array(v, dtype=float)
        out[:l] = (out[:l].T / wl).T
        for (a, b_, q), (R, Ri) in zip(offs, Ws):
            M = q.mat(out[a:b_].T)
            out[a:b_] = q.vec(Ri @ M @ Ri.T).T
        return out

    def WT(v, wl, Ws):
        out = np.array(v, dtype=float)
        out[:l] = (out[:l].T * wl).T
        for (a, b_, q), (R, Ri) in zip(offs, Ws):
            M = q.mat(out[a:b_].T)
            out[a:b_] = q.vec(R @ M @ R.T).T
        return out

    def Wi(v, wl, Ws):         # W^{-1} v : z = W^{-1} ztilde
        out = np.array(v, dtype=float)
        out[:l] = (out[:l].T / wl).T
        for (a, b_, q), (R, Ri) in zip(offs, Ws):
            M = q.mat(out[a:b_].T)
            out[a:b_] = q.vec(Ri.T @ M @ Ri).T
        return out

    def prod(u, v):
        out = np.zeros(m)
        out[:l] = u[:l] * v[:l]
        for a, b_, q in offs:
            U, V = q.mat(u[a:b_]), q.mat(v[a:b_])
            out[a:b_] = q.vec((U @ V + V @ U) / 2)
        return out

    def divlam(lam, u):        # lam \ u  (lam diagonal)
        out = np.zeros(m)
        out[:l] = u[:l] / lam[:l]
        for a, b_, q in offs:
            d = np.diag(q.mat(lam[a:b_]))
            U = q.mat(u[a:b_])
            out[a:b_] = q.vec(2 * U / (d[:, None] + d[None, :]))
        return out

    def maxstep(lam, dv):      # sup alpha: lam + alpha dv >= 0
        mn = 0.0
        if l:
            mn = min(mn, (dv[:l] / lam[:l]).min())
        for a, b_, q in offs:
            d = np.diag(q.mat(lam[a:b_]))
            D = q.mat(dv[a:b_]) / np.sqrt(d[:, None] * d[None, :])
            mn = min(mn, np.linalg.eigvalsh(D)[0])
        return np.inf if mn >= 0 else -1.0 / mn

    it = 0
    for it in range(maxit):
        rx = G.T @ z + c * tau
        rz = s + G @ t - h * tau
        rt = kap + c @ t + h @ z
        mu = (s @ z + kap * tau) / (deg + 1)
        pres = np.linalg.norm(rz) / tau / nh
        dres = np.linalg.norm(rx) / tau / nc
        po, do = c @ t / tau, -h @ z / tau
        gap = (s @ z) / tau**2
        rel = gap / max(1.0, abs(po), abs(do))
        score = max(pres, dres, rel)
        # the residuals bound the error of the value only together with the
        # size of the opposite variables: with huge multipliers (no interior)
        # a point that is off by 1e-9 may have any value
        err = (np.linalg.norm(rz) * np.linalg.norm(z)
               + np.linalg.norm(rx) * np.linalg.norm(t)) / tau**2
        sure = err < ERR * max(1.0, abs(po))
        if sure and (best is None or score < best[0]):
            best = (score, t / tau, s / tau, z / tau)
        if score < tol and sure:
            return ("optimal", t / tau, s / tau, z / tau, it)
        hz, cx = h @ z, c @ t
        if hz < 0:
            pinf = np.linalg.norm(G.T @ z) / -hz
            if pinf < tol * 10 and -hz > DATA * np.linalg.norm(z):
                zz = z / -hz
                return ("primal_infeasible", None, None, zz, it)
        if cx < 0:
            dinf = np.linalg.norm(G @ t + s) / -cx
            if dinf < tol * 10 and -cx > DATA * (np.linalg.norm(t)
                                                 + np.linalg.norm(s)):
                return ("dual_infeasible", t / -cx, s / -cx, None, it)
        try:
            wl, Ws, lam = scal(s, z)
            Gs = WinvT(G, wl, Ws)
            Q, Rr = np.linalg.qr(Gs)
            dg = np.abs(np.diag(Rr))
            if n and dg.min() < 1e-15 * dg.max():
                break

            def kkt(bx, bz):
                bzs = WinvT(bz, wl, Ws)
                w = sla.solve_triangular(Rr, bx, trans='T') if n else bx
                x = sla.solve_triangular(Rr, w + Q.T @ bzs) if n else bx
                zs = Gs @ x - bzs
                # one refinement step on G' z = bx
                if n:
                    r = bx - Gs.T @ zs
                    dx = sla.solve_triangular(
                        Rr, sla.solve_triangular(Rr, r, trans='T'))
                    x = x + dx
                    zs = zs + Gs @ dx
                return x, zs
            x1, z1s = kkt(-c, h)
            z1 = Wi(z1s, wl, Ws)

            def direction(eta, ds_rhs, dk_rhs):
                # lam o (dz~ + ds~) = ds_rhs ; kap dtau + tau dkap = dk_rhs
                q = divlam(lam, ds_rhs)
                x2, z2s = kkt(-eta * rx, -eta * rz - WT(q, wl, Ws))
                z2 = Wi(z2s, wl, Ws)
                # dkap + c'dt + h'dz = -eta rt
                den = c @ x1 + h @ z1 - kap / tau
                dtau = (-eta * rt - dk_rhs / tau - c @ x2 - h @ z2) / den
                dzs = z2s + dtau * z1s
                dt = x2 + dtau * x1
                dss = q - dzs
                dkap = (dk_rhs - kap * dtau) / tau
                return dt, dss, dzs, dtau, dkap

            def step(d):
                dt, dss, dzs, dtau, dkap = d
                a = min(maxstep(lam, dss), maxstep(lam, dzs))
                if dtau < 0:
                    a = min(a, -tau / dtau)
                if dkap < 0:
                    a = min(a, -kap / dkap)
                return a
            l2 = prod(lam, lam)
            d = direction(1.0, -l2, -tau * kap)
            a = min(1.0, step(d))
            sigma = (1 - a)**3
            corr = -l2 - prod(d[1], d[2]) + sigma * mu * e
            d = direction(1 - sigma, corr,
                          -tau * kap - d[3] * d[4] + sigma * mu)
            a = min(1.0, 0.98 * step(d))
        except (np.linalg.LinAlgError, ValueError, FloatingPointError):
            break
        if not np.isfinite(a) or a < 1e-9:
            break
        dt, dss, dzs, dtau, dkap = d
        t = t + a * dt
        s = s + a * WT(dss, wl, Ws)
        z = z + a * Wi(dzs, wl, Ws)
        tau += a * dtau
        kap += a * dkap
        sc = max(tau, kap, 1e-300)
        if sc > 1e6 or sc < 1e-6:
            t, s, z, tau, kap = t / sc, s / sc, z / sc, tau / sc, kap / sc
    # fall back on the best point if it is decent
    if best is not None and best[0] < 2e-7:
        return ("optimal", best[1], best[2], best[3], it)
    hz = h @ z
    if -hz > DATA * np.linalg.norm(z) and \
            np.linalg.norm(G.T @ z) / -hz < 1e-6:
        return ("primal_infeasible", None, None, z / -hz, it)
    return ("unknown", it)
