"""Comparing what two programs handed to the solver."""
import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog

TOL = 1e-7


def rows(p):
    """All constraints of an LP `Problem` as {row: (lo, up)}; a row is a
    tuple of (column, coefficient), scaled so that the first is 1."""
    out = {}

    def add(cols, vals, lo, up):
        keep = [(int(c), float(v)) for c, v in sorted(zip(cols, vals))
                if abs(v) > 1e-12]
        if not keep:
            key = ()
        else:
            s = keep[0][1]
            key = tuple((c, round(v / s, 9)) for c, v in keep)
            lo, up = lo / s, up / s
            if s < 0:
                lo, up = up, lo
        a, b = out.get(key, (-np.inf, np.inf))
        out[key] = (max(a, lo), min(b, up))
    A = p.A.tocsr()
    A.sum_duplicates()
    for i in range(p.nc):
        sl = slice(A.indptr[i], A.indptr[i + 1])
        add(A.indices[sl], A.data[sl], p.blc[i], p.buc[i])
    for j in range(p.nv):
        if np.isfinite(p.blx[j]) or np.isfinite(p.bux[j]):
            add([j], [1.0], p.blx[j], p.bux[j])
    out = {k: (lo + 0.0, up + 0.0) for k, (lo, up) in out.items()
           if np.isfinite(lo) or np.isfinite(up)}
    lo, up = out.get((), (0, 0))
    if lo <= TOL and up >= -TOL:
        out.pop((), None)
    return out


def region(p):
    eq = p.blc == p.buc
    lo, up = np.isfinite(p.blc) & ~eq, np.isfinite(p.buc) & ~eq
    return dict(A_ub=sp.vstack([-p.A[lo], p.A[up]]) if (lo | up).any()
                else None,
                b_ub=np.concatenate([-p.blc[lo], p.buc[up]])
                if (lo | up).any() else None,
                A_eq=p.A[eq] if eq.any() else None,
                b_eq=p.blc[eq] if eq.any() else None,
                bounds=np.column_stack([p.blx, p.bux]))


def feasible(p):
    if np.any(p.blx > p.bux) or np.any(p.blc > p.buc):
        return False
    r = linprog(np.zeros(p.nv), **region(p), method="highs-ds")
    return {0: True, 2: False}.get(r.status)


def implied(p, row, lo, up, eps=1e-6):
    """Does the region of `p` satisfy lo <= row.x <= up ?  Returns None when
    implied, else a description."""
    c = np.zeros(p.nv)
    for j, v in row:
        c[j] = v
    for sgn, b in ((1, lo), (-1, -up)):
        if not np.isfinite(b):
            continue
        r = linprog(sgn * c, **region(p), method="highs-ds")
        if r.status == 0 and r.fun < b - eps * (1 + abs(b)):
            return f"reaches {sgn * r.fun:.6g}, bound {sgn * b:.6g}"
        if r.status == 3:
            return "unbounded"
    return None


def same_lp(p, q):
    """None when the two problems have the same feasible set and objective;
    otherwise a description of the difference."""
    if p.nv != q.nv:
        return f"{p.nv} variables versus {q.nv}"
    sp_, sq = (-1 if p.maximize else 1), (-1 if q.maximize else 1)
    dc = np.abs(sp_ * p.c - sq * q.c).max() if p.nv else 0
    rp, rq = rows(p), rows(q)

    def close(a, b):
        return all((x == y) or abs(x - y) <= TOL * (1 + abs(x))
                   for x, y in zip(a, b))
    only_p = [(k, v) for k, v in rp.items() if k not in rq
              or not close(rq[k], v)]
    only_q = [(k, v) for k, v in rq.items() if k not in rp
              or not close(rp[k], v)]
    diff = None
    if only_p or only_q:
        fp, fq = feasible(p), feasible(q)
        if fp is None or fq is None:
            return None
        if fp != fq:
            return f"feasible {fp} versus {fq}"
        if fp:
            for tag, lst, other in (("constraint dropped", only_q, p),
                                    ("constraint added", only_p, q)):
                for k, (lo, up) in lst[:60]:
                    d = implied(other, k, lo, up)
                    if d:
                        diff = f"{tag}: {lo:.6g} <= {k[:6]} <= {up:.6g} " \
                               f"({d})"
                        return diff
    if dc > TOL and (not (only_p or only_q) or feasible(p)):
        return f"objective differs by {dc:.3g}"
    return None
