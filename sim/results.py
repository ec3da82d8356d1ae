"""Reading what a program presents as its result."""

VERDICTS = ("feasible", "infeasible", "optimal", "infeas_cer")


def verdict(status):
    s = str(status)
    if s in ("feasible", "infeasible"):
        return True
    return "optimal" in s or "infeas_cer" in s


def number(x):
    try:
        float(x)
    except (TypeError, ValueError):
        return False
    return float(x) == float(x)


def shown(p):
    """Everything the program presents as a result, as a list of strings."""
    out = []
    for a in ("objective_value", "primal_objective"):
        v = getattr(p, a, None)
        if v is not None and (number(v) or verdict(v)):
            out.append(f"{a}={v}")
    if getattr(p, "success", None):
        out.append("success=True")
    if verdict(getattr(p, "status", None)):
        out.append(f"status={p.status}")
    so = getattr(p, "solution_object", None)
    if isinstance(so, dict):
        if verdict(so.get("status")):
            out.append(f"solution_object status {so['status']}")
        if so.get("success"):
            out.append("solution_object success")
        if number(so.get("primal_value")) and (
                so.get("success") or verdict(so.get("status"))):
            out.append("solution_object value")
    return out


def certificate(p):
    """The certificate the program hands out, None when it refuses."""
    try:
        d = p.certificate_as_dict(clean=False)
    except Exception:                                # noqa: BLE001
        return None
    return {m.name: float(c) for m, c in d.items()}


def snapshot(p):
    return (str(getattr(p, "status", None)),
            repr(getattr(p, "objective_value", None)),
            repr(getattr(p, "success", None)))
