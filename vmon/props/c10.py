"""C10: projection onto irreps."""
from .common import *

RULE = ("one case = one point group / little co-group (ordinary, spin, small-representation or twisted factor system) with its irreps from an independent "
        "construction in a random gauge, and one unitary representation (direct sums with multiplicities 0..5, regular, orbits of points with and without a "
        "vector on each) in block, permuted, orthogonal or Haar gauge, projected on every irrep; distinct non-trivial = (group, flavour, source, gauge, "
        "multiplicities) with at least one non-empty projection")
ASSUMPTIONS = ["when the number of sets differs from the multiplicity and a warning is raised, the sets are not judged (allowed by the property; only accepted for multiplicities above 2); counted as warned_mismatch"]
FL = ["ordinary", "ordinary", "spinor", "small", "twisted"]
SRC = ["sum", "sum", "orbit", "orbitvec", "regular", "sum"]
GAUGE = ["none", "haar", "perm", "orth", "haar", "none"]


def cases(tier, seed):
    f = 60 if tier == "quick" else 200
    return [dict(h=h, r=r) for h in range(1, 531) for r in range(f)]


def run(case, ctx):
    from spgrep.representation import project_to_irrep
    rng = seeded(case, ctx)
    h = case["h"]
    fl = FL[rng.integers(len(FL))]
    R, T, om = algebra(h, rng, fl, conv=bool(rng.integers(2)))
    n = len(R)
    irr = oracle.irreps(T, om, rng)
    src = SRC[rng.integers(len(SRC))]
    if src in ("orbit", "orbitvec") and fl != "ordinary":
        src = "sum"
    if src == "regular" and n > 24:
        src = "sum"
    gauge = GAUGE[rng.integers(len(GAUGE))]
    if src == "sum":
        mult = rng.integers(0, 3, len(irr))
        if rng.integers(3) == 0:
            mult[rng.integers(len(irr))] = rng.integers(3, 6)
        if not mult.any():
            mult[rng.integers(len(irr))] = 1
        while sum(m * D.shape[1] for m, D in zip(mult, irr)) > 40:
            mult[np.argmax(mult)] -= 1
        rep = oracle.direct_sum([D if rng.integers(2) else regauge(D, rng, "haar") for m, D in zip(mult, irr) for _ in range(m)])
    elif src == "regular":
        rep = oracle.regular(T, om)
    else:
        rep = orbit_rep(R, rng, vec=src == "orbitvec").astype(complex)
        if rep.shape[1] > 72:
            rep = orbit_rep(R, rng).astype(complex)
            src = "orbit"
        gauge = "none"
    rep = regauge(rep, rng, gauge)
    c = np.einsum("kii->k", rep)
    if src == "orbitvec" and rng.integers(2) and np.abs(rep.imag).max() == 0:
        rep = rep.real.copy()
    allv = []
    mults = []
    for a, D in enumerate(irr):
        m = int(np.rint(np.vdot(np.einsum("kii->k", D), c).real / n))
        mults.append(m)
        if rng.integers(3) == 0:
            D = np.asfortranarray(D)
        o = ctx.observe("project", project_to_irrep, rep, D)
        what = f"hall {h} {fl} {src} gauge {gauge} irrep {a} (dim {D.shape[1]}, occurs {m} times in dim {rep.shape[1]}): "
        if o.exc is not None:
            ctx.fail(what + f"raised {type(o.exc).__name__}: {str(o.exc)[:150]}")
            continue
        B = o.value
        if not isinstance(B, (list, tuple)):
            ctx.fail(what + f"returned {type(B).__name__}")
            continue
        if len(B) != m:
            if o.warns and m > 2 and not src.startswith("orbit"):
                ctx.count("warned_mismatch")
                continue
            ctx.fail(what + f"{len(B)} sets returned" + (" with warning " + o.warns[-1][:80] if o.warns else " without any warning"))
            continue
        ctx.counts["oracle_checks"] += 1
        ctx.count("exact_count")
        B = [oracle.as_array(b, "basis set", (D.shape[1], rep.shape[1])) for b in B]
        msg = []
        for i, b in enumerate(B):
            x = np.abs(b.conj() @ b.T - np.eye(len(b))).max()
            y = np.abs(rep @ b.T - b.T @ D).max()
            if x > 1e-5:
                msg.append(f"set {i} not orthonormal: {x:.2g}")
            if y > 1e-5:
                msg.append(f"set {i} does not transform as the irrep: {y:.2g}")
        if B:
            S = np.linalg.svd(np.concatenate(B), compute_uv=False)
            if len(S) < m * D.shape[1] or S[-1] < 1e-7:
                msg.append(f"sets are linearly dependent (smallest singular value {S[-1]:.2g})")
            allv += B
        ctx.check(not msg, what + "; ".join(msg[:3]))
        ctx.count(f"multiplicity:{m}")
    if any(mults):
        ctx.sig(h, fl, src, gauge, tuple(mults))
    ctx.note(lambda: dict(case=case, flavour=fl, source=src, gauge=gauge, order=n, dim=rep.shape[1], multiplicities=mults))
