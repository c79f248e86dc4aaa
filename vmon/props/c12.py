"""C12: intertwiners, decompositions, direct products, characters."""
from .common import *

RULE = ("one case = one group with an ordinary, spin, small-representation or twisted factor system and independently constructed irreps: intertwiners "
        "between random gauges of each irrep, decomposition of one representation with random multiplicities and gauge, direct products (also of "
        "different factor systems) and characters; distinct non-trivial = (group, flavour, gauge, multiplicities) beyond the trivial group")
ASSUMPTIONS = []
FL = ["ordinary", "spinor", "small", "twisted"]


def cases(tier, seed):
    f = 60 if tier == "quick" else 120
    return [dict(h=h, r=r, fl=FL[(h + r) % 4]) for h in range(1, 531) for r in range(f)]


def run(case, ctx):
    from spgrep.representation import get_intertwiner, get_direct_product, get_character
    from spgrep.irreps import decompose_representation
    rng = seeded(case, ctx)
    h, fl = case["h"], case["fl"]
    R, T, om = algebra(h, rng, fl, conv=bool(rng.integers(2)))
    n = len(R)
    irr = oracle.irreps(T, om, rng)
    what = f"hall {h} {fl} ({n} operations): "
    # intertwiners
    for a in rng.permutation(len(irr))[:5]:
        A = irr[a]
        d = A.shape[1]
        c = rng.integers(4)
        B = A.copy() if c == 0 else (oracle.irreps(T, om, rng)[0] if c == 1 and n <= 24 else regauge(A, rng, ["haar", "orth", "perm"][rng.integers(3)]))
        if not oracle.reps_equivalent(A, B):
            B = regauge(A, rng, "haar")
        if rng.integers(4) == 0:
            A, B = np.asfortranarray(A), np.asfortranarray(B)
        kw = [{}, dict(atol=1e-6), dict(max_num_random_generations=6)][rng.integers(3)]
        M = oracle.as_array(ctx.call("intertwiner", get_intertwiner, A, B, **kw), "intertwiner", (d, d))
        m = []
        if abs(np.linalg.det(M) - 1) > 1e-5:
            m.append(f"determinant {np.linalg.det(M):.4f}")
        if np.abs(M @ M.conj().T - np.eye(d)).max() > 1e-5:
            m.append(f"not unitary by {np.abs(M @ M.conj().T - np.eye(d)).max():.2g}")
        x = np.abs(A @ M - M @ B).max()
        if x > 1e-5:
            m.append(f"A M differs from M B by {x:.2g}")
        ctx.check(not m, what + f"intertwiner dim {d}: " + "; ".join(m))
        ctx.count(f"intertwiner_dim:{d}")
    # decomposition
    mult = rng.integers(0, 3, len(irr))
    if rng.integers(3) == 0:
        mult[rng.integers(len(irr))] = 3
    if not mult.any():
        mult[rng.integers(len(irr))] = 1 + rng.integers(2)
    while sum(m * D.shape[1] for m, D in zip(mult, irr)) > 32:
        mult[np.argmax(mult)] -= 1
    rep = oracle.direct_sum([regauge(D, rng, ["none", "haar"][rng.integers(2)]) for m, D in zip(mult, irr) for _ in range(m)])
    gauge = ["none", "haar", "haar", "orth", "perm"][rng.integers(5)]
    rep = regauge(rep, rng, gauge)
    if rng.integers(5) == 0:
        rep = np.asfortranarray(rep)
    v = ctx.call("decompose", decompose_representation, rep, **([{}, dict(max_num_random_generations=8)][rng.integers(2)]))
    out = oracle.as_reps(v, n)
    msg = []
    C = oracle.chars(irr)
    found = []
    for b, D in enumerate(out):
        u, w = oracle.unitary_defect(D), oracle.law_defect(D, T, om)
        if u > 1e-6 or w > 1e-6:
            msg.append(f"member {b}: unitarity {u:.2g}, product law {w:.2g}")
        c = np.einsum("kii->k", D)
        hit = [a for a in range(len(irr)) if np.abs(c - C[a]).max() < 1e-5]
        if not hit:
            msg.append(f"member {b} (dim {D.shape[1]}) is not an irrep")
        found += hit
    if sorted(found) != [a for a in range(len(irr)) if mult[a]]:
        msg.append(f"found irreps {sorted(found)}, the representation contains {mult.tolist()}")
    ctx.check(not msg, what + f"decomposition of {mult.tolist()} (dims {[D.shape[1] for D in irr]}), gauge {gauge}: " + "; ".join(msg[:3]))
    ctx.count("decompositions")
    # direct product and characters
    a, b = irr[rng.integers(len(irr))], (irr[rng.integers(len(irr))] if rng.integers(2) else orbit_rep(R, rng)[:, :, :])
    if b.shape[1] > 24:
        b = np.linalg.det(R.astype(float))[:, None, None] * np.ones((n, 1, 1))
    if rng.integers(3) == 0:
        a, b = b, a
    if rng.integers(4) == 0:
        a, b = rng.normal(size=(n, 2, 2)), rng.normal(size=(n, 3, 3)) + 1j
    P = ctx.call("direct_product", get_direct_product, a, b)
    P = oracle.as_array(P, "direct product", (n, a.shape[1] * b.shape[1], a.shape[1] * b.shape[1]))
    ctx.check(np.abs(P - np.array([np.kron(x, y) for x, y in zip(a, b)])).max() < 1e-9, what + "direct product is not the Kronecker product")
    for m in (a, b, P):
        c = oracle.as_array(ctx.call("character", get_character, m), "character", (n,))
        ctx.check(np.abs(c - np.array([np.trace(x) for x in m])).max() < 1e-9, what + "character is not the trace")
    if n > 1:
        ctx.sig(h, fl, gauge, tuple(mult.tolist()))
    ctx.note(lambda: dict(case=case, order=n, multiplicities=mult.tolist(), dims=[D.shape[1] for D in irr], gauge=gauge))
