"""C11: invariant tensors and intrinsic symmetrisation."""
from .common import *

RULE = ("one case = one point group (all axes settings, random basis/order) acting on a space (vector, axial vector, symmetric matrices, any unitary representation, atoms of an "
        "orbit, direct sums in a random orthogonal basis) at one rank, real or complex: number of tensors against the character formula, invariance, "
        "independence, and the symmetrised tensors against the symmetric-power formula; distinct non-trivial = (group, space, rank, real, counts) with "
        "at least one invariant")
ASSUMPTIONS = ["matrices are unitary in the basis given (Cartesian, not fractional coordinates)"]
CPU_LIMIT = 120
SPACES = ["vector", "vector", "axial", "voigt", "orbit", "sum"]


def cases(tier, seed):
    f = 8 if tier == "quick" else 32
    return [dict(h=h, r=r, rank=[1, 2, 3, 2, 3, 4][(h + r * 5 + seed) % 6], real=(h // 2 + r) % 2) for h in range(1, 531) for r in range(f)] + \
           [dict(h=h, r=r, rank=k, real=x) for h in gen.PG_HALLS for r in range(100, 100 + f) for k in (1, 2, 3, 4) for x in (0, 1)] + \
           [dict(h=h, r=r, rank=[1, 2, 3, 2, 3, 4][(h + r) % 6], real=0, s="unitary") for h in range(1, 531) for r in range(200, 200 + f // 4)] + \
           [dict(h=gen.PG_HALLS[(7 * r + seed) % 32], r=r, rank=5 + (r % 3 == 0), real=r % 2, s="vector") for r in range(300, 300 + 4 * f)]


def cost(c):
    return c["rank"]


B6 = []
for _i in range(3):
    for _j in range(_i, 3):
        _m = np.zeros((3, 3))
        _m[_i, _j] = _m[_j, _i] = 1
        B6.append(_m / np.linalg.norm(_m))
B6 = np.array(B6)


def space(R, rng, kind):
    if kind == "unitary":
        # any unitary representation, in any orthonormal basis
        T = oracle.table(R)
        irr = oracle.irreps(T, np.ones(T.shape, complex), rng)
        while True:
            S = oracle.direct_sum([irr[i] for i in rng.integers(len(irr), size=rng.integers(1, 4))])
            if 1 < S.shape[1] <= 4 or S.shape[1] == 1 and rng.integers(6) == 0:
                return regauge(S, rng, "haar")
    C = oracle.cart(gen.metric_lattice(R, rng, "rand"), R)
    if kind == "axial":
        C = C * np.sign(np.linalg.det(C))[:, None, None]
    if kind in ("vector", "axial"):
        return C
    if kind == "voigt":
        return np.einsum("iab,kac,jcd,kbd->kij", B6, C, B6, C, optimize=True)
    if kind == "orbit":
        for _ in range(4):
            P = orbit_rep(R, rng)
            if P.shape[1] <= 6:
                return P
        return C
    one = np.sign(np.linalg.det(C))[:, None, None]
    S = np.zeros((len(R), 4, 4))
    S[:, :3, :3] = C
    S[:, 3:, 3:] = one
    q, _ = np.linalg.qr(rng.normal(size=(4, 4)))
    return q.T @ S @ q


def run(case, ctx):
    from spgrep.tensor import get_symmetry_adapted_tensors, apply_intrinsic_symmetry
    rng = seeded(case, ctx)
    h, rank, real = case["h"], case["rank"], bool(case["real"])
    R = pgroup(h, rng, conv=bool(rng.integers(2)), steps=(0, 1, 2))
    n = len(R)
    kind = case.get("s") or SPACES[rng.integers(len(SPACES))]
    if kind == "vector" and rank > 4 and n > (24 if rank == 5 else 12):
        rank = 4
    for _ in range(5):
        rep = space(R, rng, kind)
        d = rep.shape[1]
        want = int(np.rint((np.einsum("kii->k", rep) ** rank).sum().real / n))
        # cost of the iterated construction ~ number of all tensors of the previous rank
        if d ** rank <= 300 or case.get("s") and d == 3:
            break
        kind = case.get("s", "vector")
        rank = min(rank, 4 - (kind == "unitary"))
    what = f"hall {h} ({n} operations) {kind} dim {d} rank {rank} real={real}: "
    rd = rep.astype(complex) if (not real and rng.integers(3) == 0) else rep
    ts = ctx.call("tensors", get_symmetry_adapted_tensors, rd, R, rank, real=real, **({} if rng.integers(2) else dict(atol=1e-8)))
    if not isinstance(ts, (list, tuple)):
        raise Malformed(f"tensors: {type(ts).__name__}")
    ts = [oracle.as_array(t, "tensor", (d,) * rank) for t in ts]
    msg = []
    if len(ts) != want:
        msg.append(f"{len(ts)} tensors, the invariant subspace has dimension {want}")

    def judge(ts, nm):
        for t in ts:
            if not np.abs(t).max() > 1e-3:
                msg.append(f"{nm} vanishes")
                return
            for g in rep[rng.permutation(n)[:24]]:
                x = np.abs(oracle.act_tensor(g, t) - t).max() / np.linalg.norm(t)
                if x > 1e-5:
                    msg.append(f"{nm} changes by {x:.2g} under an operation")
                    return
        if ts:
            S = np.linalg.svd(np.array([t.ravel() / np.linalg.norm(t) for t in ts]), compute_uv=False)
            if len(ts) > d ** rank or S[-1] < 1e-5:
                msg.append(f"{nm}s are linearly dependent ({S[-1]:.2g})")
        if real and any(np.iscomplexobj(t) and np.abs(t.imag).max() > 0 for t in ts):
            msg.append(f"{nm} is complex")
    judge(ts, "tensor")
    ctx.check(not msg, what + "; ".join(msg[:3]))
    if not ts and want == 0:
        o = ctx.observe("symmetrise", apply_intrinsic_symmetry, [])
        ctx.check(o.exc is None and len(o.value) == 0, what + "symmetrising an empty list gives " + (repr(o.value) if o.exc is None else repr(o.exc)))
    if msg or not ts:
        return
    ctx.count("tensors_judged", len(ts))
    wants = oracle.sym_power_count(rep, rank)
    # any ordering and any basis of the invariant space may be symmetrised
    arg = [ts[i] for i in rng.permutation(len(ts))]
    if rng.integers(2) and len(arg) > 1:
        q = rng.normal(size=(len(arg), len(arg))) * 0.5
        q, _ = np.linalg.qr(q) if rng.integers(2) else (q + np.eye(len(arg)) * len(arg) ** .5, 0)
        arg = list(np.tensordot(q, np.array(arg), axes=(1, 0)))
        ctx.count("mixed_basis")
    if rank > 1 and rng.integers(3) == 0:
        # tensors with a small symmetric part (far above the documented tolerance of 1e-6)
        from itertools import permutations
        w = float(10.0 ** -rng.uniform(1, 3))
        sym = [sum(np.transpose(x, p) for p in permutations(range(rank))) / np.prod(range(1, rank + 1)) for x in arg]
        if all(np.linalg.norm(y) < 1e-12 or np.linalg.norm(y) > 0.1 * np.linalg.norm(x) for x, y in zip(arg, sym)):
            arg = [x - (1 - w) * y for x, y in zip(arg, sym)]
            ctx.count("small_symmetric_part")
    ss = ctx.call("symmetrise", apply_intrinsic_symmetry, arg)
    ss = [oracle.as_array(t, "symmetric tensor", (d,) * rank) for t in ss]
    judge(ss, "symmetrised tensor")
    for s in ss:
        for ax in range(rank - 1):
            if np.abs(s - np.swapaxes(s, ax, ax + 1)).max() > 1e-6:
                msg.append("symmetrised tensor is not symmetric")
                break
    if len(ss) != wants:
        msg.append(f"{len(ss)} symmetric tensors, expected {wants}")
    ctx.check(not msg, what + "; ".join(msg[:3]))
    ctx.count("symmetric_tensors_judged", len(ss))
    ctx.count(f"rank:{rank}")
    ctx.count("space:" + kind)
    if want:
        ctx.sig(h, kind, rank, real, want, wants)
    ctx.note(lambda: dict(case=case, space=kind, dim=d, order=n, tensors=want, symmetric=wants))
