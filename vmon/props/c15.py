"""C15: primitive-cell reduction for all settings."""
from .common import *

RULE = ("one case = one of the 530 Hall settings: transformation matrix against the translation lattice read from the database, transformation of its "
        "operations (shuffled, shifted origin, extra lattice vectors) and wave vectors with that matrix, with random integer / rational / supercell basis "
        "changes, and removal of duplicates (also with time-reversal parts of a magnetic group); distinct non-trivial = (setting or UNI number, kind of "
        "basis change) with more than one operation")
ASSUMPTIONS = ["spglib's database lists the operations of each Hall number correctly"]


def cases(tier, seed):
    f = 60 if tier == "quick" else 120
    return [dict(t="sg", n=h, r=r) for h in range(1, 531) for r in range(f)] + \
           [dict(t="msg", n=u, r=r) for u in range(1 + seed % 2, 1652, 2) for r in range(max(1, f // 4))]


def near_int(x, tol=1e-8):
    return np.abs(x - np.rint(x)).max() < tol if np.size(x) else True


def check_unique(ctx, what, R, t, tr, kwargs):
    from spgrep.transform import unique_primitive_symmetry
    v = ctx.call("unique", unique_primitive_symmetry, R, t, **kwargs)
    ur, ut, mp = oracle.as_tuple(v, 3, "result")
    ur = oracle.as_array(ur, "rotations", kind="int")
    ut = oracle.as_array(ut, "translations")
    mp = oracle.as_array(mp, "mapping", (len(R),), kind="int")
    msg = []
    if ur.ndim != 3 or ut.shape != (len(ur), 3):
        raise Malformed(f"shapes {ur.shape}, {ut.shape}")
    tr0 = np.zeros(len(R), int) if tr is None else np.asarray(tr)
    keys = {(R[i].tobytes(), int(tr0[i])) for i in range(len(R))}
    if len(ur) != len(keys):
        msg.append(f"{len(ur)} operations kept, {len(keys)} are distinct")
    if ut.size and (ut.min() < 0 or ut.max() > 1):
        msg.append(f"translations outside [0, 1): {ut.min()}, {ut.max()}")
    if mp.min() < 0 or mp.max() >= len(ur) or set(mp.tolist()) != set(range(len(ur))):
        msg.append("mapping does not cover the kept operations")
    else:
        if not np.array_equal(ur[mp], R):
            msg.append("mapping sends an operation to another rotation")
        d = t - ut[mp]
        if not near_int(d, 1e-6):
            msg.append(f"mapped operation differs by {d[np.abs(d - np.rint(d)).max(axis=1).argmax()]}, not a lattice vector")
        k2 = {(i, int(tr0[j])) for j, i in enumerate(mp.tolist())}
        if len(k2) != len(ur):
            msg.append("operations with and without time reversal are merged")
    ctx.check(not msg, what + "; ".join(msg[:3]))
    return ur, ut, mp, not msg


def check_transform(ctx, what, P, R, t, k, rng):
    from spgrep.transform import transform_symmetry_and_kpoint
    v = ctx.call("transform", transform_symmetry_and_kpoint, P, R, t, k)
    R2, t2, k2 = oracle.as_tuple(v, 3, "result")
    R2 = oracle.as_array(R2, "rotations", R.shape, kind="int")
    t2 = oracle.as_array(t2, "translations", t.shape)
    k2 = oracle.as_array(k2, "kpoint", (3,))
    msg = []
    if np.asarray(v[0]).dtype.kind not in "iu":
        msg.append("rotations are not integers")
    # action on points: x = P x'
    x2 = rng.normal(size=(4, 3))
    a = np.einsum("ab,ibc,nc->ina", P, R2, x2) + (t2 @ P.T)[:, None]
    b = np.einsum("iab,nb->ina", R, x2 @ P.T) + t[:, None]
    if np.abs(a - b).max() > 1e-7:
        msg.append(f"action on points differs by {np.abs(a - b).max():.3g}")
    if np.abs(t2 @ k2 - t @ k).max() > 1e-7:
        msg.append("k.t changes")
    if np.abs(x2 @ k2 - (x2 @ P.T) @ k).max() > 1e-7:
        msg.append("k.x changes")
    ctx.check(not msg, what + "; ".join(msg))
    return R2, t2, k2, not msg


def crystal_system(R):
    """from the rotations: orders of the proper parts"""
    det = np.rint(np.linalg.det(R)).astype(int)
    proper = {(r * d).tobytes(): int(np.trace(r) * d) for r, d in zip(R.astype(int), det)}
    n = {o: sum(v == tr for v in proper.values()) for o, tr in ((2, -1), (3, 0), (4, 1), (6, 2))}
    if n[3] == 8:
        return "cubic"
    if n[6]:
        return "hexagonal"
    if n[3]:
        return "trigonal"
    if n[4]:
        return "tetragonal"
    return {0: "triclinic", 1: "monoclinic", 3: "orthorhombic"}[n[2]]


CENTRES = {"A": [[0, .5, .5]], "B": [[.5, 0, .5]], "C": [[.5, .5, 0]], "I": [[.5, .5, .5]], "F": [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]],
           "R": [[2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3]], "P": []}


def check_class(ctx, what, n, R, cents):
    import spglib
    from spgrep.transform import get_centering, get_crystal_system
    cs = ctx.call("crystal_system", get_crystal_system, n)
    ctx.check(cs == crystal_system(R), f"{what}crystal system {cs}, the rotations are {crystal_system(R)}")
    letter = ctx.call("centering", get_centering, spglib.get_spacegroup_type(n)["hall_symbol"])
    want = np.array(CENTRES.get(letter, [[9, 9, 9]])).reshape(-1, 3)
    have = np.array([c for c in cents if np.abs(c - np.rint(c)).max() > 1e-6]).reshape(-1, 3)
    d = want[:, None] - have[None]
    ok = len(want) == len(have) and (len(want) == 0 or (np.abs(d - np.rint(d)).max(axis=2).min(axis=1) < 1e-6).all())
    ctx.check(ok, f"{what}centring {letter}, the pure translations are {have.tolist()}")
    ctx.count("system:" + crystal_system(R))
    ctx.count("centering:" + str(letter))


def run(case, ctx):
    from spgrep.transform import get_primitive_transformation_matrix
    from spgrep.utils import get_symmetry_from_hall_number
    rng = seeded(case, ctx)
    n = case["n"]
    if case["t"] == "msg":
        R, t, tr = gen.mdb(n)
        P = gen.lattice_basis([x for r, x, y in zip(R, t, tr) if (r == oracle.I3).all() and y == 0])
        what = f"uni {n}: "
        ctx.sig("msg", n)
    else:
        R, t = gen.db(n)
        tr = None
        what = f"hall {n}: "
        P = oracle.as_array(ctx.call("primitive_matrix", get_primitive_transformation_matrix, n), "matrix", (3, 3))
        cents = np.array([x for r, x in zip(R, t) if (r == oracle.I3).all()])
        m = len(cents)
        msg = []
        if abs(np.linalg.det(P) - 1 / m) > 1e-9:
            msg.append(f"determinant {np.linalg.det(P):.4f}, expected {1 / m:.4f}")
        else:
            Pi = np.linalg.inv(P)
            if not near_int(Pi) or not near_int(cents @ Pi.T):
                msg.append("basis does not generate the translations of the setting")
            for c in P.T:
                if np.abs(c - cents - np.rint(c - cents)).max(axis=1).min() > 1e-8:
                    msg.append(f"basis vector {c} is not a translation")
        ctx.check(not msg, what + "; ".join(msg))
        if msg:
            return
        v = ctx.call("hall_symmetry", get_symmetry_from_hall_number, n)
        a, b = oracle.as_tuple(v, 2, "symmetry")
        ctx.check(np.array_equal(a, R) and np.allclose(b, t), what + "wrong operations for the Hall number")
        ctx.count(f"lattice_points:{m}")
        if case["r"] == 0:
            check_class(ctx, what, n, R, cents)
    # reduction pipeline
    k = [gen.kpoint(R, rng, tr=tr), rng.normal(size=3)][rng.integers(2)]
    p = rng.permutation(len(R)) if rng.integers(3) else np.arange(len(R))
    R, t = R[p], t[p]
    tr = None if tr is None else tr[p]
    if rng.integers(2):
        s = rng.random(3)
        t = t + s - np.einsum("iab,b->ia", R, s)
    if rng.integers(2):
        t = t + rng.integers(-2, 3, t.shape)
    R2, t2, k2, ok = check_transform(ctx, what + "to primitive: ", P, R, t, k, rng)
    if not ok:
        return
    ur, ut, mp, ok = check_unique(ctx, what + "unique: ", R2, t2, tr, {} if tr is None else dict(time_reversals=tr))
    if ok:
        first = [int(np.where(mp == j)[0][0]) for j in range(len(ur))]
        T = oracle.table(ur, None if tr is None else tr[first])
        ctx.check(T is not None, what + "kept operations are not closed")
        if T is not None:
            _, dev = oracle.lattice_phase(ur, ut, k2, T)
            ctx.check(dev < 1e-6, what + f"kept operations do not form a space group (deviation {dev:.2g})")
    # other basis changes: unimodular, supercells back and forth, permutations with sign
    for kind in ("unimodular", "round_trip", "reflect"):
        if kind == "unimodular":
            Q = gen.unimod(rng, 3).astype(float)
        elif kind == "reflect":
            Q = -np.eye(3)[rng.permutation(3)]
        else:
            Q = P @ gen.unimod(rng, 2)
        A, b, kk, ok = check_transform(ctx, what + kind + ": ", Q, R, t, k, rng)
        if ok and kind == "round_trip":
            A2, b2, kb, ok2 = check_transform(ctx, what + "back: ", np.linalg.inv(Q), A, b, kk, rng)
            ctx.check(not ok2 or (np.array_equal(A2, R) and np.abs(b2 - t).max() < 1e-8 and np.abs(kb - k).max() < 1e-8), what + "round trip changes the operations")
        if ok:
            m = rng.permutation(len(A))[: rng.integers(1, len(A) + 1)]
            check_unique(ctx, what + kind + " subset: ", A[m], b[m] * 0 + (rng.integers(-3, 4, (len(m), 3))), None if tr is None else tr[m],
                         {} if tr is None else dict(time_reversals=tr[m]))
        if len(R) > 1:
            ctx.sig(case["t"], n, kind)
    ctx.note(lambda: dict(case=case, operations=len(R), kept=len(ur), matrix=np.round(P, 3).tolist()))
