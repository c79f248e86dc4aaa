"""C18: numerical helpers."""
from .common import *

RULE = ("one case = a batch of random inputs for one helper: subspace pairs with prescribed principal angles (dimensions 1..6 in 2..12, real and complex, "
        "orthonormal or arbitrary bases), mode products of rank 1..5 with rectangular matrices, roots of random and special numbers, arrays mixing values "
        "at, near and away from the snapping points; distinct non-trivial = (helper, shapes, option, kind of input)")
ASSUMPTIONS = ["entries between a tenth of and ten times the snapping tolerance are not judged"]


def cases(tier, seed):
    f = 6 if tier == "quick" else 15
    return [dict(t=t, i=i) for i in range(1200 * f) for t in ("grassmann", "mode", "root", "purify", "angle")]


def orth(rng, n, cplx):
    X = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
    return np.linalg.qr(X)[0]


def run(case, ctx):
    rng = seeded(case, ctx)
    for rep in range(6):
        globals()["run_" + case["t"]](case, ctx, rng)


def run_grassmann(case, ctx, rng):
    from spgrep.utils import grassmann_distance as gd
    cplx = bool(rng.integers(2))
    k, l = sorted(int(x) for x in rng.integers(1, 6, 2))
    n = k + l + int(rng.integers(0, 4))
    Q = orth(rng, n, cplx)
    kind = rng.integers(4)
    th = rng.uniform(0, np.pi / 2, k)
    if kind == 0:
        th[:] = 0
    elif kind == 1:
        th[rng.integers(k)] = np.pi / 2
    elif kind == 2:
        th[rng.random(k) < 0.5] = 0
    else:
        th = th * 10.0 ** -rng.integers(0, 4)
    A = Q[:, :k].T                      # rows
    B = np.array([np.cos(t) * Q[:, i] + np.sin(t) * Q[:, k + i] for i, t in enumerate(th)] + [Q[:, 2 * k + i] for i in range(l - k)])
    if rng.integers(3) == 0:
        A, B = B, A
        k, l = l, k

    def mix(X):
        m = len(X)
        c = rng.integers(3)
        if c == 0:
            return X
        if c == 1:
            return orth(rng, m, cplx) @ X
        M = rng.normal(size=(m, m)) + (1j * rng.normal(size=(m, m)) if cplx else 0) + 3 * np.eye(m)
        s = np.linalg.svd(M, compute_uv=False)
        return (M @ X) * 10.0 ** rng.integers(-3, 3) if s[0] / s[-1] < 50 else X
    want = dict(min=np.sin(th.max()), projection=np.sqrt((th ** 2).mean()))
    for o in ("min", "projection"):
        kw = {} if o == "min" and rng.integers(2) else dict(ord=o)
        a, b = mix(A), mix(B)
        what = f"grassmann_distance {o} dims {k},{l} in {n} angles {np.round(th, 3).tolist()}: "
        d = float(ctx.call("grassmann", gd, a, b, **kw))
        ctx.check(abs(d - want[o]) < 1e-6, what + f"{d}, expected {want[o]}")
        d2 = float(ctx.call("grassmann", gd, b, a, **kw))
        ctx.check(abs(d2 - d) < 1e-6, what + f"not symmetric: {d}, {d2}")
        ctx.check(0 <= d <= (1 + 1e-9 if o == "min" else np.pi / 2 + 1e-9), what + f"{d} out of range")
        W = orth(rng, n, cplx)
        d3 = float(ctx.call("grassmann", gd, a @ W, b @ W, **kw))
        ctx.check(abs(d3 - d) < 1e-6, what + f"changes under a unitary map: {d}, {d3}")
        d4 = float(ctx.call("grassmann", gd, A, B, skip_orthonormalization=True, **kw))
        ctx.check(abs(d4 - want[o]) < 1e-6, what + f"without orthonormalisation {d4}, expected {want[o]}")
        ctx.sig("grassmann", o, k, l, n, cplx, int(kind))
    ctx.note(lambda: dict(helper="grassmann_distance", dims=[k, l, n], angles=np.round(th, 4).tolist()))


def run_mode(case, ctx, rng):
    from spgrep.utils import mode_dot
    p = int(rng.integers(1, 6))
    m = int(rng.integers(1, 5))
    sh = [m] * p if rng.integers(2) else [int(x) for x in rng.integers(1, 5, p)]
    T = rng.normal(size=sh) + (1j * rng.normal(size=sh) if rng.integers(2) else 0)
    M = [rng.normal(size=(s, int(rng.integers(1, 6)))) + (1j * rng.normal() if rng.integers(3) == 0 else 0) for s in sh]
    want = T
    for a in range(p):
        want = np.moveaxis(np.tensordot(want, M[a], axes=(a, 0)), -1, a)
    got = oracle.as_array(ctx.call("mode_dot", mode_dot, T, M), "mode product", want.shape)
    ctx.check(np.abs(got - want).max() < 1e-9 * max(1, np.abs(want).max()), f"mode product wrong for shape {sh} -> {want.shape}")
    ctx.sig("mode", tuple(sh), want.shape, T.dtype.kind)


def run_root(case, ctx, rng):
    from spgrep.utils import nroot
    n = int(rng.integers(1, 9))
    c = rng.integers(4)
    if c == 0:
        z = np.exp(2j * np.pi * rng.integers(0, 24) / 24)
    elif c == 1:
        z = np.exp(1j * rng.uniform(-np.pi, np.pi))
    elif c == 2:
        z = complex([1, -1, 1j, -1j, 2, -8, 4j][rng.integers(7)])
    else:
        z = (rng.normal() + 1j * rng.normal()) * 10.0 ** rng.integers(-3, 4)
    z = np.complex128(z)
    r = complex(ctx.call("nroot", nroot, z, n))
    ctx.check(abs(r ** n - z) < 1e-9 * max(1, abs(z)), f"nroot({z}, {n}) = {r}: its power is {r ** n}")
    ctx.check(abs(np.angle(r)) <= np.pi / n + 1e-9, f"nroot({z}, {n}) = {r}: angle {np.angle(r):.4f} is not the smallest")
    ctx.sig("root", n, int(c), int(np.angle(z) * 4))


ROOTS = np.array([0] + [np.exp(2j * np.pi * q / p) for p in (1, 2, 3, 4, 6) for q in range(p)])
REALS = np.array([0, 1, -1, .5, -.5, 3 ** .5 / 2, -3 ** .5 / 2])


def run_purify(case, ctx, rng):
    from spgrep.irreps import purify_irrep_value, purify_real_irrep_value
    for f, V, cplx in ((purify_irrep_value, ROOTS, True), (purify_real_irrep_value, REALS, False)):
        atol = [1e-8, 1e-8, 1e-5, 1e-3][rng.integers(4)]
        sh = (int(rng.integers(1, 5)), d := int(rng.integers(1, 4)), d)
        X = V[rng.integers(len(V), size=sh)]
        true = X.copy()
        c = rng.integers(3, size=sh)
        ph = np.exp(2j * np.pi * rng.random(sh)) if cplx else rng.choice([-1, 1], sh)
        X = X + np.where(c == 0, 0, np.where(c == 1, atol / 10 * rng.random(sh), atol * 10 ** rng.uniform(1, 3, sh))) * ph
        far = np.abs(X[..., None] - V).min(axis=-1)
        near = c < 2
        keep = far > 8 * atol
        Y0 = X.copy()
        kw = {} if atol == 1e-8 and rng.integers(2) else dict(atol=atol)
        Y = oracle.as_array(ctx.call(f.__name__, f, X, **kw), "purified", sh)
        ctx.check(np.abs(Y[near] - true[near]).max(initial=0) < 2e-15, f"{f.__name__} atol={atol}: an entry within the tolerance is not snapped")
        ctx.check(np.array_equal(Y[keep], Y0[keep]), f"{f.__name__} atol={atol}: an entry beyond the tolerance is changed")
        ctx.sig("purify", f.__name__, sh, atol)


def run_angle(case, ctx, rng):
    """angle and axis of rotations (Cartesian), the pieces behind spin rotations"""
    from spgrep.spinor import get_rotation_angle_and_axis, get_spinor_unitary_rotation
    R = gen.pointgroup(int(rng.integers(1, 531)))
    L = gen.metric_lattice(R, rng)
    r = R[rng.integers(len(R))]
    r = r * round(np.linalg.det(r))
    C = oracle.cart(L, [r])[0]
    v = ctx.call("angle_axis", get_rotation_angle_and_axis, C)
    th, ax = oracle.as_tuple(v, 2, "angle and axis")
    ax = oracle.as_array(ax, "axis", (3,))
    ctx.check(abs(np.linalg.norm(ax) - 1) < 1e-8, f"axis {ax} is not a unit vector")
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    M = np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K
    ctx.check(np.abs(M - C).max() < 1e-6, f"angle {th:.4f} and axis {np.round(ax, 4)} do not give the rotation (off by {np.abs(M - C).max():.2g})")
    U = oracle.as_array(ctx.call("spin_rotation", get_spinor_unitary_rotation, L, r), "spin rotation", (2, 2))
    ctx.check(np.abs(oracle.adjoint(U) - C).max() < 1e-6, "spin rotation does not cover the rotation")
    ctx.sig("angle", round(float(np.trace(C))), int(4 * ax[0]), int(4 * ax[1]), int(4 * ax[2]))
