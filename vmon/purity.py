"""Request mixes for C14: deterministic lists of (function, arguments), digests of results, and a child process that recomputes them."""
from __future__ import annotations
import copy, importlib, pickle, sys, warnings
import numpy as np
from . import gen, oracle
from .props.common import algebra, METHODS, rand_presentation, regauge, orbit_rep, spin_factor

HALLS = [1, 2, 3, 5, 9, 18, 57, 61, 90, 108, 115, 125, 183, 202, 227, 271, 310, 334, 349, 351, 355, 376, 384, 400, 424, 430, 433, 435, 441,
         446, 450, 456, 459, 464, 466, 471, 484, 485, 488, 491, 494, 497, 507, 510, 517, 522, 525, 529]


def fn(path):
    m, a = path.split(":")
    return getattr(importlib.import_module(m), a)


def requests(seed, n=14, light=False):
    """n related requests: one or two groups seen through many functions, wave vectors, methods and options"""
    rng = gen.rng_of("purity", seed)
    out = []

    def add(path, *a, **k):
        out.append((path, a, k))
    h = int(rng.choice(HALLS))
    for q in range(2):
        if q == 1 and rng.integers(2):
            h = int(rng.integers(1, 531))
        R, t, _, _ = rand_presentation(*gen.prim(h), rng)
        if light and len(R) > 16:
            h = int(rng.integers(1, 200))
            R, t, _, _ = rand_presentation(*gen.prim(h), rng)
        N = len(R)
        T = oracle.table(R)
        L = gen.metric_lattice(R, rng)
        ks = [gen.kpoint(R, rng) for _ in range(3)] + [np.zeros(3)]
        for k in ks:
            g = oracle.little(R, k)
            if g is None:
                continue
            m = METHODS[rng.integers(2)]
            real = bool(rng.integers(2))
            add("spgrep:get_spacegroup_irreps_from_primitive_symmetry", R, t, k, real=real, method=m)
            add("spgrep:get_spacegroup_spinor_irreps_from_primitive_symmetry", L, R, t, kpoint=k, method=m)
            add("spgrep.group:get_little_group", R, t, k)
            lr, lt = R[g], t[g]
            om, _ = oracle.lattice_phase(lr, lt, k, oracle.table(lr))
            add("spgrep.irreps:enumerate_small_representations", lr, lt, k, real=bool(rng.integers(2)), method=METHODS[rng.integers(2)])
            add("spgrep.group:get_factor_system_from_little_group", lr, lt, k)
            add("spgrep.irreps:enumerate_unitary_irreps", lr, om, method=METHODS[rng.integers(2)])
            add("spgrep.representation:get_projective_regular_representation", lr, om)
            if len(g) <= 12:
                add("spgrep.group:check_cocycle_condition", lr, om)
            P = gen.unimod(rng, 2).astype(float)
            add("spgrep.transform:transform_symmetry_and_kpoint", P, R, t, k)
        add("spgrep:get_crystallographic_pointgroup_irreps_from_symmetry", R, real=bool(rng.integers(2)), method=METHODS[rng.integers(2)])
        add("spgrep:get_crystallographic_pointgroup_spinor_irreps_from_symmetry", L, R, method=METHODS[rng.integers(2)])
        add("spgrep.pointgroup:get_pointgroup_chain_generators", R)
        add("spgrep.group:get_cayley_table", R)
        add("spgrep.group:is_matrix_group", R)
        add("spgrep.representation:get_regular_representation", R)
        add("spgrep.spinor:get_spinor_factor_system", L, R)
        add("spgrep.spinor:get_spinor_unitary_rotation", L, R[rng.integers(N)])
        add("spgrep.transform:unique_primitive_symmetry", np.concatenate([R, R]), np.concatenate([t, t + 0.5]))
        add("spgrep.transform:get_primitive_transformation_matrix", h)
        add("spgrep.utils:get_symmetry_from_hall_number", h)
        add("spgrep.group:get_identity_index", T)
        add("spgrep.group:get_inverse_index", T, int(rng.integers(N)))
        add("spgrep.group:get_order", T, int(rng.integers(N)))
        if N <= 24:
            irr = oracle.irreps(T, np.ones((N, N), complex), rng)
            D = irr[rng.integers(len(irr))]
            add("spgrep.representation:get_intertwiner", D, regauge(D, rng, "haar"))
            S = oracle.direct_sum([irr[i] for i in rng.integers(len(irr), size=3)])
            add("spgrep.representation:project_to_irrep", S, D)
            add("spgrep.representation:project_to_irrep", regauge(S, rng, "haar"), D)
            add("spgrep.irreps:decompose_representation", regauge(S, rng, "haar"))
            add("spgrep.representation:is_unitary", S)
            add("spgrep.representation:is_representation", S, T)
            add("spgrep.representation:get_character", S)
            add("spgrep.representation:get_direct_product", S, D)
            add("spgrep.representation:frobenius_schur_indicator", D)
            add("spgrep.irreps:is_equivalent_irrep", np.einsum("kii->k", D), np.einsum("kii->k", irr[0]))
            fs = int(np.rint(np.einsum("kij,kji->", D, D).real / N))
            add("spgrep.irreps:get_physically_irrep", D, fs)
            add("spgrep.representation:check_spacegroup_representation", R, t * 0, np.zeros(3), D)
            C = oracle.cart(L, R)
            if np.abs(C @ C.transpose(0, 2, 1) - np.eye(3)).max() < 1e-8:
                add("spgrep.tensor:get_symmetry_adapted_tensors", C, R, int(rng.integers(1, 3)), real=bool(rng.integers(2)))
            add("spgrep.irreps:enumerate_unitary_irreps_from_regular_representation", oracle.regular(T, np.ones((N, N))))
        d = int(rng.integers(2, 5))
        add("spgrep.tensor:apply_intrinsic_symmetry", [rng.normal(size=(d, d)) for _ in range(3)])
        a, b = rng.normal(size=(d, 7)) + 1j * rng.normal(size=(d, 7)), rng.normal(size=(2, 7)) + 0j
        add("spgrep.utils:grassmann_distance", a, b)
        add("spgrep.utils:grassmann_distance", a, b, ord="projection")
        add("spgrep.utils:mode_dot", rng.normal(size=(d, d, d)), [rng.normal(size=(d, 2 + i)) for i in range(3)])
        add("spgrep.utils:nroot", np.exp(1j * rng.uniform(-3, 3)), int(rng.integers(2, 6)))
        add("spgrep.utils:is_integer_array", rng.integers(0, 4, (3, 3)) * 1.0)
    # magnetic
    u = int(rng.integers(1, 1652))
    R, t, tr, _ = rand_presentation(*[x for x in gen.mprim(u)[:2]], rng, gen.mprim(u)[2])
    if not light or len(R) <= 16:
        L = gen.metric_lattice(R, rng)
        for k in (gen.kpoint(R, rng, tr=tr), np.zeros(3)):
            if oracle.little(R, k, tr) is not None:
                add("spgrep:get_spacegroup_spinor_irreps_from_primitive_symmetry", L, R, t, tr, kpoint=k, method=METHODS[rng.integers(2)])
        keep = gen.dedup(R, t, tr)
        add("spgrep:get_crystallographic_pointgroup_spinor_irreps_from_symmetry", L, R[keep], tr[keep])
        add("spgrep.group:decompose_by_maximal_space_subgroup", R, t, tr)
        add("spgrep.corep:get_corep_spinor_factor_system", L, R, tr)
        add("spgrep.group:get_cayley_table", R, tr)
    if rng.integers(2) or not light:
        hh = int(rng.choice([3, 18, 115, 227, 310, 349, 376, 433, 458, 471, 489, 517, 523, 525]))
        if len(gen._db(hh)[0]) <= 96:
            Lc, pos, num = gen.crystal(hh, rng, norb=1 if len(gen._db(hh)[0]) > 16 else 2, special=len(gen._db(hh)[0]) > 16)
            Rc, _ = gen.db(hh)
            add("spgrep:get_spacegroup_irreps", Lc, pos, num, gen.kpoint(Rc, rng))
            add("spgrep:get_spacegroup_spinor_irreps", Lc, pos, num, kpoint=gen.kpoint(Rc, rng))
            add("spgrep:get_spacegroup_spinor_irreps", Lc, pos, num, np.ones(len(num)), gen.kpoint(Rc, rng))
    # invalid requests are part of every history
    add("spgrep:get_spacegroup_irreps_from_primitive_symmetry", np.concatenate([R, R]), np.concatenate([t, t + 0.5]), np.zeros(3))
    add("spgrep.irreps:enumerate_unitary_irreps", R[: max(1, len(R) // 2)], method="no such method")
    idx = rng.permutation(len(out))[:n]
    return [out[i] for i in idx]


def evaluate(req, args=None):
    """('ok', value) or ('exception', type name)"""
    path, a, k = req if args is None else (req[0],) + args
    try:
        with np.errstate(all="ignore"):
            return ("ok", fn(path)(*a, **k))
    except Exception as e:  # noqa: BLE001
        return ("exception", type(e).__name__)


def flat(v, path="", out=None):
    out = [] if out is None else out
    if isinstance(v, (list, tuple)):
        out.append((path, "len", len(v)))
        for i, x in enumerate(v):
            flat(x, f"{path}[{i}]", out)
    elif isinstance(v, dict):
        for k in sorted(v):
            flat(v[k], f"{path}.{k}", out)
    elif v is None or isinstance(v, (str, bytes)):
        out.append((path, "obj", v))
    else:
        out.append((path, "num", np.array(v)))
    return out


def difference(a, b, tol=1e-8):
    """None or a description of the first difference"""
    A, B = flat(a), flat(b)
    if len(A) != len(B):
        return f"structure differs ({len(A)} against {len(B)} parts)"
    for (p, t, x), (q, s, y) in zip(A, B):
        if p != q or t != s:
            return f"structure differs at {p}"
        if t == "num":
            if x.shape != y.shape:
                return f"{p}: shape {x.shape} against {y.shape}"
            if x.dtype != y.dtype:
                return f"{p}: type {x.dtype} against {y.dtype}"
            if x.size and x.dtype.kind in "biufc":
                d = np.abs(x.astype(complex) - y.astype(complex))
                if not np.all(d <= tol):
                    return f"{p}: values differ by {np.nanmax(d):.3g}"
        elif x != y:
            return f"{p}: {x!r} against {y!r}"
    return None


def arrays(v, out=None):
    out = [] if out is None else out
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays(x, out)
    return out


def siblings(seed, n=6):
    """one request and variants of it that differ in one argument (a little, by order, by sign, by option)"""
    rng = gen.rng_of("siblings", seed)
    pool = [r for r in requests(seed, 14, light=bool(rng.integers(2)))]
    base = pool[rng.integers(len(pool))]
    out = [base]
    same = [r for r in pool if r[0] == base[0] and r is not base]
    out += same[:2]
    tries = 0
    while len(out) < n and tries < 40:
        tries += 1
        v = variant(copy.deepcopy(base), rng)
        if v is not None:
            out.append(v)
    return out


def variant(req, rng):
    path, a, k = req
    a = list(a)
    if path in ("spgrep:get_spacegroup_irreps", "spgrep:get_spacegroup_spinor_irreps"):
        # spglib's C code does not survive every cell: wave vector, origin, order of the atoms, strain, moments vary
        c = int(rng.integers(6))
        mag = len(a) == 5
        n = len(a[2])
        if c == 1:
            a[1] = a[1] + rng.uniform(-1, 1, 3) * rng.choice([1.0, 1e-3])
        elif c == 2:
            p = rng.permutation(n)
            a[1], a[2] = a[1][p], a[2][p]
            if mag:
                a[3] = a[3][p]
        elif c == 3 and not mag:
            a[0] = a[0].copy()
            a[0][2] = a[0][2] + rng.choice([0.05, 0.3]) * a[0][rng.integers(3)]
        elif c == 4 and mag:
            a[3] = a[3] * rng.integers(0, 2, n) if rng.integers(2) else a[3] * rng.choice([-1, 1], n)
        elif c == 5 and not mag:
            a[1] = a[1].copy()
            a[1][rng.integers(n)] += rng.uniform(-1, 1, 3) * rng.choice([0.05, 3e-3])
        elif "kpoint" in k:
            k["kpoint"] = k["kpoint"] + rng.choice([-1, 0.5, 0.25, 1e-3], size=3)
        else:
            a[-1] = a[-1] + rng.choice([-1, 0.5, 0.25, 1e-3], size=3)
        return path, tuple(a), k
    if a and (not k or rng.integers(3)):
        box, key = a, int(rng.integers(len(a)))
    elif k:
        box, key = k, sorted(k)[rng.integers(len(k))]
    else:
        return None
    x = box[key]
    if isinstance(x, bool):
        box[key] = not x
    elif key == "method":
        box[key] = METHODS[1 - METHODS.index(x)] if x in METHODS else METHODS[0]
    elif isinstance(x, (int, np.integer)):
        box[key] = max(1, int(x) + int(rng.choice([-1, 1])))
    elif isinstance(x, list) and x:
        i = rng.permutation(len(x))
        box[key] = [x[j] for j in i]
    elif isinstance(x, np.ndarray) and x.ndim:
        c = rng.integers(7)
        y = x.copy()
        if c == 0 and x.dtype.kind in "fc":
            y += rng.uniform(-1, 1, x.shape) * 10.0 ** rng.uniform(-9, -1)
        elif c == 1 and x.dtype.kind in "fc":
            y[tuple(rng.integers(s) for s in x.shape)] += rng.choice([-1, -0.5, 0.5, 1, 1e-3, 1e-6])
        elif c == 2 and x.dtype.kind in "fc":
            y = -y
        elif c == 3 and len(x) > 1:
            i, j = rng.choice(len(x), 2, replace=False)
            y[[i, j]] = y[[j, i]]
        elif c == 4 and x.dtype.kind in "fc":
            y *= rng.choice([0.5, 2.0, 1.1])
        elif c == 5 and len(x) > 1:
            y = y[rng.permutation(len(x))]
        elif c == 6 and x.dtype.kind == "f":
            y = np.roll(y, 1, axis=-1)
        else:
            return None
        box[key] = y
    else:
        return None
    return path, tuple(a), k


def serve():
    """a process that never calls spgrep itself: every history it is sent is evaluated in a fresh fork"""
    import os, struct
    warnings.simplefilter("ignore")
    import spgrep, spgrep.core, spgrep.tensor, spgrep.pointgroup  # noqa: F401
    fin, fout = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = fin.read(8)
        if len(h) < 8:
            return
        hist, keep = pickle.loads(fin.read(struct.unpack("q", h)[0]))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                for i, q in enumerate(hist):
                    v = evaluate(copy.deepcopy(q))
                    if i in keep:
                        out.append(pickle.dumps(v))     # before the caller could overwrite it
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(out))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        fout.write(struct.pack("q", len(b)) + b)
        fout.flush()


_server = {}


def pristine(hist, keep=None):
    """results of the calls `keep` of a history evaluated in a fork of a process that has made no call before"""
    import os, struct, subprocess
    p = _server.get(os.getpid())
    if p is None:
        p = _server[os.getpid()] = subprocess.Popen([sys.executable, "-m", "vmon.purity", "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                                    cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    m = pickle.dumps((hist, set(range(len(hist))) if keep is None else set(keep)))
    p.stdin.write(struct.pack("q", len(m)) + m)
    p.stdin.flush()
    n = struct.unpack("q", p.stdout.read(8))[0]
    b = p.stdout.read(n)
    if not b:
        return None
    return [pickle.loads(x) for x in pickle.loads(b)]


def child():
    """recompute request lists in another order; pickle the results"""
    warnings.simplefilter("ignore")
    jobs = pickle.load(sys.stdin.buffer)
    res = {}
    for seed, n, light, order in jobs:
        reqs = requests(seed, n, light)
        for i in order:
            res[(seed, i)] = evaluate(copy.deepcopy(reqs[i]))
    sys.stdout.buffer.write(pickle.dumps(res))
    sys.stdout.buffer.flush()


if __name__ == "__main__":
    serve() if sys.argv[1:] == ["serve"] else child()
