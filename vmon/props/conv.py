"""Judging results of the crystal-structure entry points."""
from .common import *
import spglib

STRUCTURES = {
    # lattice rows, positions, numbers (textbook structures in conventional cells)
    "diamond": (5.4 * np.eye(3), [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0], [.25, .25, .25], [.25, .75, .75], [.75, .25, .75], [.75, .75, .25]], [1] * 8),
    "zincblende": (5.6 * np.eye(3), [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0], [.25, .25, .25], [.25, .75, .75], [.75, .25, .75], [.75, .75, .25]], [1] * 4 + [2] * 4),
    "rocksalt": (5.6 * np.eye(3), [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0], [.5, .5, .5], [.5, 0, 0], [0, .5, 0], [0, 0, .5]], [1] * 4 + [2] * 4),
    "bcc": (3.0 * np.eye(3), [[0, 0, 0], [.5, .5, .5]], [1, 1]),
    "cscl": (4.1 * np.eye(3), [[0, 0, 0], [.5, .5, .5]], [1, 2]),
    "perovskite": (4.0 * np.eye(3), [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]], [1, 2, 3, 3, 3]),
    "a15": (5.3 * np.eye(3), [[0, 0, 0], [.5, .5, .5], [.25, 0, .5], [.75, 0, .5], [.5, .25, 0], [.5, .75, 0], [0, .5, .25], [0, .5, .75]], [1, 1] + [2] * 6),
    "rutile": (np.diag([4.6, 4.6, 2.95]), [[0, 0, 0], [.5, .5, .5], [.305, .305, 0], [.695, .695, 0], [.195, .805, .5], [.805, .195, .5]], [1, 1, 2, 2, 2, 2]),
    "hcp": ([[3.2, 0, 0], [-1.6, 1.6 * 3 ** .5, 0], [0, 0, 5.2]], [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], [1, 1]),
    "wurtzite": ([[3.2, 0, 0], [-1.6, 1.6 * 3 ** .5, 0], [0, 0, 5.2]], [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, .375], [2 / 3, 1 / 3, .875]], [1, 1, 2, 2]),
    "graphite": ([[2.46, 0, 0], [-1.23, 1.23 * 3 ** .5, 0], [0, 0, 6.7]], [[0, 0, .25], [0, 0, .75], [1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], [1] * 4),
    "quartz": ([[4.9, 0, 0], [-2.45, 2.45 * 3 ** .5, 0], [0, 0, 5.4]], [[.47, 0, 1 / 3], [0, .47, 2 / 3], [-.47, -.47, 0], [.414, .266, .213], [-.266, .148, .213 + 1 / 3], [-.148, -.414, .213 + 2 / 3], [.266, .414, -.213], [-.414, -.148, 1 / 3 - .213], [.148, -.266, 2 / 3 - .213]], [1] * 3 + [2] * 6),
    "bct": (np.diag([3.5, 3.5, 4.4]), [[0, 0, 0], [.5, .5, .5]], [1, 1]),
    "calcite_r": ([[4.98, 0, 0], [-2.49, 2.49 * 3 ** .5, 0], [0, 0, 17.]], [[0, 0, 0], [2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3], [0, 0, .5], [2 / 3, 1 / 3, 5 / 6], [1 / 3, 2 / 3, 1 / 6]], [1] * 6),
    "bco": (np.diag([2.8, 5.8, 4.9]), [[0, .1, .25], [0, .9, .75], [.5, .6, .25], [.5, .4, .75]], [1] * 4),
}


def structure(name):
    L, p, n = STRUCTURES[name]
    return np.array(L, float), np.array(p, float) % 1.0, np.array(n)


def make_crystal(case, rng):
    if "s" in case:
        L, pos, num = structure(case["s"])
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        if rng.integers(2):
            L = L @ (q * np.sign(np.linalg.det(q)))
    else:
        big = len(gen._db(case["h"])[0]) > 48
        L, pos, num = gen.crystal(case["h"], rng, norb=int(rng.integers(1, 3)) if big else int(rng.integers(2, 4)),
                                  special=bool(rng.integers(2)) if not big else rng.integers(3) > 0)
    return L, pos, num


def dataset(cell, symprec, mag=False):
    ds = (spglib.get_magnetic_symmetry_dataset if mag else spglib.get_symmetry_dataset)(cell, symprec=symprec)
    return ds


LOOSE = 2e-3


def loosen(L, pos, num, rng, ctx, extra=None):
    """displace the atoms by 1e-4 and ask for a symprec of 2e-3: (positions, symprec), or (positions, None) if the displaced structure is
    not identified with the same number of operations (then the ideal positions are kept)"""
    d = rng.normal(size=pos.shape)
    d = 1e-4 * d / np.linalg.norm(d, axis=1)[:, None]
    q = pos + d @ np.linalg.inv(L)
    e = () if extra is None else (extra,)
    a = dataset((L, pos, num) + e, 1e-5, extra is not None)
    b = dataset((L, q, num) + e, LOOSE, extra is not None)
    if a is None or b is None or len(a["rotations"]) != len(b["rotations"]):
        return pos, None
    ctx.count("loose_symprec")
    return q, LOOSE


def ops_msgs(R, t, ds, tr=None):
    """returned operations == operations of the structure (any order, modulo lattice vectors)"""
    R = oracle.as_array(R, "rotations", kind="int")
    t = oracle.as_array(t, "translations")
    if R.ndim != 3 or t.shape != (len(R), 3):
        raise Malformed(f"operations have shapes {R.shape}, {t.shape}")
    R0, t0 = ds["rotations"].astype(int), ds["translations"]
    if len(R) != len(R0):
        return [f"{len(R)} operations returned, the structure has {len(R0)}"]
    if np.array_equal(R, R0) and np.abs(t - t0 - np.rint(t - t0)).max() < 1e-4:
        return [] if tr is None or np.array_equal(np.asarray(tr) != 0, np.asarray(ds["time_reversals"]) != 0) else ["time reversal flags differ"]
    left = set(range(len(R0)))
    for i in range(len(R)):
        d = t[i] - t0
        ok = (R0 == R[i]).all(axis=(1, 2)) & (np.abs(d - np.rint(d)).max(axis=1) < 1e-4)
        if tr is not None:
            ok &= (np.asarray(ds["time_reversals"]) != 0) == bool(tr[i])
        c = [j for j in np.where(ok)[0] if j in left]
        if not c:
            return [f"operation {i} is not one of the structure"]
        left.discard(c[0])
    return []


def conv_msgs(irreps, R, t, mp, k, ctx, z=None, U=None, tr=None, what="", tol=2e-5):
    """product law modulo lattice translations, translations, completeness, little group"""
    out = []
    R = np.asarray(R).astype(int)
    t = np.asarray(t, float)
    n = len(R)
    mp = oracle.as_array(mp, "mapping", kind="int")
    k = np.asarray(k, float)
    E = (R == oracle.I3).all(axis=(1, 2))
    if tr is not None:
        E &= np.asarray(tr) == 0
    taus = t[E]
    exp = oracle.little(R, k, tr=tr, taus=taus, lo=1e-5, hi=1e-4)
    if exp is None:
        ctx.skip("k too close to call")
        return None
    if mp.tolist() != exp.tolist():
        return [f"{what}little group {mp.tolist()[:40]} expected {exp.tolist()[:40]}"]
    lr, lt = R[mp], t[mp]
    ltr = None if tr is None else np.asarray(tr).astype(int)[mp]
    m = len(mp)
    reps = oracle.as_reps(irreps, m)
    if not reps:
        return [f"{what}no representation returned"]
    T, Lv = oracle.conv_table(lr, lt, ltr)
    if T is None:
        ctx.skip("operations found by spglib do not form a group")
        return None
    om = np.exp(-2j * np.pi * (Lv @ k))
    if z is not None:
        z = oracle.as_array(z, "factor system", (m, m))
        om = om * z
    for a, M in enumerate(reps):
        u = oracle.unitary_defect(M)
        if u > tol:
            out.append(f"{what}irrep {a} not unitary: {u:.3g}")
        w = oracle.law_defect(M, T, om, ltr)
        if w > tol:
            out.append(f"{what}irrep {a} violates the product law by {w:.3g}")
    ctx.count("matrix_products_checked", len(reps) * m * m)
    e = [i for i in range(m) if (lr[i] == oracle.I3).all() and not (ltr is not None and ltr[i])]
    for M in reps:
        for i in e:
            if np.abs(M[i] - np.exp(-2j * np.pi * (k @ lt[i])) * np.eye(M.shape[1])).max() > tol:
                out.append(f"{what}lattice translation {np.round(lt[i], 4).tolist()} misrepresented")
                break
    nco = (m if ltr is None else int((ltr == 0).sum())) / len(e)
    if ltr is None:
        out += oracle.complete_msgs(reps, int(round(nco)), what, tol=1e-4)
    else:
        out += oracle.corep_complete_msgs(reps, ltr, int(round(nco)), tol=1e-4, what=what)
    return out


def recip(L, k, rng):
    """the same wave vector with respect to another reciprocal basis: (k', reciprocal_lattice or None)"""
    dual = np.linalg.inv(L).T
    c = rng.integers(4)
    if c < 2:
        return k, None
    if c == 2:
        B = dual.copy()
    else:
        B = gen.unimod(rng, 3) @ dual if rng.integers(2) else rng.normal(size=(3, 3)) + 2 * np.eye(3)
        if rng.integers(2):
            B = B * 0.37
    return k @ dual @ np.linalg.inv(B), B


def dress_cell(L, pos, num, k, rng, mag=None):
    """the same structure as nested lists, or with atoms outside the cell"""
    c = rng.integers(5)
    if c == 0:
        pos = pos + rng.integers(-2, 3, pos.shape)
    elif c == 1:
        L, pos, num, k = L.tolist(), pos.tolist(), [int(x) for x in num], [float(x) for x in k]
        mag = mag if mag is None else [float(x) for x in mag]
    elif c == 2:
        L, pos = np.asfortranarray(L), np.asfortranarray(pos)
    return (L, pos, num, k) if mag is None else (L, pos, num, k, mag)
