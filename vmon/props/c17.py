"""C17: covariance under changes of description."""
from .common import *

RULE = ("one case = one space group or magnetic group with a wave vector, computed once and again in changed descriptions (k + reciprocal vector, origin, lattice "
        "vectors added to operations, order, lattice basis, -k, another arm of the star; for spinors also rotated, reflected or rescaled lattices); "
        "characters of the two runs are matched as sets after the predicted relabelling; distinct non-trivial = (group, change, flavour, k kind, dims) "
        "with little group order > 1")
ASSUMPTIONS = ["for co-representations the characters of unitary operations and the indicators are compared (traces of anti-unitary ones depend on the basis)"]
CH = ["kG", "origin", "latt", "perm", "basis", "minus", "star", "all"]


def cases(tier, seed):
    f = 4 if tier == "quick" else 20
    return [dict(t=t, n=h, r=r) for h in range(1, 531) for r in range(f) for t in ("sg", "spin")] + \
           [dict(t="msg", n=u, r=r) for u in range(1, 1652) for r in range(max(1, f // 2))]


class Bad(Exception):
    pass


def ask(ctx, t, R, T, k, tr, L, method):
    """(mapping, characters on little group, U or None, indicators or None, dims)"""
    import spgrep
    if t == "sg":
        v = ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, T, k, method=method)
        irr, mp = oracle.as_tuple(v, 2, "result")
        U = ind = None
    elif t == "spin":
        v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, T, kpoint=k, method=method)
        irr, z, U, mp = oracle.as_tuple(v, 4, "result")
        ind = None
    else:
        v = ctx.call("primitive_corep", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, T, tr, kpoint=k, method=method)
        irr, ind, z, U, fl, mp = oracle.as_tuple(v, 6, "result")
    mp = oracle.as_array(mp, "mapping", kind="int")
    reps = oracle.as_reps(irr, len(mp))
    U = None if U is None else oracle.as_array(U, "unitary rotations", (len(mp), 2, 2))
    return mp, oracle.chars(reps), U, ind


def run(case, ctx):
    rng = seeded(case, ctx)
    t, n = case["t"], case["n"]
    if t == "msg":
        R, T, tr = gen.mprim(n)
    else:
        R, T = gen.prim(n)
        tr = None
    R, T, tr, _ = rand_presentation(R, T, rng, tr, big=16)
    L = gen.metric_lattice(R, rng, "rand")
    kind = ["special", "special2", "half", "line", "mixed", "special", "plane", "third"][rng.integers(8)]
    k = gen.kpoint(R, rng, kind, tr=tr, far=False)
    g = oracle.little(R, k, tr)
    if g is None:
        ctx.skip("k too close to call")
        return
    N = len(R)
    what = f"{t} {n} k={np.round(k, 4).tolist()} "
    mp, C, U, ind = ask(ctx, t, R, T, k, tr, L, METHODS[rng.integers(2)])
    base = {int(i): a for a, i in enumerate(mp)}
    nch = 4 if ctx.tier == "quick" else 8
    if len(g) > 24 and ctx.tier == "quick":
        nch = 2
    todo = list(rng.permutation(CH)[:nch])
    if t != "sg":
        todo += [["rotate", "scale", "reflect"][rng.integers(3)]]
    for ch in todo:
        R2, T2, k2, L2, tr2 = R.copy(), T.copy(), k.copy(), L.copy(), None if tr is None else tr.copy()
        src = np.arange(N)            # new operation i is old operation src[i]
        phase = np.zeros((N, 3))      # lattice vector added: D' = D exp(-2 pi i k.phase)
        conj = False
        V = np.eye(2)
        sub = [ch] if ch != "all" else ["origin", "latt", "perm", "basis", "kG"]
        for c in sub:
            if c == "kG":
                k2 = k2 + rng.integers(-3, 4, 3)
            elif c == "origin":
                s = rng.random(3)
                T2 = T2 + s - np.einsum("iab,b->ia", R2, s)
            elif c == "latt":
                e = oracle.identity_index(R2, tr2)[0]
                z = rng.integers(-3, 4, (N, 3))
                z[e] = 0
                T2 = T2 + z
                phase = phase + z
            elif c == "perm":
                p = rng.permutation(N)
                R2, T2, src, phase = R2[p], T2[p], src[p], phase[p]
                tr2 = None if tr2 is None else tr2[p]
            elif c == "basis":
                P = gen.unimod(rng, 3).astype(float)
                R2, T2 = gen.conj(P, R2, T2)
                k2 = P.T @ k2
                L2 = P.T @ L2
                phase = np.rint(phase @ np.linalg.inv(P).T)   # kept in the new basis, used with k2
            elif c == "minus":
                k2 = -k2
                conj = True
            elif c == "star":
                i = int(rng.integers(N))
                S = R2[i].astype(float)
                # conjugate every operation by S g S^-1, then look it up
                Rn = np.rint(np.einsum("ab,ibc,cd->iad", S, R2, np.linalg.inv(S))).astype(int)
                Tn = np.einsum("ab,ib->ia", S, T2) + T2[i] - np.einsum("iab,b->ia", Rn, T2[i])
                j = np.array([next(q for q in range(N) if (R2[q] == Rn[a]).all() and (tr2 is None or tr2[q] == tr2[a])) for a in range(N)])
                d = np.rint(T2[j] - Tn)
                k2 = np.linalg.inv(S).T @ k2
                ph2 = np.zeros((N, 3))
                s2 = np.zeros(N, int)
                s2[j] = np.arange(N)
                ph2[j] = d
                if tr2 is not None and tr2[i]:
                    k2 = -k2
                    conj = True
                if t != "sg":
                    c_ = oracle.cart(L2, [R2[i]])[0]
                    V = su2(c_)
                src, phase = s2, ph2
            elif c in ("rotate", "reflect"):
                q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
                q = q * np.sign(np.linalg.det(q))
                if c == "reflect":
                    q = -q
                L2 = L2 @ q.T
                V = su2(q) @ V
            elif c == "scale":
                L2 = L2 * [0.01, 0.3, 7.0, 200.0][rng.integers(4)]
        e = oracle.identity_index(R2, tr2)[0]
        if np.abs(T2[e]).max() > 1e-9:
            T2[e] = np.where(np.abs(T2[e]) < 1e-9, 0, T2[e])
        mp2, C2, U2, ind2 = ask(ctx, t, R2, T2, k2, tr2, L2, METHODS[rng.integers(2)])
        w = what + f"{ch}: "
        if sorted(src[mp2].tolist()) != sorted(base):
            ctx.fail(w + "little group changes")
            continue
        old = np.array([base[int(i)] for i in src[mp2]])
        pred = C[:, old] if not conj else C[:, old].conj()
        pred = pred * np.exp(-2j * np.pi * (phase[mp2] @ k2))[None]
        keep = np.ones(len(mp2), bool) if tr is None else tr2[mp2] == 0
        if U is not None:
            Uo = U[old]
            W = np.einsum("ab,ibc,dc->iad", V, Uo, V.conj())
            s = np.einsum("iab,iab->i", U2.conj(), W).real / 2
            if np.abs(np.abs(s[keep]) - 1).max() > 1e-4:
                ctx.fail(w + "spin rotations are not related by the change of description")
                continue
            pred = pred * np.sign(s)[None]
        ok = oracle.same_charset(pred[:, keep], C2[:, keep], tol=1e-4)
        if ind is not None and ok:
            a = sorted((int(i), round(abs(c[keep]).sum(), 3)) for i, c in zip(ind, pred))
            b = sorted((int(i), round(abs(c[keep]).sum(), 3)) for i, c in zip(ind2, C2))
            ctx.check([x[0] for x in a] == [x[0] for x in b], w + "indicators change")
        ctx.check(ok, w + "characters do not transform as predicted")
        ctx.count("change:" + ch)
        if len(mp2) > 1:
            ctx.sig(t, n, ch, kind, len(mp2), C.shape[0])
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), kind=kind, little=len(mp), changes=[str(x) for x in todo]))
