"""C19: loud failure, under enumerated faults of the random source and invalid requests."""
import contextlib
from .common import *

LEVEL = "fault_enumeration"
RULE = ("one case = one group and request under enumerated faults: the first m of K random trials made degenerate (all zero, all equal, unit matrix), m = 0..K, for "
        "the random method, the chain method, decomposition and intertwiner; too few trials (0, 1); or one invalid request; every outcome is classified as "
        "complete and correct / warned / refused / silent; distinct non-trivial = (request, fault kind, m, K, group, outcome)")
ASSUMPTIONS = ["faults are injected by replacing numpy.random.default_rng; when a request draws nothing from it the fault is counted as not reached",
               "the chain method under a failing intertwiner may return anything as long as it warns"]


def cases(tier, seed):
    f = 1 if tier == "quick" else 12
    return [dict(t="rng", h=h, r=r) for h in range(1, 531) for r in range(2 * f)] + \
           [dict(t="bad", h=h, r=r) for h in range(1, 531) for r in range(f)] + \
           [dict(t="badmag", u=u, r=0) for u in range(1 + seed % 5, 1652, 5)] + \
           [dict(t="entry", h=h, r=r) for h in range(1 + seed % 2, 531, 2 if tier == "quick" else 1) for r in range(f)] + \
           [dict(t="entrymag", u=u, r=r) for u in range(1 + seed % 9, 1652, 9) for r in range(f)]


class FaultyRng:
    """stands in for a numpy Generator; the first `bad` numbers drawn are degenerate"""

    def __init__(self, real, st):
        # st["each"]: every generator gets its own faults, otherwise the numbers are counted over the whole request
        self._r, self._st = real, (dict(st, used=0, parent=st) if st["each"] else st)

    def _draw(self, name, *a, **k):
        v = getattr(self._r, name)(*a, **k)
        st = self._st
        n = np.size(v)
        left = st["bad"] - st["used"]
        if left > 0:
            st.get("parent", st)["hits"] += 1
            if np.ndim(v) == 0:
                w = np.float64(0.0 if st["kind"] == "zeros" else 1.0)
            elif st["kind"] == "zeros":
                w = np.zeros_like(v)
            elif st["kind"] == "equal":
                w = np.ones_like(v) * 0.5
            else:
                w = np.zeros_like(v)
                if v.ndim >= 2:
                    w[..., np.arange(min(v.shape[-2:])), np.arange(min(v.shape[-2:]))] = 1
            # one draw may serve several trials: only the first numbers are degenerate
            v = w if left >= n else np.where(np.arange(n).reshape(np.shape(v)) < left, w, v)
        st["used"] += n
        return v

    def __getattr__(self, name):
        if name in ("random", "normal", "standard_normal", "uniform"):
            return lambda *a, **k: self._draw(name, *a, **k)
        return getattr(self._r, name)


@contextlib.contextmanager
def faults(kind, bad, each=False):
    st = dict(kind=kind, bad=bad, used=0, hits=0, each=each)
    old = np.random.default_rng
    np.random.default_rng = lambda *a, **k: FaultyRng(old(*a, **k), st)
    try:
        yield st
    finally:
        np.random.default_rng = old


def valid(reps, T, om, want=None):
    """is the list complete and correct?  want: characters expected (decomposition)"""
    try:
        n = len(T)
        reps = oracle.as_reps(reps, n)
    except Malformed:
        return False
    if not reps:
        return False
    if any(oracle.unitary_defect(m) > 1e-5 or oracle.law_defect(m, T, om) > 1e-5 for m in reps):
        return False
    if want is not None:
        return oracle.same_charset(oracle.chars(reps), want, 1e-4)
    return not oracle.complete_msgs(reps, n)


def classify(o, ok):
    if o.exc is not None:
        return "refused"
    if ok(o.value):
        return "complete"
    return "warned" if o.warns else "silent"


def run(case, ctx):
    rng = seeded(case, ctx)
    globals()["run_" + case["t"]](case, ctx, rng)


def run_rng(case, ctx, rng):
    from spgrep.irreps import enumerate_unitary_irreps, decompose_representation, enumerate_unitary_irreps_from_regular_representation as from_reg
    from spgrep.representation import get_intertwiner
    h = case["h"]
    fl = ["ordinary", "spinor", "small", "twisted"][(h + case["r"]) % 4]
    R, T, om = algebra(h, rng, fl)
    n = len(R)
    irr = oracle.irreps(T, om, rng)
    mult = rng.integers(0, 2, len(irr))
    mult[rng.integers(len(irr))] = 2 if n < 24 else 1
    rep = oracle.direct_sum([D for m, D in zip(mult, irr) for _ in range(m)])
    rep = regauge(rep, rng, "haar")
    want = oracle.chars([D for m, D in zip(mult, irr) if m])
    A = max(irr, key=lambda D: D.shape[1])
    if (h + case["r"]) % 3 == 0:
        # clock and shift matrices: irreducible in any dimension
        q = int(rng.integers(4, 9))
        X, Z = np.roll(np.eye(q), 1, axis=0), np.diag(np.exp(2j * np.pi * np.arange(q) / q))
        A = np.array([np.linalg.matrix_power(X, a) @ np.linalg.matrix_power(Z, b) for a in range(q) for b in range(q)])
    B = regauge(A, rng, "haar")
    d = A.shape[1]

    def okM(M):
        M = np.asarray(M)
        return M.shape == (d, d) and np.all(np.isfinite(M)) and abs(np.linalg.det(M) - 1) < 1e-4 and np.abs(A @ M - M @ B).max() < 1e-4
    reg = oracle.regular(T, om)
    req = {
        "random": (lambda K: (lambda: enumerate_unitary_irreps(R, om, method="random", max_num_random_generations=K)[0]), lambda v: valid(v, T, om)),
        "regular": (lambda K: (lambda: from_reg(reg, max_num_random_generations=K)), lambda v: valid(v, T, om)),
        "Neto": (lambda K: (lambda: enumerate_unitary_irreps(R, om, method="Neto", max_num_random_generations=K)[0]), lambda v: valid(v, T, om)),
        "decompose": (lambda K: (lambda: decompose_representation(rep, max_num_random_generations=K)), lambda v: valid(v, T, om, want)),
        "intertwiner": (lambda K: (lambda: get_intertwiner(A, B, max_num_random_generations=K)), okM),
    }
    names = list(req)
    for nm in names if n <= 16 else ["intertwiner", *rng.permutation(names[:-1])[:3]]:
        mk, ok = req[nm]
        K = int(rng.integers(1, 5))
        # how many numbers does one trial draw?
        with faults("zeros", np.inf) as s1:
            ctx.observe(nm + "_probe", mk(1))
        with faults("zeros", np.inf) as s2:
            ctx.observe(nm + "_probe", mk(2))
        per = s2["used"] - s1["used"] or s1["used"]     # equal: the second trial is not made
        single = nm != "Neto"
        for kind in ("zeros", "equal", "unit"):
            for bad in sorted({0, K - 1, K, int(rng.integers(0, K + 1))}):
                num = np.inf if bad == K else bad * per
                with faults(kind, num) as st:
                    o = ctx.observe(nm, mk(K))
                out = classify(o, ok)
                what = f"hall {h} {fl} ({n} operations) {nm} with {bad} of {K} trials degenerate ({kind}): "
                if bad and not st["hits"]:
                    ctx.count("fault_not_reached")
                    continue
                ctx.check(out != "silent", what + "neither a complete result nor a warning")
                if single and out == "warned" and isinstance(o.value, list) and len(o.value):
                    ctx.fail(what + f"a partial list of {len(o.value)} irreps is returned")
                if kind == "zeros" and bad < K and single and (per > 0 or bad == 0):
                    ctx.check(out == "complete", what + f"a usable trial is left but the result is {out}" + (f" ({o.exc})" if o.exc else ""))
                if nm == "Neto" and bad == 0:
                    ctx.check(out == "complete", what + f"result is {out}")
                if out == "refused" and nm != "Neto":
                    ctx.fail(what + f"raised {type(o.exc).__name__}: {str(o.exc)[:100]}")
                ctx.count(f"{nm}:{out}")
                if n > 1:
                    ctx.sig(nm, kind, bad, K, h, out)
        for K in (0, 1):
            o = ctx.observe(nm, mk(K))
            out = classify(o, ok)
            what = f"hall {h} {fl} ({n} operations) {nm} with {K} trials: "
            ctx.check(out != "silent", what + "neither a complete result nor a warning")
            if single and out == "warned" and isinstance(o.value, list) and len(o.value):
                ctx.fail(what + f"a partial list of {len(o.value)} irreps is returned")
            ctx.count(f"few_trials:{out}")
    ctx.note(lambda: dict(case=case, flavour=fl, order=n))


def per_trial(ctx, name, mk):
    """how many numbers does one (failing) trial of this request draw?"""
    use = []
    for K in (1, 2):
        with faults("zeros", np.inf) as st:
            ctx.observe(name + "_probe", mk(K))
        use.append(st["used"])
    return use[1] - use[0] or use[0]


def int_trial(ctx, d):
    """the same for an intertwiner of dimension d"""
    from spgrep.representation import get_intertwiner
    A = np.eye(d, dtype=complex)[None]
    return per_trial(ctx, "intertwiner", lambda K: (lambda: get_intertwiner(A, A, max_num_random_generations=K)))


def reg_trial(ctx, n):
    """the same for the decomposition of a regular representation of order n"""
    from spgrep.irreps import enumerate_unitary_irreps_from_regular_representation as from_reg
    reg = np.eye(n, dtype=complex)[(np.arange(n)[:, None] + np.arange(n)[None]) % n]
    return per_trial(ctx, "regular", lambda K: (lambda: from_reg(reg, max_num_random_generations=K)))


def enumerate_faults(ctx, rng, what, mk, ok, dmax, n, method, other=False):
    """the public request mk(K), judged by ok(value) -> messages, with the first trials of the search degenerate

    other: the request draws for something else than the enumeration as well (intertwiners)"""
    if method == "random":
        per = per_trial(ctx, "entry", mk) or reg_trial(ctx, n)
        K = int(rng.integers(6, 9))
        plan = [(K, 0, 0.0, False), (K, 5, 5.0 * per, False), (K, K, np.inf, False)]
    else:
        per = int_trial(ctx, 1)
        big = 5.0 * int_trial(ctx, dmax)
        plan = [(8, 5, 5.0 * per, True), (int(big / max(per, 1)) + 8, 5, big, True), (5, 5, np.inf, True)]
    for K, bad, num, each in plan:
        with faults("zeros", num, each) as st:
            o = ctx.observe("entry", mk(K))
        if bad and not st["hits"]:
            ctx.count("fault_not_reached")
            continue
        msgs = None if o.exc is not None else (ok(o.value) or [])
        out = "refused" if o.exc is not None else "warned" if o.warns else "silent" if msgs else "complete"
        w = f"{what} {method}: {bad} of {K} trials degenerate: "
        if num < np.inf and (per > 0 or not bad):
            ctx.check(out == "complete", w + f"a usable trial is left but the result is {out}: {o.exc or o.warns or msgs}"[:250])
        else:
            ctx.check(out != "silent", w + f"neither a complete result nor a warning: {msgs and msgs[0]}"[:250])
        ctx.count("entry:" + out)
        if n > 1:
            ctx.sig(what, method, K, bad, out)


def run_entry(case, ctx, rng):
    import spgrep
    h = case["h"]
    R, t, _, _ = rand_presentation(*gen.prim(h), rng)
    L = gen.metric_lattice(R, rng)
    k = gen.kpoint(R, rng, ["special", "half", "gamma", "mixed"][rng.integers(4)])
    g = oracle.little(R, k)
    if g is None:
        ctx.skip("k too close to call")
        return
    lr, lt = R[g], t[g]
    T, n = oracle.table(lr), len(g)
    om, _ = oracle.lattice_phase(lr, lt, k, T)
    Tp = oracle.table(R)
    one = np.ones(Tp.shape, complex)

    def ok(reps, T, om):
        reps = oracle.as_reps(reps, len(T))
        return oracle.complete_msgs(reps, len(T)) + [f"law violated by {oracle.law_defect(m, T, om):.2g}" for m in reps if oracle.law_defect(m, T, om) > 1e-5]

    def okreal(reps, ref):
        reps = oracle.as_reps(reps, len(reps[0]))
        return [] if sorted(m.shape[1] for m in reps) == ref else [f"dimensions {[m.shape[1] for m in reps]} instead of {ref}"]
    for m in METHODS:
        kw = dict(method=m)
        req = [
            ("primitive", lambda K: (lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(R, t, k, max_num_random_generations=K, **kw)),
             lambda v: ok(v[0], T, om), n),
            ("pointgroup", lambda K: (lambda: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(R, max_num_random_generations=K, **kw)),
             lambda v: ok(v, Tp, one), len(R)),
            ("spinor", lambda K: (lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, t, kpoint=k, max_num_random_generations=K, **kw)),
             lambda v: ok(v[0], T, om * v[1]), n),
            ("spinor pointgroup", lambda K: (lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, R, max_num_random_generations=K, **kw)),
             lambda v: ok(v[0], Tp, v[1]), len(R)),
        ]
        for i in rng.permutation(len(req))[:2]:
            nm, mk, okf, order = req[i]
            enumerate_faults(ctx, rng, f"hall {h} {nm} ({order} operations)", mk, okf, 4, order, m)
        # real representations draw for intertwiners as well: judged against the faultless request
        for nm, real in (("primitive", lambda K: (lambda: spgrep.get_spacegroup_irreps_from_primitive_symmetry(R, t, k, real=True, max_num_random_generations=K, **kw)[0])),
                         ("pointgroup", lambda K: (lambda: spgrep.get_crystallographic_pointgroup_irreps_from_symmetry(R, real=True, max_num_random_generations=K, **kw)))):
            o = ctx.observe("entry", real(4))
            if o.exc is not None:
                continue
            ref = sorted(x.shape[1] for x in o.value)
            per1, per = int_trial(ctx, 1), int_trial(ctx, 4)
            for K, num in ((8, 5.0 * per1), (int(5 * per / max(per1, 1)) + 8, 5.0 * per)) if m == "Neto" else ((8, 5.0 * per1),):
                with faults("zeros", num, True) as st:
                    o = ctx.observe("entry", real(K))
                if not st["hits"]:
                    continue
                bad = o.exc or o.warns or okreal(o.value, ref)
                ctx.check(not bad, f"hall {h} real {nm} k={np.round(k, 4).tolist()} {m}: a usable trial is left of {K} but {bad}"[:250])
                ctx.count("entry_real")
    if case["h"] // 2 % 3 == 1 and len(gen.db(h)[0]) <= 48:
        run_crystal(case, ctx, rng)
    ctx.note(lambda: dict(case=case, order=n))


def run_crystal(case, ctx, rng):
    import spgrep
    from . import conv
    L, pos, num = gen.crystal(case["h"], rng, norb=2, special=False)
    c = gen.variant(L, pos, num, ["std", "shift", "perm", "prim"][rng.integers(4)], rng)
    if c is None or len(c[1]) > 100:
        return
    L, pos, num = c[:3]
    ds = conv.dataset((L, pos, num), 1e-5)
    if ds is None:
        return
    k = gen.kpoint(np.asarray(ds["rotations"]).astype(int), rng, "special")
    for m in METHODS:
        kw = dict(method=m)
        enumerate_faults(ctx, rng, f"hall {case['h']} crystal", lambda K: (lambda: spgrep.get_spacegroup_irreps(L, pos, num, k, max_num_random_generations=K, **kw)),
                         lambda v: conv.conv_msgs(v[0], v[1], v[2], v[3], k, ctx), 4, 2, m)
        enumerate_faults(ctx, rng, f"hall {case['h']} spinor crystal", lambda K: (lambda: spgrep.get_spacegroup_spinor_irreps(L, pos, num, kpoint=k, max_num_random_generations=K, **kw)),
                         lambda v: conv.conv_msgs(v[0], v[3], v[4], v[5], k, ctx, z=v[1]), 4, 2, m)
        mg = (num == 1) * 1.0
        if case["h"] // 6 % 2 == 1 and conv.dataset((L, pos, num, mg), 1e-5, mag=True) is not None and np.linalg.det(L) > 0:
            enumerate_faults(ctx, rng, f"hall {case['h']} magnetic crystal",
                             lambda K: (lambda: spgrep.get_spacegroup_spinor_irreps(L, pos, num, mg, k, max_num_random_generations=K, **kw)),
                             lambda v: conv.conv_msgs(v[0], v[4], v[5], v[7], k, ctx, z=v[1], tr=np.asarray(v[6]).astype(int)), 8, 2, m, other=True)
    ctx.count("crystals_under_faults")


def run_entrymag(case, ctx, rng):
    import spgrep
    R, t, tr = gen.mprim(case["u"])
    R, t, tr, _ = rand_presentation(R, t, rng, tr)
    if len(R) > 48:
        ctx.skip("large group")
        return
    L = gen.metric_lattice(R, rng)
    k = gen.kpoint(R, rng, "special", tr=tr)
    g = oracle.little(R, k, tr)
    if g is None:
        ctx.skip("k too close to call")
        return
    lr, lt, ltr = R[g], t[g], tr[g]
    T = oracle.table(lr, ltr)

    def ok(v):
        reps = oracle.as_reps(v[0], len(g))
        return oracle.small_rep_msgs(reps, lr, lt, k, z=np.asarray(v[2]), tr=ltr, T=T, tol=1e-5) + oracle.corep_complete_msgs(reps, ltr, int((ltr == 0).sum()))
    for m in METHODS:
        mk = lambda K: (lambda: spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, t, tr, kpoint=k, method=m, max_num_random_generations=K))
        enumerate_faults(ctx, rng, f"uni {case['u']} co-representations ({len(g)} operations)", mk, ok, 8, len(g), m, other=True)
    keep = gen.dedup(R, t, tr)
    Rp, trp = R[keep], tr[keep]
    Tp = oracle.table(Rp, trp)
    z0 = np.zeros((len(Rp), 3))

    def okp(v):
        reps = oracle.as_reps(v[0], len(Rp))
        return oracle.small_rep_msgs(reps, Rp, z0, np.zeros(3), z=np.asarray(v[2]), tr=trp, T=Tp, tol=1e-5) + oracle.corep_complete_msgs(reps, trp, int((trp == 0).sum()))
    if case["u"] // 9 % 3 == 0:
        mk = lambda K: (lambda: spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, Rp, trp, method=METHODS[case["u"] % 2], max_num_random_generations=K))
        enumerate_faults(ctx, rng, f"uni {case['u']} magnetic point group ({len(Rp)} operations)", mk, okp, 8, len(Rp), METHODS[case["u"] % 2], other=True)
    ctx.note(lambda: dict(case=case, order=len(g)))


def must_refuse(ctx, what, fn, *a, **k):
    o = ctx.observe("invalid", fn, *a, **k)
    ctx.check(o.exc is not None, what + f": accepted, returned {type(o.value).__name__}")
    ctx.count("refused:" + what.split(":")[0])


def nonprimitive(R, t, rng):
    """the same group listed with an extra centring translation"""
    c = [[.5, .5, .5], [.5, .5, 0], [0, .5, .5], [1 / 3, 2 / 3, 0]][rng.integers(4)]
    R2, t2 = np.concatenate([R, R]), np.concatenate([t, t + c])
    p = rng.permutation(len(R2)) if rng.integers(2) else np.arange(len(R2))
    return R2[p], t2[p], p


def run_bad(case, ctx, rng):
    import spgrep
    from spgrep import group as gp, irreps as ir, representation as rp, transform as tf, utils as ut
    from spgrep.pointgroup import get_pointgroup_chain_generators
    h = case["h"]
    R, t, _, _ = rand_presentation(*gen.prim(h), rng)
    n = len(R)
    T = oracle.table(R)
    L = gen.metric_lattice(R, rng)
    k = gen.kpoint(R, rng)
    # non-primitive operations (own or database ones)
    Rc, tc = gen.db(h)
    if len(gen.dedup(Rc, tc)) == len(Rc) or rng.integers(2):
        Rc, tc, _ = nonprimitive(R, t, rng)
    # any k: the zone centre, a point where the extra translations have phase one, a generic one
    z = [np.zeros(3), rng.integers(-2, 3, 3) * 6.0, gen.kpoint(Rc, rng)][rng.integers(3)]
    for m in METHODS:
        must_refuse(ctx, "non-primitive operations: irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, Rc, tc, z, method=m, real=bool(rng.integers(2)))
        must_refuse(ctx, "non-primitive operations: spinor irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, Rc, tc, kpoint=z, method=m)
    # unknown names
    bad = ["neto", "Random", "", "det"][rng.integers(4)]
    must_refuse(ctx, "unknown method: space group", spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method=bad)
    must_refuse(ctx, "unknown method: spinor", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method=bad)
    must_refuse(ctx, "unknown method: point group", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, R, method=bad)
    must_refuse(ctx, "unknown method: spinor point group", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R, method=bad)
    must_refuse(ctx, "unknown method: enumeration", ir.enumerate_unitary_irreps, R, method=bad)
    a = rng.normal(size=(2, 5))
    must_refuse(ctx, "unknown distance", ut.grassmann_distance, a, a[:1], ord=["max", "Min", "", "proj"][rng.integers(4)])
    # not closed under multiplication
    if n > 2:
        g = int(rng.integers(n))
        X = np.delete(R, g, axis=0)
        if oracle.table(X) is None:
            must_refuse(ctx, "not closed: table", gp.get_cayley_table, X)
            must_refuse(ctx, "not closed: regular representation", rp.get_regular_representation, X)
            must_refuse(ctx, "not closed: projective regular", rp.get_projective_regular_representation, X, np.ones((n - 1, n - 1), complex))
            for m in METHODS:
                must_refuse(ctx, "not closed: enumeration", ir.enumerate_unitary_irreps, X, method=m)
                must_refuse(ctx, "not closed: point-group irreps", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, X, method=m)
            must_refuse(ctx, "not closed: spinor point group", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, X)
    # mismatched dimensions
    irr = oracle.irreps(T, np.ones((n, n), complex), rng)
    D = irr[-1]
    must_refuse(ctx, "mismatched: direct product", rp.get_direct_product, D, np.concatenate([D, D]))
    must_refuse(ctx, "mismatched: direct product", rp.get_direct_product, np.concatenate([D, D]), D)
    must_refuse(ctx, "mismatched: projection", rp.project_to_irrep, np.concatenate([D, D[:1]]), D)
    if n > 1:
        must_refuse(ctx, "mismatched: projection", rp.project_to_irrep, D[:-1], D)
    # matrices that do not belong to the representation (other order of the operations, other group): loud, or a right answer
    for E_ in irr:
        q = rng.permutation(n)
        F = E_[q] if rng.integers(2) else E_ * np.exp(2j * np.pi * rng.random(n))[:, None, None]
        reps = [D, E_, oracle.direct_sum([E_, D])][rng.integers(3)]
        m = np.vdot(np.einsum("kii->k", F), np.einsum("kii->k", reps)) / n
        if abs(m - np.rint(m.real)) > 1e-3:
            o = ctx.observe("misfit_projection", rp.project_to_irrep, reps, F)
            ctx.check(o.exc is not None or bool(o.warns), f"hall {h}: projection on matrices with non-integer multiplicity {m:.3g} (order {n}): silent")
            ctx.count("misfit_projection")
    # unknown Hall number
    hb = int([0, 531, -1, 1000][rng.integers(4)])
    must_refuse(ctx, "unknown Hall number: matrix", tf.get_primitive_transformation_matrix, hb)
    must_refuse(ctx, "unknown Hall number: operations", ut.get_symmetry_from_hall_number, hb)
    # inequivalent irreps have no intertwiner: never an unannounced matrix
    for d in {D.shape[1] for D in irr}:
        c = [D for D in irr if D.shape[1] == d]
        if len(c) > 1:
            i, j = rng.choice(len(c), 2, replace=False)
            o = ctx.observe("intertwiner", rp.get_intertwiner, c[i], c[j])
            ctx.check(o.exc is not None or bool(o.warns), f"hall {h}: intertwiner of inequivalent irreps of dim {d} returned without warning")
            ctx.count("inequivalent_intertwiner")
    # generators that do not reach the whole group
    if n > 1:
        gens = list(get_pointgroup_chain_generators(R))
        o = ctx.observe("short_chain", ir.enumerate_unitary_irreps_from_solvable_group_chain, T, np.ones((n, n), complex), gens[1:])
        ctx.check(o.exc is not None or (bool(o.warns) and not len(o.value)), f"hall {h}: insufficient generators give {0 if o.exc else len(o.value)} irreps, warnings {o.warns}")
        ctx.count("insufficient_generators")
    # structures without symmetry information: overlapping atoms
    if case["r"] == 0 and h % 5 == 0:
        o = ctx.observe("overlapping", spgrep.get_spacegroup_irreps, 3 * np.eye(3), np.array([[0, 0, 0], [0, 0, 0]]), np.array([1, 1]), z)
        ctx.check(o.exc is not None or bool(o.warns), "overlapping atoms accepted silently")
        ctx.count("overlapping_atoms")
    ctx.sig("bad", h, case["r"])
    ctx.note(lambda: dict(case=case, order=n))


def run_badmag(case, ctx, rng):
    import spgrep
    R, t, tr = gen.mprim(case["u"])
    R, t, tr, _ = rand_presentation(R, t, rng, tr)
    L = gen.metric_lattice(R, rng)
    R2, t2, p = nonprimitive(R, t, rng)
    tr2 = np.concatenate([tr, tr])[p]
    must_refuse(ctx, "non-primitive operations: co-representations", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R2, t2, tr2, kpoint=np.zeros(3))
    must_refuse(ctx, "unknown method: co-representations", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, tr, kpoint=np.zeros(3), method="neto")
    keep = gen.dedup(R, t, tr)
    must_refuse(ctx, "unknown method: magnetic point group", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R[keep], tr[keep], method="neto")
    ctx.sig("badmag", case["u"])
