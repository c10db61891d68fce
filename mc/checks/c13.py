"""C13 curve algebra: trimming, cutting, reversing, copying, transforming, scaling and
chaining curves, in any order."""
import itertools
from mc.geo import *
from mc.engine import Result
from gggears.gggears_base_classes import GearTransform, Transform

RULE = ("state = one curve reached by a word of operations from a base curve; transition = one operation on the real curve; after every step the new curve is compared with "
        "the old one through the operation's meaning, its length and parametrisation with a fine polyline of it, and the operands, earlier copies and sources must be unchanged")
BOUNDS = {
    "quick": "22 base curves (lines, arcs, involutes, cycloids, NURBS, transformed curves, chains, nested and partly inactive chains) x all words of <=2 operations out of 16; all pairs of curves for sums and chains; continuation past the ends; the active flag; every arc constructor, chain bookkeeping, NURBS point arrays, derivatives in 3 poses",
    "thorough": "all words of <=3 operations",
}
ASSUMPTIONS = ["locations strictly inside the curve; lengths and equal spacing judged at 2 percent (the library documents them as approximate)"]

A = np.array


def nurb(seed):
    p = A([[0, 0, 0], [1, 2, 0.3], [2.5, -0.5 * seed, 0], [4, 1, -0.4]], float)
    return crv.NurbCurve(p.copy(), A([1.0, 0.6, 1.7, 1.0]))


def chain():
    return crv.CurveChain(
        crv.LineCurve(V(0, 0, 0), V(2, 0, 0)),
        crv.ArcCurve.from_2_point_center(V(2, 0, 0), V(3, 1, 0), V(2, 1, 0)),
        crv.TransformedCurve(Transform(center=V(2, 1, 0)), crv.InvoluteCurve(r=1.0, t0=0.0, t1=1.2)),
    )


def bases():
    b = {}
    b["line"] = lambda: crv.LineCurve(V(1, 2, 3), V(-2, 1, 0.5))
    b["arc"] = lambda: crv.ArcCurve(radius=2.0, angle=1.9, center=V(1, -1, 2), yaw=0.4, pitch=0.3, roll=-0.8)
    b["arcneg"] = lambda: crv.ArcCurve(radius=1.5, angle=-1.2, center=V(0, 1, 0), yaw=2.0)
    b["arcbig"] = lambda: crv.ArcCurve(radius=1.0, angle=4.9, center=V(1, 0, 0), yaw=-0.5)
    b["arc2p"] = lambda: crv.ArcCurve.from_2_point_center(V(2, 0, 1), V(0, 3, 1) * 2 / 3 + V(0, 0, 1 / 3), V(0, 0, 1))
    b["arcang"] = lambda: crv.ArcCurve.from_point_center_angle(V(2, 1, 0), V(1, 1, 0), -2.2, V(0.3, 0, 1) / np.linalg.norm(V(0.3, 0, 1)) * 0 + V(0, 0, 1))
    b["inv"] = lambda: crv.InvoluteCurve(r=2.0, t0=0.05, t1=1.6, angle=0.3, v_offs=V(0.1, -0.2, 0), z_offs=0.7)
    b["invneg"] = lambda: crv.InvoluteCurve(r=2.0, t0=-0.1, t1=-1.6, angle=-0.3)
    b["sph"] = lambda: crv.SphericalInvoluteCurve(r=2.0, t0=0.05, t1=1.1, angle=0.2, c_sphere=1 / 3.0)
    b["oct"] = lambda: crv.OctoidCurve(r=2.0, t0=0.05, t1=0.5, angle=0.2, c_sphere=1 / 3.0, alpha=20 * DEG)
    b["cyc"] = lambda: crv.CycloidCurve(rb=3.0, rc=1.0, angle=0.4, t0=0.05, t1=0.9)
    b["cyccone"] = lambda: crv.CycloidConicCurve(rb=3.0, rc=1.0, C=0.2, angle=0.4, t0=0.05, t1=0.9)
    b["nurb"] = lambda: nurb(1.0)
    b["plain"] = lambda: crv.Curve(lambda t, k=1.0: V(t, k * t * t, 0.3 * t), t0=-0.5, t1=1.5, params={"k": 2.0})
    b["mirror"] = lambda: crv.MirroredCurve(b["inv"](), plane_normal=V(0.2, 1, 0), center=V(0, 0.5, 0))
    b["rot"] = lambda: crv.RotatedCurve(b["inv"](), angle=0.7, axis=V(0, 0.3, 1), center=V(1, 0, 0))
    b["trf"] = lambda: crv.TransformedCurve(GearTransform(center=V(1, 2, 3), orientation=rv([0.3, 0.2, -0.5]), scale=1.7, angle=0.4), b["arc"]())
    b["mnurb"] = lambda: crv.MirroredCurve(nurb(1.3), plane_normal=V(0, 1, 0))
    b["chain"] = chain
    b["nested"] = lambda: crv.CurveChain(chain(), crv.LineCurve(chain()(1.0), V(5, 5, 0)))
    b["inact"] = lambda: crv.CurveChain(crv.LineCurve(V(0, 0, 0), V(1, 0, 0)), crv.LineCurve(V(1, 0, 0), V(1, 0, 0), active=False), crv.ArcCurve.from_2_point_center(V(1, 0, 0), V(2, 1, 0), V(1, 1, 0)))
    b["nurbs"] = lambda: crv.NURBSCurve(nurb(1.0), crv.NurbCurve(A([[4, 1, -0.4], [5, 2, 0], [6, 0, 0]], float), A([1.0, 0.8, 1.0])))
    return b


B = bases()
OPS = ["rev", "copy", "cutL", "cutR", "trim", "start", "end", "mirror", "rotate", "scale", "append", "mul", "div", "lintf", "tochain", "nurbs"]
S = np.linspace(0, 1, 9)


def is_chain(n):
    return n in ("chain", "nested", "inact", "nurbs")


def ITEMS(tier):
    k = 2 if tier == "quick" else 3
    for n in B:
        for o in OPS:
            yield dict(k="word", b=n, first=o, n=k)
        yield dict(k="single", b=n)
    for i in range(len(POSES)):
        for an in (40, 75, 90, 120, 150):
            for r in (0.1, 0.5):
                for rev in (0, 1):
                    yield dict(k="fillet", i=i, an=an, r=r, rev=rev)
        for n in B:
            if n not in ("nurbs", "inact"):
                yield dict(k="find", i=i, b=n)
    names = list(B)
    for a in names:
        yield dict(k="pairs", b=a)
        yield dict(k="outside", b=a)
        yield dict(k="flags", b=a)
    for i in range(len(POSES)):
        for case in MISC:
            yield dict(k="misc", case=case, i=i)


def samp(c, n=9):
    return ev(c, np.linspace(0, 1, n))


def true_length(c, n=400):
    p = samp(c, n + 1)
    return float(np.sum(np.linalg.norm(np.diff(p, axis=0), axis=1))), p


def geometry(R, c, what):
    """length and equal spacing"""
    L, p = true_length(c)
    d = np.linalg.norm(np.diff(p, axis=0), axis=1)
    tol = 0.05 if "nurbs" in what else 0.02  # rational pieces move unevenly
    R.le("length of the curve @%s" % what, abs(float(c.length) - L) / L, tol)
    cum = np.concatenate([[0], np.cumsum(d)]) / L
    R.le("equal spacing @%s" % what, np.max(np.abs(cum - np.linspace(0, 1, len(cum)))), tol)
    arr = np.asarray(c(np.linspace(0, 1, 5)), float)
    R.close("evaluation on arrays @%s" % what, arr, samp(c, 5), 1e-9 * (1 + np.abs(p).max()))
    return L


class Skip(Exception):
    pass


def step(R, c, op):
    """apply op to the real curve c (c itself may be consumed); checks the meaning of the op; returns the new curve"""
    old = samp(c, 33)
    f_old = lambda s: np.asarray(c0(float(s)), float)
    c0 = c
    sc = 1 + np.abs(old).max()
    t = 1e-7 * sc
    L = float(c.length)
    loose = 0.02 * L
    chainy = hasattr(c, "curves")
    w = "@" + op

    def pts(x, s):
        return ev(x, s)

    if op == "rev":
        r = c.reverse()
        R.true("reverse returns the curve " + w, r is c)
        R.close("reversed curve " + w, samp(c, 33), old[::-1], t)
        R.close("length after reversing", c.length, L, 1e-9 * sc)
        return c
    if op == "copy":
        n = c.copy()
        R.close("copy " + w, samp(n, 33), old, 1e-12 * sc)
        # changing the original does not change the copy
        disturb(c)
        R.close("copy is independent of the original " + w, samp(n, 33), old, 1e-12 * sc)
        return n
    if op in ("cutL", "cutR"):
        p = old_at(c, 0.37)
        a, b = c.cut(0.37)
        R.close("cut start " + w, pts(a, [0, 1]), A([old[0], p]), t)
        R.close("cut end " + w, pts(b, [0, 1]), A([p, old[-1]]), t)
        R.close("cut leaves the curve " + w, samp(c, 33), old, 1e-12 * sc)
        R.close("lengths of the parts", float(a.length) + float(b.length), L, 0.02 * L)
        R.close("length of the first part", float(a.length), 0.37 * L, loose)
        near(R, samp(a, 9), c, "part of a cut lies on the curve " + w)
        near(R, samp(b, 9), c, "part of a cut lies on the curve " + w)
        disturb(c)
        other = samp(b, 9)
        disturb(a if op == "cutR" else b)
        keep = b if op == "cutR" else a
        if op == "cutR":
            R.close("parts are independent " + w, samp(b, 9), other, 1e-12 * sc)
        return keep
    if op in ("trim", "start", "end"):
        s0, s1 = dict(trim=(0.2, 0.83), start=(0.27, 1.0), end=(0.0, 0.66))[op]
        want = A([old_at(c, s0), old_at(c, s1)])
        ref = c.copy()
        if op == "trim":
            c.set_start_and_end_on(s0, s1)
        elif op == "start":
            c.set_start_on(s0)
        else:
            c.set_end_on(s1)
        R.close("trimmed ends " + w, pts(c, [0, 1]), want, t)
        R.close("length after trimming", float(c.length), (s1 - s0) * L, loose)
        q = [s0 + (s1 - s0) * x for x in (0.25, 0.5, 0.75)]
        R.close("trimmed curve " + w, pts(c, [0.25, 0.5, 0.75]), A([old_at(ref, x) for x in q]), loose)
        return c
    if op == "mirror":
        n0 = V(1, 2, -0.5) / np.linalg.norm(V(1, 2, -0.5))
        cen = V(0.3, -0.2, 1)
        n = crv.MirroredCurve(c, plane_normal=V(1, 2, -0.5), center=cen)
        want = old - 2 * ((old - cen) @ n0)[:, None] * n0
        R.close("mirrored curve " + w, pts(n, [0, 1]), want[[0, -1]], t)
        R.close("mirrored curve inside " + w, samp(n, 33), want, loose)
        return n
    if op == "rotate":
        ax = V(0.2, -1, 0.4)
        cen = V(1, 1, 0)
        n = crv.RotatedCurve(c, angle=1.1, axis=ax, center=cen)
        want = (old - cen) @ rv(1.1 * ax / np.linalg.norm(ax)).T + cen
        R.close("rotated curve " + w, pts(n, [0, 1]), want[[0, -1]], t)
        R.close("rotated curve inside " + w, samp(n, 33), want, loose)
        return n
    if op == "scale":
        T = GearTransform(center=V(1, -2, 0.5), orientation=rv([0.4, -0.3, 0.8]), scale=2.5, angle=-0.6)
        n = crv.TransformedCurve(T, c)
        want = 2.5 * old @ (rv([0.4, -0.3, 0.8]) @ Rz(-0.6)).T + V(1, -2, 0.5)
        R.close("transformed curve " + w, pts(n, [0, 1]), want[[0, -1]], 3 * t)
        R.close("transformed curve inside " + w, samp(n, 33), want, 3 * loose)
        R.close("length after scaling", float(n.length), 2.5 * L, 0.05 * L)
        return n
    if op == "append":
        q = old[-1] + V(0.7, 0.2, -0.4) * max(L, 0.5)
        n = crv.CurveChain(c, crv.LineCurve(old[-1], q))
        l2 = float(np.linalg.norm(q - old[-1]))
        R.close("length of the chain", float(n.length), L + l2, 1e-6 * sc)
        R.close("ends of the chain " + w, pts(n, [0, 1]), A([old[0], q]), t)
        k = L / (L + l2)
        ss = np.linspace(0, 0.97, 12)
        R.close("chain follows its first curve " + w, pts(n, ss * k), A([old_at(c, x) for x in ss]), loose)
        R.close("chain follows its second curve " + w, pts(n, k + (1 - k) * ss[1:]), old[-1] + ss[1:, None] * (q - old[-1]), 1e-6 * (sc + l2))
        R.true("chain is continuous " + w, bool(n.is_continuous) or chainy)
        return n
    if op in ("mul", "div"):
        if chainy:
            raise Skip()
        n = c * 2.0 if op == "mul" else c / 2.0
        f = 2.0 if op == "mul" else 0.5
        R.close("scaled ends " + w, pts(n, [0, 1]), f * old[[0, -1]], 2 * t)
        R.close("scaled curve " + w, samp(n, 33), f * old, 2 * loose)
        if op == "mul":
            R.close("scaled from the left " + w, samp(2.0 * c, 5), samp(n, 5), 1e-9 * sc)
        return n
    if op == "lintf":
        if not hasattr(c, "transform"):
            raise Skip()
        T = GearTransform(center=V(1, -2, 0.5), orientation=rv([0.4, -0.3, 0.8]), scale=2.5, angle=-0.6)
        n = c.transform(T)
        want = 2.5 * old @ (rv([0.4, -0.3, 0.8]) @ Rz(-0.6)).T + V(1, -2, 0.5)
        R.close("transform of a line or arc " + w, samp(n, 33), want, 3 * t)
        R.close("length after transform", float(n.length), 2.5 * L, 1e-6 * sc)
        R.close("transform leaves the curve " + w, samp(c, 33), old, 1e-12 * sc)
        return n
    if op == "tochain":
        n = crv.CurveChain(c)
        R.close("chain of one curve " + w, samp(n, 33), old, t)
        R.close("length of the chain", float(n.length), L, 1e-9 * sc)
        return n
    if op == "nurbs":
        n = crv.convert_curve_nurbezier(c, n_points=5, samp_ratio=2)
        R.close("nurbs ends " + w, pts(n, [0, 1]), old[[0, -1]], 1e-6 * sc)
        near(R, samp(n, 17), c, "nurbs lies on the curve " + w, 0.02 * L)
        R.close("conversion leaves the curve " + w, samp(c, 33), old, 1e-12 * sc)
        return n
    raise ValueError(op)


def old_at(c, s):
    return np.asarray(c(float(s)), float)


def near(R, pts, c, what, tol=None):
    dense = samp(c, 161)
    a, b = dense[:-1], dense[1:]
    ab = b - a
    den = np.maximum(np.sum(ab * ab, axis=1), 1e-300)
    worst = 0.0
    for p in pts:
        u = np.clip(np.sum((p - a) * ab, axis=1) / den, 0, 1)
        worst = max(worst, float(np.min(np.linalg.norm(a + u[:, None] * ab - p, axis=1))))
    R.le(what, worst, 2e-3 * float(c.length) if tol is None else tol)


def disturb(c):
    """change a curve (and what it is made of) in place"""
    for x in [c] + list(getattr(c, "curves", [])):
        y = getattr(x, "target_curve", None)
        if y is not None:
            y.reverse()
            y.set_end_on(0.5)
        for at, d in (("angle", 0.5), ("r", 1.0), ("rb", 1.0)):
            if at in getattr(x, "__dict__", {}):
                setattr(x, at, getattr(x, at) + d)
        if "points" in getattr(x, "__dict__", {}):
            x.points = x.points + 1.0
    c.reverse()
    c.set_start_on(0.4)


def CHECK(d):
    return dict(fillet=check_fillet, find=check_find, word=check_words, single=check_single, pairs=check_pairs, outside=check_outside, flags=check_flags, misc=lambda d: MISC[d["case"]](d))[d["k"]](d)


def check_words(d):
    R = Result()
    n = d["n"]
    for rest in itertools.product(OPS, repeat=n - 1):
        word = (d["first"],) + rest
        nn = len(R.fails)
        c = B[d["b"]]()
        try:
            for i, op in enumerate(word):
                c = step(R, c, op)
                R.op()
                geometry(R, c, "/".join(word[: i + 1])) if i == len(word) - 1 else None
        except Skip:
            if i == 0:
                return R
            continue
        if len(R.fails) > nn:
            R.fails[nn] = "word %s/%s: %s" % (d["b"], "/".join(word), R.fails[nn])
            if len(R.fails) >= 6:
                break
        R.state([d["b"], word])
    return R


def check_single(d):
    """base curve itself: length, spacing, derivative, natural parameter round trip, s outside"""
    R = Result()
    c = B[d["b"]]()
    L = geometry(R, c, "base")
    for rev in (0, 1):
        if rev:
            c.reverse()
        for s in (0.15, 0.5, 0.8):
            h = 1e-5
            want = (old_at(c, s + h) - old_at(c, s - h)) / (2 * h)
            R.close("first derivative", c.derivative(s), want, 1e-3 * L)
            R.close("forward derivative", c.derivative(s, direction=1), want, 3e-2 * L)
            R.close("backward derivative", c.derivative(s, direction=-1), want, 3e-2 * L)
            if d["b"] in ("line", "arc", "arcneg", "arcbig", "arc2p", "nurb"):
                h = 1e-3
                want = (old_at(c, s + h) - 2 * old_at(c, s) + old_at(c, s - h)) / h**2
                if d["b"] != "nurb":
                    R.close("second derivative", c.derivative(s, n=2, delta=1e-3), want, 1e-2 * L)
            if not is_chain(d["b"]):
                R.close("natural parameter round trip", c.t2s(c.s2t(s)), s, 1e-9)
        if not is_chain(d["b"]):
            R.close("natural parameter of the ends", [c.s2t(0.0), c.s2t(1.0)], [c.t_0, c.t_1], 1e-12)
            R.close("natural parameter round trip on arrays", c.t2s(c.s2t(np.linspace(-0.2, 1.3, 7))), np.linspace(-0.2, 1.3, 7), 1e-9)
        R.op(3)
    R.state(d)
    return R


def check_pairs(d):
    R = Result()
    for b in B:
        p, q = B[d["b"]](), B[b]()
        ps, qs = samp(p, 17), samp(q, 17)
        sc = 1 + max(np.abs(ps).max(), np.abs(qs).max())
        if not is_chain(d["b"]) and not is_chain(b):
            s, m = p + q, p - q
            R.close("sum ends", ev(s, [0, 1]), ps[[0, -1]] + qs[[0, -1]], 1e-9 * sc)
            R.close("difference ends", ev(m, [0, 1]), ps[[0, -1]] - qs[[0, -1]], 1e-9 * sc)
            # every point of the sum is p(u)+q(u) for some u
            u = np.linspace(0, 1, 201)
            near_set(R, samp(s, 9), samp(p, 201) + samp(q, 201), "points of a sum")
            near_set(R, samp(m, 9), samp(p, 201) - samp(q, 201), "points of a difference")
            R.op(2)
        # chain editing
        ch = crv.CurveChain(p, q)
        lp, lq = float(p.length), float(q.length)
        R.close("length of a chain", float(ch.length), lp + lq, 1e-9 * sc)
        k = lp / (lp + lq)
        R.close("chain maps s to its curves", ev(ch, [0.5 * k, k + 0.5 * (1 - k)]), A([old_at(p, 0.5), old_at(q, 0.5)]), 1e-6 * sc)
        x = crv.LineCurve(V(9, 9, 9), V(9, 9, 8))
        ch.insert(1, x)
        R.true("insert", ch.num_curves == 3 and ch[1] is x and len(ch) == 3)
        R.close("length after insert", float(ch.length), lp + lq + 1, 1e-9 * sc)
        del ch[0]
        R.true("delete removes the curve", ch.num_curves == 2 and ch[0] is x and [c is e for c, e in zip(ch, (x, q))] == [True, True])
        R.close("length after delete", float(ch.length), lq + 1, 1e-9 * sc)
        R.close("chain after delete", ev(ch, [0, 1]), A([V(9, 9, 9), qs[-1]]), 1e-9 * sc)
        ch.append(p)
        y = ch.pop(0)
        R.true("append and pop", y is x and ch.num_curves == 2 and ch[-1] is p)
        R.close("chain maps s to the curves left", ev(ch, [0.5 * lq / (lp + lq), (lq + 0.5 * lp) / (lp + lq)]), A([old_at(q, 0.5), old_at(p, 0.5)]), 1e-6 * sc)
        ch.extend([x])
        R.close("length after extend", float(ch.length), lp + lq + 1, 1e-9 * sc)
        fl = [c for c in crv.CurveChain(crv.CurveChain(p, q), x).get_curves()]
        want = []
        for c in (p, q, x):
            want += c.get_curves() if hasattr(c, "curves") else [c]
        R.true("flattened chain", len(fl) == len(want) and all(a is b_ for a, b_ in zip(fl, want)))
        # trimming a chain may keep the parts outside as inactive curves
        for s0, s1 in ((0.3 * k, k + 0.6 * (1 - k)), (0.2 * k, 0.7 * k), (k + 0.2 * (1 - k), k + 0.9 * (1 - k))):
            c1 = crv.CurveChain(p.copy(), q.copy())
            c2 = crv.CurveChain(p.copy(), q.copy())
            want = A([old_at(c1, s0), old_at(c1, s1)])
            c1.set_start_and_end_on(s0, s1)
            c2.set_start_and_end_on(s0, s1, preserve_inactive_curves=True)
            R.close("trimmed chain", ev(c1, [0, 1]), want, 1e-6 * sc)
            R.true("inactive curves are kept", c2.num_curves == 2 and c2.active_list == [s0 < k, s1 > k])
            R.close("trimmed chain with inactive curves", ev(c2, [0, 0.4, 1]), ev(c1, [0, 0.4, 1]), 1e-6 * sc)
            R.close("length of a trimmed chain", float(c2.length), (s1 - s0) * (lp + lq), 0.02 * (lp + lq))
            R.op(2)
        R.state([d["b"], b])
    return R


def near_set(R, pts, dense, what):
    L = np.sum(np.linalg.norm(np.diff(dense, axis=0), axis=1))
    worst = max(float(np.min(np.linalg.norm(dense - p, axis=1))) for p in pts)
    R.le(what, worst, 0.02 * L + 1e-9)


POSES = [(V(0, 0, 0), [0, 0, 0]), (V(1, -2, 3), [0.4, -1.1, 0.3]), (V(-1, 0, 2), [PI / 2, 0, 0])]


def check_fillet(d):
    """rounding the corner between two lines, or a line and an arc"""
    R = Result()
    cen, o = POSES[d["i"]]
    M = rv(o)
    an, r = d["an"] * DEG, d["r"]
    sg = -1 if d["rev"] else 1
    to = lambda v: cen + M @ V(*v)
    corner = V(0, 0, 0)
    a = V(-3, 0, 0)
    b = 3 * V(math.cos(PI - an), sg * math.sin(PI - an), 0)
    setback = r / math.tan(an / 2)
    lines = crv.CurveChain(crv.LineCurve(to(a), to(corner)), crv.LineCurve(to(corner), to(b)))
    for how in ("location", "index"):
        src = samp(lines, 9)
        ch = lines.fillet(r, 0.5) if how == "location" else lines.fillet_at_index(r, 0)
        R.op()
        R.close("fillet leaves the chain", samp(lines, 9), src, 1e-12)
        R.close("ends of the filleted chain", ev(ch, [0, 1]), A([to(a), to(b)]), 1e-6)
        R.true("filleted chain is continuous", max(np.linalg.norm(old_at(x, 1) - old_at(y, 0)) for x, y in zip(ch.curves, ch.curves[1:])) < 1e-6)
        arcs = [c for c in ch.get_curves() if isinstance(c, crv.ArcCurve)]
        R.true("one arc is inserted", len(arcs) == 1)
        if len(arcs) == 1:
            R.close("fillet radius", float(arcs[0].radius), r, 1e-5)
            R.close("fillet touches the lines", A([old_at(arcs[0], 0), old_at(arcs[0], 1)]), A([to(corner + a / 3 * setback), to(corner + b / 3 * setback)]), 1e-5)
            R.close("length of the filleted chain", float(ch.length), 6 - 2 * setback + r * (PI - an), 1e-4)
            c0 = corner + (a / 3 + b / 3) / np.linalg.norm(a / 3 + b / 3) * r / math.sin(an / 2)
            R.close("fillet stays on the inner side", np.asarray(arcs[0].center, float), to(c0), 1e-5)
    arc, t1, t2, sol = crv.calc_tangent_arc(lines[0], lines[1], r, start_locations=[1 - 0.3 * setback, 0.3 * setback])
    R.close("tangent arc touches the lines", A([old_at(arc, 0), old_at(arc, 1)]), A([to(a / 3 * setback), to(b / 3 * setback)]), 1e-5)
    R.close("tangent arc locations", [t1, t2], [1 - setback / 3, setback / 3], 1e-5)
    R.op()
    R.state(d)
    return R


def check_find(d):
    """searching points on a curve"""
    R = Result()
    cen, o = POSES[d["i"]]
    M = rv(o)
    base = B[d["b"]]()
    T = Transform(center=cen, orientation=M, scale=1.0)
    c = crv.TransformedCurve(T, base)
    L = float(c.length)
    for s in (0.2, 0.5, 0.77):
        p = old_at(c, s)
        tan = old_at(c, s + 1e-4) - old_at(c, s - 1e-4)
        tan /= np.linalg.norm(tan)
        sol = crv.find_curve_plane_intersect(c, plane_normal=tan, offset=p, guess=s + 0.04)
        q = old_at(c, float(np.ravel(sol.x)[0]))
        R.close("curve and plane meet", float(np.dot(q - p, tan)), 0.0, 1e-6 * (1 + L))
        R.le("nearby intersection is found", np.linalg.norm(q - p), 0.15 * L)
        side = np.cross(tan, V(0.3, 0.5, -0.8))
        side /= np.linalg.norm(side)
        w = 0.01 * L
        x = crv.find_curve_nearest_point(c, p + w * side, guesses=[s - 0.05, s + 0.05])
        dense = np.linalg.norm(samp(c, 801) - (p + w * side), axis=1).min()
        R.le("nearest point of the curve", np.linalg.norm(old_at(c, x) - (p + w * side)) - dense, 1e-4 * L)
        ln = crv.LineCurve(p - 0.4 * L * side, p + 0.6 * L * side)
        sol = crv.find_curve_intersect(c, ln, guess=[s + 0.02, 0.43], method=crv.IntersectMethod.MINDISTANCE)
        R.le("curves meet", np.linalg.norm(old_at(c, sol.x[0]) - old_at(ln, sol.x[1])), 2e-3 * L)
        R.close("curves meet where they cross", old_at(c, sol.x[0]), p, 0.02 * L)
        sol = crv.find_curve_intersect(c, ln, guess=[s + 0.02, 0.43])
        R.close("curves cross", old_at(c, sol.x[0]), p, 1e-5 * L)
        R.close("curves cross at the second parameter", old_at(ln, sol.x[1]), p, 1e-5 * L)
        sol = crv.find_curve_line_intersect(c, offset=p + 0.3 * L * side, line_direction=side, guess=s + 0.01)
        R.close("curve and line meet", old_at(c, float(np.ravel(sol.x)[0])), p, 1e-3 * L)
        R.op(5)
    R.state(d)
    return R


def check_outside(d):
    """continuing past the ends, and trimming to locations outside: the curve is continued at the same speed"""
    R = Result()
    for rev in (0, 1):
        c = B[d["b"]]()
        if rev:
            c.reverse()
        L = float(c.length)
        if is_chain(d["b"]):
            act = [x for x in c.curves if x.active]
            f, l = act[0], act[-1]
            R.close("chain continued before its start", ev(c, [-0.1, -0.02]), ev(f, [-0.1 * L / float(f.length), -0.02 * L / float(f.length)]), 1e-9 * (1 + L))
            R.close("chain continued after its end", ev(c, [1.1, 1.02]), ev(l, [1 + 0.1 * L / float(l.length), 1 + 0.02 * L / float(l.length)]), 1e-9 * (1 + L))
            R.state([d, rev])
            R.op()
            continue
        for s0, s1 in ((0.3, 0.7), (0.45, 0.55), (0.5, 0.8)):
            t = c.copy()
            t.set_start_and_end_on(s0, s1)
            # locations outside the trimmed part are locations of the whole curve
            for s in (-0.1, -0.01, 1.01, 1.1) if d["b"] in ("nurb", "plain") else (-0.5, -0.1, -0.01, 1.01, 1.2, 1.5):
                g = s0 + s * (s1 - s0)
                R.close("trimmed curve continued past its ends", old_at(t, s), old_at(c, g), 0.03 * L)
            arr = np.array([-0.2, 0.1, 0.5, 1.0, 1.15])
            R.close("evaluation on arrays past the ends", np.asarray(t(arr), float), ev(t, arr), 1e-9 * (1 + L))
            for s in (-0.2, 0.0, 0.3, 1.0, 1.2):
                R.close("natural parameter round trip past the ends", t.t2s(t.s2t(s)), s, 1e-9)
            R.close("natural parameter on arrays", t.s2t(arr), [t.s2t(float(x)) for x in arr], 1e-12)
            tt = np.array([t.s2t(float(x)) for x in arr])
            R.close("natural parameter back on arrays", t.t2s(tt), arr, 1e-9)
            # widening the trimmed curve again
            u = t.copy()
            u.set_start_and_end_on(-0.2, 1.3)
            R.close("ends of the widened curve", ev(u, [0, 1]), ev(t, [-0.2, 1.3]), 1e-9 * (1 + L))
            R.close("length of the widened curve", float(u.length), 1.5 * float(t.length), 0.06 * L)
            R.op(3)
        R.state([d, rev])
    return R


def check_flags(d):
    """a curve marked inactive keeps that mark through every operation; copies and wrappers carry it"""
    R = Result()
    for on in (True, False):
        c = B[d["b"]]()
        c.active = on
        R.true("flag is kept by copying", c.copy().active == on)
        R.true("flag is kept by reversing", B_active(d["b"], on).reverse().active == on)
        if not is_chain(d["b"]):
            R.true("flag is kept by scaling", (c * 2.0).active == on and (2.0 * c).active == on and (c / 2.0).active == on)
            for o in (True, False):
                q = crv.LineCurve(V(0, 0, 0), V(1, 0, 0), active=o)
                R.true("flag of a sum", (c + q).active == (on and o) and (c - q).active == (on and o))
            if hasattr(c, "transform"):
                R.true("flag is kept by transforming", c.transform(Transform(center=V(1, 2, 3))).active == on)
            ch = crv.CurveChain(c, crv.LineCurve(V(0, 0, 0), V(1, 0, 0)))
            R.true("flags of the chain", ch.active_list == [on, True] and ch.active)
            R.true("first and last active curve", ch.idx_active_min == (0 if on else 1) and ch.idx_active_max == 1)
            ch2 = crv.CurveChain(crv.LineCurve(V(0, 0, 0), V(1, 0, 0)), c)
            R.true("last active curve", ch2.idx_active_max == (1 if on else 0) and ch2.idx_active_min == 0)
            R.close("length of a chain counts its active curves", float(ch2.length), 1.0 + (float(c.length) if on else 0.0), 1e-9 * (1 + float(c.length)))
            ch2.del_inactive_curves()
            R.true("inactive curves are removed", ch2.num_curves == (2 if on else 1))
            R.true("a chain of inactive curves is inactive", crv.CurveChain(c).active == on)
            R.true("an inactive chain", crv.CurveChain(c, active=False).active is False)
        w = crv.TransformedCurve(Transform(center=V(1, 2, 3)), c)
        R.true("flag is kept by moving", bool(w.active) == on)
        R.true("flag is kept by mirroring and turning", bool(crv.MirroredCurve(c, V(1, 0, 0)).active) == on and bool(crv.RotatedCurve(c, 0.3).active) == on)
        R.op(6)
        R.state([d, on])
    return R


def B_active(n, on):
    c = B[n]()
    c.active = on
    return c


def pose(d):
    cen, o = POSES[d["i"]]
    M = rv(o)
    return (lambda v: cen + M @ np.asarray(v, float)), M


def misc_arcs(d):
    """all ways of making an arc"""
    R = Result()
    to, M = pose(d)
    ax = M @ V(0, 0, 1)
    for an in (0.3, 1.2, 2.0, 3.0):
        for r in (0.5, 3.0):
            for a0 in (0.0, 1.1, -2.5):
                e = lambda a: to(V(r * math.cos(a0 + a), r * math.sin(a0 + a), 0))
                want = A([e(an * s) for s in S])
                c = crv.ArcCurve.from_2_point_center(e(0), e(an), to(V(0, 0, 0)))
                R.close("arc from its ends and centre", samp(c), want, 1e-7 * (1 + r))
                R.close("angle of the arc", float(c.angle), an, 1e-7)
                R.close("axis of the arc", np.asarray(c.axis, float), ax, 1e-6)
                c2 = crv.ArcCurve.from_2_point_center(e(0), e(an), to(V(0, 0, 0)), revolutions=1)
                R.close("arc of more than one revolution", samp(c2), A([e((an + 2 * PI) * s) for s in S]), 1e-6 * (1 + r))
                for sgn in (1, -1):
                    for k in (1, -1):
                        # positive curvature turns left seen from the tip of the axis
                        c = crv.ArcCurve.from_2_point_curvature(e(0), e(an), curvature=sgn / r, axis=k * ax)
                        R.close("arc from its ends and curvature: ends", ev(c, [0, 1]), A([e(0), e(an)]), 1e-6 * (1 + r))
                        R.close("arc from its ends and curvature: radius", float(c.radius), r, 1e-6 * (1 + r))
                        mid = (e(0) + e(an)) / 2
                        cen0 = to(V(0, 0, 0))
                        cen = cen0 if sgn * k > 0 else 2 * mid - cen0
                        R.close("arc from its ends and curvature: centre", np.asarray(c.center, float), cen, 1e-5 * (1 + r))
                for k in (1, -1):
                    c = crv.ArcCurve.from_point_center_angle(e(0), to(V(0, 0, 0)), k * an, ax)
                    R.close("arc from its start, centre and angle", samp(c), A([e(k * an * s) for s in S]), 1e-7 * (1 + r))
                    c = crv.ArcCurve.from_point_center_angle(e(0), to(V(0, 0, 0)), k * an, -ax)
                    R.close("arc about the opposite axis", samp(c), A([e(-k * an * s) for s in S]), 1e-7 * (1 + r))
                cen = V(1, 2, -1)
                c = crv.ArcCurve.from_radius_center_angle(r, cen, a0, a0 + an, V(0, 0, 1))
                R.close("arc from radius, centre and angles", samp(c), cen + A([[r * math.cos(a0 + an * s), r * math.sin(a0 + an * s), 0] for s in S]), 1e-7 * (1 + r))
                c = crv.ArcCurve.from_radius_center_angle(r, cen, a0, a0 + an, ax)
                z0 = samp(crv.ArcCurve.from_radius_center_angle(r, cen, 0.0, an, ax))
                R.close("arc about an axis: radius", np.linalg.norm(samp(c) - cen, axis=1), np.full(9, r), 1e-7 * (1 + r))
                R.close("arc about an axis: plane", (samp(c) - cen) @ ax, np.zeros(9), 1e-7 * (1 + r))
                R.close("arc about an axis: start angle and sense", samp(c), (z0 - cen) @ rv(a0 * ax).T + cen, 1e-6 * (1 + r))
                R.close("arc about an axis: angle", old_at(c, 1.0), (old_at(c, 0.0) - cen) @ rv(an * ax).T + cen, 1e-6 * (1 + r))
                # properties and setters
                c = crv.ArcCurve.from_2_point_center(e(0), e(an), to(V(0, 0, 0)))
                R.close("properties of an arc", np.concatenate([c.p0, c.p1, [c.curvature, c.r, c.length]]), np.concatenate([e(0), e(an), [1 / r, r, r * an]]), 1e-6 * (1 + r))
                again = crv.ArcCurve(radius=c.radius, angle=c.angle, center=c.center, yaw=c.yaw, pitch=c.pitch, roll=c.roll)
                R.close("arc from its own angles", samp(again), want, 1e-6 * (1 + r))
                again = crv.ArcCurve(radius=1.0, angle=an)
                again.rotmat = c.rotmat
                again.radius = r
                again.center = c.center
                R.close("arc from its own orientation", samp(again), want, 1e-6 * (1 + r))
                again.update_lengths()
                R.close("length after changing an arc", float(again.length), r * an, 1e-9 * (1 + r))
                third = crv.ArcCurve(radius=r, angle=an, center=c.center, yaw=again.yaw, pitch=again.pitch, roll=again.roll)
                R.close("angles follow the orientation", samp(third), want, 1e-6 * (1 + r))
                R.close("rotation angles", again.gen_rotation_angles(), [again.yaw, again.pitch, again.roll], 1e-7)
                # exact conversions
                n = crv.convert_curve_nurbezier(c)
                R.close("arc below half a turn is converted exactly", np.linalg.norm(samp(n, 17) - to(V(0, 0, 0)), axis=1), np.full(17, r), 1e-7 * (1 + r))
                R.close("ends of the converted arc", ev(n, [0, 1]), want[[0, -1]], 1e-7 * (1 + r))
                R.true("converted arc has three points", n.n_points == 3)
                R.op(8)
                R.state([d, an, r, a0])
    return R


def misc_chain(d):
    """continuity, closedness, gaps, portions, partial trimming with inactive parts"""
    R = Result()
    to, M = pose(d)
    sq = [V(0, 0, 0), V(2, 0, 0), V(2, 1, 0), V(0, 1, 0)]
    P = [to(v) for v in sq]
    ln = lambda a, b, on=True: crv.LineCurve(a, b, active=on)
    for gap in range(-1, 4):
        for off in range(-1, 4):
            cs = []
            for k in range(4):
                a, b = P[k], P[(k + 1) % 4]
                if k == gap:
                    b = b + M @ V(0, 0, 0.3)
                cs.append(ln(a, b, k != off))
            ch = crv.CurveChain(*cs)
            want = [k == off or (k + 1) % 4 == off or k != gap for k in range(4)]
            R.true("continuity list gap=%d off=%d" % (gap, off), [bool(x) for x in ch.continuity_list] == want)
            R.true("continuous chain gap=%d off=%d" % (gap, off), bool(ch.is_continuous) == all(want[:3]))
            closed = gap == -1 and off in (-1, 1, 2)
            if off == -1:
                R.true("closed chain gap=%d" % gap, bool(ch.is_closed) == closed)
            fl = ch.get_curves(lerp_inactive=True)
            if off >= 0 and gap != off:
                prev = cs[(off - 1) % 4]
                nxt = cs[(off + 1) % 4]
                R.close("line in place of an inactive curve", ev(fl[off], [0, 1]), A([old_at(prev, 1), old_at(nxt, 0)]), 1e-9)
                R.true("line in place of an inactive curve stays inactive", not fl[off].active and len(fl) == 4)
            R.op(2)
            R.state([d, gap, off])
    ch = crv.CurveChain(*[ln(P[k], P[(k + 1) % 4]) for k in range(4)])
    lens = A([2, 1, 2, 1.0])
    R.close("portions", ch.get_length_portions(), np.concatenate([[0], np.cumsum(lens) / 6]), 1e-12)
    R.close("lengths", ch.length_array, lens, 1e-9)
    for k in range(4):
        R.close("range of a curve", ch.get_t_for_index(k), [np.sum(lens[:k]) / 6, np.sum(lens[: k + 1]) / 6], 1e-12)
        for u in (0.1, 0.5, 0.9):
            s = (np.sum(lens[:k]) + u * lens[k]) / 6
            i, v = ch.get_s_index(s)
            R.true("curve at a location", i == k and abs(v - u) < 1e-9)
            for keep in (False, True):
                for how in ("start", "end", "cut"):
                    c = crv.CurveChain(*[ln(P[m], P[(m + 1) % 4]) for m in range(4)])
                    if how == "start":
                        parts = [(c, k, 4, s, 1.0)]
                        c.set_start_on(s, keep)
                    elif how == "end":
                        parts = [(c, 0, k + 1, 0.0, s)]
                        c.set_end_on(s, keep)
                    else:
                        a, b = c.cut(s, keep)
                        parts = [(a, 0, k + 1, 0.0, s), (b, k, 4, s, 1.0)]
                        R.true("cutting keeps the chain", c.num_curves == 4 and all(c.active_list))
                    for x, lo, hi, s0, s1 in parts:
                        R.true("parts kept after trimming", x.num_curves == (4 if keep else hi - lo) and x.active_list == ([lo <= m < hi for m in range(4)] if keep else [True] * (hi - lo)))
                        R.close("length after trimming a chain", float(x.length), 6 * (s1 - s0), 1e-9)
                        R.close("points after trimming a chain", samp(x, 7), ev(ch, np.linspace(s0, s1, 7)), 1e-6)
                    R.op()
                    R.state([d, k, u, keep, how])
    ch.clear()
    R.true("cleared chain", len(ch) == 0)
    two = crv.CurveChain(ln(P[0], P[1]), ln(P[1], P[2]))
    two[1] = ln(P[1], P[3])
    R.close("replacing a curve", ev(two, [1.0]), A([P[3]]), 1e-9)
    last = two.pop()
    R.true("pop takes the last curve", two.num_curves == 1 and np.allclose(old_at(last, 1), P[3]))
    R.close("length after pop", float(two.length), 2.0, 1e-9)
    for n_turn in (0.5, 0.9, 1.0):
        arc = crv.ArcCurve(radius=2.0, angle=2 * PI * n_turn, center=to(V(0, 0, 0)))
        R.true("closed arc", bool(arc.is_closed) == (n_turn == 1.0))
    return R


def misc_nurbs(d):
    """rational pieces kept as one array of points"""
    R = Result()
    to, M = pose(d)
    ctrl = A([to(V(x, y, 0.2 * x)) for x, y in ((0, 0), (1, 1), (2, 0), (3, -1), (4, 0), (5, 2), (6, 1))])
    wts = A([1, 0.7, 1.2, 0.9, 1.1, 1.3, 1.0])
    for knots in ([0, 6], [0, 2, 6], [0, 3, 6], [0, 1, 3, 6], [0, 2, 4, 6], [0, 3, 4, 6]):
        for w in (None, wts):
            c = crv.NURBSCurve.from_points(ctrl.copy(), knots, None if w is None else w.copy())
            ww = np.ones(7) if w is None else w
            R.true("pieces", c.num_curves == len(knots) - 1)
            R.close("points back", c.points, ctrl, 1e-12)
            R.close("weights back", c.weights, ww, 1e-12)
            R.close("knots back", c.knots, knots, 0)
            R.true("number of points", c.n_points == 7 + len(knots) - 2)
            for k in range(len(knots) - 1):
                ref = crv.NurbCurve(ctrl[knots[k] : knots[k + 1] + 1].copy(), ww[knots[k] : knots[k + 1] + 1].copy())
                R.close("piece", samp(c[k]), samp(ref), 1e-9)
            R.true("continuous pieces", bool(c.is_continuous) and not bool(c.is_closed))
            new = ctrl + A([0.1 * np.sin(3 * i + A([0, 1, 2])) for i in range(7)])
            c.points = new.copy()
            R.close("points after setting", c.points, new, 1e-12)
            c.update_lengths()
            ref = crv.NURBSCurve.from_points(new.copy(), knots, ww.copy())
            R.close("curve after setting the points", samp(c, 17), samp(ref, 17), 1e-9)
            T = GearTransform(center=V(1, -2, 0.5), orientation=rv([0.4, -0.3, 0.8]), scale=2.5, angle=-0.6)
            q = samp(c, 17)
            L0 = float(c.length)
            c.apply_transform(T)
            R.close("moved pieces", samp(c, 17), 2.5 * q @ (rv([0.4, -0.3, 0.8]) @ Rz(-0.6)).T + V(1, -2, 0.5), 1e-6)
            R.close("length of moved pieces", float(c.length), 2.5 * L0, 1e-6)
            # joining pieces that do not quite meet
            for eps in (0.1, 1e-3):
                ps = [crv.NurbCurve(ctrl[knots[k] : knots[k + 1] + 1].copy(), ww[knots[k] : knots[k + 1] + 1].copy()) for k in range(len(knots) - 1)]
                for x in ps[1:]:
                    x.points[0] = x.points[0] + eps * V(1, 0.5, -0.3)
                    x.weights[0] = x.weights[0] + eps
                j = crv.NURBSCurve(*ps)
                R.true("gap is seen", bool(j.is_continuous) == (len(ps) == 1))
                j.enforce_continuity()
                R.true("joined pieces are continuous", bool(j.is_continuous))
                for k, kn in enumerate(knots[1:-1]):
                    R.close("joined halfway", j[k].points[-1], ctrl[kn] + eps / 2 * V(1, 0.5, -0.3), 1e-12)
                    R.close("joined halfway: next piece", j[k + 1].points[0], ctrl[kn] + eps / 2 * V(1, 0.5, -0.3), 1e-12)
                    R.close("joined weights", [j[k].weights[-1], j[k + 1].weights[0]], [ww[kn] + eps / 2] * 2, 1e-12)
                R.close("ends of the joined curve", A([j[0].points[0], j[-1].points[-1]]), ctrl[[0, -1]], 1e-12)
            flat = crv.NURBSCurve.from_curve_chain(crv.CurveChain(crv.NurbCurve(ctrl[:4].copy(), ww[:4].copy()), crv.NurbCurve(ctrl[3:].copy(), ww[3:].copy())))
            R.close("pieces from a chain", flat.points, ctrl, 1e-12)
            R.op(4)
            R.state([d, knots, w is None])
    line = crv.convert_curve_nurbezier(crv.LineCurve(to(V(0, 0, 0)), to(V(3, 1, 2))))
    R.close("converted line", samp(line), A([to(V(3, 1, 2) * s) for s in S]), 1e-9)
    R.true("converted line has two points", line.n_points == 2)
    ch = crv.CurveChain(crv.LineCurve(ctrl[0], ctrl[1]), crv.LineCurve(ctrl[1], ctrl[1], active=False), crv.LineCurve(ctrl[1], ctrl[2]))
    R.true("inactive curves are left out of the conversion", crv.convert_curve_nurbezier(ch).num_curves == 2)
    k3 = crv.convert_curve_nurbezier(ch, skip_inactive=False)
    R.true("inactive curves are kept when asked", k3.num_curves == 3 and k3.active_list == [True, False, True])
    return R


def misc_diff(d):
    """derivatives of every order and direction on curves with known derivatives"""
    R = Result()
    to, M = pose(d)
    for an in (1.0, 2.5, -1.5):
        for r in (1.0, 3.0):
            c = crv.ArcCurve(radius=r, angle=an, center=to(V(0, 0, 0)))
            for s in (0.2, 0.5, 0.9):
                for n in (1, 2, 3):
                    ph = an * s + n * PI / 2 * 1.0
                    want = r * an**n * V(math.cos(ph), math.sin(ph), 0)
                    for direction in (0, 1, -1):
                        de = 1e-3 if n > 1 else 1e-5
                        tol = (r * abs(an) ** (n + 1) + 1) * (n * de * 2 if direction else 1e-4 if n < 3 else 1e-3) + 1e-5
                        got = c.derivative(s, direction=direction, n=n, delta=de)
                        R.close("derivative of order %d, direction %d" % (n, direction), got, want, tol)
                        if direction:
                            # one sided differences look to one side only
                            h = 0.05
                            g = c.derivative(s, direction=direction, n=1, delta=h)
                            q = (old_at(c, s + h) - old_at(c, s)) / h if direction > 0 else (old_at(c, s) - old_at(c, s - h)) / h
                            R.close("one sided derivative", g, q, 1e-9 * (1 + r))
                R.op(9)
            R.state([d, an, r])
    # corner: one sided derivatives of a chain see one side each
    ch = crv.CurveChain(crv.LineCurve(to(V(0, 0, 0)), to(V(1, 0, 0))), crv.LineCurve(to(V(1, 0, 0)), to(V(1, 1, 0))))
    R.close("derivative before a corner", ch.derivative(0.5, direction=-1), M @ V(2, 0, 0), 1e-4)
    R.close("derivative after a corner", ch.derivative(0.5, direction=1), M @ V(0, 2, 0), 1e-4)
    # search helpers with the other method
    c = crv.ArcCurve(radius=2.0, angle=2.5, center=V(0, 0, 0))
    for s in (0.2, 0.5, 0.8):
        p = old_at(c, s)
        tan = V(-p[1], p[0], 0) / 2
        x = crv.find_curve_plane_intersect(c, plane_normal=tan, offset=p, guess=s + 0.05, method=crv.IntersectMethod.MINDISTANCE).x
        R.close("plane met by minimising", float(np.ravel(x)[0]), s, 1e-3)
        R.op()
    R.state(d)
    return R


MISC = dict(arcs=misc_arcs, chain=misc_chain, nurbs=misc_nurbs, diff=misc_diff)
