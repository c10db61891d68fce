"""C16 generating functions: involutes, cycloids, octoids, splines and coordinate helpers fulfil their
mathematical definition for every parameter."""
import itertools
from mc.geo import *
from mc.engine import Result
import gggears as ggs
import gggears.function_generators as fg
import gggears.curve as crv
from math import comb

RULE = ("state = (function, parameter vector, evaluation point); transition = one evaluation of the real function; oracle = the definition: a rolling "
        "body does not slip at its contact and keeps its shape, unwound length equals rolled length, Bernstein sums and their exact derivatives, inverse coordinate maps")
BOUNDS = {
    "quick": "all combinations of small alphabets for every argument of every public generating function; splines with 1..7 control points in 1..3 dimensions",
    "thorough": "denser alphabets (about 6 times the executions)",
}
ASSUMPTIONS = ["abs(C)*r < 1 as documented; octoid offset vectors (undocumented) and the legacy involute_func are outside the domain"]
E1 = np.eye(3)


def ITEMS(tier):
    q = tier == "quick"
    rs = [0.4, 1.0, 7.5] if q else [0.1, 0.4, 1.0, 3.3, 7.5, 40.0]
    an = [0.0, -1.3, 2.9] if q else [0.0, -1.3, 0.4, 2.9, 7.0]
    zo = [0.0, -2.5] if q else [0.0, -2.5, 10.0]
    rel = [0.0, 0.3, 0.85, -0.3, -0.85] if q else [0.0, 1e-4, 0.05, 0.3, 0.6, 0.85, 0.999, -1e-4, -0.3, -0.6, -0.85]
    for r, a, z in itertools.product(rs, an, zo):
        yield dict(k="invc", r=r, a=a, z=z)
        for c in rel:
            yield dict(k="invs", r=r, a=a, z=z, C=c / r)
        for rc in ([0.25, 0.5, 1.7, -0.2, -0.5] if q else [0.05, 0.25, 0.5, 1.0, 1.7, -0.2, -0.35, -0.5]):
            yield dict(k="cycc", r=r, a=a, z=z, rc=rc * r)
            for c in rel:
                if abs(c * rc) < 0.95:
                    yield dict(k="cycs", r=r, a=a, z=z, rc=rc * r, C=c / r)
        for c in rel:
            if c > 0:
                for al in (15, 20, 35):
                    yield dict(k="oct", r=r, a=a, z=z, C=c / r, al=al)
        yield dict(k="cls", r=r, a=a, z=z)
    for n in range(1, 8 if q else 11):
        for dim in (1, 2, 3):
            for w in range(3 if q else 8):
                yield dict(k="bez", n=n, dim=dim, w=w)
    for n, m in itertools.product((2, 3, 4), (2, 3, 5)):
        yield dict(k="surf", n=n, m=m)
    for h in ([5, 40, 90, 130, 170] if q else range(5, 180, 5)):
        for i in range(4):
            yield dict(k="arc", an=h, i=i)
    for i in range(4):
        yield dict(k="coord", i=i)
        for b in ("line", "arc", "arc3", "inv", "sph", "cyc"):
            for n in (3, 4, 5, 6):
                yield dict(k="fit", b=b, n=n, i=i)


PO = [(np.eye(3), V(0, 0, 0)), (rv([0.4, -1.1, 0.3]), V(4.0, -7.0, 2.5)), (rv([PI, 0, 0]), V(0, 0, 5.0)), (rv([0, PI / 2, 0]), V(-1.0, 2.0, 0.0))]


def CHECK(d):
    return globals()["check_" + d["k"]](d)


def num(f, t, h=1e-4):
    return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)


def body(f, t):
    """(origin, frame) of the rolling body carrying the generating point"""
    p = np.asarray(f(t, np.zeros(3)), float)
    E = np.column_stack([np.asarray(f(t, e), float) - p for e in E1])
    return p, E


def rolling(R, f, t, Q, sc, name):
    p, E = body(f, t)
    R.op(4)
    R.close("%s: offsets keep their length and angles" % name, E.T @ E, E1, 1e-9)
    R.true("%s: offset frame is right handed" % name, np.linalg.det(E) > 0)
    dp = num(lambda s: body(f, s)[0], t)
    dE = num(lambda s: body(f, s)[1], t)
    R.close("%s: rolls without slipping" % name, dp + dE @ E.T @ (Q - p), np.zeros(3), 3e-7 * sc)
    return p, E, dp, dE


TS = [-1.1, -0.3, 0.0, 0.7, 1.9]


def er(th):
    return V(math.cos(th), math.sin(th), 0)


def et(th):
    return V(-math.sin(th), math.cos(th), 0)


def check_cls(d):
    """the curve classes draw the generating functions with all their arguments"""
    R = Result()
    r, a, z = d["r"], d["a"], d["z"]
    for vo in (V(0, 0, 0), V(0.3, -0.2, 0.1) * r):
        for c in (0.3 / r, -0.6 / r):
            L = [
                ("InvoluteCurve", crv.InvoluteCurve, dict(r=r), lambda t: fg.involute_circle(t, r=r, angle=a, v_offs=vo, z_offs=z), None),
                ("SphericalInvoluteCurve", crv.SphericalInvoluteCurve, dict(r=r, c_sphere=c), lambda t: fg.involute_sphere(t, r=r, C=c, angle=a, v_offs=vo, z_offs=z), c),
                ("CycloidCurve", crv.CycloidCurve, dict(rb=r, rc=0.4 * r), lambda t: fg.cycloid_circle(t, rb=r, rc=0.4 * r, angle=a, v_offs=vo, z_offs=z), None),
                ("CycloidConicCurve", crv.CycloidConicCurve, dict(rb=r, rc=0.4 * r, C=c), lambda t: fg.cycloid_cone(t, rb=r, rc=0.4 * r, C=c, angle=a, v_offs=vo, z_offs=z), None),
            ]
            if c > 0 and not vo.any():
                L.append(("OctoidCurve", crv.OctoidCurve, dict(r=r, c_sphere=c, alpha=0.4), lambda t: fg.octoid(t, base_rad=r, sphere_rad=1 / c, alpha=0.4, angle=a, v_offs=vo, z_offs=z), c))
            for n, cls, kw, f, cc in L:
                for t0, t1 in ((0.05, 0.6), (0.7, 0.2), (-0.1, -0.5)):
                    g = cls(t0=t0, t1=t1, angle=a, v_offs=vo, z_offs=z, **kw)
                    R.close(n + " ends", np.array([g(0.0), g(1.0)]), np.array([f(t0), f(t1)]), 1e-9 * (1 + r + abs(z)))
                    R.op(3)
                    if cc and not vo.any():
                        R.close(n + " lies on its sphere", np.linalg.norm(np.array([g(s) for s in (0.0, 0.4, 1.0)]) - g.center_sphere, axis=1), np.full(3, abs(1 / cc)), 1e-9 * (1 + r + abs(z)))
                        R.close(n + " radii", [g.R, g.base_radius], [1 / cc, r], 1e-12 * (1 + r))
    R.state(d)
    return R


def check_invc(d):
    R = Result()
    r, a, z = d["r"], d["a"], d["z"]
    f = lambda t, v: fg.involute_circle(t, r=r, angle=a, v_offs=v, z_offs=z)
    c = crv.InvoluteCurve(r=r, t0=0.0, t1=1.0, angle=a, z_offs=z)
    for t in TS:
        Q = r * er(t + a) + V(0, 0, z)
        p, E, dp, dE = rolling(R, f, t, Q, r, "involute")
        R.close("unwound string is tangent and as long as the arc", p, Q - r * t * et(t + a), 1e-9 * r + 1e-12)
        R.close("the string touches the base circle: frame", E[:, 0], er(t + a), 1e-9)
        if 0 <= t <= 1:
            R.close("curve object", c.function(t), p, 1e-12 * (1 + r))
        R.state([d, t])
    R.close("starts on the base circle", f(0.0, np.zeros(3)), r * er(a) + V(0, 0, z), 1e-12 * (1 + r))
    return R


def check_invs(d):
    R = Result()
    r, a, z, C = d["r"], d["a"], d["z"], d["C"]
    f = lambda t, v: fg.involute_sphere(t, r=r, C=C, angle=a, v_offs=v, z_offs=z)
    if C == 0:
        for t in TS:
            for v in (np.zeros(3), V(0.2, -0.1, 0.3)):
                R.close("no curvature: plane involute", f(t, v), fg.involute_circle(t, r=r, angle=a, v_offs=v, z_offs=z), 1e-12 * (1 + r))
                near = fg.involute_sphere(t, r=r, C=1e-5 / r, angle=a, v_offs=v, z_offs=z)
                near2 = fg.involute_sphere(t, r=r, C=-1e-5 / r, angle=a, v_offs=v, z_offs=z)
                R.close("little curvature: nearly the plane involute", near, f(t, v), 1e-3 * (r + 1))
                R.close("little negative curvature: nearly the plane involute", near2, f(t, v), 1e-3 * (r + 1))
                R.op(4)
            R.state([d, t])
        return R
    RR = 1 / abs(C)
    cen = V(0, 0, math.copysign(math.sqrt(RR * RR - r * r), C) + z)
    cv = crv.SphericalInvoluteCurve(r=r, t0=0.0, t1=1.0, angle=a, c_sphere=C, z_offs=z)
    R.close("centre of the sphere", cv.center, cen, 1e-9 * RR)
    for t in TS:
        Q = r * er(t + a) + V(0, 0, z)
        p, E, dp, dE = rolling(R, f, t, Q, RR, "spherical involute")
        phi = r * t / RR
        R.close("unwound great circle is tangent and as long as the arc", p, cen + math.cos(phi) * (Q - cen) - RR * math.sin(phi) * et(t + a), 1e-9 * RR)
        R.close("centre is fixed in the rolling plane", dp + dE @ E.T @ (cen - p), np.zeros(3), 3e-7 * RR + 1e-11 * RR * RR)
        if 0 <= t <= 1:
            R.close("curve object", cv.function(t), p, 1e-12 * (1 + RR))
        R.state([d, t])
    R.close("starts on the base circle", f(0.0, np.zeros(3)), r * er(a) + V(0, 0, z), 1e-9 * RR)
    return R


def check_cycc(d):
    R = Result()
    r, a, z, rc = d["r"], d["a"], d["z"], d["rc"]
    f = lambda t, v: fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=v, z_offs=z)
    c = crv.CycloidCurve(rb=r, rc=rc, t0=0.0, t1=1.0, angle=a, z_offs=z)
    for t in TS:
        Q = r * er(t + a) + V(0, 0, z)
        p, E, dp, dE = rolling(R, f, t, Q, r + abs(r * r / rc), "cycloid")
        cen = (r + rc) * er(t + a) + V(0, 0, z)
        R.close("point stays on the rolling circle", np.linalg.norm(p - cen), abs(rc), 1e-9 * (r + abs(rc)))
        # rolled arc on the small circle equals the arc on the base circle
        u, w = (p - cen) / rc, (Q - cen) / rc
        ang = math.atan2(np.cross(w, u)[2], np.dot(w, u))
        R.close("rolled arcs are equal", math.sin((ang - t * r / rc) / 2), 0.0, 1e-9)
        if 0 <= t <= 1:
            R.close("curve object", c.function(t), p, 1e-12 * (1 + r + abs(rc)))
        R.state([d, t])
    R.close("starts on the base circle", f(0.0, np.zeros(3)), r * er(a) + V(0, 0, z), 1e-9 * r)
    return R


def check_cycs(d):
    R = Result()
    r, a, z, rc, C = d["r"], d["a"], d["z"], d["rc"], d["C"]
    f = lambda t, v: fg.cycloid_cone(t, rb=r, rc=rc, C=C, angle=a, v_offs=v, z_offs=z)
    if C == 0:
        for t in TS:
            for v in (np.zeros(3), V(0.2, -0.1, 0.3)):
                R.close("no curvature: plane cycloid", f(t, v), fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=v, z_offs=z), 1e-12 * (1 + r + abs(rc)))
                near = fg.cycloid_cone(t, rb=r, rc=rc, C=1e-5 / r, angle=a, v_offs=v, z_offs=z)
                near2 = fg.cycloid_cone(t, rb=r, rc=rc, C=-1e-5 / r, angle=a, v_offs=v, z_offs=z)
                R.close("little curvature: nearly the plane cycloid", near, f(t, v), 1e-3 * (r + 1))
                R.close("little negative curvature: nearly the plane cycloid", near2, f(t, v), 1e-3 * (r + 1))
                R.op(4)
            R.state([d, t])
        return R
    RR = 1 / abs(C)
    g1, g2 = math.asin(r / RR), math.asin(rc / RR)
    s = math.copysign(1, C)
    cen = V(0, 0, s * math.sqrt(RR * RR - r * r) + z)
    c = crv.CycloidConicCurve(rb=r, rc=rc, t0=0.0, t1=1.0, angle=a, C=C, z_offs=z)
    for t in TS:
        Q = r * er(t + a) + V(0, 0, z)
        p, E, dp, dE = rolling(R, f, t, Q, RR + abs(r * r / rc), "conical cycloid")
        R.close("point stays on the sphere", np.linalg.norm(p - cen), RR, 1e-8 * RR)
        ax = math.sin(g1 + g2) * er(t + a) - s * math.cos(g1 + g2) * OUT3
        R.close("point stays on the rolling cone", np.dot(p - cen, ax), RR * math.cos(g2), 1e-8 * RR)
        R.close("centre is fixed in the rolling cone", dp + dE @ E.T @ (cen - p), np.zeros(3), 3e-7 * (RR + abs(r * RR / rc)) + 1e-11 * RR * RR)
        if 0 <= t <= 1:
            R.close("curve object", c.function(t), p, 1e-12 * (1 + RR))
        R.state([d, t])
    R.close("starts on the base circle", f(0.0, np.zeros(3)), r * er(a) + V(0, 0, z), 1e-9 * RR)
    return R


OUT3 = V(0, 0, 1)


def check_oct(d):
    """octoid: the flank generated by the plane flank of a crown gear"""
    R = Result()
    r, a, z, C, al = d["r"], d["a"], d["z"], d["C"], d["al"] * DEG
    RR = 1 / C
    beta = math.asin(r / RR)
    cen = V(0, 0, math.sqrt(RR * RR - r * r) + z)
    f = lambda t: np.asarray(fg.octoid(t, base_rad=r, sphere_rad=RR, alpha=al, angle=a, z_offs=z), float)
    cv = crv.OctoidCurve(r=r, t0=0.0, t1=1.0, angle=a, c_sphere=C, alpha=al, z_offs=z)
    R.close("centre of the sphere", cv.center, cen, 1e-9 * RR)
    R.close("starts on the pitch circle", f(0.0), r * er(a) + V(0, 0, z), 1e-9 * RR)
    normals = []
    for t in (-0.6, -0.25, 0.2, 0.45, 0.8):
        R.op()
        p = f(t)
        R.close("point lies on the sphere", np.linalg.norm(p - cen), RR, 1e-9 * RR)
        Q = r * er(t + a) + V(0, 0, z)
        T = num(f, t)
        R.close("normal passes through the pitch point", np.dot(T, Q - cen) / RR / (np.linalg.norm(T) + 1e-300), 0.0, 1e-6)
        if 0 <= t <= 1:
            R.close("curve object", cv.function(t), p, 1e-12 * (1 + RR))
        # contact point seen from the crown gear: rotate to the fixed frame, then with the crown
        x = Rz(-(t + a)) @ (p - cen)
        q = Rz(-(t + a)) @ (Q - cen) / RR
        ax = np.cross(q, V(0, 1, 0))  # axis of the crown gear
        y = V(0, 1, 0)
        # crown coordinates: q along radius, y along travel, ax axis
        X = V(np.dot(x, q), np.dot(x, y), np.dot(x, ax)) / RR
        normals.append((t, X))
        R.state([d, t])
    best = min(max(abs(np.dot(Rz(s * t * math.sin(beta)) @ X, V(0, math.cos(al), u * math.sin(al)))) for t, X in normals) for s in (1, -1) for u in (1, -1))
    R.le("flank of the crown gear is a plane at the tooth angle", best, 1e-9)
    return R


# ---------------------------------------------------------------- splines
def ctrl(n, dim, w):
    k = np.arange(n)[:, None] + 1.0
    j = np.arange(dim)[None, :] + 1.0
    P = np.sin(1.7 * k * j + 0.3 * w) * 3 + k * (j == 1) + 0.2 * j
    W = [np.ones(n), 1 + 0.5 * np.cos(1.1 * np.arange(n)), 0.4 + 0.3 * np.arange(n)][w % 3] * (1 + w // 3)
    return P, W


def bern(P, t):
    n = len(P) - 1
    return sum(comb(n, k) * t**k * (1 - t) ** (n - k) * P[k] for k in range(n + 1))


def bern_d(P, t, order):
    """exact derivative through power coefficients"""
    n = len(P) - 1
    co = np.zeros((n + 1,) + P.shape[1:])
    for k in range(n + 1):
        for i in range(n - k + 1):
            co[k + i] += comb(n, k) * comb(n - k, i) * (-1) ** i * P[k]
    out = np.zeros(P.shape[1:])
    for j in range(order, n + 1):
        c = 1
        for q in range(order):
            c *= j - q
        out = out + c * co[j] * t ** (j - order)
    return out


def check_bez(d):
    R = Result()
    n, dim = d["n"], d["dim"]
    P, W = ctrl(n, dim, d["w"])
    P1 = P[:, 0]
    ts = np.array([0.0, 0.13, 0.5, 0.77, 1.0, 1.2, -0.1])
    sc = np.abs(P).max()
    for shape, pts in (("points", P), ("scalars", P1)):
        want = np.array([bern(pts, t) for t in ts])
        if n > 1:
            R.close("bezierdc on arrays of %s" % shape, fg.bezierdc(ts, pts), want, 1e-9 * sc)
        for t, w in zip(ts, want):
            R.close("bezier of %s" % shape, fg.bezier(t, pts), w, 1e-9 * sc)
            if dim > 1 or shape == "scalars":
                R.close("bezierdc of %s" % shape, fg.bezierdc(t, pts), w, 1e-9 * sc)
            R.op(2)
            R.state([d, shape, t])
        for order in (1, 2, 3, n - 1, n, n + 2):
            if order < 1:
                continue
            wd = np.array([bern_d(pts, t, order) for t in ts])
            R.close("bezier derivative of order %d" % order, fg.bezier_diff_t(ts, pts, order), wd, 1e-6 * sc * max(1, np.abs(wd).max()))
            R.op()
    if n >= 1:
        B = np.array([[comb(n - 1, k) * t**k * (1 - t) ** (n - 1 - k) for k in range(n)] for t in ts])
        R.close("bezier_coeff", fg.bezier_coeff(ts, n), B, 1e-9)
        if n > 1:
            R.close("bezier_diff_p", fg.bezier_diff_p(ts, n), B, 1e-9)
            R.close("bezier_diff_p at one point", fg.bezier_diff_p(float(ts[1]), n), B[1], 1e-9)
    if n < 2 or dim == 1:
        return R
    N = np.array([bern(P * W[:, None], t) for t in ts])
    D = np.array([bern(W, t) for t in ts])
    ok = D > 0.05
    t2, N, D = ts[ok], N[ok], D[ok]
    want = N / D[:, None]
    R.close("rational bezier on arrays", fg.nurbezier(t2, P, W), want, 1e-9 * sc * 10)
    for t, w in zip(t2, want):
        R.close("rational bezier", fg.nurbezier(float(t), P, W), w, 1e-9 * sc * 10)
    Nd = np.array([bern_d(P * W[:, None], t, 1) for t in t2])
    Dd = np.array([bern_d(W, t, 1) for t in t2])
    wd = (Nd - want * Dd[:, None]) / D[:, None]
    m = 1 + np.abs(wd).max()
    R.close("derivative of a rational bezier by t", fg.nurbezier_diff_t(t2, P, W), wd, 1e-8 * m)
    if n > 2:
        R.close("derivative of a rational bezier by t at one point", fg.nurbezier_diff_t(float(t2[1]), P, W), wd[1], 1e-8 * m)
    Bb = fg.bezier_coeff(t2, n)
    R.close("derivative of a rational bezier by its points", fg.nurbezier_diff_points(t2, n, W), Bb * W[None, :] / D[:, None], 1e-8 * m)
    dw = np.array([[Bb[i, k] * (P[k] - want[i]) / D[i] for k in range(n)] for i in range(len(t2))])
    for i, t in enumerate(t2):
        R.close("derivative by the points at one location", fg.nurbezier_diff_points(float(t), n, W), (Bb * W[None, :] / D[:, None])[i], 1e-8 * m)
        R.close("derivative by the weights at one location", fg.nurbezier_diff_weights(float(t), P, W), dw[i], 1e-8 * (1 + np.abs(dw).max()))
    R.close("derivative of a rational bezier by its weights", fg.nurbezier_diff_weights(t2, P, W), dw, 1e-8 * (1 + np.abs(dw).max()))
    R.op(4)
    if dim == 3:
        c = crv.NurbCurve(P, W)
        for t in (0.0, 0.4, 1.0):
            R.close("curve object", c.function(t), bern(P * W[:, None], t) / bern(W, t), 1e-9 * sc * 10)
    return R


def check_surf(d):
    R = Result()
    n, m = d["n"], d["m"]
    i, j = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    P = np.stack([i + 0.3 * np.sin(j), j + 0.2 * np.cos(2.0 * i), np.sin(i * 1.3 + j)], axis=-1).astype(float)
    W = 1 + 0.4 * np.cos(i * 2.1 + j)
    for u, v in itertools.product((0.0, 0.3, 0.8, 1.0), (0.0, 0.25, 0.6, 1.0)):
        cu = [comb(n - 1, k) * u**k * (1 - u) ** (n - 1 - k) for k in range(n)]
        cv = [comb(m - 1, k) * v**k * (1 - v) ** (m - 1 - k) for k in range(m)]
        A = np.outer(cu, cv) * W
        want = np.einsum("ij,ijk->k", A, P) / A.sum()
        R.close("nurbezier_surface", fg.nurbezier_surface(u, v, P, W), want, 1e-9)
        R.close("nurbezier_surface_2", fg.nurbezier_surface_2(u, v, P, W), want, 1e-9)
        R.op(2)
        R.state([d, u, v])
    return R


def check_arc(d):
    R = Result()
    O, c = PO[d["i"]]
    an = d["an"] * DEG
    for r in (0.5, 4.0):
        p0 = c + O @ V(r * math.cos(0.3), r * math.sin(0.3), 0)
        p2 = c + O @ V(r * math.cos(0.3 + an), r * math.sin(0.3 + an), 0)
        pts, w = fg.calc_nurbezier_arc(p0, p2, c)
        R.op()
        for t in np.linspace(0, 1, 9):
            q = bern(pts * w[:, None], t) / bern(w, t)
            R.close("rational arc keeps its radius", np.linalg.norm(q - c), r, 1e-9 * r / max(math.cos(an / 2), 1e-3))
            R.le("rational arc stays in the sector", np.dot(O @ V(math.cos(0.3 + an / 2), math.sin(0.3 + an / 2), 0), (c - q) / r) + math.cos(an / 2), 1e-9)
            R.close("rational arc stays in its plane", np.dot(q - c, O[:, 2]), 0.0, 1e-9 * r)
            R.close("arc through two points and centre", np.linalg.norm(fg.arc_from_2_point_center(t, p0, p2, c) - (c + O @ V(r * math.cos(0.3 + an * t), r * math.sin(0.3 + an * t), 0))), 0.0, 1e-8 * r)
            R.state([d, r, t])
        R.close("ends of the rational arc", pts[[0, -1]], np.array([p0, p2]), 1e-12 * (r + 10))
        mid = c + O @ V(r * math.cos(0.3 + an / 2), r * math.sin(0.3 + an / 2), 0)
        qp = fg.calc_quadratic_bezier_interp(p0, mid, p2)
        R.close("quadratic interpolation", np.array([bern(qp, t) for t in (0, 0.5, 1)]), np.array([p0, mid, p2]), 1e-9 * (r + 10))
        for s in (1, -1):
            # negative curvature: the arc bends to the other side, turning against the axis
            f = lambda t: fg.arc_from_2_point(t, p0, p2, curvature=s / r, axis=O[:, 2])
            R.close("arc through two points: ends", np.array([f(0.0), f(1.0)]), np.array([p0, p2]), 1e-7 * (r + 10))
            cc = c if s > 0 else p0 + p2 - c
            for t in (0.3, 0.8):
                q = f(t)
                R.close("arc through two points: radius", np.linalg.norm(q - cc), r, 1e-7 * r / max(math.cos(an / 2), 1e-3))
                R.close("arc through two points: position", q, cc + rv(O[:, 2] * s * an * t) @ (p0 - cc), 1e-6 * (r + 1))
        for k in (1.0, 2.0, -1.0):
            # whole extra revolutions about the same axis
            w = c + O @ V(r * math.cos(0.3 + (an + 2 * PI * k) * 0.4), r * math.sin(0.3 + (an + 2 * PI * k) * 0.4), 0)
            R.close("extra revolutions of an arc about a centre", fg.arc_from_2_point_center(0.4, p0, p2, c, revolutions=k), w, 1e-7 * (r + 10))
            R.close("extra revolutions of an arc", fg.arc_from_2_point(0.4, p0, p2, curvature=1 / r, axis=O[:, 2], revolutions=k), w, 1e-5 * (r + 10))
            R.op(2)
        ac = crv.ArcCurve.from_2_point_center(p0, p2, c)
        hq = crv.fit_bezier_hermite_quadratic(ac)
        R.close("hermite quadratic: ends", hq[[0, 2]], np.array([p0, p2]), 1e-9 * (r + 10))
        R.close("hermite quadratic: tangents meet", hq[1], c + O @ V(math.cos(0.3 + an / 2), math.sin(0.3 + an / 2), 0) * r / math.cos(an / 2), 1e-3 * r / math.cos(an / 2) ** 2)
        R.close("straight line without curvature", fg.arc_from_2_point(0.3, p0, p2, curvature=0), 0.7 * p0 + 0.3 * p2, 1e-12 * (r + 10))
        R.op(3)
    return R


def check_coord(d):
    R = Result()
    O, c = PO[d["i"]]
    rng = [V(*x) for x in itertools.product((-2.0, 0.5, 3.0), (-1.5, 0.0, 2.0), (-1.0, 0.3, 4.0))]
    A = np.array(rng)
    for cen in (np.zeros(3), c):
        for v in rng:
            s = fg.xyz_to_spherical(v + cen, cen)
            R.close("spherical radius", s[0], np.linalg.norm(v), 1e-12 * 10)
            R.close("spherical azimuth", math.sin((s[1] - math.atan2(v[1], v[0])) / 2), 0.0, 1e-9)
            R.close("spherical polar angle", s[2], math.atan2(math.hypot(v[0], v[1]), v[2]), 1e-7)
            R.close("spherical round trip", fg.spherical_to_xyz(s, cen), v + cen, 1e-9)
            y = fg.xyz_to_cylindrical(v + cen, cen)
            R.close("cylindrical", y, V(math.hypot(v[0], v[1]), y[1], v[2]), 1e-9)
            R.close("cylindrical round trip", fg.cylindrical_to_xyz(y, cen), v + cen, 1e-9)
            R.op(4)
            R.state([d, cen, v])
        for f, g in ((fg.xyz_to_spherical, fg.spherical_to_xyz), (fg.xyz_to_cylindrical, fg.cylindrical_to_xyz)):
            arr = f(A + cen, cen)
            R.close("arrays like single vectors", arr, np.array([f(v + cen, cen) for v in rng]), 1e-9)
            R.close("arrays round trip", g(arr, cen), A + cen, 1e-9)
    for v, w in itertools.product(rng[::2], rng[1::3]):
        v2, w2 = O @ v, O @ w
        cosang = np.dot(v, w) / np.linalg.norm(v) / np.linalg.norm(w)
        R.close("angle between vectors", math.cos(fg.angle_between_vectors(v2, w2)), cosang, 1e-9)
        R.close("normalized vector", fg.normalize_vector(v2) * np.linalg.norm(v), v2, 1e-9)
        nrm = w2 / np.linalg.norm(w2)
        pr = fg.project_vector_to_plane(v2, nrm)
        R.close("projection lies in the plane", np.dot(pr, nrm), 0.0, 1e-9)
        R.close("projection moves along the normal", np.cross(v2 - pr, nrm), np.zeros(3), 1e-9)
        if np.linalg.norm(pr) > 1e-6:
            R.close("angle between vector and plane", math.sin(fg.angle_between_vector_and_plane(v2, nrm)), abs(cosang), 1e-7)
        R.close("angle in the plane", fg.angle_of_vector_in_xy(v2), math.atan2(v2[1], v2[0]), 1e-12)
        for an in (0.0, 0.7, -2.5):
            R.close("rotation about z", fg.rotate_vector(v2, an), Rz(an) @ v2, 1e-9)
        R.op(6)
    R.close("interpolate", [fg.interpolate(x, 1.0, 3.0, -2.0, 6.0) for x in (1.0, 1.5, 3.0, 4.0)], [-2.0, 0.0, 6.0, 10.0], 1e-12)
    ts = np.array([0.0, 0.2, 1.0])
    R.close("lerp", fg.lerp(ts, rng[0], rng[5]), np.array([(1 - t) * rng[0] + t * rng[5] for t in ts]), 1e-12)
    # winding number
    circ = crv.ArcCurve.from_point_center_angle(p0=c + O @ V(2, 0, 0), center=c, angle=2 * PI, axis=O[:, 2])
    if abs(O[2, 2]) > 0.99:
        R.close("winding number inside", crv.curve_index(circ, c + V(0.5, 0.3, 0)), 1.0, 1e-2)
        R.close("winding number outside", crv.curve_index(circ, c + V(3.5, 0.3, 0)), 0.0, 1e-2)
        two = crv.ArcCurve.from_point_center_angle(p0=c + O @ V(2, 0, 0), center=c, angle=4 * PI, axis=O[:, 2])
        R.close("winding number of two turns", crv.curve_index(two, c + V(0.5, 0.3, 0)), 2.0, 2e-2)
        R.close("winding number with fewer points", crv.curve_index(circ, c + V(-0.5, 0.3, 0), n_points=200), 1.0, 2e-2)
        R.close("winding numbers of several points", crv.curve_index(circ, np.array([c, c + V(0, 5, 0)])), [1.0, 0.0], 1e-2)
    return R


def bases(b):
    if b == "line":
        return crv.LineCurve(V(1, 2, 0), V(4, -1, 0))
    if b == "arc":
        return crv.ArcCurve.from_point_center_angle(p0=V(3, 0, 0), center=V(1, 0, 0), angle=1.2)
    if b == "arc3":
        return crv.ArcCurve.from_point_center_angle(p0=V(3, 0, 0), center=V(1, 0, 0), angle=2.6)
    if b == "inv":
        return crv.InvoluteCurve(r=3.0, t0=0.2, t1=0.8)
    if b == "sph":
        return crv.SphericalInvoluteCurve(r=3.0, t0=0.2, t1=0.8, c_sphere=0.2)
    return crv.CycloidCurve(rb=4.0, rc=1.5, t0=0.1, t1=0.5)


def check_fit(d):
    """spline fits: ends exact, close in between, in any placement"""
    R = Result()
    O, c = PO[d["i"]]
    n = d["n"]
    cv = crv.TransformedCurve(lambda p: p @ O.T + c, bases(d["b"]))
    dense = ev(cv, np.linspace(0, 1, 401))
    L = float(np.sum(np.linalg.norm(np.diff(dense, axis=0), axis=1)))
    T0, T1 = dense[1] - dense[0], dense[-1] - dense[-2]
    hc = crv.fit_bezier_hermite_cubic(cv)
    R.close("hermite cubic: ends", hc[[0, 3]], dense[[0, -1]], 1e-9 * (10 + L))
    for w, v, T in (("start", hc[1] - hc[0], T0), ("end", hc[3] - hc[2], T1)):
        v = 3 * v
        R.close("hermite cubic: %s direction" % w, v / np.linalg.norm(v), T / np.linalg.norm(T), 0.05)
        R.close("hermite cubic: %s speed" % w, np.linalg.norm(v) / L, 1.0, 0.25)
    R.op()
    sides = [None] if d["i"] not in (0, 2) or d["b"] == "sph" else [False, True]
    for f2 in sides:
        kw = {} if f2 is None else dict(force_2D=f2)
        sol, P, W = crv.fit_nurb_optim(cv, n_points=n, **kw)
        R.op()
        R.true("fit has the requested number of points", P.shape == (n, 3) and W.shape == (n,))
        R.close("fit: ends", P[[0, -1]], dense[[0, -1]], 1e-9 * (10 + L))
        q = np.array([bern(P * W[:, None], t) / bern(W, t) for t in np.linspace(0, 1, 41)])
        dist = max(float(np.min(np.linalg.norm(dense - x, axis=1))) for x in q)
        back = max(float(np.min(np.linalg.norm(q - x, axis=1))) for x in dense[::10])
        R.le("fit lies on the curve", dist, (0.02 if n == 3 else 0.01) * L)
        R.le("fit covers the curve", back, 0.06 * L)
        R.state([d, f2])
    return R
