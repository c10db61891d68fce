"""C15 exported curves: wires and edges handed to the CAD kernel are the library's curves."""
import warnings
from mc.geo import *
from mc.engine import Result
from mc.checks import c13
from mc.checks.c06 import KINDS as GK, domain, chart
import build123d as bd
import gggears as ggs
import gggears.gggears_convert as conv
from shapely.geometry import LinearRing, Point

RULE = ("state = (gear, pose, width position) or (curve, word of operations); transition = one export of the real object (boundary wire, edge, reference circle, "
        "NURBS profile); oracle = the curve itself under the exact motion: both curves cover each other, same length, closed where the outline is")
BOUNDS = {
    "quick": "9 gear kinds with <=1 deviation x 3 width positions; 22 curves x all words of <=1 operation, and words of 2 for lines and arcs; reference circles of all kinds in 3 poses",
    "thorough": "<=2 deviations; all words of <=2 operations",
}
ASSUMPTIONS = ["splines approximate other curves than lines and arcs: fidelity 5e-3 module (0.5 percent of the length for free curves)"]

POSE = [dict(), dict(center=[4.0, -7.0, 2.5], O=[0.4, -1.1, 0.3], angle=-2.0), dict(O=[PI, 0, 0], center=[0, 0, 5.0], angle=0.7)]
MODS = ["rev", "trim", "start", "end", "mirror", "rotate", "scale", "lintf", "tochain"]
EXACT = ("line", "arc", "arcneg", "arcbig", "arc2p", "arcang")


def ITEMS(tier):
    q = tier == "quick"
    for n, (base, al) in GK.items():
        al = {k: v for k, v in al.items() if k not in ("center", "O", "angle")}
        for i, g in enumerate(deviations(base, al, 1 if q else 2)):
            if domain(g):
                g = dict(g, **POSE[1])
                yield dict(k="wire", g=g, ps=[0.0, 0.4, 1.0] if i == 0 or not q or g.get("herringbone") else [0.0, 0.4, 1.0][i % 3 : i % 3 + 1])
        for p in (POSE[0], POSE[2]):
            yield dict(k="wire", g=dict(base, **p), ps=[1.0])
        for p in POSE:
            for mod in ({}, dict(module=2.5), dict(z_anchor=0.5, height=3.0)):
                yield dict(k="circ", g=dict(base, **p, **mod))
    for b in c13.B:
        if b == "plain":
            continue
        yield dict(k="edge", b=b, w=[])
        for o in MODS:
            yield dict(k="edge", b=b, w=[o])
            if b in EXACT or not q or b in ("nurb", "nurbs") or (o in ("start", "end", "trim", "rev") and b in ("inv", "cyc", "trf", "chain")):
                for o2 in MODS:
                    yield dict(k="edge", b=b, w=[o, o2])


def WEIGHT(d):
    if d["k"] == "wire":
        return d["g"]["z"] * len(d["ps"]) * (3.0 if d["g"].get("cone_angle") else 1.0)
    return 1.0


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat(y)
        return out
    return [x]


def edge_points(e, n=25):
    return np.array([tuple(e.position_at(float(u))) for u in np.linspace(0, 1, n)])


def poly_dist(p, dense):
    a, b = dense[:-1], dense[1:]
    ab = b - a
    den = np.maximum(np.sum(ab * ab, axis=1), 1e-300)
    u = np.clip(np.sum((p - a) * ab, axis=1) / den, 0, 1)
    return float(np.min(np.linalg.norm(a + u[:, None] * ab - p, axis=1)))


def CHECK(d):
    return dict(wire=check_wire, circ=check_circ, edge=check_edge)[d["k"]](d)


def check_edge(d):
    R = Result()
    c = c13.B[d["b"]]()
    D = Result()
    try:
        for o in d["w"]:
            c = c13.step(D, c, o)
    except c13.Skip:
        return R
    src = c13.samp(c, 17)
    sc = 1 + np.abs(src).max()
    edges = flat(ggs.curve_to_edges(c))
    R.op(1 + len(d["w"]))
    exact = d["b"] in EXACT and not any(o in ("mirror", "rotate", "scale") for o in d["w"])
    R.close("export leaves the curve", c13.samp(c, 17), src, 1e-12 * sc)
    L, dense = c13.true_length(c, 800)
    tol = 1e-5 * L if exact else 0.02 * L
    n_act = 1 if not hasattr(c, "curves") else len([x for x in c.get_curves() if x.active])
    pts = np.vstack([edge_points(e) for e in edges])
    ends = np.array([edge_points(e, 2) for e in edges])
    R.close("length of the exported edges", sum(float(e.length) for e in edges), L, 1e-4 * L if exact else 0.05 * L)
    R.le("exported edges lie on the curve", max(poly_dist(p, dense) for p in pts), tol)
    # every point of the curve is covered
    cov = max(min(poly_dist(p, edge_points(e, 200)) for e in edges) for p in src)
    R.le("exported edges cover the curve", cov, 1e-3 * L if exact else 0.02 * L)
    if exact and len(edges) == 1:
        q = ends[0]
        d1 = np.abs(q - src[[0, -1]]).max()
        d2 = np.abs(q[::-1] - src[[0, -1]]).max()
        R.le("ends of the exported edge", min(d1, d2), 1e-6 * sc)
    R.state(d)
    return R


def gear_at(g, z):
    """exact placement of a slice"""
    sp = Spec(g)
    O = rv(g["O"]) if "O" in g else np.eye(3)
    lo, hi = sp.z_range()
    mid = 0.5 * (lo + hi)
    cg, sg = math.cos(sp.gamma), math.sin(sp.gamma)
    sc = 1 - z * 2 * sg / sp.z
    zz = mid - abs(mid - z) if g.get("herringbone") else z
    tw = zz * math.tan(sp.helix) / sp.rp

    def world(q):
        q = (np.asarray(q) * sc) @ Rz(tw).T + V(0, 0, z * cg)
        return sp.center + (q * sp.m) @ (O @ Rz(sp.angle)).T

    def unworld(w):
        return ((np.asarray(w) - sp.center) @ (O @ Rz(sp.angle)) / sp.m - V(0, 0, z * cg)) @ Rz(tw) / sc

    return sp, world, unworld, sc


def check_wire(d):
    R = Result()
    g = d["g"]
    sp0 = Spec(g)
    lo, hi = sp0.z_range()
    gear = make(g)
    for p in d["ps"]:
        z = (1 - p) * lo + p * hi
        sp, world, unworld, sc = gear_at(g, z)
        prof = gear.gearcore.curve_gen_at_z(z)
        act = [k for k in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror") if getattr(prof, k).active]
        one = np.vstack([ev(getattr(prof, k), np.linspace(0, 1, 65)) for k in act])
        full = chart(np.vstack([one @ Rz(i * sp.pitch).T for i in range(sp.z)]), sp)
        line = LinearRing(full[np.linalg.norm(full - np.roll(full, 1, axis=0), axis=1) > 1e-9])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            wire = gear.build_boundary_wire(z_ratio=p)
        R.op(2)
        R.true("boundary wire is closed", bool(wire.is_closed))
        edges = wire.edges()
        pts = np.vstack([edge_points(e, 7) for e in edges])
        loc = unworld(pts)
        if sp.cone:
            h = sp.rp / math.tan(sp.gamma)
            rad = np.linalg.norm(loc - V(0, 0, h), axis=1)
            R.close("wire lies on the slice sphere", rad, np.full(len(rad), sp.rp / math.sin(sp.gamma)), 5e-3)
        else:
            R.close("wire lies in the slice plane", loc[:, 2], np.zeros(len(loc)), 1e-6)
        q = chart(loc, sp)
        tol = 8e-3
        R.le("wire lies on the outline", max(line.distance(Point(*x)) for x in q), tol)
        true = sum(np.sum(np.linalg.norm(np.diff(ev(getattr(prof, k), np.linspace(0, 1, 129)), axis=0), axis=1)) for k in act) * sp.z * sc * sp.m
        R.close("length of the wire", float(wire.length) / true, 1.0, 5e-3)
        # every tooth and every gap is there
        ang = np.sort(np.mod(np.arctan2(q[:, 1], q[:, 0]), 2 * PI))
        R.le("wire goes all the way around", np.max(np.diff(np.append(ang, ang[0] + 2 * PI))), 0.6 * sp.pitch)
        # the NURBS profile: same segments, placed by the slice
        nb = conv.gearprofile_to_nurb(prof)
        R.op()
        tf = np.eye(3)
        for k in act:
            src = ev(getattr(prof, k), np.linspace(0, 1, 129))
            loc_t = (src * sc) @ Rz(twist_of(g, sp, z)).T + V(0, 0, z * math.cos(sp.gamma))
            c = getattr(nb, k)
            e = ev(c, np.linspace(0, 1, 15))
            R.close("ends of the nurbs segment %s" % k, e[[0, -1]], loc_t[[0, -1]], 1e-4)
            R.le("nurbs segment lies on %s" % k, max(poly_dist(x, loc_t) for x in e), 8e-3)
        R.state([g, p])
    return R


def twist_of(g, sp, z):
    lo, hi = sp.z_range()
    mid = 0.5 * (lo + hi)
    zz = mid - abs(mid - z) if g.get("herringbone") else z
    return zz * math.tan(sp.helix) / sp.rp


def check_circ(d):
    """reference circles exported as CAD circles"""
    R = Result()
    g = d["g"]
    gear = make(g)
    sp0 = Spec(g)
    lo, hi = sp0.z_range()
    O = rv(g["O"]) if "O" in g else np.eye(3)
    for p in (0.0, 0.5, 1.0):
        z = (1 - p) * lo + p * hi
        sp, world, unworld, sc = gear_at(g, z)
        data = gear.radii_data_gen(z)
        prof = gear.gearcore.curve_gen_at_z(z)
        R.op()
        for name, seg in (("r_a_curve", "ra_curve"), ("r_d_curve", "rd_curve"), ("r_o_curve", "ro_curve"), ("r_p_curve", None)):
            c = getattr(data, name)
            e = ggs.arc_to_b123d(c)
            R.op()
            pts = unworld(edge_points(e, 13))
            if seg:
                ref = np.asarray(getattr(prof, seg)(0.5), float)
            else:
                ref = V(sp.rp, 0, 0)
            R.close("%s has the radius of the outline" % name, np.hypot(pts[:, 0], pts[:, 1]), np.full(len(pts), math.hypot(ref[0], ref[1])), 1e-6 * sp.z)
            R.close("%s lies at the height of the outline" % name, pts[:, 2], np.full(len(pts), ref[2]), 1e-6 * sp.z)
            R.true("%s is a full circle" % name, abs(float(e.length) - 2 * PI * float(c.radius)) < 1e-6 * float(c.radius))
        if hasattr(gear, "circle_involute_base") and not sp.cone:
            e = ggs.arc_to_b123d(gear.circle_involute_base(z_ratio=p))
            pts = unworld(edge_points(e, 13))
            R.close("base circle", np.hypot(pts[:, 0], pts[:, 1]), np.full(len(pts), sp.rb), 1e-6 * sp.z)
            R.true("the base circle is a full circle", abs(float(e.length) - 2 * PI * float(gear.circle_involute_base(z_ratio=p).radius)) < 1e-6 * float(e.length))
            R.close("base circle height", pts[:, 2], np.zeros(len(pts)), 1e-6 * sp.z)
        R.state([g, p])
    return R
