"""C06 the outline of every slice is one closed, simple, N-fold symmetric curve between
the root and tip circles, and every public view of it (continuous boundary, boundary chain, closed tooth
profiles) is that curve."""
from mc.geo import *
from mc.engine import Result
from mc.mesh import poly
from mc.checks.c05 import dedupe_domain as inv_domain
from mc.checks.c11 import CycModel
from shapely.geometry import Polygon, LinearRing, LineString, Point
import shapely

RULE = ("state = (gear configuration, position along the width); transition = generating the slice, its boundary curve, boundary chain or closed "
        "profile on the real gear; invariants of every state: joints meet, the outline closes after N pitches, does not cross itself, has exactly N teeth, lies "
        "between root and tip, is mirror symmetric, scales with the module, and every view of it is the same curve in space")
BOUNDS = {
    "quick": "9 gear kinds, all <=2 simultaneous deviations of shape/width/pose parameters (conical: pairs of shape parameters only), 2 positions along the width",
    "thorough": "all <=3 simultaneous deviations, 5 positions",
}
ASSUMPTIONS = ["teeth that exist: fillets fit, no negative thickness (predicates of the reference models of C05 and C11)"]

SH = dict(module=[0.5, 3.0, 200.0], height=[4.0], z_anchor=[0.5], angle=[-2.0], center=[[4, -7, 2.5]], O=[[0.4, -1.1, 0.3]])
INV = dict(z=[7, 12, 31, 63], pressure_angle=[15 * DEG, 27 * DEG], profile_shift=[-0.3, 0.4], addendum_coefficient=[0.7, 1.15], dedendum_coefficient=[1.0, 1.35], tip_fillet=[0.12], backlash=[0.06], crowning=[60.0])
KINDS = dict(
    spur=(dict(c="SpurGear", z=18), dict(INV, **SH, tip_truncation=[0.0, 0.3])),
    plain=(dict(c="SpurGear", z=18, enable_undercut=False), dict(INV, **SH, root_fillet=[0.1, 0.25])),
    ring=(dict(c="SpurRingGear", z=40), dict(SH, z=[21, 63], pressure_angle=[25 * DEG], profile_shift=[0.3, -0.2], outside_ring_coefficient=[3.5], root_fillet=[0.0], tip_fillet=[0.1])),
    hel=(dict(c="HelicalGear", z=18), dict(SH, helix_angle=[-0.4, 0.8], herringbone=[True], z=[8, 31], profile_shift=[0.3], enable_undercut=[False], crowning=[60.0])),
    hring=(dict(c="HelicalRingGear", z=40), dict(SH, helix_angle=[-0.4], herringbone=[True])),
    cyc=(dict(c="CycloidGear", z=14), dict(SH, z=[8, 25], inside_cycloid_coefficient=[0.3, 0.45], outside_cycloid_coefficient=[0.25], tip_fillet=[0.1], root_fillet=[0.1], backlash=[0.05], inside_teeth=[True], helix_angle=[0.3], addendum_coefficient=[0.7], dedendum_coefficient=[0.9])),
    bevel=(dict(c="BevelGear", z=20, cone_angle=1.2), dict(SH, z=[12, 31], cone_angle=[0.5, 2.2], enable_undercut=[False], helix_angle=[0.3], profile_shift=[0.25], tip_fillet=[0.1], crowning=[60.0])),
    bevring=(dict(c="InvoluteGear", z=40, cone_angle=1.2, enable_undercut=False, inside_teeth=True), dict(cone_angle=[0.6], z=[55], module=[2.0])),
    cycbev=(dict(c="CycloidGear", z=24, cone_angle=1.2), dict(SH, cone_angle=[0.6, 2.0], helix_angle=[0.2], inside_cycloid_coefficient=[0.4])),
)


def domain(g):
    sp = Spec(g)
    if sp.cone:
        lo, hi = sp.z_range()
        return min(1 - zz * 2 * math.sin(sp.gamma) / sp.z for zz in (lo, hi)) > 0.3
    if g["c"] == "CycloidGear":
        m = CycModel(g)
        return m.in_domain() and m.ra > m.rp + 0.3
    if sp.ring:
        return True
    return inv_domain(g)


def ITEMS(tier):
    k = 2 if tier == "quick" else 3
    ps = [0.37, 1.0] if tier == "quick" else [0.0, 0.2, 0.5, 0.83, 1.0]
    for n, (base, al) in KINDS.items():
        for g in deviations(base, al, k if not base.get("cone_angle") or k == 2 else 2):
            if tier == "quick" and base.get("cone_angle"):
                dv = [x for x in al if g.get(x) != base.get(x)]
                if len(dv) == 2 and any(x in ("module", "angle", "center", "O") for x in dv):
                    continue
            if domain(g):
                yield dict(g=g, ps=ps)


def WEIGHT(d):
    return d["g"]["z"] * (3.0 if d["g"].get("cone_angle") else 1.0)


def chart(pts, sp):
    """plane chart of the slice (identity for cylinders, equidistant azimuthal for the slice sphere)"""
    pts = np.asarray(pts, float)
    if not sp.cone:
        return pts[:, :2]
    h = sp.rp / math.tan(sp.gamma)
    r = np.hypot(pts[:, 0], pts[:, 1])
    th = np.arctan2(r, h - pts[:, 2])
    return pts[:, :2] / np.maximum(r, 1e-300)[:, None] * (th * sp.rp / sp.gamma)[:, None]


SEG = ["rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror"]


def CHECK(d):
    R = Result()
    g = d["g"]
    sp = Spec(g)
    gear = make(g)
    core_ = gear.gearcore
    m, N = sp.m, sp.z
    lo, hi = sp.z_range()
    O = rv(g["O"]) if "O" in g else np.eye(3)
    cg, sg = math.cos(sp.gamma), math.sin(sp.gamma)
    mid = 0.5 * (lo + hi)
    g1 = dict(g, height=sp.height / sp.m_n, module=1.0)
    ref = make(g1) if "module" in g else None
    # both views off the reference plane, alternating over the positions
    views = {d["ps"][0]: (True,), d["ps"][-1]: (False,)} if len(d["ps"]) == 2 else {p: (True, False) for p in d["ps"]}
    for p in d["ps"]:
        z = (1 - p) * lo + p * hi
        prof = core_.curve_gen_at_z(z)
        R.op()
        pts = profile_points(prof, 33)
        act = [k for k in SEG if getattr(prof, k).active]
        R.true("flanks exist", "tooth_curve" in act and "tooth_curve_mirror" in act)
        # 1 joints
        for a, b in zip(act, act[1:]):
            R.close("joint %s-%s" % (a, b), pts[a][-1], pts[b][0], 2e-5)
        R.close("joint to the next tooth", pts[act[-1]][-1], Rz(sp.pitch) @ pts[act[0]][0], 2e-5)
        one = np.vstack([pts[k] for k in act])
        full = np.vstack([one @ Rz(i * sp.pitch).T for i in range(N)])
        if sp.cone:
            h = sp.rp / math.tan(sp.gamma)
            rad = np.linalg.norm(full - V(0, 0, h), axis=1)
            R.close("slice lies on its sphere", rad, np.full(len(rad), sp.rp / math.sin(sp.gamma)), 1e-5 * sp.rp)
        else:
            R.close("slice is plane", full[:, 2], np.zeros(len(full)), 1e-9)
        c2 = chart(full, sp)
        P = poly(c2)
        # 2 simple closed curve, N teeth, anticlockwise
        ringp = c2[np.linalg.norm(c2 - np.roll(c2, 1, axis=0), axis=1) > 1e-6]
        R.true("outline does not cross itself", Polygon(ringp).is_valid)
        R.true("outline runs anticlockwise", LinearRing(ringp).is_ccw)
        rr = np.hypot(c2[:, 0], c2[:, 1])
        s = np.sign(rr - sp.rp)
        s = s[s != 0]
        R.true("outline crosses the pitch circle 2N times", int(np.sum(s != np.roll(s, 1))) == 2 * N)
        # 3 between root and tip
        rd, ra = chart(pts["rd_curve"], sp), chart(pts["ra_curve"], sp)
        rdn, ran = np.hypot(*rd.T).min(), np.hypot(*ra.T).max()
        R.true("root inside pitch circle inside tip", rdn < sp.rp < ran)
        R.le("outline above the root circle", rdn - rr.min(), 2e-5)
        R.le("outline below the tip circle", rr.max() - ran, 2e-5)
        # 4 mirror symmetry about the centre of the tooth
        mir = pts["tooth_curve"].copy()
        mir[:, 1] *= -1
        R.close("flank ends are mirror images", pts["tooth_curve_mirror"][[-1, 0]], mir[[0, -1]], 2e-6)
        other = LineString(chart(ev(prof.tooth_curve_mirror, np.linspace(0, 1, 193)), sp))
        R.le("flanks are mirror images", max(other.distance(Point(*x)) for x in chart(mir, sp)), 2e-3)
        # 5 the views in space
        def world(q):
            sc = 1 - z * 2 * sg / N
            zz = mid - abs(mid - z) if g.get("herringbone") else z
            q = (np.asarray(q) * sc) @ Rz(zz * math.tan(sp.helix) / sp.rp).T + V(0, 0, z * cg)
            return sp.center + (q * m) @ (O @ Rz(sp.angle)).T

        def unworld(w):
            sc = 1 - z * 2 * sg / N
            zz = mid - abs(mid - z) if g.get("herringbone") else z
            q = ((w - sp.center) @ (O @ Rz(sp.angle)) / m - V(0, 0, z * cg)) @ Rz(zz * math.tan(sp.helix) / sp.rp) / sc
            return q

        dense = chart(np.vstack([ev(getattr(prof, k), np.linspace(0, 1, 97)) for k in act]), sp)
        fulld = np.vstack([dense @ Rz(i * sp.pitch)[:2, :2].T for i in range(N)])
        line = LinearRing(fulld[np.linalg.norm(fulld - np.roll(fulld, 1, axis=0), axis=1) > 1e-9])
        for cont in views.get(p, ()):
            bc = core_.boundary_at_z(z, continuous=cont)
            R.op()
            ts = (np.arange(N * 5) + 0.37) / (N * 5)
            q = unworld(ev(bc, ts))
            q2 = chart(q, sp)
            if not sp.cone:
                R.close("boundary is in the plane of the slice", q[:, 2], np.zeros(len(q)), 1e-7)
            dd = max(line.distance(Point(*x)) for x in q2)
            R.le("boundary lies on the outline", dd, 5e-3)
            ang = np.unwrap(np.arctan2(q2[:, 1], q2[:, 0]))
            R.close("boundary goes once around", ang[-1] - ang[0], 2 * PI, 2 * sp.pitch)
            R.close("boundary closes", np.asarray(bc(0.0)), np.asarray(bc(1.0)), 1e-4 * m)
        # 6 closed tooth profiles
        ext = core.GearRefProfileExtended.from_refprofile(prof, core_.shape_recipe(z).cone)
        R.op()
        areas = {}
        for name in ("profile_closed", "tooth_profile_closed", "tooth_profile_closed_outer", "tooth_profile_closed_ring"):
            ch = getattr(ext, name)
            cs = [c for c in ch.get_curves() if c.active]
            q = [ev(c, np.linspace(0, 1, 33)) for c in cs]
            for a, b in zip(q, q[1:] + q[:1]):
                R.close("%s is a closed chain" % name, a[-1], b[0], 5e-4)
            allq = np.vstack(q)
            if sp.cone:
                R.close("%s lies on the sphere of the slice" % name, np.linalg.norm(allq - V(0, 0, h), axis=1), np.full(len(allq), sp.rp / math.sin(sp.gamma)), 1e-5 * sp.rp)
            else:
                R.close("%s is plane" % name, allq[:, 2], np.zeros(len(allq)), 1e-9)
            areas[name] = Polygon(chart(np.vstack(q), sp)).area
        u9 = np.linspace(0, 1, 9)
        con0, con2, cl = ev(ext.ro_connector_0, u9), ev(ext.ro_connector_2, u9), ev(ext.tooth_centerline, u9)
        R.close("connectors repeat with the pitch", con2, con0 @ Rz(sp.pitch).T, 1e-4)
        R.close("centre line of the tooth", cl[:, 1], np.zeros(9), 1e-5)
        for nm_, q in (("connector 0", con0), ("connector 1", ev(ext.ro_connector_1, u9)), ("centre line", cl)):
            az = np.arctan2(q[:, 1], q[:, 0])
            R.close("%s runs radially" % nm_, az, np.full(9, az[0]), 1e-5)
            if sp.cone:
                R.close("%s lies on the sphere" % nm_, np.linalg.norm(q - V(0, 0, h), axis=1), np.full(9, sp.rp / math.sin(sp.gamma)), 1e-5 * sp.rp)
        if not sp.cone:
            ro = float(prof.ro_curve.radius)
            R.close("profile_closed covers one pitch of the body", N * areas["profile_closed"], abs(P.area - PI * ro * ro), 3e-3 * N)
            tooth = areas["tooth_profile_closed"]
            gap = areas["tooth_profile_closed_outer"]
            rdc, rac = float(prof.rd_curve.radius), float(prof.ra_curve.radius)
            R.close("tooth and gap fill the pitch", N * (tooth + gap), PI * (rac**2 - rdc**2), 1e-2 * N)
        # 7 scaling with the module
        if ref is not None:
            l1, h1 = Spec(g1).z_range()
            pr1 = ref.gearcore.curve_gen_at_z((1 - p) * l1 + p * h1)
            one1 = profile_points(pr1, 33)
            R.close("outline scales with the module", np.vstack([pts[k] for k in act]), np.vstack([one1[k] for k in act]), 1e-6)
            R.op()
        R.state([g, p])
    return R
