"""C10 bevel gears: spherical teeth, coinciding apexes, rolling pitch cones, clean running."""
import itertools
from mc.geo import *
from mc.engine import Result
import gggears.gearmath as gm
from gggears.gggears_base_classes import GearTransform
from shapely.geometry import Polygon
from shapely import affinity

RULE = ("state = (bevel pair, pose, slice, phase of the tooth cycle); transition = one meshing or rolling step of the real gears; monitors: "
        "outline on the slice sphere, slices homothetic to the apex, apexes coincide, pitch cones roll on each other, no penetration and no "
        "loss of contact in the conformal projection of the common sphere")
BOUNDS = {
    "quick": "teeth x teeth x shaft angle for cone angles; gear slices with <=2 deviations; external pairs with <=2 and internal pairs with 1 deviation, undercut pairs of 9..16 teeth, 4 phases",
    "thorough": "denser teeth products, <=3 deviations, 12 phases",
}
ASSUMPTIONS = ["pitch cone half angles between 10 and 80 degrees", "penetration / contact resolution 1e-3 module (5e-3 for contact)"]
EPS = 1e-3

AG = dict(z=[13, 27, 40], cone_angle=[0.4, 0.9, 2.2], helix_angle=[0.3, -0.5], module=[0.5, 3.0, 200.0], height=[3.0], z_anchor=[0.5, 1.0], profile_shift=[0.2],
          pressure_angle=[25 * DEG], addendum_coefficient=[0.8], backlash=[0.05], angle=[0.7], center=[[4, -7, 2]], O=[[0.4, -1.1, 0.3]])
AP = dict(z1=[14, 17, 25], z2=[21, 40], sh=[70 * DEG, 110 * DEG], m=[0.5, 3.0, 200.0], be=[0.35, -0.2], h=[3.0], an=[0.5], pa=[25 * DEG], a1=[0.7], a2=[2.9], x=[0.2, -0.15],
          c2=[[5, -3, 2]], O2=[[0.4, -1.1, 0.3], [PI, 0.2, 0]], dir=[[0, 1, 0], [-1, 0, 0], [-3, -4, 0], [-2, 1, 1.5]], uc=[True], cyc=[1], bl=[0.04])


def ITEMS(tier):
    Z = [7, 12, 17, 20, 31, 64] if tier == "quick" else list(range(6, 81, 2)) + [17, 31]
    for z1 in Z:
        for z2 in Z:
            yield dict(k="ct", z1=z1, z2=z2)
    k = 2 if tier == "quick" else 3
    for g in deviations(dict(c="BevelGear", z=20, enable_undercut=False), AG, k):
        sp = Spec(g)
        lo, hi = sp.z_range()
        if min(1 - zz * 2 * math.sin(sp.gamma) / sp.z for zz in (lo, hi)) < 0.35:
            continue
        yield dict(k="slice", g=g)
    for z in (14, 20, 33):
        for ca in (0.8, PI / 2, 2.0):
            yield dict(k="slice", g=dict(c="BevelGear", z=z, cone_angle=ca))
            yield dict(k="slice", g=dict(c="CycloidGear", z=z, cone_angle=ca, helix_angle=0.3))
    T = ((14, 17, 20, 32), (20, 35, 45, 65), (20, 25), (1.2, 1.4)) if tier == "quick" else ((10, 12, 14, 17, 20, 25, 32, 45), (12, 15, 25, 35, 45, 55, 65, 75), (17, 20, 22.5, 25, 27), (1.0, 1.2, 1.4))
    for z, ga, pa, hd in itertools.product(*T):
        for uc in (False, True):
            if not uc and z / math.cos(ga * DEG) * math.sin(pa * DEG) ** 2 / 2 < 0.75 * (hd - 0.2):
                continue
            yield dict(k="slice", g=dict(c="BevelGear", z=z, cone_angle=2 * ga * DEG, pressure_angle=pa * DEG, dedendum_coefficient=hd, enable_undercut=uc))
    for d in deviations(dict(z1=20, z2=28), AP, k):
        if "cyc" in d and ("x" in d or "pa" in d or "uc" in d):
            continue
        if not ("uc" in d or "cyc" in d):
            # without undercut the mate's tips must not reach below the flank
            sh, al = d.get("sh", 90 * DEG), d.get("pa", 20 * DEG)
            if any(z / math.cos(g) * math.sin(al) ** 2 / 2 < 1.25 * (1 - x) for z, g, x in zip((d["z1"], d["z2"]), gammas(d["z1"], d["z2"], sh), (d.get("x", 0), -d.get("x", 0)))):
                continue
        yield dict(d, k="pair", K=4 if tier == "quick" else 12)
    AI = {a: AP[a] for a in ("m", "h", "an", "pa", "a1", "a2", "c2", "O2", "dir", "bl", "be", "x")}
    AI.update(zs=[22, 26], zb=[64, 71], x=[0.2, 0.4], sh=[16 * DEG, 35 * DEG])
    for kind in (1, 2):
        for cyc in (0, 1):
            for d in deviations(dict(zs=21, zb=60, sh=22 * DEG), AI, 1 if tier == "quick" else 2):
                if cyc and ("x" in d or "pa" in d or "bl" in d):
                    continue
                it = dict(d, k="pair", **{"in": kind}, K=4 if tier == "quick" else 12)
                zs, zb = it.pop("zs"), it.pop("zb")
                it["z1"], it["z2"] = (zs, zb) if kind == 1 else (zb, zs)
                if cyc:
                    it["cyc"] = 1
                yield it
    for z1, z2, sh in itertools.product((9, 11, 14), (9, 12, 16), (80 * DEG, 90 * DEG)):
        # few teeth on both gears: the undercut decides whether they can run
        for e in ({}, dict(pa=25 * DEG), dict(m=2.5)):
            yield dict(e, z1=z1, z2=z2, sh=sh, uc=True, k="pair", K=4 if tier == "quick" else 12)
    if tier != "quick":
        for z1, z2, sh in itertools.product([12, 15, 19, 24, 33, 45], [12, 16, 23, 40, 60], [60 * DEG, 80 * DEG, 90 * DEG, 100 * DEG]):
            yield dict(z1=z1, z2=z2, sh=sh, uc=True, k="pair", K=12)


def gammas(z1, z2, sh):
    g1 = math.atan2(math.sin(sh), z2 / z1 + math.cos(sh))
    return g1, sh - g1


def gammas_ring(zs, zb, sh):
    """pinion and ring cone of an internal pair whose axes enclose sh"""
    g = math.atan2(math.sin(sh), zb / zs - math.cos(sh))
    return g, g + sh


def CHECK(d):
    return dict(ct=ct, slice=slice_, pair=pair)[d["k"]](d)


def ct(d):
    R = Result()
    if d["z1"] == d["z2"]:
        T = GearTransform(center=V(1, 2, 3), orientation=rv([0.1 * d["z1"], -0.4, 0.3]), angle=0.3)
        R.close("orientation of cylindrical gears", gm.calc_mesh_orientation(0, 0, 5.0, T, target_dir=T.x_axis), T.orientation, 1e-12)
    for deg in (40, 60, 75, 90, 105, 120, 140):
        a = deg * DEG
        c1, c2 = gm.cone_angle_from_teeth(d["z1"], d["z2"], axis_angle=a)
        R.op()
        R.state([d["z1"], d["z2"], deg])
        R.close("cones of equal length", math.sin(c1 / 2) * d["z2"], math.sin(c2 / 2) * d["z1"], 1e-9 * d["z1"] * d["z2"])
        R.close("axes cross at the requested angle", abs(math.cos(c1 / 2 + c2 / 2)), abs(math.cos(a)), 1e-9)
        R.true("cone angles positive", 0 < c1 < 2 * PI and 0 < c2 < 2 * PI)
    c = gm.cone_angle_from_teeth(d["z1"], d["z2"])
    R.close("default is a right angle", [c[0] / 2, c[1] / 2], [math.atan2(d["z1"], d["z2"]), math.atan2(d["z2"], d["z1"])], 1e-9)
    return R


def octoid_azimuth(theta, gamma, alpha):
    """azimuth (relative to the pitch point) of the flank conjugate to a crown rack with
    plane flanks, where it meets the cone of half angle theta; found by rolling the crown rack"""
    a = np.array([math.cos(gamma), 0.0, -math.sin(gamma)])
    n0 = np.array([0.0, math.cos(alpha), -math.sin(alpha)])
    P = np.array([1.0, 0, 0])
    up = P - a * math.cos(gamma)
    up /= np.linalg.norm(up)
    si = np.cross(a, up)

    def at(t):
        n = Rz(t * math.sin(gamma)) @ n0
        q = P - (P @ n) * n
        q = q / np.linalg.norm(q)
        w = Rot.from_rotvec(a * t).apply(q)
        return math.acos(max(-1.0, min(1.0, float(w @ a)))), math.atan2(w @ si, w @ up)

    return at


def flank_azimuth(theta, gamma, alpha):
    at = octoid_azimuth(theta, gamma, alpha)
    # the cone angle along the flank is monotone between the turning points
    ts = np.linspace(-1.2, 1.2, 241)
    th = np.array([at(t)[0] for t in ts])
    i0 = 120
    step = 1 if (th[i0 + 1] > th[i0]) == (theta > gamma) else -1
    i = i0
    while (th[i] - theta) * (th[i + step] - theta) > 0:
        i += step
        if not 0 < i + step < 240 or abs(th[i + step] - theta) > abs(th[i] - theta):
            return None
    lo, hi = ts[i], ts[i + step]
    f0 = at(lo)[0] - theta
    for _ in range(60):
        mid = (lo + hi) / 2
        if (at(mid)[0] - theta) * f0 > 0:
            lo = mid
        else:
            hi = mid
    return at(lo)[1]


def slice_(d):
    g = d["g"]
    R = Result()
    sp = Spec(g)
    gear = make(g)
    R.op()
    O = rv(g["O"]) if "O" in g else np.eye(3)
    ax, m = O[:, 2], sp.m
    apex = sp.center + ax * m * sp.rp / math.tan(sp.gamma)
    Rs = m * sp.rp / math.sin(sp.gamma)
    z0, z1 = sp.z_range()
    ref = None
    for zz in (0.0, z0, z1):
        prof = gear.gearcore.curve_gen_at_z(zz)
        R.op()
        pts = outline(prof, nteeth=1, n=13)
        w = gear.gearcore.transform(prof.transform(pts))
        k = 1 - zz * 2 * math.sin(sp.gamma) / sp.z
        q = w - apex
        R.close("outline lies on the sphere around the apex", np.linalg.norm(q, axis=1), np.full(len(q), Rs * k), 1e-6 * Rs)
        u = q / Rs / k
        tw = math.tan(sp.helix) / sp.rp * zz
        loc = u @ O @ Rz(sp.angle + tw)  # undo pose and twist
        if ref is None:
            ref = loc
        else:
            R.close("slices are scaled copies seen from the apex", loc, ref, 1e-6)
        # pitch point: where the flank crosses the pitch cone
        def local(x):
            w = gear.gearcore.transform(prof.transform(np.asarray(prof.tooth_curve(float(x)), float))) - apex
            w = (w / Rs / k) @ O @ Rz(sp.angle + tw)
            return math.acos(max(-1.0, min(1.0, -w[2]))), math.atan2(w[1], w[0])
        lo, hi = 0.0, 1.0
        if not local(lo)[0] < sp.gamma < local(hi)[0]:
            R.fail("flank does not cross the pitch cone")
        else:
            for _ in range(40):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if local(mid)[0] < sp.gamma else (lo, mid)
            R.close("half tooth thickness on the pitch cone", abs(local(lo)[1]), sp.half, 1e-6)
        if zz == 0.0 and g["c"] == "BevelGear":
            pts2 = [local(x) for x in np.linspace(0, 1, 17)]
            th = np.array([q[0] for q in pts2])
            R.true("flank rises from root to tip", bool((np.diff(th) > -1e-6).all()))
            R.true("flank stays in its half of the pitch", all(-PI / sp.z - 1e-6 < q[1] < 1e-9 for q in pts2))
            zv = sp.z / math.cos(sp.gamma)
            low = -0.5 if zv * math.sin(sp.alpha) ** 2 / 2 * min(1, zv / 30 + 0.3) > 1.0 else 0.0
            for t, a in pts2:
                if t > sp.gamma + low * m / Rs:
                    fa = flank_azimuth(t, sp.gamma, sp.alpha)
                    if fa is None:  # the conjugate flank ends above this cone
                        continue
                    R.close("flank is the conjugate of the crown rack", -a, sp.half + fa, 1e-6)
        tip = gear.gearcore.transform(prof.transform(ev(prof.ra_curve, (0.0, 0.5, 1.0)))) - apex
        tha = np.arccos(np.clip(-(tip @ ax) / np.linalg.norm(tip, axis=1), -1, 1))
        R.close("tip cone", tha, np.full(3, tha[0]), 1e-6)
        R.le("tip cone not above the requested addendum", tha[0] - sp.gamma, sp.ha / (Rs / m) + 1e-6)
        if g["c"] == "BevelGear" and not sp.undercut:
            R.close("tip cone", tha[0] - sp.gamma, sp.ha / (Rs / m), 0.35 * sp.ha / (Rs / m) if sp.z < 18 else 1e-6)
            rt = gear.gearcore.transform(prof.transform(ev(prof.rd_curve, (0.0, 0.5, 1.0)))) - apex
            thd = np.arccos(np.clip(-(rt @ ax) / np.linalg.norm(rt, axis=1), -1, 1))
            R.close("root cone", sp.gamma - thd, np.full(3, sp.hd / (Rs / m)), 1e-6)
    R.state(g)
    return R


def stereo(u, e):
    """conformal projection of unit vectors around the direction e[:,2]"""
    v = u @ e
    return 2 * v[:, :2] / (1 + v[:, 2:3])


def clean(q):
    return q[np.linalg.norm(q - np.roll(q, 1, axis=0), axis=1) > 2e-6]


def hits(P1, P2, ring1, ring2):
    """do the materials overlap by more than EPS (the outline of a ring is its hole)"""
    if ring1:
        return not P1.buffer(EPS, join_style=2).contains(P2)
    if ring2:
        return not P2.contains(P1.buffer(-EPS, join_style=2))
    return P1.buffer(-EPS, join_style=2).intersects(P2)


def pair(d):
    R = Result()
    z1, z2, sh = d["z1"], d["z2"], d.get("sh", 90 * DEG)
    inn = d.get("in", 0)
    ring1, ring2 = inn == 2, inn == 1
    if inn:
        ga1, ga2 = gammas_ring(z1, z2, sh) if ring2 else gammas_ring(z2, z1, sh)[::-1]
    else:
        ga1, ga2 = gammas(z1, z2, sh)
    be = d.get("be", 0.0)
    com = dict(module=d.get("m", 1.0), height=d.get("h", 1.0), z_anchor=d.get("an", 0.0))
    if "cyc" in d:
        c = dict(c="CycloidGear")
    else:
        c = dict(c="BevelGear", pressure_angle=d.get("pa", 20 * DEG), enable_undercut=d.get("uc", False))
    g1 = dict(com, **c, z=z1, cone_angle=2 * ga1, helix_angle=be, angle=d.get("a1", 0.0))
    g2 = dict(com, **c, z=z2, cone_angle=2 * ga2, helix_angle=-be, angle=d.get("a2", 0.0), center=d.get("c2", [0, 0, 0]), backlash=d.get("bl", 0.0))
    if inn:
        g2["helix_angle"] = be
        if ring2:
            g1["backlash"], g2["backlash"] = g2["backlash"], 0.0
        for g, r in ((g1, ring1), (g2, ring2)):
            if g["c"] == "BevelGear":
                g["c"] = "InvoluteGear"
            if r:
                g.update(inside_teeth=True, addendum_coefficient=1.2, dedendum_coefficient=0.75)
                if "cyc" in d:
                    g["outside_cycloid_coefficient"] = 0.2  # the rolling circles fit between the pitch circles
    if "x" in d:
        g1["profile_shift"], g2["profile_shift"] = d["x"], (d["x"] if inn else -d["x"])
    if "O2" in d:
        g2["O"] = d["O2"]
    if d.get("uc"):
        pass
    G1, G2 = make(g1), make(g2)
    if "cyc" in d:
        G1.adapt_cycloid_radii(G2)
    O2 = G2.gearcore.transform.orientation.copy()
    dr = O2 @ np.array(d.get("dir", [1.0, 0, 0]), float)
    dr /= np.linalg.norm(dr)
    G1.mesh_to(G2, target_dir=dr)
    # a direction out of the plane of rotation counts by its component in that plane
    ax = O2[:, 2]
    dr = dr - (dr @ ax) * ax
    dr /= np.linalg.norm(dr)
    R.op(4)
    m = com["module"]
    Rs = m * z1 / 2 / math.sin(ga1)
    a1, a2 = G1.gearcore.transform.z_axis, G2.gearcore.transform.z_axis
    apex = np.array(d.get("c2", [0, 0, 0]), float) + a2 * Rs * math.cos(ga2)
    R.close("apex of the meshed gear", G1.center_spherical, apex, 1e-8 * Rs)
    R.close("apex of the fixed gear", G2.center_spherical, apex, 1e-8 * Rs)
    R.close("angle between the axes", math.acos(max(-1, min(1, float(a1 @ a2)))), sh, 1e-7)
    # common pitch line lies in the requested direction from the fixed gear
    e2 = -(a2 * math.cos(ga2)) + dr * math.sin(ga2)
    R.close("pitch cones touch along the requested direction", float(-a1 @ e2), math.cos(ga1), 1e-9)
    R.close("centre of the meshed gear", G1.center, apex - a1 * Rs * math.cos(ga1), 1e-8 * Rs)
    if R.fails:
        return R
    e = np.stack([np.cross(np.cross(a2, dr), e2), np.cross(a2, dr), e2], axis=1)
    zs = [0.0] if be == 0 else [float(G1.gearcore.z_vals[0]), float(0.5 * (G1.gearcore.z_vals[0] + G1.gearcore.z_vals[-1]))]
    slack_b = d.get("bl", 0.0)
    for zz in zs:
        k = 1 - zz * 2 * math.sin(ga1) / z1
        U = []
        for g in (G1, G2):
            prof = g.gearcore.curve_gen_at_z(zz)
            w = g.gearcore.transform(prof.transform(outline(prof, n=21))) - apex
            R.close("slices on a common sphere", np.linalg.norm(w, axis=1), np.full(len(w), Rs * k), 1e-6 * Rs)
            U.append(w / np.linalg.norm(w, axis=1)[:, None])
            R.op()
        unit = Rs / m  # sphere radius in modules
        for s in range(d["K"]):
            ph = 2 * PI / z1 * s / d["K"]
            u1 = U[0] @ Rot.from_rotvec(a1 * ph).as_matrix().T
            u2 = U[1] @ Rot.from_rotvec((a2 if inn else -a2) * ph * z1 / z2).as_matrix().T
            P2 = Polygon(clean(stereo(u2, e)) * unit)
            P1 = Polygon(clean(stereo(u1, e)) * unit)
            R.op()
            R.state([d, zz, s])
            if not (P1.is_valid and P2.is_valid):
                R.fail("outline self-intersects")
                return R
            if hits(P1, P2, ring1, ring2):
                R.fail(f"teeth penetrate at phase {s}")
                return R
            for sg in (1, -1):
                play = (slack_b + 5 * EPS) / (z1 / 2)
                v1 = u1 @ Rot.from_rotvec(a1 * sg * play).as_matrix().T
                Q = Polygon(clean(stereo(v1, e)) * unit)
                if not hits(Q, P2, ring1, ring2):
                    R.fail(f"teeth lose contact turning {sg:+d} at phase {s}")
                    return R
    return R
