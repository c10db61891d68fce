"""C03 conjugate running: a meshed parallel-axis pair rolls through a whole tooth
cycle without teeth penetrating each other and without losing contact."""
from mc.geo import *
from mc.engine import Result
from mc.mesh import working
from mc.toothmodel import ToothModel
import shapely
from shapely.geometry import Polygon
from shapely import affinity

RULE = ("state = (pair, pose, slice, phase of the tooth cycle); transition = one rolling step of the meshed pair; "
        "monitor on every state: eroded outline of gear 1 never intersects gear 2, and turning either way by the "
        "allowed play makes them touch")
BOUNDS = {
    "quick": "external/internal spur, helical, herringbone and adapted cycloid pairs; teeth product, <=2 deviations of shape and pose parameters; 6 phases per tooth cycle, 1-2 slices",
    "thorough": "denser teeth products, <=3 deviations, 16 phases",
}
ASSUMPTIONS = [
    "pairs whose ideal geometry has no tip/root or trimming interference and contact ratio >= 1.05 (computed from the reference model)",
    "penetration and gap resolution 2e-3 module",
]
EPS = 2e-3


# ------------------------------------------------------------------ domain
def fits(s1, s2, B=0.0):
    """reference conditions for interference-free continuous running"""
    w = working(s1, s2, B)
    if w is None:
        return False
    D, aw = w
    m = s1.m
    D /= m
    if not (9 * DEG <= aw <= 36 * DEG):
        return False
    t1, t2 = ToothModel(s1), ToothModel(s2)
    for s, t in ((s1, t1), (s2, t2)):
        if s.half < 0.3 / s.z or s.half > s.pitch / 2 - 0.15 / s.z or t.rd < 0.4 * s.rp:
            return False
        if t.ra - t.rd < 0.8:
            return False
    if s1.ring or s2.ring:
        if s1.ring:
            s1, s2, t1, t2 = s2, s1, t2, t1
        # in hole coordinates the ring's "ra" is its root and "rd" its tip
        tip2, root2 = t2.rd, t2.ra
        if t2.tip_f or t2.root_f > 0.25:
            return False
        if t1.ra + D > root2 - 0.02 or tip2 - D < t1.rd + 0.02:
            return False
        if tip2 <= s2.rb + 0.02:
            return False
        L = D * math.sin(aw)
        # active flank of the pinion starts above its form circle
        lo1 = math.sqrt(tip2**2 - s2.rb**2) - L
        form1 = math.sqrt(max(t1.r_form**2 - s1.rb**2, 0))
        if lo1 < form1 + 0.05:
            return False
        # the ring root (fillet) must not be reached
        hi2 = L + math.sqrt(t1.ra**2 - s1.rb**2)
        rform2 = t2.ra - t2.root_f
        if hi2 > math.sqrt(max(rform2**2 - s2.rb**2, 0)) - 0.05:
            return False
        eps = (math.sqrt(t1.ra**2 - s1.rb**2) - lo1) / (s1.rb * s1.pitch)
        if eps < 1.05 or t1.sharp:
            return False
        # tip-tip trimming interference: tooth corners cross outside of the contact zone
        c = (D * D + t1.ra**2 - tip2**2) / (2 * D * t1.ra)
        if abs(c) < 1:
            ph1 = math.pi - math.acos(c)  # angle at pinion centre from the contact direction
            ph2 = math.acos((D * D + tip2**2 - t1.ra**2) / (2 * D * tip2))
            ph1 = math.atan2(t1.ra * math.sin(ph1), t1.ra * math.cos(ph1))
            a_tip = ph1 + s1.half - s1.half_at(t1.ra)
            # angle turned by the ring when the pinion tip corner passes, against the corner position
            th = (ph1 - (s1.half_at(t1.ra))) * s1.z / s2.z
            gap = th - (ph2 - s2.half_at(tip2))
            if gap < 0.02 / s2.rp * 2:
                return False
        if s2.z - s1.z < 10:
            return False
        return True
    if t1.ra + t2.bottom > D - 0.03 or t2.ra + t1.bottom > D - 0.03:
        return False
    if t1.sharp or t2.sharp:
        return False
    L = D * math.sin(aw)
    for sa, ta, sb, tb in ((s1, t1, s2, t2), (s2, t2, s1, t1)):
        lo = L - math.sqrt(tb.ra**2 - sb.rb**2)  # lowest active point on a
        rf = ta.r_form
        if ta.root_f:
            rf = max(rf, ta.rd + ta.root_f)
        form = math.sqrt(max(rf**2 - sa.rb**2, 0))
        if ta.use_trochoid and ta.u_eff < 0:
            # real undercut: flank starts where trochoid meets involute; be generous
            form = max(form, -ta.u_eff * 0.8 + 0.1)
        if lo < form + 0.05:
            return False
        if not ta.use_trochoid and lo < 0.05:
            return False
    ta1 = ta2 = 0
    tipr = [t.ra - (t.tip_f * 0.6 if t.tip_f else 0) for t in (t1, t2)]
    eps = (math.sqrt(tipr[0] ** 2 - s1.rb**2) + math.sqrt(tipr[1] ** 2 - s2.rb**2) - L) / (s1.rb * s1.pitch)
    return eps >= 1.05


# ------------------------------------------------------------------ items
def pair(d, kind):
    m, pa = d.get("m", 1.0), d.get("pa", 20 * DEG)
    com = dict(module=m, pressure_angle=pa)
    b = d.get("beta", 0.0)
    H = b != 0
    g1 = dict(com, c="HelicalGear" if H else "SpurGear", z=d["z1"])
    ring = kind in ("int", "rself")
    g2 = dict(com, c=("HelicalRingGear" if ring else "HelicalGear") if H else ("SpurRingGear" if ring else "SpurGear"), z=d["z2"] + (d["z1"] if ring else 0))
    if H:
        g1["helix_angle"] = b
        g2["helix_angle"] = b if ring else -b
        for g in (g1, g2):
            g["height"] = d.get("h", 3.0)
            if "hb" in d:
                g["herringbone"] = True
    for g, n in ((g1, "1"), (g2, "2")):
        for a, f in (("x", "profile_shift"), ("b", "backlash"), ("ha", "addendum_coefficient"), ("hd", "dedendum_coefficient"), ("tt", "tip_truncation"), ("tf", "tip_fillet"), ("rf", "root_fillet"), ("an", "z_anchor"), ("u", "enable_undercut")):
            if a + n in d:
                if ring and n == "2" and a in ("ha", "hd", "tf", "u"):
                    continue
                g[f] = d[a + n]
        if "h" in d:
            g["height"] = d["h"]
    if g1.get("root_fillet"):
        g1["enable_undercut"] = False
    if not ring and g2.get("root_fillet"):
        g2["enable_undercut"] = False
    if kind == "rself":
        g1, g2 = g2, g1
    if "a1" in d:
        g1["angle"] = d["a1"]
    if "a2" in d:
        g2["angle"] = d["a2"]
    if "c2" in d:
        g2["center"] = d["c2"]
    if "O2" in d:
        g2["O"] = d["O2"]
    it = dict(k=kind, g1=g1, g2=g2)
    if "dir" in d:
        it["dir"] = d["dir"]
    if "B" in d and not H:
        it["B"] = d["B"] * m
        if "bias" in d:
            it["bias"] = d["bias"]
    return it


A = dict(
    z1=[11, 19, 40, 64], z2=[13, 22, 55], m=[0.0005, 0.4, 3.0, 250.0], pa=[17.5 * DEG, 25 * DEG], x1=[0.3, -0.2], x2=[0.4, -0.2], b1=[0.05], b2=[0.08],
    ha1=[0.8], hd1=[1.35], tt1=[0.0], tf1=[0.1], rf2=[0.15], a1=[0.7], a2=[2.9, -0.4], c2=[[5, -3, 2]], O2=[[0.4, -1.1, 0.3], [0, 0, 2.0], [3.1, 0.2, 0]],
    dir=[[0, 1, 0], [-1, 0, 0], [-3, -4, 0], [2, -7, 0]], B=[0.1], bias=[1.0, -1.0], beta=[20 * DEG, -30 * DEG], an1=[0.5], an2=[0.5], u1=[False], hb=[1], h=[5.0],
)


def gen(tier):
    k = 2 if tier == "quick" else 3
    Z1 = [10, 17, 18, 23, 36] if tier == "quick" else [10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 23, 29, 36, 47, 64, 90]
    Z2 = [12, 17, 29, 45, 81] if tier == "quick" else [12, 13, 14, 15, 16, 17, 18, 20, 24, 29, 33, 45, 60, 81, 110]
    for z1 in Z1:
        for z2 in Z2:
            for kind in ("ext", "int", "rself"):
                yield pair(dict(z1=z1, z2=z2), kind)
                yield pair(dict(z1=z1, z2=z2, a2=1.0, dir=[-1, 2, 0]), kind)
    # the whole of a large clearance is taken up by angle_bias
    for kind in ("ext", "int", "rself"):
        for bias in (1.0, -1.0, 0.5):
            for B in (0.3, 0.6):
                for pa in (20 * DEG, 25 * DEG):
                    for z1, z2 in ((18, 31), (24, 60)):
                        yield pair(dict(z1=z1, z2=z2, B=B, bias=bias, pa=pa), kind)
                yield pair(dict(z1=18, z2=41, B=B, bias=bias, m=2.5, a2=0.8, dir=[-3, -4, 0]), kind)
    for d in deviations(dict(z1=18, z2=31), A, k):
        ch = tuple(sorted(x for x in d if x not in ("z1", "z2")))
        if ("bias" in d and "B" not in d) or ("hb" in d and "beta" not in d) or ("B" in d and "beta" in d):
            continue
        if "m" in d and d["m"] == 1.0:
            continue
        for kind in ("ext", "int", "rself"):
            yield pair(d, kind)


def ITEMS(tier):
    for d in gen(tier):
        if fits(Spec(d["g1"]), Spec(d["g2"]), d.get("B", 0.0)):
            if tier != "quick":
                d["K"] = 16
            yield d
    # cycloid pairs (adapted so that the rolling circles match)
    Z = [(8, 12), (13, 30), (20, 20), (40, 11)] if tier == "quick" else [(8, 12), (9, 9), (13, 30), (20, 20), (40, 11), (7, 60), (33, 34), (10, 80)]
    for z1, z2 in Z:
        for ci1 in (0.5, 0.3):
            for ci2 in (0.5, 0.25):
                base = dict(k="cyc", g1=dict(c="CycloidGear", z=z1, inside_cycloid_coefficient=ci1), g2=dict(c="CycloidGear", z=z2, inside_cycloid_coefficient=ci2))
                yield base
                yield dict(base, dir=[-1, 2, 0], g2=dict(base["g2"], angle=0.9, center=[1, 2, 3]), g1=dict(base["g1"], module=1.0))
                g1, g2 = dict(base["g1"], module=2.5, helix_angle=0.3, height=4.0), dict(base["g2"], module=2.5, helix_angle=-0.3, height=4.0, O=[0.4, -1.1, 0.3])
                yield dict(base, g1=g1, g2=g2)


# ------------------------------------------------------------------ check
def shape(gear, z, n):
    prof = gear.gearcore.curve_gen_at_z(z)
    return prof, outline(prof, n=n)


def clean(q):
    """drop repeated points where curves join"""
    keep = np.linalg.norm(q - np.roll(q, 1, axis=0), axis=1) > 1e-5
    return q[keep]


def hole_aware(P, ring, e):
    """material of the gear eroded by e>0 / grown by e<0 (outline polygon of a ring is its hole)"""
    return P.buffer(e if ring else -e, join_style=2, mitre_limit=2.0)


def hits(A, ra, B, rb):
    """do the two materials overlap (ring outlines are holes)"""
    if ra:
        return not A.contains(B)
    if rb:
        return not B.contains(A)
    return A.intersects(B)


def slice_check(R, g1, g2, zz, n, K, B, bias, ring1, ring2, unit, tag):
    O2, c2 = g2.gearcore.transform.orientation, g2.center
    W = []
    for g in (g1, g2):
        prof, pts = shape(g, zz, n)
        p = g.gearcore.transform(prof.transform(pts))
        q = (p - c2) @ O2
        W.append(q)
        cc = (g.gearcore.transform(prof.transform(np.zeros(3))) - c2) @ O2
        W.append(cc)
    (q1, cc1, q2, cc2) = W
    R.close("slices coplanar " + tag, q1[:, 2] - q2[0, 2], 0 * q1[:, 2], 1e-6 * unit)
    P1, P2 = Polygon(clean(q1[:, :2] / unit)), Polygon(clean(q2[:, :2] / unit))
    if not (P1.is_valid and P2.is_valid):
        R.fail("outline self-intersects " + tag)
        return
    o1, o2 = cc1[:2] / unit, cc2[:2] / unit
    z1, z2 = g1.number_of_teeth, g2.number_of_teeth
    P1e = hole_aware(P1, ring1, EPS)
    s = 1.0 if (ring1 or ring2) else -1.0
    rb1 = g1.r_base / unit if hasattr(g1, "r_base") else z1 / 2.0
    for k in range(K):
        ph1 = 2 * PI / z1 * k / K
        A1 = affinity.rotate(P1e, ph1, origin=tuple(o1), use_radians=True)
        A2 = affinity.rotate(P2, s * ph1 * z1 / z2, origin=tuple(o2), use_radians=True)
        R.op()
        R.state([tag, k])
        if hits(A1, ring1, A2, ring2):
            R.fail(f"teeth penetrate each other at phase {k}/{K} {tag}")
            return
        for sg in (1, -1):
            play = (B / unit / 2) * (1 - sg * bias) + 4 * EPS
            A1b = affinity.rotate(A1, sg * play / rb1, origin=tuple(o1), use_radians=True)
            if not hits(A1b, ring1, A2, ring2):
                R.fail(f"teeth lose contact (turning {sg:+d}) at phase {k}/{K} {tag}")
                return


def CHECK(d):
    R = Result()
    g1, g2 = make(d["g1"]), make(d["g2"])
    R.op(2)
    if d["k"] == "cyc":
        g1.adapt_cycloid_radii(g2)
        if "O" in d["g2"]:
            g2.gearcore.transform.orientation = rv(d["g2"]["O"])
        R.op()
    dr = np.array(d.get("dir", [1.0, 0, 0]), float)
    dr = g2.gearcore.transform.orientation @ dr
    B, bias = d.get("B", 0.0), d.get("bias", 0.0)
    ring1, ring2 = g1.inside_teeth, g2.inside_teeth
    if d["k"] == "cyc":
        g1.mesh_to(g2, target_dir=dr)
    elif d["g1"]["c"].startswith("Helical"):
        g1.mesh_to(g2, target_dir=dr)
    else:
        g1.mesh_to(g2, target_dir=dr, backlash=B, angle_bias=bias)
    R.op()
    unit = g1.module
    n = 25
    K = d.get("K", 6)
    zs = [0.0]
    if d["g1"].get("helix_angle"):
        lo = max(g1.gearcore.z_vals[0], g2.gearcore.z_vals[0])
        hi = min(g1.gearcore.z_vals[-1], g2.gearcore.z_vals[-1])
        zs = [float(lo), float(lo + 0.8 * (hi - lo))]
    # axis of the moved gear
    R.close("parallel axes", g1.gearcore.transform.z_axis, g2.gearcore.transform.z_axis, 1e-9)
    for zz in zs:
        slice_check(R, g1, g2, zz, n, K, B, bias, ring1, ring2, unit, f"slice {zz:.3f} {json_key(d)}")
    return R


def json_key(d):
    import hashlib, json
    return hashlib.blake2b(json.dumps(d, sort_keys=True).encode(), digest_size=4).hexdigest()
