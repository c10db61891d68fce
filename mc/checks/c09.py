"""C09 shape along the width: helix, herringbone, cone taper and crowning of every slice."""
from mc.geo import *
from mc.engine import Result
from mc.toothmodel import ToothModel

RULE = ("state = (gear configuration, position along the width); transition = generating the slice of the real gear there; oracle = closed-form helix, "
        "taper and crowning laws from the descriptor; crowned pairs: the same meshing without crowning")
BOUNDS = {
    "quick": "9 gear kinds, all <=2 simultaneous deviations of width/helix/crowning/shape/pose parameters, 9 positions along the width (also outside it); crowned pairs 8 kinds x crownings x anchors",
    "thorough": "all <=3 simultaneous deviations",
}
ASSUMPTIONS = ["crowning of ring gears is not judged (the library's ring profile is the tooth space and the documentation does not say which side crowning acts on)"]

WID = dict(height=[0.4, 5.0], z_anchor=[0.5, 1.0, 0.2], module=[0.5, 150.0])
POSE = dict(center=[[4, -7, 2.5]], O=[[0.4, -1.1, 0.3]], angle=[-2.0])
CR = dict(crowning=[100.0, 40.0])
KINDS = dict(
    spur=(dict(c="SpurGear", z=18, enable_undercut=False, tip_truncation=0.0), dict(CR, z=[9, 41], enable_undercut=[True], backlash=[0.05], profile_shift=[0.3], pressure_angle=[25 * DEG])),
    inv=(dict(c="InvoluteGear", z=18, enable_undercut=False), dict(CR, z=[30], helix_angle=[0.3, -0.6], enable_undercut=[True], root_fillet=[0.15])),
    hel=(dict(c="HelicalGear", z=18, enable_undercut=False), dict(CR, helix_angle=[-0.4, 0.1, 0.8], herringbone=[True], z=[8, 31], profile_shift=[0.3], pressure_angle=[25 * DEG], addendum_coefficient=[0.8])),
    long=(dict(c="HelicalGear", z=6, height=60.0, helix_angle=0.8, enable_undercut=False), dict(herringbone=[True], z_anchor=[0.5], module=[2.0], helix_angle=[-1.0])),
    ring=(dict(c="SpurRingGear", z=40), dict(z=[25], profile_shift=[0.2])),
    hring=(dict(c="HelicalRingGear", z=40), dict(helix_angle=[-0.4, 0.8], herringbone=[True], profile_shift=[0.2])),
    cyc=(dict(c="CycloidGear", z=14), dict(CR, z=[25], helix_angle=[0.3, -0.5], backlash=[0.05], inside_cycloid_coefficient=[0.3])),
    bevel=(dict(c="BevelGear", z=20, cone_angle=1.2, enable_undercut=False), dict(CR, cone_angle=[0.5, 2.2], helix_angle=[0.3, -0.5], z=[31])),
    cycbev=(dict(c="CycloidGear", z=24, cone_angle=1.2), dict(CR, helix_angle=[0.2], cone_angle=[0.6])),
)
P = [0.0, 0.1, 0.25, 0.5, 0.61, 0.75, 1.0]
PAIRS = [
    (dict(c="SpurGear", z=15), dict(c="SpurGear", z=24)),
    (dict(c="InvoluteGear", z=15, profile_shift=0.3), dict(c="InvoluteGear", z=24, profile_shift=-0.1)),
    (dict(c="HelicalGear", z=15, helix_angle=0.4), dict(c="HelicalGear", z=24, helix_angle=-0.4)),
    (dict(c="HelicalGear", z=15, helix_angle=PI / 4), dict(c="HelicalGear", z=24, helix_angle=PI / 4)),
    (dict(c="SpurGear", z=15), dict(c="SpurRingGear", z=45)),
    (dict(c="HelicalGear", z=15, helix_angle=0.3), dict(c="HelicalRingGear", z=45, helix_angle=0.3)),
    (dict(c="CycloidGear", z=12), dict(c="CycloidGear", z=20)),
    (dict(c="BevelGear", z=12, cone_angle=2 * math.atan(12 / 20)), dict(c="BevelGear", z=20, cone_angle=2 * math.atan(20 / 12))),
]


def ok(g):
    sp = Spec(g)
    if sp.cone:
        lo, hi = sp.z_range()
        if min(1 - zz * 2 * math.sin(sp.gamma) / sp.z for zz in (lo, hi)) < 0.3:
            return False
    return True


def ITEMS(tier):
    k = 2 if tier == "quick" else 3
    for n, (base, al) in KINDS.items():
        al = dict(WID, **POSE, **al)
        for g in deviations(base, al, k):
            if ok(g):
                yield dict(k="slices", g=g)
    for i, (a, b) in enumerate(PAIRS):
        for cr in [(100.0, 0.0), (0.0, 60.0), (60.0, 100.0)]:
            for za in (0.0, 0.5, 1.0):
                for first in (0, 1):
                    yield dict(k="pair", i=i, cr=list(cr), za=za, first=first)


def flank_angles(prof, sp, rs):
    """polar angle of the flank (lower one, negative angles) at the given radii of the slice frame; for cones
    at the given fractions of the cone angle"""
    c = prof.tooth_curve
    s = np.linspace(0, 1, 161)
    pts = ev(c, s)
    key = radius_key(pts, sp)
    ang = np.arctan2(pts[:, 1], pts[:, 0])
    out = []
    for r in rs:
        # first crossing, refined by bisection on the real curve
        i = np.nonzero((key[:-1] - r) * (key[1:] - r) <= 0)[0]
        if len(i) == 0:
            out.append(np.nan)
            continue
        lo, hi = s[i[0]], s[i[0] + 1]
        klo = key[i[0]] - r
        for _ in range(40):
            mid = 0.5 * (lo + hi)
            p = ev(c, [mid])
            km = radius_key(p, sp)[0] - r
            if km * klo > 0:
                lo, klo = mid, km
            else:
                hi = mid
        p = ev(c, [0.5 * (lo + hi)])[0]
        out.append(math.atan2(p[1], p[0]))
    return np.array(out)


def radius_key(pts, sp):
    r = np.hypot(pts[:, 0], pts[:, 1])
    if sp.cone:
        h = sp.rp / math.tan(sp.gamma)
        return np.arctan2(r, h - pts[:, 2]) / sp.gamma * sp.rp
    return r


def CHECK(d):
    return dict(slices=check_slices, pair=check_pair)[d["k"]](d)


def check_slices(d):
    R = Result()
    g = d["g"]
    sp = Spec(g)
    gear = make(g)
    R.op()
    m, rp = sp.m, sp.rp
    O = rv(g["O"]) if "O" in g else np.eye(3)
    lo, hi = sp.z_range()
    mid = 0.5 * (lo + hi)
    cg, sg = math.cos(sp.gamma), math.sin(sp.gamma)
    zv = np.asarray(gear.gearcore.z_vals, float)
    R.close("first z level", zv[0], lo, 1e-9 * (1 + abs(lo)))
    R.close("last z level", zv[-1], hi, 1e-9 * (1 + abs(hi)))
    R.true("z levels ascend strictly", bool(np.all(np.diff(zv) > 1e-9)))
    herring = bool(g.get("herringbone"))
    if herring:
        R.true("herringbone apex is a z level", np.min(np.abs(zv - mid)) < 1e-9 * (1 + abs(mid)))
    L = m * (sp.z + 10)

    def twist(z):
        if herring:
            z = mid - abs(mid - z)
        return z * math.tan(sp.helix) / rp

    # between consecutive levels the teeth turn less than two full turns (the solid is lofted level by level)
    for a, b in zip(zv[:-1], zv[1:]):
        R.true("twist between levels is bounded", abs(twist(b) - twist(a)) < 4 * PI)
    bm = ToothModel(sp) if sp.cls not in ("CycloidGear",) and not sp.cone else None
    sgn = None
    rs = [rp - 0.4, rp, rp + 0.5] if not sp.ring else [rp - 0.5, rp, rp + 0.4]
    if bm is not None and not sp.ring:
        rs = [r for r in rs if r > max(bm.r_form if bm.use_trochoid else sp.rb, sp.rb) + 0.02 and r < bm.ra - 0.05]
        if bm.root_f and not sp.undercut:
            rf = bm.root_fillet()
            rs = [r for r in rs if rf is None or r > rf[2] + 0.02]
    ref = None
    zs = [(1 - p) * lo + p * hi for p in P]
    if not sp.cone and not g.get("crowning"):
        zs += [lo - 0.3, hi + 0.4]
    for z in [mid] + zs:
        prof = gear.gearcore.curve_gen_at_z(z)
        R.op()
        sc = 1 - z * 2 * sg / sp.z
        # placement of the slice
        tf = prof.transform
        probe = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]])
        world = gear.gearcore.transform(tf(probe))
        want_local = (probe * sc) @ Rz(twist(z)).T + V(0, 0, z * cg)
        want = sp.center + (want_local * m) @ (O @ Rz(sp.angle)).T
        R.close("placement of the slice @%.3g" % z, world, want, 1e-9 * L * (1 + abs(twist(z))))
        # tooth shape in the slice
        a = flank_angles(prof, sp, rs)
        R.true("flank crosses every probed radius", bool(np.all(np.isfinite(a))))
        zr = (z - mid) / (0.5 * (hi - lo))
        red = sp.crown * 1e-3 * zr * zr / rp
        if ref is None:
            ref = a
            sgn = -1.0 if np.nanmean(a) < 0 else 1.0
            if not sp.cone and bm is not None and not sp.ring:
                R.close("nominal thickness in the middle", sgn * a, [bm.half(r) for r in rs], 1e-6)
            if sp.cls == "CycloidGear":
                R.close("nominal thickness in the middle", sgn * a[1], sp.pitch / 4 - sp.bl / rp, 1e-6)
            R.state(["nominal", sp.cls])
        else:
            R.close("crowned thickness @%.3g" % z, sgn * a, sgn * ref - red, 2e-6)
        R.state([g, round(z, 6)])
    return R


def pose_of(gear):
    t = gear.gearcore.transform
    return np.asarray(t.center, float), np.asarray(t.orientation, float), float(t.angle)


def check_pair(d):
    """crowning does not change where the gears go and how they are turned"""
    R = Result()
    a, b = PAIRS[d["i"]]
    pos = []
    for cr in ([0.0, 0.0], d["cr"]):
        ga = dict(a, crowning=cr[0], z_anchor=d["za"], height=2.0)
        gb = dict(b, crowning=cr[1], z_anchor=d["za"], height=2.0)
        if d["first"]:
            ga, gb = gb, ga
        if Spec(ga).ring and ga["crowning"] or Spec(gb).ring and gb["crowning"]:
            ga["crowning"] = gb["crowning"] = 0.0 if Spec(ga).ring else cr[0]
            (ga if Spec(ga).ring else gb)["crowning"] = 0.0
        A, B = make(ga), make(gb)
        B.gearcore.transform.center = V(1, -2, 3)
        B.gearcore.transform.orientation = rv([0.3, -0.2, 0.9])
        B.angle = 0.4
        tdir = rv([0.3, -0.2, 0.9]) @ V(math.cos(0.7), math.sin(0.7), 0)
        A.mesh_to(B, target_dir=tdir)
        R.op(2)
        pos.append((pose_of(A), Spec(ga)))
    (p0, sp), (p1, _) = pos
    R.close("centre of a crowned pair", p1[0], p0[0], 1e-7 * sp.z)
    R.close("orientation of a crowned pair", p1[1], p0[1], 1e-7)
    R.close("phase of a crowned pair", wrap(p1[2] - p0[2], sp.pitch), 0.0, 1e-7)
    R.state(d)
    return R
