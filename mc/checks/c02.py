"""C02 centre distance: a meshed pair sits at the exact working centre distance."""
from mc.geo import *
from mc.engine import Result
from mc.mesh import working
import gggears.gearmath as gm

RULE = ("state = one (gear, gear, requested clearance, direction) combination; transition = one placement, distance or "
        "clearance computation on the real objects; oracle = closed-form involute-function equation solved by bisection")
BOUNDS = {
    "quick": "external/internal/helical/crossed pairs: teeth x teeth full product, profile shifts, pressure angles, module, clearance; <=2 simultaneous deviations plus full shift x shift x teeth products",
    "thorough": "as quick with denser teeth/shift grids and <=3 simultaneous deviations",
}
ASSUMPTIONS = ["pairs whose working pressure angle exists (>= 2 degrees) and is below 40 degrees; both gears share module and pressure angle"]


def items_ext(tier):
    T1 = [8, 12, 17, 24, 43, 97] if tier == "quick" else [6, 7, 8, 9, 10, 12, 15, 17, 19, 24, 31, 43, 60, 97, 150]
    T2 = [9, 12, 23, 40, 120] if tier == "quick" else [6, 8, 9, 12, 14, 18, 23, 29, 40, 77, 120]
    X = [-0.4, 0.0, 0.3, 0.6] if tier == "quick" else [-0.5, -0.4, -0.2, 0.0, 0.1, 0.3, 0.6, 0.8]
    for z1 in T1:
        for z2 in T2:
            for x1 in X:
                for x2 in X:
                    for B in (0.0, 0.2):
                        yield dict(k="ext", g1=dict(c="SpurGear", z=z1, profile_shift=x1), g2=dict(c="SpurGear", z=z2, profile_shift=x2), B=B)
            for dz in (0,):
                pass
    for z1 in T1:
        for dz in [10, 14, 25, 60]:
            for x1 in X:
                for x2 in X:
                    for B in (0.0, 0.1):
                        p = dict(c="SpurGear", z=z1, profile_shift=x1)
                        r = dict(c="SpurRingGear", z=z1 + dz, profile_shift=x2)
                        yield dict(k="int", g1=p, g2=r, B=B)
                        yield dict(k="int", g1=r, g2=p, B=B)


def items_dev(tier):
    k = 2 if tier == "quick" else 3
    A = dict(
        pa=[14.5 * DEG, 17.5 * DEG, 25 * DEG, 30 * DEG], m=[0.002, 0.3, 2.5, 250.0], x1=[-0.3, 0.45], x2=[-0.3, 0.45], b1=[0.05, 0.15], b2=[0.05],
        z1=[9, 57], z2=[11, 80], B=[0.01, 0.3], ang1=[0.9], ang2=[-4.0], c2=[[5, -3, 2]], O2=[[0.4, -1.1, 0.3]], dir=[[0, 1, 0], [-3, 4, 0], [0.6, -0.2, 0]],
        h=[7.5], u=[False], tr=[0.0], an=[0.5], ha=[0.8], neg=[1], cr=[200.0],
    )
    for d in deviations(dict(z1=21, z2=34, m=1.0, pa=20 * DEG), A, k):
        for kind in ("ext", "int", "int2"):
            m, pa = d["m"], d["pa"]
            g1 = dict(c="SpurGear", z=d["z1"], module=m, pressure_angle=pa, profile_shift=d.get("x1", 0.0), backlash=d.get("b1", 0.0))
            g2 = dict(c="SpurGear", z=d["z2"], module=m, pressure_angle=pa, profile_shift=d.get("x2", 0.0), backlash=d.get("b2", 0.0))
            if kind != "ext":
                g2["c"] = "SpurRingGear"
                g2["z"] = d["z1"] + d["z2"]
                if d.get("neg"):
                    g2.update(c="InvoluteGear", z=-g2["z"], enable_undercut=False, addendum_coefficient=1.2, dedendum_coefficient=1.0)
            for g in (g1, g2):
                if "h" in d:
                    g["height"] = d["h"]
                if "an" in d:
                    g["z_anchor"] = d["an"]
                if "tr" in d:
                    g["tip_truncation"] = d["tr"]
                if "u" in d and g["c"] == "SpurGear":
                    g["enable_undercut"] = False
            if "cr" in d:
                g1["height"] = 10.0
                g1["crowning"] = 0.0
            if "ha" in d:
                g1["addendum_coefficient"] = d["ha"]
            if "ang1" in d:
                g1["angle"] = d["ang1"]
            if "ang2" in d:
                g2["angle"] = d["ang2"]
            if "c2" in d:
                g2["center"] = d["c2"]
            if "O2" in d:
                g2["O"] = d["O2"]
            it = dict(k="ext" if kind == "ext" else "int", g1=g1, g2=g2, B=d.get("B", 0.0) * m)
            if "dir" in d:
                it["dir"] = d["dir"]
            if kind == "int2":
                it["g1"], it["g2"] = g2, g1
                if "O2" in d:  # orientation belongs to the fixed gear
                    it["g2"] = dict(g1, O=d["O2"])
                    it["g1"] = {a: b for a, b in g2.items() if a != "O"}
            yield it


def items_helical(tier):
    B = [15, 30, 45] if tier == "quick" else [8, 15, 22.5, 30, 38, 45]
    for b in B:
        for s in (1, -1):
            for z1 in (9, 14, 31):
                for z2 in (12, 47):
                    for x1 in (0.0, 0.4, -0.2):
                        for x2 in (0.0, 0.3):
                            for hb in (False, True):
                                g1 = dict(c="HelicalGear", z=z1, helix_angle=s * b * DEG, profile_shift=x1, module=1.5, herringbone=hb)
                                yield dict(k="ext", g1=g1, g2=dict(c="HelicalGear", z=z2, helix_angle=-s * b * DEG, profile_shift=x2, module=1.5, herringbone=hb), B=0.0)
                                r = dict(c="HelicalRingGear", z=z1 + z2 + 10, helix_angle=s * b * DEG, profile_shift=x2, module=1.5, herringbone=hb)
                                yield dict(k="int", g1=g1, g2=r, B=0.0)
                                yield dict(k="int", g1=r, g2=g1, B=0.0)
    A = [0, 10, 20, 30, 45, 60, -10, -20, -30, -45, -60]
    for b1 in A:
        for b2 in A:
            for z1, z2 in ((17, 17), (12, 30), (40, 21)):
                yield dict(k="cross", g1=dict(c="HelicalGear", z=z1, helix_angle=b1 * DEG, module=2.0), g2=dict(c="HelicalGear", z=z2, helix_angle=b2 * DEG, module=2.0))


def domain(d):
    s1, s2 = Spec(d["g1"]), Spec(d["g2"])
    for s in (s1, s2):
        if s.half < 0.3 / s.z or s.half > s.pitch / 2 - 0.15 / s.z or s.hd >= s.rp * 0.8:
            return False
    if d["k"] == "cross":
        return True
    w = working(s1, s2, d["B"])
    return w is not None and 2 * DEG <= w[1] <= 40 * DEG


def ITEMS(tier):
    for f in (items_ext, items_dev, items_helical):
        for d in f(tier):
            if domain(d):
                yield d


def CHECK(d):
    R = Result()
    s1, s2 = Spec(d["g1"]), Spec(d["g2"])
    g1, g2 = make(d["g1"]), make(d["g2"])
    R.op(2)
    dr = np.array(d.get("dir", [1, 0, 0]), float)
    if "O" in d["g2"]:
        dr = rv(d["g2"]["O"]) @ dr  # keep the direction in the plane of rotation
    c2 = np.array(d["g2"].get("center", [0, 0, 0]), float)
    scale = s1.m * (s1.rp + s2.rp)
    if d["k"] == "cross":
        g1.mesh_to(g2, target_dir=dr)
        R.op()
        v = g1.center - c2
        R.close("crossed-axis distance", np.linalg.norm(v), s1.rp * s1.m + s2.rp * s2.m, 1e-7 * scale)
        return R
    dist, aw = working(s1, s2, d["B"])
    if d["g1"]["c"].startswith("Helical"):
        g1.mesh_to(g2, target_dir=dr)
    else:
        g1.mesh_to(g2, target_dir=dr, backlash=d["B"])
    R.op()
    v = g1.center - c2
    R.close("centre distance", np.linalg.norm(v), dist, 1e-7 * scale)
    R.close("fixed gear centre", g2.center, c2, 1e-12)
    R.close("base radius 1", g1.r_base, s1.rb * s1.m, 1e-7 * scale)
    R.close("base radius 2", g2.r_base, s2.rb * s2.m, 1e-7 * scale)
    # the functions behind it, called directly
    ring = s1.ring or s2.ring
    args = (s1.rb * s1.m, s2.rb * s2.m, s1.half + inv(s1.alpha), s2.half + inv(s2.alpha), s2.pitch)
    D = gm.calc_involute_mesh_distance(*args, inside_ring=ring, backlash=d["B"])
    R.close("computed distance", abs(D), dist, 1e-7 * scale)
    b = gm.backlash_from_ax_distance(D, *args, inside_ring=ring)
    R.close("clearance from distance", b, d["B"], 1e-6 * scale)
    kw = dict(inside_ring=True) if ring else {}
    if d["B"]:
        kw["backlash"] = d["B"]
    R.close("computed distance, other arguments left out", abs(gm.calc_involute_mesh_distance(*args, **kw)), dist, 1e-7 * scale)
    if not ring:
        R.close("clearance from distance, ring flag left out", gm.backlash_from_ax_distance(D, *args), d["B"], 1e-6 * scale)
    # distance at which the shifted reference circles touch
    kw = {}
    if s1.ring:
        kw["inside_ring_1"] = True
    if s2.ring:
        kw["inside_ring_2"] = True
    sg1, sg2 = (-1 if s2.ring else 1), (-1 if s1.ring else 1)
    R.close("nominal distance", gm.calc_nominal_mesh_distance(s1.rp * s1.m, s2.rp * s2.m, s1.x, s2.x, s1.m, **kw), s1.m * (sg1 * (s1.rp + s1.x) + sg2 * (s2.rp + s2.x)), 1e-9 * scale)
    R.op(5)
    return R
