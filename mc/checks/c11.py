"""C11 cycloid gears: exact epi-/hypocycloid flanks, adapted pairs share their rolling
circles and run without penetration or lost contact."""
import itertools
import warnings
from shapely.affinity import rotate, translate
from mc.geo import *
from mc.engine import Result
from mc.mesh import poly

ITEM_TIMEOUT = 120
RULE = ("state = (gear, slice) with every flank point compared with the epi-/hypocycloid of the requested rolling circles; or (pair, history of adapt/mesh/move operations, rolling phase) "
        "with rolling-circle coefficients compared with a reference state machine and outlines rolled through a tooth cycle")
BOUNDS = {
    "quick": "all external and ring gears within 2 parameter deviations; all histories of 3 adapt/mesh/recalculate operations on 4 pairs; 12 phases per rolled pair",
    "thorough": "3 deviations; histories of 4 operations; 24 phases, more tooth pairs",
}
ASSUMPTIONS = ["six teeth or more, rolling circles large enough for the requested addendum and dedendum", "pairs are rolled with the tooth ratio"]


class CycModel:
    """unit module, from the documented parameters"""

    def __init__(self, g, ci=None, co=None):
        self.z = g["z"]
        self.rp = self.z / 2
        self.ri = (g.get("inside_cycloid_coefficient", 0.5) if ci is None else ci) * self.rp
        self.ro = (g.get("outside_cycloid_coefficient", 0.5) if co is None else co) * self.rp
        self.pitch = 2 * PI / self.z
        self.half = self.pitch / 4 - g.get("backlash", 0.0) / self.rp
        self.rd = self.rp - g.get("dedendum_coefficient", 1.2)
        self.pointed = self.point_radius()
        ra = self.rp + g.get("addendum_coefficient", 1.0)
        tt = g.get("tip_truncation", 0.1)
        if self.pointed is not None:
            if tt > 0:
                ra = min(ra, self.pointed - tt)
            ra = min(ra, self.pointed)
        self.ra = ra
        self.tf, self.rf = g.get("tip_fillet", 0.0), g.get("root_fillet", 0.0)
        self.r_min = abs(self.rp - 2 * self.ri)  # innermost point of the hypocycloid
        self.r_max = self.rp + 2 * self.ro

    def epi(self, r):
        b = math.acos(float(np.clip(((self.rp + self.ro) ** 2 + self.ro**2 - r * r) / (2 * self.ro * (self.rp + self.ro)), -1, 1)))
        t = b * self.ro / self.rp
        return t + math.atan2(-self.ro * math.sin(b), self.rp + self.ro - self.ro * math.cos(b))

    def hypo(self, r):
        q = self.rp - self.ri
        b = math.acos(float(np.clip((r * r - q * q - self.ri**2) / (2 * self.ri * q), -1, 1))) if q else 0.0
        return -b * self.ri / self.rp + math.atan2(self.ri * math.sin(b), q + self.ri * math.cos(b))

    def half_at(self, r):
        return self.half - (self.epi(r) if r >= self.rp else self.hypo(r))

    def point_radius(self):
        """radius where both flanks meet, None when the epicycloid turns back before"""
        lo, hi = self.rp, self.rp + 2 * self.ro
        if self.half - self.epi(hi) > 0:
            return None
        for _ in range(100):
            m = 0.5 * (lo + hi)
            if self.half - self.epi(m) > 0:
                lo = m
            else:
                hi = m
        return lo

    def in_domain(self):
        return self.r_min < self.rd - 0.02 and self.ra < self.r_max - 0.02 and self.half > 0


FL = dict(z=[6, 8, 17, 40, 91], inside_cycloid_coefficient=[0.3, 0.45, 0.7], outside_cycloid_coefficient=[0.25, 0.4, 0.8], addendum_coefficient=[0.6, 1.3], dedendum_coefficient=[0.9, 1.5],
          backlash=[0.05, -0.04], tip_truncation=[0.0, 0.3], tip_fillet=[0.1], root_fillet=[0.15], module=[0.004, 250.0], helix_angle=[0.35], z_anchor=[0.5], inside_teeth=[True], height=[3.0])
PAIRS = [
    (dict(c="CycloidGear", z=11, inside_cycloid_coefficient=0.5), dict(c="CycloidGear", z=24, inside_cycloid_coefficient=0.35)),
    (dict(c="CycloidGear", z=16, module=2.0, inside_cycloid_coefficient=0.3, outside_cycloid_coefficient=0.2), dict(c="CycloidGear", z=9, module=2.0, inside_cycloid_coefficient=0.5, outside_cycloid_coefficient=0.7)),
    (dict(c="CycloidGear", z=12, inside_cycloid_coefficient=0.4, outside_cycloid_coefficient=0.6), dict(c="CycloidGear", z=40, inside_teeth=True, inside_cycloid_coefficient=0.2, outside_cycloid_coefficient=0.12)),
    (dict(c="CycloidGear", z=44, inside_teeth=True, inside_cycloid_coefficient=0.1, outside_cycloid_coefficient=0.12, module=1.5), dict(c="CycloidGear", z=15, inside_cycloid_coefficient=0.35, outside_cycloid_coefficient=0.6, module=1.5)),
]
OPS = ["adapt12", "adapt21", "mesh12", "mesh21", "calc1", "set1"]
ROLLS = [(8, 12), (13, 30), (20, 20), (7, 25), (30, 9)]
ROLLT = ROLLS + [(9, 9), (40, 11), (6, 60), (33, 34), (10, 80), (6, 17)]
RINGS = [(12, 40), (9, 33), (20, 55)]
RINGT = RINGS + [(7, 30), (15, 60), (10, 26), (31, 70)]


def ITEMS(tier):
    q = tier == "quick"
    for g in deviations(dict(c="CycloidGear", z=13), FL, 2 if q else 3):
        m = CycModel(g)
        if m.in_domain():
            yield dict(k="flank", g=g)
    for ci in (0.45, 0.5, 0.6, 0.7):  # small counts, where the extended root side comes close to the tip
        for co in (0.4, 0.5):
            g = dict(c="CycloidGear", z=5, inside_cycloid_coefficient=ci, outside_cycloid_coefficient=co)
            if CycModel(g).in_domain():
                yield dict(k="flank", g=g)
    for i in range(len(PAIRS)):
        for h in itertools.product(range(len(OPS)), repeat=3 if q else 4):
            if OPS[h[-1]] in ("mesh12", "mesh21") and h[-1] == h[-2]:
                continue
            yield dict(k="hist", i=i, h=list(h))
    # rolled pairs
    cs = [(0.5, 0.5), (0.35, 0.5), (0.4, 0.3)]
    for z1, z2 in ROLLS if q else ROLLT:
        for c1, c2 in cs:
            for var in ({}, dict(module=2.5, p=1), dict(backlash=0.04), dict(helix_angle=0.3, height=3.0, p=1)):
                yield dict(k="roll", z1=z1, z2=z2, c1=c1, c2=c2, ring=0, n=12 if q else 24, var=var)
    for z1, z2 in RINGS if q else RINGT:
        for ci in (0.5, 0.35):
            for co in (0.3, 0.45):  # rolling circle outside the pinion's pitch circle, of the pinion radius
                for ring in (1, 2):
                    for var in ({}, dict(module=2.5, p=1), dict(helix_angle=0.3, height=3.0, p=1)):
                        yield dict(k="roll", z1=z1, z2=z2, c1=ci, c2=co * z1 / z2, ring=ring, n=12 if q else 24, var=var)


def CHECK(d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return dict(flank=flank, hist=hist, roll=roll)[d["k"]](d)


def flank_check(R, gear, M, what="", zs=None):
    zv = gear.gearcore.z_vals
    for zz in zs or (zv[0], 0.4 * zv[0] + 0.6 * zv[-1]):
        pr = gear.gearcore.curve_gen_at_z(zz)
        P = profile_points(pr, 25)
        turned = {k: v for k, v in P.items()}
        a, b = turned["tooth_curve"], turned["tooth_curve_mirror"]
        R.close(what + "mirror image: ends", b[[-1, 0]] * [1, -1, 1], a[[0, -1]], 1e-6)
        a = np.vstack([a, b[::-1] * [1, -1, 1]])
        if M.rf or M.tf:
            dense = ev(pr.tooth_curve, np.linspace(0, 1, 161))
            rz = np.linalg.norm(dense[:, :2], axis=1)
        r = np.linalg.norm(a[:, :2], axis=1)
        ang = np.arctan2(a[:, 1], a[:, 0])
        lo = M.rd + (2.6 * M.rf if M.rf else 0) + 1e-7
        hi = M.ra - (2.6 * M.tf if M.tf else 0) - 1e-7
        sel = (r >= lo) & (r <= hi)
        R.true(what + "flank has points between root and tip", sel.sum() >= 3 or (M.rf or M.tf))
        if sel.any():
            R.close(what + "flank off the cycloid", (-ang[sel] - np.array([M.half_at(x) for x in r[sel]])) * r[sel], np.zeros(sel.sum()), 2e-5)
        if pr.ra_curve.active:
            rr = np.linalg.norm(P["ra_curve"][:, :2], axis=1)
            R.close(what + "tip radius", rr, np.full(len(rr), M.ra), 2e-5)
        else:
            R.close(what + "pointed tip", r.max(), M.ra, 2e-5 if not M.tf else 0.2)
        if pr.rd_curve.active:
            rr = np.linalg.norm(P["rd_curve"][:, :2], axis=1)
            R.close(what + "root radius", rr, np.full(len(rr), M.rd), 2e-5)
        R.le(what + "outline outside the tip circle", r.max() - M.ra, 2e-5)
        R.le(what + "outline inside the root circle", M.rd - r.min(), 2e-5)
        for rho, ra_, sgn in ((M.rf, M.rd, 1), (M.tf, M.ra, -1)):
            if not rho:
                continue
            # rounding: circle of the requested radius, touching the root (tip) circle
            q = dense[(rz < lo) if sgn > 0 else (rz > hi)]
            dev = np.abs((-np.arctan2(q[:, 1], q[:, 0]) - np.array([M.half_at(min(max(x, M.rd), M.ra)) for x in np.linalg.norm(q[:, :2], axis=1)])) * np.linalg.norm(q[:, :2], axis=1))
            q = q[dev > 1e-4]
            room = (M.pitch / 2 - M.half_at(M.rd)) * M.rd if sgn > 0 else M.half_at(M.ra) * M.ra
            if room > 1.2 * rho:
                R.true(what + ("root" if sgn > 0 else "tip") + " rounding is there", len(q) >= 3)
            if len(q) >= 3:
                A = np.column_stack([2 * q[:, 0], 2 * q[:, 1], np.ones(len(q))])
                sol = np.linalg.lstsq(A, (q[:, :2] ** 2).sum(1), rcond=None)[0]
                rad = math.sqrt(sol[2] + sol[0] ** 2 + sol[1] ** 2)
                R.close(what + ("root" if sgn > 0 else "tip") + " rounding radius", rad, rho, 2e-3)
                if abs(math.atan2(sol[1], sol[0])) > (M.pitch / 2 if sgn > 0 else 10) - 1e-6:
                    continue  # the rounding of both sides meets in the gap: no root circle left
                R.close(what + ("root" if sgn > 0 else "tip") + " rounding touches its circle", math.hypot(sol[0], sol[1]), ra_ + sgn * rho, 2e-3)
        # turn of the slice
        R.state([what, gear.number_of_teeth, round(float(zz), 4)])


def flank(d):
    R = Result()
    g = d["g"]
    gear = make(g)
    R.op()
    M = CycModel(g)
    flank_check(R, gear, M)
    R.state(d)
    return R


def pair_state(g1, g2):
    return [g1.get("inside_cycloid_coefficient", 0.5), g1.get("outside_cycloid_coefficient", 0.5), g2.get("inside_cycloid_coefficient", 0.5), g2.get("outside_cycloid_coefficient", 0.5)]


def adapt_ref(s, za, zb, ra, rb):
    """a.adapt_cycloid_radii(b) on [in_a, out_a, in_b, out_b]"""
    ia, oa, ib, ob = s
    if ra:  # a is the ring: its inside circle follows the pinion's inside, the pinion's outside follows the ring's outside
        return [ib * zb / za, oa, ib, oa * za / zb]
    if rb:
        return [ia, ob * zb / za, ia * za / zb, ob]
    return [ia, ib * zb / za, ib, ia * za / zb]


def pose(g):
    t = g.gearcore.transform
    return np.concatenate([np.array(t.center, float), np.array(t.orientation, float).ravel(), [float(t.angle), float(t.scale)]])


def hist(d):
    R = Result()
    d1, d2 = PAIRS[d["i"]]
    g1, g2 = make(dict(d1, center=[1.0, 2.0, 0.5], angle=0.3)), make(dict(d2, angle=-0.7, O=[0.2, 0.5, -0.4]))
    ring = (bool(d1.get("inside_teeth")), bool(d2.get("inside_teeth")))
    z = (d1["z"], d2["z"])
    want = pair_state(d1, d2)  # declared coefficients
    drawn = list(want)  # coefficients of the drawn outlines
    for j, i in enumerate(d["h"]):
        op = OPS[i]
        p1, p2 = pose(g1), pose(g2)
        moved = [False, False]
        if op == "adapt12":
            g1.adapt_cycloid_radii(g2)
            want = adapt_ref(want, z[0], z[1], ring[0], ring[1])
            drawn = list(want)
        elif op == "adapt21":
            g2.adapt_cycloid_radii(g1)
            w = adapt_ref(want[2:] + want[:2], z[1], z[0], ring[1], ring[0])
            want = w[2:] + w[:2]
            drawn = list(want)
        elif op == "mesh12":
            g1.mesh_to(g2, target_dir=g2.gearcore.transform.orientation @ np.array([0.6, -0.8, 0]))
            moved[0] = True
        elif op == "mesh21":
            g2.mesh_to(g1, target_dir=g1.gearcore.transform.orientation @ np.array([0.6, -0.8, 0]))
            moved[1] = True
        elif op == "calc1":
            t = g1.gearcore.transform
            g1.calc_params()
            g1.gearcore.transform = t
            drawn[:2] = want[:2]
        elif op == "set1":
            g1.inside_cycloid_coefficient = want[0] * 0.95
            want[0] *= 0.95
        R.op()
        R.close("rolling circle coefficients", [g1.inside_cycloid_coefficient, g1.outside_cycloid_coefficient, g2.inside_cycloid_coefficient, g2.outside_cycloid_coefficient], want, 1e-12)
        if not moved[0]:
            R.close("pose of the first gear", pose(g1), p1, 1e-12)
        if not moved[1]:
            R.close("pose of the second gear", pose(g2), p2, 1e-12)
        R.state([d["i"], d["h"][: j + 1], [round(x, 9) for x in want]])
    for g, dd, s in ((g1, d1, drawn[:2]), (g2, d2, drawn[2:])):
        M = CycModel(dd, *s)
        pr = g.gearcore.curve_gen_at_z(g.gearcore.z_vals[0])
        a = ev(pr.tooth_curve, np.linspace(0, 1, 9))
        r = np.linalg.norm(a[:, :2], axis=1)
        sel = (r > max(M.rd, M.r_min) + 0.05) & (r < M.ra - 1e-3)
        if sel.any() and M.r_min < M.rd:
            R.close("drawn flank", -np.arctan2(a[sel, 1], a[sel, 0]) * r[sel], np.array([M.half_at(x) for x in r[sel]]) * r[sel], 2e-5)
    return R


def fine(gear, z, n=61):
    pr = gear.gearcore.curve_gen_at_z(z)
    return gear.gearcore.transform(pr.transform(outline(pr, n=n)))


def roll(d):
    R = Result()
    v = dict(d["var"])
    posed = v.pop("p", 0)
    hx = v.pop("helix_angle", 0.0)
    a = dict(c="CycloidGear", z=d["z1"], inside_cycloid_coefficient=d["c1"], **v)
    b = dict(c="CycloidGear", z=d["z2"], **v)
    if d["ring"]:
        b.update(inside_teeth=True, outside_cycloid_coefficient=d["c2"], dedendum_coefficient=1.0, addendum_coefficient=1.2)
    else:
        b["inside_cycloid_coefficient"] = d["c2"]
    if hx:
        a["helix_angle"] = hx
        b["helix_angle"] = hx if d["ring"] else -hx
    mover, fixed = (a, b) if d["ring"] != 2 else (b, a)
    if posed:
        fixed = dict(fixed, center=[4.0, -7.0, 2.5], O=[0.4, -1.1, 0.3], angle=-2.0)
    gm, gf = make(mover), make(fixed)
    u = np.array([0.6, -0.8, 0])
    O = rv(fixed["O"]) if posed else np.eye(3)
    if d["c1"] < 0.45:
        gm.adapt_cycloid_radii(gf)
        gm.mesh_to(gf, target_dir=O @ u)
    else:
        gm.mesh_to(gf, target_dir=O @ u)
        gf.adapt_cycloid_radii(gm)
    R.op(2)
    m = v.get("module", 1.0)
    c = np.array(fixed.get("center", [0, 0, 0.0]))
    dist = (abs(d["z2"] - d["z1"]) if d["ring"] else d["z1"] + d["z2"]) * m / 2
    R.close("centre", gm.center, c + O @ u * dist, 1e-9 * (1 + dist))
    bl = v.get("backlash", 0.0) * m
    play = 4 * bl / 2  # both gears thinner by bl on both flanks, from the middle position
    g1, g2 = (gm, gf) if d["ring"] != 2 else (gf, gm)
    zs = [0.0] if not hx else [0.0, 0.8 * gm.gearcore.z_vals[-1]]
    for zz in zs:
        P1 = (fine(g1, zz) - c) @ O
        P2 = (fine(g2, zz) - c) @ O
        c1 = (np.array(g1.center) - c) @ O
        c2 = (np.array(g2.center) - c) @ O
        q1, q2 = poly(P1[:, :2]), poly(P2[:, :2])
        for i in range(d["n"]):
            th = (i / d["n"] + 0.013) * 2 * PI / d["z1"]
            r1 = rotate(q1, th, origin=tuple(c1[:2]), use_radians=True)
            th2 = th * d["z1"] / d["z2"] * (1 if d["ring"] else -1)
            r2 = rotate(q2, th2, origin=tuple(c2[:2]), use_radians=True)
            R.op()

            def over(delta):
                s = rotate(r1, delta / (d["z1"] * m / 2), origin=tuple(c1[:2]), use_radians=True)
                return (s.difference(r2).area if d["ring"] else s.intersection(r2).area) / m**2

            R.le("penetration / module^2", over(0.0), 4e-4)
            for s in (1, -1):
                R.true(f"flanks lose contact: play beyond {play:.3f} at phase {i} side {s}", over(s * (play + 0.02 * m)) > 1e-4)
                if bl:
                    R.le("penetration within the backlash / module^2", over(s * (play - 0.01 * m)), 4e-4)
            R.state([d, zz, i])
    return R
