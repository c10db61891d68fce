"""C05 tooth form: every flank is the exact involute of the requested gear."""
from mc.geo import *
from mc.engine import Result
from mc.toothmodel import ToothModel

RULE = ("state = one gear configuration within the deviation bound from a default gear; "
        "transition = one single-parameter change or slice/flank observation on the real object; "
        "oracle = closed-form involute + rack-cutter trochoid + fillet circles")
BOUNDS = {
    "quick": "spur/ring/helical/herringbone; all <=2 simultaneous deviations of the parameter alphabets; teeth 6..60 densely",
    "thorough": "as quick with <=3 deviations and teeth 5..200",
}
ASSUMPTIONS = ["tooth proportions inside the stated domain (non-degenerate teeth)"]

A_SPUR = dict(
    z=[6, 7, 9, 13, 17, 18, 19, 31, 57, 120],
    pressure_angle=[14.5 * DEG, 17.5 * DEG, 25 * DEG, 30 * DEG],
    profile_shift=[-0.4, -0.15, 0.2, 0.5],
    addendum_coefficient=[0.8, 1.15],
    dedendum_coefficient=[1.0, 1.35],
    tip_truncation=[0, 0.25],
    backlash=[0.03, 0.1],
    enable_undercut=[False],
    module=[0.004, 3.0, 200.0],
    tip_fillet=[0.1, 0.25],
    root_fillet=[0.12],
    height=[7.0],
    angle=[0.7],
    z_anchor=[0.5],
)


def dedupe_domain(g):
    """domain of the property: teeth that exist"""
    sp = Spec(g)
    tm = ToothModel(sp)
    if sp.half <= 0.05 / sp.z or sp.half >= sp.pitch / 2 * 0.9:
        return False
    if tm.ra <= sp.rp or tm.ra - tm.rd < 0.6:
        return False
    if tm.rd < 0.35 * sp.rp:
        return False
    if tm.tip_f > 0:
        t = tm.tip_fillet()
        # the fillet must fit on the tooth tip and the flank
        if t is None or t[1] <= 1e-3 or t[2] < max(sp.rp - 0.5, sp.rb):
            return False
        if tm.sharp:
            return False
    if tm.root_f > 0 and not tm.use_trochoid:
        t = tm.root_fillet()
        if t is not None and t[1] >= sp.pitch / 2 - 1e-3:
            return False
    if tm.use_trochoid:
        # undercut must leave material
        rs = np.linspace(tm.bottom + 1e-6, tm.ra, 60)
        if min(tm.half(r) for r in rs[:-1]) < 0.02 / sp.z:
            return False
    return True


def ITEMS(tier):
    k = 2 if tier == "quick" else 3
    for z in range(6, 61) if tier == "quick" else range(5, 201):
        yield dict(c="SpurGear", z=z)
        yield dict(c="SpurRingGear", z=z + 14)
    A = dict(A_SPUR)
    for g in deviations(dict(c="SpurGear", z=24), A, k):
        if dedupe_domain(g):
            yield g
    # cutters that end in a point before they reach the root circle
    for z in (6, 7, 8, 9, 10, 11, 12, 14):
        for pa, hd in ((30, 1.4), (30, 1.6), (28, 1.55), (25, 1.75), (25, 1.9), (27, 1.5)):
            for x in (0.0, 0.2, -0.2):
                for c in (dict(c="SpurGear"), dict(c="InvoluteGear", addendum_coefficient=0.8)):
                    g = dict(c, z=z, pressure_angle=pa * DEG, dedendum_coefficient=hd, enable_undercut=True)
                    if x:
                        g["profile_shift"] = x
                    if dedupe_domain(g) and not ToothModel(Spec(g)).blunt_cutter and ToothModel(Spec(g)).use_trochoid:
                        yield g
    R = {a: A[a] for a in A if a not in ("enable_undercut", "tip_fillet", "height")}
    R["z"] = [18, 25, 40, 77]
    R["root_fillet"] = [0.05, 0.3]
    R["outside_ring_coefficient"] = [3.5]
    R["dedendum_coefficient"] = [0.8, 1.15]
    R["addendum_coefficient"] = [1.0, 1.35]
    for g in deviations(dict(c="SpurRingGear", z=40), R, k):
        if dedupe_domain(g):
            yield g
    F = dict(z=[13, 24, 45, 80], root_fillet=[0.1, 0.25], tip_fillet=[0.1, 0.2], profile_shift=[0.2, -0.2], dedendum_coefficient=[1.35], module=[2.0])
    for g in deviations(dict(c="InvoluteGear", z=60, enable_undercut=False), F, k):
        if dedupe_domain(g):
            yield g
    for g in deviations(dict(c="InvoluteGear", z=60, enable_undercut=True, root_fillet=0.2), dict(z=[8, 13, 24], root_fillet=[0.35], tip_fillet=[0.1], c=["SpurGear", "HelicalGear"]), 2):
        if dedupe_domain(g):
            yield g
    H = dict(
        z=[8, 15, 24, 60], helix_angle=[-30 * DEG, 12 * DEG, 45 * DEG], herringbone=[True], profile_shift=[-0.2, 0.4],
        pressure_angle=[14.5 * DEG, 25 * DEG], module=[0.5, 3.0], addendum_coefficient=[0.8], dedendum_coefficient=[1.0], backlash=[0.05], z_anchor=[0.5],
        height=[4.0], root_fillet=[0.1], tip_fillet=[0.1], enable_undercut=[False],
    )
    for g in deviations(dict(c="HelicalGear", z=20), H, 2 if tier == "quick" else 3):
        if dedupe_domain(g):
            yield g
    H2 = dict(H)
    H2["z"] = [32, 61]
    H2["root_fillet"] = [0.1, 0.25]
    H2["tip_fillet"] = [0.1]
    for g in deviations(dict(c="HelicalRingGear", z=45), H2, 1 if tier == "quick" else 2):
        if dedupe_domain(g):
            yield g
    for g in deviations(dict(c="InvoluteGear", z=30), dict(inside_teeth=[True], z=[-40, -33, 22], profile_shift=[0.3], enable_undercut=[False], module=[2.0]), 2):
        if dedupe_domain(g):
            yield g


TOL = 2e-5


def CHECK(g):
    R = Result()
    sp = Spec(g)
    tm = ToothModel(sp)
    gear = make(g)
    R.op()
    R.close("base radius", gear.r_base, sp.rb * sp.m, 1e-6 * sp.m * sp.z)
    R.op()
    zv = gear.gearcore.z_vals
    slices = [float(zv[0])]
    if g.get("helix_angle") or g.get("z_anchor") or sp.helix:
        slices.append(float(zv[-1]))
    for zz in slices:
        prof = gear.gearcore.curve_gen_at_z(zz)
        R.op()
        R.close("pitch angle", prof.pitch_angle, sp.pitch, 1e-12)
        P = profile_points(prof, 33)
        R.op(4)
        flank, mirror = P["tooth_curve"], P["tooth_curve_mirror"]
        tipf, rootf = tm.tip_fillet(), tm.root_fillet()
        for pts, sgn in ((flank, -1), (mirror, 1)):
            r = np.hypot(pts[:, 0], pts[:, 1])
            th = sgn * np.arctan2(pts[:, 1], pts[:, 0])
            R.close("flank planar", pts[:, 2], 0 * r, 1e-9)
            hi = tipf[2] - 1e-6 if tipf else 1e9
            lo = rootf[2] + 1e-6 if rootf else -1
            if rootf is None and tm.root_f > 0 and not tm.use_trochoid:
                lo = max(tm.rd + 2 * tm.root_f, sp.rb + tm.root_f)
            for ri, ti in zip(r, th):
                if ri > tm.ra + 1e-4 or ri < tm.bottom - 1e-4:
                    R.fail(f"flank point at radius {ri:.6f} outside [{tm.bottom:.6f},{tm.ra:.6f}]")
                    continue
                if tm.use_trochoid and ri < tm.bottom + 1e-4:
                    continue  # the trochoid is tangent to the root circle here
                if ri >= hi and tipf:
                    c = tipf[0] * np.array([math.cos(tipf[1]), math.sin(tipf[1])])
                    p = ri * np.array([math.cos(ti), math.sin(ti)])
                    R.close("tip fillet circle", np.linalg.norm(p - c), tm.tip_f, 1e-4)
                elif ri <= lo:
                    if rootf:
                        c = rootf[0] * np.array([math.cos(rootf[1]), math.sin(rootf[1])])
                        p = ri * np.array([math.cos(ti), math.sin(ti)])
                        R.close("root fillet circle", np.linalg.norm(p - c), tm.root_f, 1e-4)
                    else:
                        R.true("root fillet only adds material", ti >= sp.half_at(ri) - 1e-6 and ti <= sp.pitch / 2 + 1e-6)
                elif not sp.undercut and ri < sp.rb:
                    # radial root line below the base circle
                    R.close("root line radial", ti * ri, sp.half_at(sp.rb) * ri, TOL)
                elif tm.use_trochoid and abs(tm.u_eff) < 0.12 and ri < sp.rb + 0.25:
                    # cutter tip grazes the interference point: involute and trochoid are
                    # tangent, junction is ill-conditioned
                    R.le("near interference point", abs(ti - tm.half(ri)) * ri, 5e-3)
                elif tm.use_trochoid and ri < tm.r_form + 0.05:
                    R.le("undercut / junction", abs(ti - tm.half(ri)) * ri, 1e-3)
                else:
                    R.close("involute flank", ti * ri, tm.half(ri) * ri, TOL)
        ra = P["ra_curve"]
        rd = P["rd_curve"]
        rr = np.hypot(ra[:, 0], ra[:, 1])
        if not tm.sharp:
            R.close("tip radius", rr, np.full(len(rr), tm.ra), 1e-4)
        rr = np.hypot(rd[:, 0], rd[:, 1])
        if not prof.rd_curve.active:
            # no root arc is left: neighbouring flanks meet in the middle of the gap
            p0 = flank[0]
            R.close("flanks meet in the middle of the gap", math.atan2(-p0[1], p0[0]), sp.pitch / 2, 1e-4)
            if tm.use_trochoid:
                R.close("depth of the gap", math.hypot(p0[0], p0[1]), tm.bottom, 1e-4)
        elif tm.use_trochoid:
            R.close("root radius", rr.min(), tm.bottom, 1e-4)
        elif tm.root_f == 0 or (rootf is not None):
            R.close("root radius", rr, np.full(len(rr), tm.rd), 1e-4)
    R.state(g)
    return R
