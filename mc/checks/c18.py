"""C18 reported dimensions: every dimension and location a gear reports agrees with the
geometry it generates, wherever the gear is placed."""
from mc.geo import *
from mc.engine import Result
from mc.toothmodel import ToothModel

RULE = ("state = one gear configuration in one pose; transition = one query of the real gear; oracle = the documented meaning "
        "evaluated from the descriptor, cross-checked against the generated outline")
BOUNDS = {
    "quick": "8 gear kinds, all <=2 simultaneous deviations of shape and pose parameters; all parameters of 9 classes left out in every context; resets after every move",
    "thorough": "all <=3 simultaneous deviations; parameters also left out one by one",
}
ASSUMPTIONS = ["pitch cones with half angle strictly between 0 and 90 degrees, slices that do not reach the apex"]

SHAPE = dict(module=[0.5, 3.0, 200.0], height=[4.0], z_anchor=[0.5, 1.0])
POSE = dict(center=[[4, -7, 2.5]], O=[[0.4, -1.1, 0.3], [PI, 0, 0]], angle=[-9.0])
A = dict(
    spur=(dict(c="SpurGear", z=18, enable_undercut=False), dict(z=[25, 40], profile_shift=[0.3, -0.2], addendum_coefficient=[0.8], dedendum_coefficient=[1.4], enable_undercut=[True])),
    ring=(dict(c="SpurRingGear", z=40), dict(z=[62], outside_ring_coefficient=[3.5], addendum_coefficient=[1.0], dedendum_coefficient=[0.8], profile_shift=[0.2])),
    hel=(dict(c="HelicalGear", z=18, enable_undercut=False), dict(helix_angle=[-0.4, 0.2], herringbone=[True], profile_shift=[0.3], z=[31])),
    helring=(dict(c="HelicalRingGear", z=44), dict(helix_angle=[-0.4], herringbone=[True])),
    bevel=(dict(c="BevelGear", z=20, enable_undercut=False), dict(cone_angle=[0.5, 1.1, 2.4], z=[31], helix_angle=[0.3], addendum_coefficient=[0.8])),
    bevring=(dict(c="InvoluteGear", z=40, cone_angle=1.2, enable_undercut=False, inside_teeth=True), dict(cone_angle=[0.6], z=[61], helix_angle=[0.3])),
    cyc=(dict(c="CycloidGear", z=14), dict(z=[30], helix_angle=[0.3], inside_teeth=[True], inside_cycloid_coefficient=[0.3])),
    cycbev=(dict(c="CycloidGear", z=24, cone_angle=1.2), dict(cone_angle=[0.6, 2.0], helix_angle=[0.2])),
    inv=(dict(c="InvoluteGear", z=-40, enable_undercut=False), dict(z=[-61, 24], cone_angle=[0.0], inside_teeth=[True])),
)


def ITEMS(tier):
    k = 2 if tier == "quick" else 3
    for n, (base, al) in A.items():
        al = dict(al, **SHAPE, **POSE)
        for g in deviations(base, al, k):
            if g.get("cone_angle", 0.0) or g["c"] == "BevelGear":
                # the body must stay away from the apex
                sp = Spec(g)
                if sp.cone:
                    lo, hi = sp.z_range()
                    sc = [1 - zz * 2 * math.sin(sp.gamma) / sp.z for zz in (lo, hi)]
                    if min(sc) < 0.3:
                        continue
            yield g
    for c, al in DOC.items():
        ctx = CTX[c]
        for i in range(len(ctx)):
            yield dict(k="def", c=c, ctx=i, omit=None)
            for p in al if tier != "quick" else ():
                if p not in ctx[i]:
                    yield dict(k="def", c=c, ctx=i, omit=p)
    for n, (base, _) in A.items():
        if base["c"] == "CycloidGear":
            continue  # has no reset
        for mv in range(4):
            yield dict(k="reset", g=base, mv=mv)


# documented values of the parameters left out
GEN = dict(height=1.0, center=[0, 0, 0], angle=0, module=1.0, root_fillet=0.0, tip_fillet=0.0, tip_truncation=0.1, addendum_coefficient=1.0, dedendum_coefficient=1.2, backlash=0, crowning=0, z_anchor=0)
INV = dict(GEN, enable_undercut=True, profile_shift=0.0, pressure_angle=20 * DEG)
HEL = dict(INV, helix_angle=30 * DEG, herringbone=False)
RING = dict(enable_undercut=False, addendum_coefficient=1.2, dedendum_coefficient=1.0)
RACK = dict(number_of_teeth=16, height=1.0, pressure_angle=20 * DEG, position=[0, 0, 0], offset=0, orientation=np.eye(3).tolist(), module=1.0, root_fillet=0.0, tip_fillet=0.0, addendum_coefficient=1.0, dedendum_coefficient=1.2, backlash=0)
DOC = dict(
    InvoluteGear=dict(INV, helix_angle=0, cone_angle=0, inside_teeth=False),
    SpurGear=INV,
    SpurRingGear=dict(INV, **RING, **dict(root_fillet=0.2, tip_truncation=0)),
    HelicalGear=HEL,
    # the documented root fillet of this class (0.2) is not what it does (0.0): left out
    HelicalRingGear={k: v for k, v in dict(HEL, **RING).items() if k != "root_fillet"},
    BevelGear=dict(INV, cone_angle=PI / 2, helix_angle=0),
    CycloidGear=dict(GEN, cone_angle=0, inside_cycloid_coefficient=0.5, outside_cycloid_coefficient=0.5, helix_angle=0, inside_teeth=False),
    InvoluteRack=dict(RACK, beta_angle=0),
    HelicalRack=dict(RACK, helix_angle=0, herringbone=False),
)
# contexts in which the parameters left out show
_T = [dict(z=21), dict(z=21, enable_undercut=False, height=4.0, crowning=80.0), dict(z=9, profile_shift=0.7, addendum_coefficient=1.4, module=2.0), dict(z=24, center=[1, 2, 3], angle=0.7, backlash=0.1)]
_C = [dict(z=14), dict(z=14, root_fillet=0.1, tip_fillet=0.1), dict(z=12, addendum_coefficient=2.5, height=3.0, crowning=50.0), dict(z=24, cone_angle=1.0), dict(z=20, inside_teeth=True)]
CTX = dict(InvoluteGear=_T + [dict(z=24, cone_angle=1.2), dict(z=40, inside_teeth=True), dict(z=20, helix_angle=0.4, height=3.0)], SpurGear=_T,
           SpurRingGear=[dict(z=40), dict(z=40, module=2.0, crowning=60.0, height=3.0), dict(z=50, dedendum_coefficient=2.0, center=[1, 2, 3])],
           HelicalGear=_T + [dict(z=20, height=5.0, herringbone=True), dict(z=20, height=5.0, helix_angle=-0.3)],
           HelicalRingGear=[dict(z=40, height=4.0), dict(z=40, height=5.0, herringbone=True), dict(z=40, module=2.0)],
           BevelGear=[dict(z=24), dict(z=24, enable_undercut=False, helix_angle=0.4), dict(z=30, cone_angle=1.0, module=2.0), dict(z=24, height=2.0, crowning=50.0)], CycloidGear=_C,
           InvoluteRack=[dict(), dict(number_of_teeth=9, module=2.0), dict(beta_angle=0.3, height=3.0), dict(root_fillet=0.2, backlash=0.05)],
           HelicalRack=[dict(), dict(number_of_teeth=9, module=2.0), dict(helix_angle=0.3, height=3.0), dict(helix_angle=0.3, height=3.0, herringbone=True)])


def rack(kw):
    kw = dict(kw)
    cls = getattr(W, kw.pop("c"))
    for k in ("position", "orientation"):
        if k in kw:
            kw[k] = np.array(kw[k], float)
    return cls(**kw)


def fingerprint(g):
    if "Rack" in g["c"]:
        r = rack(g)
        p = r.build_part()
        bb = p.bounding_box()
        cm = p.center()
        return {"solid": np.array([p.volume, bb.min.X, bb.min.Y, bb.min.Z, bb.max.X, bb.max.Y, bb.max.Z, cm.X, cm.Y, cm.Z])}
    gear = make(g)
    return gear_print(gear)


def gear_print(gear):
    out = {"numbers": np.array([gear.number_of_teeth, gear.module, gear.angle, gear.cone_angle, gear.pitch_radius, gear.z_height, gear.addendum_radius, gear.dedendum_radius, gear.max_outside_radius]),
           "centre": np.asarray(gear.center, float), "orientation": np.asarray(gear.gearcore.transform.orientation, float), "face": np.array([gear.p2z(0.0), gear.p2z(0.5), gear.p2z(1.0)])}
    for pr in (0.0, 0.4, 1.0):
        prof = gear.gearcore.curve_gen_at_z(gear.p2z(pr))
        pts = [ev(getattr(prof, n), np.linspace(0, 1, 9)) for n in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror")]
        out["outline at %.1f" % pr] = gear.gearcore.transform(prof.transform(np.vstack(pts)))
        rd = gear.radii_data_gen(gear.p2z(pr))
        out["circles at %.1f" % pr] = np.array([rd.r_a, rd.r_d, rd.r_p, rd.r_o])
    return out


def compare(R, a, b, what):
    for k in b:
        R.close(what + ": " + k, a[k], b[k], 1e-9 * (1 + np.abs(b[k]).max()))
    R.op(len(b))


def check_def(d):
    """a parameter left out is a parameter given with its documented value"""
    R = Result()
    ctx = CTX[d["c"]][d["ctx"]]
    full = {k: v for k, v in DOC[d["c"]].items()}
    full.update(ctx)
    full["c"] = d["c"]
    if d["omit"] is None:
        short = dict(ctx, c=d["c"])
    else:
        short = {k: v for k, v in full.items() if k != d["omit"]}
    compare(R, fingerprint(short), fingerprint(full), "left out %s" % (d["omit"] or "everything"))
    R.state(d)
    return R


def check_reset(d):
    """a gear made at the origin, moved and reset, is the gear as made"""
    R = Result()
    gear = make(d["g"])
    ref = gear_print(make(d["g"]))
    if d["mv"] & 1:
        gear.gearcore.transform.center = V(3, -2, 1)
        gear.gearcore.transform.angle = 1.1
    if d["mv"] & 2:
        other = make(dict(d["g"], center=[1, 2, 3])) if not Spec(d["g"]).ring else make(dict(d["g"], **{"c": "InvoluteGear", "z": 17, "helix_angle": Spec(d["g"]).helix, "module": Spec(d["g"]).m, "center": [1, 2, 3]}))
        gear.mesh_to(other, target_dir=V(0.6, 0.8, 0))
    else:
        gear.gearcore.transform.orientation = rv([0.3, 0.5, -1.0])
    gear.reset_location()
    compare(R, gear_print(gear), ref, "reset")
    R.state(d)
    return R


def CHECK(g):
    if "k" in g:
        return dict(**{"def": check_def}, reset=check_reset)[g["k"]](g)
    R = Result()
    sp = Spec(g)
    gear = make(g)
    R.op()
    m = sp.m
    O = rv(g["O"]) if "O" in g else np.eye(3)
    ax = O[:, 2]
    c = sp.center
    z0, z1 = sp.z_range()
    cg, sg = math.cos(sp.gamma), math.sin(sp.gamma)
    L = m * (sp.z + 10)
    t = 1e-8 * L
    R.close("tooth count", gear.number_of_teeth, sp.z, 0)
    R.true("inside teeth flag", bool(gear.inside_teeth) == sp.ring)
    R.close("module", gear.module, m, 1e-12 * m)
    R.close("pitch radius", gear.pitch_radius, m * sp.z / 2, t)
    R.close("rp", gear.rp, m * sp.z / 2, t)
    R.close("pitch angle", gear.pitch_angle, 2 * PI / sp.z, 1e-12)
    R.close("centre", gear.center, c, t)
    R.close("angle", gear.angle, sp.angle, 1e-12)
    R.close("cone angle", gear.cone_angle, sp.cone, 1e-12)
    if g["c"] != "CycloidGear":
        R.close("half of the cone angle", gear.gamma, sp.gamma, 1e-12)
        R.close("beta", gear.beta, sp.helix, 1e-12)
        R.close("helix angle", gear.helix_angle, sp.helix, 1e-12)
    R.close("height along the axis", gear.z_height, (z1 - z0) * m * cg, t)
    P = {}
    for nm, zz in (("bottom", z0), ("middle", (z0 + z1) / 2), ("top", z1)):
        P[nm] = c + ax * zz * m * cg
        R.close(f"centre point {nm}", getattr(gear, "center_point_" + nm), P[nm], t)
        loc = getattr(gear, "center_location_" + nm)
        T = loc.wrapped.Transformation()
        M = np.array([[T.Value(i, j) for j in (1, 2, 3, 4)] for i in (1, 2, 3)])
        R.close(f"location {nm} position", M[:, 3], P[nm], t)
        tw = math.tan(sp.helix) / sp.rp
        if g.get("herringbone"):
            tw *= (zz if zz <= (z0 + z1) / 2 else z0 + z1 - zz)
        else:
            tw *= zz
        R.close(f"location {nm} rotation", M[:, :3], O @ Rz(sp.angle + tw), 1e-9)
        R.op(2)
    for pr in (0.0, 0.3, 0.5, 1.0):
        R.close("width proportion", gear.p2z(pr), z0 + pr * (z1 - z0), 1e-9 * (1 + abs(z1 - z0)))
        R.close("centre point at proportion", gear.center_point_at_z(gear.p2z(pr)), P["bottom"] + pr * (P["top"] - P["bottom"]), t)
        if hasattr(gear, "circle_involute_base") and not sp.cone:
            b = gear.circle_involute_base(pr)
            R.close("base circle radius", b.radius, sp.rb * m, 1e-7 * L)
            R.close("base circle centre", b.center, P["bottom"] + pr * (P["top"] - P["bottom"]), t)
        R.op(2)
    if sp.cone:
        apex = c + ax * m * sp.rp / math.tan(sp.gamma)
        Rs = m * sp.rp / sg
        R.close("apex", gear.center_spherical, apex, t)
        R.close("cone distance", gear.radius_spherical, Rs, t)
    rmax = 0.0
    for nm, zz in (("bottom", z0), ("top", z1)):
        rd = getattr(gear, "radii_data_" + nm)
        R.op()
        k = (1 - zz * 2 * sg / sp.z) if sp.cone else 1.0
        prof = gear.gearcore.curve_gen_at_z(zz)
        R.close(f"pitch circle radius {nm}", rd.r_p, m * sp.rp * k, t)
        R.close(f"pitch circle centre {nm}", rd.r_p_curve.center, P[nm], t)
        for name, arc, cur in (("tip", rd.r_a_curve, prof.ra_curve), ("root", rd.r_d_curve, prof.rd_curve)):
            pts = gear.gearcore.transform(prof.transform(ev(cur, np.linspace(0, 1, 5))))
            if name == "root" and sp.undercut and not sp.cone:
                continue
            q = pts - arc.center
            R.close(f"{name} circle {nm}: outline lies on it", np.linalg.norm(q, axis=1), np.full(5, arc.radius), 2e-4 * m)
            R.close(f"{name} circle {nm}: plane", q @ ax, np.zeros(5), 2e-4 * m)
            R.close(f"{name} circle {nm}: on the axis", np.cross(arc.center - c, ax), np.zeros(3), t)
        if not sp.cone:
            if g["c"] == "CycloidGear":
                R.true(f"tip radius {nm}", sp.rp * m < rd.r_a <= (sp.rp + sp.ha) * m + t)
                R.close(f"root radius {nm}", rd.r_d, (sp.rp - sp.hd) * m, 1e-6 * m)
            else:
                tm = ToothModel(sp)
                R.close(f"tip radius {nm}", rd.r_a, tm.ra * m, 1e-4 * m)
                if not tm.use_trochoid:
                    R.close(f"root radius {nm}", rd.r_d, tm.rd * m, 1e-6 * m)
            for arc in (rd.r_a_curve, rd.r_d_curve, rd.r_o_curve):
                R.close(f"circle centre {nm}", arc.center, P[nm], t)
        else:
            for arc in (rd.r_a_curve, rd.r_d_curve, rd.r_o_curve, rd.r_p_curve):
                q = np.linalg.norm(arc.center - apex)
                R.close(f"circles lie on the slice sphere {nm}", math.hypot(q, arc.radius), Rs * k, 1e-6 * L)
            lim = gear.cone_angle_limits_bottom if nm == "bottom" else gear.cone_angle_limits_top
            if sp.cone < 1.5:
                for got, arc in zip(lim, (rd.r_o_curve, rd.r_d_curve, rd.r_p_curve, rd.r_a_curve)):
                    R.close(f"cone limit {nm}", got, math.atan2(arc.radius, np.linalg.norm(arc.center - apex)), 1e-6)
        F = getattr(gear, "face_location_" + nm).wrapped.Transformation()
        M = np.array([[F.Value(i, j) for j in (1, 2, 3, 4)] for i in (1, 2, 3)])
        R.close(f"face location {nm}", M[:, 3], rd.r_o_curve.center, t)
        R.close(f"face axis {nm}", M[:, 2], ax, 1e-9)
        C = getattr(gear, "center_location_" + nm).wrapped.Transformation()
        R.close(f"face orientation {nm}", M[:, :3], np.array([[C.Value(i, j) for j in (1, 2, 3)] for i in (1, 2, 3)]), 1e-6)
        if g["c"] == "SpurRingGear":
            R.close("outside ring radius", rd.r_o, (sp.rp + g.get("outside_ring_coefficient", 2.5)) * m, t)
        elif sp.ring and not sp.cone:
            R.close("outside ring radius", rd.r_o, (sp.rp + 2) * m, t)
        rmax = max(rmax, rd.r_o, rd.r_a)
        if nm == "bottom":
            R.close("addendum radius", gear.addendum_radius, rd.r_a, t)
            R.close("dedendum radius", gear.dedendum_radius, rd.r_d, t)
    if not sp.cone:
        R.close("largest radius", gear.max_outside_radius, rmax, t)
    if g["c"] != "CycloidGear" and not sp.cone:
        R.close("base radius", gear.r_base, sp.rb * m, 1e-7 * L)
    R.state(g)
    return R
