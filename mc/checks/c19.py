"""C19 recipe engine: a core gear whose parameters are functions of z has, at every z, the slice of the
gear with the parameter values of that z, placed by its reference cone or curve."""
import itertools, copy
from mc.geo import *
from mc.engine import Result
import gggears as ggs
import gggears.gggears_core as core
import gggears.gggears_base_classes as bc
import gggears.gearteeth as gt
import gggears.curve as crv
from shapely.geometry import Polygon

RULE = ("state = (recipe with some parameters replaced by functions of z, z, earlier evaluations); transition = evaluating the recipe / slice of the real core gear; "
        "oracle = the slice of a constant recipe holding the values of that z, and the placement computed from the reference cone or curve")
BOUNDS = {
    "quick": "5 tooth generators x cylinder/cone x all <=2 parameters made functions of z x 3 evaluation orders; 7 reference curves; all pairs of 8 core gears meshed in 3 directions and 2 poses; 10 built solids",
    "thorough": "all <=3 parameters, 9 evaluation points, all pairs in 8 directions and 3 poses",
}
ASSUMPTIONS = ["teeth that exist for the parameter values in the alphabet; full gears (num_cutout_teeth=0, whole tooth numbers)"]

GENS = {
    "straight": lambda c, n: gt.GearToothConicGenerator(cone_angle=c, tooth_angle=-0.3),
    "involute": lambda c, n: gt.InvoluteTooth(cone_angle=c),
    "undercut": lambda c, n: gt.InvoluteUndercutTooth(cone_angle=c, pitch_angle=2 * PI / n),
    "octoid": lambda c, n: gt.OctoidTooth(cone_angle=c, pitch_angle=2 * PI / n),
    "cycloid": lambda c, n: gt.CycloidTooth(cone_angle=c, rc_in_coeff=0.4, rc_out_coeff=0.3),
}
ZV = [-1.0, 0.5, 2.0]


def lin(a, b):
    return lambda z: a + b * (z + 1.0) / 3.0


def fields(gen, cone):
    q = 2 * PI / 20 / 4
    F = {
        ("limits", "h_a"): lin(0.9, -0.25),
        ("limits", "h_d"): lin(1.15, -0.2),
        ("limits", "h_o"): lin(2.0, 0.5),
        ("fillet", "tip_fillet"): lin(0.05, 0.06),
        ("transform", "angle"): lambda z: 0.3 * math.sin(z),
        ("transform", "scale"): lin(1.0, -0.15),
        ("transform", "center"): lambda z: V(0.1 * z, -0.2, z),
        ("transform", "orientation"): lambda z: rv([0.1 * z, 0.05, 0]),
        ("tooth_generator", "pitch_intersect_angle"): lin(q, -0.1 * q),
    }
    if gen in ("involute", "undercut", "octoid"):
        F[("tooth_generator", "pressure_angle")] = lin(18 * DEG, 6 * DEG)
    if gen == "straight":
        F[("tooth_generator", "tooth_angle")] = lin(-0.35, 0.25)
    if gen in ("straight", "involute", "cycloid"):
        F[("fillet", "root_fillet")] = lin(0.12, 0.06)
    if gen == "cycloid":
        F[("tooth_generator", "rc_in_coeff")] = lin(0.4, 0.05)
        F[("tooth_generator", "rc_out_coeff")] = lin(0.3, 0.05)
    if gen == "undercut":
        F[("tooth_generator", "ref_limits")] = lambda z: bc.ToothLimitParam(h_a=1.0, h_d=1.2 - 0.02 * z)
    F[("both", "cone_angle")] = lin(max(cone, 0.5), 0.4)
    return F


def ITEMS(tier):
    q = tier == "quick"
    for gen in GENS:
        for cone in (0.0, 1.2):
            if gen == "octoid" and cone == 0:
                continue
            keys = list(fields(gen, cone))
            for k in range(0, (2 if q else 3) + 1):
                for sub in itertools.combinations(range(len(keys)), k):
                    if cone == 0 and any(keys[i] == ("both", "cone_angle") for i in sub):
                        continue
                    yield dict(k="recipe", gen=gen, cone=cone, sub=list(sub), zs=[2.0, -1.0, 0.5, 2.0] if q else [2.0, -1.0, 0.5, 0.0, 1.3, -0.4, 2.0, 1.3, -1.0])
    for n in (7, 20, 45):
        for cone in (0.0, 0.8, PI / 2, 2.4, PI, -0.8):
            for zv in ([0, 2], [-1, 1.5], [0, 2, 4]):
                for mod in (1.0, 2.5):
                    yield dict(k="cone", n=n, cone=cone, zv=zv, mod=mod)
    for i in range(7):
        for n in (12, 30):
            for mod in (1.0, 3.0):
                yield dict(k="curve", i=i, n=n, mod=mod)
    G = [(12, 0.0), (20, 0.0), (-40, 0.0), (-61, 0.0)]
    dirs = [0.0, 1.1, -2.0] if q else [2 * PI * i / 8 + 0.05 for i in range(8)]
    for a, b in itertools.product(range(4), range(4)):
        if G[a][0] < 0 and G[b][0] < 0:
            continue
        for dr in dirs:
            for p in range(2 if q else 3):
                for mod in (1.0, 2.0):
                    yield dict(k="mesh", a=G[a], b=G[b], dir=dr, pose=p, mod=mod)
    for z1, z2, S in ((12, 20, PI / 2), (15, 15, PI / 2), (20, 33, 1.2), (17, 30, 2.0)):
        for dr in dirs:
            for p in range(2 if q else 3):
                for mod in (1.0, 2.0):
                    g1 = math.atan2(math.sin(S), z2 / z1 + math.cos(S))
                    yield dict(k="mesh", a=(z1, 2 * g1), b=(z2, 2 * (S - g1)), dir=dr, pose=p, mod=mod)
    for gen in GENS:
        for cone in (0.0, 1.2):
            if not (gen == "octoid" and cone == 0):
                for n in (20,) if q else (12, 20, 31):
                    yield dict(k="build", gen=gen, cone=cone, n=n)
    for gen in list(GENS) + ["octunder"]:
        for cone in (0.0, 0.5, 1.2, PI / 2, 2.2):
            for n in (9, 20, 47):
                for al in (15 * DEG, 20 * DEG, 25 * DEG) if gen != "cycloid" else (0.0,):
                    for th in (1.0, 0.85, 1.15):
                        yield dict(k="tooth", gen=gen, cone=cone, n=n, al=al, th=th)
    for cone in (0.0, 0.5, 1.2, PI / 2, 2.4, -0.8):
        for r in (1.0, 8.0):
            yield dict(k="polar", cone=cone, r=r)
    for gen in GENS:
        for a, b in itertools.permutations(GENS, 2):
            if gen == "straight":
                yield dict(k="swap", a=a, b=b)


def WEIGHT(d):
    return {"build": 90.0, "recipe": 3.0}.get(d["k"], 1.0)


def CHECK(d):
    return globals()["check_" + d["k"]](d)


def set_field(rec, key, val):
    obj, f = key
    if obj == "both":
        rec.tooth_generator.cone_angle = val
        rec.cone.cone_angle = val
    else:
        setattr(getattr(rec, obj), f, val)


def base_gear(gen, cone, n=20, zv=(-1.0, 2.0)):
    g = core.Gear(z_vals=np.array(zv), tooth_param=bc.GearToothParam(num_teeth=n), cone=bc.ConicData(cone_angle=cone), tooth_generator=GENS[gen](cone, n))
    rec = g.shape_recipe
    rec.limits.h_a, rec.limits.h_d, rec.limits.h_o = 0.9, 1.1, 2.0
    return g


SEG = ["rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror", "ro_curve"]


def shape(prof):
    out = []
    for k in SEG:
        c = getattr(prof, k)
        out.append(ev(c, np.linspace(0, 1, 9)) if c.active else np.zeros((9, 3)))
    return np.array(out)


def motion(tf):
    Q = np.vstack([np.zeros(3), np.eye(3)])
    return tf(Q)


def check_recipe(d):
    R = Result()
    F = fields(d["gen"], d["cone"])
    keys = list(F)
    sub = [keys[i] for i in d["sub"]]
    g = base_gear(d["gen"], d["cone"])
    g2 = None
    for key in sub:
        set_field(g.shape_recipe, key, F[key])
    seen = {}
    cp = g.copy()
    for n, z in enumerate(d["zs"]):
        prof = g.curve_gen_at_z(z)
        R.op()
        s = shape(prof)
        ref = base_gear(d["gen"], d["cone"])
        tf0 = g.shape_recipe(z).transform
        for key in sub:
            set_field(ref.shape_recipe, key, F[key](z))
        rp = ref.curve_gen_at_z(z)
        R.op()
        R.close("slice of the values at z", s, shape(rp), 1e-9)
        R.close("placement of the values at z", motion(prof.transform), motion(rp.transform), 1e-9)
        q = core.GearTransform(**copy.deepcopy(tf0.__dict__))
        R.close("recipe and slice agree on the placement", motion(prof.transform), motion(q), 1e-12)
        if z in seen:
            R.close("evaluation depends on z only", s, seen[z], 1e-12)
        seen[z] = s
        R.state([d["gen"], d["cone"], d["sub"], z, n])
    # the recipe is still made of functions, and a copy of the gear gives the same slices
    for key in sub:
        o = g.shape_recipe.tooth_generator if key[0] in ("both", "tooth_generator") else getattr(g.shape_recipe, key[0])
        R.true("recipe keeps its functions", callable(getattr(o, key[1])))
    z = d["zs"][0]
    R.close("copy of the gear", shape(cp.curve_gen_at_z(z)), seen[z], 1e-12)
    # changing the copy leaves the gear alone
    cp.shape_recipe.limits.h_a = 0.5
    cp.shape_recipe.tooth_generator.pitch_intersect_angle = 0.05
    R.close("gear does not change with its copy", shape(g.curve_gen_at_z(z)), seen[z], 1e-12)
    R.op(2)
    return R


def check_cone(d):
    """default recipe: straight teeth on the reference cone"""
    R = Result()
    n, ca, mod = d["n"], d["cone"], d["mod"]
    zv = np.array(d["zv"], float)
    g = core.Gear(z_vals=zv if n == 20 else d["zv"], module=mod, tooth_param=bc.GearToothParam(num_teeth=n), cone=bc.ConicData(cone_angle=ca))
    gam = ca / 2
    rec2 = core.default_gear_recipe(bc.GearToothParam(num_teeth=n), gt.GearToothConicGenerator(), ca)
    tf = core.GearTransform(center=V(3, -2, 1), orientation=rv([0.3, 0.7, -0.2]), angle=0.4, scale=mod)
    g.transform = tf
    R.close("pitch radius", g.rp, n / 2 * mod, 1e-9 * n)
    for z in (zv[0], 0.0, 0.5 * (zv[0] + zv[-1]), zv[-1]):
        rp_z = n / 2 - z * math.sin(gam)
        if rp_z < 0.2:
            continue
        for nm, rec in (("core gear", g.shape_recipe), ("default recipe", rec2)):
            v = rec(z)
            R.op()
            R.close("%s: height on the cone" % nm, v.transform.center, V(0, 0, z * math.cos(gam)), 1e-7 * n)
            R.close("%s: pitch radius on the cone" % nm, v.transform.scale * n / 2, rp_z, 1e-7 * n)
            R.close("%s: angle" % nm, v.transform.angle, 0.0, 1e-9)
            R.close("%s: cone angle" % nm, [v.cone.cone_angle, v.tooth_generator.cone_angle], [ca, ca], 1e-4)
            R.close("%s: teeth on the pitch circle" % nm, [v.tooth_generator.pitch_radius, v.tooth_generator.pitch_intersect_angle, v.pitch_angle], [n / 2, PI / n / 2, 2 * PI / n], 1e-9)
        # the flank passes through the pitch circle a quarter pitch from the centre of the tooth
        tc = g.shape_recipe(z).tooth_generator.generate_tooth_curve()
        P = ev(tc, np.linspace(-1, 1, 401))
        want = n / 2 * V(math.cos(PI / n / 2), -math.sin(PI / n / 2), 0)
        R.le("flank passes through its pitch point", np.min(np.linalg.norm(P - want, axis=1)), 0.02 * n)
        if ca:
            cen, rad = g.sphere_data_at_z(z)
            apex = n / 2 / math.tan(gam) if abs(abs(ca) - PI) > 1e-9 else 0.0
            M = tf.orientation @ Rz(tf.angle)
            R.close("apex of the cone", cen, tf.center + mod * M @ V(0, 0, apex), 1e-4 * n * mod)
            R.close("sphere of the slice", rad, mod * abs(rp_z / math.sin(gam)), 1e-4 * n * mod)
            cn = g.cone_at_z(z)
            R.close("centre of the base circle", cn.center_base, tf.center + mod * M @ V(0, 0, z * math.cos(gam)), 1e-6 * n * mod)
            if abs(abs(ca) - PI) > 1e-9 and ca > 0:
                R.close("centre_sphere", g.center_sphere, tf.center + mod * M @ V(0, 0, apex), 1e-4 * n * mod)
            R.op(3)
        R.state([d, z])
    return R


def rcurves(n):
    r = n / 2
    return [
        crv.LineCurve(V(r, 0, 0), V(r, 0, 3)),
        crv.LineCurve(V(r, 0, 0), V(r - 1.0, 0, 2.5)),
        crv.LineCurve(V(r * math.cos(0.7), r * math.sin(0.7), -1), V(r * math.cos(0.7) * 1.1, r * math.sin(0.7) * 1.1, 2)),
        crv.Curve(lambda t: V(r * math.cos(0.4 * t), r * math.sin(0.4 * t), 3 * t)),
        crv.Curve(lambda t: V((r - t) * math.cos(-0.3 * t), (r - t) * math.sin(-0.3 * t), 3 * t)),
        crv.ArcCurve.from_2_point_center(V(r, 0, 0), V(r - 4 * (1 - math.cos(0.7)), 0, 4 * math.sin(0.7)), V(r - 4, 0, 0)),
        crv.Curve(lambda t: V((r + 0.5 * math.sin(2 * t)) * math.cos(0.2 * t), (r + 0.5 * math.sin(2 * t)) * math.sin(0.2 * t), 2 * t)),
    ]


def check_curve(d):
    """recipe from a reference curve: one tooth follows the curve"""
    R = Result()
    n, i = d["n"], d["i"]
    cv = rcurves(n)[i]
    tp = bc.GearToothParam(num_teeth=n)
    rec = core.gear_recipe_from_curve(tp, gt.GearToothConicGenerator(), cv, lambda z: z / 3.0)
    g = core.Gear(z_vals=np.array([0.0, 3.0]), module=d["mod"], tooth_param=tp, shape_recipe=rec, transform=core.GearTransform(scale=d["mod"], center=V(1, 2, 3)))
    for z in (0.3, 1.0, 1.7, 2.9):
        p = np.asarray(cv(z / 3.0), float)
        v = g.shape_recipe(z)
        R.op()
        tf = g.transform * core.GearTransform(**copy.deepcopy(v.transform.__dict__))
        R.close("the tooth is on the reference curve", tf(V(n / 2, 0, 0)), V(1, 2, 3) + d["mod"] * p, 1e-7 * n * d["mod"])
        h = 2e-3
        a, b = np.asarray(cv(z / 3.0 - h), float), np.asarray(cv(z / 3.0 + h), float)
        dr, dz = math.hypot(b[0], b[1]) - math.hypot(a[0], a[1]), b[2] - a[2]
        gam = math.atan2(-dr, dz)
        R.close("cone angle follows the slope of the curve", [v.cone.cone_angle / 2, v.tooth_generator.cone_angle / 2], [gam, gam], 6e-3)
        par = core.ref_curve_2_param(z / 3.0, cv)
        R.close("key parameters", [par.radius, par.h], [math.hypot(p[0], p[1]), p[2]], 1e-9 * n)
        R.close("azimuth of the tooth", math.sin((par.angle - math.atan2(p[1], p[0])) / 2), 0.0, 1e-9)
        da = math.atan2(b[1], b[0]) - math.atan2(a[1], a[0])
        R.close("helix angle of the curve", par.beta, math.atan2(da * par.radius, math.hypot(dr, dz)), 6e-3)
        R.op()
        R.state([d, z])
    return R


POSE = [(np.eye(3), V(0, 0, 0), 0.0), (rv([0.4, -1.1, 0.3]), V(4.0, -7.0, 2.5), -2.0), (rv([PI, 0, 0]), V(0, 0, 5.0), 0.7)]


def check_mesh(d):
    R = Result()
    O, c, an = POSE[d["pose"]]
    gs = []
    for n, cone in (d["a"], d["b"]):
        g = core.Gear(z_vals=np.array([0.0, 2.0]), module=d["mod"], tooth_param=bc.GearToothParam(num_teeth=n), cone=bc.ConicData(cone_angle=cone), tooth_generator=gt.InvoluteTooth(cone_angle=cone))
        gs.append(g)
    a, b = gs
    b.transform.orientation = O.copy()
    b.transform.center = c.copy()
    b.transform.angle = an
    before = copy.deepcopy(b.transform.__dict__)
    dirw = O @ V(math.cos(d["dir"]), math.sin(d["dir"]), 0)
    a.transform.angle = 0.3
    a.mesh_to(b, target_dir=dirw * (1.0 + 1.5 * d["pose"]))
    R.op()
    for k, v in before.items():
        R.close("the other gear stays", getattr(b.transform, k), v, 0.0)
    Oa = a.transform.orientation
    R.close("orientation is a rotation", Oa @ Oa.T, np.eye(3), 1e-9)
    R.true("orientation is right handed", np.linalg.det(Oa) > 0)
    ra, rb = abs(d["a"][0]) / 2 * d["mod"], abs(d["b"][0]) / 2 * d["mod"]
    ina, inb = d["a"][0] < 0, d["b"][0] < 0
    if not d["a"][1]:
        dist = ra + rb if not (ina or inb) else abs(ra - rb)
        R.close("centre", a.transform.center, c + dirw * dist, 1e-9 * (ra + rb))
        R.close("axes are parallel", Oa[:, 2], O[:, 2], 1e-9)
        P = c + dirw * rb * (-1 if ina and ra < rb else 1)
        if inb:
            P = c + dirw * (rb if rb >= ra else -rb)
        elif ina:
            P = c - dirw * rb if ra > rb else c + dirw * rb
        if ina and ra <= rb or inb and rb <= ra:
            return R
    else:
        # apex and pitch cones touch along the line through the pitch point
        ap = []
        for g, r, cone in ((a, ra, d["a"][1]), (b, rb, d["b"][1])):
            ap.append(g.transform.center + g.transform.orientation[:, 2] * r / math.tan(cone / 2))
        R.close("apexes coincide", ap[0], ap[1], 1e-6 * (ra + rb))
        P = c + dirw * rb
        R.close("pitch point lies on the moved gear's pitch circle", [np.linalg.norm(P - a.transform.center), np.dot(P - a.transform.center, Oa[:, 2])], [ra, 0.0], 1e-6 * (ra + rb))
    # a tooth of one gear meets a gap of the other at the pitch point
    ph = []
    for g, ins in ((a, ina), (b, inb)):
        loc = g.transform.orientation.T @ (P - g.transform.center)
        u = (math.atan2(loc[1], loc[0]) - g.transform.angle) / g.pitch_angle
        ph.append((u, ins))
    x = ph[0][0] % 1.0
    y = ph[1][0] % 1.0
    # external gears: a tooth centre faces a gap centre; the two pitch circles run against each other
    s = -1 if (ina or inb) else 1
    want = 0.0 if (ina or inb) else 0.5
    v = (x + s * y - want) % 1.0
    R.close("tooth meets gap", min(v, 1 - v), 0.0, 1e-6)
    R.state(d)
    return R


def check_build(d):
    R = Result()
    g = base_gear(d["gen"], d["cone"], d["n"], (0.0, 2.0))
    g.transform = core.GearTransform(scale=1.5, center=V(3, -2, 1), orientation=rv([0.3, 0.7, -0.2]), angle=0.4)
    g.module = 1.5
    b = ggs.GearBuilder(gear=g, n_points_vert=3, n_points_hz=4)
    R.op(2)
    part = b.part_transformed
    ok = part.is_valid() if callable(part.is_valid) else part.is_valid
    R.true("part is valid", bool(ok))
    R.true("part is one solid", len(part.solids()) == 1)
    vol = []
    for z in (0.0, 1.0, 2.0):
        prof = g.curve_gen_at_z(z)
        one = np.vstack([ev(getattr(prof, k), np.linspace(0, 1, 65)) for k in SEG[:4] if getattr(prof, k).active])
        full = np.vstack([one @ Rz(i * g.pitch_angle).T for i in range(d["n"])])
        vol.append(Polygon(full[:, :2]).area * prof.transform.scale**2)
    if d["cone"] == 0:
        V0 = 2.0 / 6 * (vol[0] + 4 * vol[1] + vol[2]) * 1.5**3
        R.close("volume of the part", part.volume / V0, 1.0, 3e-3)
    sol = part.solids()[0]
    for z in (0.4, 1.0, 1.7):
        prof = g.curve_gen_at_z(z)
        fl = ev(prof.tooth_curve, np.linspace(0.0, 1.0, 9))
        fm = ev(prof.tooth_curve_mirror, np.linspace(0.0, 1.0, 9))[::-1]
        tf = g.transform * prof.transform
        for i in (0, 1, d["n"] // 2):
            M = Rz(i * g.pitch_angle).T
            # depth from one flank to the other, through the tooth and through the gap
            for k in (2, 4, 6):
                A, B = fl[k], fm[k]
                nxt = Rz(g.pitch_angle) @ A
                ins = [A + (B - A) * u for u in (0.04, 0.5, 0.96)]
                out = [B + (nxt - B) * u for u in (0.04, 0.5, 0.96)]
                R.true("tooth is material", all(sol.is_inside(tuple(tf(q @ M))) for q in ins))
                R.true("gap is empty", not any(sol.is_inside(tuple(tf(q @ M))) for q in out))
        R.state([d, z])
    R.state(d)
    return R


def check_swap(d):
    """exchanging the tooth generator equals building with it"""
    R = Result()
    for cone in (0.0, 1.2):
        if cone == 0 and "octoid" in (d["a"], d["b"]):
            continue
        g = base_gear(d["a"], cone)
        h = base_gear(d["b"], cone)
        old = shape(g.curve_gen_at_z(1.0))
        gen = GENS[d["b"]](0.7, 20)
        g.swap_tooth_generator(gen)
        R.op(2)
        for z in (-1.0, 1.0, 2.0):
            R.close("swapped generator", shape(g.curve_gen_at_z(z)), shape(h.curve_gen_at_z(z)), 1e-9)
        R.close("the generator handed over is not changed", [gen.cone_angle, gen.pitch_radius], [0.7, GENS[d["b"]](0.7, 20).pitch_radius], 0.0)
        g.swap_tooth_generator(GENS[d["a"]](0.1, 20))
        R.close("swapped back", shape(g.curve_gen_at_z(1.0)), old, 1e-9)
        R.state([d, cone])
    return R


def check_tooth(d):
    """flank of a tooth generator: on its plane or sphere, through the pitch circle at the tooth half angle, with the
    pressure angle there, running from root to tip; involutes keep the unwinding law everywhere"""
    R = Result()
    n, cone, al = d["n"], d["cone"], d["al"]
    rp = n / 2
    phi = d["th"] * 2 * PI / n / 4
    lim = bc.ToothLimitParam(h_a=1.0, h_d=1.2)
    kw = dict(pitch_intersect_angle=phi, pitch_radius=rp, cone_angle=cone)
    g = {
        "straight": lambda: gt.GearToothConicGenerator(tooth_angle=-al, ref_limits=lim, **kw),
        "involute": lambda: gt.InvoluteTooth(pressure_angle=al, ref_limits=lim, **kw),
        "undercut": lambda: gt.InvoluteUndercutTooth(pressure_angle=al, ref_limits=lim, pitch_angle=2 * PI / n, **kw),
        "octoid": lambda: gt.OctoidTooth(pressure_angle=al, ref_limits=lim, pitch_angle=2 * PI / n, **kw),
        "octunder": lambda: gt.OctoidUndercutTooth(pressure_angle=al, ref_limits=lim, pitch_angle=2 * PI / n, **kw),
        "cycloid": lambda: gt.CycloidTooth(rc_in_coeff=0.4, rc_out_coeff=0.3, **kw),
    }[d["gen"]]()
    c = g.generate_tooth_curve()
    R.op()
    S = np.linspace(0, 1, 201)
    P = ev(c, S)
    gam = cone / 2
    Rs = rp / math.sin(gam) if cone else None
    apex = V(0, 0, Rs * math.cos(gam)) if cone else None
    if cone:
        R.close("flank lies on the sphere", np.linalg.norm(P - apex, axis=1), np.full(len(S), Rs), 1e-6 * Rs)
        q = (P - apex) / Rs
        th = np.arccos(np.clip(-q[:, 2], -1, 1))  # angle from the axis
        out = Rs * (th - gam)
    else:
        R.close("flank lies in its plane", P[:, 2], np.zeros(len(S)), 1e-9 * rp)
        out = np.linalg.norm(P, axis=1) - rp
    R.true("flank runs from root to tip", out[-1] > 0 and (out[0] < out[-1] or "oct" in d["gen"]))
    # the pitch point
    f = out
    if d["gen"] == "straight" and cone:
        k = 0
        s0 = 0.0
    else:
        ks = [i for i in range(len(S) - 1) if f[i] < 0 <= f[i + 1] or abs(f[i]) < 1e-9]
        R.true("flank crosses the pitch circle", len(ks) >= 1)
        if not ks:
            return R
        k = ks[-1]
        fun = (lambda s: math.acos(max(-1, min(1, -(float(np.asarray(c(s))[2]) - apex[2]) / Rs))) - gam) if cone else (lambda s: float(np.linalg.norm(np.asarray(c(s))[:2])) - rp)
        lo, hi = S[k], S[k + 1]
        if fun(lo) * fun(hi) > 0:
            s0 = lo
        else:
            for _ in range(60):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if fun(mid) < 0 else (lo, mid)
            s0 = (lo + hi) / 2
    p = np.asarray(c(float(s0)), float)
    R.close("flank crosses the pitch circle at the tooth half angle", p, rp * V(math.cos(phi), -math.sin(phi), 0), 2e-5 * rp)
    # slope against the direction of tooth growth
    up = V(*p[:2], 0) / np.linalg.norm(p[:2]) if not cone else None

    def slope(s, h=1e-5):
        a, b = np.asarray(c(max(0.0, s - h)), float), np.asarray(c(s + h), float)
        x = np.asarray(c(s), float)
        t = (b - a) / np.linalg.norm(b - a)
        if cone:
            m = (x - apex) / Rs
            ax = V(0, 0, -1.0)
            g_ = m * (ax @ m) - ax
            g_ /= np.linalg.norm(g_)
            side = np.cross(V(0, 0, 1), x)
        else:
            g_ = V(x[0], x[1], 0) / np.linalg.norm(x)
            side = np.cross(V(0, 0, 1), x)
        side = side / np.linalg.norm(side)
        return math.atan2(t @ side, t @ g_)

    if d["gen"] != "cycloid":
        want = al if d["gen"] != "straight" else -al
        R.close("pressure angle at the pitch circle", slope(s0), want, 2e-4)
    if d["gen"] in ("involute", "undercut"):
        # unwinding: sin(base) = sin(angle from the axis) cos(local pressure angle)
        sb = math.sin(gam) * math.cos(al) if cone else None
        for s in (s0, s0 + 0.3 * (1 - s0), s0 + 0.7 * (1 - s0), s0 + 0.95 * (1 - s0)):
            x = np.asarray(c(float(s)), float)
            if cone:
                t = math.acos(max(-1, min(1, -(x[2] - apex[2]) / Rs)))
                if 0.05 < t < PI - 0.05 and sb < math.sin(t):
                    R.close("unwinding law", math.cos(slope(s)), sb / math.sin(t), 2e-3)
            else:
                r = np.linalg.norm(x)
                R.close("unwinding law", math.cos(slope(s)), rp * math.cos(al) / r, 1e-3)
        if d["gen"] == "involute":
            R.close("base radius of the tooth", g.get_base_radius(), Rs * sb if cone else rp * math.cos(al), 1e-4 * rp)
            if not cone:
                R.close("base angle of the tooth", g.get_base_angle(), -(phi + inv(al)), 1e-6)
    if d["gen"] != "straight":
        R.close("flank ends where both flanks meet" if d["gen"] != "cycloid" else "tip side", 0.0 if d["gen"] == "cycloid" else P[-1][1], 0.0, 1e-4 * rp)
        need = -1.2 if d["gen"] in ("octoid", "octunder") else -0.5
        R.true("flank reaches below the pitch circle", out.min() <= need + 1e-3 * rp)
    R.op(3)
    R.state(d)
    return R


def check_polar(d):
    """gear polar coordinates: out along the tooth, angle, height towards the apex; both ways, single points and arrays"""
    R = Result()
    cone, r = d["cone"], d["r"]
    T = core.GearPolarTransform(cone_angle=cone, base_radius=r)
    gam = cone / 2
    pts, want = [], []
    for o in (-0.3, 0.0, 0.4):
        for a in (-2.8, -0.5, 0.0, 1.3):
            for z in (-0.5, 0.0, 0.7):
                if cone == 0:
                    rr = r + o * r
                    pts.append(V(rr * math.cos(a), rr * math.sin(a), z))
                    want.append(V(rr, a, z))
                    continue
                ag = abs(gam)
                sg = 1 if cone > 0 else -1
                Rs = r / math.sin(ag)
                th = ag + o * min(ag, PI - ag) * 0.8
                rho = Rs - z * r * 0.5
                x = V(rho * math.sin(th) * math.cos(a), rho * math.sin(th) * math.sin(a), sg * (Rs * math.cos(ag) - rho * math.cos(th)))
                pts.append(x)
                want.append(V(Rs * (th - ag), a, z * r * 0.5))
    pts, want = np.array(pts), np.array(want)
    if cone:  # outward distances count from the pitch circle
        want = want + [T(V(r, 0, 0))[0], 0, 0]
    R.close("polar coordinates", np.array([T(p) for p in pts]), want, 1e-7 * (1 + np.abs(want).max()))
    R.close("polar coordinates of arrays", T(pts), want, 1e-7 * (1 + np.abs(want).max()))
    R.close("points from polar coordinates", np.array([T.inv(w) for w in want]), pts, 1e-7 * (1 + np.abs(pts).max()))
    R.close("points from arrays of polar coordinates", T.inv(want), pts, 1e-7 * (1 + np.abs(pts).max()))
    if cone:
        for sc in (1.0, 2.5):
            for cen in (V(0, 0, 0), V(1, -2, 3)):
                for o in (np.eye(3), rv([0.4, -1.0, 0.2])):
                    C = bc.ConicData(cone_angle=cone, base_radius=r, transform=bc.TransformData(center=cen, orientation=o, scale=sc))
                    R.close("cone sizes", [C.gamma, C.height, C.R, C.spherical_radius, C.r], [gam, sc * r / math.tan(gam), sc * r / abs(math.sin(gam)), sc * r / abs(math.sin(gam)), r], 1e-9 * (1 + r))
                    R.close("cone apex", C.center, cen + o[:, 2] * sc * r / math.tan(gam), 1e-9 * (1 + r))
                    R.close("cone base", C.center_base, cen, 1e-12)
                    R.op()
    R.op(4)
    R.state(d)
    return R
