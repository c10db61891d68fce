"""C08 observing a gear leaves it as it is: queries, drawings, exports and builds - also
builds that fail half way - never change the gear or rack they are called on."""
import inspect
import sys
import warnings
from mc.geo import *
from mc.engine import Result
import gggears
import gggears.gggears_build123d as gb
import build123d as bd

LEVEL = "fault_enumeration"
ITEM_TIMEOUT = 120
RULE = ("state = everything observable of one gear or rack (pose, parameters, outline at three heights, reported dimensions); transition = one "
        "query, drawing, export, copy or build of the real object, or a build in which the k-th CAD operation raises (every k); the state must not "
        "change, repeating an operation returns the same result, and after a failed build the next build gives the part of an undisturbed gear")
BOUNDS = {
    "quick": "10 gear and rack kinds x 2 poses: all histories of 2 observing operations; builds of 8 small gears and racks with a failure at every CAD operation (bevel: every call site)",
    "thorough": "all histories of 3 observing operations, failures at every CAD operation and at every numerical solve for all kinds and poses",
}
ASSUMPTIONS = ["failures are exceptions raised by the CAD kernel or the numerical solvers", "one thread"]

KINDS = dict(
    spur=dict(c="SpurGear", z=7, profile_shift=0.2, height=2.0, z_anchor=0.5),
    spurfillet=dict(c="SpurGear", z=9, enable_undercut=False, root_fillet=0.2, tip_fillet=0.1),
    ring=dict(c="SpurRingGear", z=20),
    hel=dict(c="HelicalGear", z=8, helix_angle=0.4, enable_undercut=False, module=2.0),
    herr=dict(c="HelicalGear", z=8, helix_angle=0.4, herringbone=True, enable_undercut=False, height=3.0),
    hring=dict(c="HelicalRingGear", z=24, helix_angle=0.3),
    bevel=dict(c="BevelGear", z=9, cone_angle=1.2, module=1.5),
    cyc=dict(c="CycloidGear", z=7, helix_angle=0.2),
    cycbev=dict(c="CycloidGear", z=10, cone_angle=1.3),
    crown=dict(c="InvoluteGear", z=10, enable_undercut=False, crowning=40.0, backlash=0.03),
)
RACKS = dict(
    rack=dict(c="InvoluteRack", number_of_teeth=4, module=1.5),
    hrack=dict(c="HelicalRack", number_of_teeth=3, helix_angle=0.3),
    herrack=dict(c="HelicalRack", number_of_teeth=3, helix_angle=0.3, herringbone=True),
)
POSES = [None, dict(center=[4.0, -7.0, 2.5], O=[0.4, -1.1, 0.3], angle=-2.0)]
OPS = ["props", "at_z", "wire0", "wire5", "copy", "meshother", "loa", "mul", "chain", "build", "update"]
BUILDS = ("build", "update")


def debruijn(k, n):
    """shortest cyclic sequence over k symbols that contains every word of length n"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def chunks(seq, size, overlap):
    i = 0
    while i + overlap < len(seq):
        yield seq[i:i + size + overlap]
        i += size


SEQ = list(range(len(OPS)))


def ITEMS(tier):
    q = tier == "quick"
    for kind in KINDS:
        heavy = kind in ("bevel", "cycbev")
        for pi in (0, 1):
            if q and (heavy or pi == 0):  # every operation once, in both orders
                hs = [SEQ, SEQ[::-1]] if pi else [SEQ]
            else:  # every word of 2 (3) operations
                n = 2 if (q or heavy) else 3
                hs = list(chunks(debruijn(len(OPS), n), 12, n - 1))
            for h in hs:
                yield dict(k="hist", g=kind, p=pi, h=h)
    for kind in RACKS:
        for pi in (0, 1):
            for h in chunks(debruijn(3, 3 if q else 5), 40, 2 if q else 4):
                yield dict(k="rhist", g=kind, p=pi, h=h)
    for kind in list(KINDS) + list(RACKS):
        if q and kind in ("cycbev", "hring", "crown"):
            continue
        for pi in ((1,) if q else (0, 1)):
            for where in ("cad", "solve"):
                if q and where == "solve" and kind not in ("spur", "cyc"):
                    continue
                ns = 4 if q else 16
                if kind in RACKS:
                    ns = 1
                for sl in range(ns):
                    yield dict(k="fault", g=kind, p=pi, w=where, sl=sl, ns=ns, full=not q)


def WEIGHT(d):
    return (10.0 if d["k"] == "fault" else 1.0) * (4.0 if d["g"] in ("bevel", "cycbev") else 1.0)


def fresh(d):
    if d["g"] in RACKS:
        kw = dict(RACKS[d["g"]])
        r = getattr(W, kw.pop("c"))(**kw)
        if d["p"]:
            r.mesh_to(make(dict(c="SpurGear", z=12, module=kw.get("module", 1.0), enable_undercut=False, **{k: v for k, v in POSES[1].items()})), target_dir=rv(POSES[1]["O"]) @ np.array([0.6, 0.8, 0]), offset=1)
        return r
    g = dict(KINDS[d["g"]])
    if d["p"]:
        g.update(POSES[d["p"]])
    return make(g)


def snap(gear):
    """observable state of a gear as a flat list of named values"""
    if not hasattr(gear, "gearcore"):
        return [("position", np.array(gear.position, float).copy()), ("orientation", np.array(gear.orientation, float).copy())] + [
            (k, float(getattr(gear, k))) for k in ("offset", "module", "height", "number_of_teeth", "beta_angle", "pressure_angle") if isinstance(getattr(gear, k, None), (int, float))]
    t = gear.gearcore.transform
    out = [("centre", np.array(t.center, float).copy()), ("orientation", np.array(t.orientation, float).copy()), ("angle", float(t.angle)),
           ("scale", float(t.scale)), ("module", float(gear.module)), ("z values", np.array(gear.gearcore.z_vals, float).copy()),
           ("teeth", float(gear.number_of_teeth)), ("inside", float(bool(gear.inside_teeth))), ("cone", float(gear.cone_angle))]
    for k, v in vars(gear.inputparam).items():
        if isinstance(v, (int, float, bool)):
            out.append(("parameter " + k, float(v)))
        elif isinstance(v, np.ndarray):
            out.append(("parameter " + k, v.astype(float).copy()))
    zv = gear.gearcore.z_vals
    for zz in (zv[0], 0.3 * zv[0] + 0.7 * zv[-1], zv[-1]):
        pr = gear.gearcore.curve_gen_at_z(zz)
        if gear.cone_angle:
            c = gear.gearcore.shape_recipe(zz).cone
            out.append((f"cone {zz:.3f}", np.array([c.R, c.base_radius, c.cone_angle, *np.ravel(c.center)], float)))
            out.append((f"cone angles {zz:.3f}", np.array(gear.cone_angles_at_z(zz), float)))
        out.append((f"outline {zz:.3f}", gear.gearcore.transform(pr.transform(outline(pr, nteeth=1, n=5)))))
    return out


def same(R, what, a, b):
    for (n, x), (n2, y) in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or not np.array_equal(x, y):
            R.fail(f"{what}: {n} changed" + (f" by {np.abs(x - y).max():.3g}" if x.shape == y.shape else ""))
            return False
    return True


def part_sig(p):
    b = p.bounding_box()
    return np.array([p.volume, *b.min, *b.max])


def num(v, depth=0):
    """numbers of a returned value"""
    if isinstance(v, (bool, int, float, np.floating, np.integer)):
        return [float(v)]
    if isinstance(v, np.ndarray):
        return [float(x) for x in v.ravel()]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in num(x, depth + 1)]
    if isinstance(v, bd.Location):
        T = v.wrapped.Transformation()
        return [T.Value(i, j) for i in (1, 2, 3) for j in (1, 2, 3, 4)]
    if isinstance(v, crv.ArcCurve):
        return [float(v.radius), *[float(x) for x in v.center]]
    if hasattr(v, "r_a_curve"):
        return [y for c in (v.r_a_curve, v.r_d_curve, v.r_o_curve, v.r_p_curve) for y in num(c)]
    return []


def do(op, gear):
    """one observing operation; returns its result as numbers"""
    if op == "props":
        out = []
        for n in sorted(set(dir(type(gear)))):
            if n.startswith("_") or not isinstance(getattr(type(gear), n, None), property):
                continue
            if n == "angle_base" and gear.cone_angle:
                continue
            if n in ("r_base",) and gear.cone_angle:
                continue
            out += num(getattr(gear, n))
        return out
    if op == "at_z":
        z = gear.p2z(0.3)
        out = num(gear.center_point_at_z(z)) + num(gear.center_location_at_z(z)) + num(gear.radii_data_gen(z))
        if gear.cone_angle:
            out += num(gear.cone_angles_at_z(z))
            cone = gear.gearcore.cone_at_z(z)
            out += num(np.asarray(cone.center)) + num(cone.R)
            out += [y for v in gear.gearcore.sphere_data_at_z(z) for y in num(np.asarray(v, float))] + num(np.asarray(gear.gearcore.center_sphere))
        elif hasattr(gear, "circle_involute_base"):
            out += num(gear.circle_involute_base(0.3))
        out += num(np.asarray(gear.gearcore.boundary_at_z(z)(0.37))) + num(np.asarray(gear.gearcore.boundary_at_z(z, continuous=False)(0.37)))
        return out
    if op in ("wire0", "wire5"):
        w = gear.build_boundary_wire(0.0 if op == "wire0" else 0.5)
        b = w.bounding_box()
        return [w.length, *b.min, *b.max]
    if op == "copy":
        c = gear.copy()
        c.center = c.center + 1.0
        c.angle = c.angle + 0.3
        c.gearcore.transform.orientation = rv([0.1, 0.2, 0.3]) @ c.gearcore.transform.orientation
        return num(c.center)
    if op == "meshother":
        cls = type(gear)
        if gear.inside_teeth:
            o = cls(number_of_teeth=gear.number_of_teeth) if not hasattr(gear, "x") else None
            kw = dict(number_of_teeth=8, module=gear.module)
            o = W.CycloidGear(**kw) if isinstance(gear, W.CycloidGear) else (W.HelicalGear(helix_angle=gear.helix_angle, **kw) if isinstance(gear, W.HelicalRingGear) else W.SpurGear(**kw))
        else:
            o = gear.copy()
        o.mesh_to(gear, target_dir=gear.gearcore.transform.orientation @ np.array([0.6, 0.8, 0.0]))
        return num(o.center) + num(o.angle)
    if op == "loa":
        if gear.cone_angle or not isinstance(gear, W.InvoluteGear) or gear.inside_teeth:
            return []
        o = gear.copy()
        o.center = gear.center + gear.gearcore.transform.orientation @ np.array([gear.pitch_radius * 2.1, 0, 0])
        return [y for ln in W.LineOfAction(gear, o, z_ratio=0.3).LOA_gen() for y in num(np.asarray(ln(0.0))) + num(np.asarray(ln(1.0)))]
    if op == "mul":
        t = gear.gearcore.transform
        q = t * t.invert() * t
        q.center += 1.0
        q.orientation += 1.0
        return num(t(np.array([1.0, 2, 3])))
    if op == "chain":
        pr = gear.gearcore.curve_gen_at_z(gear.gearcore.z_vals[0])
        ch = core.generate_boundary_chain(pr, gear.gearcore.tooth_param)
        return num(np.asarray(ch(0.37)))
    if op == "build":
        return list(part_sig(gear.build_part()))
    if op == "update":
        return list(part_sig(gear.update_part()))
    raise KeyError(op)


def CHECK(d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return dict(hist=hist, rhist=rhist, fault=fault)[d["k"]](d)


def hist(d):
    R = Result()
    gear = fresh(d)
    s0 = snap(gear)
    res = {}
    for j, i in enumerate(d["h"]):
        op = OPS[i]
        r = do(op, gear)
        R.op()
        s1 = snap(gear)
        if not same(R, f"after {op}", s0, s1):
            return R
        key = "part" if op in BUILDS else op
        if key in res:
            x, y = np.array(r, float), np.array(res[key], float)
            fin = np.isfinite(y)
            R.true(f"{op} repeated: finite values stay finite", x.shape == y.shape and np.array_equal(fin, np.isfinite(x)))
            if x.shape == y.shape:
                R.close(f"{op} repeated", x[fin], y[fin], 1e-7 * (1 + np.abs(y[fin]).max(initial=0.0)))
        res[key] = r
        R.state([d["g"], d["p"], d["h"][max(0, j - 2):j + 1]])
    return R


def rhist(d):
    R = Result()
    r = fresh(d)
    s0 = snap(r)
    sig = None
    for i in d["h"]:
        if i == 0:
            p = part_sig(r.build_part())
            if sig is not None:
                R.close("part built again", p, sig, 1e-7 * (1 + np.abs(p).max()))
            sig = p
        elif i == 1:
            for n in dir(type(r)):
                if not n.startswith("_") and isinstance(getattr(type(r), n, None), property):
                    getattr(r, n)
        elif hasattr(r, "copy"):
            c = r.copy()
            c.position += 1.0
            c.orientation += 1.0
        R.op()
        if not same(R, f"after operation {i}", s0, snap(r)):
            return R
        R.state(d)
    return R


class Fault(Exception):
    pass


class Injector:
    """raises at the k-th call of an instrumented function; k=None counts"""

    def __init__(self, where, k):
        self.where, self.k, self.n, self.saved, self.sites = where, k, 0, [], []

    def wrap(self, f):
        def g(*a, **kw):
            self.n += 1
            if self.k is None:
                fr, site = sys._getframe(1), []
                while fr is not None:
                    if "/gggears/" in fr.f_code.co_filename:
                        site.append((fr.f_code.co_filename, fr.f_lineno))
                    fr = fr.f_back
                self.sites.append((getattr(f, "__name__", ""), tuple(site)))
            if self.k is not None and self.n == self.k + 1:
                raise Fault(f"injected at call {self.k}")
            return f(*a, **kw)
        return g

    def __enter__(self):
        if self.where == "cad":
            for cls, names in ((bd.Face, ("make_bezier_surface", "sweep", "make_surface", "rotate", "fuse")), (bd.Edge, ("make_bezier", "make_circle", "make_line", "rotate")),
                               (bd.Solid, ("make_sphere", "make_cone", "rotate", "translate", "split", "fuse", "scale", "extrude", "intersect", "clean")), (bd.Wire, ("rotate",)), (bd.Part, ("translate", "scale"))):
                for n in names:
                    f = getattr(cls, n, None)
                    if f is None:
                        continue
                    raw = cls.__dict__.get(n)
                    static = isinstance(inspect.getattr_static(cls, n), staticmethod)
                    self.saved.append((cls, n, raw))
                    if hasattr(f, "__self__"):
                        setattr(cls, n, classmethod(self.wrap(f.__func__)))
                    else:
                        setattr(cls, n, staticmethod(self.wrap(f)) if static else self.wrap(f))
        else:
            import gggears.curve as c
            import gggears.gearteeth as gt
            import gggears.gggears_core as gc
            import gggears.gggears_convert as cv
            for m in (c, gt, gc, cv):
                for n in ("root", "minimize", "solve_nurb_interpolation", "least_squares"):
                    f = m.__dict__.get(n)
                    if f is not None:
                        self.saved.append((m, n, f))
                        setattr(m, n, self.wrap(f))
            for n in ("solve_surface", "solve_surface_fast"):
                f = cv.GearToNurbs.__dict__.get(n)
                if f is not None:
                    self.saved.append((cv.GearToNurbs, n, f))
                    setattr(cv.GearToNurbs, n, self.wrap(f))
        return self

    def __exit__(self, *e):
        for o, n, raw in reversed(self.saved):
            if raw is None:
                delattr(o, n)
            else:
                setattr(o, n, raw)


def fault(d):
    R = Result()
    gear = fresh(d)
    s0 = snap(gear)
    with Injector(d["w"], None) as inj:
        good = part_sig(gear.build_part())
    N = inj.n
    R.op()
    ks = list(range(N))
    if not d["full"]:  # first and last execution of every call path of the build
        first, last = {}, {}
        for k, site in enumerate(inj.sites):
            first.setdefault(site, k)
            last[site] = k
        ks = sorted(set(first.values()) | (set(last.values()) if d["g"] != "bevel" else set()))
    ks = [k for i, k in enumerate(ks) if i % d["ns"] == d["sl"]]
    for j, k in enumerate(ks):
        g = fresh(d)
        if j % 4 == 1 and d["g"] not in ("bevel", "cycbev"):
            g.build_part()  # a failed rebuild keeps the gear, too
        raised = False
        with Injector(d["w"], k):
            try:
                g.build_part()
            except Fault:
                raised = True
            except Exception as e:
                raised = True
        R.op()
        R.state([d["g"], d["p"], d["w"], k])
        if not same(R, f"after a build that fails at operation {k}", s0, snap(g)):
            return R
        if k == ks[-1] or (d["g"] not in ("bevel", "cycbev") and j % 6 == 0):
            again = part_sig(g.build_part())
            R.close(f"build after a build that failed at operation {k}", again, good, 1e-6 * (1 + np.abs(good).max()))
            if hasattr(g, "update_part"):
                R.close("update after a failed build", part_sig(g.update_part()), good, 1e-6 * (1 + np.abs(good).max()))
            R.op(2)
    return R
