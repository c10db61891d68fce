"""C07 the built solid is the gear: valid, single, bounded by the generated outline at
every height, with the right volume, width and pose, also after moves and updates."""
import itertools
import warnings
from mc.geo import *
from mc.engine import Result
import build123d as bd
from OCP.BRepExtrema import BRepExtrema_DistShapeShape
from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeVertex
from OCP.BRepClass3d import BRepClass3d_SolidClassifier
from OCP.TopAbs import TopAbs_IN, TopAbs_OUT
from OCP.gp import gp_Pnt

ITEM_TIMEOUT = 200
RULE = ("state = (gear configuration, pose, history of moves since the solid was built); every solid returned by build_part / update_part is valid and single, its "
        "surface passes through the generated outline at every sampled height, tooth bodies are inside and gaps outside for every tooth, volume and width "
        "match, and it stands at the gear's current pose")
BOUNDS = {
    "quick": "all gears within 1 parameter deviation of 6 base gears, built in a general pose; gears with more than a full turn of twist; 15 orientations x 3 gears; all histories of 2 moves with an update after each",
    "thorough": "all gears within 2 parameter deviations, histories of 3 moves, all kinds",
}
ASSUMPTIONS = ["CAD solids approximate the outline by splines: fidelity is judged at 5e-3 module (20e-3 for strongly twisted or crowned teeth)"]

POSE = dict(center=[4.0, -7.0, 2.5], O=[0.4, -1.1, 0.3], angle=-2.0)
COMMON = dict(module=[0.5, 3.0], profile_shift=[-0.25, 0.4], pressure_angle=[15 * DEG, 25 * DEG], backlash=[0.05], height=[0.3, 4.0],
              addendum_coefficient=[0.7], dedendum_coefficient=[1.0, 1.35], tip_fillet=[0.1], root_fillet=[0.15])
BASES = [
    ("spur", dict(c="InvoluteGear", z=12, enable_undercut=False), dict(COMMON, z=[4, 7, 25, 40], enable_undercut=[True], z_anchor=[0.5, 1.0], tip_truncation=[0.0], crowning=[60.0], helix_angle=[0.3, -0.5], inside_teeth=[True])),
    ("ring", dict(c="SpurRingGear", z=20), dict(COMMON, z=[13, 31], z_anchor=[0.5], outside_ring_coefficient=[1.7, 4.0], crowning=[60.0])),
    ("hel", dict(c="HelicalGear", z=9, height=3.0), dict(COMMON, z=[5, 20], helix_angle=[-0.4, 0.15, 0.8], herringbone=[True], z_anchor=[0.5, 1.0], height=[1.0, 12.0], crowning=[60.0], enable_undercut=[False])),
    ("hring", dict(c="HelicalRingGear", z=24), dict(module=[2.0], helix_angle=[-0.4], herringbone=[True], height=[3.0], profile_shift=[0.2])),
    ("bevel", dict(c="BevelGear", z=12, cone_angle=1.2, height=2.0), dict(z=[7, 25], cone_angle=[0.5, 2.2], module=[0.5, 3.0], height=[1.0], helix_angle=[0.3], z_anchor=[0.5], profile_shift=[0.25], backlash=[0.05], tip_fillet=[0.1], root_fillet=[0.2], enable_undercut=[False], dedendum_coefficient=[1.0])),
    ("bevinv", dict(c="InvoluteGear", z=30, cone_angle=1.2, enable_undercut=False), dict(inside_teeth=[True], crowning=[60.0])),
    ("cyc", dict(c="CycloidGear", z=9), dict(z=[6, 17], module=[0.5, 3.0], height=[0.3, 4.0], inside_cycloid_coefficient=[0.3], outside_cycloid_coefficient=[0.3], backlash=[0.05], helix_angle=[0.3], crowning=[60.0], z_anchor=[0.5], tip_fillet=[0.1], root_fillet=[0.1], inside_teeth=[True], cone_angle=[1.2])),
]
ORI = [[0, 0, 0], [PI, 0, 0], [0, PI, 0], [0, 0, PI], [PI / 2, 0, 0], [0, PI / 2, 0], [0, -PI / 2, 0], [-PI / 2, 0, 0], [0, 0, 2.0], [2 * PI / 3 / 3**0.5] * 3,
       [0.3, 0.8, -1.3], [2.1, -0.7, 1.1], [-1.5, 1.4, 0.2], [1.0, 1.0, 0.0], [0.0, 1.5707, 0.4]]
MOVERS = dict(
    spur=(dict(c="SpurGear", z=11, module=1.5, z_anchor=0.5, height=2.0), dict(c="SpurGear", z=17, module=1.5)),
    ring=(dict(c="SpurRingGear", z=24, module=0.8), dict(c="SpurGear", z=10, module=0.8)),
    hel=(dict(c="HelicalGear", z=10, helix_angle=0.4, enable_undercut=False, height=2.0), dict(c="HelicalGear", z=14, helix_angle=-0.4, enable_undercut=False)),
    bevel=(dict(c="BevelGear", z=10, cone_angle=2 * math.atan(10 / 14), module=1.5), dict(c="BevelGear", z=14, cone_angle=2 * math.atan(14 / 10), module=1.5)),
    cyc=(dict(c="CycloidGear", z=8, module=2.0), dict(c="CycloidGear", z=13, module=2.0)),
)
MOVES = ["centre", "angle", "orient", "mesh", "reset", "rebuild"]


def ITEMS(tier):
    q = tier == "quick"
    for name, base, alpha in BASES:
        for g in deviations(base, alpha, 1 if q or name == "bevel" else 2):
            yield dict(k="build", g=g, p=1)
        yield dict(k="build", g=base, p=0)
    for kind in ("spur", "hel") if q else MOVERS:
        for i in range(0, len(ORI), 3):
            yield dict(k="ori", g=kind, os=list(range(i, min(i + 3, len(ORI)))))
    for kind in MOVERS:
        n = 2 if q else 3
        for h in itertools.product(range(len(MOVES)), repeat=n):
            if q and kind in ("bevel", "cyc", "ring") and h[0] % 3 != h[1] % 3:
                continue
            if kind == "bevel" and MOVES[h[0]] == "rebuild":
                continue
            yield dict(k="moves", g=kind, h=list(h))
    yield dict(k="build", g=dict(c="HelicalGear", z=5, root_fillet=0.15, height=3.0), p=1)
    for z1, z2 in ((9, 14), (13, 8)):
        for first in (0, 1):
            yield dict(k="adapt", g=dict(c="CycloidGear", z=z1, **POSE), h=[z2, first])
    # worm-like gears: more than one full turn of twist along the width
    worms = [dict(z=5, height=20.0, helix_angle=0.8), dict(z=5, height=20.0, helix_angle=-0.8, herringbone=True), dict(z=5, height=8.0, helix_angle=1.25), dict(z=5, height=8.0, helix_angle=-1.2, z_anchor=0.5)]
    if not q:
        worms += [dict(z=6, height=48.0, helix_angle=0.9), dict(z=9, height=60.0, helix_angle=-0.9, z_anchor=0.5, enable_undercut=False), dict(z=7, height=30.0, helix_angle=1.0, herringbone=True, module=2.0)]
    for w in worms:
        yield dict(k="build", g=dict(w, c="HelicalGear"), p=1)
    for kw in (dict(n_vert=5), dict(n_points_hz=5), dict(n_vert=3, n_points_hz=6)):
        yield dict(k="build", g=dict(c="HelicalGear", z=9, helix_angle=0.3, enable_undercut=False), p=1, kw=kw)


def WEIGHT(d):
    g = d["g"]
    if isinstance(g, str):
        return 6.0 if g == "bevel" else 2.0
    w = 8.0 if g.get("cone_angle") else 8.0 if g.get("height", 0) > 15 else 1.0
    return w * (1 + g["z"] / 20)


def make_p(g, p):
    if p:
        g = dict(g)
        g.update(POSE)
    return make(g)


class Solid:
    def __init__(self, part):
        self.part = part
        self.solids = part.solids()
        self.s = self.solids[0]
        self.shell = self.s.shells()[0].wrapped
        self.cl = BRepClass3d_SolidClassifier(self.s.wrapped)

    def dist(self, p):
        return BRepExtrema_DistShapeShape(BRepBuilderAPI_MakeVertex(gp_Pnt(*map(float, p))).Vertex(), self.shell).Value()

    def inside(self, p):
        self.cl.Perform(gp_Pnt(*map(float, p)), 1e-9)
        return self.cl.State() == TopAbs_IN

    def outside(self, p):
        self.cl.Perform(gp_Pnt(*map(float, p)), 1e-9)
        return self.cl.State() == TopAbs_OUT


def area(pts):
    x, y = pts[:, 0], pts[:, 1]
    return 0.5 * abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1)))


def valid(part):
    v = part.is_valid
    return v() if callable(v) else v


def middle(gear, pr, a, b):
    """world point in the middle between two outline points, on the slice (sphere of a bevel gear)"""
    a, b = gear.gearcore.transform(pr.transform(np.array([a, b])))
    mid = 0.5 * (a + b)
    if gear.cone_angle:
        A = np.asarray(gear.center_spherical, float)
        mid = A + (mid - A) * np.linalg.norm(a - A) / np.linalg.norm(mid - A)
    return mid


def spin(gear, p, i):
    t = gear.gearcore.transform
    O, c = t.orientation, t.center
    return c + O @ Rz(2 * PI * i / gear.number_of_teeth) @ O.T @ (p - c)


def compare(R, gear, part, tol, fr=(0.03, 0.5, 0.96), n=5, all_teeth=True, teeth=None):
    """the solid against the outline the gear generates, at the gear's current pose"""
    core_ = gear.gearcore
    m = gear.module
    N = gear.number_of_teeth
    R.true("the part is one solid", len(part.solids()) == 1)
    R.true("the part is valid", valid(part))
    S = Solid(part)
    zv = core_.z_vals
    worst = 0.0
    ring = bool(gear.inside_teeth)
    for k, f in enumerate(fr):
        z = zv[0] + (zv[-1] - zv[0]) * f
        pr = core_.curve_gen_at_z(z)
        P = profile_points(pr, n)
        turn = lambda q, i: core_.transform(pr.transform(q @ Rz(i * pr.pitch_angle).T))
        tooth = teeth if teeth is not None else [(0, N // 2 + 1, N - 1)[k % 3]]
        for i in tooth:
            for name in P:
                if not getattr(pr, name).active:
                    continue  # segment vanished (pointed tip, fully rounded root)
                for p in turn(P[name][1:], i):
                    worst = max(worst, S.dist(p))
        # body of the tooth / gap: middle of the chord between both flanks at equal radius
        a, b = P["tooth_curve"], P["tooth_curve_mirror"][::-1]
        j = n // 2
        mid = middle(gear, pr, a[j], b[j])
        gap = middle(gear, pr, b[j] @ Rz(-pr.pitch_angle).T, a[j])
        for i in range(N) if (all_teeth and k == 1) else (0, N - 1):
            t_in, g_in = S.inside(spin(gear, mid, i)), S.inside(spin(gear, gap, i))
            if t_in == ring or g_in != ring:
                R.fail(f"tooth {i} of {N} at width {f}: tooth {'inside' if t_in else 'outside'}, gap {'inside' if g_in else 'outside'} the solid")
                break
    R.le("outline off the surface / module", worst / m, tol)
    return S


def CHECK(d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return dict(build=build, ori=ori, moves=moves, adapt=adapt)[d["k"]](d)


def fidelity(g):
    tw = abs(g.get("helix_angle", 0.5 if "Helical" in g["c"] else 0.0)) * g.get("height", 1.0) / g.get("module", 1.0) / g["z"] * 2
    if g.get("crowning"):
        tw += 1.0
    return 5e-3 if tw < 0.8 else 20e-3


def build(d):
    R = Result()
    g = d["g"]
    gear = make_p(g, d["p"])
    part = gear.build_part(**d.get("kw", {}))
    R.op()
    S = compare(R, gear, part, fidelity(g))
    t = gear.gearcore.transform
    m, h, za = g.get("module", 1.0), g.get("height", 1.0), g.get("z_anchor", 0.0)
    if not g.get("cone_angle"):
        if g["c"] != "BevelGear":
            # width along the axis
            O = rv(POSE["O"]) if d["p"] else np.eye(3)
            c = np.array(POSE["center"] if d["p"] else [0, 0, 0.0])
            zs = np.array([(np.array(tuple(v)) - c) @ O[:, 2] for v in part.vertices()])
            R.close("width", [zs.min(), zs.max()], [-za * h, (1 - za) * h], 1e-6 * m)
            # volume from slice areas
            zv = gear.gearcore.z_vals
            fs = [0, 0.5, 1.0] if not g.get("crowning") else [0, 0.25, 0.5, 0.75, 1.0]
            A = [area(gear.gearcore.transform.scale * outline(gear.gearcore.curve_gen_at_z(zv[0] + f * (zv[-1] - zv[0])), n=61)[:, :2]) for f in fs]
            w = np.array([1, 4, 1]) / 6 if len(fs) == 3 else np.array([1, 4, 2, 4, 1]) / 12
            Vref = float(np.dot(A, w)) * h
            if gear.inside_teeth:
                sp_m = gear.module
                ro = gear.max_outside_radius
                if g["c"] == "SpurRingGear":
                    ro = (gear.number_of_teeth / 2 + g.get("outside_ring_coefficient", 2.5)) * sp_m
                Vref = PI * ro * ro * h - Vref
            R.close("volume", part.volume / Vref, 1.0, 1e-3)
    else:
        # nothing beyond both ends of the teeth
        zv = gear.gearcore.z_vals
        for f, want in ((-0.03, False), (0.03, True), (0.97, True), (1.03, False)):
            pr = gear.gearcore.curve_gen_at_z(zv[0] + f * (zv[-1] - zv[0]))
            P = profile_points(pr, 5)
            a, b = P["tooth_curve"][2], P["tooth_curve_mirror"][2]
            if gear.inside_teeth:
                a, b = b @ Rz(-pr.pitch_angle).T, a
            got = S.inside(middle(gear, pr, a, b))
            R.true(f"tooth material at width {f} is {'present' if want else 'absent'}", got == want)
    R.state(g)
    return R


def ori(d):
    R = Result()
    gear = make(MOVERS[d["g"]][0])
    gear.build_part()
    for i in d["os"]:
        for c, a in (([0, 0, 0], 0.0), ([3.0, -2.0, 5.0], 1.3)):
            gear.gearcore.transform.orientation = rv(ORI[i])
            gear.center = np.array(c, float)
            gear.angle = a
            p = gear.update_part()
            R.op()
            compare(R, gear, p, 5e-3, fr=(0.5,), n=3, all_teeth=False)
            R.state([d["g"], i, a])
    return R


def moves(d):
    R = Result()
    a, b = MOVERS[d["g"]]
    gear = make(a)
    fixed = make(dict(b, **POSE))
    first = gear.build_part()
    c0 = np.array(tuple(first.center()))
    vol = first.volume
    last = None
    for j, i in enumerate(d["h"]):
        op = MOVES[i]
        t = gear.gearcore.transform
        if op == "centre":
            gear.center = np.array([1.0 + j, 2.0, -3.0])
        elif op == "angle":
            gear.angle = gear.angle + 0.7
        elif op == "orient":
            t.orientation = rv([0.5, 0.2 + j, -0.9]) @ t.orientation
        elif op == "mesh":
            if gear.inside_teeth:
                gear.mesh_to(fixed, target_dir=rv(POSE["O"]) @ np.array([0.6, 0.8, 0.0]))
            else:
                gear.mesh_to(fixed, target_dir=rv(POSE["O"]) @ np.array([-0.8, 0.6, 0.0]))
        elif op == "reset" and hasattr(gear, "reset_location"):
            gear.reset_location()
        part = gear.build_part() if op == "rebuild" else gear.update_part()
        R.op()
        compare(R, gear, part, 5e-3, fr=(0.5,), n=3, all_teeth=False)
        R.close("volume after moving", part.volume, vol, 1e-6 * vol)
        if last is not None:
            R.close("part returned before the move", np.array(tuple(last[0].center())), last[1], 1e-9)
        last = (part, np.array(tuple(part.center())))
        R.state([d["g"], d["h"][: j + 1]])
    R.close("part returned before the move", np.array(tuple(first.center())), c0, 1e-9)
    return R


def adapt(d):
    """a gear whose tooth shape is adapted after its solid was made: the updated solid is the adapted gear"""
    R = Result()
    g = d["g"]
    z2, first = d["h"]
    ga, gb = make(g), make(dict(c="CycloidGear", z=z2, inside_cycloid_coefficient=0.3))
    for x in (ga, gb):
        x.build_part()
    (ga, gb)[first].adapt_cycloid_radii((gb, ga)[first])
    R.op(3)
    for x in (ga, gb):
        compare(R, x, x.update_part(), fidelity(g), fr=(0.3,))
        R.op()
    R.state(d)
    return R
