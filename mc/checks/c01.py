"""C01 independence: an operation on one gear changes that gear only."""
import itertools
from mc.geo import *
from mc.engine import Result
import gggears

RULE = ("state = poses and outlines of all gears and racks of a small world sharing user arrays and defaults; transition = one public "
        "operation on one slot of the real objects; the model predicts which slot changes and how, every other slot, the user's "
        "own arrays and the library constants must stay bit-for-bit the same")
BOUNDS = {
    "quick": "5 worlds of three gears (spur, helical, bevel, cycloid, ring) + rack; 9 kinds of gears x 12 parameters changed on a copy or its original; all histories of 2 operations, and all sharing x sharing x mutating histories of 3",
    "thorough": "all histories of 3 operations in every world, sharing^3 x mutating histories of 4",
}
ASSUMPTIONS = ["objects are used through their public interface by one thread"]

WORLDS = dict(
    spur=[dict(c="SpurGear", z=17, enable_undercut=False), dict(c="SpurGear", z=23, enable_undercut=False), dict(c="SpurRingGear", z=60)],
    hel=[dict(c="HelicalGear", z=14, helix_angle=0.3, height=2.0, enable_undercut=False), dict(c="HelicalGear", z=20, helix_angle=-0.3, height=2.0, enable_undercut=False), dict(c="HelicalGear", z=25, helix_angle=0.5, enable_undercut=False)],
    bev=[dict(c="BevelGear", z=20, enable_undercut=False), dict(c="BevelGear", z=20, enable_undercut=False), dict(c="BevelGear", z=20, enable_undercut=False, helix_angle=0.2, module=2.0)],
    cyc=[dict(c="CycloidGear", z=13), dict(c="CycloidGear", z=22, inside_cycloid_coefficient=0.4), dict(c="CycloidGear", z=40, inside_teeth=True)],
    mix=[dict(c="InvoluteGear", z=18, enable_undercut=False, crowning=30.0, backlash=0.02), dict(c="InvoluteGear", z=-50, enable_undercut=False), dict(c="SpurGear", z=21, enable_undercut=False)],
)
VEC = [np.array([1.5, -2.0, 0.5]), np.array([-4.0, 0.25, 7.0]), np.array([0.5, 0.5, -3.0]), np.array([2.0, 1.0, 1.0])]

SHARE = ["set01", "set20", "mesh01", "mesh12", "mesh20", "copy01", "copy12", "reset0", "reset1", "new2", "adapt01", "rack0"]
MUTATE = ["move0", "move1", "move2", "tilt0", "tilt1", "user", "rackmove", "ret0"]
PLAIN = ["turn0", "turn1", "wire0", "read1", "orient0"]
OPS = SHARE + MUTATE + PLAIN
CONST = [n for n in dir(defs) if isinstance(getattr(defs, n), np.ndarray)]
ORIG = {n: getattr(defs, n).copy() for n in CONST}


RECALC = [
    dict(c="InvoluteGear", z=18, crowning=80.0), dict(c="InvoluteGear", z=18, crowning=80.0, helix_angle=0.3), dict(c="InvoluteGear", z=18, cone_angle=1.1, crowning=80.0),
    dict(c="InvoluteGear", z=40, inside_teeth=True, crowning=80.0), dict(c="SpurGear", z=18, crowning=80.0), dict(c="BevelGear", z=18, cone_angle=1.1), dict(c="CycloidGear", z=14, crowning=80.0),
    dict(c="CycloidGear", z=14, cone_angle=1.1, helix_angle=0.2), dict(c="HelicalGear", z=18, helix_angle=0.3, crowning=80.0),
]
FIELDS = dict(crowning=10.0, height=2.5, module=2.0, z_anchor=0.5, number_of_teeth=27, helix_angle=-0.2, cone_angle=0.8, backlash=0.1, addendum_coefficient=0.7, tip_truncation=0.3, center=np.array([9.0, 8.0, 7.0]), angle=0.6)


def recalc(it):
    """a gear and its copy: new parameters for one of them leave the other as it is"""
    R = Result()
    g = make(RECALC[it["i"]])
    h = g.copy()
    a, b = (g, h) if it["who"] else (h, g)
    s0, p0, zv, n0 = shape(b), pose(b), np.array(b.gearcore.z_vals, float), (b.number_of_teeth, b.module, b.cone_angle, b.pitch_angle)
    setattr(a.inputparam, it["f"], FIELDS[it["f"]])
    R.close("outline before the new parameters are applied", shape(b), s0, 1e-12)
    a.calc_params()
    R.op(4)
    R.close("outline of the copy / original", shape(b), s0, 1e-12)
    R.close("pose of the copy / original", pose(b), p0, 0)
    R.close("width of the copy / original", b.gearcore.z_vals, zv, 0)
    R.close("parameters of the copy / original", (b.number_of_teeth, b.module, b.cone_angle, b.pitch_angle), n0, 0)
    R.state(it)
    return R


def ITEMS(tier):
    for i in range(len(RECALC)):
        for f in FIELDS:
            if f == "cone_angle" and "cone_angle" not in RECALC[i]:
                continue
            for who in (0, 1):
                yield dict(k="recalc", i=i, f=f, who=who)
    for w in WORLDS:
        ops = [o for o in OPS if not (o.startswith("adapt") and w != "cyc") and not (o.startswith(("mesh12", "mesh20")) and w in ("mix",))]
        ops = [o for o in ops if not (w in ("bev", "cyc") and o.startswith("rack"))]
        if w == "cyc":
            ops = [o for o in ops if not o.startswith(("reset",))]
        if w == "bev":
            ops = [o for o in ops if o not in ("mesh12", "mesh20")]
        sh, mu = [o for o in ops if o in SHARE], [o for o in ops if o in MUTATE]
        for h in itertools.product(ops, repeat=2 if tier == "quick" else 3):
            yield dict(w=w, h=list(h))
        if tier == "quick":
            if w == "mix":
                continue
            for a, b, c in itertools.product(sh, sh, mu):
                yield dict(w=w, h=[a, b, c], poses=True)
        else:
            for h in itertools.product(sh, sh, sh, mu):
                yield dict(w=w, h=list(h))


def pose(g):
    t = g.gearcore.transform
    return np.concatenate([np.ravel(t.center), np.ravel(t.orientation), [t.angle, t.scale]]).astype(float)


def shape(g):
    """outline of the top face in the gear's own frame"""
    out = []
    for z in (float(g.gearcore.z_vals[-1]),):
        prof = g.gearcore.curve_gen_at_z(z)
        for c in (prof.rd_curve, prof.tooth_curve, prof.ra_curve):
            out.append(prof.transform(ev(c, (0.0, 0.4, 1.0))))
    return np.array(out)


SHAPES = {}


def ref_shape(w, i):
    if (w, i) not in SHAPES:
        SHAPES[w, i] = shape(make(WORLDS[w][i]))
    return SHAPES[w, i]


class World:
    def __init__(self, R, w):
        self.R, self.w = R, w
        self.user = np.array([3.0, 1.0, -2.0])
        self.user_want = self.user.copy()
        # further arrays of the caller, handed to several operations, never to be changed by them
        self.own = dict(direction=np.array([-1.2, 0.9, 0.0]), rack_position=np.array([0.5, -1.0, 2.0]), rack_orientation=rv([0.2, -0.3, 0.4]))
        self.own_want = {k: v.copy() for k, v in self.own.items()}
        self.g = []
        for i, d in enumerate(WORLDS[w]):
            d = dict(d)
            if i < 2:
                d["number_of_teeth"] = d.pop("z")
                cls = getattr(W, d.pop("c"))
                self.g.append(cls(center=self.user, **d))  # both constructors get the user's array
            else:
                self.g.append(make(d))
        self.kind = [0, 1, 2]  # which reference shape each slot has
        self.adapted = [None, None, None]
        ro = dict(position=self.own["rack_position"], orientation=self.own["rack_orientation"])
        self.rack = W.InvoluteRack(number_of_teeth=6, **ro)
        self.rack2 = W.InvoluteRack(number_of_teeth=6, **ro)
        self.rack_want = [self.own_want["rack_position"].copy(), self.own_want["rack_position"].copy()]
        R.op(5)
        self.model = [pose(g) for g in self.g]
        for i in range(2):
            R.close("constructor uses the given position", self.model[i][:3], self.user_want, 0)

    def step(self, op, n):
        R, g = self.R, self.g
        v = VEC[n]
        name, idx = op.rstrip("0123456789"), [int(c) for c in op[len(op.rstrip("0123456789")):]]
        R.op()
        if name == "move":
            i = idx[0]
            want = self.model[i].copy()
            want[:3] += v
            g[i].center += v
            self.model[i] = want
        elif name == "turn":
            i = idx[0]
            g[i].angle += 0.3
            self.model[i][12] += 0.3
        elif name == "set":
            i, j = idx
            g[i].center = g[j].center
            self.model[i][:3] = self.model[j][:3]
        elif name == "tilt":  # in-place change of the orientation matrix
            i = idx[0]
            M = rv([0.3, 0.2 * n, -0.1])
            want = M @ self.model[i][3:12].reshape(3, 3)
            g[i].gearcore.transform.orientation[:] = want
            self.model[i][3:12] = want.ravel()
        elif name == "orient":
            i = idx[0]
            M = rv([0.5, 0.1, 0.2])
            g[i].gearcore.transform.orientation = M
            self.model[i][3:12] = M.ravel()
        elif name == "mesh":
            i, j = idx
            if n % 2:
                g[i].mesh_to(g[j])
            else:
                g[i].mesh_to(g[j], target_dir=self.own["direction"])
            self.model[i] = pose(g[i])
        elif name == "copy":
            i, j = idx  # slot j becomes a copy of slot i
            g[j] = g[i].copy()
            R.close("copy equals the original", pose(g[j]), self.model[i], 0)
            self.model[j] = self.model[i].copy()
            self.kind[j], self.adapted[j] = self.kind[i], self.adapted[i]
        elif name == "reset":
            i = idx[0]
            g[i].reset_location()
            self.model[i][:12] = np.concatenate([np.zeros(3), np.eye(3).ravel()])
            self.model[i][12] = 0.0
        elif name == "new":
            i = idx[0]
            g[i] = make(WORLDS[self.w][i])
            self.model[i][:13] = np.concatenate([np.zeros(3), np.eye(3).ravel(), [0.0]])
            self.model[i][13] = pose(g[i])[13]
            self.kind[i], self.adapted[i] = i, None
        elif name == "adapt":
            i, j = idx
            g[i].adapt_cycloid_radii(g[j])
            self.adapted[i], self.adapted[j] = shape(g[i]), shape(g[j])
        elif name == "user":
            self.user += v
            self.user_want = self.user_want + v
        elif name == "ret":  # the caller works on values it was given
            i = idx[0]
            for a in ("center_point_bottom", "center_point_top", "center_point_middle"):
                p = getattr(g[i], a)
                p += 1.0
        elif name == "wire":
            g[idx[0]].build_boundary_wire()
        elif name == "read":
            i = idx[0]
            for a in ("addendum_radius", "max_outside_radius", "center_location_top", "z_height", "pitch_angle"):
                getattr(g[i], a)
        elif name == "rack":
            self.rack.mesh_to(g[idx[0]], target_dir=self.own["direction"])
            self.rack_want[0] = np.array(self.rack.position, float)
        elif name == "rackmove":
            self.rack.position += v
            self.rack_want[0] = self.rack_want[0] + v
        else:
            raise KeyError(op)
        self.compare(op)

    def compare(self, op):
        R = self.R
        for i in range(3):
            R.close(f"pose of gear {i} after {op}", pose(self.g[i]), self.model[i], 1e-12)
        R.close(f"user's array after {op}", self.user, self.user_want, 1e-12)
        for k, a in self.own.items():
            R.close(f"caller's {k} array after {op}", a, self.own_want[k], 0)
        R.close(f"other rack's orientation after {op}", self.rack2.orientation, self.own_want["rack_orientation"], 0)
        for r, wv, nm in ((self.rack, self.rack_want[0], "rack"), (self.rack2, self.rack_want[1], "other rack")):
            R.close(f"{nm} position after {op}", r.position, wv, 1e-12)
        for nme in CONST:
            if not np.array_equal(getattr(defs, nme), ORIG[nme]):
                R.fail(f"library constant {nme} changed after {op}")
                getattr(defs, nme)[...] = ORIG[nme]
        R.state([self.w] + [np.round(m, 9).tolist() for m in self.model] + self.kind)

    def shapes(self):
        for i in range(3):
            want = self.adapted[i] if self.adapted[i] is not None else ref_shape(self.w, self.kind[i])
            self.R.close(f"outline of gear {i} (own frame)", shape(self.g[i]), want, 1e-9)
        d = make(dict(WORLDS[self.w][2]))
        self.R.op()
        self.R.close("pose of a newly made gear", pose(d)[:13], np.concatenate([np.zeros(3), np.eye(3).ravel(), [0.0]]), 0)


def CHECK(it):
    if it.get("k") == "recalc":
        return recalc(it)
    R = Result()
    w = World(R, it["w"])
    for n, op in enumerate(it["h"]):
        w.step(op, n)
        if R.fails:
            return R
    if not it.get("poses"):
        w.shapes()
    return R
