"""C04 placement laws: where a gear ends up when it is meshed depends only on both
gears' shapes, the fixed gear's current placement and the requested direction."""
import itertools
from mc.geo import *
from mc.engine import Result
import gggears.gearteeth as teeth

RULE = ("state = (pair, pose of the fixed gear, direction, history of the moved gear); transition = one pose assignment or "
        "meshing on the real gears; oracle = the same meshing of fresh gears in the reference pose, moved rigidly / turned by the gear ratio")
BOUNDS = {
    "quick": "21 kinds of pairs x (8 rigid motions + 6 turn angles + 8 directions, <=2 at once) and all histories of <=2 operations out of 7 on the moved gear",
    "thorough": "all combinations of motions, turns and directions and all histories of <=3 operations",
}
ASSUMPTIONS = ["direction lies in the plane of rotation of the fixed gear; poses compared modulo one tooth pitch"]

A20 = 20 * DEG
G_IN = (math.atan2(math.sin(22 * DEG), 60 / 21 - math.cos(22 * DEG)), 22 * DEG + math.atan2(math.sin(22 * DEG), 60 / 21 - math.cos(22 * DEG)))
PAIRS = dict(
    spur=(dict(c="SpurGear", z=17), dict(c="SpurGear", z=25)),
    shift=(dict(c="SpurGear", z=9, profile_shift=0.4, module=2.0), dict(c="SpurGear", z=40, profile_shift=-0.2, module=2.0, backlash=0.05)),
    inring=(dict(c="SpurGear", z=14, module=1.5), dict(c="SpurRingGear", z=41, module=1.5)),
    ringon=(dict(c="SpurRingGear", z=50), dict(c="SpurGear", z=23)),
    helical=(dict(c="HelicalGear", z=15, helix_angle=0.4, height=3.0), dict(c="HelicalGear", z=28, helix_angle=-0.4, height=3.0)),
    crossed=(dict(c="HelicalGear", z=15, helix_angle=0.7, height=3.0), dict(c="HelicalGear", z=28, helix_angle=0.3, height=3.0)),
    helring=(dict(c="HelicalGear", z=15, helix_angle=0.4, height=3.0), dict(c="HelicalRingGear", z=48, helix_angle=0.4, height=3.0)),
    bevel=(dict(c="BevelGear", z=17, cone_angle=2 * math.atan2(17, 31), module=2.0), dict(c="BevelGear", z=31, cone_angle=2 * math.atan2(31, 17), module=2.0)),
    bevel60=(dict(c="BevelGear", z=20, cone_angle=60 * DEG, helix_angle=0.3), dict(c="BevelGear", z=20, cone_angle=60 * DEG, helix_angle=-0.3)),
    cyc=(dict(c="CycloidGear", z=13, inside_cycloid_coefficient=0.5), dict(c="CycloidGear", z=22, module=1.0)),
    cycring=(dict(c="CycloidGear", z=13, module=3.0), dict(c="CycloidGear", z=44, inside_teeth=True, module=3.0)),
    cycbev=(dict(c="CycloidGear", z=18, cone_angle=90 * DEG), dict(c="CycloidGear", z=18, cone_angle=90 * DEG)),
    bevin=(dict(c="InvoluteGear", z=21, cone_angle=2 * G_IN[0], enable_undercut=False), dict(c="InvoluteGear", z=60, cone_angle=2 * G_IN[1], enable_undercut=False, inside_teeth=True)),
    bevon=(dict(c="InvoluteGear", z=60, cone_angle=2 * G_IN[1], enable_undercut=False, inside_teeth=True), dict(c="InvoluteGear", z=21, cone_angle=2 * G_IN[0], enable_undercut=False)),
    bevcycin=(dict(c="CycloidGear", z=21, cone_angle=2 * G_IN[0]), dict(c="CycloidGear", z=60, cone_angle=2 * G_IN[1], inside_teeth=True)),
    helringon=(dict(c="HelicalRingGear", z=48, helix_angle=-0.3, height=3.0, module=1.5), dict(c="HelicalGear", z=17, helix_angle=-0.3, height=3.0, module=1.5)),
    micro=(dict(c="SpurGear", z=17, module=0.001, height=0.002), dict(c="SpurRingGear", z=20, module=0.001, height=0.002)),
    microbev=(dict(c="BevelGear", z=17, cone_angle=2 * math.atan2(17, 31), module=0.002, height=0.004), dict(c="BevelGear", z=31, cone_angle=2 * math.atan2(31, 17), module=0.002, height=0.004)),
    macro=(dict(c="CycloidGear", z=11, module=300.0, height=900.0), dict(c="CycloidGear", z=19, module=300.0, height=900.0)),
    corespur=(dict(c="Core", z=17, module=2.0), dict(c="Core", z=30, module=2.0)),
    corebevel=(dict(c="Core", z=17, module=2.0, cone=80 * DEG), dict(c="Core", z=int(17 * math.sin(50 * DEG) / math.sin(40 * DEG) + 0.5), module=2.0, cone=100 * DEG)),
)
MOTIONS = [None, ([0, 0, 0], [4.0, -7.0, 2.5]), ([0, 0, 1.1], [0, 0, 0]), ([0.7, 0, 0], [1, 2, 3]), ([0.4, -1.1, 0.3], [0, 0, 0]),
           ([0.4, -1.1, 0.3], [5, -3, 2]), ([PI, 0, 0], [0, 0, 10]), ([0, PI / 2, 0], [-3, 0, 0]), ([1.9, 1.3, -0.8], [-20, 40, 15])]
TURNS = [0.0, 0.1, -0.7, 2.9, 7.3, -20.0]
DIRS = [[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [3, 4, 0], [-0.2, 0.1, 0], [-5, -2, 0], [2e-6, -3e-6, 0], [-4e5, 1e6, 0]]
HOPS = ["turn", "shift", "orient", "mesh_other", "mesh_same", "reset", "wire"]


class CoreWrap:
    """core-level gear behind the same face as the wrapper classes"""

    def __init__(self, g):
        cone = g.get("cone", 0.0)
        self.gearcore = core.Gear(
            tooth_param=core.GearToothParam(g["z"]), tooth_generator=teeth.InvoluteTooth(cone_angle=cone),
            module=g.get("module", 1.0), cone=core.ConicData(cone_angle=cone),
        )

    @property
    def pitch_angle(self):
        return self.gearcore.pitch_angle

    @property
    def number_of_teeth(self):
        return self.gearcore.tooth_param.num_teeth

    @property
    def inside_teeth(self):
        return False

    def mesh_to(self, o, target_dir):
        self.gearcore.mesh_to(o.gearcore, target_dir=target_dir)


def mk(g):
    return CoreWrap(g) if g["c"] == "Core" else make(g)


def set_pose(g, c, O, a):
    t = g.gearcore.transform
    t.center = np.array(c, float)
    t.orientation = np.array(O, float)
    t.angle = a


def pose(g):
    t = g.gearcore.transform
    return np.array(t.center, float), np.array(t.orientation, float), float(t.angle), float(t.scale)


def cmp_pose(R, what, got, want, pitch, scale):
    """poses equal modulo one tooth pitch about the gear's own axis"""
    R.close(what + ": centre", got[0], want[0], 1e-7 * scale)
    Q = (got[1] @ Rz(got[2])).T @ (want[1] @ Rz(want[2]))
    R.close(what + ": axis", Q @ np.array([0, 0, 1.0]), np.array([0, 0, 1.0]), 1e-7)
    a = math.atan2(Q[1, 0], Q[0, 0])
    R.close(what + ": tooth phase", wrap(a, pitch), 0.0, 1e-6)
    R.close(what + ": scale", got[3], want[3], 1e-12)


def mesh(k, g1, g2, dr):
    g1.mesh_to(g2, target_dir=dr)


def ITEMS(tier):
    for k in PAIRS:
        combos = set()
        nm, nt, nd = len(MOTIONS), len(TURNS), len(DIRS)
        for m, t, d in itertools.product(range(nm), range(nt), range(nd)):
            dev = (m > 0) + (t > 0) + (d > 0)
            if tier == "quick" and dev > 2:
                continue
            if tier == "quick" and dev == 2 and not (m in (0, 1, 4, 5, 6) and t in (0, 2, 4) and d in (0, 1, 4, 6)):
                continue
            combos.add((m, t, d))
        for m, t, d in sorted(combos):
            yield dict(k=k, m=m, t=t, d=d)
        n = 2 if tier == "quick" else 3
        for L in range(1, n + 1):
            for h in itertools.product(HOPS, repeat=L):
                yield dict(k=k, m=5, t=3, d=4, h=list(h))


def reference(R, k, d):
    """fresh gears, fixed gear in the reference pose"""
    p1, p2 = PAIRS[k]
    g1, g2 = mk(p1), mk(p2)
    R.op(2)
    mesh(k, g1, g2, np.array(DIRS[d], float))
    R.op()
    return g1, g2


def CHECK(it):
    R = Result()
    k = it["k"]
    p1, p2 = PAIRS[k]
    ref, ref2 = reference(R, k, it["d"])
    c, O, a, s = pose(ref)
    G = MOTIONS[it["m"]]
    RG, tG = (np.eye(3), np.zeros(3)) if G is None else (rv(G[0]), np.array(G[1], float))
    phi = TURNS[it["t"]]
    g1, g2 = mk(p1), mk(p2)
    R.op(2)
    for n, op in enumerate(it.get("h", [])):
        if op == "turn":
            g1.gearcore.transform.angle = 1.3 + n
        elif op == "shift":
            g1.gearcore.transform.center = np.array([3.0, -8.0, 1.0 + n])
        elif op == "orient":
            g1.gearcore.transform.orientation = rv([0.3 + n, 1.0, -0.5])
        elif op == "mesh_other":
            x = mk(dict(p2))
            set_pose(x, [1, 1, 5 + n], rv([0.2, 0.1, 2.0]), 0.4)
            mesh(k, g1, x, rv([0.2, 0.1, 2.0]) @ np.array([0.0, 1.0, 0.0]))
        elif op == "mesh_same":
            mesh(k, g1, g2, g2.gearcore.transform.orientation @ np.array([0.3, -1.0, 0.0]))
        elif op == "reset":
            if hasattr(g1, "reset_location"):
                g1.reset_location()
        elif op == "wire":
            if n == 0 and hasattr(g1, "center_location_top"):
                g1.center_location_top
                g1.gearcore.curve_gen_at_z(0.0)
        R.op()
    set_pose(g2, tG, RG, phi)
    before = pose(g2)
    dr = RG @ np.array(DIRS[it["d"]], float)
    dr0 = dr.copy()
    mesh(k, g1, g2, dr)
    R.op()
    # expected: reference pose moved by G, turned by the gear ratio
    ratio = g2.number_of_teeth / g1.number_of_teeth
    ring = g1.inside_teeth or g2.inside_teeth
    turn = phi * ratio * (1 if ring else -1)
    want = (RG @ c + tG, RG @ O, a + turn, s)
    scale = 50.0
    cmp_pose(R, "meshed gear", pose(g1), want, g1.pitch_angle, scale)
    after = pose(g2)
    for x, y, n in zip(before, after, ("centre", "orientation", "angle", "scale")):
        R.close("fixed gear " + n, y, x, 0)
    R.close("direction argument", dr, dr0, 0)
    # doing it again changes nothing
    mesh(k, g1, g2, dr)
    R.op()
    cmp_pose(R, "meshed again", pose(g1), want, g1.pitch_angle, scale)
    # the direction and the fixed gear's teeth turned together: the meshed gear goes round with them
    if "h" not in it:
        u = np.array(DIRS[it["d"]], float)
        az = math.atan2(u[1], u[0])
        g3, g4 = mk(p1), mk(p2)
        set_pose(g4, [0, 0, 0], np.eye(3), phi - az)
        mesh(k, g3, g4, np.array([1.0, 0, 0]))
        R.op(3)
        c3, O3, a3, s3 = pose(g3)
        Z = RG @ Rz(az)
        cmp_pose(R, "direction turned", pose(g1), (Z @ c3 + tG, Z @ O3, a3, s3), g1.pitch_angle, scale)
    # basic sanity of the reference pose itself: in the plane, in the requested direction
    if "bev" not in k:
        v = c - np.zeros(3)
        u = np.array(DIRS[it["d"]], float)
        u /= np.linalg.norm(u)
        R.close("centre collinear with direction", np.linalg.norm(np.cross(v, u)), 0.0, 1e-9 * scale)
        if not ref.inside_teeth:
            R.true("centre on the requested side", np.dot(v, u) > 0)
    R.state(it)
    return R
