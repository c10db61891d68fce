"""C12 racks: exact straight-flanked profile, pose conventions, and meshing with gears."""
import itertools
import warnings
from shapely.affinity import translate
from mc.geo import *
from mc.engine import Result
from mc.mesh import poly, world_outline, in_frame
from mc.checks.c07 import Solid, valid

ITEM_TIMEOUT = 120
RULE = ("state = (rack configuration, pose, offset) or (gear, rack, direction, gear pose, rolling phase); the built part is the exact straight-flanked rack at that pose; "
        "meshed racks neither penetrate the gear nor leave free play beyond the backlash at any rolling phase and any height")
BOUNDS = {
    "quick": "all racks within 1 parameter deviation x 2 poses; 6 gear/rack families within 1 deviation x 4 directions x 2 gear poses x 8 rolling phases x up to 3 slices",
    "thorough": "2 deviations for racks and gear/rack pairs, 16 rolling phases",
}
ASSUMPTIONS = ["rack teeth long enough for their fillets; gear teeth cut or free of undercut"]
POSE = dict(position=[4.0, -7.0, 2.5], orientation=[0.4, -1.1, 0.3])
GPOSE = dict(center=[4.0, -7.0, 2.5], O=[0.4, -1.1, 0.3], angle=-2.0)
ORI = [[0, 0, 0], [PI, 0, 0], [0, PI, 0], [0, 0, PI], [PI / 2, 0, 0], [0, PI / 2, 0], [0, -PI / 2, 0], [0, 0, 2.0], [0.3, 0.8, -1.3], [2.1, -0.7, 1.1]]
ALPHA = dict(n=[1, 2, 4, 9], module=[0.005, 3.0, 200.0], height=[0.4, 6.0], pressure_angle=[14.5 * DEG, 27 * DEG], addendum_coefficient=[0.7, 1.2], dedendum_coefficient=[1.0, 1.4],
             backlash=[0.06], tip_fillet=[0.1], root_fillet=[0.15], offset=[1, -0.35])
DIRS = [[1, 0, 0], [-0.6, 0.8, 0], [0.3, -2.0, 0.0], [0.5, 0.5, 0.8]]


def ITEMS(tier):
    k = 1 if tier == "quick" else 2
    for p in (0, 1):
        for g in deviations(dict(c="InvoluteRack", n=5), dict(ALPHA, beta_angle=[0.3, -0.5]), k):
            yield dict(k="rack", g=g, p=p)
        for g in deviations(dict(c="HelicalRack", n=5, helix_angle=0.4), dict(ALPHA, helix_angle=[-0.3, 0.0, 0.8], herringbone=[True]), k):
            yield dict(k="rack", g=g, p=p)
    for o in ORI:
        yield dict(k="rack", g=dict(c="InvoluteRack", n=4, orientation=o, position=[1.0, 2.0, 3.0]), p=0)
        yield dict(k="rack", g=dict(c="HelicalRack", n=3, helix_angle=0.3, herringbone=True, orientation=o, position=[1.0, 2.0, 3.0]), p=0)
    ga = dict(z=[5, 9, 30], module=[0.005, 2.5, 200.0], profile_shift=[0.3, -0.2], pressure_angle=[25 * DEG], height=[3.0], n=[2, 8], offset=[1, -2], gbacklash=[0.04], rbacklash=[0.05], dedendum_coefficient=[1.3])
    fam = [dict(f="spur", z=14), dict(f="hel", z=14, helix_angle=0.35, height=2.0), dict(f="herr", z=14, helix_angle=0.35, height=2.0)]
    for base in fam:
        al = dict(ga)
        if base["f"] != "spur":
            al["helix_angle"] = [-0.35, 0.7]
            al["module"] = [2.5, 200.0]  # a width of 400 modules would run off the rack
        for g in deviations(base, al, k):
            for di in range(len(DIRS)):
                for p in (0, 1):
                    if k == 1 and p == 0 and di % 2:
                        continue
                    yield dict(k="mesh", g=g, d=di, p=p, nph=8 if tier == "quick" else 16)


class RackModel:
    """straight-flanked basic rack, from the documented parameters only (unit transverse module)"""

    def __init__(self, c, n=16, module=1.0, height=1.0, pressure_angle=20 * DEG, addendum_coefficient=1.0, dedendum_coefficient=1.2, backlash=0.0, tip_fillet=0.0, root_fillet=0.0,
                 beta_angle=0.0, helix_angle=0.0, herringbone=False, offset=0.0, **_):
        self.beta = helix_angle if c == "HelicalRack" else beta_angle
        cb = math.cos(helix_angle) if c == "HelicalRack" else 1.0
        self.m, self.n, self.h, self.off = module / cb, n, height, offset
        self.al = math.atan(math.tan(pressure_angle) / cb)
        self.ha, self.hd = addendum_coefficient * cb, dedendum_coefficient * cb
        self.bl, self.tf, self.rf, self.herr = backlash, tip_fillet, root_fillet, herringbone

    def shift(self, z):
        """movement of the profile along the rack at height z (real units)"""
        t = math.tan(self.beta)
        if self.herr and z > self.h / 2:
            return -t * (self.h - z)
        return -t * z

    def teeth(self):
        """tooth indices: the reference tooth is 0, even counts are shifted upwards"""
        return [i - (self.n - 1) // 2 for i in range(self.n)]

    def half_tooth(self, k=7):
        """right half of the outline from the tip centre to the gap centre: points (x, |y|)"""
        T = math.tan(self.al)
        a0, a = V(self.ha, 0), V(self.ha, PI / 4 - T * self.ha - self.bl)
        d, c = V(-self.hd, PI / 4 + T * self.hd - self.bl), V(-self.hd, PI / 2)
        pts = [a0]
        for p, q, r, rad in ((a0, a, d, self.tf), (a, d, c, self.rf)):
            if rad <= 0:
                pts.append(q)
                continue
            u, v = (p - q) / np.linalg.norm(p - q), (r - q) / np.linalg.norm(r - q)
            ang = math.acos(float(np.clip(u @ v, -1, 1)))
            L = rad / math.tan(ang / 2)
            cen = q + (u + v) / np.linalg.norm(u + v) * rad / math.sin(ang / 2)
            s, e = q + u * L - cen, q + v * L - cen
            th = math.acos(float(np.clip(s @ e / rad**2, -1, 1)))
            for f in np.linspace(0, 1, k):
                pts.append(cen + (math.sin((1 - f) * th) * s + math.sin(f * th) * e) / math.sin(th))
        return np.array(pts + [c])

    def outline(self, k=7):
        """closed polygon of the whole rack, real units, offset included"""
        h = self.half_tooth(k)
        one = np.vstack([h[::-1] * [1, -1], h[1:]])
        pts = [one + [0, PI * i] for i in self.teeth()]
        t = self.teeth()
        back = -self.hd - 1.0
        pts.append(np.array([[back, (t[-1] + 0.5) * PI], [back, (t[0] - 0.5) * PI]]))
        P = np.vstack(pts)
        return (P + [0, self.off * PI]) * self.m


def make_rack(g):
    kw = dict(g)
    cls = getattr(W, kw.pop("c"))
    kw["number_of_teeth"] = kw.pop("n")
    if "position" in kw:
        kw["position"] = np.array(kw["position"], float)
    if "orientation" in kw:
        kw["orientation"] = rv(kw["orientation"])
    return cls(**kw)


def CHECK(d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return dict(rack=rack, mesh=mesh)[d["k"]](d)


def check_part(R, part, M, pos, O, what=""):
    """built part against the model at a pose"""
    R.true(what + "the part is one valid solid", len(part.solids()) == 1 and valid(part))
    S = Solid(part)
    P = M.outline()
    worst = 0.0
    nteeth = len(P) - 2
    for f in (0.0, 0.3, 0.5, 0.8, 1.0):
        z = f * M.h
        y0 = M.shift(z)
        loc = np.column_stack([P[:, 0], P[:, 1] + y0, np.full(len(P), z)])
        W_ = pos + loc @ O.T
        mids = 0.5 * (W_ + np.roll(W_, -1, axis=0)) if not (M.tf or M.rf) else W_
        sel = range(len(W_)) if f in (0.3, 0.8) else range(0, len(W_), 3)
        for i in sel:
            worst = max(worst, S.dist(W_[i]), S.dist(mids[i]))
    R.le(what + "rack outline off the part / module", worst / M.m, 1e-5)
    pl = poly(P)
    fine = poly(M.outline(61)) if (M.tf or M.rf) else pl
    R.close(what + "volume", part.volume / (fine.area * M.h), 1.0, 1e-4)
    zs = np.array([(np.array(tuple(v)) - pos) @ O[:, 2] for v in part.vertices()])
    R.close(what + "width", [zs.min(), zs.max()], [0.0, M.h], 1e-6 * M.m)


def rack(d):
    R = Result()
    g = dict(d["g"])
    if d["p"]:
        g.update(POSE)
    r = make_rack(g)
    M = RackModel(**g)
    pos, O = np.array(g.get("position", [0, 0, 0.0])), rv(g["orientation"]) if "orientation" in g else np.eye(3)
    R.op()
    check_part(R, r.build_part(), M, pos, O)
    R.state(d)
    # moving the rack afterwards
    r.position = pos + V(1.0, 2.0, 3.0)
    r.offset = 2.0
    M.off = 2.0
    R.op()
    check_part(R, r.build_part(), M, pos + V(1.0, 2.0, 3.0), O, "moved: ")
    R.state([d, 1])
    return R


def mesh(d):
    R = Result()
    g = d["g"]
    f, b = g["f"], g.get("helix_angle", 0.0)
    shared = {k: g[k] for k in ("module", "pressure_angle", "height") if k in g}
    gd = dict(c="SpurGear" if f == "spur" else "HelicalGear", z=g["z"], **shared, **{k: g[k] for k in ("profile_shift", "dedendum_coefficient") if k in g})
    rd = dict(c="InvoluteRack" if f == "spur" else "HelicalRack", n=g.get("n", 5), **shared)
    if "gbacklash" in g:
        gd["backlash"] = g["gbacklash"]
    if "rbacklash" in g:
        rd["backlash"] = g["rbacklash"]
    if f != "spur":
        gd["helix_angle"] = rd["helix_angle"] = b
        if f == "herr":
            gd["herringbone"] = rd["herringbone"] = True
    if d["p"]:
        gd.update(GPOSE)
    gear, r = make(gd), make_rack(rd)
    sp = Spec(gd)
    M = RackModel(**rd)
    O = rv(GPOSE["O"]) if d["p"] else np.eye(3)
    c = np.array(gd.get("center", [0, 0, 0.0]))
    u = O @ np.array(DIRS[d["d"]], float)
    off = g.get("offset", 0)
    r.mesh_to(gear, target_dir=u, offset=off)
    R.op()
    # direction in the gear's plane of rotation
    ul = V(DIRS[d["d"]][0], DIRS[d["d"]][1], 0)
    ul /= np.linalg.norm(ul)
    dist = (sp.rp + sp.x) * sp.m
    R.close("reference point", r.position, c + O @ ul * dist, 1e-9 * (1 + dist))
    R.close("teeth point to the gear", r.orientation[:, 0], -O @ ul, 1e-9)
    R.close("width directions agree", r.orientation[:, 2], O[:, 2], 1e-9)
    R.le("offset from the request", abs(r.offset - off), 0.5 + 1e-9)
    # part stands where the placement says
    M.off = r.offset
    if d["d"] == 1 and d["p"] == 1:
        check_part(R, r.build_part(), M, np.array(r.position, float), np.array(r.orientation, float), "meshed rack: ")
    # rolling
    pitch = PI * M.m
    Pl = M.outline(3)
    play_ref = 2 * (sp.bl + M.bl) * sp.m  # tooth thinning on both flanks (circumferential), gear and rack
    heights = (0.0,) if f == "spur" else (0.0, 0.5, 0.85)
    for zf in heights:
        z = zf * sp.height
        pts, prof = world_outline(gear, n=41, z=z / sp.m)
        glob = gear.gearcore.transform(prof.transform(pts))
        gl = in_frame(O, c, glob)
        R.close("slice height", gl[:, 2].max(), z, 1e-6 * sp.m)
        for i in range(d["nph"]):
            th = (i / d["nph"] - 0.5) * sp.pitch
            co, si = math.cos(th), math.sin(th)
            G2 = gl[:, :2] @ np.array([[co, si], [-si, co]])
            # gear outline in the rack frame: x towards the gear, y along the rack
            ex, ey = -ul[:2], V(-ul[1], ul[0]) * -1.0
            rel = G2 - ul[:2] * dist
            gp = poly(np.column_stack([rel @ ex, rel @ ey]))
            # pitch point of the gear moves by rp*th in the direction of rotation = -y of the rack
            y = M.shift(z) - sp.rp * sp.m * th
            rp_ = translate(poly(Pl), 0, y)
            R.op()
            a = rp_.intersection(gp).area / sp.m**2
            R.le("penetration area / module^2", a, 2e-4)
            # free play to either side: move the rack until it overlaps
            if M.n >= 5 and abs(off) < 2 and sp.z >= 9 and sp.x >= 0:  # the rack spans the whole zone of contact, contact ratio above 1
                for s in (1, -1):
                    lim = play_ref / 2 + 0.012 * sp.m
                    b1 = translate(rp_, 0, s * lim).intersection(gp).area / sp.m**2
                    R.true(f"free play beyond {lim:.3f} at phase {i}, height {zf}, side {s}", b1 > 1e-4)
                    if play_ref > 0:
                        b0 = translate(rp_, 0, s * (play_ref / 2 - 0.01 * sp.m)).intersection(gp).area / sp.m**2
                        R.le("penetration within the backlash / module^2", b0, 2e-4)
            R.state([d, zf, i])
    return R
