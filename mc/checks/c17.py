"""C17 line of action: the two lines are the common tangents of the placed base circles
through the pitch point."""
from mc.geo import *
from mc.engine import Result
from mc.mesh import working

RULE = ("state = (meshed pair, pose of the fixed gear, width position); transition = meshing or one line-of-action query on the real "
        "gears; oracle = tangency to both base circles, pitch point and end points computed from the descriptors")
BOUNDS = {
    "quick": "external / internal pairs in both roles, all <=2 deviations of teeth, shift, clearance, module, pressure angle, pose, direction, width position",
    "thorough": "all <=3 deviations",
}
ASSUMPTIONS = ["both gears have the same width and anchoring, so that equal width positions are coplanar"]
A = dict(
    z1=[11, 27, 33], z2=[30, 55], m=[0.004, 3.0, 200.0], pa=[17 * DEG, 25 * DEG], x1=[0.3, -0.2], x2=[0.4], ha1=[0.8], b1=[0.05], a1=[0.7], a2=[2.9],
    c2=[[5, -3, 2]], O2=[[0.4, -1.1, 0.3], [0, 0, 2.0], [PI, 0, 0], [0, 1.2, 0]], dir=[[0, 1, 0], [-1, 0, 0], [-3, -4, 0]], B=[0.1], h=[5.0], an=[0.5, 1.0], zr=[0.3, 1.0],
    beta=[0.3],
)


def ITEMS(tier):
    k = 2 if tier == "quick" else 3
    for d in deviations(dict(z1=18, z2=41), A, k):
        for kind in ("ext", "pin", "ring"):
            if "B" in d and ("beta" in d or d.get("m", 1.0) < 0.1):
                continue
            yield dict(d, k=kind)


def CHECK(d):
    R = Result()
    com = dict(module=d.get("m", 1.0), pressure_angle=d.get("pa", 20 * DEG), height=d.get("h", 1.0), z_anchor=d.get("an", 0.0))
    H = "Helical" if "beta" in d else "Spur"
    ring = d["k"] != "ext"
    g1 = dict(com, c=H + "Gear", z=d["z1"], enable_undercut=False)
    g2 = dict(com, c=H + ("RingGear" if ring else "Gear"), z=d["z2"] + (d["z1"] if ring else 0), enable_undercut=False)
    if H == "Helical":
        g1["helix_angle"], g2["helix_angle"] = d["beta"], d["beta"] if ring else -d["beta"]
    for key, nm in (("x", "profile_shift"), ("ha", "addendum_coefficient"), ("b", "backlash")):
        for g, n in ((g1, "1"), (g2, "2")):
            if key + n in d:
                g[nm] = d[key + n]
    if d["k"] == "ring":
        g1, g2 = g2, g1
    g1["angle"], g2["angle"] = d.get("a1", 0.0), d.get("a2", 0.0)
    if "c2" in d:
        g2["center"] = d["c2"]
    if "O2" in d:
        g2["O"] = d["O2"]
    G1, G2 = make(g1), make(g2)
    O = G2.gearcore.transform.orientation.copy()
    dr = O @ np.array(d.get("dir", [1.0, 0, 0]), float)
    if "B" in d:
        G1.mesh_to(G2, target_dir=dr, backlash=d["B"])
    else:
        G1.mesh_to(G2, target_dir=dr)
    R.op(3)
    s1, s2 = Spec(g1), Spec(g2)
    m = s1.m
    zr = d.get("zr", 0.0)
    za, zb = s1.z_range()
    ax = O[:, 2]
    h = (za + zr * (zb - za)) * m
    D = float(np.linalg.norm(G1.center - G2.center))
    w = working(s1, s2, d.get("B", 0.0))
    R.close("centre distance", D, w[0], 1e-6 * w[0])
    for first, second, sa, sb in ((G1, G2, s1, s2), (G2, G1, s2, s1)):
        lines = W.LineOfAction(first, second, z_ratio=zr).LOA_gen()
        R.op()
        ca, cb = first.center + ax * h, second.center + ax * h
        u = (cb - ca) / np.linalg.norm(cb - ca)
        v = np.cross(ax, u)
        sides = []
        for ln in lines:
            p, q = np.array(ln(0.0), float), np.array(ln(1.0), float)
            e = (q - p) / np.linalg.norm(q - p)
            R.close("line lies in the plane of rotation", [(p - ca) @ ax, (q - ca) @ ax], [0, 0], 1e-7 * D)
            for cc, s in ((ca, sa), (cb, sb)):
                r = np.linalg.norm(np.cross(p - cc, e))
                R.close("line is tangent to the base circle", r, s.rb * m, 1e-7 * D)
            # pitch point: divides the centre line in the ratio of the tooth counts
            if sa.ring or sb.ring:
                pitch = ca + (ca - cb) * sa.z / (sb.z - sa.z)
            else:
                pitch = ca + (cb - ca) * sa.z / (sa.z + sb.z)
            R.close("line passes the pitch point", np.cross(pitch - p, e), np.zeros(3), 1e-6 * D * 10)
            if not (sa.ring or sb.ring):
                R.close("starts at the tangent point of the first gear", (p - ca) @ e, 0.0, 1e-6 * D)
                R.close("ends at the tangent point of the second gear", (q - cb) @ e, 0.0, 1e-6 * D)
            else:
                pin, cp, sp = (second, cb, sb) if sa.ring else (first, ca, sa)
                R.close("starts at the pinion's tangent point", (p - cp) @ e, 0.0, 1e-6 * D)
                R.close("ends on the pinion's tip circle", np.linalg.norm(q - cp), pin.addendum_radius, 1e-6 * D)
                R.true("extends away from the ring's centre", (q - p) @ (cp - (ca if sa.ring else cb)) > 0)
            sides.append(float(np.sign((q - p) @ v)) if True else 0)
        R.close("the two lines are mirror images", sorted(sides), [-1.0, 1.0], 0)
    R.state(d)
    return R
