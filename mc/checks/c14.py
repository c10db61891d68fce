"""C14 transform algebra: composing, inverting and exporting placements agrees with
the motion they describe."""
import itertools
from mc.geo import *
from mc.engine import Result
from gggears.gggears_base_classes import TransformData, Transform, GearTransformData, GearTransform
from gggears.gggears_base_classes import apply_transform, apply_gear_transform
import gggears.function_generators as fg
import gggears.gggears_build123d as gb
import build123d as bd

RULE = ("state = the similarity motion (4x4 matrix) denoted by a word of compositions and inversions; transition = one product or "
        "inversion on the real transform objects; oracle = the same word over 4x4 matrices, compared through points, matrices and CAD locations")
BOUNDS = {
    "quick": "all words T1, inv(T1), T1*T2, inv(T1)*T2, T1*inv(T2), (T1*T2)*T3, T1*(T2*T3) over 36 generators per class (length 3: 10 generators); coordinate round trips on a full grid",
    "thorough": "108 generators for length 2 and 24 generators for length 3",
}
ASSUMPTIONS = ["orientations are rotations, scales are positive"]

CS = [[0, 0, 0], [3.0, -1.0, 2.0], [-20.0, 0.5, 7.0]]
OS = [[0, 0, 0], [0, 0, 0.8], [0.4, -1.1, 0.3], [PI, 0, 0], [0, PI / 2, 0], [-1.2, 0.3, 2.0]]
SS = [1.0, 0.4, 3.0]
AS = [0.0, 0.7, -2.5, 9.0]
CLS = dict(T=TransformData, C=Transform, G=GearTransformData, H=GearTransform)
PTS = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1.3, -2.2, 0.7], [-5, 4, 11]])


def gens(k, n):
    gear = k in "GH"
    full = list(itertools.product(range(len(CS)), range(len(OS)), range(len(SS)), range(len(AS) if gear else 1)))
    step = max(1, len(full) // n)
    # a stride that is coprime to the alphabet sizes visits every letter
    while step % 2 == 0 or step % 3 == 0:
        step += 1
    return [list(x) for x in full[::step]]


def mk(k, g):
    kw = dict(center=np.array(CS[g[0]], float), orientation=rv(OS[g[1]]), scale=SS[g[2]])
    if k in "GH":
        kw["angle"] = AS[g[3]]
    return CLS[k](**kw)


def mat(k, g):
    M = np.eye(4)
    M[:3, :3] = rv(OS[g[1]]) @ Rz(AS[g[3]] if k in "GH" else 0.0) * SS[g[2]]
    M[:3, 3] = CS[g[0]]
    return M


def ITEMS(tier):
    n2, n3 = (36, 10) if tier == "quick" else (108, 24)
    for k in CLS:
        full = [list(x) for x in itertools.product(range(len(CS)), range(len(OS)), range(len(SS)), range(len(AS) if k in "GH" else 1))]
        for g in full:
            yield dict(k=k, w="1", g=g)
        for g in gens(k, n2):
            yield dict(k=k, w="2", g=g, n=n2)
        for g in gens(k, n3):
            yield dict(k=k, w="3", g=g, n=n3)
    for c in range(len(CS)):
        yield dict(k="polar", c=c)
    yield dict(k="vec")


def app(k, t, p):
    return (apply_gear_transform if k in "GH" else apply_transform)(p, t)


def same(R, what, k, t, M):
    want = PTS @ M[:3, :3].T + M[:3, 3]
    R.op()
    R.state([k] + np.round(M, 6).ravel().tolist())
    R.close(what + ": points", app(k, t, PTS), want, 1e-9 * (1 + abs(want).max()))
    R.close(what + ": one point", app(k, t, PTS[4]), want[4], 1e-9 * (1 + abs(want).max()))
    R.close(what + ": matrix", t.affine_matrix, M, 1e-9 * (1 + abs(M).max()))
    R.close(what + ": times points", t * PTS, want, 1e-9 * (1 + abs(want).max()))
    if k in "CH":
        R.close(what + ": call", t(PTS), want, 1e-9 * (1 + abs(want).max()))
    for n, ax in enumerate(("x_axis", "y_axis", "z_axis")):
        R.close(what + ": axes are orthonormal", np.dot(getattr(t, ax), t.z_axis), 1.0 if n == 2 else 0.0, 1e-9)
        F = M[:3, :3] / np.cbrt(np.linalg.det(M[:3, :3])) @ (Rz(-t.angle) if k in "GH" else np.eye(3))
        R.close(what + ": %s is that of the orientation" % ax, getattr(t, ax), F[:, n], 1e-9)
    R.close(what + ": z axis", t.z_axis, M[:3, 2] / np.cbrt(np.linalg.det(M[:3, :3])), 1e-9)


def CHECK(it):
    R = Result()
    k = it["k"]
    if k == "polar":
        c = np.array(CS[it["c"]], float)
        g = [-3.0, -0.5, 0.0, 0.25, 2.0]
        P = np.array([p for p in itertools.product(g, g, g) if np.linalg.norm(p) > 0]) + c
        sph = fg.xyz_to_spherical(P, center=c)
        cyl = fg.xyz_to_cylindrical(P, center=c)
        R.op(2)
        R.close("spherical round trip", fg.spherical_to_xyz(sph, center=c), P, 1e-9)
        R.close("cylindrical round trip", fg.cylindrical_to_xyz(cyl, center=c), P, 1e-9)
        for n, p in enumerate(P):
            q = p - c
            R.close("spherical radius", sph[n, 0], np.linalg.norm(q), 1e-9)
            R.close("polar angle", sph[n, 2], math.acos(q[2] / np.linalg.norm(q)), 1e-7)
            R.close("cylinder radius", cyl[n, 0], math.hypot(q[0], q[1]), 1e-9)
            R.close("height", cyl[n, 2], q[2], 1e-9)
            if math.hypot(q[0], q[1]) > 0:
                a = math.atan2(q[1], q[0])
                R.close("azimuth", wrap(sph[n, 1] - a, 2 * PI), 0.0, 1e-9)
                R.close("azimuth (cylindrical)", wrap(cyl[n, 1] - a, 2 * PI), 0.0, 1e-9)
            s1, c1 = fg.xyz_to_spherical(p, center=c), fg.xyz_to_cylindrical(p, center=c)
            R.close("one point like many (spherical)", s1, sph[n], 1e-12)
            R.close("one point like many (cylindrical)", c1, cyl[n], 1e-12)
            R.close("spherical round trip, one point", fg.spherical_to_xyz(s1, center=c), p, 1e-9)
            R.close("cylindrical round trip, one point", fg.cylindrical_to_xyz(c1, center=c), p, 1e-9)
            R.state(["polar", it["c"], n])
            R.op(4)
        return R
    if k == "vec":
        g = [-2.0, -0.3, 0.0, 1.0]
        P = [np.array(p) for p in itertools.product(g, g, g) if np.linalg.norm(p) > 0]
        for p in P:
            R.close("angle in plane", wrap(fg.angle_of_vector_in_xy(p) - math.atan2(p[1], p[0]), 2 * PI), 0.0, 1e-12)
            R.close("normalized", fg.normalize_vector(p), p / np.linalg.norm(p), 1e-12)
            R.close("turned", fg.rotate_vector(p, 0.6), Rz(0.6) @ p, 1e-12)
            for q in P:
                a = math.acos(max(-1.0, min(1.0, float(p @ q / np.linalg.norm(p) / np.linalg.norm(q)))))
                R.close("angle between", fg.angle_between_vectors(p, q), a, 1e-7)
                nq = q / np.linalg.norm(q)
                pr = fg.project_vector_to_plane(p, nq)
                R.close("projection lies in the plane", pr @ nq, 0.0, 1e-9)
                R.close("projection removes only the normal part", np.cross(p - pr, nq), np.zeros(3), 1e-9)
                R.op(3)
        return R
    A, MA = mk(k, it["g"]), mat(k, it["g"])
    if it["w"] == "1":
        same(R, "transform", k, A, MA)
        I = A.invert()
        same(R, "inverse", k, I, np.linalg.inv(MA))
        same(R, "inverse of inverse", k, I.invert(), MA)
        same(R, "T*inv(T)", k, A * I, np.eye(4))
        same(R, "inv(T)*T", k, I * A, np.eye(4))
        if k in "GH":
            loc = gb.transform2Location(A)
            R.op()
            U = rv(OS[it["g"][1]]) @ Rz(AS[it["g"][3]])
            T = loc.wrapped.Transformation()
            got = np.array([[T.Value(i, j) for j in (1, 2, 3, 4)] for i in (1, 2, 3)])
            R.close("CAD location rotation", got[:, :3], U, 1e-9)
            R.close("CAD location position", got[:, 3], np.array(CS[it["g"][0]], float), 1e-9)
        same(R, "operand unchanged", k, A, MA)
        return R
    if it["w"] == "2":
        for h in gens(k, it["n"]):
            B, MB = mk(k, h), mat(k, h)
            same(R, "A*B", k, A * B, MA @ MB)
            same(R, "inv(A)*B", k, A.invert() * B, np.linalg.inv(MA) @ MB)
            same(R, "A*inv(B)", k, A * B.invert(), MA @ np.linalg.inv(MB))
            same(R, "inv(A*B)", k, (A * B).invert(), np.linalg.inv(MA @ MB))
            R.close("operands unchanged", A.affine_matrix, MA, 1e-12)
            if R.fails:
                return R
        return R
    for h in gens(k, it["n"]):
        B, MB = mk(k, h), mat(k, h)
        for j in gens(k, it["n"]):
            C, MC_ = mk(k, j), mat(k, j)
            same(R, "(A*B)*C", k, (A * B) * C, MA @ MB @ MC_)
            same(R, "A*(B*C)", k, A * (B * C), MA @ MB @ MC_)
            if R.fails:
                return R
    return R
