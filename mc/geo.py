"""Shared helpers: building real gears from descriptors, reference mathematics,
outline extraction, configuration alphabets and bounded enumerations."""
import copy, itertools, math
import numpy as np
import gggears.gggears_wrapper as W
import gggears.gggears_core as core
import gggears.curve as crv
import gggears.defs as defs
from scipy.spatial.transform import Rotation as Rot

PI = math.pi
DEG = PI / 180


def V(*a):
    return np.array(a, dtype=float)


# ---------------------------------------------------------------- descriptors
def make(g):
    """Real gear object from a descriptor {"c": class name, "z": teeth, ...kwargs}.
    Vectors are lists; "O" (orientation, rotation vector) is applied after creation."""
    kw = dict(g)
    cls = getattr(W, kw.pop("c"))
    O = kw.pop("O", None)
    if "z" in kw:
        kw["number_of_teeth"] = kw.pop("z")
    for k in ("center", "position"):
        if k in kw:
            kw[k] = np.array(kw[k], dtype=float)
    gear = cls(**kw)
    if O is not None:
        gear.gearcore.transform.orientation = rv(O)
    return gear


def rv(v):
    return Rot.from_rotvec(np.array(v, dtype=float)).as_matrix()


def Rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


# ---------------------------------------------------------------- enumeration
def deviations(base, alpha, k):
    """All configurations that differ from `base` in at most k of the parameters of
    `alpha` (dict name -> list of values)."""
    names = sorted(alpha)
    for n in range(k + 1):
        for combo in itertools.combinations(names, n):
            for vals in itertools.product(*[alpha[c] for c in combo]):
                d = dict(base)
                ok = True
                for c, v in zip(combo, vals):
                    if c in base and base[c] == v:
                        ok = False
                        break
                    d[c] = v
                if ok:
                    yield d


# ---------------------------------------------------------------- reference maths
def inv(a):
    return math.tan(a) - a


def inv_inverse(y):
    """alpha with tan(alpha)-alpha = y (y>=0), by bisection: independent of the library."""
    lo, hi = 0.0, PI / 2 - 1e-9
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if math.tan(mid) - mid < y:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def wrap(a, period):
    """a reduced to (-period/2, period/2]"""
    return (a + period / 2) % period - period / 2


DEFAULTS = dict(
    InvoluteGear=dict(addendum_coefficient=1.0, dedendum_coefficient=1.2, tip_truncation=0.1, root_fillet=0.0, enable_undercut=True),
    SpurGear=dict(addendum_coefficient=1.0, dedendum_coefficient=1.2, tip_truncation=0.1, root_fillet=0.0, enable_undercut=True),
    SpurRingGear=dict(addendum_coefficient=1.2, dedendum_coefficient=1.0, tip_truncation=0.0, root_fillet=0.2, enable_undercut=False),
    HelicalGear=dict(addendum_coefficient=1.0, dedendum_coefficient=1.2, tip_truncation=0.1, root_fillet=0.0, enable_undercut=True, helix_angle=30 * DEG),
    HelicalRingGear=dict(addendum_coefficient=1.2, dedendum_coefficient=1.0, tip_truncation=0.1, root_fillet=0.0, enable_undercut=False, helix_angle=30 * DEG),
    BevelGear=dict(addendum_coefficient=1.0, dedendum_coefficient=1.2, tip_truncation=0.1, root_fillet=0.0, enable_undercut=True, cone_angle=PI / 2),
    CycloidGear=dict(addendum_coefficient=1.0, dedendum_coefficient=1.2, tip_truncation=0.1, root_fillet=0.0, inside_cycloid_coefficient=0.5, outside_cycloid_coefficient=0.5),
)


class Spec:
    """Reference model of one gear computed from its descriptor only (documented
    parameter meanings), never from the library object."""

    def __init__(self, g):
        d = dict(DEFAULTS[g["c"]])
        d.update(g)
        self.d = d
        self.cls = g["c"]
        z = d["z"]
        self.ring = self.cls in ("SpurRingGear", "HelicalRingGear") or d.get("inside_teeth", False)
        if z < 0:
            z = -z
            self.ring = not self.ring
        self.z = z
        self.helix = d.get("helix_angle", 0.0)
        normal = self.cls in ("HelicalGear", "HelicalRingGear")
        cb = math.cos(self.helix) if normal else 1.0
        self.m_n = d.get("module", 1.0)
        self.m = self.m_n / cb  # transverse module
        a_n = d.get("pressure_angle", 20 * DEG)
        self.alpha = math.atan(math.tan(a_n) / cb)  # transverse pressure angle
        self.x = d.get("profile_shift", 0.0) * cb  # in transverse modules
        self.ha = d["addendum_coefficient"] * cb + self.x
        self.hd = d["dedendum_coefficient"] * cb - self.x
        self.bl = d.get("backlash", 0.0)
        self.height = d.get("height", 1.0)
        self.cone = d.get("cone_angle", 0.0)
        self.gamma = self.cone / 2
        self.z_anchor = d.get("z_anchor", 0.0)
        self.rp = z / 2  # unit module
        self.rb = self.rp * math.cos(self.alpha)
        self.pitch = 2 * PI / z
        self.crown = d.get("crowning", 0.0)
        self.half = self.pitch / 4 + self.x * math.tan(self.alpha) / self.rp - self.bl / self.rp
        self.undercut = d.get("enable_undercut", False)
        self.center = np.array(d.get("center", [0, 0, 0]), float)
        self.angle = d.get("angle", 0.0)

    def half_at(self, r):
        """Half of the angular thickness of the involute tooth at radius r>=rb (unit module)."""
        if r < self.rb:
            r = self.rb
        ar = math.acos(min(1.0, self.rb / r))
        return self.half + inv(self.alpha) - inv(ar)

    def z_range(self):
        """slice parameter range, module units along the tooth"""
        h = self.height / self.m
        return -h * self.z_anchor, h * (1 - self.z_anchor)

    def tip_point_radius(self):
        """radius where both flanks meet (pointed tooth), unit module"""
        y = self.half + inv(self.alpha)
        if y <= 0:
            return 0.0
        return self.rb / math.cos(inv_inverse(y))


def ev(curve, s):
    """points of a curve at the parameters s, one call per point"""
    return np.array([np.asarray(curve(float(x)), dtype=float) for x in s])


def profile_points(prof, n=41):
    """Sample points (local slice frame, unit module) of the four segments of one pitch."""
    s = np.linspace(0, 1, n)
    out = {}
    for name in ("rd_curve", "tooth_curve", "ra_curve", "tooth_curve_mirror"):
        c = getattr(prof, name)
        out[name] = ev(c, s)
    return out


def outline(prof, nteeth=None, n=41):
    """Closed polyline of the full outline in the slice frame."""
    pts = profile_points(prof, n)
    one = np.vstack([pts[k] for k in pts if getattr(prof, k).active])
    N = int(round(2 * PI / prof.pitch_angle)) if nteeth is None else nteeth
    return np.vstack([one @ Rz(i * prof.pitch_angle).T for i in range(N)])


def solid_of(part):
    s = part.solids()
    return s
