"""Reference model for meshing: working centre distance, phase, drive motion and
interference measurement on the real outlines."""
import math
import numpy as np
import shapely
from shapely.geometry import Polygon
from mc.geo import *


def working(sp1, sp2, B=0.0):
    """Centre distance and working pressure angle of two parallel-axis involute gears
    (real length units, B = clearance along the line of action).  None if the pair
    cannot mesh."""
    rb1, rb2 = sp1.rb * sp1.m, sp2.rb * sp2.m
    psi1 = sp1.half + inv(sp1.alpha)
    psi2 = sp2.half + inv(sp2.alpha)
    if sp1.ring or sp2.ring:
        if sp1.ring:
            rb1, rb2, psi1, psi2 = rb2, rb1, psi2, psi1
        if rb2 <= rb1:
            return None
        y = (rb2 * psi2 - rb1 * psi1 - B / 2) / (rb2 - rb1)
        if y <= 0:
            return None
        aw = inv_inverse(y)
        return (rb2 - rb1) / math.cos(aw), aw
    y = (rb1 * psi1 + rb2 * psi2 - PI * rb1 / sp1.z + B / 2) / (rb1 + rb2)
    if y <= 0:
        return None
    aw = inv_inverse(y)
    return (rb1 + rb2) / math.cos(aw), aw


def world_outline(gear, n=31, z=0.0):
    """Local outline of one slice (slice frame, unit module) and its slice transform."""
    prof = gear.gearcore.curve_gen_at_z(z)
    return outline(prof, n=n), prof


def place(gear, prof, pts):
    return gear.gearcore.transform(prof.transform(pts))


def in_frame(O, c, pts):
    return (pts - c) @ O


def poly(pts2):
    """polygon of a closed outline; coincident neighbours (segment joints) are dropped,
    rounding-size self-contacts are resolved without losing area"""
    pts2 = np.asarray(pts2, float)
    eps = 1e-7 * (1.0 + np.abs(pts2).max())
    keep = np.linalg.norm(pts2 - np.roll(pts2, 1, axis=0), axis=1) > eps
    p = Polygon(pts2[keep])
    if not p.is_valid:
        q = shapely.make_valid(p)
        parts = [x for x in getattr(q, "geoms", [q]) if x.area > 0]
        p = max(parts, key=lambda x: x.area) if parts else p.buffer(0)
        if p.geom_type == "MultiPolygon":
            p = max(p.geoms, key=lambda x: x.area)
    return p
