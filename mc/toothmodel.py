"""Reference model of the transverse tooth outline of involute gears (unit module),
derived from textbook gear geometry only."""
import math
import numpy as np
from mc.geo import Spec, inv, PI


class ToothModel:
    def __init__(self, sp: Spec):
        self.sp = sp
        self.rd = sp.rp - sp.hd
        ra = sp.rp + sp.ha
        self.pointed = sp.tip_point_radius()
        tt = sp.d.get("tip_truncation", 0.0)
        if tt > 0 and self.pointed - tt < ra:
            ra = self.pointed - tt
        self.ra = min(ra, self.pointed)
        self.sharp = self.ra >= self.pointed - 1e-9
        self.tip_f = sp.d.get("tip_fillet", 0.0)
        self.root_f = sp.d.get("root_fillet", 0.0)
        # rack-cutter tip corner, relative to the pitch point of the tooth centre
        self.use_trochoid = sp.undercut and sp.rb >= self.rd
        gap_half = sp.rp * sp.pitch / 2
        yt = -(sp.rp * sp.half + sp.hd * math.tan(sp.alpha))
        xt = sp.rp - sp.hd
        self.blunt_cutter = -yt < gap_half
        if not self.blunt_cutter:  # cutter tooth ends in a point at the gap centre
            yt = -gap_half
            xt = sp.rp - (gap_half - sp.rp * sp.half) / math.tan(sp.alpha)
        self.xt, self.yt = xt, yt
        self.bottom = xt if self.use_trochoid else self.rd
        # depth of engagement of the cutter below the interference point
        depth = sp.rp - self.xt
        self.u_eff = sp.rb * math.tan(sp.alpha) - depth / math.sin(sp.alpha)
        # above this radius the cutter's straight flank generates the involute
        self.r_form = math.sqrt(sp.rb**2 + max(self.u_eff, 0.0) ** 2)

    def trochoid_half(self, r):
        if r <= self.xt:
            q = 0.0
        else:
            q = math.sqrt(r * r - self.xt**2)
        return (q - self.yt) / self.sp.rp - math.atan2(q, self.xt)

    def half(self, r):
        """Half angular tooth thickness at radius r."""
        sp = self.sp
        h = sp.half_at(r)
        if self.use_trochoid:
            t = self.trochoid_half(r)
            if r < self.r_form:
                return t
            return min(h, t) if self.u_eff < 0 else h
        return h

    # ---- fillets (offset of an involute by d is the involute turned by d/rb)
    def tip_fillet(self):
        """(centre radius, centre angle, flank tangency radius) or None"""
        rho, sp = self.tip_f, self.sp
        if rho <= 0:
            return None
        rc = self.ra - rho
        if rc <= sp.rb:
            return None
        ang = sp.half_at(rc) - rho / sp.rb
        L = math.sqrt(rc**2 - sp.rb**2) + rho
        rt = math.sqrt(sp.rb**2 + L * L)
        return rc, ang, rt

    def root_fillet(self):
        rho, sp = self.root_f, self.sp
        if rho <= 0 or sp.undercut:  # documented: no root fillet with undercut
            return None
        rc = self.rd + rho
        if rc <= sp.rb:
            return None
        ang = sp.half_at(rc) + rho / sp.rb
        L = math.sqrt(rc**2 - sp.rb**2) - rho
        if L <= 0:
            return None
        rt = math.sqrt(sp.rb**2 + L * L)
        return rc, ang, rt
