import math

from .units import Angle


class SkyCoord:
    def __init__(self, ra, dec):
        self.ra, self.dec = Angle(ra), Angle(dec)

    def separation(self, o):
        a1, d1, a2, d2 = self.ra.rad, self.dec.rad, o.ra.rad, o.dec.rad
        s1, c1, s2, c2, cd, sd = math.sin(d1), math.cos(d1), math.sin(d2), math.cos(d2), math.cos(a2 - a1), math.sin(a2 - a1)
        return Angle(math.degrees(math.atan2(math.hypot(c2 * sd, c1 * s2 - s1 * c2 * cd), s1 * s2 + c1 * c2 * cd)))

    def position_angle(self, o):
        a1, d1, a2, d2 = self.ra.rad, self.dec.rad, o.ra.rad, o.dec.rad
        return Angle(math.degrees(math.atan2(math.sin(a2 - a1) * math.cos(d2), math.cos(d1) * math.sin(d2) - math.sin(d1) * math.cos(d2) * math.cos(a2 - a1))) % 360)
