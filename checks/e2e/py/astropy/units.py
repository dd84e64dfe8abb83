"""The few units the configuration package uses."""


class _Unit(float):
    def __rmul__(self, v):
        return Angle(v * float(self))


class Angle(float):
    """degrees"""
    @property
    def degree(self):
        return float(self)
    deg = degree

    @property
    def rad(self):
        import math
        return math.radians(float(self))
    radian = rad


degree = deg = _Unit(1.)
