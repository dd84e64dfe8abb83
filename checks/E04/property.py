from prophelp import prop
P = prop("E04", "Model components transform consistently",
 "For every stack of scaling, rotation and linear transform over any component, and every change of their parameters after construction: the value at a point is the inner value at the pulled-back point (divided by the area of the linear transform), the sharp region is the image of the inner one, every sharp sample moves with the map and keeps flux equal to value times area, and the pixel size passed down is in the inner units; components can be moved and destroyed while their parameters live on. The rings that sample a sharp region tile it, with the flux of the profile.",
 ["inputs", "configurations"], "All stacks of up to four components in three variants each, all parameter updates along the way, grids of profiles and scales",
 "Errors appear only when several transforms combine, after a parameter update, or after a move.",
 ["ModelFitting/src/lib/Models/*.cpp", "ModelFitting/ModelFitting/Models/CircularlySymmetricModelComponent.h"],
 [("RotatedModelComponent, ScaledModelComponent, TransformModelComponent", "ModelFitting/src/lib/Models"), ("nextRadiusAndAngleNo", "AutoSharp.cpp")],
 ["values, samples and sharp regions of model components"])
TECHNIQUE = "bounded exhaustive enumeration of component stacks and parameter updates on the real classes, against composed 2x2 matrices"
NOTE = "Values are probed on grids of points."
