"""Back projection is the exact adjoint of forward projection."""
import numpy as np
from ._recon import *

LIBS = ('recon',)
BOUNDS = 'up to 8 angles, 3 slices, 6 bins, 6 x 6 pixels (thorough: 10 x 10); every measured value and every start pixel symbolic in [-2, 2]; in addition one case each with 37 slices, about 70 angles, 33 bins and a 23 x 21 grid in which some values are symbolic'
OUTSIDE = 'larger sizes; geometries with rays inside the 0.01-pixel trimming margin'
ASSUMPTIONS = ['operations on symbolic values are over the reals']


def cases(tier):
    for i, g in enumerate(geos(tier)):
        yield recon_case('fbp ' + g.name, 'fbp', g, ref_fbp, seed=i, ncore=1 + i % 3, order='lifo' if i % 2 else 'fifo', sinogram_order=bool(i % 2))
    for i, g in enumerate(scale_geos()):
        yield recon_case('fbp ' + g.name, 'fbp', g, ref_fbp, seed=i, ncore=3)
    yield recon_case('fbp default start', 'fbp', Geo('x', S.angles(4), 4, dy=2), ref_fbp, init=None)
    yield recon_case('fbp chunks of one', 'fbp', Geo('x', S.angles(4), 4, dy=3, center=[1.7, 2.0, 2.4]), ref_fbp, init=None, ncore=2, nchunk=1)
