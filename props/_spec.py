"""Reference definitions the properties are stated against. Nothing here reads the code under test."""
import math
import numpy as np

f32 = np.float32


def nudge(dx, center):
    """Offset of the first ray's bin centre; rays on pixel boundaries are displaced by 0.01 pixel."""
    mov = f32(f32(dx - 1) * f32(0.5) - f32(center))
    if float(mov) - math.floor(float(mov)) < 0.01:
        mov = f32(mov + f32(0.01))
    return float(mov) + 0.5


def ray_offset(d, dx, center):
    return (1 - dx) / 2.0 + d + nudge(dx, center)


def clip(o, u, lo, hi):
    """Parameter interval of the line o + t u inside [lo, hi]."""
    if abs(u) < 1e-6:
        return (-math.inf, math.inf) if lo < o < hi else None
    a, b = (lo - o) / u, (hi - o) / u
    return (min(a, b), max(a, b))


def ray(theta, y, nx, ny):
    """[( (ix, iy), length )] of the ray at offset y and angle theta through a centred nx x ny grid of unit pixels."""
    th = math.fmod(float(f32(theta)), 2 * math.pi)
    c, s = math.cos(th), math.sin(th)
    ox, oy = -y * s, y * c
    out = []
    for ix in range(nx):
        cx = clip(ox, c, -nx / 2.0 + ix, -nx / 2.0 + ix + 1)
        if cx is None:
            continue
        for iy in range(ny):
            cy = clip(oy, s, -ny / 2.0 + iy, -ny / 2.0 + iy + 1)
            if cy is None:
                continue
            l = min(cx[1], cy[1]) - max(cx[0], cy[0])
            if l > 1e-9:
                out.append(((ix, iy), l))
    return out


def degenerate(theta, y, nx, ny, eps=0.012):
    """The ray crosses the outline of the grid so close to a grid line's end that the trimming margin (0.01 pixel)
    can reassign a sliver, or runs along a grid line, where either neighbour is right."""
    th = math.fmod(float(f32(theta)), 2 * math.pi)
    c, s = math.cos(th), math.sin(th)
    ox, oy = -y * s, y * c
    for i in range(nx + 1):
        gx = -nx / 2.0 + i
        if abs(c) > 1e-6:
            yy = oy + s * (gx - ox) / c
            if min(abs(yy - ny / 2.0), abs(yy + ny / 2.0)) < eps:
                return True
        elif abs(ox - gx) < 1e-3 or (i in (0, nx) and abs(ox - gx) < eps):
            return True
    for i in range(ny + 1):
        gy = -ny / 2.0 + i
        if abs(s) > 1e-6:
            xx = ox + c * (gy - oy) / s
            if min(abs(xx - nx / 2.0), abs(xx + nx / 2.0)) < eps:
                return True
        elif abs(oy - gy) < 1e-3 or (i in (0, ny) and abs(oy - gy) < eps):
            return True
    return False


class System:
    """The discrete parallel-beam Radon transform A of one geometry: rows (p, d)."""
    def __init__(self, theta, dx, center, nx, ny):
        self.theta = [float(f32(t)) for t in np.asarray(theta).ravel()]
        self.dt, self.dx, self.center, self.nx, self.ny = len(self.theta), dx, float(center), nx, ny
        self.rows = {}
        self.bad = set()
        for p, t in enumerate(self.theta):
            for d in range(dx):
                y = ray_offset(d, dx, self.center)
                self.rows[p, d] = ray(t, y, nx, ny)
                if degenerate(t, y, nx, ny):
                    self.bad.add((p, d))

    def fwd(self, img, p, d):
        r = 0.0
        for (ix, iy), l in self.rows[p, d]:
            r = r + l * img[ix, iy]
        return r

    def direction(self, p):
        t = math.fmod(self.theta[p], 2 * math.pi)
        return -math.cos(t), -math.sin(t)


def clean_geometry(theta, dx, center, nx, ny):
    return not System(theta, dx, center, nx, ny).bad


def obj(shape):
    return np.empty(shape, dtype=object)


def prange(n, k, order=None):
    """The ordered subsets: n projections (in the given order) cut into k consecutive subsets, the first n % k one longer."""
    order = list(range(n)) if order is None else list(order)
    out = []
    i = 0
    for b in range(k):
        m = n // k + (1 if b < n % k else 0)
        out.append(order[i:i + m])
        i += m
    return out


def angles(n, a0=0.0513, a1=math.pi + 0.0513):
    return np.array([a0 + (a1 - a0) * i / n for i in range(n)], dtype='f4')


def plain(a):
    return np.asarray(a).view(np.ndarray) if isinstance(a, np.ndarray) else a
