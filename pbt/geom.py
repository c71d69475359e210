"""Independent plane geometry for the oracles: membership with a margin.

Every shape answers `status(q, tol)`: 1 surely inside, -1 surely outside, 0 when
q is within tol of the shape's boundary.
"""
import math


def rot(p, deg, c=(0.0, 0.0)):
    a = math.radians(deg)
    x, y = p[0] - c[0], p[1] - c[1]
    return (c[0] + x * math.cos(a) - y * math.sin(a), c[1] + x * math.sin(a) + y * math.cos(a))


def seg_dist(q, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / l2))
    return math.hypot(q[0] - a[0] - t * dx, q[1] - a[1] - t * dy)


class Disc(object):
    def __init__(self, c, r):
        self.c, self.r = c, r

    def status(self, q, tol):
        d = math.hypot(q[0] - self.c[0], q[1] - self.c[1])
        return 0 if abs(d - self.r) <= tol else (1 if d < self.r else -1)

    def box(self):
        c, r = self.c, self.r
        return ((c[0] - r, c[0] + r), (c[1] - r, c[1] + r))

    def edges(self):
        pts = [(self.c[0] + self.r * math.cos(k * math.pi / 8), self.c[1] + self.r * math.sin(k * math.pi / 8))
               for k in range(16)]
        return [(pts[i], pts[(i + 1) % 16]) for i in range(16)]

    def map(self, f, scale):
        return Disc(f(self.c), self.r * scale)


class Poly(object):
    """area enclosed by a closed chain of points, non-zero winding"""

    def __init__(self, pts):
        self.pts = list(pts)

    def edges(self):
        n = len(self.pts)
        return [(self.pts[i], self.pts[(i + 1) % n]) for i in range(n)]

    def status(self, q, tol):
        w = 0
        for a, b in self.edges():
            if tol and seg_dist(q, a, b) <= tol:
                return 0
            if a[1] <= q[1]:
                if b[1] > q[1] and cross(a, b, q) > 0:
                    w += 1
            elif b[1] <= q[1] and cross(a, b, q) < 0:
                w -= 1
        return 1 if w else -1

    def box(self):
        xs, ys = zip(*self.pts)
        return ((min(xs), max(xs)), (min(ys), max(ys)))

    def map(self, f, scale):
        return Poly([f(p) for p in self.pts])


class Stroke(object):
    """points within r of a segment (a round-capped stroke)"""

    def __init__(self, a, b, r):
        self.a, self.b, self.r = a, b, r

    def status(self, q, tol):
        d = seg_dist(q, self.a, self.b)
        return 0 if abs(d - self.r) <= tol else (1 if d < self.r else -1)


class Union(object):
    def __init__(self, parts):
        self.parts = parts

    def status(self, q, tol):
        s = [p.status(q, tol) for p in self.parts]
        return 1 if 1 in s else (0 if 0 in s else -1)


class Minus(object):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def status(self, q, tol):
        s, t = self.a.status(q, tol), self.b.status(q, tol)
        if s == -1 or t == 1:
            return -1
        return 1 if (s == 1 and t == -1) else 0


def cross(a, b, q):
    return (b[0] - a[0]) * (q[1] - a[1]) - (q[0] - a[0]) * (b[1] - a[1])


def rect(c, w, h, deg=0, about=None):
    about = c if about is None else about
    x, y = c
    return Poly([rot(p, deg, about) for p in ((x - w / 2., y - h / 2.), (x + w / 2., y - h / 2.),
                                              (x + w / 2., y + h / 2.), (x - w / 2., y + h / 2.))])


def ngon(c, r, n, deg=0):
    return Poly([rot((c[0] + r, c[1]), deg + 360.0 * i / n, c) for i in range(n)])


def box_union(boxes):
    boxes = list(boxes)
    return ((min(b[0][0] for b in boxes), max(b[0][1] for b in boxes)),
            (min(b[1][0] for b in boxes), max(b[1][1] for b in boxes)))


def paint(shapes, q, tol, start=-1):
    """state of q after painting (shape, dark?) pairs in order; 0 = undecided"""
    st = start
    for s, dark in shapes:
        v = s.status(q, tol)
        if v == 1:
            st = 1 if dark else -1
        elif v == 0 and st != (1 if dark else -1):
            st = 0
    return st
