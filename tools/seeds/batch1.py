G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
'''
SEEDS = [
 dict(id='p01-plus', prop='P01', needs='a value written with a plus sign whose text is shorter than the format, with leading zeros suppressed',
      breaks='the sign of a suppressed number is counted as one of its digits when missing digits are restored',
      edits=[('gerber/utils.py', "    value = value.lstrip('+')\n    negative = '-' in value\n    if negative:\n        value = value.lstrip('-')\n\n    missing_digits = MAX_DIGITS - len(value)\n",
              "    negative = '-' in value\n    if negative:\n        value = value.lstrip('-')\n\n    missing_digits = MAX_DIGITS - len(value)\n    value = value.lstrip('+')\n")],
      demo='''
from gerber.utils import parse_gerber_value as p
assert p('+15', (2, 4), 'leading') == 0.0015, p('+15', (2, 4), 'leading')
'''),
 dict(id='p02-polarity', prop='P02', needs='a region whose first contour is ended by D02 and followed by another, drawn with clear polarity',
      breaks='contours closed by D02 inside a region lose the level polarity in force',
      edits=[('gerber/rs274x.py', """                    self.primitives.append(Region(self.current_region,
                                                  level_polarity=self.level_polarity,
                                                  units=self.settings.units))
                self.current_region = None""",
              """                    self.primitives.append(Region(self.current_region,
                                                  units=self.settings.units))
                self.current_region = None""")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10C,0.01*%D10*%LPC*%G36*X0Y0D02*X1000Y0D01*X1000Y1000D01*X0Y0D01*'
                      'X2000Y0D02*X3000Y0D01*X3000Y1000D01*X2000Y0D01*G37*'))
assert [p.level_polarity for p in f.primitives] == ['clear', 'clear'], [p.level_polarity for p in f.primitives]
'''),
 dict(id='p02-hole5', prop='P02', needs='a polygon aperture with a rotation and a rectangular hole',
      breaks='the rectangular hole of polygon apertures is taken from the wrong modifiers',
      edits=[('gerber/rs274x.py', "                rectangular_hole = modifiers[0][3:5]", "                rectangular_hole = modifiers[0][2:4]")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10P,0.1X6X15X0.02X0.03*%D10*X0Y0D03*'))
p = f.primitives[0]
assert (p.hole_width, p.hole_height) == (0.02, 0.03), (p.hole_width, p.hole_height)
'''),
 dict(id='p02-center', prop='P02', needs='a single quadrant arc of exactly ninety degrees whose angles come out a rounding error over',
      breaks='the tolerance of the sweep test in single quadrant mode',
      edits=[('gerber/rs274x.py', "sweep_angle <= math.pi / 2.0 + 1e-6", "sweep_angle <= math.pi / 2.0 - 1e-6")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10C,0.01*%D10*G74*X10000Y0D02*G03*X0Y10000I10000J0D01*'))
assert f.primitives[0].center is not None and abs(f.primitives[0].center[0]) < 1e-9, f.primitives[0].center
'''),
 dict(id='p11-diameter', prop='P11', needs='a circle whose diameter is changed after its box was read',
      breaks='changing the diameter does not drop the cached box',
      edits=[('gerber/primitives.py', "    def diameter(self, value):\r\n        self._changed()\r\n        self._diameter = value\r\n\r\n    @property\r\n    def radius(self):\r\n        return self.diameter / 2.\r\n\r\n    @property\r\n    def hole_radius(self):\r\n        if self.hole_diameter != None:\r\n            return self.hole_diameter / 2.\r\n        return None\r\n\r\n    @property\r\n    def bounding_box(self):\r\n        if self._bounding_box is None:\r\n            min_x = self.position[0] - self.radius\r\n",
              "    def diameter(self, value):\r\n        self._diameter = value\r\n\r\n    @property\r\n    def radius(self):\r\n        return self.diameter / 2.\r\n\r\n    @property\r\n    def hole_radius(self):\r\n        if self.hole_diameter != None:\r\n            return self.hole_diameter / 2.\r\n        return None\r\n\r\n    @property\r\n    def bounding_box(self):\r\n        if self._bounding_box is None:\r\n            min_x = self.position[0] - self.radius\r\n"),
             ],
      demo='''
from gerber.primitives import Circle
c = Circle((0.0, 0.0), 1.0, units='inch')
c.bounding_box
c.diameter = 2.0
assert c.bounding_box == ((-1.0, 1.0), (-1.0, 1.0)), c.bounding_box
'''),
 dict(id='p11-end', prop='P11', needs='an arc whose quadrant mode or a rectangle whose rotation changes after a read of its box',
      breaks='changing the rotation does not drop the cached outline and box',
      edits=[('gerber/primitives.py', "    def rotation(self, value):\r\n        self._changed()\r\n        self._rotation = value\r\n        self._cos_theta = math.cos(math.radians(value))",
              "    def rotation(self, value):\r\n        self._rotation = value\r\n        self._cos_theta = math.cos(math.radians(value))")],
      demo='''
from gerber.primitives import Rectangle
r = Rectangle((0, 0), 2.0, 1.0)
r.bounding_box
r.rotation = 90
b = r.bounding_box
assert abs(b[0][1] - 0.5) < 1e-9 and abs(b[1][1] - 1.0) < 1e-9, b
'''),
 dict(id='p10-arc', prop='P10', needs='a clockwise arc that starts just left of straight down and ends before it, passing 270 degrees by wrapping around',
      breaks='one branch of the extreme point test of clockwise arcs',
      edits=[('gerber/primitives.py', "                if (((theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1))\r\n                    or ((theta0 > math.pi * 1.5) and (theta0 <= theta1))):\r\n",
              "                if (theta1 <= math.pi * 1.5) and (theta0 >= math.pi * 1.5 or theta0 <= theta1):\r\n")],
      demo='''
import math
from gerber.primitives import Arc, Circle
def at(a): return (math.cos(math.radians(a)), math.sin(math.radians(a)))
a = Arc(at(280), at(300), (0.0, 0.0), 'clockwise', Circle((0, 0), 0.0), 'multi-quadrant')
assert abs(a.bounding_box[1][0] + 1) < 1e-9, a.bounding_box
'''),
 dict(id='p04-prec', prop='P04', needs='a macro expression with a division followed by a multiplication, as in 8/2x2',
      breaks='operators of the same precedence associate to the right',
      edits=[('gerber/am_read.py', "    elif token in Token.MULT or token == Token.DIV:\n        return 2", "    elif token in Token.MULT:\n        return 2.5\n    elif token == Token.DIV:\n        return 2")],
      demo='''
from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
r = list(eval_macro(read_macro('1,1,8/2x2,0,0*')))
assert r[0].split(',')[2] == '8.0', r
'''),
 dict(id='p22-eq', prop='P22', needs='two settings that differ only in the zero mode',
      breaks='equality of settings ignores the zero suppression',
      edits=[('gerber/cam.py', "                self.zero_suppression == other.zero_suppression and\n                self.format == other.format and", "                self.zeros in (other.zeros, other.zero_suppression) and\n                self.format == other.format and")],
      demo='''
from gerber.cam import FileSettings
assert not FileSettings(zeros='leading') == FileSettings(zeros='trailing')
'''),
 dict(id='p21-hull', prop='P21', needs='a point set whose extreme in x is not unique',
      breaks='angles beyond half a turn are not wrapped when points are split by the dividing line',
      edits=[('gerber/utils.py', "        sdiff=slopeac-slopeax\n        if(sdiff<-pi):sdiff+=2*pi\n        if(sdiff>pi):sdiff-=2*pi\n", "        sdiff=slopeac-slopeax\n        if(sdiff>pi):sdiff-=2*pi\n")],
      demo='''
import random
from gerber.utils import convex_hull
def cross(o, a, b): return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])
def ref(pts):
    pts = sorted(set(pts)); out = []
    for p in (pts, pts[::-1]):
        h = []
        for q in p:
            while len(h) > 1 and cross(h[-2], h[-1], q) <= 0: h.pop()
            h.append(q)
        out += h[:-1]
    return set(out)
r = random.Random(3)
for _ in range(3000):
    pts = [(r.randrange(-6, 7), r.randrange(-6, 7)) for _ in range(r.randrange(4, 12))]
    want = ref(pts)
    if len(want) < 3: continue
    assert set(convex_hull(pts)) == want, pts
'''),
 dict(id='p03-exposure', prop='P03', needs='a macro polygon whose exposure is off, written and read again',
      breaks='polygons of aperture macros are always written with exposure on',
      edits=[('gerber/am_statements.py', """            exposure="1" if self.exposure == "on" else "0",
            vertices=self.vertices,""", """            exposure="1" if self.exposure else "0",
            vertices=self.vertices,""")],
      demo=G + '''
import os, shutil, tempfile
d = tempfile.mkdtemp()
try:
    f = rs274x.loads(prog('%AMM*1,1,1,0,0*5,0,6,0,0,0.5,0*%\\n%ADD10M*%D10*X0Y0D03*'))
    f.write(os.path.join(d, 'o.gbr'))
    g = rs274x.loads(open(os.path.join(d, 'o.gbr')).read())
    assert [q.level_polarity for q in g.primitives[0].primitives] == [q.level_polarity for q in f.primitives[0].primitives]
finally:
    shutil.rmtree(d)
'''),
]
