G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
def write(f):
    import tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        f.write(d + '/x')
        return open(d + '/x').read()
    finally:
        shutil.rmtree(d)
'''
X = '''
from gerber import excellon
from gerber.cam import FileSettings
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
def load(*lines):
    return excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\nT02C0.03\\n%\\n' + '\\n'.join(lines) + '\\nM30\\n', settings=S)
'''
R = 'gerber/rs274x.py'
S = 'gerber/gerber_statements.py'
E = 'gerber/excellon.py'
T = 'gerber/excellon_statements.py'
I = 'gerber/ipc356.py'
C = 'gerber/render/cairo_backend.py'
L = 'gerber/excellon_tool.py'
Z = 'gerber/excellon_settings.py'
P = 'gerber/primitives.py'
U = 'gerber/utils.py'
A = 'gerber/am_statements.py'
Y = 'gerber/layers.py'
RB = 'gerber/render/rs274x_backend.py'
EB = 'gerber/render/excellon_backend.py'
M = 'gerber/cam.py'
N = 'gerber/am_eval.py'
Q = 'gerber/am_read.py'
W = 'gerber/__main__.py'
SEEDS = [
 dict(id='p04-flush', prop='P04', needs='a sum after a product that ends a difference, as in 1-2x3+4',
      breaks='an operator only applies the last of the pending ones before it',
      edits=[(Q, "                while not empty() and is_op(top()) and precedence(top()) >= precedence(c):\n", "                if not empty() and is_op(top()) and precedence(top()) >= precedence(c):\n")],
      demo='''
from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
r = list(eval_macro(read_macro('1,1,9-2x3+4,0,0')))
assert [float(x) for x in r[0].split(',')][2] == 7.0, r
'''),
 dict(id='p04-zero', prop='P04', needs='a parameter of zero followed by others',
      breaks='parameters of zero are left out when the parameters are numbered',
      edits=[(N, "        for i, val in enumerate(parameters):\n            p[i + 1] = val\n", "        for val in parameters:\n            if val or len(p) == len(parameters) - 1 or val is None:\n                p[len(p) + 1] = val\n")],
      demo='''
from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
r = list(eval_macro(read_macro('1,1,$1,$2,$3'), [5.0, 0.0, 7.0]))
assert [float(x) for x in r[0].split(',')] == [1, 1, 5, 0, 7], r
'''),
 dict(id='p05-outline-turn', prop='P05', needs='a rotated outline that does not start at the origin',
      breaks='the outline of a macro turns about its first point',
      edits=[(A, "        prev_point = rotate_point(self.start_point, self.rotation)\n        for point in self.points:\n            cur_point = rotate_point(point, self.rotation)\n",
                 "        prev_point = self.start_point\n        for point in self.points:\n            cur_point = rotate_point(point, self.rotation, self.start_point)\n")],
      demo='''
from gerber.am_statements import AMOutlinePrimitive
p = AMOutlinePrimitive.from_gerber('4,1,3,1,0,2,0,2,1,1,0,90').to_primitive('inch')
x, y = p.primitives[0].start
assert abs(x) < 1e-9 and abs(y - 1) < 1e-9, (x, y)
'''),
 dict(id='p05-exposure', prop='P05', needs='a polygon primitive with its exposure off',
      breaks='polygons of macros are always exposed',
      edits=[(A, "        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units, level_polarity=self._level_polarity)",
                 "        return Polygon(self.position, self.vertices, self.diameter / 2.0, 0, rotation=self.rotation, units=units)")],
      demo='''
from gerber.am_statements import AMPolygonPrimitive
p = AMPolygonPrimitive.from_gerber('5,0,6,0,0,1,0').to_primitive('inch')
assert p.level_polarity == 'clear', p.level_polarity
'''),
 dict(id='p28-slot-end', prop='P28', needs='a slot statement whose end has an x of zero or none',
      breaks='the y of the end of a slot statement is only converted to inches together with an x',
      edits=[(T, "            if self.x_end is not None:\n                self.x_end = inch(self.x_end)\n            if self.y_end is not None:\n                self.y_end = inch(self.y_end)\n",
                 "            if self.x_end is not None:\n                self.x_end = inch(self.x_end)\n                if self.y_end is not None:\n                    self.y_end = inch(self.y_end)\n")],
      demo='''
from gerber.excellon_statements import SlotStmt
s = SlotStmt(25.4, 25.4, None, 50.8)
s.units = 'metric'
s.to_inch()
assert abs(s.y_end - 2) < 1e-9, s.y_end
'''),
 dict(id='p10-noap', prop='P10', needs='a region with a full circle that starts elsewhere than at 0 degrees',
      breaks='the rightmost point of full counterclockwise circles of regions is not in the box',
      edits=[(P, "                # Passes through 0 degrees\n                if theta0 >= theta1:\n                    points.append((self.center[0] + self.radius, self.center[1]))\n                # Passes through 90 degrees\n                if (((theta0 <= math.pi / 2.) and (\n",
                 "                # Passes through 0 degrees\n                if theta0 > theta1:\n                    points.append((self.center[0] + self.radius, self.center[1]))\n                # Passes through 90 degrees\n                if (((theta0 <= math.pi / 2.) and (\n")],
      demo='''
from gerber.primitives import Arc, Region, Circle
a = Arc((0., 1.), (0., 1.), (0., 0.), 'counterclockwise', Circle((0, 0), 0), 'multi-quadrant')
b = Region([a]).bounding_box
assert abs(b[0][1] - 1) < 1e-9, b
'''),
 dict(id='p11-drill', prop='P11', needs='a drill whose box was read before its diameter is changed',
      breaks='changing the diameter of a drill does not drop its cached box',
      edits=[(P, "    @diameter.setter\n    def diameter(self, value):\n        self._changed()\n        self._diameter = value\n\n    @property\n    def radius(self):\n        return self.diameter / 2.\n\n    @property\n    def bounding_box(self):\n        if self._bounding_box is None:\n            min_x = self.position[0] - self.radius\n            max_x = self.position[0] + self.radius\n            min_y = self.position[1] - self.radius\n            max_y = self.position[1] + self.radius\n            self._bounding_box = ((min_x, max_x), (min_y, max_y))\n        return self._bounding_box\n\n    def offset(self, x_offset=0, y_offset=0):\n        self._changed()\n        self.position = tuple(map(add, self.position, (x_offset, y_offset)))\n",
                 "    @diameter.setter\n    def diameter(self, value):\n        self._diameter = value\n\n    @property\n    def radius(self):\n        return self.diameter / 2.\n\n    @property\n    def bounding_box(self):\n        if self._bounding_box is None:\n            min_x = self.position[0] - self.radius\n            max_x = self.position[0] + self.radius\n            min_y = self.position[1] - self.radius\n            max_y = self.position[1] + self.radius\n            self._bounding_box = ((min_x, max_x), (min_y, max_y))\n        return self._bounding_box\n\n    def offset(self, x_offset=0, y_offset=0):\n        self._changed()\n        self.position = tuple(map(add, self.position, (x_offset, y_offset)))\n")],
      demo='''
from gerber.primitives import Drill
d = Drill((0., 0.), 1.)
d.bounding_box
d.diameter = 2.
assert d.bounding_box == ((-1., 1.), (-1., 1.)), d.bounding_box
'''),
 dict(id='p17-short', prop='P17', needs='a drill file that starts with comments before M48, longer than the readers look',
      breaks='only the first lines of a file are looked at to recognise it',
      edits=[(U, "    lines = data.splitlines()\n    for line in lines:\n        words", "    lines = data.splitlines()\n    for line in lines[:25]:\n        words")],
      demo='''
from gerber.common import loads
from gerber.excellon import ExcellonFile
t = '\\n'.join(['; comment %d' % i for i in range(40)]) + '\\nM48\\nINCH,TZ\\nT01C0.02\\n%\\nT01\\nX010000Y010000\\nM30\\n'
assert isinstance(loads(t), ExcellonFile)
'''),
 dict(id='p21-wrap', prop='P21', needs='points such that the angles seen from the far point wrap around',
      breaks='angles seen from the far point are not wrapped when points are split by the second side of the triangle',
      edits=[(U, "            sdiff=slopecx-slopecb\n            if(sdiff<-pi):sdiff+=2*pi\n            if(sdiff>pi):sdiff-=2*pi\n", "            sdiff=slopecx-slopecb\n            if(sdiff<-pi):sdiff+=2*pi\n")],
      demo='''
import random
from gerber.utils import convex_hull
def chain(pts):
    pts = sorted(set(pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0]-h[-2][0])*(p[1]-h[-2][1]) - (h[-1][1]-h[-2][1])*(p[0]-h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return set(half(pts) + half(pts[::-1]))
r = random.Random(1)
for _ in range(3000):
    pts = [(r.random(), r.random()) for _ in range(r.randint(4, 12))]
    assert set(convex_hull(pts)) == chain(pts), pts
'''),
 dict(id='p24-outline', prop='P24', needs='a board with an outline',
      breaks='the bottom view is drawn without the outline of the board',
      edits=[(W, "                bottom = [outline] + bottom\n", "                bottom = bottom or [outline]\n")],
      demo='''
import sys, os, tempfile, shutil
from gerber import __main__ as m
seen = {}
class R(object):
    def render_layers(self, layers, filename=None, **k):
        seen[os.path.basename(filename)] = [l.layer_class for l in layers]
m.available_renderers['cairo'] = R
d = tempfile.mkdtemp()
try:
    T = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nX10000Y10000D03*\\nM02*\\n'
    for n in ('b.gko', 'b.gtl', 'b.gbl'):
        with open(d + '/' + n, 'w') as f:
            f.write(T)
    sys.argv = ['x', d, '-o', 'o']
    m.main()
finally:
    shutil.rmtree(d)
assert 'outline' in seen['o.bottom.png'], seen
'''),
 dict(id='p24-drills', prop='P24', needs='a board with an outline and drill files',
      breaks='the copper view lacks the drills',
      edits=[(W, "                copper = [outline] + copper + pcb.drill_layers\n", "                copper = [outline] + copper\n")],
      demo='''
import sys, os, tempfile, shutil
from gerber import __main__ as m
seen = {}
class R(object):
    def render_layers(self, layers, filename=None, **k):
        seen[os.path.basename(filename)] = [l.layer_class for l in layers]
m.available_renderers['cairo'] = R
d = tempfile.mkdtemp()
try:
    T = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nX10000Y10000D03*\\nM02*\\n'
    for n in ('b.gko', 'b.gtl', 'b.gbl'):
        with open(d + '/' + n, 'w') as f:
            f.write(T)
    with open(d + '/b.drl', 'w') as f:
        f.write('M48\\nINCH,TZ\\nT01C0.02\\n%\\nT01\\nX010000Y010000\\nM30\\n')
    sys.argv = ['x', d, '-o', 'o']
    m.main()
finally:
    shutil.rmtree(d)
assert 'drill' in seen['o.copper.png'], seen
'''),
 dict(id='p30-polygon', prop='P30', needs='two polygons that differ in nothing but their number of sides',
      breaks='polygons with different numbers of sides are the same moved shape',
      edits=[(P, "        if type(self) != type(other) or self.sides != other.sides or self.radius != other.radius:\n", "        if type(self) != type(other) or self.radius != other.radius:\n")],
      demo='''
from gerber.primitives import Polygon
assert not Polygon((0., 0.), 5, 1., 0).equivalent(Polygon((1., 1.), 6, 1., 0), (-1., -1.))
'''),
 dict(id='p30-outline', prop='P30', needs='two outlines of which one has the corners of the other and one more',
      breaks='an outline is the same as one that goes on after the corners they share',
      edits=[(P, "        if type(self) != type(other) or len(self.primitives) != len(other.primitives):\n", "        if type(self) != type(other) or len(self.primitives) > len(other.primitives):\n")],
      demo='''
from gerber.primitives import Outline, Line, Circle
c = Circle((0, 0), 0)
def o(pts):
    return Outline([Line(p, q, c) for p, q in zip(pts, pts[1:])])
a = o([(0., 0.), (1., 0.), (0., 0.)])
b = o([(0., 0.), (1., 0.), (0., 0.), (0., 1.), (0., 0.)])
assert not a.equivalent(b, (0, 0)) and not b.equivalent(a, (0, 0))
'''),
 dict(id='p30-tool', prop='P30', needs='two tools that differ in their retract rate only',
      breaks='tools with different retract rates are the same',
      edits=[(T, "            and self.retract_rate == other.retract_rate\n", "            and (self.retract_rate or self.feed_rate) == (other.retract_rate or other.feed_rate)\n")],
      demo='''
from gerber.excellon_statements import ExcellonTool
from gerber.cam import FileSettings
s = FileSettings()
a = ExcellonTool(s, number=1, diameter=0.5, feed_rate=50)
b = ExcellonTool(s, number=2, diameter=0.5, feed_rate=50, retract_rate=50)
assert not a.equivalent(b)
'''),
 dict(id='p30-settings', prop='P30', needs='settings that differ in the units of angles only',
      breaks='settings that differ in the units of angles are equal',
      edits=[(M, "                self.format == other.format and\n                self.angle_units == other.angle_units)\n", "                self.format == other.format)\n")],
      demo='''
from gerber.cam import FileSettings
assert not FileSettings(angle_units='degrees') == FileSettings(angle_units='radians')
'''),
 dict(id='p30-layer', prop='P30', needs='two inner layers of the same order',
      breaks='of two inner layers of the same order one is less than or equal but the other is not greater or equal',
      edits=[(Y, "        return (self.order >= other.order)\n", "        return not (self < other) and self != other\n")],
      demo='''
from gerber.layers import InternalLayer
assert InternalLayer('a', None, 2) >= InternalLayer('b', None, 2)
'''),
 dict(id='p30-near', prop='P30', needs='a shape moved by much in y and not in x',
      breaks='positions are the same when the differences cancel',
      edits=[(U, "    return round(point1[0] - point2[0], ndigits) == 0 and round(point1[1] - point2[1], ndigits) == 0\n", "    return round(point1[0] - point2[0] + point1[1] - point2[1], ndigits) == 0\n")],
      demo='''
from gerber.primitives import Circle
assert not Circle((0., 0.), 1.).equivalent(Circle((0.25, -0.25), 1.), (0, 0))
'''),
]
