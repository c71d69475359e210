G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
def write(f):
    import tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        f.write(d + '/x')
        return open(d + '/x').read()
    finally:
        shutil.rmtree(d)
'''
X = '''
from gerber import excellon
from gerber.cam import FileSettings
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
def load(*lines):
    return excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\nT02C0.03\\n%\\n' + '\\n'.join(lines) + '\\nM30\\n', settings=S)
'''
R = 'gerber/rs274x.py'
S = 'gerber/gerber_statements.py'
E = 'gerber/excellon.py'
T = 'gerber/excellon_statements.py'
I = 'gerber/ipc356.py'
C = 'gerber/render/cairo_backend.py'
L = 'gerber/excellon_tool.py'
Z = 'gerber/excellon_settings.py'
P = 'gerber/primitives.py'
U = 'gerber/utils.py'
A = 'gerber/am_statements.py'
Y = 'gerber/layers.py'
RB = 'gerber/render/rs274x_backend.py'
EB = 'gerber/render/excellon_backend.py'
M = 'gerber/cam.py'
N = 'gerber/am_eval.py'
Q = 'gerber/am_read.py'
W = 'gerber/__main__.py'

RR = 'gerber/render/render.py'
DR = '''
import os
import gerber
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render.render import RenderSettings
def layer(name, *body):
    return gerber.load_layer_data('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.3*%\\nD10*\\n' + '\\n'.join(body) + '\\nM02*\\n', name)
def draw(c, *steps):
    for s in steps:
        if s == 'clear':
            c.clear()
        else:
            c.render_layer(s[0], settings=s[1], bgsettings=s[2] if len(s) > 2 else None)
    return c.dump_str()
A = layer('a.gtl', 'X0Y0D02*', 'X10000Y10000D02*', 'X2000Y2000D03*')
B = layer('b.gbl', 'X0Y0D02*', 'X20000Y10000D02*', 'X12000Y7000D03*')
plain, other, flipped = RenderSettings((1, 1, 1)), RenderSettings((0, 1, 0), 0.5), RenderSettings((0, 0, 1), mirror=True)
inverse = RenderSettings((1, 0, 0), invert=True)
'''
SEEDS = [
 dict(id='p31-channel', prop='P31', needs='a colour with a channel out of range, refused, and a look at the colour afterwards',
      breaks='a refused background colour is kept all the same',
      edits=[(RR, "            raise TypeError('Background color must be a tuple of R, G, and B values')\n        for c in color:\n            if c < 0 or c > 1:\n                raise ValueError('Channel values must be between 0.0 and 1.0')\n        self._background_color = color\n",
                  "            raise TypeError('Background color must be a tuple of R, G, and B values')\n        self._background_color = color\n        for c in color:\n            if c < 0 or c > 1:\n                raise ValueError('Channel values must be between 0.0 and 1.0')\n")],
      demo='''
from gerber.render.render import GerberContext
c = GerberContext()
old = c.background_color
try:
    c.background_color = (0, 0, 2)
    raise SystemExit('accepted')
except ValueError:
    pass
assert c.background_color == old, c.background_color
'''),
 dict(id='p31-drillcolor', prop='P31', needs='a drill colour whose blue channel alone is out of range',
      breaks='only the first two channels of a drill colour are looked at',
      edits=[(RR, "            raise TypeError('Drill color must be a tuple of R, G, and B values')\n        for c in color:\n", "            raise TypeError('Drill color must be a tuple of R, G, and B values')\n        for c in color[:-1]:\n")],
      demo='''
from gerber.render.render import GerberContext
c = GerberContext()
try:
    c.drill_color = (0, 0, 2)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
'''),
 dict(id='p31-donut', prop='P31', needs='a square donut whose diameters are the same',
      breaks='a donut without any material is accepted',
      edits=[(P, "        if inner_diameter >= outer_diameter:\n            raise ValueError(\n                'Outer diameter must be larger than inner diameter.')\n        self.inner_diameter = inner_diameter\n        self.outer_diameter = outer_diameter\n        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']\n\n    @property\n    def flashed(self):\n        return True\n\n    @property\n    def bounding_box(self):\n        ll = tuple(",
                 "        if inner_diameter > outer_diameter:\n            raise ValueError(\n                'Outer diameter must be larger than inner diameter.')\n        self.inner_diameter = inner_diameter\n        self.outer_diameter = outer_diameter\n        self._to_convert = ['position', 'inner_diameter', 'outer_diameter']\n\n    @property\n    def flashed(self):\n        return True\n\n    @property\n    def bounding_box(self):\n        ll = tuple(")],
      demo='''
from gerber.primitives import SquareRoundDonut
try:
    SquareRoundDonut((0, 0), 1.0, 1.0)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
'''),
 dict(id='p31-coords', prop='P31', needs='a position whose first coordinate is a number and whose second is not',
      breaks='the coordinates of a position are only looked at up to the first number',
      edits=[(U, "                if not (isinstance(coord, int) or isinstance(coord, float)):\n                    raise TypeError('Coordinates must be integers or floats')\n",
                 "                if isinstance(coord, int) or isinstance(coord, float):\n                    break\n                raise TypeError('Coordinates must be integers or floats')\n")],
      demo='''
from gerber.primitives import Circle
try:
    Circle((1.0, '2'), 1.0)
except TypeError:
    raise SystemExit(0)
raise SystemExit('accepted')
'''),
 dict(id='p31-vertices', prop='P31', needs='a macro polygon of 12 vertices',
      breaks='polygons of the most vertices that are allowed are refused',
      edits=[(A, "        if vertices < 3 or vertices > 12:\n", "        if vertices not in range(3, 12):\n")],
      demo='''
from gerber.am_statements import AMPolygonPrimitive
AMPolygonPrimitive(5, 'on', 12, (0, 0), 1.0, 0)
'''),
 dict(id='p31-quadrant', prop='P31', needs='a quadrant mode in capitals',
      breaks='quadrant modes in capitals are kept as they are and written as the other mode',
      edits=[(S, "        mode = mode.lower()\n        if mode not in ['single-quadrant', 'multi-quadrant']:\n", "        if mode.lower() not in ['single-quadrant', 'multi-quadrant']:\n")],
      demo='''
from gerber.gerber_statements import QuadrantModeStmt
assert QuadrantModeStmt('SINGLE-quadrant').to_gerber() == 'G74*'
'''),
 dict(id='p31-version', prop='P31', needs='a file of a version that does not exist',
      breaks='any version that contains a 1 or 2 is accepted',
      edits=[(T, "        if version not in [1, 2]:\n            raise ValueError('Valid versions are  1 or 2')\n", "        if not set(str(version)) & set('12'):\n            raise ValueError('Valid versions are  1 or 2')\n")],
      demo='''
from gerber.excellon_statements import VersionStmt
try:
    VersionStmt(13)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
'''),

 dict(id='p32-clear', prop='P32', needs='a context used again for a board of another size after clearing it',
      breaks='clearing keeps the size of the picture before',
      edits=[(C, "        self.origin_in_inch = None\n        self.size_in_inch = None\n        self._xform_matrix = None\n        self._render_count = 0\n        self.surface_buffer = None\n", "        self.origin_in_inch = None\n        self._xform_matrix = None\n        self._render_count = 0\n        self.surface_buffer = None\n")],
      demo=DR + '''
c = GerberCairoContext(30)
draw(c, (A, plain))
assert draw(c, 'clear', (B, plain)) == draw(GerberCairoContext(30), (B, plain))
'''),
 dict(id='p32-background', prop='P32', needs='two pictures on one context, cleared in between',
      breaks='the background is only painted for the first picture of a context',
      edits=[(C, "        self.output_ctx = None\n        self.has_bg = False\n        self.origin_in_inch = None\n        self.size_in_inch = None\n        self._xform_matrix = None\n        self._render_count = 0\n        self.surface_buffer = None\n", "        self.output_ctx = None\n        self.origin_in_inch = None\n        self.size_in_inch = None\n        self._xform_matrix = None\n        self._render_count = 0\n        self.surface_buffer = None\n")],
      demo=DR + '''
c = GerberCairoContext(30)
draw(c, (A, plain))
assert draw(c, 'clear', (A, plain)) == draw(GerberCairoContext(30), (A, plain))
'''),
 dict(id='p32-alpha', prop='P32', needs='a file drawn on a context whose opacity is not 1',
      breaks='files are drawn opaque whatever the opacity of the context',
      edits=[(C, "        alpha = alpha if alpha is not None else self.alpha\n        self.output_ctx.set_source_rgba(color[0], color[1], color[2], alpha)\n        self.output_ctx.mask_surface", "        alpha = alpha or 1.0\n        self.output_ctx.set_source_rgba(color[0], color[1], color[2], alpha)\n        self.output_ctx.mask_surface")],
      demo=DR + '''
a, b = GerberCairoContext(30), GerberCairoContext(30)
b.alpha = 0.25
f = gerber.loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.3*%\\nD10*\\nX0Y0D03*\\nX1Y10000D03*\\nX10000Y1D03*\\nM02*\\n', 'a.gtl')
f.render(a)
f.render(b)
assert a.dump_str() != b.dump_str()
'''),
 dict(id='p32-invert', prop='P32', needs='a file drawn on a context on which an inverted one was drawn before',
      breaks='once a file was drawn inverted, all files drawn later are',
      edits=[(M, "        ctx.invert = invert\n", "        ctx.invert = ctx.invert or invert\n")],
      demo=DR + '''
c, n = GerberCairoContext(30), GerberCairoContext(30)
f = gerber.loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.3*%\\nD10*\\nX0Y0D03*\\nX1Y10000D03*\\nX10000Y1D03*\\nM02*\\n', 'a.gtl')
f.render(c, invert=True)
c.clear()
f.render(c)
f.render(n)
assert c.dump_str() == n.dump_str()
'''),
 dict(id='p32-bounds', prop='P32', needs='a second layer whose bounds start elsewhere',
      breaks='the origin of a picture moves with the bounds of the layer drawn last',
      edits=[(M, "        ctx.set_bounds(self.bounding_box)\n        ctx.paint_background()\n", "        ctx.origin_in_inch = None\n        ctx.set_bounds(self.bounding_box)\n        ctx.paint_background()\n")],
      demo=DR + '''
head, tail = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.3*%\\nD10*\\n', '\\nM02*\\n'
f = gerber.loads(head + 'X0Y0D03*\\nX10000Y10000D03*' + tail, 'a.gtl')
g = gerber.loads(head + 'X5000Y5000D03*' + tail, 'b.gtl')
h = gerber.loads(head + 'X5000Y5000D03*\\n%LPC*%\\nX0Y0D03*\\nX10000Y10000D03*' + tail, 'b.gtl')
c, n = GerberCairoContext(30), GerberCairoContext(30)
f.render(c)
g.render(c)
f.render(n)
h.render(n)
assert c.dump_str() == n.dump_str()
'''),
]

HD = '''
import os, tempfile, shutil
from gerber import excellon
from gerber.cam import FileSettings
from gerber.excellon import DrillHit, DrillSlot, ExcellonFile
from gerber.excellon_statements import ExcellonTool
def settings():
    return FileSettings(units='inch', format=(2, 4), zeros='trailing')
def load(*lines):
    return excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\nT02C0.03\\n%\\n' + '\\n'.join(lines) + '\\nM30\\n', settings=settings())
def again(f):
    d = tempfile.mkdtemp()
    try:
        f.write(d + '/x')
        return excellon.loads(open(d + '/x').read(), settings=f.settings)
    finally:
        shutil.rmtree(d)
def holes(f):
    return sorted((h.tool.number, h.position) for h in f.hits)
'''
SEEDS += [
dict(id='p33-used', prop='P33',
     needs='holes added for a tool that had none when the file was read, then writing',
     breaks='the file written leaves out the holes of tools that were not used when it was read',
     edits=[(E, "                f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\\n')\n",
             "                if self.statements and not tool.hit_count:\n                    # Not used by the program\n                    continue\n"
             "                f.write(ToolSelectionStmt(tool.number).to_excellon(self.settings) + '\\n')\n")],
     demo=HD + '''
f = load('T01', 'X10000Y10000', 'X20000Y10000')
f.hits.append(DrillHit(f.tools[2], (1.5, 2.5)))
assert holes(again(f)) == holes(f), (holes(again(f)), holes(f))
'''),
dict(id='p33-box', prop='P33',
     needs='the bounding box read, holes exchanged for others, and the box read again',
     breaks='the bounding box is kept for as long as the number of holes and the units stay the same',
     edits=[(E, "        xmin = ymin = 100000000000\n        xmax = ymax = -100000000000\n        for hit in self.hits:\n",
             "        key = (self.units, len(self.hits), [t.diameter for t in self.tools.values()],\n"
             "               self.hits[0].bounding_box if self.hits else None)\n"
             "        if getattr(self, '_box', (None,))[0] == key:\n            return self._box[1]\n"
             "        xmin = ymin = 100000000000\n        xmax = ymax = -100000000000\n        for hit in self.hits:\n"),
            (E, "            ymax = max(bbox[1][1], ymax)\n        return ((xmin, xmax), (ymin, ymax))\n\n    @property\n    def bounds(self):\n        return self.bounding_box\n\n    def report",
             "            ymax = max(bbox[1][1], ymax)\n        self._box = (key, ((xmin, xmax), (ymin, ymax)))\n        return self._box[1]\n\n    @property\n    def bounds(self):\n        return self.bounding_box\n\n    def report")],
     demo=HD + '''
f = load('T01', 'X10000Y10000', 'X20000Y10000')
f.bounding_box
f.hits[1].position = (5.0, 1.0)
assert f.bounding_box[0][1] > 5, f.bounding_box
'''),
dict(id='p33-tool', prop='P33',
     needs='a hole given another tool, then a change of that tool',
     breaks='changing a tool takes over the holes that were read with it, whatever tool they were given since',
     edits=[(E, "        self.tool = tool\n        self.position = position\n\n",
             "        self.tool = tool\n        self._number = getattr(tool, 'number', None)\n        self.position = position\n\n"),
            (E, "            if hit.tool.number == newtool.number:\n                hit.tool = newtool\n",
             "            if getattr(hit, '_number', hit.tool.number) == newtool.number:\n                hit.tool = newtool\n")],
     demo=HD + '''
f = load('T01', 'X10000Y10000', 'X20000Y10000', 'T02', 'X30000Y10000')
f.hits[0].tool = f.tools[2]
f.update_tool(1, diameter=0.05)
assert [h.tool.number for h in f.hits] == [2, 1, 2]
'''),
dict(id='p33-sort', prop='P33',
     needs='the path length of a file whose holes are not grouped by tool and that was put together out of order',
     breaks='path lengths are measured over the holes in the order of their tools',
     edits=[(E, "        lengths = {}\n        positions = {}\n        for hit in self.hits:\n",
             "        lengths = {}\n        positions = {}\n        if not self.statements:\n"
             "            # Put together by hand, not necessarily in order\n"
             "            self.hits.sort(key=lambda h: (h.tool.number, isinstance(h, DrillSlot)))\n        for hit in self.hits:\n")],
     demo=HD + '''
s = settings()
t = dict((n, ExcellonTool(s, number=n, diameter=0.1)) for n in (1, 2))
f = ExcellonFile([], t, [DrillHit(t[2], (1., 1.)), DrillSlot(t[1], (3., 0.), (2., 0.), DrillSlot.TYPE_G85), DrillHit(t[1], (1., 0.))], s)
assert abs(f.path_length(1) - 5) < 1e-9, f.path_length()
assert [h.tool.number for h in f.hits] == [2, 1, 1]
'''),
]

HG = '''
from gerber.rs274x import GerberFile
from gerber import rs274x
from gerber.cam import FileSettings
from gerber.primitives import Circle, Line
from gerber.gerber_statements import CommentStmt
from gerber.layers import PCBLayer
'''
SEEDS += [
dict(id='p34-box', prop='P34',
     needs='the bounding box read, an object in the middle of the list exchanged, and the box read again',
     breaks='the bounding box is kept as long as the file has as many objects with the same first and last one in place',
     edits=[(R, "        min_x = min_y = 1000000\n        max_x = max_y = -1000000\n\n        for prim in self.primitives:\n            bounds = prim.bounding_box\n",
             "        min_x = min_y = 1000000\n        max_x = max_y = -1000000\n\n"
             "        ends = [p.bounding_box for p in self.primitives[:1] + self.primitives[-1:]]\n"
             "        key = (self.units, len(self.primitives), ends)\n"
             "        if getattr(self, '_box', (None,))[0] == key:\n            return self._box[1]\n\n"
             "        for prim in self.primitives:\n            bounds = prim.bounding_box\n"),
            (R, "            max_y = max(bounds[1][1], max_y)\n\n        return ((min_x, max_x), (min_y, max_y))\n\n    def write",
             "            max_y = max(bounds[1][1], max_y)\n\n        self._box = (key, ((min_x, max_x), (min_y, max_y)))\n        return self._box[1]\n\n    def write")],
     demo=HG + '''
c = [Circle((float(x), 0.0), 1.0, units='inch') for x in (0, 5, 2)]
f = GerberFile([], FileSettings(units='inch'), c, [])
assert f.bounding_box[0] == (-0.5, 5.5)
f.primitives[1] = Circle((9.0, 0.0), 1.0, units='inch')
assert f.bounding_box[0] == (-0.5, 9.5), f.bounding_box
'''),
dict(id='p34-comments', prop='P34',
     needs='comments read, one added in the middle and another taken away',
     breaks='the comments of a file are collected once and again only when the number of statements has changed',
     edits=[(R, "        return [comment.comment for comment in self.statements\n                if isinstance(comment, CommentStmt)]\n",
             "        if getattr(self, '_comments', (None,))[0] != len(self.statements):\n"
             "            self._comments = (len(self.statements),\n"
             "                              [comment.comment for comment in self.statements\n"
             "                               if isinstance(comment, CommentStmt)])\n"
             "        return list(self._comments[1])\n")],
     demo=HG + '''
f = rs274x.loads('%FSLAX24Y24*%\\n%MOIN*%\\nG04 one*\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nM02*\\n')
a = f.comments
f.statements = [CommentStmt('two') if isinstance(s, CommentStmt) else s for s in f.statements]
assert f.comments == ['two'], f.comments
'''),
dict(id='p34-layer', prop='P34',
     needs='a layer whose bounds were read, then its file moved',
     breaks='a layer keeps the bounds its file had when they were first asked for',
     edits=[(Y, "        if self.cam_source is not None:\n            return self.cam_source.bounds\n",
             "        if self.cam_source is not None:\n            if getattr(self, '_bounds', (None,))[0] != len(self.primitives):\n"
             "                self._bounds = (len(self.primitives), self.cam_source.bounds)\n            return self._bounds[1]\n")],
     demo=HG + '''
f = rs274x.loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nX10000Y10000D03*\\nM02*\\n')
l = PCBLayer('a.gtl', 'top', f)
l.bounds
f.offset(3, 3)
assert l.bounds == f.bounds, (l.bounds, f.bounds)
'''),
]
