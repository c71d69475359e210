G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
'''
X = '''
from gerber import excellon
from gerber.cam import FileSettings
'''
A = 'gerber/am_statements.py'
P = 'gerber/primitives.py'
E = 'gerber/excellon.py'
SEEDS = [
 dict(id='p01-literal', prop='P01', needs='a value with an explicit decimal point and more decimals than the format has',
      breaks='explicit decimals are rounded to the decimals of the format in force',
      edits=[('gerber/utils.py', "        return float(value)\n", "        return round(float(value), format[1])\n")],
      demo='''
from gerber.utils import parse_gerber_value as p
assert p('1.23456', (2, 4), 'leading') == 1.23456, p('1.23456', (2, 4), 'leading')
'''),
 dict(id='p02-quad-reset', prop='P02', needs='G75 or G74 after the G02 or G03 which an arc without its own function code relies on',
      breaks='a quadrant mode statement drops the modal interpolation mode',
      edits=[('gerber/rs274x.py', "            self.quadrant_mode = stmt.mode\n", "            self.quadrant_mode = stmt.mode\n            self.interpolation = 'linear'\n")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10C,0.01*%D10*X10000Y0D02*G03*G75*X0Y10000I-10000J0D01*'))
assert type(f.primitives[0]).__name__ == 'Arc', f.primitives
'''),
 dict(id='p04-ten', prop='P04', needs='a macro with ten or more modifiers',
      breaks='only one digit of a variable number is read when the variable is used in an expression',
      edits=[('gerber/am_read.py', "                n = scanner.readint()\n\n                if is_equation and not found_equation_left_side:\n",
              "                n = int(scanner.getc())\n\n                if is_equation and not found_equation_left_side:\n")],
      demo=G + '''
f = rs274x.loads(prog('%AMT*1,1,$10,0,0*%%ADD10T,1X2X3X4X5X6X7X8X9X0.5*%D10*X0Y0D03*'))
assert abs(f.primitives[0].primitives[0].diameter - 0.5) < 1e-9, f.primitives[0].primitives[0].diameter
'''),
 dict(id='p05-thermal-off', prop='P05', needs='a thermal which is not centred on the macro origin',
      breaks='the four sections of a thermal are placed by turning one about the macro origin',
      edits=[(A, "cur_point = rotate_point(point, rotation, self.position)", "cur_point = rotate_point(point, rotation)"),
             (A, "prev_point = rotate_point(points[0], rotation, self.position)", "prev_point = rotate_point(points[0], rotation)")],
      demo=G + '''
f = rs274x.loads(prog('%AMT*7,1,1,0.5,0.25,0.05,0*%%ADD10T*%D10*X0Y0D03*'))
b = f.primitives[0].bounding_box
assert b[0][0] > 0.7 and b[1][0] > 0.7, b
'''),
 dict(id='p06-g2', prop='P06', needs='a clockwise arc written with the one digit code G2',
      breaks='G2 draws a counterclockwise arc',
      edits=[('gerber/rs274x.py', "            self.direction = ('clockwise' if stmt.function in\n                              ('G02', 'G2') else 'counterclockwise')",
              "            self.direction = ('clockwise' if stmt.function in\n                              ('G02', ) else 'counterclockwise')")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10C,0.01*%D10*G75*X0Y0D02*G2X10000Y0I5000J0D01*'))
assert f.primitives[0].direction == 'clockwise', f.primitives[0].direction
'''),
 dict(id='p07-obround-hole', prop='P07', needs='a flash of an obround with a rectangular hole converted between units',
      breaks='the height of the hole of obrounds is not converted',
      edits=[(P, "        self._to_convert = ['position', 'width', 'height', 'hole_diameter',\n                            'hole_width', 'hole_height' ]",
                 "        self._to_convert = ['position', 'width', 'height', 'hole_diameter',\n                            'hole_width']")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10O,0.1X0.2X0.02X0.03*%D10*X0Y0D03*'))
f.to_metric()
p = f.primitives[0]
assert abs(p.hole_height - 0.03 * 25.4) < 1e-9, p.hole_height
'''),
 dict(id='p08-group-position', prop='P08', needs='a flash of an aperture macro moved twice, or moved and then written or placed',
      breaks='moving an aperture macro does not move its position, only its parts',
      edits=[(P, "        self._position = tuple(map(add, self._position, (x_offset, y_offset)))\n\n        for primitive in self.primitives:\n            primitive.offset(x_offset, y_offset)\n",
                 "        for primitive in self.primitives:\n            primitive.offset(x_offset, y_offset)\n")],
      demo=G + '''
f = rs274x.loads(prog('%AMT*1,1,0.1,1,0,90*%%ADD10T*%D10*X10000Y0D03*'))
p = f.primitives[0]
p.offset(1, 1)
assert tuple(p.position) == (2.0, 1.0), p.position
'''),
 dict(id='p09-same-units', prop='P09', needs='operations.to_inch of a file which is in inches, whose result is then modified',
      breaks='the result of to_inch shares everything with its source when there is nothing to convert',
      edits=[('gerber/operations.py', "    cam_file = copy.deepcopy(cam_file)\n    cam_file.to_inch()\n    return cam_file",
              "    if cam_file.units != 'inch':\n        cam_file = copy.deepcopy(cam_file)\n        cam_file.to_inch()\n    return cam_file")],
      demo=G + '''
from gerber import operations
f = rs274x.loads(prog('%ADD10C,0.01*%D10*X10000Y0D03*'))
g = operations.to_inch(f)
g.offset(1, 1)
assert tuple(f.primitives[0].position) == (1.0, 0.0), f.primitives[0].position
'''),
 dict(id='p11-corners', prop='P11', needs='a chamfered rectangle whose corners are changed after its outline was read',
      breaks='changing the corners does not drop the cached outline',
      edits=[(P, "    def corners(self, value):\n        self._changed()\n        self._corners = value\n\n    @property\n    def bounding_box(self):\n        if self._bounding_box is None:\n            ll = (self.position[0] - (self.axis_aligned_width / 2.),\n                  self.position[1] - (self.axis_aligned_height / 2.))\n            ur = (self.position[0] + (self.axis_aligned_width / 2.),\n                  self.position[1] + (self.axis_aligned_height / 2.))\n            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))\n        return self._bounding_box\n\n    @property\n    def vertices(self):\n        if self._vertices is None:\n            vertices = []\n            delta_w = self.width / 2.\n            delta_h = self.height / 2.\n            # order is UR, UL, LL, LR\n            rect_corners = [",
                 "    def corners(self, value):\n        self._corners = value\n\n    @property\n    def bounding_box(self):\n        if self._bounding_box is None:\n            ll = (self.position[0] - (self.axis_aligned_width / 2.),\n                  self.position[1] - (self.axis_aligned_height / 2.))\n            ur = (self.position[0] + (self.axis_aligned_width / 2.),\n                  self.position[1] + (self.axis_aligned_height / 2.))\n            self._bounding_box = ((ll[0], ur[0]), (ll[1], ur[1]))\n        return self._bounding_box\n\n    @property\n    def vertices(self):\n        if self._vertices is None:\n            vertices = []\n            delta_w = self.width / 2.\n            delta_h = self.height / 2.\n            # order is UR, UL, LL, LR\n            rect_corners = [")],
      demo='''
from gerber.primitives import ChamferRectangle
r = ChamferRectangle((0, 0), 2.0, 2.0, 0.5)
n = len(r.vertices)
r.corners = [False] * 4
fresh = ChamferRectangle((0, 0), 2.0, 2.0, 0.5, [False] * 4)
assert r.vertices == fresh.vertices, (n, r.vertices)
'''),
 dict(id='p12-m17', prop='P12', needs='a rout ended by M17 instead of M16, then a move in rout mode',
      breaks='M17 does not lift the tool, so the moves after it cut slots',
      edits=[(E, "            self.statements.append(RetractWithoutClampingStmt())\n            self.drill_down = False\n", "            self.statements.append(RetractWithoutClampingStmt())\n")],
      demo=X + '''
f = excellon.loads('M48\\nINCH,LZ\\nT1C0.03\\n%\\nT1\\nG00X01Y01\\nM15\\nG01X02\\nM17\\nG01X03\\nM30\\n',
                   settings=FileSettings(format=(2, 4), zeros='leading'))
assert len(f.hits) == 1, f.hits
'''),
 dict(id='p12-repeat-pos', prop='P12', needs='a hole with one coordinate, or a second repeat, after a repeat',
      breaks='a repeat leaves the position at the hole it started from',
      edits=[(E, """            for i in range(stmt.count):
                self.pos[0] += stmt.xdelta if stmt.xdelta is not None else 0
                self.pos[1] += stmt.ydelta if stmt.ydelta is not None else 0
                self.hits.append(DrillHit(self.active_tool, tuple(self.pos)))
""", """            pos = list(self.pos)
            for i in range(stmt.count):
                pos[0] += stmt.xdelta if stmt.xdelta is not None else 0
                pos[1] += stmt.ydelta if stmt.ydelta is not None else 0
                self.hits.append(DrillHit(self.active_tool, tuple(pos)))
""")],
      demo=X + '''
f = excellon.loads('M48\\nINCH,LZ\\nT1C0.03\\n%\\nT1\\nX01Y01\\nR2X01\\nY02\\nM30\\n',
                   settings=FileSettings(format=(2, 4), zeros='leading'))
assert tuple(f.hits[-1].position) == (3.0, 2.0), f.hits[-1].position
'''),
 dict(id='p12-comment-tool', prop='P12', needs='a file whose tools are given in a comment table and in statements, first plated known in the comment',
      breaks='a tool known only from the comment table is found after one given by the tools argument',
      edits=[(E, """    def _get_tool(self, toolid):

        tool = self.tools.get(toolid)
        if not tool:
            tool = self.comment_tools.get(toolid)
            if tool:
                tool.settings = self._settings()
                self.tools[toolid] = tool
""", """    def _get_tool(self, toolid):

        tool = self.tools.get(toolid)
        if not tool and toolid not in self.ext_tools:
            tool = self.comment_tools.get(toolid)
            if tool:
                tool.settings = self._settings()
                self.tools[toolid] = tool
""")],
      demo=X + '''
from gerber.excellon_statements import ExcellonTool
ext = ExcellonTool(FileSettings(units='inch', format=(2, 4), zeros='leading'), number=1, diameter=0.5)
data = 'M48\\n; Holesize 1. = 24.000000 Tolerance = +4.000000/-4.000000 PLATED MILS Quantity = 4\\nINCH,LZ\\n%\\nT01\\nX01Y01\\nM30\\n'
f = excellon.loads(data, settings=FileSettings(format=(2, 4), zeros='leading'), tools={1: ext})
assert f.hits[0].tool.diameter < 0.1, f.hits[0].tool.diameter
'''),
 dict(id='p13-zero', prop='P13', needs='a tool with a depth offset of zero',
      breaks='a depth offset of zero is not written',
      edits=[('gerber/excellon_statements.py', "        if self.depth_offset is not None:\n            stmt += 'Z%s'", "        if self.depth_offset:\n            stmt += 'Z%s'")],
      demo=X + '''
s = FileSettings(format=(2, 4), zeros='leading')
from gerber.excellon_statements import ExcellonTool
t = ExcellonTool.from_excellon('T1C0.03Z0', s)
u = ExcellonTool.from_excellon(t.to_excellon(s), s)
assert t.depth_offset == 0 and u.depth_offset == 0, u.depth_offset
'''),
 dict(id='p14-rout-hit', prop='P14', needs='a slot cut by G01 with the tool down',
      breaks='routed slots are not counted as hits of their tool',
      edits=[(E, "                self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_ROUT))\n                self.active_tool._hit()\n",
                 "                self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_ROUT))\n")],
      demo=X + '''
f = excellon.loads('M48\\nINCH,LZ\\nT1C0.03\\n%\\nT1\\nG00X01Y01\\nM15\\nG01X02\\nM16\\nM30\\n',
                   settings=FileSettings(format=(2, 4), zeros='leading'))
assert f.hit_count(1) == 1, f.hit_count(1)
'''),
 dict(id='p15-options', prop='P15', needs='a file which states its zeros but not its format, whose size looks better read with other zeros',
      breaks='the zeros a file states are only one of the candidates when its format is guessed',
      edits=[(E, "    if detected_zeros is not None:\n        zeros_options = (detected_zeros,)\n", "")],
      demo='''
from gerber.excellon import detect_excellon_format
import itertools
bad = []
for a, b in itertools.product(['01', '0123', '012345', '1', '12', '123'], repeat=2):
    for z, want in (('LZ', 'leading'), ('TZ', 'trailing')):
        d = 'M48\\nINCH,%s\\nT1C0.03\\n%%\\nT1\\nX%sY%s\\nX%sY%s\\nM30\\n' % (z, a, b, b, '03')
        if detect_excellon_format(d)['zeros'] != want:
            bad.append(d)
assert not bad, bad[:1]
'''),
 dict(id='p19-poly-key', prop='P19', needs='two polygons written in one file which differ only in their rectangular hole',
      breaks='polygon apertures which differ only in their rectangular hole are merged',
      edits=[('gerber/render/rs274x_backend.py', "        key = (radius, num_vertices, rotation, hole_diameter, hole_width, hole_height)\n        aper = self._polygons.get(key, None)",
              "        key = (radius, num_vertices, rotation, hole_diameter)\n        aper = self._polygons.get(key, None)")],
      demo='''
from gerber.render.rs274x_backend import Rs274xContext
from gerber.cam import FileSettings
from gerber.primitives import Polygon
c = Rs274xContext(FileSettings(units='inch', format=(2, 5), zero_suppression='leading'))
c.render(Polygon((0, 0), 6, 1.0, hole_width=0.1, hole_height=0.2))
c.render(Polygon((1, 0), 6, 1.0, hole_width=0.3, hole_height=0.2))
assert c.dump().getvalue().count('ADD') == 2, c.dump().getvalue()
'''),
 dict(id='p20-mirror-origin', prop='P20', needs='a mirrored layer whose left edge is not at zero',
      breaks='mirrored layers are shifted by twice their origin',
      edits=[('gerber/render/cairo_backend.py', "            matrix.x0 = self.origin_in_pixels[0] + self.size_in_pixels[0]",
              "            matrix.x0 = self.size_in_pixels[0] - self.origin_in_pixels[0]")],
      demo='''
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render import RenderSettings
c = GerberCairoContext(100)
c.set_bounds(((2.0, 3.0), (0.0, 1.0)))
c.new_render_layer(mirror=True)
x, y = c.ctx.get_matrix().transform_point(200.0, 0.0)
assert abs(x - 100.0) < 1e-9, x
'''),
 dict(id='p20-circle-hole', prop='P20', needs='a circle with a rectangular hole which is not square',
      breaks='rectangular holes of circles are drawn with width and height exchanged',
      edits=[('gerber/render/cairo_backend.py', "self.scale_point((circle.hole_width, circle.hole_height))", "self.scale_point((circle.hole_height, circle.hole_width))")],
      demo='''
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render import RenderSettings
from gerber.layers import PCBLayer
from gerber import rs274x
import io, cairocffi as cairo
f = rs274x.loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,1.0X0.6X0.1*%\\nD10*\\nX-5000Y-5000D02*\\nX5000Y5000D02*\\nX0Y0D03*\\nM02*\\n')
c = GerberCairoContext(100)
c.render_layer(PCBLayer('a', 'top', f), settings=RenderSettings((1.0, 1.0, 1.0)), bgsettings=RenderSettings((0.0, 0.0, 0.0)))
s = cairo.ImageSurface.create_from_png(io.BytesIO(c.dump_str()))
d, st = bytes(s.get_data()), s.get_stride()
def px(x, y): return d[y * st + x * 4]
assert px(50 + 20, 50) < 128 and px(50, 50 + 20) > 128, (px(70, 50), px(50, 70))
'''),
 dict(id='p22-late', prop='P22', needs='an invalid zeros setting assigned by key and caught',
      breaks='an invalid zeros value is rejected after it was stored',
      edits=[('gerber/cam.py', "        elif key == 'zeros':\n            if value not in ['leading', 'trailing']:\n                raise ValueError('Zeros must be either leading or trailling')\n            self.zeros = value\n",
              "        elif key == 'zeros':\n            self.zeros = value\n            if value not in ['leading', 'trailing']:\n                raise ValueError('Zeros must be either leading or trailling')\n")],
      demo='''
from gerber.cam import FileSettings
s = FileSettings(zeros='leading')
try:
    s['zeros'] = 'none'
except ValueError:
    pass
assert s.zeros == 'leading', s.zeros
'''),
 dict(id='p23-g85-pos', prop='P23', needs='a G85 slot followed by a hole or a slot which shares one coordinate with its end or start',
      breaks='the writer takes the tool to be still where it was before a G85 slot',
      edits=[('gerber/render/excellon_backend.py', "            # Slots don't use simplified points\n            self._pos = slot.end\n", "            # Slots don't use simplified points\n")],
      demo=X + '''
import io
from gerber.render.excellon_backend import ExcellonContext
from gerber.excellon import DrillHit, DrillSlot
from gerber.excellon_statements import ExcellonTool
from gerber.primitives import Drill, Slot
s = FileSettings(format=(2, 4), zeros='leading')
t = ExcellonTool(s, number=1, diameter=0.03)
c = ExcellonContext(s)
for h in (DrillHit(t, (1.0, 1.0)), DrillSlot(t, (2.0, 2.0), (3.0, 3.0), DrillSlot.TYPE_G85), DrillHit(t, (1.0, 2.0))):
    c.render(Drill(h.position, 0.03, hit=h) if isinstance(h, DrillHit) else Slot(h.start, h.end, 0.03, hit=h))
text = '\\n'.join(x.to_excellon(s) for x in c.statements) + '\\n'
f = excellon.loads(text, settings=s)
assert tuple(f.hits[-1].position) == (1.0, 2.0), text
'''),
 dict(id='p24-theme', prop='P24', needs='a theme which is not the default one and a file of a class both themes know',
      breaks='gerber-render ignores the theme for single files',
      edits=[('gerber/__main__.py', "            renderer.render_layer(layer, settings=settings)", "            renderer.render_layer(layer, settings=settings if len(layers) > 1 else None)")],
      demo='''
import os, sys, tempfile, shutil
from unittest import mock
import gerber.__main__ as m
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'board.gtl')
    with open(p, 'w') as f:
        f.write('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D02*\\nX4000Y1000D01*\\nM02*\\n')
    out = []
    for t in ('default', 'Transparent Copper'):
        sys.argv = ['gerber-render', '-t', t, '-o', os.path.join(d, 'o'), p]
        m.main()
        out.append(open(os.path.join(d, 'o.png'), 'rb').read())
    assert out[0] != out[1]
finally:
    shutil.rmtree(d)
'''),

 dict(id='p03-notation', prop='P03', needs='a file with incremental coordinates, read, written and read again',
      breaks='the format specification of a written file always says absolute coordinates',
      edits=[('gerber/gerber_statements.py', "            notation = 'A' if settings.notation == 'absolute' else 'I'\n            fmt = ''.join(map(str, settings.format))",
              "            notation = 'A'\n            fmt = ''.join(map(str, settings.format))")],
      demo=G + '''
import tempfile, os, shutil
f = rs274x.loads(prog('%ADD10C,0.01*%D10*X10000Y0D03*X10000Y0D03*', fs='%FSLIX24Y24*%'))
d = tempfile.mkdtemp()
try:
    f.write(os.path.join(d, 'o.gbr'))
    g = rs274x.read(os.path.join(d, 'o.gbr'))
finally:
    shutil.rmtree(d)
assert tuple(g.primitives[1].position) == tuple(f.primitives[1].position) == (2.0, 0.0), g.primitives[1].position
'''),
 dict(id='p18-blind', prop='P18', needs='a board with drills which do not reach the top side',
      breaks='the top view has the drills of the bottom side as well',
      edits=[('gerber/pcb.py', "        drill_layers = [l for l in self.drill_layers if 'top' in l.layers]\n", "        drill_layers = self.drill_layers\n")],
      demo='''
from gerber.pcb import PCB
from gerber.layers import DrillLayer
b = PCB([DrillLayer('a', None, ['bottom'])])
assert b.top_layers == [], b.top_layers
'''),

 dict(id='p10-seven', prop='P10', needs='a polygon with seven or eleven corners',
      breaks='corners of polygons whose number does not divide 360 are not spaced evenly',
      edits=[(P, "        delta_angle = 360.0 / self.sides\n", "        delta_angle = 360 // self.sides\n")],
      demo='''
import math
from gerber.primitives import Polygon
v = Polygon((0, 0), 7, 1.0).vertices
d = [math.hypot(v[i][0] - v[i - 1][0], v[i][1] - v[i - 1][1]) for i in range(7)]
assert max(d) - min(d) < 1e-9, d
'''),

 dict(id='p16-conductor', prop='P16', needs='a conductor with several shapes, the second of which starts with only one coordinate',
      breaks='the coordinates of a conductor shape carry over from the shape before it',
      edits=[('gerber/ipc356.py', "        for rshape in raw_shapes:\n            x = 0\n            y = 0\n            shape = []\n", "        for rshape in raw_shapes:\n            shape = []\n")],
      demo='''
from gerber import ipc356
f = ipc356.loads('P  UNITS CUST 0\\n378NET1           L01 X0150 X10000Y20000 X30000* Y10000 X20000\\n999\\n')
c = [s for s in f.statements if isinstance(s, ipc356.IPC356_Conductor)][0]
assert c.shapes[1][0] == (0.0, 1.0), c.shapes
'''),
 dict(id='p16-adjacent', prop='P16', needs='an adjacency record of another net which names the net',
      breaks='adjacency is only recorded for the net the record is about',
      edits=[('gerber/ipc356.py', "                elif net in record.adjacent_nets:\n                    adjacent_nets.add(record.net)\n", "")],
      demo='''
from gerber import ipc356
def rec(net): return '317' + net.ljust(14) + '   ' + 'C1    ' + '-' + '1   ' + ' ' + 'D0300' + 'P' + 'A00' + 'X+012345Y+001234'
f = ipc356.loads('P  UNITS CUST 0\\n' + rec('NET1') + '\\n' + rec('NET2') + '\\n379NET1 NET2\\n999\\n')
d = dict((n.name, n.adjacent_nets) for n in f.nets)
assert d['NET2'] == set(['NET1']), d
'''),

 dict(id='p17-name', prop='P17', needs='a netlist read from a path by the generic reader',
      breaks='netlists read by the generic reader do not know the name of their file',
      edits=[('gerber/common.py', "return ipc356.loads(data, filename=filename)", "return ipc356.loads(data)")],
      demo='''
from gerber import common
f = common.loads('P  JOB  x\\nP  UNITS CUST 0\\n999\\n', 'a.ipc')
assert f.filename == 'a.ipc', f.filename
'''),
 dict(id='p06-include-count', prop='P06', needs='a file with more than ten include commands, none of them nested',
      breaks='include files count as nested in each other',
      edits=[('gerber/rs274x.py', "                                yield stmt\n                            self._recursion_depth -= 1\n", "                                yield stmt\n")],
      demo='''
import os, tempfile, shutil
from gerber import rs274x
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'i.gbr'), 'w') as h:
        h.write('X10Y10D03*\\n')
    with open(os.path.join(d, 'a.gbr'), 'w') as h:
        h.write('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,1.0*%\\nD10*\\n' + '%IFi.gbr*%\\n' * 12 + 'M02*\\n')
    n = len(rs274x.read(os.path.join(d, 'a.gbr')).primitives)
finally:
    shutil.rmtree(d)
assert n == 12, n
'''),
 dict(id='p19-arc-func', prop='P19', needs='two arcs of the same direction written one after the other with a move between them',
      breaks='the direction of an arc is left out when it is that of the arc before, even after a move which wrote G01',
      edits=[('gerber/render/rs274x_backend.py', "        dir = arc.direction\n        if dir == 'clockwise':\n            func = CoordStmt.FUNC_ARC_CW\n            self._func = CoordStmt.FUNC_ARC_CW\n        elif dir == 'counterclockwise':\n            func = CoordStmt.FUNC_ARC_CCW\n            self._func = CoordStmt.FUNC_ARC_CCW\n",
              "        dir = arc.direction\n        if dir == 'clockwise':\n            func = CoordStmt.FUNC_ARC_CW if self._func != CoordStmt.FUNC_ARC_CW else None\n            self._func = CoordStmt.FUNC_ARC_CW\n        elif dir == 'counterclockwise':\n            func = CoordStmt.FUNC_ARC_CCW if self._func != CoordStmt.FUNC_ARC_CCW else None\n            self._func = CoordStmt.FUNC_ARC_CCW\n")],
      demo='''
from gerber.render.rs274x_backend import Rs274xContext
from gerber.cam import FileSettings
from gerber.primitives import Arc, Circle
from gerber import rs274x
c = Rs274xContext(FileSettings(units='inch', format=(2, 5), zero_suppression='leading'))
for x in (0.0, 5.0):
    c.render(Arc((x + 1, 0.0), (x, 1.0), (x, 0.0), 'counterclockwise', Circle((0, 0), 0.1), 'multi-quadrant', level_polarity='dark'))
f = rs274x.loads(c.dump().getvalue())
assert [type(p).__name__ for p in f.primitives] == ['Arc', 'Arc'], f.primitives
'''),
]
