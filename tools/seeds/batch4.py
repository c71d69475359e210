G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
def write(f):
    import tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        f.write(d + '/x')
        return open(d + '/x').read()
    finally:
        shutil.rmtree(d)
'''
X = '''
from gerber import excellon
from gerber.cam import FileSettings
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
def load(*lines):
    return excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\nT02C0.03\\n%\\n' + '\\n'.join(lines) + '\\nM30\\n', settings=S)
'''
R = 'gerber/rs274x.py'
S = 'gerber/gerber_statements.py'
E = 'gerber/excellon.py'
T = 'gerber/excellon_statements.py'
I = 'gerber/ipc356.py'
C = 'gerber/render/cairo_backend.py'
L = 'gerber/excellon_tool.py'
Z = 'gerber/excellon_settings.py'
P = 'gerber/primitives.py'
U = 'gerber/utils.py'
A = 'gerber/am_statements.py'
Y = 'gerber/layers.py'
RB = 'gerber/render/rs274x_backend.py'
EB = 'gerber/render/excellon_backend.py'
M = 'gerber/cam.py'
SEEDS = [
 dict(id='p29-known', prop='P29', needs='a tool stated with its plating in the header and again in a comment table that says otherwise',
      breaks='a comment table overrides the plating a tool has from the header',
      edits=[(E, "        if existing and existing.plated == None:\n", "        if existing:\n")],
      demo='''
from gerber import excellon
from gerber.cam import FileSettings
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
f = excellon.loads('M48\\nINCH,TZ\\n;TYPE=PLATED\\nT1C0.02\\n; Holesize 1. = 20.0 Tolerance = +0.0/-0.0 NON_PLATED MILS Quantity = 1\\n%\\nT1\\nX010000Y010000\\nM30\\n', settings=S)
assert f.tools[1].plated == 'plated', f.tools[1].plated
'''),
 dict(id='p29-merge', prop='P29', needs='tools supplied for a program which states the plating of the same tools itself',
      breaks='supplied tools override the plating the program states',
      edits=[(E, "            if ext_tool:\n                tool.plated = ext_tool.plated\n", "        ext_tool = self.ext_tools.get(tool.number)\n        if ext_tool and ext_tool.plated:\n            tool.plated = ext_tool.plated\n")],
      demo='''
from gerber import excellon
from gerber.cam import FileSettings
from gerber.excellon_statements import ExcellonTool
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
t = {1: ExcellonTool(None, number=1, diameter=0.02, plated='nonplated')}
f = excellon.loads('M48\\nINCH,TZ\\n;TYPE=PLATED\\nT1C0.02\\n%\\nT1\\nX010000Y010000\\nM30\\n', settings=S, tools=t)
assert f.tools[1].plated == 'plated', f.tools[1].plated
'''),
 dict(id='p29-report', prop='P29', needs='a tool report with ruled lines between its tools',
      breaks='a ruled line ends the table of a tool report',
      edits=[(L, "        elif  line[0] != '=':\n", "        elif line[0] == '=':\n            # The end of the table\n            self.found_header = False\n\n        else:\n")],
      demo='''
from gerber import excellon_tool
from gerber.cam import FileSettings
t = excellon_tool.loads_rep('\\n==== ====  ==== ==== ===== ===\\n 1    28.0   x   201  117   6\\n==== ====  ==== ==== ===== ===\\n 2    30.0   -   201  117   6\\n 3    30.0   -   201  117   6\\n', FileSettings())
assert sorted(t) == [1, 2, 3], sorted(t)
'''),
 dict(id='p29-optional', prop='P29', needs='a tool whose plating is optional',
      breaks='holes which may be plated or not count as of unknown plating',
      edits=[(L, "                elif platedstr == 'OPTIONAL':\n                    plated = ExcellonTool.PLATED_OPTIONAL\n", "                elif platedstr == 'OPT':\n                    plated = ExcellonTool.PLATED_OPTIONAL\n")],
      demo='''
from gerber import excellon_tool
from gerber.cam import FileSettings
t = excellon_tool.loads('Holesize 1. = 20.0 Tolerance = +0.0/-0.0 OPTIONAL MILS Quantity = 1\\n', FileSettings())
assert t[1].plated == 'optional', t[1].plated
'''),
 dict(id='p29-order', prop='P29', needs='a settings file that states the decimal places before the integer places',
      breaks='the places of the format are taken in the order a settings file states them',
      edits=[(Z, "              'INTEGER-PLACES': (int, 'format-int'),\n              'DECIMAL-PLACES': (int, 'format-dec'),\n", "              'INTEGER-PLACES': (int, 'format'),\n              'DECIMAL-PLACES': (int, 'format'),\n"),
             (Z, "format=(self.values['format-int'], self.values['format-dec'])\n", "format=tuple(self.places)\n"),
             (Z, "        self.values = {}\n", "        self.values = {}\n        self.places = []\n"),
             (Z, "                item_value = item_type_info[0](line_items[1])\n", "                item_value = item_type_info[0](line_items[1])\n                if item_type_info[1] == 'format':\n                    self.places.append(item_value)\n")],
      demo='''
from gerber import excellon_settings
s = excellon_settings.loads('DECIMAL-PLACES 4\\nINTEGER-PLACES 2\\nCOORDINATES ABSOLUTE\\nOUTPUT-UNITS ENGLISH\\n')
assert s.format == (2, 4), s.format
'''),
 dict(id='p16-location', prop='P16', needs='a netlist with an abbreviated net name, read before one which uses the same name without defining it',
      breaks='the nets of all netlists are collected in one dictionary',
      edits=[(I, "    def __init__(self):\n        self.units = 'inch'\n        self.angle_units = 'degrees'\n        self.statements = []\n        self.nnames = {}\n",
              "    nnames = {}\n\n    def __init__(self):\n        self.units = 'inch'\n        self.angle_units = 'degrees'\n        self.statements = []\n")],
      demo='''
from gerber import ipc356
ipc356.loads('P  JOB x\\nP  NNAME1 A_LONG_NAME_OF_A_NET\\n999\\n')
r = ipc356.loads('P  JOB x\\nP  UNITS CUST 0\\n317NNAME1           VIA   -     D0150PA00X+006647Y+012900X0280Y0000R000 S3\\n999\\n')
t = [s for s in r.statements if type(s).__name__ == 'IPC356_TestRecord'][0]
assert t.net_name == 'NNAME1', t.net_name
'''),
 dict(id='p08-zero', prop='P08', needs='a drill file moved along an axis on which one of its holes is at zero',
      breaks='a coordinate of zero is taken as not stated when a drill file is moved',
      edits=[(T, "    def offset(self, x_offset=0, y_offset=0):\n        if self.x is not None:\n            self.x += x_offset\n        if self.y is not None:\n            self.y += y_offset\n\n    def __str__(self):\n        coord_str = ''\n        if self.x is not None:\n            coord_str += 'X: %g ' % self.x\n        if self.y is not None:\n            coord_str += 'Y: %g ' % self.y\n\n        return '<Coordinate",
              "    def offset(self, x_offset=0, y_offset=0):\n        if self.x:\n            self.x += x_offset\n        if self.y:\n            self.y += y_offset\n\n    def __str__(self):\n        coord_str = ''\n        if self.x is not None:\n            coord_str += 'X: %g ' % self.x\n        if self.y is not None:\n            coord_str += 'Y: %g ' % self.y\n\n        return '<Coordinate")],
      demo=X + '''
f = load('T01', 'X0Y010000')
f.offset(1, 1)
c = [s for s in f.statements if type(s).__name__ == 'CoordinateStmt'][0]
assert abs(c.x - 1) < 1e-9, c.x
'''),
 dict(id='p09-none', prop='P09', needs='an offset of zero in both directions whose result is then changed',
      breaks='an offset of nothing returns the file itself',
      edits=[('gerber/operations.py', "    cam_file = copy.deepcopy(cam_file)\n    cam_file.offset(x_offset, y_offset)\n", "    if x_offset or y_offset:\n        cam_file = copy.deepcopy(cam_file)\n        cam_file.offset(x_offset, y_offset)\n")],
      demo=G + '''
from gerber import operations
f = rs274x.loads(prog('%ADD10C,0.1*%D10*X0Y0D03*'))
g = operations.offset(f, 0, 0)
g.to_metric()
assert f.units == 'inch', f.units
'''),
 dict(id='p14-slot-box', prop='P14', needs='a slot which is cut towards lower Y',
      breaks='the box of a slot is that of its start and end in the order they are cut',
      edits=[(E, "        max_y = max(start[1], end[1]) + radius\n        return ((min_x, max_x), (min_y, max_y))\n\n    def offset(self, x_offset=0, y_offset=0):\n        self.start",
              "        max_y = max(start[1], end[0]) + radius\n        return ((min_x, max_x), (min_y, max_y))\n\n    def offset(self, x_offset=0, y_offset=0):\n        self.start")],
      demo=X + '''
f = load('T01', 'X010000Y010000G85X010000Y030000')
assert abs(f.hits[0].bounding_box[1][1] - 3.01) < 1e-9, f.hits[0].bounding_box
'''),
 dict(id='p14-update', prop='P14', needs='update_tool with a value of zero',
      breaks='update_tool takes a depth offset of zero as not given',
      edits=[(E, "        if kwargs.get('depth_offset') is not None:\n", "        if kwargs.get('depth_offset'):\n")],
      demo=X + '''
f = excellon.loads('M48\\nINCH,TZ\\nT01C0.02Z0.1\\n%\\nT01\\nX010000Y010000\\nM30\\n', settings=S)
f.update_tool(1, depth_offset=0.0)
assert f.tools[1].depth_offset == 0.0, f.tools[1].depth_offset
'''),
 dict(id='p15-bail', prop='P15', needs='a file which states its format in a comment, and which cannot be read in all candidate zero modes',
      breaks='a format given in a comment is only one of the candidates',
      edits=[(E, "        format_options = (detected_format,)\n", "        format_options += (detected_format,)\n")],
      demo='''
from gerber.excellon import detect_excellon_format
d = 'M48\\n;FILE_FORMAT=4:4\\nT1C0.02\\n%\\nT1\\nX00123456Y00123456\\nX00223456Y00323456\\nX00423456Y00223456\\nM30\\n'
assert detect_excellon_format(d)['format'] == (4, 4), detect_excellon_format(d)
'''),
 dict(id='p19-rect-key', prop='P19', needs='two rectangles with the same size and different heights of their rectangular holes',
      breaks='rectangle apertures which differ only in the height of their hole are merged',
      edits=[(RB, "        key = (width, height, hole_diameter, hole_width, hole_height)\n        aper = self._rects.get(key, None)\n", "        key = (width, height, hole_diameter, hole_width)\n        aper = self._rects.get(key, None)\n"),
             (RB, "            self._rects[(width, height, hole_diameter, hole_width, hole_height)] = aper\n", "            self._rects[key] = aper\n")],
      demo='''
from gerber.cam import FileSettings
from gerber.primitives import Rectangle
from gerber.render.rs274x_backend import Rs274xContext
c = Rs274xContext(FileSettings(format=(2, 4)))
for i, h in enumerate((0.01, 0.02)):
    c.render(Rectangle((i, 0), 0.1, 0.1, hole_width=0.02, hole_height=h))
assert len([s for s in c.header if s.param == 'AD']) == 2
'''),
 dict(id='p19-quadrant', prop='P19', needs='a single quadrant arc between two multi quadrant ones, written from its objects',
      breaks='the writer only keeps track of multi quadrant mode',
      edits=[(RB, "            if arc.quadrant_mode != 'multi-quadrant':\n                self.body.append(QuadrantModeStmt.single())\n            else:\n                self.body.append(QuadrantModeStmt.multi())\n\n            self._quadrant_mode = arc.quadrant_mode\n",
              "            if arc.quadrant_mode != 'multi-quadrant':\n                self.body.append(QuadrantModeStmt.single())\n            else:\n                self.body.append(QuadrantModeStmt.multi())\n                self._quadrant_mode = arc.quadrant_mode\n")],
      demo='''
from gerber.cam import FileSettings
from gerber.primitives import Arc, Circle
from gerber.render.rs274x_backend import Rs274xContext
c = Rs274xContext(FileSettings(format=(2, 4)))
for m in ('multi-quadrant', 'single-quadrant', 'multi-quadrant'):
    c.render(Arc((1, 0), (0, 1), (0, 0), 'counterclockwise', Circle((0, 0), 0.1), m))
assert [s.mode for s in c.body if s.type == 'QuadrantMode'] == ['multi-quadrant', 'single-quadrant', 'multi-quadrant']
'''),
 dict(id='p22-angle', prop='P22', needs='settings which differ only in their angle units',
      breaks='equality of settings ignores the angle units',
      edits=[(M, "                self.format == other.format and\n                self.angle_units == other.angle_units)\n", "                self.format == other.format)\n")],
      demo='''
from gerber.cam import FileSettings
assert not FileSettings(angle_units='radians') == FileSettings(angle_units='degrees')
'''),
 dict(id='p23-down', prop='P23', needs='a rout from another place while the tool is down, after one that ended somewhere else',
      breaks='the tool is not put down again after it was lifted for a move',
      edits=[(EB, "                    self.body.append(RetractWithClampingStmt())\n                    self.drill_down = False\n\n                # Move", "                    self.body.append(RetractWithClampingStmt())\n\n                # Move")],
      demo=X + '''
from gerber.render.excellon_backend import ExcellonContext
f = load('T01', 'G00X010000Y010000', 'M15', 'G01X020000', 'M16', 'G00X030000Y030000', 'M15', 'G01X040000', 'M16')
c = ExcellonContext(f.settings)
for p in f.primitives:
    c.render(p)
g = excellon.loads('\\n'.join(s.to_excellon(f.settings) for s in c.statements) + '\\n', settings=S)
assert len(g.hits) == 2, g.hits
'''),
 dict(id='p23-repeat', prop='P23', needs='routs with different tools that meet in a point',
      breaks='the writer puts the tool down only when it moved first',
      edits=[(EB, "                self.body.append(CoordinateStmt.from_point(point, mode=\"ROUT\"))\n\n            # Now we are in the right spot, so drill down\n            if not self.drill_down:\n                self.body.append(ZAxisRoutPositionStmt())\n                self.drill_down = True\n",
              "                self.body.append(CoordinateStmt.from_point(point, mode=\"ROUT\"))\n\n                # Now we are in the right spot, so drill down\n                self.body.append(ZAxisRoutPositionStmt())\n                self.drill_down = True\n")],
      demo=X + '''
from gerber.render.excellon_backend import ExcellonContext
f = load('T01', 'G00X010000Y010000', 'M15', 'G01X020000', 'M16', 'T02', 'M15', 'G01X040000', 'M16')
c = ExcellonContext(f.settings)
for p in f.primitives:
    c.render(p)
g = excellon.loads('\\n'.join(s.to_excellon(f.settings) for s in c.statements) + '\\n', settings=S)
assert len(g.hits) == 2, g.hits
'''),
 dict(id='p24-copper', prop='P24', needs='a board with inner layers, rendered by the command',
      breaks='the copper view has its layers the other way round',
      edits=[('gerber/__main__.py', "                copper = [outline] + copper + pcb.drill_layers\n", "                copper = [outline] + copper\n")],
      demo='''
import os, shutil, sys, tempfile
from gerber import __main__ as m
d = tempfile.mkdtemp()
try:
    b = d + '/b'
    os.mkdir(b)
    g = '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D02*\\nX10000Y10000D01*\\nM02*\\n'
    for n in ('x.GTL', 'x.GBL', 'x.GKO'):
        with open(b + '/' + n, 'w') as f:
            f.write(g)
    with open(b + '/x.drl', 'w') as f:
        f.write('M48\\nINCH,TZ\\nT01C0.2\\n%\\nT01\\nX005000Y005000\\nM30\\n')
    seen = []
    m.available_renderers['cairo'].render_layers = lambda self, layers, **k: seen.append([l.layer_class for l in layers])
    sys.argv = ['gerber-render', b, '-o', d + '/o']
    m.main()
    assert len(seen) == 3 and 'drill' in seen[2], seen
finally:
    shutil.rmtree(d)
'''),
 dict(id='p16-middle', prop='P16', needs='a test record at the middle of a net, whose component name is too long for its columns',
      breaks='where in its net a record is, is always read from the same column',
      edits=[(I, "        record['location'] = 'middle' if line[31 + offset] == 'M' else 'end'\n", "        record['location'] = 'middle' if line[31] == 'M' else 'end'\n")],
      demo='''
from gerber import ipc356
r = ipc356.loads('P  JOB x\\nP  UNITS CUST 0\\n317GND              COMPONENTHALF-A1  MD0150PA00X+006647Y+012900X0280Y0000R000 S3\\n999\\n')
t = [s for s in r.statements if type(s).__name__ == 'IPC356_TestRecord'][0]
assert t.location == 'middle', (t.location, vars(t))
'''),
 dict(id='p18-name', prop='P18', needs='a board whose drill file has a number after drill in its name',
      breaks='drill files do not give the board its name',
      edits=[('gerber/pcb.py', "if layer.layer_class == 'drill' and 'drill' in ext:\n", "if layer.layer_class == 'drill' and 'drill' == ext:\n")],
      demo='''
import os, shutil, tempfile
from gerber import PCB
d = tempfile.mkdtemp()
try:
    with open(d + '/board.top.gbr', 'w') as f:
        f.write('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nM02*\\n')
    with open(d + '/board.drill_1.txt', 'w') as f:
        f.write('M48\\nINCH,TZ\\nT01C0.2\\n%\\nT01\\nX005000Y005000\\nM30\\n')
    assert PCB.from_directory(d).name == 'board', PCB.from_directory(d).name
finally:
    shutil.rmtree(d)
'''),
 dict(id='p18-hidden', prop='P18', needs='a board folder with a file whose name starts with an underscore or a thumbnail database',
      breaks='only hidden files are skipped in folders',
      edits=[(U, "        files = [f for f in files if not f in os_files]\n", "        files = [f for f in files if not f.endswith('.db') and not f.startswith(os_files)]\n")],
      demo='''
import shutil, tempfile
from gerber import PCB
d = tempfile.mkdtemp()
try:
    for n in ('x.GTL', 'x.db'):
        with open(d + '/' + n, 'w') as f:
            f.write('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nM02*\\n')
    assert len(PCB.from_directory(d).layers) == 2
finally:
    shutil.rmtree(d)
'''),
 dict(id='p10-line', prop='P10', needs='the box without aperture of a line that goes down',
      breaks='the box of a line without its aperture has its limits the wrong way round',
      edits=[(P, "        min_y = min(self.start[1], self.end[1])\n        max_y = max(self.start[1], self.end[1])\n        return ((min_x, max_x), (min_y, max_y))\n\n    @property\n    def vertices",
              "        min_y, max_y = self.start[1], self.end[1]\n        return ((min_x, max_x), (min_y, max_y))\n\n    @property\n    def vertices")],
      demo='''
from gerber.primitives import Line, Circle
b = Line((0, 1), (1, 0), Circle((0, 0), 0.2)).bounding_box_no_aperture
assert b == ((0, 1), (0, 1)), b
'''),
 dict(id='p13-rate', prop='P13', needs='a tool with a maximum hit count of zero',
      breaks='a maximum hit count of zero is not written',
      edits=[(T, "        if self.max_hit_count is not None:\n            stmt += 'H", "        if self.max_hit_count:\n            stmt += 'H")],
      demo=X + '''
f = excellon.loads('M48\\nINCH,TZ\\nT01H0C0.02\\n%\\nT01\\nX010000Y010000\\nM30\\n', settings=S)
t = f.tools[1].to_excellon(f.settings)
assert 'H0' in t, t
'''),
]
