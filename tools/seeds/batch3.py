G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
def write(f):
    import tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        f.write(d + '/x')
        return open(d + '/x').read()
    finally:
        shutil.rmtree(d)
'''
X = '''
from gerber import excellon
from gerber.cam import FileSettings
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
def load(*lines):
    return excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\nT02C0.03\\n%\\n' + '\\n'.join(lines) + '\\nM30\\n', settings=S)
'''
R = 'gerber/rs274x.py'
S = 'gerber/gerber_statements.py'
E = 'gerber/excellon.py'
T = 'gerber/excellon_statements.py'
I = 'gerber/ipc356.py'
C = 'gerber/render/cairo_backend.py'
SEEDS = [
 dict(id='p25-comment', prop='P25', needs='a comment with blanks at its ends',
      breaks='comments are trimmed',
      edits=[(S, 'self.comment = comment if comment is not None else ""', 'self.comment = comment.strip() if comment is not None else ""')],
      demo=G + '''
f = rs274x.loads(prog('G04  board one *\\n%ADD10C,0.1*%D10*X0Y0D03*'))
assert f.comments == ['  board one '], f.comments
'''),
 dict(id='p25-offset', prop='P25', needs='an OF command with more decimals than the coordinate format',
      breaks='the offset of OF is written with the decimals of the coordinates',
      edits=[(S, "        ret = '%OF'\n        if self.a is not None:\n            ret += 'A' + decimal_string(self.a, precision=5)\n        if self.b is not None:\n            ret += 'B' + decimal_string(self.b, precision=5)\n",
              "        ret = '%OF'\n        precision = settings.format[1] if settings else 5\n        if self.a is not None:\n            ret += 'A' + decimal_string(self.a, precision=precision)\n        if self.b is not None:\n            ret += 'B' + decimal_string(self.b, precision=precision)\n")],
      demo=G + '''
f = rs274x.loads(prog('%OFA0.12345B0*%%ADD10C,0.1*%D10*X0Y0D03*', fs='%FSLAX23Y23*%'))
assert 'A0.12345' in write(f), write(f)
'''),
 dict(id='p25-deprecated', prop='P25', needs='a G54 aperture selection between others and a file that is written',
      breaks='an aperture selection with G54 is taken for one with a D code of its own',
      edits=[(S, "            return 'G54D{0}*'.format(self.d)", "            return 'G54D{0}*'.format(self.d % 100)")],
      demo=G + '''
f = rs274x.loads(prog('%ADD110C,0.1*%%ADD10C,0.2*%G54D110*X0Y0D03*'))
g = rs274x.loads(write(f))
assert abs(g.primitives[0].diameter - 0.1) < 1e-9, g.primitives[0].diameter
'''),
 dict(id='p26-tail', prop='P26', needs='a file cut off in the middle of its last command',
      breaks='the rest of a file after the last * is taken as a command',
      edits=[(R, "        length = len(data)\n        start = 0\n", "        data = data.rstrip() + '*'\n        length = len(data)\n        start = 0\n")],
      demo=G + '''
f = rs274x.loads('%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\nX0Y0D03*\\nX10000Y1D03')
assert len(f.primitives) == 1, f.primitives
'''),
 dict(id='p26-rout', prop='P26', needs='a rout that is not ended by a retract command, as in a file that was cut off',
      breaks='slots are only added when the tool is retracted',
      edits=[(E, "                self.hits.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_ROUT))\n",
              "                self._routed.append(DrillSlot(self.active_tool, start, end, DrillSlot.TYPE_ROUT))\n"),
             (E, "                    self.hits.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))\n",
              "                    self._routed.append(DrillSlot(self.active_tool, start, tuple(self.pos), DrillSlot.TYPE_ROUT))\n"),
             (E, "            self.statements.append(RetractWithClampingStmt())\n            self.drill_down = False\n",
              "            self.statements.append(RetractWithClampingStmt())\n            self._retract()\n"),
             (E, "            self.statements.append(RetractWithoutClampingStmt())\n            self.drill_down = False\n",
              "            self.statements.append(RetractWithoutClampingStmt())\n            self._retract()\n"),
             (E, "            self.statements.append(DrillModeStmt())\n            self.drill_down = False\n",
              "            self.statements.append(DrillModeStmt())\n            self._retract()\n"),
             (E, "        self.drill_down = False\n        self._previous_line = ''\n",
              "        self.drill_down = False\n        self._routed = []\n        self._previous_line = ''\n"),
             (E, "    def _settings(self):\n", "    def _retract(self):\n        self.drill_down = False\n        self.hits.extend(self._routed)\n        self._routed = []\n\n    def _settings(self):\n")],
      demo=X + '''
f = excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\n%\\nT01\\nG00X010000Y010000\\nM15\\nG01X020000\\n', settings=S)
assert len(f.hits) == 1, f.hits
'''),
 dict(id='p27-macro', prop='P27', needs='two files which use the same macro, one of them converted',
      breaks='macros with the same text are shared between files',
      edits=[(R, "                        stmt = AMParamStmt.from_dict(param)\n", "                        stmt = _read_macro(param['param'], param['name'], param['macro'])\n"),
             (R, "def _match_one(expr, data):\n", "def _read_macro(param, name, macro, known={}):\n    \"\"\" Reading macros is slow, and boards have many files with the same ones\n    \"\"\"\n    if (name, macro) not in known:\n        known[name, macro] = AMParamStmt(param, name, macro)\n    return known[name, macro]\n\n\ndef _match_one(expr, data):\n")],
      demo=G + '''
t = prog('%AMT*1,1,0.5,0,0*%%ADD10T*%D10*X0Y0D03*')
a, b = rs274x.loads(t), rs274x.loads(t)
a.to_metric()
m = [s for s in b.statements if type(s).__name__ == 'AMParamStmt'][0]
assert abs(m.primitives[0].diameter - 0.5) < 1e-9, m.primitives[0].diameter
'''),
 dict(id='p28-comment', prop='P28', needs='a comment which starts with a blank',
      breaks='comments of drill files lose their leading blanks',
      edits=[(T, "        return cls(line.lstrip(';'))", "        return cls(line.lstrip('; '))")],
      demo=X + '''
f = excellon.loads('M48\\n; a comment\\nINCH,TZ\\nT01C0.02\\n%\\nM30\\n', settings=S)
assert f.statements[1].comment == ' a comment', f.statements[1].comment
'''),
 dict(id='p12-g05', prop='P12', needs='drill mode entered with the tool down, and a later rout without putting it down',
      breaks='G05 leaves the tool down',
      edits=[(E, "            self.statements.append(DrillModeStmt())\n            self.drill_down = False\n", "            self.statements.append(DrillModeStmt())\n")],
      demo=X + '''
f = load('T01', 'G00X010000Y010000', 'M15', 'G01X020000', 'G05', 'X010000Y010000', 'G00X030000Y010000', 'G01X040000')
assert len(f.hits) == 2, f.hits
'''),
 dict(id='p12-repeat-x', prop='P12', needs='a repeat with a signed distance in Y only',
      breaks='a plus sign in the Y distance of a repeat is not read',
      edits=[(T, "                           '(?P<ydelta>[+\\-]?\\d*\\.?\\d*)?').match(line)\n        stmt = match.groupdict()\n        count",
              "                           '(?P<ydelta>\\-?\\d*\\.?\\d*)?').match(line)\n        stmt = match.groupdict()\n        count")],
      demo=X + '''
f = load('T01', 'X010000Y010000', 'R2Y+010000')
assert abs(f.hits[-1].position[1] - 3) < 1e-9, f.hits[-1].position
'''),
 dict(id='p16-repeat-unit', prop='P16', needs='a conductor record which states only one coordinate of its aperture',
      breaks='an aperture with one coordinate is taken as round',
      edits=[(I, "        aperture = (x, y)\n", "        aperture = (x, y if y is not None else x)\n")],
      demo='''
from gerber import ipc356
n = ipc356.loads('P  UNITS CUST 0\\n378NET1           L01 X0005 X0Y0 X100Y0\\n999\\n')
c = [s for s in n.statements if type(s).__name__ == 'IPC356_Conductor'][0]
assert c.aperture[1] is None, c.aperture
'''),
 dict(id='p02-implicit', prop='P02', needs='a coordinate without operation code after an aperture selection',
      breaks='selecting an aperture resets the operation which coordinates without one of their own use',
      edits=[(R, "        self.aperture = stmt.d\n", "        self.aperture, self.op = stmt.d, 'D02'\n")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10C,0.1*%%ADD11C,0.2*%D10*X0Y0D03*D11*X10000Y0*'))
assert len(f.primitives) == 2, f.primitives
'''),
 dict(id='p02-poly-hole', prop='P02', needs='a polygon with a rectangular hole whose rotation is left as zero',
      breaks='the rotation of polygons with a rectangular hole is lost',
      edits=[(R, "            if len(modifiers[0]) > 2:\n                rotation = modifiers[0][2]\n", "            if len(modifiers[0]) in (3, 4):\n                rotation = modifiers[0][2]\n")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10P,0.5X5X30X0.1X0.1*%D10*X0Y0D03*'))
assert f.primitives[0].rotation == 30, f.primitives[0].rotation
'''),
 dict(id='p02-center-cw', prop='P02', needs='a clockwise single quadrant arc that crosses the positive x axis',
      breaks='the sweep of clockwise arcs is only normalized when it is negative',
      edits=[(R, "                    theta0 += two_pi\n                    sweep_angle = abs(theta0 - theta1) % two_pi\n", "                    sweep_angle = abs(theta0 - theta1) % two_pi\n")],
      demo=G + '''
f = rs274x.loads(prog('%ADD10C,0.01*%D10*G74*X7071Y7071D02*G02*X7071Y-7071I7071J7071D01*'))
assert f.primitives[0].center is not None and abs(f.primitives[0].center[0]) < 1e-6, f.primitives[0].center
'''),
 dict(id='p27-settings', prop='P27', needs='a file that does not state its units, read after one in millimetres',
      breaks='all Gerber files start from one settings object',
      edits=[(R, "        self.settings = FileSettings()\n        self.statements = []\n", "        self.settings = self.DEFAULTS\n        self.statements = []\n"),
             (R, "    INCLUDE_FILE_RECURSION_LIMIT = 10\n", "    INCLUDE_FILE_RECURSION_LIMIT = 10\n\n    DEFAULTS = FileSettings()\n")],
      demo=G + '''
t = prog('%ADD10C,0.1*%D10*X0Y0D03*', mo='')
a = rs274x.loads(t)
b = rs274x.loads(prog('%ADD10C,0.1*%D10*X0Y0D03*', fs='%FSLAX33Y33*%', mo='%MOMM*%'))
c = rs274x.loads(t)
assert a.units == c.units, (a.units, c.units)
'''),
 dict(id='p20-alpha', prop='P20', needs='a layer with an alpha of zero',
      breaks='an alpha of zero is taken as not given',
      edits=[(C, "        alpha = alpha if alpha is not None else self.alpha\n", "        alpha = alpha or self.alpha\n")],
      demo='''
import io
from gerber import rs274x
from gerber.layers import PCBLayer
from gerber.render.cairo_backend import GerberCairoContext
from gerber.render.theme import RenderSettings
import cairocffi as cairo
f = rs274x.loads('%FSLAX24Y24*%%MOIN*%%ADD10C,0.5*%D10*X5000Y5000D03*M02*')
def pixels(alpha):
    c = GerberCairoContext(scale=50)
    c.render_layer(PCBLayer('a.gtl', 'top', f), settings=RenderSettings((1.0, 0, 0), alpha), bgsettings=RenderSettings((0, 0, 1.0)), bounds=((0, 1), (0, 1)))
    s = cairo.ImageSurface.create_from_png(io.BytesIO(c.dump_str()))
    d = bytes(s.get_data())
    return set(d[i:i + 3] for i in range(0, len(d), 4))
assert len(pixels(1.0)) > 1
assert len(pixels(0.0)) == 1, 'seen'
'''),
 dict(id='p28-slot-end', prop='P28', needs='a G85 slot that states one coordinate for its end, in a file that is converted',
      breaks='the end of a slot statement is converted only if both of its coordinates are stated',
      edits=[(T, "                self.y_start = metric(self.y_start)\n            if self.x_end is not None:\n                self.x_end = metric(self.x_end)\n            if self.y_end is not None:\n                self.y_end = metric(self.y_end)\n",
              "                self.y_start = metric(self.y_start)\n            if self.x_end is not None and self.y_end is not None:\n                self.x_end = metric(self.x_end)\n                self.y_end = metric(self.y_end)\n")],
      demo='''
from gerber import excellon
from gerber.cam import FileSettings
f = excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\n%\\nT01\\nICI,ON\\nX010000Y010000G85X010000\\nM30\\n', settings=FileSettings(units='inch', format=(2, 4), zeros='trailing'))
f.to_metric()
s = [s for s in f.statements if type(s).__name__ == 'SlotStmt'][0]
assert abs(s.x_end - 25.4) < 1e-9, s.x_end
'''),
 dict(id='p28-repeat', prop='P28', needs='repeated holes with a distance in one direction, in a file that is converted',
      breaks='the distances of repeated holes are converted only if both are stated',
      edits=[(T, "            if self.xdelta is not None:\n                self.xdelta = metric(self.xdelta)\n            if self.ydelta is not None:\n                self.ydelta = metric(self.ydelta)\n",
              "            if self.xdelta is not None and self.ydelta is not None:\n                self.xdelta, self.ydelta = metric(self.xdelta), metric(self.ydelta)\n")],
      demo=X + '''
f = load('T01', 'X010000Y010000', 'R2X010000')
f.to_metric()
s = [s for s in f.statements if type(s).__name__ == 'RepeatHoleStmt'][0]
assert abs(s.xdelta - 25.4) < 1e-9, s.xdelta
'''),
]
