G = '''
from gerber import rs274x
def prog(body, fs='%FSLAX24Y24*%', mo='%MOIN*%'):
    return fs + '\\n' + mo + '\\n' + body + '\\nM02*\\n'
def write(f):
    import tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        f.write(d + '/x')
        return open(d + '/x').read()
    finally:
        shutil.rmtree(d)
'''
X = '''
from gerber import excellon
from gerber.cam import FileSettings
S = FileSettings(units='inch', format=(2, 4), zeros='trailing')
def load(*lines):
    return excellon.loads('M48\\nINCH,TZ\\nT01C0.02\\nT02C0.03\\n%\\n' + '\\n'.join(lines) + '\\nM30\\n', settings=S)
'''
R = 'gerber/rs274x.py'
S = 'gerber/gerber_statements.py'
E = 'gerber/excellon.py'
T = 'gerber/excellon_statements.py'
I = 'gerber/ipc356.py'
C = 'gerber/render/cairo_backend.py'
L = 'gerber/excellon_tool.py'
Z = 'gerber/excellon_settings.py'
P = 'gerber/primitives.py'
U = 'gerber/utils.py'
A = 'gerber/am_statements.py'
Y = 'gerber/layers.py'
RB = 'gerber/render/rs274x_backend.py'
EB = 'gerber/render/excellon_backend.py'
M = 'gerber/cam.py'
N = 'gerber/am_eval.py'
Q = 'gerber/am_read.py'
W = 'gerber/__main__.py'


INC = """
import os, shutil, tempfile
import gerber
FLASH = {'': ''}
def read(files, name='main.gbr'):
    d = tempfile.mkdtemp()
    try:
        for n, t in files.items():
            p = os.path.join(d, n)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, 'w') as f:
                f.write(t)
        return gerber.read(os.path.join(d, name))
    finally:
        shutil.rmtree(d)
"""
SEEDS = [
 dict(id='p02-inplace', prop='P02', needs='an aperture code that is given a new size after objects were drawn with the old one',
      breaks='the objects drawn before take the new size',
      edits=[(R, "        aperture.units = self.settings.units\n        self.apertures[d] = aperture\n",
                 "        aperture.units = self.settings.units\n        known = self.apertures.get(d)\n        if type(known) is type(aperture) and not hasattr(known, 'primitives'):\n            # Lines refer to their aperture, keep them on the current one\n            known.__dict__.update(aperture.__dict__)\n        else:\n            self.apertures[d] = aperture\n")],
      demo=G + """
f = rs274x.loads(prog('%ADD10C,0.1*%\\nD10*\\nX0Y0D02*\\nX10000D01*\\n%ADD10C,0.2*%\\nD10*\\nX0Y10000D02*\\nX10000D01*'))
assert [p.aperture.diameter for p in f.primitives] == [0.1, 0.2], [p.aperture.diameter for p in f.primitives]
"""),
 dict(id='p02-case', prop='P02', needs='two aperture macros whose names differ in case only, both defined before the apertures that use them',
      breaks='the later macro takes the place of the earlier one',
      edits=[(R, "            self.macros[stmt.name] = stmt\n", "            self.macros[stmt.name.upper()] = stmt\n"),
             (R, "            aperture = self.macros[shape].build(modifiers)\n", "            aperture = self.macros[shape.upper()].build(modifiers)\n")],
      demo=G + """
f = rs274x.loads(prog('%AMPad*1,1,0.1,0,0*%\\n%AMPAD*1,1,0.3,0,0*%\\n%ADD10Pad*%\\n%ADD11PAD*%\\nD10*\\nX0Y0D03*\\nD11*\\nX10000Y0D03*'))
got = [p.primitives[0].diameter for p in f.primitives]
assert got == [0.1, 0.3], got
"""),
 dict(id='p06-once', prop='P06', needs='a file that is included twice with something else changed in between',
      breaks='the second inclusion of a file is left out',
      edits=[(R, "                                inc_data = f.read()\n", "                                inc_data = '' if f.name in self.__dict__.setdefault('_included', set()) else f.read()\n                                self._included.add(f.name)\n")],
      demo=INC + """
f = read({'main.gbr': '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\n%ADD11C,0.2*%\\nD10*\\n%IFpart.gbr*%\\nD11*\\n%IFpart.gbr*%\\nM02*\\n',
          'part.gbr': 'X10000Y10000D03*\\n'})
got = [p.diameter for p in f.primitives]
assert got == [0.1, 0.2], got
"""),
 dict(id='p06-subdir', prop='P06', needs='an included file in a folder below the one of the file',
      breaks='included files are looked for next to the file only',
      edits=[(R, "open(os.path.join(os.path.dirname(self.filename), param[\"filename\"]), 'r')", "open(os.path.join(os.path.dirname(self.filename), os.path.basename(param[\"filename\"])), 'r')")],
      demo=INC + """
f = read({'main.gbr': '%FSLAX24Y24*%\\n%MOIN*%\\n%ADD10C,0.1*%\\nD10*\\n%IFparts/a.gbr*%\\nM02*\\n',
          'a.gbr': 'X0Y0D03*\\n', 'parts/a.gbr': 'X10000Y10000D03*\\n'})
got = [tuple(p.position) for p in f.primitives]
assert got == [(1.0, 1.0)], got
"""),
 dict(id='p12-g90-rout', prop='P12', needs='a change back to absolute coordinates while routing',
      breaks='coordinates stay incremental when G90 is given with the tool in routing mode',
      edits=[(E, "            self.statements.append(AbsoluteModeStmt())\n            self.notation = 'absolute'", "            self.statements.append(AbsoluteModeStmt())\n            if self.state not in ('ROUT', 'LINEAR'):\n                self.notation = 'absolute'")],
      demo=X + """
f = load('ICI,ON', 'T01', 'G00X10000Y10000', 'M15', 'G01X10000', 'G90', 'G01X15000', 'M16')
got = [(h.start, h.end) for h in f.hits] if hasattr(f.hits[0], 'start') else [p.bounding_box for p in f.primitives]
ends = [tuple(round(v, 6) for v in h.end) for h in f.hits]
assert ends == [(2.0, 1.0), (1.5, 1.0)], ends
"""),
 dict(id='p26-alias', prop='P26', needs='a net name alias that is declared after records that use it',
      breaks='the names of earlier records are replaced once the alias is declared',
      edits=[(I, "        return IPCNetlist(self.statements, self.settings, filename=filename)", "        for record in self.statements:\n            if isinstance(record, IPC356_TestRecord):\n                record.net_name = self.nnames.get(record.net_name, record.net_name)\n        return IPCNetlist(self.statements, self.settings, filename=filename)")],
      demo="""
from gerber import ipc356
head = 'P  UNITS CUST 0\\n'
rec = '327%-14s   %-6s-%-4s      PA01X+000100Y+000100X0100Y0100R000 S0\\n' % ('NNAME1', 'R1', '1')
a = ipc356.loads(head + rec + '999\\n')
b = ipc356.loads(head + rec + 'P  NNAME1 LONG_NET_NAME\\n' + rec + '999\\n')
assert b.test_records[0].net_name == a.test_records[0].net_name, b.test_records[0].net_name
"""),
 dict(id='p19-obround', prop='P19', needs='two obrounds whose widths differ by less than a tenth of a thousandth',
      breaks='the second is written with the aperture of the first',
      edits=[(RB, "        key = (width, height, hole_diameter, hole_width, hole_height)\n        aper = self._obrounds", "        key = (round(width, 4), round(height, 4), hole_diameter, hole_width, hole_height)\n        aper = self._obrounds")],
      demo="""
from gerber.primitives import Obround
from gerber.cam import FileSettings
from gerber import rs274x
from gerber.render.rs274x_backend import Rs274xContext
c = Rs274xContext(FileSettings(units='metric', format=(3, 5), zero_suppression='leading'))
for x, w in ((0, 0.50001), (2, 0.50004)):
    c.render(Obround((x, 0), w, 1.0, units='metric'))
g = rs274x.loads(c.dump().getvalue())
got = [round(p.width, 6) for p in g.primitives]
assert got == [0.50001, 0.50004], got
"""),
]
