"""P17: every supported file is recognised, anything else is rejected cleanly."""
import os
import shutil
from engine import Violation
from dmodel import DGen
from gmodel import to_text
from checks.p03 import gen as gen_file
from checks.p09 import observe
from checks.p13 import scratch
from checks.p16 import Net
from checks import p16
from prims import compare
from gerber import common, rs274x, excellon, ipc356
from gerber.exceptions import ParseError
from gerber.utils import detect_file_format

TECHNIQUE = 'generated files of the three formats under generated names and preambles, and arbitrary text, against the reader of their format'
BUDGET = {'quick': 150, 'thorough': 600}
NOTE = 'No counterexample among the generated files and texts counted in the evidence.'
RULE = ('a case is one generated Gerber, Excellon or IPC-D-356 file behind a generated preamble under a generated name '
        '(units gerber, excellon, ipc), or a text without any of the markers (unit other); non-trivial = a preamble '
        'mentioning the marker of another format, or a text of at least three lines')
ASSUMPTIONS = ['a supported file has its format\'s marker: %FS, M48 starting a line, or a P JOB line',
               'foreign markers in a preamble are in comments, names or attributes']

NAMES = ['board.gbr', 'x.drl', 'x.ipc', 'netlist.txt', 'TOP.GTL', 'a', 'M48', '%FS.x', 'P JOB', 'drill.xln', 'noext.', '.hidden', 'b.py']


def eol(d):
    return d.weighted([(5, '\n'), (2, '\r\n')])


def preamble(d, lines, filler):
    """some of the lines, sometimes with many comments in between"""
    pre = [d.choice(lines) for _ in range(d.integer(0, 3))]
    if d.boolean(0.1):
        d.label('long preamble')
        n = d.choice([d.integer(5, 30), d.integer(30, 300)])
        pre[d.integer(0, len(pre)):0] = [filler % i for i in range(n)]
    elif d.boolean(0.05):
        d.label('long line')
        pre.append(filler.replace('%d', 'x' * d.integer(200, 5000)))
    return pre


def through_path(d, name, text, fn):
    folder = scratch('p17d')
    os.mkdir(folder)
    try:
        path = os.path.join(folder, name)
        with open(path, 'w', newline='') as h:
            h.write(text)
        before = open(path, 'rb').read()
        r = fn(path)
        if os.listdir(folder) != [name] or open(path, 'rb').read() != before:
            raise Violation('reading %r left %r' % (name, os.listdir(folder)))
        return r
    finally:
        shutil.rmtree(folder)


def recognised(d, text, kind, module, cls, look):
    fmt = detect_file_format(text)
    if fmt != kind:
        raise Violation('recognised as %s' % fmt)
    name = d.choice(NAMES)
    f = common.loads(text)
    if type(f).__name__ != cls:
        raise Violation('loads returned a %s' % type(f).__name__)
    want = look(module.loads(text))
    g = common.loads(text, 'some/' + name)
    if g.filename != 'some/' + name:
        raise Violation('loads set the file name to %r' % g.filename)
    p = through_path(d, name, text, common.read)
    if not p.filename.endswith(name):
        raise Violation('read set the file name to %r' % p.filename)
    q = through_path(d, name, text, module.read)
    for what, x in (('loads', f), ('loads with a name', g), ('read', p), ('the reader of the format', q)):
        got = look(x)
        for k in sorted(set(got) | set(want)):
            r = compare(got.get(k), want.get(k))
            if r and k != 'filename':
                raise Violation('%s differs from the format\'s own reader: %s%s' % (what, k, r[:500]))


def prop_gerber(d):
    p = gen_file(d, notation='any')
    pre = preamble(d, ['G04 M48*', 'G04 P  JOB x*', '%TF.GenerationSoftware,M48,P JOB*%', '%INM48*%', 'G04 plain*', '', '%LNP JOB*%',
                     'G04 T01C0.1 INCH,LZ*', '  ', 'G04 317GND VIA*', 'G04 see M48 and %*', '%AMM48*1,1,0.1,0,0*%'], 'G04 line %d*')
    text = eol(d).join(pre + to_text(p).splitlines()) + '\n'
    d.show(text=text)
    if any(w in l for l in pre for w in ('M48', 'JOB')):
        d.nontrivial(text)

    def look(f):
        out = observe(f)
        del out['filename']
        return out
    recognised(d, text, 'rs274x', rs274x, 'GerberFile', look)


def prop_excellon(d):
    g = DGen(d, stated=True, ext=False, header=d.choice(['M48', 'M95', '%M48']))
    p = g.run()
    pre = preamble(d, [';%FSLAX24Y24*%', '; P JOB', ';plain', '', ';G04 comment*', '  ', ';C  comment', ';see P JOB and %FS'], '; line %d')
    if p.given is not None:
        p.given = None
    text = eol(d).join(pre + p.lines) + '\n'
    d.show(text=text)
    if any(w in l for l in pre for w in ('FS', 'JOB')):
        d.nontrivial(text)

    def look(f):
        out = observe(f)
        del out['filename']
        return out
    recognised(d, text, 'excellon', excellon, 'ExcellonFile', look)


def prop_ipc(d):
    n = Net(d)
    body = n.run().splitlines()
    pre = preamble(d, ['C  %FSLAX24Y24*%', 'C  M48', 'C', 'C  P JOB', 'C  G04 comment*', '', 'P  VER M48', 'P  TITLE %FS'], 'C  line %d')
    text = eol(d).join(pre + ['P  JOB ' + d.choice(['', 'x', 'M48', '%FS'])] + body) + '\n'
    d.show(text=text)
    if any(w in l for l in pre for w in ('FS', 'M48')):
        d.nontrivial(text)

    def look(f):
        return {'units': f.units, 'angle': f.settings.angle_units,
                'statements': tuple((type(s).__name__, repr(sorted(s.__dict__.items()))) for s in f.statements),
                'objects': tuple((tuple(q.position), q.net_name, q.layer) for q in f.primitives)}
    recognised(d, text, 'ipc_d_356', ipc356, 'IPCNetlist', look)


def marked(text):
    """any mention of a marker at all"""
    return any('M48' in l or '%FS' in l or ('P' in l.split() and 'JOB' in l.split()) for l in text.splitlines()) or \
        'M48' in text or '%FS' in text


def prop_other(d):
    kind = d.integer(0, 5)
    if kind == 0:
        text = ''.join(d.choice(' \n\tabcXYDGMT0123456789*%;,.+-#') for _ in range(d.size(0, 60)))
    elif kind == 1:
        # a supported file without its marker
        text = to_text(gen_file(d)).replace('%FS', '%XX')
    elif kind == 2:
        text = DGen(d, stated=True, header='M48').run().text.replace('M48', d.choice(['M49', 'M4', '']))
    elif kind == 3:
        text = Net(d).run().replace('JOB', 'J0B')
    elif kind == 4:
        text = '\n'.join(d.choice(['import os', '#!/bin/sh', '<svg>', 'P', 'JOB', 'PJOB', 'P-JOB x', 'M4', '8', 'FSLAX24Y24', '%', 'FS',
                                   'G04 x*', 'T01C0.1', '{"a": 1}', 'M 48', '% FS', 'JOB P', 'm48', '%fs', 'p job',
                                   '\u00e9\u4e2d']) for _ in range(d.size(0, 20)))
    else:
        text = d.choice(['', '\n', ' ', '\x00', '\r\n\r\n'])
    if marked(text):
        return
    d.show(text=text)
    d.label('kind %d' % kind)
    if len(text.splitlines()) >= 3:
        d.nontrivial(text)
    fmt = detect_file_format(text)
    if fmt != 'unknown':
        raise Violation('recognised as %s' % fmt)

    def refused(fn, what):
        try:
            r = fn()
        except ParseError:
            return
        except Exception as e:
            raise Violation('%s failed with %s: %s' % (what, type(e).__name__, e))
        raise Violation('%s returned %r' % (what, r))
    refused(lambda: common.loads(text), 'loads')
    refused(lambda: common.loads(text, d.choice(NAMES)), 'loads with a name')
    # the file on disk, with characters any locale can read
    if all(ord(c) < 128 for c in text):
        through_path(d, d.choice(NAMES), text, lambda p: refused(lambda: common.read(p), 'read'))


UNITS = [
    {'name': 'gerber', 'prop': prop_gerber, 'n': {'quick': 3000, 'thorough': 60000}},
    {'name': 'excellon', 'prop': prop_excellon, 'n': {'quick': 4000, 'thorough': 80000}},
    {'name': 'ipc', 'prop': prop_ipc, 'n': {'quick': 4000, 'thorough': 80000}},
    {'name': 'other', 'prop': prop_other, 'n': {'quick': 6000, 'thorough': 120000}},
]
