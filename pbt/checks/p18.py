"""P18: board assembly keeps every layer, in stack-up order."""
import os
import re
import shutil
import stat
from engine import Violation, Discard
from checks.p13 import scratch
from gerber import common
from gerber import layers as L
from gerber.pcb import PCB

TECHNIQUE = 'generated directories of CAM and other files, and generated lists of layers, against the classes, order and views implied by an own table of the documented names'
NOTE = 'No counterexample among the generated names, directories and layer lists counted in the evidence.'
RULE = ('a case is one generated file name under a generated directory name (unit names), one generated directory of '
        'layer files, drill files, netlists and files to skip (units directory and board, the latter for its name) or one generated list of layers (unit '
        'views); non-trivial = a name matching a convention, at least 4 CAM files, or at least 4 layers')
ASSUMPTIONS = ['the class of a name is only asserted when the naming conventions give exactly one',
               'inner layers are ordered by the number in the part of the name that makes them inner layers']

# The naming conventions, as documented: extension and name parts of every class
CONV = {
    'top': (['gtl', 'cmp', 'top'], ['art01', 'top', 'GTL', 'layer1', 'soldcom', 'comp', 'F.Cu']),
    'bottom': (['gbl', 'sld', 'bot', 'sol', 'bottom'], ['art02', 'bottom', 'bot', 'GBL', 'layer2', 'soldsold', 'B.Cu']),
    'internal': (['in', 'gt1', 'gt2', 'gt3', 'gt4', 'gt5', 'gt6', 'g1', 'g2', 'g3', 'g4', 'g5', 'g6'],
                 ['art', 'internal', 'pgp', 'pwr', 'gnd', 'ground', 'gp1', 'gp2', 'gp3', 'gp4', 'gt5', 'gp6', 'In1.Cu',
                  'In2.Cu', 'In3.Cu', 'In4.Cu', 'group3', 'group4', 'group5', 'group6', 'group7', 'group8']),
    'topsilk': (['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk'], ['sst01', 'topsilk', 'silk', 'slk', 'sst', 'F.SilkS']),
    'bottomsilk': (['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk'], ['bsilk', 'ssb', 'botsilk', 'bottomsilk', 'B.SilkS']),
    'topmask': (['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask'],
                ['sm01', 'cmask', 'tmask', 'mask1', 'maskcom', 'topmask', 'mst', 'F.Mask']),
    'bottommask': (['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask'],
                   ['sm', 'bmask', 'mask2', 'masksold', 'botmask', 'bottommask', 'msb', 'B.Mask']),
    'toppaste': (['gtp', 'tm', 'toppaste'], ['sp01', 'toppaste', 'pst', 'F.Paste']),
    'bottompaste': (['gbp', 'bm', 'bottompaste'], ['sp02', 'botpaste', 'bottompaste', 'psb', 'B.Paste']),
    'outline': (['gko', 'outline'], ['BDR', 'border', 'out', 'outline', 'Edge.Cuts']),
    'ipc_netlist': (['ipc'], []),
    'drawing': (['fab'], ['assembly', 'fabrication', 'fab']),
}
ORDER = ['outline', 'toppaste', 'topsilk', 'topmask', 'top', 'internal', 'bottom', 'bottommask', 'bottomsilk', 'bottompaste']
COPPER = ('top', 'internal', 'bottom')
STEMS = ['board', 'proj', 'pcb2', 'rev_3', 'x', 'Amp7', 'my_board', 'v1', 'topside', 'gndplane', 'layer', '2019', 'unmask']
EXTS = ['gbr', 'ger', 'pho', 'gbx', 'txt', 'GBR', 'g', 'g0', 'top2']
DIRS = ['', 'out', 'top', 'board.gbl', 'rev2', 'In4.Cu', 'internal-5', '7', 'gerbers v3', 'x.gtl.d']


def tokens(s):
    return re.split(r'[.-]', s.lower())


def implied(name):
    """Classes implied by a file name."""
    stem, ext = os.path.splitext(name)
    t = tokens(stem)
    out = set()
    for cls, (exts, names) in CONV.items():
        if ext[1:].lower() in exts:
            out.add(cls)
        for n in names:
            h = tokens(n)
            k = len(t) - len(h)
            # the convention's name, after any prefix, with at most one more part
            if (k >= 0 and t[k:] == h) or (k >= 1 and t[k - 1:-1] == h):
                out.add(cls)
    return out


def case(d, s):
    return d.weighted([(4, s), (1, s.upper()), (1, s.lower()), (1, s.capitalize())])


def gen_name(d, cls=None):
    """A file name, and the number of its inner layer (None: unnumbered)."""
    cls = cls or d.choice(sorted(CONV) + [None])
    stem = d.choice(STEMS)
    number = None
    if cls is None:
        name = stem + '.' + d.choice(EXTS)
    elif not CONV[cls][1] or d.boolean(0.5):
        ext = d.choice(CONV[cls][0])
        if cls == 'internal' and ext[-1].isdigit():
            number = int(ext[-1])
        if d.boolean(0.3):
            stem += d.choice(['-', '.', '_']) + d.choice(STEMS)
        name = stem + '.' + case(d, ext)
        if cls == 'internal' and number is None and d.boolean(0.6):
            name, number = None, d.integer(1, 30)
            name = '%s%d.%s' % (d.choice(['l', 'layer_', '']), number, case(d, ext))
    else:
        n = d.choice(CONV[cls][1])
        name = case(d, n)
        m = re.search(r'\d+', n)
        if cls == 'internal' and m:
            number = int(m.group())
        if d.boolean(0.7):
            name = stem + d.choice(['-', '.']) + name
        if d.boolean(0.4):
            suffix = d.choice(['1', '2', '3', '10', '12', 'rev4', 'x', '06'])
            name += d.choice(['-', '.']) + suffix
            m = re.search(r'\d+', suffix)
            if cls == 'internal' and number is None and m:
                number = int(m.group())
        name += '.' + d.choice(EXTS[:6])
    return name, number


def prop_names(d):
    name, number = gen_name(d)
    folder = d.choice(DIRS)
    path = os.path.join('/nonexistent', folder, name) if d.boolean(0.5) else os.path.join(folder, name)
    want = implied(name)
    d.show(path=path, want=sorted(want))
    got = L.guess_layer_class(path)
    if not want:
        if got != 'unknown':
            raise Violation('%r is taken for a %s layer' % (path, got))
        return
    d.nontrivial((name, folder))
    d.label(','.join(sorted(want)) if len(want) == 1 else 'several')
    if got not in want:
        raise Violation('%r is taken for a %s layer, its name implies %s' % (path, got, sorted(want)))
    if want == {'internal'} and number is not None:
        layer = L.PCBLayer.from_cam(common.loads(gerber(0, 0, 1, 1), path))
        if layer.layer_class != 'internal' or layer.order != number:
            raise Violation('%r is inner layer %r, not %d' % (path, getattr(layer, 'order', None), number))


def gerber(x0, y0, x1, y1, mark=0):
    return ('%%FSLAX24Y24*%%\n%%MOIN*%%\n%%ADD10C,0.0%d*%%\nD10*\nX%dY%dD02*\nX%dY%dD01*\nM02*\n'
            % (mark + 1, x0 * 10000, y0 * 10000, x1 * 10000, y1 * 10000))


def excellon(x, y):
    return 'M48\nINCH,LZ\nT1C0.03%s\n%%\nT1\nX%03dY%03d\nM30\n' % ('', x * 100, y * 100)


IPC = 'C  netlist\nP  JOB   board\nP  UNITS CUST 0\n317GND              VIA         D  24PA00X  14900Y   1450X 396Y 396\n999\n'


def skipped(d):
    """Name and writer of something to skip."""
    kind = d.choice(['hidden', 'os', 'text', 'empty', 'binary', 'binary-cam', 'folder', 'dangling', 'loop'])
    name, _ = gen_name(d)
    data = gerber(0, 0, 9, 9).encode()
    if kind == 'hidden':
        return '.' + name, ('data', data)
    if kind == 'os':
        return d.choice(['.DS_Store', 'Thumbs.db', 'ethumbs.db']), ('data', data)
    if kind == 'text':
        return name, ('data', d.choice([b'see the gerbers\n', b'G04 no format*\nM02*\n', b'T1C0.03\nM30\n', b'x,y,rotation\n1,2,3\n',
                                        b'P  TITLE x\n', b'%MOIN*%\n%ADD10C,0.1*%\nD10*\nX0Y0D03*\n']))
    if kind == 'empty':
        return name, ('data', b'')
    if kind == 'binary':
        return name, ('data', d.choice([b'\xff\xd8\xff\xe0\x00\x10JFIF', b'PK\x03\x04\x14\x00\x80\x99', b'\x80\x81']))
    if kind == 'binary-cam':
        return name, ('data', b'\x89PNG\xff\n' + data)
    if kind == 'folder':
        return name, ('folder', data)
    return name, ('link', name if kind == 'loop' else 'no/such/file')


def snapshot(folder):
    out = {}
    for root, dirs, files in os.walk(folder):
        for n in dirs + files:
            p = os.path.join(root, n)
            s = os.lstat(p)
            out[p] = (s.st_mode, s.st_size, s.st_mtime, os.readlink(p) if stat.S_ISLNK(s.st_mode) else
                      open(p, 'rb').read() if stat.S_ISREG(s.st_mode) else None)
    return out


def check_views(layers, pcb, cls, number, bounds):
    """layers: in any order; cls, number, bounds: by id of a layer."""
    every = pcb.layers

    def same(what, got, want):
        if sorted(map(id, got)) != sorted(map(id, want)):
            raise Violation('%s are %s, not %s' % (what, [(l.layer_class, l.filename) for l in got],
                                                   [(l.layer_class, l.filename) for l in want]))
    of = lambda *c: [l for l in layers if cls[id(l)] in c]
    same('layers', every, layers)
    if len(pcb) != len(layers):
        raise Violation('length %d for %d layers' % (len(pcb), len(layers)))

    def ordered(what, got, key):
        keys = [key(l) for l in got]
        keys = [k for k in keys if k is not None]
        if keys != sorted(keys):
            raise Violation('%s are in the order %s' % (what, [(l.layer_class, l.filename) for l in got]))
    rank = {c: i for i, c in enumerate(ORDER)}
    ordered('layers', every, lambda l: rank.get(cls[id(l)], 100))
    inner = lambda seq: [number[id(l)] for l in seq if cls[id(l)] == 'internal' and number[id(l)] is not None]
    if inner(every) != sorted(inner(every)):
        raise Violation('inner layers are in the order %s' % inner(every))
    same('drill layers', pcb.drill_layers, of('drill'))
    same('copper layers', pcb.copper_layers, of(*COPPER))
    ordered('copper layers', pcb.copper_layers, lambda l: -rank[cls[id(l)]])
    if inner(pcb.copper_layers) != sorted(inner(pcb.copper_layers))[::-1]:
        raise Violation('inner copper layers are in the order %s' % inner(pcb.copper_layers))
    if pcb.layer_count != len(of(*COPPER)):
        raise Violation('layer count is %r' % pcb.layer_count)
    for side, view in (('top', pcb.top_layers), ('bottom', pcb.bottom_layers)):
        want = of(side, side + 'mask', side + 'silk')
        drills = [l for l in of('drill') if side in l.layers]
        same(side + ' view', view, want + drills)
        board = [l for l in view if l.layer_class != 'drill']
        inside = [side, side + 'mask', side + 'silk']
        ordered(side + ' view', board, lambda l: inside.index(cls[id(l)]))
        if [id(l) for l in view if l in drills] != [id(l) for l in pcb.drill_layers if l in drills]:
            raise Violation('the drill layers of the %s view are not in the order of the board' % side)
        if of(side) and drills:
            first = min(view.index(l) for l in drills)
            after = [l for l in view[:first] if cls[id(l)] != side]
            if after or first == 0 or any(cls[id(l)] == 'drill' for l in view[first + len(drills):]):
                raise Violation('%s view is %s' % (side, [l.layer_class for l in view]))
    outline = pcb.outline_layer
    if (outline is None) != (not of('outline')) or (outline is not None and cls[id(outline)] != 'outline'):
        raise Violation('outline is %r' % outline)
    got = pcb.board_bounds
    want = of('outline') or of('top')
    if outline is not None and got != outline.bounds:
        raise Violation('board bounds %r are not those of the outline %r' % (got, outline.bounds))
    if (not want and got is not None) or (want and got not in [bounds[id(l)] for l in want]):
        raise Violation('board bounds are %r, not %r' % (got, [bounds[id(l)] for l in want]))


def prop_directory(d):
    base = scratch('p18d')
    folder = os.path.join(base, d.choice(DIRS[1:]))
    files = {}       # name -> (kind, number, bounds)
    writes = {}
    used = set()
    hint = None
    if d.boolean(0.15):
        hint = L.Hint('topsilk', [], [], r'zz\s+ink', []) if d.boolean(0.5) else L.Hint('topsilk', [], [], '', ['G04 Layer: ink'])
    for i in range(d.size(0, 14)):
        if d.boolean(0.25):
            name, w = skipped(d)
            if name.lower() in used:
                continue
            used.add(name.lower())
            writes[name] = w
            continue
        kind = d.weighted([(8, 'gerber'), (2, 'drill'), (1, 'ipc')])
        name, number = gen_name(d, 'internal' if kind == 'gerber' and d.boolean(0.3) else None)
        if name.lower() in used:
            continue
        x, y = d.integer(0, 9), d.integer(0, 9)
        w, h = d.integer(1, 9), d.integer(1, 9)
        want = implied(name)
        if kind == 'gerber':
            text = gerber(x, y, x + w, y + h, i % 7)
            if hint and d.boolean(0.3):
                want = {'topsilk'}
                if hint.regex:
                    name = 'ZZ  ink' + name
                else:
                    text = 'G04 Layer: ink*\n' + text
                number = None
        elif kind == 'drill':
            text, want = excellon(x, y), {'drill'}
            if d.boolean(0.5):
                name = d.choice(['board', 'drill', 'x']) + str(i) + d.choice(['.drl', '.xln', '.txt', '.drill.txt'])
        else:
            text, want = IPC, {'ipc_netlist'}
        if name.lower() in used:
            continue
        if not want:
            want = {'unknown'}
        if d.boolean(0.2):
            text = text.replace('\n', '\r\n')
        used.add(name.lower())
        files[name] = (want, number, ((x, x + w), (y, y + h)))
        writes[name] = ('data', text.encode())
    d.show(files=sorted(files), others=sorted(set(writes) - set(files)), folder=folder, hint=hint)
    if len(files) >= 4:
        d.nontrivial(tuple(sorted(files)))
    os.makedirs(folder)
    if hint:
        L.hints.insert(0, hint)
    try:
        for name in d.shuffled(sorted(writes)):
            kind, data = writes[name]
            p = os.path.join(folder, name)
            if kind == 'data':
                with open(p, 'wb') as h:
                    h.write(data)
            elif kind == 'folder':
                os.mkdir(p)
                with open(os.path.join(p, 'inner.gtl'), 'wb') as h:
                    h.write(data)
            else:
                os.symlink(data, p)
        before = snapshot(folder)
        board = d.choice([None, 'My board'])
        try:
            pcb = PCB.from_directory(folder, board)
        except Exception as e:
            raise Violation('loading failed: %s: %s' % (type(e).__name__, e))
        if snapshot(folder) != before:
            raise Violation('the directory changed')
        if board and pcb.name != board:
            raise Violation('the name is %r' % pcb.name)
        got = sorted(os.path.basename(l.filename) for l in pcb.layers)
        if got != sorted(files):
            raise Violation('layers of the files %s instead of %s' % (got, sorted(files)))
        cls, number, bounds = {}, {}, {}
        for l in pcb.layers:
            want, n, b = files[os.path.basename(l.filename)]
            if l.layer_class not in want:
                raise Violation('%s is a %s layer, not %s' % (l.filename, l.layer_class, sorted(want)))
            cls[id(l)], number[id(l)], bounds[id(l)] = l.layer_class, n if want == {'internal'} else None, b
            if l.cam_source.filename != os.path.join(folder, os.path.basename(l.filename)):
                raise Violation('%s comes from %s' % (l.filename, l.cam_source.filename))
        check_views(pcb.layers, pcb, cls, number, bounds)
    finally:
        if hint:
            L.hints.remove(hint)
        shutil.rmtree(base)


class Cam(object):
    def __init__(self, bounds):
        self.bounds = bounds
        self.primitives = []


def prop_views(d):
    layers, cls, number, bounds = [], {}, {}, {}
    for i in range(d.size(0, 14)):
        c = d.choice(ORDER + ['internal', 'internal', 'drill', 'drill', 'drawing', 'ipc_netlist', 'unknown', 'top', 'bottom'])
        b = ((i, i + 1.5), (-i, d.integer(0, 9)))
        n = None
        if c == 'internal':
            n = d.integer(0, 40)
            l = L.InternalLayer('f%d' % i, Cam(b), n)
        elif c == 'drill':
            sides = d.choice([None, ['top', 'bottom'], ['top'], ['bottom'], []])
            l = L.DrillLayer('f%d' % i, Cam(b), sides) if sides is not None else L.DrillLayer('f%d' % i, Cam(b))
        else:
            l = L.PCBLayer('f%d' % i, c, Cam(b))
        layers.append(l)
        cls[id(l)], number[id(l)], bounds[id(l)] = c, n, b
    given = list(layers)
    d.show(layers=[(l.layer_class, getattr(l, 'order', None), getattr(l, 'layers', None)) for l in layers])
    if len(layers) >= 4:
        d.nontrivial(tuple((l.layer_class, getattr(l, 'order', None)) for l in layers))
    pcb = PCB(layers, 'n')
    if len(layers) != len(given) or any(a is not b for a, b in zip(layers, given)):
        raise Violation('the list of layers changed')
    check_views(given, pcb, cls, number, bounds)
    rank = {c: i for i, c in enumerate(ORDER)}
    down = L.sort_layers(layers)
    up = L.sort_layers(layers, from_top=False)
    for got in (down, up):
        if sorted(map(id, got)) != sorted(map(id, layers)):
            raise Violation('sorting %d layers gives %d' % (len(layers), len(got)))
    stack = [l for l in up if l.layer_class in rank]
    if [l.layer_class for l in up[:len(stack)]] != [l.layer_class for l in stack]:
        raise Violation('from the bottom: %s' % [l.layer_class for l in up])
    keys = [(rank[l.layer_class], number[id(l)] if number[id(l)] is not None else 0) for l in stack]
    if keys != sorted(keys, reverse=True):
        raise Violation('from the bottom: %s' % keys)


def prop_board(d):
    """The name of a board, and which files are looked at."""
    base = scratch('p18b')
    dirname = d.choice(['gerbers', 'board.v2', 'x', '7', 'board'])
    folder = os.path.join(base, dirname)
    shared = d.boolean(0.7)
    stem = d.choice(['board', 'amp7', 'my_pcb', 'rev_3', 'Q'])
    files, skip = {}, []
    for i in range(d.size(0, 8)):
        s = stem if shared or d.boolean(0.5) else d.choice(['board', 'amp7', 'my_pcb', 'rev_3', 'Q'])
        kind = d.weighted([(6, 'ext'), (3, 'part'), (2, 'drill'), (1, 'ipc')])
        if kind == 'ext':
            cls = d.choice(sorted(set(CONV) - {'ipc_netlist'}))
            name, text = s + '.' + case(d, d.choice(CONV[cls][0])), gerber(0, 0, 1, 1, i)
        elif kind == 'part':
            cls = d.choice(sorted(set(CONV) - {'ipc_netlist'}))
            # in the file name, the kind of the layer comes before the extension
            part = d.choice([p for p in CONV[cls][0] + CONV[cls][1] if '.' not in p and ' ' not in p])
            name, text = s + '.' + part + '.' + d.choice(EXTS[:4]), gerber(0, 0, 1, 1, i)
            if implied(name) != {cls}:
                continue
        elif kind == 'drill':
            name, text = s + d.choice(['.drl', '.txt', '.xln', '.drill.txt', '.drill-1.txt', '.npth_drill.drl']), excellon(1, 1)
        else:
            name, text = s + '.ipc', IPC
        if name.lower() not in [n.lower() for n in files]:
            files[name] = text, s
    odd = {}
    if d.boolean(0.6):
        for n in ['Thumbs.db', '.DS_Store', 'ethumbs.db', '.hidden.gtl', '.gtl']:
            if d.boolean(0.4):
                odd[n] = False
        for n in ['Thumbs.gtl', 'x.db', 'DS_Store', 'Thumbs.db.gtl', 'a.DS_Store', '_x.gtl', 'ethumbs.gbr', '~x.gtl', 'x.gtl~']:
            if d.boolean(0.4):
                odd[n] = True
    d.show(folder=dirname, files=sorted(files), odd=odd)
    os.makedirs(folder)
    try:
        for name in d.shuffled(sorted(files) + sorted(odd)):
            with open(os.path.join(folder, name), 'w') as h:
                h.write(files[name][0] if name in files else gerber(0, 0, 2, 2, 3))
        pcb = PCB.from_directory(folder + d.choice(['', '/', '/.', '/../' + dirname]))
        got = sorted(os.path.basename(l.filename) for l in pcb.layers)
        want = sorted(list(files) + [n for n in odd if odd[n]])
        if got != want:
            raise Violation('layers of the files %s instead of %s' % (got, want))
        names = set(s for _, s in files.values())
        kept = any(odd.values())
        if len(names) == 1 and not kept:
            want = names.pop()
            d.label('common name')
        elif len(names) > 1 or kept == bool(files):
            want = dirname
            d.label('name of the folder')
        else:
            want = None
        if want is not None and pcb.name != want:
            raise Violation('the board is called %r, its files imply %r' % (pcb.name, want))
        if len(files) >= 3:
            d.nontrivial((dirname, tuple(sorted(files)), tuple(sorted(odd))))
    finally:
        shutil.rmtree(base)


UNITS = [
    {'name': 'board', 'prop': prop_board, 'n': {'quick': 8000, 'thorough': 160000}},
    {'name': 'names', 'prop': prop_names, 'n': {'quick': 40000, 'thorough': 800000}},
    {'name': 'directory', 'prop': prop_directory, 'n': {'quick': 8000, 'thorough': 160000}},
    {'name': 'views', 'prop': prop_views, 'n': {'quick': 40000, 'thorough': 800000}},
]
