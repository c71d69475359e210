"""P32: a drawing context shows what was drawn since it was cleared, whatever was done with it before."""
import os
from engine import Violation, Discard
from prims import snap
from checks.p20 import Board, Picture, judge, fitted, settings_of, g_color, plain, DEFAULT, FR4

TECHNIQUE = 'model-based histories of drawing operations on one context, its pictures judged pixel by pixel by plane geometry and compared with those of fresh contexts'
NOTE = 'No counterexample among the generated histories counted in the evidence.'
RULE = ('a case is a history of 2 to 9 operations on one drawing context; non-trivial = the picture judged at the end has at '
        'least 10 painted and 10 unpainted pixels, and was preceded by another picture or made of several drawings')
ASSUMPTIONS = ['pixels within 0.8 pixels of an edge are not judged',
               'between two clearings either layers are drawn (render_layer), possibly followed by files of the same units '
               '(render), or files only, all of the same units',
               'nothing is drawn on a picture that was finished as SVG before it is cleared']
BUDGET = {'quick': 100, 'thorough': 600}
CLASSES = ['top', 'bottom', 'topmask', 'bottommask', 'topsilk', 'bottomsilk', 'outline', 'internal', 'internal', 'unknown']


class Pic(object):
    """the picture as it should be"""

    def __init__(self):
        self.clear()

    def clear(self):
        self.stack, self.bg, self.bounds, self.scale, self.units, self.how = [], None, None, None, None, None
        self.calls = []
        self.internal = 0


def prop_history(d):
    import gerber
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render import theme as T
    from gerber.render.render import RenderSettings
    b = Board(d)
    layers = []
    for i in range(d.integer(2, 4)):
        layers.append(b.drill(i) if d.boolean(0.2) else b.gerber(d.choice(CLASSES), corners=d.boolean(0.8)))
    for l in layers:
        if l['bounds'] is None or min(l['bounds'][0][1] - l['bounds'][0][0], l['bounds'][1][1] - l['bounds'][1][0]) <= 0:
            raise Discard()
    cams = [gerber.loads(l['text'], l['name']) for l in layers]
    pcbs = [gerber.load_layer_data(l['text'], l['name']) for l in layers]
    before = [[snap(p) for p in c.primitives] for c in cams]
    size = max(max(l['bounds'][0][1] - l['bounds'][0][0], l['bounds'][1][1] - l['bounds'][1][0]) for l in layers)
    small = min(min(l['bounds'][0][1] - l['bounds'][0][0], l['bounds'][1][1] - l['bounds'][1][0]) for l in layers)
    if size / small > 10:
        raise Discard()
    per = lambda l: 1.0 if l['units'] == 'inch' else 25.4
    px = d.integer(30, 70) / size / per(layers[0])          # pixels per unit
    folder = os.environ['PBT_SCRATCH']
    hist = []
    d.show(layers=[(l['name'], l['text']) for l in layers], scale=px, history=hist)

    def new(scale):
        return GerberCairoContext(scale)
    m = Pic()
    attr = {'color': (0.7215, 0.451, 0.2), 'alpha': 1.0, 'background_color': (0.0, 0.0, 0.0)}
    scale = [px]             # what .scale holds
    ctx = new(px)
    pictures = 0
    last = None

    def apply(c, call):
        """the same call on any context"""
        k, i, kw = call
        if k == 'attr':
            setattr(c, i, kw)
        elif k == 'layers':
            return c.render_layers([pcbs[j] for j in i], os.path.join(folder, 'p32.png'), **kw)
        elif k == 'layer':
            return c.render_layer(pcbs[i], **kw)
        elif k == 'file':
            return cams[i].render(c, **kw)
        elif k == 'scale':
            c.scale = (i, i)

    for n in range(d.size(2, 9)):
        finished = m.how == 'svg'
        op = d.weighted([(2, 'layers'), (2, 'clear'), (5, 'layer'), (5, 'file'), (2, 'attr'), (2, 'dump'), (1, 'svg'), (1, 'scale'), (1, 'other')])
        if finished and op != 'layers':
            op = 'clear'
        call = None
        if op == 'clear':
            ctx.clear()
            m.clear()
            hist.append('clear')
            last = None
            continue
        if op == 'attr':
            k = d.choice(sorted(attr))
            attr[k] = v = d.choice([1.0, 0.5, 0.85]) if k == 'alpha' else g_color(d)
            call = ('attr', k, v)
        elif op == 'scale':
            if m.bounds is not None:
                continue
            scale[0] = s = px * d.choice([1, 0.75, 1.25])
            call = ('scale', s, None)
        elif op == 'other':
            # a picture on another context in between
            i = d.below(len(layers))
            if any(l['cls'] == 'internal' for l in layers):
                continue
            hist.append(('other context', i))
            c = new(scale[0])
            c.alpha, c.color = 0.25, (1.0, 0.0, 1.0)
            if max(hi - lo for lo, hi in layers[i]['bounds']) * scale[0] * per(layers[i]) < 150:
                c.render_layer(pcbs[i])
        elif op == 'layers':
            pick = [d.below(len(layers)) for _ in range(d.size(1, 4))]
            mw, mh = d.integer(30, 80), d.integer(30, 80)
            name = d.choice(['default', 'OSH Park', 'Transparent Copper', 'Transparent Multilayer', 'own'])
            if name == 'own':
                kw = dict((c, RenderSettings(*plain(g_color(d), d.choice([1.0, 0.5]), d.boolean(0.3), d.boolean(0.3))))
                          for c in ('top', 'bottom', 'topmask', 'drill', 'unknown') if d.boolean())
                theme = T.Theme('own', **kw)
            else:
                theme = T.THEMES[name]
            s, bounds = fitted([layers[j] for j in pick], mw, mh)
            if min(bounds[0][1] - bounds[0][0], bounds[1][1] - bounds[1][0]) * s < 6:
                continue
            m.clear()
            table = dict((c, row(getattr(theme, c))) for c in DEFAULT if c != 'internal')
            table['internal'] = [row(r) for r in theme._internal]
            m.stack = settings_of(table, [layers[j] for j in pick])
            m.bg, m.bounds, m.scale, m.how = row(theme.background)[0], bounds, s, 'layer'
            m.units = layers[pick[0]]['units']
            scale[0] = s / per(layers[pick[0]])
            call = ('layers', pick, {'theme': theme, 'max_width': mw, 'max_height': mh})
            hist.append(('render_layers', pick, name, mw, mh))
        elif op == 'layer':
            if m.how == 'file':
                continue
            i = d.below(len(layers))
            l = layers[i]
            kw = {}
            if d.boolean() or l['cls'] not in DEFAULT:
                s = plain(g_color(d), d.choice([1.0, 0.5, 0.85]), d.boolean(0.3), d.boolean(0.2))
                kw['settings'] = RenderSettings(*s)
            elif l['cls'] == 'internal':
                s = DEFAULT['internal'][m.internal % len(DEFAULT['internal'])]
                m.internal += 1
            else:
                s = DEFAULT[l['cls']]
            bg = FR4
            if d.boolean(0.3):
                bg = g_color(d)
                kw['bgsettings'] = RenderSettings(bg)
            bounds = l['bounds']
            if d.boolean(0.3):
                bounds = tuple((lo - d.integer(0, 20) / 100.0 * (hi - lo), hi + d.integer(0, 20) / 100.0 * (hi - lo))
                               for lo, hi in bounds)
                kw['bounds'] = tuple((lo * per(l), hi * per(l)) for lo, hi in bounds)
            if m.bounds is None:
                m.bg, m.bounds, m.how, m.units = bg, bounds, 'layer', l['units']
                m.scale = scale[0] * per(l)
                if min(hi - lo for lo, hi in bounds) * m.scale < 6 or max(hi - lo for lo, hi in bounds) * m.scale > 150:
                    m.clear()
                    continue
            m.stack.append((l['shapes'],) + tuple(s))
            call = ('layer', i, kw)
            hist.append(('render_layer', i, sorted(kw), s))
        elif op == 'file':
            i = d.below(len(layers))
            l = layers[i]
            if m.units is not None and l['units'] != m.units:
                continue
            kw = {'invert': d.boolean(0.3)}
            if not cams[i].primitives:
                continue
            box = tuple((lo / per(l), hi / per(l)) for lo, hi in cams[i].bounding_box)
            if d.boolean(0.3):
                kw['filename'] = os.path.join(folder, 'p32file.png')
            if m.bounds is None:
                sizes = [(hi - lo) * scale[0] * per(l) for lo, hi in box]
                if min(sizes) < 6 or max(sizes) > 150:
                    continue
                m.bg, m.bounds, m.how, m.units = attr['background_color'], box, 'file', l['units']
                m.scale = scale[0] * per(l)
            m.stack.append((l['shapes'], attr['color'], attr['alpha'], kw['invert'], False))
            call = ('file', i, kw)
            hist.append(('render', i, kw))
        elif op == 'dump' and m.bounds is not None:
            hist.append('dump')
            path = os.path.join(folder, 'p32dump.png')
            ctx.dump(path)
            with open(path, 'rb') as fh:
                if fh.read() != ctx.dump_str():
                    raise Violation('after %r: the file saved and the bytes returned differ' % (hist,))
        elif op == 'svg' and m.bounds is not None:
            hist.append('svg')
            if not ctx.dump_svg_str().lstrip().startswith(b'<?xml'):
                raise Violation('after %r: no SVG' % (hist,))
            m.how = 'svg'
            last = None
            continue
        if call is not None:
            if call[0] in ('attr', 'scale'):
                hist.append(call)
            apply(ctx, call)
            if call[0] == 'layers':
                m.calls = []
                if abs(ctx.scale[0] - scale[0]) > 1e-9 * scale[0] or ctx.scale[0] != ctx.scale[1]:
                    raise Violation('after %r: the scale is %r, expected %r' % (hist, ctx.scale, scale[0]))
                scale[0] = ctx.scale[0]
            m.calls.append((call, scale[0], dict(attr)))
            if call[0] in ('layers', 'layer', 'file'):
                pictures += 1
        if m.bounds is not None and m.how != 'svg':
            data = ctx.dump_str()
            if call is None or call[0] in ('attr', 'scale'):
                if last is not None and data != last:
                    raise Violation('after %r: nothing was drawn, but the picture has changed' % (hist,))
            if call is not None and call[0] == 'file' and call[2].get('filename'):
                with open(call[2]['filename'], 'rb') as fh:
                    if fh.read() != data:
                        raise Violation('after %r: the file saved is not the picture' % (hist,))
            last = data
    if last is None:
        raise Discard()
    d.label(m.how)
    d.label('%d drawings' % min(len(m.stack), 5))
    painted, blank = judge(d, Picture(last), m.scale, m.bounds, m.stack, m.bg, 'after %r' % (hist,))
    if painted >= 10 and blank >= 10 and pictures > 1:
        d.nontrivial(repr((hist, [l['text'] for l in layers])))
    # a context that has not been used before gives the same picture
    draws = [c for c in m.calls if c[0][0] in ('layers', 'layer', 'file')]
    fresh = new(draws[0][1])
    for call, s, a in draws:
        for k in sorted(a):
            setattr(fresh, k, a[k])
        apply(fresh, call)
    if fresh.dump_str() != last:
        raise Violation('after %r: a new context shows another picture of the same drawings' % (hist,))
    for c, was in zip(cams, before):
        if [snap(p) for p in c.primitives] != was:
            raise Violation('after %r: drawing has changed what was drawn' % (hist,))


def row(s):
    return (s.color, s.alpha, s.invert, s.mirror) if s is not None else ((0.0, 0.0, 0.0), 1.0, False, False)


UNITS = [
    {'name': 'history', 'prop': prop_history, 'n': {'quick': 5000, 'thorough': 100000}},
]
