"""P22: settings objects, stateful against a plain-dict model."""
from engine import Violation
from gerber.cam import FileSettings, CamFile

FIELDS = ('notation', 'units', 'zero_suppression', 'zeros', 'format', 'angle_units')
VALID = {'notation': ['absolute', 'incremental'], 'units': ['inch', 'metric'],
         'zero_suppression': ['leading', 'trailing'], 'zeros': ['leading', 'trailing'],
         'angle_units': ['degrees', 'radians']}
OPP = {'leading': 'trailing', 'trailing': 'leading'}
TECHNIQUE = 'model-based histories of assignments to settings objects, against a reference state machine'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is a construction followed by a history of item/attribute assignments (valid and '
        'invalid); non-trivial = at least one accepted and one refused assignment')


def gen_value(d, f, valid=True):
    if f == 'format':
        return (d.integer(0, 6), d.integer(0, 7)) if valid else d.choice([(2,), (1, 2, 3), ()])
    return d.choice(VALID[f]) if valid else d.choice(['x', '', 'inches', 'ABSOLUTE', None, 'none'])


def set_model(m, f, v):
    m[f] = v
    if f == 'zeros':
        m['zero_suppression'] = OPP[v]
    if f == 'zero_suppression':
        m['zeros'] = OPP[v]


def check(s, m, hist):
    for f in FIELDS:
        if getattr(s, f) != m[f] or s[f] != m[f]:
            raise Violation('after %r: %s is %r / %r, expected %r' % (hist, f, getattr(s, f), s[f], m[f]))


def construct(d):
    kw, m = {}, {'notation': 'absolute', 'units': 'inch', 'zero_suppression': 'trailing', 'zeros': 'leading',
                 'format': (2, 5), 'angle_units': 'degrees'}
    for f in ('notation', 'units', 'format', 'angle_units'):
        if d.boolean():
            kw[f] = gen_value(d, f)
            m[f] = kw[f]
    z = d.below(4)
    if z == 1:
        kw['zeros'] = gen_value(d, 'zeros')
        set_model(m, 'zeros', kw['zeros'])
    elif z == 2:
        kw['zero_suppression'] = gen_value(d, 'zero_suppression')
        set_model(m, 'zero_suppression', kw['zero_suppression'])
    elif z == 3:
        kw['zeros'] = gen_value(d, 'zeros')
        kw['zero_suppression'] = OPP[kw['zeros']]
        set_model(m, 'zeros', kw['zeros'])
    return FileSettings(**kw), m, kw


def prop_history(d):
    s, m, kw = construct(d)
    hist = [kw]
    check(s, m, hist)
    acc = ref = 0
    for _ in range(d.size(1, 8)):
        f = d.choice(FIELDS)
        k = d.below(4)
        if k == 0:
            v = gen_value(d, f, False)
            hist.append(('bad item', f, v))
            try:
                s[f] = v
                raise Violation('%r accepted' % (hist,))
            except ValueError:
                ref += 1
        elif k == 1:
            key = d.choice(['octal', '', 'Units', 'zero', 5])
            hist.append(('bad key', key))
            for op in (lambda: s[key], lambda: s.__setitem__(key, 'inch')):
                try:
                    op()
                    raise Violation('%r accepted' % (hist,))
                except KeyError:
                    ref += 1
        else:
            v = gen_value(d, f)
            hist.append((('item', 'attr')[k - 2], f, v))
            if k == 2:
                s[f] = v
            else:
                setattr(s, f, v)
            set_model(m, f, v)
            acc += 1
        check(s, m, hist)
    d.show(history=hist)
    if acc and ref:
        d.nontrivial(tuple(map(repr, hist)))
    # equality: equal to a settings object built from the same fields, different
    # from one that differs in exactly one field
    base = dict((f, m[f]) for f in FIELDS if f != 'zeros')
    if not FileSettings(**base) == s:
        raise Violation('settings with the same fields are not equal: %r' % base)
    f = d.choice(sorted(base))
    other = dict(base)
    other[f] = (m[f][0] + 1, m[f][1]) if f == 'format' else [x for x in VALID[f] if x != m[f]][0]
    if FileSettings(**other) == s:
        raise Violation('settings differing in %s are equal' % f)
    # a CAM file built from the settings reports them
    cf = CamFile(settings=s)
    for f in ('notation', 'units', 'zero_suppression', 'zeros', 'format'):
        if getattr(cf, f) != m[f] or cf.settings[f] != m[f]:
            raise Violation('file reports %s = %r / %r, settings say %r' % (f, getattr(cf, f), cf.settings[f], m[f]))


def prop_ctor(d):
    bad = d.choice(['notation', 'units', 'zeros', 'both', 'format', 'angle_units', 'eagle'])
    kw = {}
    for f in ('notation', 'units', 'format', 'angle_units'):
        if d.boolean(0.3):
            kw[f] = gen_value(d, f)
    d.show(bad=bad, kwargs=kw)
    if bad == 'eagle':     # a zero suppression that is neither is read as leading
        s = FileSettings(zero_suppression=d.choice(['none', 'x', '']), **kw)
        if s.zero_suppression != 'leading' or s.zeros != 'trailing':
            raise Violation('unknown zero suppression read as %r/%r' % (s.zero_suppression, s.zeros))
        return
    if bad == 'both':
        kw['zeros'] = kw['zero_suppression'] = d.choice(VALID['zeros'])
    else:
        kw[bad] = gen_value(d, bad, False)
        if bad == 'zeros' and kw[bad] is None:
            kw[bad] = 'none'
    d.show(bad=bad, kwargs=kw)
    d.nontrivial((bad, tuple(sorted(map(repr, kw.items())))))
    try:
        FileSettings(**kw)
    except ValueError:
        return
    raise Violation('construction with %r accepted' % kw)


UNITS = [
    {'name': 'history', 'prop': prop_history, 'n': {'quick': 20000, 'thorough': 500000}, 'weight': 3},
    {'name': 'ctor', 'prop': prop_ctor, 'n': {'quick': 5000, 'thorough': 50000}},
]
