"""P01: coordinate number codec, against an integer positional-notation model."""
import re
from engine import Violation
from gerber.utils import parse_gerber_value, write_gerber_value
from gerber.cam import FileSettings

FORMATS = [(i, d) for i in range(0, 7) for d in range(0, 8) if i + d >= 1]
TECHNIQUE = 'enumeration of all formats and zero modes x generated numbers, against an independent fixed-point codec; round trips both ways'
NOTE = 'No counterexample among the generated cases counted in the evidence.'
RULE = ('a case is one (format, zero mode, number) triple; numbers are integers k in units of the '
        'resolution 10^-d, with bias to trailing/leading zeros, extremes and off-grid fractions; '
        'non-trivial = k != 0')
ASSUMPTIONS = ['a value fits a format when its rounded magnitude is below 10^integer_digits']


def gen_k(d, total):
    """integer with 1..total digits: digit pattern with runs of zeros"""
    n = d.integer(1, total)
    kind = d.below(4)
    if kind == 0:
        k = d.integer(1, 10 ** n - 1)
    elif kind == 1:      # trailing zeros
        z = d.integer(0, n - 1)
        k = d.integer(1, 10 ** (n - z) - 1) * 10 ** z
    elif kind == 2:      # sparse
        k = 0
        for _ in range(n):
            k = k * 10 + d.weighted([(3, 0), (1, d.below(10))])
    else:
        k = 10 ** n - 1 - d.below(3)
    return max(k, 0)


def model_text(k, fmt, zs):
    """canonical text of k * 10^-d"""
    i, dd = fmt
    if k == 0:
        return '0'
    s = str(abs(k)).rjust(i + dd, '0')
    if zs == 'trailing':
        s = s.rstrip('0')
    elif zs == 'leading':
        s = s.lstrip('0')
    return ('-' if k < 0 else '') + s


def prop_roundtrip(d):
    fmt = d.choice(FORMATS)
    zs = d.choice(['leading', 'trailing', 'none'])
    k = gen_k(d, sum(fmt))
    if d.boolean():
        k = -k
    scale = 10 ** fmt[1]
    # off-grid part strictly inside half a unit, so that rounding is unambiguous
    off = d.choice([0, 0, 0.3, -0.3, 0.45, -0.45]) if sum(fmt) <= 11 else 0
    if abs(k) + 0.5 >= 10 ** sum(fmt):
        off = 0
    value = (k + off) / scale if k else off / scale
    d.show(format=fmt, zero_suppression=zs, k=k, value=repr(value))
    text = write_gerber_value(value, fmt, zs)
    d.label('zs=' + zs)
    if off:
        d.label('off-grid')
    if k < 0:
        d.label('negative')
    if k:
        d.nontrivial((fmt, zs, k, off))
    exp = model_text(k, fmt, zs)
    if text != exp:
        raise Violation('write(%r, %r, %r) = %r, expected %r' % (value, fmt, zs, text, exp))
    back = parse_gerber_value(text, fmt, zs)
    if text != '0' and back != k / float(scale) or text == '0' and back != 0:
        raise Violation('parse(write(%r)) = %r via %r, expected %r' % (value, back, text, k / scale))


def prop_parse(d):
    fmt = d.choice(FORMATS)
    zs = d.choice(['leading', 'trailing'])
    n = d.integer(1, sum(fmt))
    digits = ''.join(str(d.weighted([(2, 0), (3, d.below(10))])) for _ in range(n))
    sign = d.choice(['', '+', '-'])
    full = digits.rjust(sum(fmt), '0') if zs == 'leading' else digits.ljust(sum(fmt), '0')
    exp = int(full) / float(10 ** fmt[1])
    if sign == '-':
        exp = -exp
    d.show(format=fmt, zero_suppression=zs, text=sign + digits, expected=exp)
    if int(full):
        d.nontrivial((fmt, zs, sign, digits))
    got = parse_gerber_value(sign + digits, fmt, zs)
    if got != exp:
        raise Violation('parse(%r, %r, %r) = %r, expected %r' % (sign + digits, fmt, zs, got, exp))
    # re-encoding the decoded value is idempotent
    w = write_gerber_value(got, fmt, zs)
    if parse_gerber_value(w, fmt, zs) != got or write_gerber_value(parse_gerber_value(w, fmt, zs), fmt, zs) != w:
        raise Violation('re-encoding %r gives %r, not stable' % (got, w))


def prop_decimal(d):
    fmt = d.choice(FORMATS)
    zs = d.choice(['leading', 'trailing', 'none'])
    ip = d.choice(['', '0', '00', str(d.below(100000))])
    fp = d.choice(['', str(d.below(10 ** 6)), '0' * d.below(4) + str(d.below(1000)) + '0' * d.below(4)])
    if not ip and not fp:
        ip = '0'
    sign = d.choice(['', '+', '-'])
    text = sign + ip + '.' + fp
    num = int((ip + fp) or '0') / float(10 ** len(fp))
    d.show(format=fmt, zero_suppression=zs, text=text)
    d.nontrivial((fmt, zs, text))
    got = parse_gerber_value(text, fmt, zs)
    if got != (-num if sign == '-' else num):
        raise Violation('parse(%r) = %r' % (text, got))


def prop_range(d):
    i, f = d.integer(0, 14), d.integer(0, 14)
    ok = i <= 6 and f <= 7
    zs = d.choice(['leading', 'trailing'])
    if not ok:
        d.nontrivial((i, f, zs))
    d.show(format=(i, f), legal=ok)
    for fn, arg in ((parse_gerber_value, '1'), (write_gerber_value, 0.5)):
        try:
            fn(arg, (i, f), zs)
            refused = False
        except ValueError:
            refused = True
        if (i, f) != (0, 0) and refused == ok:
            raise Violation('%s with format %r: refused=%r' % (fn.__name__, (i, f), refused))


def prop_statement(d):
    """the same codec reached through the statement classes of both file types"""
    from gerber.gerber_statements import CoordStmt
    from gerber.excellon_statements import CoordinateStmt
    fmt = (d.integer(1, 6), d.integer(1, 7))
    zs = d.choice(['leading', 'trailing'])
    st = FileSettings(units=d.choice(['inch', 'metric']), zero_suppression=zs, format=fmt)
    ks = [None if d.boolean(0.2) else (gen_k(d, sum(fmt)) * (-1 if d.boolean() else 1)) for _ in range(4)]
    sc = float(10 ** fmt[1])
    words = [None if k is None else model_text(k, fmt, zs) for k in ks]
    d.show(format=fmt, zero_suppression=zs, words=words)
    gx = {'function': 'G01', 'x': words[0], 'y': words[1], 'i': words[2], 'j': words[3], 'op': 'D01'}
    s = CoordStmt.from_dict(gx, st)
    if any(ks):
        d.nontrivial((fmt, zs, tuple(words)))
    for name, k in zip('xyij', ks):
        v = getattr(s, name)
        if (v is None) != (k is None) or (k is not None and v != k / sc):
            raise Violation('Gerber %s word %r decoded as %r' % (name, k, v))
    exp = 'G01' + ''.join(n + w for n, w in zip('XYIJ', words) if w is not None) + 'D01*'
    if s.to_gerber(st) != exp:
        raise Violation('Gerber statement written as %r, expected %r' % (s.to_gerber(st), exp))
    line = ''.join(n + w for n, w in zip('XY', words[:2]) if w is not None)
    if line:
        c = CoordinateStmt.from_excellon(line, st)
        for name, k in zip('xy', ks):
            v = getattr(c, name)
            if (v is None) != (k is None) or (k is not None and v != k / sc):
                raise Violation('Excellon %s word %r decoded as %r' % (name, k, v))
        if c.to_excellon(st) != line:
            raise Violation('Excellon coordinate written as %r, expected %r' % (c.to_excellon(st), line))


UNITS = [
    {'name': 'roundtrip', 'prop': prop_roundtrip, 'n': {'quick': 60000, 'thorough': 3000000}, 'weight': 4},
    {'name': 'parse', 'prop': prop_parse, 'n': {'quick': 40000, 'thorough': 2000000}, 'weight': 3},
    {'name': 'decimal', 'prop': prop_decimal, 'n': {'quick': 5000, 'thorough': 200000}},
    {'name': 'range', 'prop': prop_range, 'n': {'quick': 1500, 'thorough': 5000}},
    {'name': 'statement', 'prop': prop_statement, 'n': {'quick': 20000, 'thorough': 1000000}, 'weight': 2},
]
