"""Drives path data: SVGPathSegment, PathParser and SVGPathElement."""

import math
from fractions import Fraction as F

from svgpy import SVGParser
from svgpy.element import SVGPathDataSettings
from svgpy.geometry.matrix import DOMMatrix
from svgpy.path import PathParser, SVGPathSegment

from harness.num import Q, fr, num, nums, rat, rats
from harness.driver import Unrepresentable

NS = 'http://www.w3.org/2000/svg'
SETTERS = {'B': 'bearing', 'C': 'curveto', 'A': 'elliptical_arc',
           'H': 'horizontal_lineto', 'L': 'lineto', 'M': 'moveto',
           'Q': 'quadratic_curveto', 'S': 'smooth_curveto',
           'T': 'smooth_quadratic_curveto', 'V': 'vertical_lineto'}
ARGC = {'A': 7, 'B': 1, 'C': 6, 'H': 1, 'L': 2, 'M': 2, 'Q': 4, 'S': 4,
        'T': 2, 'V': 1, 'Z': 0}


def ell(rx, ry, phi):
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    a, b = rx * rx, ry * ry
    return [a * c * c + b * s * s, (a - b) * c * s, a * s * s + b * c * c]


def seg_obs(g):
    v = list(g.values)
    if g.type in 'Aa':
        if len(v) != 7:
            raise Unrepresentable('arc %r' % (v,))
        q = ell(*v[:3])
        least = 1e-12 * max([1.0] + [abs(x) for x in q])
        return {'t': g.type, 'v': rats(
            [0 if abs(x) < least else x for x in q]
            + [1 if x else 0 for x in v[3:5]]
            + [0 if abs(x) < 1e-12 else x for x in v[5:]])}
    return {'t': g.type, 'v': rats(v)}


def snap(p):
    return [(g.type, tuple(g.values)) for g in p]


class System(object):
    bad = ''

    def __init__(self, start):
        self.p = [self.make(g) for g in start['p']]
        self.e = SVGParser().create_element_ns(NS, 'path')

    def make(self, g, w=0):
        t, v = g['t'], nums(g['v'])
        if w and t.upper() in SETTERS:
            s = SVGPathSegment()
            getattr(s, 'set_%s_%s' % (SETTERS[t.upper()],
                                      'abs' if t.isupper() else 'rel'))(*v)
            return s
        return SVGPathSegment(t, *v)

    def apply(self, op):
        before = snap(self.p)
        p = self.p
        try:
            v = self.do(op)
        except Exception as e:
            return {'r': 'exc:%s: %s' % (type(e).__name__, str(e)[:80])}
        if snap(p) != before and op['name'] != 'push':
            self.bad = 'the path data passed in is changed'
        return {'r': 'ok'} if v is None else {'r': 'ok', 'v': v}

    def do(self, op):
        n = op['name']
        w = op.get('c', 0)
        if n == 'parse':
            if w:
                self.e.set_attribute('d', op['s'])
                self.p = self.e.get_path_data()
            else:
                self.p = PathParser.parse(op['s'])
        elif n == 'set':
            self.p = [self.make(g, w) for g in op['q']]
        elif n == 'push':
            self.p.append(self.make(op['g'], w))
        elif n == 'roundtrip':
            if w == 1:
                self.e.set_path_data(self.p)
                self.p = self.e.get_path_data()
            elif w == 2:
                self.e.set_attribute('d', PathParser.tostring(self.p))
                self.p = self.e.get_path_data(SVGPathDataSettings())
            else:
                self.p = PathParser.parse(PathParser.tostring(self.p))
        elif n == 'text':
            op['w'] = PathParser.tostring(self.p)
        elif n == 'normalize':
            if w:
                p = PathParser.normalize(self.p)
                self.e.set_path_data(self.p)
                s = SVGPathDataSettings()
                s.normalize = True
                q = self.e.get_path_data(s)
                if len(p) != len(q) or any(
                        a.type != b.type or len(a.values) != len(b.values)
                        or any(abs(x - y) > 1e-3 for x, y in
                               zip(a.values, b.values))
                        for a, b in zip(p, q)):
                    self.bad = 'normalized otherwise by the element'
                self.p = p
            else:
                self.p = PathParser.normalize(self.p)
        elif n == 'drawing':
            q = PathParser.normalize(self.p)
            op['w'] = [{'t': g.type, 'v': [round(x * 200) for x in g.values]}
                       for g in q]
        elif n == 'transform':
            m = DOMMatrix(nums(op['m']))
            self.p = PathParser.transform(self.p, m)
        elif n == 'box':
            b = PathParser.get_bbox(PathParser.normalize(self.p))
            op['w'] = [round(x * 256) for x in (b.left, b.top, b.right,
                                                b.bottom)]
        elif n == 'length':
            if w:
                self.e.set_path_data(self.p)
                x = self.e.get_total_length()
            else:
                x = PathParser.get_total_length(self.p)
            op['w'] = round(x * 256)
        elif n == 'ends':
            return [rats(g.end) for g in self.p]

    def state(self):
        return {'p': [seg_obs(g) for g in self.p]}


# ------------------------------------------------------------- generators
ROT = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def rot(b, x, y):
    c, s = ROT[b % 360]
    return c * x - s * y, s * x + c * y


class Walk(object):
    """Where a path (of exact numbers) has come to: what the generator needs
    to make sensible segments. Not an oracle."""

    def __init__(self):
        self.x = self.y = self.sx = self.sy = F(0)
        self.b = 0
        self.last = ''
        self.drawn = True        # since the last moveto
        self.arcs = []
        self.big = F(0)

    def take(self, t, v):
        u = t.upper()
        if u == 'B':
            self.b = int(v[0]) if t == 'B' else self.b + int(v[0])
            self.last = t
            return
        if u == 'Z':
            x, y = self.sx, self.sy
        else:
            if t == 'H':
                x, y = v[0], self.y
            elif t == 'V':
                x, y = self.x, v[0]
            else:
                x, y = {'h': lambda: (v[0], F(0)), 'v': lambda: (F(0), v[0])
                        }.get(t, lambda: tuple(v[-2:]))()
                if t.islower():
                    x, y = rot(self.b, x, y)
                    x, y = x + self.x, y + self.y
        if u == 'A':
            phi = v[2] + (self.b if t == 'a' else 0)
            self.arcs.append((self.x, self.y, abs(v[0]), abs(v[1]), phi,
                              int(v[3]), int(v[4]), x, y))
            self.drawn = self.drawn or (x, y) != (self.x, self.y)
        elif u == 'M':
            if self.last.upper() != 'M':
                self.sx, self.sy = x, y
            self.drawn = False
        else:
            self.drawn = True
        self.x, self.y, self.last = x, y, t
        for c in (list(v) if u != 'A' else list(v[:2]) + [x, y]) + [x, y]:
            self.big = max(self.big, abs(c))


def raw(g):
    """Exact values of a segment of the real code (no irrational angle)."""
    v = [fr(rat(x)) for x in g.values]
    return g.type, v


def walk(p):
    w = Walk()
    try:
        for g in p:
            w.take(*raw(g))
    except Unrepresentable:
        return None
    return w


def isq(f):
    """The root of a rational square, or None."""
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return F(a, b) if a * a == f.numerator and b * b == f.denominator \
        else None


def upright(arc):
    """An arc of an axis-parallel ellipse with rational measures."""
    x0, y0, rx, ry, phi, fa, fs, x, y = arc
    if (x0, y0) == (x, y) or rx == 0 or ry == 0:
        return True
    if rx == ry:
        phi = 0
    if phi % 90:
        return False
    if phi % 180 == 90:
        rx, ry = ry, rx
    hx, hy = (x0 - x) / 2, (y0 - y) / 2
    a = hx * hx / (rx * rx) + hy * hy / (ry * ry)
    if a >= 1:
        return isq(a) is not None
    return isq(1 / a - 1) is not None


def plain(arc):
    """An arc of a circle, or one between vertices of its ellipse: others are
    drawn wrongly (a known finding)."""
    x0, y0, rx, ry, phi, fa, fs, x, y = arc
    if (x0, y0) == (x, y) or rx == 0 or ry == 0 or rx == ry:
        return True
    hx, hy = (x0 - x) / 2, (y0 - y) / 2
    if phi % 90:
        if phi % 45 or abs(hx) != abs(hy):
            return False
        a2 = rx if (hx == hy) == (phi % 180 == 45) else ry
        return 2 * hx * hx >= a2 * a2
    if phi % 180 == 90:
        rx, ry = ry, rx
    a = hx * hx / (rx * rx) + hy * hy / (ry * ry)
    if a >= 1:
        return hx == 0 or hy == 0
    k = isq(1 / a - 1)
    if k is None:
        return False
    if fa == fs:
        k = -k
    # from the centre to the start and the end
    cx, cy = k * rx * hy / ry, -k * ry * hx / rx
    return (hx == cx or hy == cy) and (-hx == cx or -hy == cy)


def decimal(q):
    """All numbers have three decimal places at most."""
    return all(1000 % fr(rat(x)).denominator == 0 for g in q
               for x in g.values)


def angles_ok(p):
    return all(abs(g.values[2] / 45 - round(g.values[2] / 45)) < 1e-9 or
               abs(abs(g.values[0]) - abs(g.values[1])) < 1e-9
               for g in p if g.type in 'Aa' and len(g.values) == 7)


UNIT = [(F(1), F(0)), (F(4, 5), F(3, 5)), (F(3, 5), F(4, 5)), (F(0), F(1)),
        (F(-3, 5), F(4, 5)), (F(-4, 5), F(3, 5)), (F(-1), F(0)),
        (F(-4, 5), F(-3, 5)), (F(-3, 5), F(-4, 5)), (F(0), F(-1)),
        (F(3, 5), F(-4, 5)), (F(4, 5), F(-3, 5))]


def coord(rng):
    r = rng.random()
    if r < .15:
        return F(0)
    if r < .75:
        return F(rng.randint(-9, 9))
    return F(rng.randint(-36, 36), rng.choice([2, 4, 5, 10]))


def arc(rng, w, rel):
    """Raw values of an arc segment from where w is."""
    k = rng.random()
    rx, ry = [F(rng.choice([1, 2, 3, 4, 5, 5, F(5, 2), F(3, 2)]))
              for _ in range(2)]
    if rng.random() < .35:
        ry = rx
    phi = rng.choice([0, 0, 0, 90, 180, 270, -90, 360])
    fa, fs = rng.randrange(2), rng.randrange(2)
    if k < .07:                       # leads nowhere, or has no radius
        if rng.random() < .5:
            end = w.x, w.y
        else:
            rx = F(0)
            end = coord(rng), coord(rng)
    elif k < .25:                     # too small, or just large enough
        if rng.random() < .5:
            phi = rng.choice([45, -45, 135, 45, 225])
        d = rng.choice([(6, 0), (0, -6), (6, 8), (-8, 6), (0, 10), (4, 4)])
        if phi % 90:
            d = rng.choice([(6, 6), (-4, 4), (8, -8), (10, 0)])
            rx = rng.choice([F(1), F(2), F(3)])
            ry = rng.choice([rx, 2 * rx, F(1)])
        else:
            rx = rng.choice([F(1), F(2), F(3)])
            ry = rng.choice([rx, rx, F(1), F(2)])
        end = w.x + d[0], w.y + d[1]
    elif k < .35:                     # its centre is irrational
        end = w.x + rng.randint(-4, 4), w.y + rng.randint(-4, 4)
        rx = ry = F(rng.choice([5, 6, 7]))
        if rng.random() < .5:
            ry += 3
        if end == (w.x, w.y):
            end = w.x + 1, w.y
    else:
        i, j = rng.randrange(12), rng.randrange(1, 12)
        if rx != ry and rng.random() < .7:
            i, j = rng.choice([0, 3, 6, 9]), rng.choice([3, 6, 9])
        a, b = UNIT[i], UNIT[(i + j) % 12]
        ax, ay = (ry, rx) if phi % 180 == 90 else (rx, ry)
        cx, cy = w.x - ax * a[0], w.y - ay * a[1]
        end = cx + ax * b[0], cy + ay * b[1]
        if a[0] * b[1] != a[1] * b[0]:
            up = a[0] * b[1] - a[1] * b[0] > 0      # less than half a turn
            fs = rng.randrange(2)
            fa = 0 if up == bool(fs) else 1
        if rng.random() < .1:
            rx = -rx
    x, y = end
    p = F(phi)
    if rel:
        x, y = rot(-w.b, x - w.x, y - w.y)
        p -= w.b
    return [rx, ry, p, F(fa), F(fs), x, y]


def segment(rng, w, focus):
    """(t, v) to follow w."""
    while True:
        u = rng.choice('LLHVCQSTSTZZMMMBAAA' if focus != 'flat'
                       else 'LLHVCQQSTSTZZMMBB')
        if w.last == '':
            u = 'M'
        if u == 'M' and not w.drawn and w.last.upper() != 'M':
            continue
        if u == 'M' and not w.drawn and rng.random() < .6:
            continue
        if u in 'ST' and w.last in ('B', 'b', ''):
            continue
        if u == 'B' and rng.random() < .4:
            continue
        break
    if u in 'ST' or rng.random() < .5:
        pass
    t = u.lower() if rng.random() < .5 else u
    if u == 'M' and w.last.upper() == 'M' and not w.drawn:
        t = w.last                        # the run goes on
    if u == 'A':
        return t, arc(rng, w, t == 'a')
    if u == 'B':
        return t, [F(rng.choice([0, 90, 90, 180, -90, 270, 450]))]
    v = [coord(rng) for _ in range(ARGC[u])]
    if u not in 'HVZ' and t.isupper() and rng.random() < .1:
        v[-2:] = [w.x, w.y]
    return t, v


def path(rng, focus, n=None):
    w = Walk()
    out = []
    for _ in range(n or rng.randrange(1, 9)):
        g = segment(rng, w, focus)
        w.take(*g)
        out.append(g)
    return out


def q(v):
    return [[x.numerator, x.denominator] for x in v]


# --- text
def number(rng, x, first):
    n = abs(x)
    s = ('%.6f' % float(n)).rstrip('0').rstrip('.') or '0'
    r = rng.random()
    if r < .15 and '.' not in s:
        s += rng.choice(['.0', '.', '.50'[:1] + '00'])
    elif r < .25 and s.startswith('0.'):
        s = s[1:]
    elif r < .35:
        e = rng.randrange(1, 3)
        s = ('%.8f' % float(n / 10 ** e)).rstrip('0').rstrip('.') or '0'
        s += rng.choice('eE') + rng.choice(['', '+']) + str(e)
    elif r < .42:
        e = rng.randrange(1, 3)
        s = ('%.6f' % float(n * 10 ** e)).rstrip('0').rstrip('.') or '0'
        s += 'e-' + str(e)
    elif r < .47:
        s = '0' + s
    sign = '-' if x < 0 else rng.choice(['', '', '', '', '+']) \
        if not (x == 0 and rng.random() < .3) else '-'
    return sign + s


def spell(rng, segs):
    """Path data text for the segments."""
    s = rng.choice(['', '', ' ', '\n\t'])
    last = None
    for t, v in segs:
        implicit = last == t and t not in 'Zz' and (
            t in 'Mm' or rng.random() < .5)
        sep = rng.choice(['', ' ', '  ', '\n']) if not implicit else ''
        if not implicit:
            s += sep + t + rng.choice(['', '', ' '])
        for i, x in enumerate(v):
            flag = t in 'Aa' and i in (3, 4)
            n = str(int(x)) if flag else number(rng, x, i == 0)
            if i or implicit:
                glue = rng.choice([' ', ',', ' , ', '\n', ', ', '', ''])
                if glue == '':
                    ok = n[0] in '+-' or \
                        (t in 'Aa' and i in (4, 5)) or \
                        (n[0] == '.' and '.' in prev)
                    if not ok:
                        glue = ' '
                s += glue
            s += n
            # what a following '.' may join to
            prev = '' if flag else n.lower().split('e')[0] \
                if 'e' not in n.lower() else '.'
        last = t
    return s + rng.choice(['', '', ' '])


def huge(rng):
    """A path of large numbers, which only text is made of."""
    out = []
    for _ in range(rng.randrange(1, 5)):
        t = rng.choice('MLHVCQ') if out else 'M'
        out.append((rng.choice([t, t.lower()]), [
            F(rng.choice([1, -1]) * rng.randrange(10 ** rng.choice(
                [5, 6, 7]))) + rng.choice([0, 0, F(1, 2)])
            for _ in range(ARGC[t])]))
    return out


def gen(rng, s, focus):
    if focus == 'parse' and rng.random() < .06:
        p = huge(rng)
        if rng.random() < .5:
            return {'name': 'set', 'c': rng.randrange(2),
                    'q': [{'t': t, 'v': q(v)} for t, v in p]}
        return {'name': 'parse', 'c': rng.randrange(2), 's': spell(rng, p)}
    if focus == 'parse' and s.p and decimal(s.p) and any(
            abs(x) > 10 ** 4 for g in s.p for x in g.values) and \
            rng.random() < .7:
        return {'name': rng.choice(['roundtrip', 'text']),
                'c': rng.randrange(3), 'w': ''}
    w = walk(s.p) if angles_ok(s.p) else None
    r = rng.random()
    wild = w is None or len(s.p) == 0 or w.big > 60 or len(s.p) > 14 or any(
        fr(rat(x)).denominator > 100 for g in s.p for x in g.values
        if g.type not in 'Aa')
    if focus == 'parse':
        kinds = ['parse', 'parse', 'roundtrip', 'text', 'push', 'set', 'ends']
    elif focus == 'norm':
        kinds = ['set', 'push', 'push', 'drawing', 'drawing', 'normalize',
                 'parse', 'roundtrip']
    else:
        kinds = ['set', 'push', 'transform', 'transform', 'box', 'length',
                 'length', 'drawing', 'normalize', 'roundtrip']
    k = rng.choice(kinds)
    if (wild and r < .5) or not s.p:
        k = 'set' if focus != 'parse' or r < .1 else 'parse'
    c = rng.randrange(3)
    style = 'flat' if rng.random() < .3 else ''
    if k == 'parse':
        return {'name': k, 'c': c % 2, 's': spell(rng, path(rng, style))}
    if k == 'set':
        return {'name': k, 'c': c % 2,
                'q': [{'t': t, 'v': q(v)} for t, v in path(rng, style)]}
    if wild:
        if k == 'ends':
            return {'name': k}
        return None
    if k == 'push':
        t, v = segment(rng, w, style)
        return {'name': k, 'c': c % 2, 'g': {'t': t, 'v': q(v)}}
    if k == 'ends':
        return {'name': k}
    if k in ('roundtrip', 'text'):
        if not decimal(s.p):
            return None
        return {'name': k, 'c': c, 'w': ''}
    arcs = any(g.type in 'Aa' for g in s.p)
    if k == 'normalize':
        if arcs:
            return None
        return {'name': k, 'c': int(c == 1 and decimal(s.p))}
    if k == 'drawing':
        if w.big > 30 or any(
                max(a[2:4]) > 12 or not plain(a) for a in w.arcs):
            return None
        return {'name': k, 'w': []}
    if k == 'transform':
        m = [F(rng.choice([0, 1, -1, 1, 2, F(1, 2)])) for _ in range(4)]
        z = rng.random()
        if z < .3:
            m[1] = m[2] = F(0)
        elif z < .5:
            m = list(rng.choice([(0, 1, -1, 0), (0, 1, 1, 0), (-1, 0, 0, 1),
                                 (1, 0, 0, -1), (2, 0, 0, 2), (1, 0, 0, 1),
                                 (1, 0, 1, 1), (1, 1, 0, 1)]))
            m = [F(x) for x in m]
        m += [coord(rng), coord(rng)] if rng.random() < .6 else [F(0), F(0)]
        if any(max(a[2:4]) > 12 for a in w.arcs):
            return None
        return {'name': k, 'm': q(m)}
    if w.last.upper() == 'M' and not w.drawn and \
            not (len(s.p) > 1 and s.p[-2].type in 'Mm'):
        return None
    if not all(upright(a) for a in w.arcs):
        return None
    if k == 'box':
        if not all(plain(a) for a in w.arcs):
            return None
        return {'name': k, 'w': []}
    return {'name': 'length', 'c': int(c == 1 and decimal(s.p)), 'w': 0}


def pick(rng, focus):
    def fn(s):
        for _ in range(20):
            op = gen(rng, s, focus)
            if op is not None:
                return op
        return None
    return fn


def behaviours(rng, tier, focus=''):
    n = 700 if tier == 'quick' else 3000
    for i in range(n):
        k = rng.randrange(4, 24)
        yield 'p%d' % i, {'p': []}, [pick(rng, focus)] * k
