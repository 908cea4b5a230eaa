"""Drives lengths, basic shapes, viewports and coordinate systems: SVGLength,
the shape elements, 'viewBox', 'preserveAspectRatio' and the CTM."""

import operator
from fractions import Fraction as F

from svgpy import SVGDOMImplementation, SVGLength
from svgpy.base import SVGPreserveAspectRatio
from svgpy.element import SVGPathDataSettings
from svgpy.window import Window

from harness.driver import Unrepresentable
from harness.num import Large, Q, num, nums, rat, rats
from harness.path import isq, seg_obs

NS = 'http://www.w3.org/2000/svg'
XLINK = '{http://www.w3.org/1999/xlink}'
ALIGN = {0: 'unknown', 1: 'none', 2: 'xMinYMin', 3: 'xMidYMin',
         4: 'xMaxYMin', 5: 'xMinYMid', 6: 'xMidYMid', 7: 'xMaxYMid',
         8: 'xMinYMax', 9: 'xMidYMax', 10: 'xMaxYMax'}
DIR = {0: SVGLength.DIRECTION_UNSPECIFIED, 1: SVGLength.DIRECTION_HORIZONTAL,
       2: SVGLength.DIRECTION_VERTICAL, 3: None}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul,
        '/': operator.itruediv}
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv}
CMP = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
       operator.ge]


def key(n):
    return n.replace('xlink:', XLINK)


def mat6(m):
    return rats([m.a, m.b, m.c, m.d, m.e, m.f])


class System(object):
    bad = ''

    def __init__(self, start):
        self.win = Window(SVGDOMImplementation())
        self.win.inner_width, self.win.inner_height = nums(start['win'])
        doc = self.win.document
        self.e = []
        self.par = [None]
        for i, n in enumerate(start['nodes']):
            e = doc.create_element_ns(NS, n['tag'])
            for k, v in n['a'].items():
                e.set(key(k), v)
            if i == 0:
                root = doc.document_element
                if root is not None:
                    doc.remove_child(root)
                doc.append(e)
            else:
                self.e[n['par'] - 1].append_child(e)
            self.e.append(e)
        self.L = []
        self.ctx = {}

    def put(self, i, x):
        if i > len(self.L):
            self.L.append(x)
        else:
            self.L[i - 1] = x

    def apply(self, op):
        try:
            v = self.do(op)
        except ValueError as e:
            return {'r': 'ValueError'} if op['name'] in (
                'mk', 'bin', 'conv', 'val', 'cmp', 'text') else {
                'r': 'exc:ValueError: %s' % str(e)[:80]}
        except Unrepresentable as e:
            return {'r': 'unrepresentable %s' % e}
        except Exception as e:
            return {'r': 'exc:%s: %s' % (type(e).__name__, str(e)[:80])}
        return {'r': 'ok'} if v is None else {'r': 'ok', 'v': v}

    def do(self, op):
        n = op['name']
        e = self.e[op['e'] - 1] if 'e' in op else None
        if n == 'set':
            e.set(key(op['n']), op['v'])
        elif n == 'rem':
            e.attributes.remove_named_item(op['n']) if op.get('c') and \
                op['n'] in e.attrib else e.attrib.pop(key(op['n']), None)
        elif n == 'resize':
            self.win.inner_width, self.win.inner_height = nums(op['v'])
        elif n == 'points':
            e.points = [nums(p) for p in op['q']]
        elif n == 'getpoints':
            return [rats(p) for p in e.points]
        elif n == 'zoom':
            k, x, y = nums(op['v'])
            e.current_scale = k
            e.current_translate = x, y
        elif n == 'view':
            return [rat(x.value()) for x in e.get_viewport_size()]
        elif n == 'box4':
            b = e.view_box
            return [] if b is None else [rat(x.value()) for x in b]
        elif n == 'par':
            p = e.preserve_aspect_ratio
            return [ALIGN[p.align], 'slice' if p.meet_or_slice ==
                    p.SVG_MEETORSLICE_SLICE else 'meet']
        elif n == 'zoomed':
            return [rat(x) for x in (e.current_scale,) + tuple(
                e.current_translate)]
        elif n == 'partext':
            t = op['v'] + (' ' + op['m'] if op['c'] else '')
            return SVGPreserveAspectRatio(t).tostring()
        elif n == 'ctm':
            return mat6(e.get_screen_ctm() if op['far'] else e.get_ctm())
        elif n == 'vtm':
            return mat6(e.get_viewport_transformation_matrix(recursive=False))
        elif n == 'geom':
            g = e.get_computed_geometry()
            return {k: rat(v) for k, v in g.items()}
        elif n == 'path':
            s = None
            if op['norm']:
                s = SVGPathDataSettings()
                s.normalize = True
            p = e.get_transformed_path_data(s) if op['outer'] \
                else e.get_path_data(s)
            return [seg_obs(g) for g in p]
        elif n == 'bbox':
            b = e.get_bbox()
            q = [b.left, b.top, b.right, b.bottom]
            op['w'] = [] if None in q else [round(x * 256) for x in q]
        elif n == 'length':
            op['w'] = round(e.get_total_length() * 256)
        else:
            return self.length(op)

    def length(self, op):
        n = op['name']
        L = self.L
        x = L[op['i'] - 1] if op['i'] <= len(L) else None
        y = L[op['j'] - 1] if 'j' in op else None
        u = (op.get('u') or None)
        if n in ('mk', 'new'):
            c = self.e[op['c'] - 1] if op['c'] else None
            if n == 'mk':
                z = SVGLength(op['s'], context=c, direction=DIR[op['d']])
            elif u is None:
                z = SVGLength(num(op['n']), context=c, direction=DIR[op['d']])
            else:
                z = SVGLength(num(op['n']), u, context=c,
                              direction=DIR[op['d']])
            self.put(op['i'], z)
        elif n == 'reset':
            x.new_value(num(op['n']), u)
        elif n == 'bin':
            if op['k'] == op['i']:
                z = IOPS[op['f']](x, y)
                if z is not x:
                    self.bad = 'another object'
            else:
                self.put(op['k'], OPS[op['f']](x, y))
        elif n == 'sc':
            f, v = op['f'], num(op['v'])
            if f in OPS:
                z = (IOPS if op['k'] == op['i'] else OPS)[f](x, v)
            elif f == 'r*':
                z = v * x
            else:
                z = {'neg': operator.neg, 'abs': operator.abs,
                     'pos': operator.pos}[f](x)
            self.put(op['k'], z)
        elif n == 'conv':
            x.convert(u)
        elif n == 'val':
            return rat(x.value(u, direction=DIR[op['d']]))
        elif n == 'cmp':
            return [1 if f(x, y) else 0 for f in CMP]
        elif n == 'text':
            return x.tostring(u) if op['u'] or x.unit is None \
                else x.tostring()

    def state(self):
        return {'lens': [[rat(x.value(x.unit)), x.unit or '']
                         for x in self.L],
                'attrs': [{k.replace(XLINK, 'xlink:'): v
                           for k, v in e.attrib.items()} for e in self.e]}


# ------------------------------------------------------------- generators
SHAPES = ['rect', 'circle', 'ellipse', 'line', 'path', 'polygon', 'polyline']
SIZES = [10, 20, 40, 50, 80, 100, 160, 200, 400]
FONT = ['em', 'rem']
UNITS = ['px', 'in', 'cm', 'mm', 'q', 'pt', 'pc', 'em', 'rem', '%', 'vw',
         'vh', 'vmin', 'vmax', 'dpi', 'dpcm', 'dppx', '']


def dec(x):
    s = ('%.6f' % float(x)).rstrip('0').rstrip('.')
    return s or '0'


def sp(rng, x):
    """A spelling of a number."""
    s = dec(x)
    r = rng.random()
    if r < .1 and '.' not in s:
        return s + '.0'
    if r < .15 and x > 0:
        return '+' + s
    if r < .2 and s.startswith('0.'):
        return s[1:]
    if r < .25 and x == int(x) and x % 10 == 0 and x:
        return dec(F(x) / 10) + rng.choice('eE') + '1'
    return s


def case(rng, u):
    return u.upper() if rng.random() < .08 else u


def pos(rng):
    """A coordinate."""
    r = rng.random()
    if r < .3:
        return sp(rng, F(rng.randint(-20, 40)))
    if r < .4:
        return '0'
    if r < .5:
        return sp(rng, F(rng.randint(-40, 80), rng.choice([2, 4, 5])))
    if r < .75:
        return sp(rng, F(rng.choice([0, 5, 10, 20, 25, 50, 75, 100, -10]))
                  ) + '%'
    if r < .85:
        return dec(F(rng.choice([1, 2, -1, F(1, 2), 3]))) + case(
            rng, rng.choice(['em', 'rem', 'px', 'pc', 'in', 'pt']))
    return dec(F(rng.choice([5, 10, 50, 100, 20]))) + rng.choice(
        ['vw', 'vh', 'vmin', 'vmax'])


def size(rng, neg=.1):
    r = rng.random()
    if r < .45:
        return sp(rng, F(rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 20, 30, 2000,
                                     F(1, 2), F(5, 2), F(1, 20)])))
    if r < .5:
        return '0'
    if r < .5 + neg:
        return rng.choice(['-3', '-1.5', '-10%', '0%'])
    if r < .8:
        return dec(F(rng.choice([5, 10, 20, 25, 50, 100]))) + '%'
    return dec(F(rng.choice([1, 2, F(1, 2), F(3, 2)]))) + case(
        rng, rng.choice(['em', 'rem', 'px', 'pc', 'pt', 'vw', 'vh', 'vmin',
                         'vmax']))


def vpsize(rng):
    r = rng.random()
    if r < .45:
        return sp(rng, F(rng.choice(SIZES)))
    if r < .75:
        return dec(F(rng.choice([10, 20, 25, 50, 80, 100, 200]))) + '%'
    if r < .85:
        return dec(F(rng.choice([1, 2, 5, F(5, 2)]))) + rng.choice(
            ['em', 'rem', 'in', 'pc', 'px'])
    if r < .95:
        return dec(F(rng.choice([20, 25, 50, 100]))) + rng.choice(
            ['vw', 'vh', 'vmin', 'vmax'])
    return rng.choice(['auto', 'inherit'])


def viewbox(rng):
    r = rng.random()
    if r < .12:
        return rng.choice(['', '0 0 10', '0 0 -10 10', '0 0 10 -10',
                           'a b c d', '0 0 10 10 10', 'none', '0 0 x 10',
                           '10', '0,0,10'])
    q = [F(rng.choice([0, 0, 5, -10, 10, 20, F(5, 2)])),
         F(rng.choice([0, 0, 5, -10, 10, -20, F(1, 2)])),
         F(rng.choice(SIZES)), F(rng.choice(SIZES))]
    s = rng.choice([' ', ' ', ' ', ',', ', ', ' , ', '\n', '  '])
    t = s.join(sp(rng, x) for x in q)
    return rng.choice(['', '', '', ' ', '\n']) + t + rng.choice(
        ['', '', '', ' ', '\t'])


def partext(rng):
    r = rng.random()
    a = rng.choice(list(ALIGN.values())[1:])
    if r < .1:
        return rng.choice(['', 'foo', 'foo slice', 'xmidymid', 'meet',
                           'slice', 'XMIDYMID meet'])
    if r < .35:
        return a
    return a + rng.choice([' ', ' ', '  ', '\t']) + rng.choice(
        ['meet', 'slice', 'slice', 'meet', 'foo'])


def tf1(rng, kind):
    n = lambda: dec(F(rng.choice([0, 1, 2, 5, -3, 10, -10, F(5, 2)])))
    k = lambda: dec(F(rng.choice([1, 2, -1, F(1, 2), 2, -2, 4])))
    sep = rng.choice([',', ' ', ', '])
    r = rng.random()
    if r < .35:
        a = [n()] + ([n()] if rng.random() < .7 else [])
        return 'translate(%s)' % sep.join(a)
    if r < .6:
        a = [k()] + ([k()] if rng.random() < .5 else [])
        return 'scale(%s)' % sep.join(a)
    if r < .8:
        a = [str(rng.choice([0, 90, 180, 270, -90, 360]))]
        if rng.random() < .4:
            a += [n(), n()]
        return 'rotate(%s)' % sep.join(a)
    if kind == 'free' and r < .9:
        return rng.choice(['skewX(45)', 'skewY(45)', 'skewX(-45)',
                           'skewY(0)'])
    if kind == 'free':
        a = [k(), n(), '1', k(), n(), n()]
    else:
        a = [k(), '0', '0', k(), n(), n()] if rng.random() < .6 else \
            ['0', k(), k(), '0', n(), n()]
    return 'matrix(%s)' % sep.join(a)


def tf(rng, kind):
    r = rng.random()
    if r < .1:
        return rng.choice(['none', '', ' '])
    return rng.choice([' ', ' ', ', ']).join(
        tf1(rng, kind) for _ in range(rng.choice([1, 1, 2, 3])))


def points(rng):
    n = rng.choice([0, 2, 2, 3, 3, 4, 5])
    q = [F(rng.choice([0, 0, 1, 5, 10, -4, 20, F(5, 2), F(-1, 2)]))
         for _ in range(2 * n)]
    r = rng.random()
    if r < .1:
        q = q[:-1]
    if r < .5:
        return ' '.join(','.join(sp(rng, x) for x in q[i:i + 2])
                        for i in range(0, len(q), 2))
    return rng.choice([' ', ',', ', ', '\n']).join(sp(rng, x) for x in q)


def pathdata(rng):
    if rng.random() < .12:
        return rng.choice(['none', ''])
    n = lambda: dec(F(rng.choice([0, 0, 1, 5, 10, -4, 20, F(5, 2)])))
    s = 'M%s,%s' % (n(), n())
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice('LLlHVhvz')
        s += k + {'L': lambda: n() + ' ' + n(), 'l': lambda: n() + ',' + n()
                  }.get(k, lambda: '' if k == 'z' else n())()
    return s


CTX = ['x', 'y', 'width', 'height', 'viewBox', 'preserveAspectRatio',
       'transform']
ATTRS = {'svg': CTX, 'symbol': ['viewBox', 'preserveAspectRatio', 'width',
                                'height', 'x', 'y'],
         'g': ['transform', 'transform', 'display'],
         'defs': ['transform', 'display'],
         'use': ['x', 'y', 'transform', 'href', 'display', 'xlink:href'],
         'rect': ['x', 'y', 'width', 'height', 'rx', 'ry', 'transform',
                  'display'],
         'circle': ['cx', 'cy', 'r', 'transform', 'display'],
         'ellipse': ['cx', 'cy', 'rx', 'ry', 'transform', 'display'],
         'line': ['x1', 'y1', 'x2', 'y2', 'transform', 'display'],
         'path': ['d', 'transform', 'display'],
         'polygon': ['points', 'transform', 'display'],
         'polyline': ['points', 'transform', 'display']}


def value(rng, nodes, e, n):
    """A value of attribute n of the node at index e (from 0), or None."""
    t = nodes[e]['tag']
    if n == 'transform':
        free = t in ('line', 'path', 'polygon', 'polyline') or \
            (t == 'rect' and not ({'rx', 'ry'} & set(nodes[e]['a'])))
        if free and any(kind_arc(nodes, x) for x in [e]):
            free = False
        return tf(rng, 'free' if free and rng.random() < .5 else 'axis')
    if n == 'display':
        return rng.choice(['none', 'inline', 'block'])
    if n == 'viewBox':
        return viewbox(rng)
    if n == 'preserveAspectRatio':
        return partext(rng)
    if n == 'points':
        return points(rng)
    if n == 'd':
        return pathdata(rng)
    if n in ('href', 'xlink:href'):
        k = [x['a']['id'] for x in nodes if 'id' in x['a'] and
             (x['tag'] in SHAPES or (x['tag'] == 'g' and
                                     not x['a'].get('uses')))]
        k = [i for i in k if not i.startswith('u')]
        return '#' + rng.choice(k) if k and rng.random() < .85 else \
            rng.choice(['', '#none'])
    if n == 'font-size':
        return rng.choice(['10', '20', '32px', '12pt', '2pc', '1in', '40'])
    if t in ('svg', 'symbol'):
        if n in 'xy' and e == 0:
            return None
        # em there is a known finding where a font size is specified
        t = pos(rng) if n in 'xy' else vpsize(rng)
        return t if t.endswith('rem') or not (e == 0 or nodes[e].get('fs')) \
            else t.replace('em', 'rem')
    if n in ('width', 'height'):
        return rng.choice(['auto', 'inherit']) if rng.random() < .15 \
            else size(rng)
    if n in ('rx', 'ry', 'r'):
        if n != 'r' and rng.random() < .1:
            return 'auto'
        if t == 'rect' and skewed(nodes, e):
            return None
        s = size(rng)
        if n == 'r' and '%' in s and rng.random() < .3:
            s = s.replace('%', '')
        return s
    return pos(rng)


def kind_arc(nodes, e):
    t, a = nodes[e]['tag'], nodes[e]['a']
    return t in ('circle', 'ellipse') or (
        t == 'rect' and bool({'rx', 'ry'} & set(a)))


def skewed(nodes, e):
    t = nodes[e]['a'].get('transform', '')
    return 'skew' in t or 'matrix' in t


def tree(rng, focus=''):
    nodes = [{'tag': 'svg', 'par': 0, 'a': {}}]
    if focus == 'len' and rng.random() < .4:
        # a font size that differs, above a viewport
        nodes += [{'tag': 'g', 'par': 1, 'a': {'font-size': rng.choice(
            ['20', '32px', '2pc', '40'])}},
            {'tag': 'svg', 'par': 2, 'a': {}}, {'tag': 'rect', 'par': 3, 'a': {}}]
    elif rng.random() < .03:
        nodes[0]['tag'] = 'g'
    n = rng.randrange(2, 10)
    while len(nodes) < n:
        k = [i for i, x in enumerate(nodes)
             if x['tag'] in ('svg', 'g', 'defs', 'symbol')]
        # document order: the parent is on the path to the last node
        up, i = [], len(nodes)
        while i:
            up.append(i - 1)
            i = nodes[i - 1]['par']
        k = [i for i in k if i in up]
        p = rng.choice(k) if rng.random() < .5 else k[-1]
        t = rng.choice(['svg', 'svg', 'g', 'g', 'g', 'defs', 'use', 'use',
                        'symbol'] + SHAPES + ['rect'])
        if t == 'symbol' and nodes[0]['tag'] == 'g':
            continue
        if t in ('svg', 'g', 'defs', 'symbol') and len(up) > 4:
            t = rng.choice(SHAPES)
        nodes.append({'tag': t, 'par': p + 1, 'a': {}})
    for i, x in enumerate(nodes):
        if x['tag'] in SHAPES and rng.random() < .7:
            x['a']['id'] = 's%d' % rng.randrange(4)
        if x['tag'] == 'g' and rng.random() < .5 and not any(
                y['tag'] in ('use', 'symbol', 'svg') and
                below(nodes, j, i) for j, y in enumerate(nodes)):
            x['a']['id'] = 'g%d' % i
    for i, x in enumerate(nodes):
        if i and x['tag'] == 'svg' and rng.random() < .3:
            x['fs'] = True                      # has a font size of its own
    for i, x in enumerate(nodes):
        if (x['tag'] == 'g' or i == 0 or x.get('fs')) and rng.random() < (
                .6 if x.get('fs') else .3):
            x['a']['font-size'] = value(rng, nodes, i, 'font-size')
        for n in dict.fromkeys(ATTRS[x['tag']]):
            p = .15 if n == 'display' else .45 if n == 'transform' else .7
            if rng.random() < p:
                v = value(rng, nodes, i, n)
                if v is not None:
                    x['a'][n] = v
    for x in nodes:
        if x['tag'] == 'use' and 'href' not in x['a'] and rng.random() < .5:
            x['a']['href'] = value(rng, nodes, nodes.index(x), 'href')
    return nodes


def below(nodes, j, i):
    while j >= 0:
        if j == i:
            return True
        j = nodes[j]['par'] - 1
    return False


class Gen(object):
    def __init__(self, rng, focus, nodes):
        self.rng, self.focus, self.nodes = rng, focus, nodes
        self.L = []          # mirrors what the lengths refer to: (c, d)

    # -- what a query may be asked for
    def arcs(self, e):
        """Arcs in what e draws."""
        return any(kind_arc(self.nodes, j) for j in self.drawn(e))

    def drawn(self, e):
        out = []
        for j, x in enumerate(self.nodes):
            if below(self.nodes, j, e):
                out.append(j)
                if x['tag'] == 'use':
                    h = x['a'].get('href') or x['a'].get('xlink:href', '')
                    for k, y in enumerate(self.nodes):
                        if h and y['a'].get('id', '') == h[1:]:
                            out += self.drawn(k)
        return out

    def free(self, e):
        """Some transform in what e draws is not axis-preserving."""
        return any(skewed(self.nodes, j) for j in self.drawn(e))

    def sane(self, s, op, most=3000):
        """The result is of a magnitude the specification computes with."""
        try:
            if op['name'] == 'path' and any(
                    abs(x) > most for g in
                    s.e[op['e'] - 1].get_transformed_path_data()
                    for x in g.values):
                return False
            out = s.do(dict(op))
        except Large:
            return False
        except Exception:
            return True

        def small(v):
            if isinstance(v, dict):
                return all(small(x) for x in v.values() if
                           not isinstance(x, str))
            if isinstance(v, list) and len(v) == 2 and all(
                    isinstance(x, int) for x in v):
                return abs(v[0]) < most * v[1] and v[1] <= 1000 and \
                    abs(v[0]) < 400000
            if isinstance(v, list):
                return all(small(x) for x in v)
            return True
        return small(out)

    def op(self, s):
        for _ in range(20):
            op = self.try_(s)
            if op is not None:
                return op
        return None

    def edit(self, s, names):
        rng, nodes = self.rng, self.nodes
        e = rng.randrange(len(nodes))
        k = [n for n in ATTRS[nodes[e]['tag']] if n in names or not names]
        if (nodes[e]['tag'] == 'g' or e == 0 or nodes[e].get('fs')) and \
                rng.random() < .15:
            k = ['font-size']
        if not k:
            return None
        n = rng.choice(k)
        if rng.random() < .15 and n in nodes[e]['a']:
            del nodes[e]['a'][n]
            return {'name': 'rem', 'e': e + 1, 'n': n, 'c': rng.randrange(2)}
        v = value(rng, nodes, e, n)
        if v is None or (n == 'transform' and skew_text(v) and
                         kind_arc(nodes, e)):
            return None
        nodes[e]['a'][n] = v
        return {'name': 'set', 'e': e + 1, 'n': n, 'v': v}

    def try_(self, s):
        rng, nodes, f = self.rng, self.nodes, self.focus
        if f == 'len':
            return self.length(s)
        r = rng.random()
        if r < .35:
            return self.edit(s, CTX if f == 'view' else
                             () if r < .28 else ('width', 'height', 'viewBox'))
        if r < .38:
            return {'name': 'resize', 'v': [Q(rng.choice([100, 200, 400, 800])),
                                            Q(rng.choice([100, 200, 600]))]}
        e = rng.randrange(len(nodes))
        t = nodes[e]['tag']
        if f == 'view':
            n = rng.choice(['view', 'box4', 'par', 'ctm', 'ctm', 'ctm', 'vtm',
                            'zoom', 'zoom', 'zoomed', 'partext'])
            op = {'name': n, 'e': e + 1}
            if n in ('box4', 'par', 'vtm', 'zoom', 'zoomed') and t not in (
                    ('svg',) if n[:4] == 'zoom' else ('svg', 'symbol')):
                return None
            if n == 'partext':
                a = rng.choice([a for a in list(ALIGN.values())[1:]
                                if a != 'xMinYMid'])    # a known finding
                m = rng.choice(['meet', 'slice'])
                return {'name': n, 'v': a, 'm': m,
                        'c': 1 if m == 'slice' else rng.randrange(2)}
            if n == 'zoom':
                op['v'] = [Q(rng.choice([1, 2, 3]), rng.choice([1, 2])),
                           Q(rng.choice([0, 5, -10])), Q(rng.choice([0, 7]))]
                return op
            if n == 'ctm':
                if t == 'symbol' or self.free_up(e):
                    return None
                op['far'] = rng.random() < .5
            return op if self.sane(s, op) else None
        n = rng.choice(['geom', 'path', 'path', 'bbox', 'bbox', 'length',
                        'points', 'getpoints'])
        op = {'name': n, 'e': e + 1}
        if n in ('points', 'getpoints'):
            if t not in ('polygon', 'polyline'):
                return None
            if n == 'points':
                op['q'] = [[Q(rng.randint(-20, 20), rng.choice([1, 2, 5])),
                            Q(rng.randint(-20, 20))]
                           for _ in range(rng.choice([0, 2, 3, 4]))]
                nodes[e]['a']['points'] = '?'
            return op
        if n == 'geom':
            if t not in ('rect', 'ellipse', 'circle', 'line', 'use', 'svg'):
                return None
        elif n == 'path':
            if t in ('defs', 'symbol'):
                return None
            op['outer'] = rng.random() < .5
            op['norm'] = rng.random() < .5 and not self.arcs(e)
        elif n == 'bbox':
            if t == 'symbol':
                return None
            op['w'] = []
        else:
            if t not in SHAPES:
                return None
            op['w'] = 0
        if any(nodes[j]['tag'] in ('defs', 'symbol') for j in self.drawn(e)) \
                and n == 'path':
            return None
        if self.free(e) and self.arcs(e):
            return None
        if any(nodes[j]['tag'] == 'circle' and
               '%' in nodes[j]['a'].get('r', '') and
               self.per(s, j + 1, 0, '%') is None for j in self.drawn(e)):
            return None                                # an irrational radius
        if n in ('bbox', 'length') and not self.sane(
                s, {'name': 'path', 'e': e + 1, 'outer': True,
                    'norm': False}, 100):
            return None
        return op if self.sane(s, op) else None

    def free_up(self, e):
        return False

    # -- lengths
    def per(self, s, c, d, u):
        """Size of a unit, from the code itself: only to keep numbers small.
        """
        if u == '%' and d == 0:
            w, h = self.per(s, c, 1, u), self.per(s, c, 2, u)
            if w is None or h is None or isq((w * w + h * h) / 2) is None:
                return None
        try:
            x = SVGLength(1, u or 'px', context=s.e[c - 1] if c else None,
                          direction=DIR[d])
            if u in ('dpi', 'dpcm', 'dppx'):
                v = x.value('dppx')
            else:
                v = x.value(None)
            return F(*rat(v))
        except Unrepresentable:
            return None
        except Exception:
            return F(1)

    def fine(self, x):
        return x is not None and x.denominator <= 1500 and \
            abs(x.numerator) < 10 ** 6 and abs(x) < 50000

    def conv(self, s, i, u, like=None, d=None):
        """What length i is in u (of length like); None if it cannot be told.
        """
        c, dd = self.L[i - 1]
        d = dd if d is None else d
        cc, cd = self.L[like - 1] if like else (c, d)
        x = s.L[i - 1]
        try:
            n = F(*rat(x.value(x.unit)))
        except Unrepresentable:
            return None
        xu = x.unit or ''
        if xu == u and (c, d) == (cc, cd):
            return n
        if (xu in RES) != (u in RES):
            return n
        a, b = self.per(s, c, d, xu), self.per(s, cc, cd, u)
        if a is None or b is None or b == 0:
            return None
        return n * a / b

    def length(self, s):
        rng, nodes = self.rng, self.nodes
        r = rng.random()
        if r < .12:
            return self.edit(s, ('width', 'height', 'viewBox'))
        m = len(s.L)
        if m < 2 or r < .3:
            i = m + 1 if m < 4 else rng.randrange(1, 5)
            c = rng.randrange(len(nodes) + 1) if rng.random() < .8 else 0
            if c and nodes[c - 1]['tag'] not in (
                    'svg', 'rect', 'circle', 'line', 'path'):
                return None
            if c == 1 or (c and nodes[c - 1].get('fs')):
                c = 0
            d = rng.choice([1, 1, 2, 2, 3, 0])
            u = rng.choice(UNITS if rng.random() < .8 else
                           ['%', 'em', 'vw', 'px', 'rem', 'rem'])
            if not c and rng.random() < .15:
                u = rng.choice(['ex', 'cap', 'ch', 'ic'])
            if d == 0 and u == '%' and self.per(s, c, d, u) is None:
                return None
            n = F(rng.choice([0, 1, 2, 3, 5, 10, 12, 25, 50, 96, 100, -1, -4,
                              F(1, 2), F(5, 2), F(1, 4), -8]))
            k = [i, c, d]
            if rng.random() < .6:
                if rng.random() < .06:
                    op = {'name': 'mk', 's': rng.choice(
                        ['', 'px', 'foo', '10foo', 'auto', '-', '5 %', '.',
                         '1e', '3e2px', '2.px', ' 4 px'])}
                    if op['s'] in ('5 %', '3e2px', '2.px', ' 4 px'):
                        self.note(i, c, d)
                    return dict(op, i=i, c=c, d=d)
                t = sp(rng, n) + case(rng, u)
                if rng.random() < .1:
                    t = ' ' + t + rng.choice(['', ' ', '\n'])
                op = {'name': 'mk', 's': t}
            else:
                op = {'name': 'new', 'n': Q(n), 'u': u}
            op.update(i=i, c=c, d=d)
            self.note(i, c, d)
            return op
        i = rng.randrange(1, m + 1)
        j = rng.randrange(1, m + 1)
        k = rng.choice([i, rng.randrange(1, min(m + 1, 4) + 1)])
        n = rng.choice(['bin', 'bin', 'bin', 'sc', 'conv', 'val', 'val',
                        'cmp', 'cmp', 'text', 'text', 'reset'])
        op = {'name': n, 'i': i}
        xu = s.L[i - 1].unit or ''
        yu = s.L[j - 1].unit or ''
        if n == 'reset':
            op.update(n=Q(rng.choice([0, 1, 5, -2, 50])),
                      u=rng.choice(['px', 'em', '%', 'mm', '']))
            if self.L[i - 1][1] == 0:
                return None
            return op
        if n == 'sc':
            f = rng.choice(['*', '/', 'r*', 'neg', 'abs', 'pos'])
            v = F(rng.choice([2, 3, -1, F(1, 2), 4, F(5, 2)]))
            op.update(f=f, k=k, v=Q(v))
            x = self.conv(s, i, xu)
            y = x * v if f in ('*', 'r*') else x / v if f == '/' else x
            if not self.fine(y):
                return None
            self.note(k, *self.L[i - 1])
            return op
        if n in ('bin', 'cmp'):
            op['j'] = j
            if {xu, yu} & {'ex', 'cap', 'ch', 'ic'} and (
                    self.L[i - 1][0] or self.L[j - 1][0]):
                return None               # depends on the fonts there are
            if n == 'bin':
                f = rng.choice('++--*/')
                op.update(k=k, f=f)
                u = xu or yu
                a, b = self.conv(s, i, u), self.conv(s, j, u, i)
                if not self.fine(a) or not self.fine(b) or (f == '/' and not b):
                    return None
                z = {'+': a + b, '-': a - b, '*': a * b,
                     '/': a / (b or 1)}[f]
                if not self.fine(z):
                    return None
                if (xu in RES) == (yu in RES):
                    self.note(k, *self.L[i - 1])
            else:
                if not self.fine(self.conv(s, j, xu, i)):
                    return None
            return op
        c, d = self.L[i - 1]
        u = rng.choice(UNITS)
        if not c and rng.random() < .2:
            u = rng.choice(['ex', 'cap', 'ch', 'ic'])
        op['u'] = u
        dd = d
        if n == 'val':
            op['d'] = rng.choice([3, 3, 1, 2, 0])
            dd = op['d'] if op['d'] != 3 else d
        if xu == '' and u == '' and n == 'conv':
            return None
        x = self.conv(s, i, u, None, dd)
        if not self.fine(x):
            return None
        if n == 'text':
            if rng.random() < .5:
                op['u'] = u = xu
                x = self.conv(s, i, u)
            elif u == '':
                op['u'] = u = xu
                x = self.conv(s, i, u)
            if x is None or 10000 % x.denominator or abs(x) > 9999:
                return None
        return op

    def note(self, i, c, d):
        if i > len(self.L):
            self.L.append((c, d))
        else:
            self.L[i - 1] = (c, d)


RES = ('dpi', 'dpcm', 'dppx')


def skew_text(v):
    return 'skew' in v or 'matrix' in v


def start(rng, focus=''):
    nodes = tree(rng, focus)
    win = rng.choice([(200, 100), (400, 400), (100, 200), (800, 600),
                      (70, 490), (160, 160)])
    return {'nodes': nodes, 'win': [Q(win[0]), Q(win[1])]}


def behaviours(rng, tier, focus=''):
    n = 450 if tier == 'quick' else 2500
    for i in range(n):
        st = start(rng, focus)
        g = Gen(rng, focus, [dict(x, a=dict(x['a'])) for x in st['nodes']])
        yield 'l%d' % i, st, [g.op] * rng.randrange(5, 30)
