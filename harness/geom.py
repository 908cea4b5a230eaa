"""Drives DOMMatrix(ReadOnly) and DOMRect(ReadOnly)."""

from fractions import Fraction
from math import lcm

from svgpy.geometry.matrix import DOMMatrix, DOMMatrixReadOnly
from svgpy.geometry.rect import DOMRect, DOMRectReadOnly

from harness.num import (NONUM, Q, RIGHT, TRIPLES, degrees, fr, num, nums,
                         rat, rats, tan_degrees)

COMPS = ['m%d%d' % (c, r) for c in (1, 2, 3, 4) for r in (1, 2, 3, 4)]
ALIAS = {'a': 'm11', 'b': 'm12', 'c': 'm21', 'd': 'm22', 'e': 'm41',
         'f': 'm42'}


class System(object):
    bad = ''

    def __init__(self, start):
        self.M = []
        self.R = []

    def apply(self, op):
        try:
            r = self.mat(op) if op['name'] == 'm' else self.rect(op)
        except (TypeError, ValueError) as e:
            return {'r': type(e).__name__, 'v': [], 's': []}
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__, 'v': [], 's': []}
        v, s = r if r is not None else ([], [])
        return {'r': 'ok', 'v': rats(v), 's': s}

    def put(self, objs, op, res, cls):
        if op['w'] == 0:
            if res is not objs[op['i'] - 1]:
                self.bad = 'the changed object is not returned'
        else:
            if any(res is x for x in objs):
                self.bad = 'an existing object is returned'
            if type(res) is not cls:
                self.bad = 'result of type %s' % type(res)
            objs.append(res)

    def mat(self, op):
        f = op['f']
        M = self.M
        ro = op.get('ro')
        cls = DOMMatrixReadOnly if ro else DOMMatrix
        if f == 'new':
            if op['w'] == 0:
                M.append(cls(nums(op['v'])))
            else:
                M.append(cls.from_float_array(nums(op['v'])))
            if type(M[-1]) is not cls:
                self.bad = 'result of type %s' % type(M[-1])
            return
        if f == 'dict':
            kw = {n: num(v) for n, v in op['kw']}
            if op['is2'] != -1:
                kw['is2d'] = bool(op['is2'])
            if op['bad']:
                kw[op['bad']] = 1
            M.append(cls(**kw) if op['w'] == 0 else cls.from_matrix(kw))
            return
        m = M[op['i'] - 1]
        w = op['w']

        def put(name, *args):
            fn = getattr(m, name + '_self' if w == 0 else name)
            self.put(M, op, fn(*args), DOMMatrix)

        if f == 'json':
            M.append(cls(**m.tojson()) if w == 0 else cls(m.tolist()))
        elif f == 'mul':
            o = M[op['j'] - 1]
            if w == 2:
                self.put(M, op, m * o, DOMMatrix)
            elif w == 3:
                op['w'] = 0
                x = m
                x *= o
                self.put(M, op, x, DOMMatrix)
            else:
                put('multiply', o)
        elif f == 'translate':
            t = nums(op['t'])
            put('translate', *t) if t[2] else put('translate', *t[:2])
        elif f == 'scale':
            s, o = nums(op['s']), nums(op['o'])
            k = op['k']
            if k == 1:
                put('scale3d', s[0], *o)
            elif k == 2:
                put('scale', s[0])
            else:
                put('scale', *(s + o))
        elif f == 'rotate':
            x, y, z = [degrees(*op[k]) + 360 * n
                       for k, n in zip('xyz', op['t'])]
            if x == 0 and y == 0:
                # angles left out are zero
                g = m.rotate_self if op['w'] == 0 else m.rotate
                self.put(M, op, g(rot_z=z), DOMMatrix)
            else:
                put('rotate', *((x, y, z) if z else (x, y) if y else (x,)))
        elif f == 'axis':
            put('rotate_axis_angle', *(nums(op['u']) +
                                       [degrees(op['c'], op['s'])]))
        elif f == 'vector':
            put('rotate_from_vector', num(op['x']), num(op['y']))
        elif f == 'skewx':
            put('skew_x', tan_degrees(op['t']))
        elif f == 'skewy':
            put('skew_y', tan_degrees(op['t']))
        elif f in ('flipx', 'flipy'):
            self.put(M, op, m.flip_x() if f == 'flipx' else m.flip_y(),
                     DOMMatrix)
        elif f == 'inverse':
            if w == 0:
                self.put(M, op, m.invert_self(), DOMMatrix)
            else:
                self.put(M, op, m.inverse(), DOMMatrix)
        elif f == 'set':
            setattr(m, op['n'], num(op['v']))
        elif f == 'clear':
            r = m.clear() if op['is2'] == -1 else m.clear(bool(op['is2']))
            self.put(M, op, r, DOMMatrix)
        elif f == 'point':
            p = nums(op['p'])
            if p[2] == 0 and p[3] == 1:
                p = p[:2]
            return m.transform_point(*p), []
        elif f == 'parts':
            s = m.get_scale()
            return list(m.get_translate()) + [x * x for x in s], []
        elif f == 'angle':
            import math
            a = m.get_angle()
            a = a if m.is2d else a[2]
            b = m.get_angle(degrees=False)
            b = b if m.is2d else b[2]
            if abs(math.radians(a) - b) > 1e-9:
                self.bad = 'angles disagree'
            c, s = math.cos(b), math.sin(b)
            return [math.copysign(c * c, c) if abs(c) > 1e-9 else 0,
                    math.copysign(s * s, s) if abs(s) > 1e-9 else 0], []
        elif f == 'eq':
            return [], [str(bool(m == M[op['j'] - 1]))]
        elif f == 'ident':
            return [], [str(bool(m.isidentity))]
        elif f == 'text':
            return [], [m.tostring() if op['sep'] == ', ' else
                        m.tostring(delimiter=op['sep'])]
        else:
            raise RuntimeError(f)

    def rect(self, op):
        f = op['f']
        R = self.R
        v = nums(op.get('v', []))
        ro = op.get('ro')
        cls = DOMRectReadOnly if ro else DOMRect
        w = op['w']
        if f == 'new':
            if w == 0:
                R.append(cls(*v))
            else:
                R.append(cls.from_rect(dict(zip(
                    ('x', 'y', 'width', 'height'), v))))
            if type(R[-1]) is not cls:
                self.bad = 'result of type %s' % type(R[-1])
            return
        r = R[op['i'] - 1]

        def put(name, *args):
            fn = getattr(r, name + '_self' if w == 0 else name)
            self.put(R, op, fn(*args), DOMRect)

        if f == 'copy':
            R.append(cls.from_rect(r.tojson()))
        elif f == 'set':
            n = op['n']
            if n in ('x', 'y', 'width', 'height'):
                setattr(r, n, v[0])
            else:
                fn = {'coords': r.set_coords, 'rect': r.set_rect,
                      'size': r.set_size, 'move': r.move_to}[n]
                self.put(R, op, fn(*v), DOMRect)
        elif f in ('adjust', 'translate', 'unite'):
            put(f, *v)
        elif f == 'transpose':
            put('transpose')
        elif f == 'normalize':
            self.put(R, op, r.normalize(), DOMRect)
        elif f == 'or':
            o = R[op['j'] - 1]
            if w == 0:
                x = r
                x |= o
                self.put(R, op, x, DOMRect)
            else:
                self.put(R, op, r | o, DOMRect)
        elif f == 'intersect':
            o = R[op['j'] - 1]
            if w == 2:
                self.put(R, op, r & o, DOMRect)
            elif op.get('iand'):
                x = r
                x &= o
                self.put(R, op, x, DOMRect)
            else:
                put('intersect', o)
        elif f == 'transform':
            put('transform', self.M[op['m'] - 1])
        elif f == 'contains':
            if v[2] == 0 and v[3] == 0:
                v = v[:2]
            return [], [str(r.contains(*v))]
        elif f == 'eq':
            return [], [str(r == R[op['j'] - 1])]
        else:
            raise RuntimeError(f)

    def state(self):
        m = []
        for x in self.M:
            a = [getattr(x, n) for n in COMPS]
            if list(x.to_float_array()) != a or any(
                    getattr(x, k) != getattr(x, n)
                    for k, n in ALIAS.items()):
                self.bad = 'components disagree'
            m.append({'m': rats(a), 'is2d': bool(x.is2d)})
        r = []
        for x in self.R:
            if x.get_rect() != (x.x, x.y, x.width, x.height) or \
                    x.get_coords() != (x.x, x.y, x.right, x.bottom) or \
                    x.get_size() != (x.width, x.height) or \
                    (x.left, x.top) != (x.x, x.y):
                self.bad = 'rectangle views disagree'
            r.append({'xywh': rats([x.x, x.y, x.width, x.height]),
                      'right': rat(x.right), 'bottom': rat(x.bottom),
                      'valid': bool(x.isvalid()), 'empty': bool(x.isempty())})
        return {'m': m, 'r': r}


def quarter(rng, lo=-12, hi=12):
    return Q(rng.randrange(lo, hi + 1), rng.choice([1, 1, 1, 2, 4]))


def rot(rng, simple=False):
    if simple or rng.random() < .5:
        c, s = rng.choice(RIGHT)
        return [c, s]
    a, b, c = rng.choice(TRIPLES)
    return [Q(a, c), Q(b, c)]


def size(m):
    """(bound of the values, common denominator) of a real matrix."""
    fs = [Fraction(*rat(getattr(m, n))) for n in COMPS]
    d = 1
    for x in fs:
        d = lcm(d, x.denominator)
    return max(abs(x) for x in fs), d


def exact(m):
    """Are all entries the binary fractions they stand for?"""
    for n in COMPS:
        v = getattr(m, n)
        r = rat(v)
        if r[1] & (r[1] - 1) or num(r) != v:
            return False
    return True


def det(a):
    if len(a) == 1:
        return a[0][0]
    t = 0
    for i in range(len(a)):
        if a[0][i]:
            t += (-1) ** i * a[0][i] * det(
                [row[:i] + row[i + 1:] for row in a[1:]])
    return t


def fits(vals):
    """Can the specification's arithmetic hold these numbers?"""
    d = 1
    for x in vals:
        x = Fraction(x)
        d = lcm(d, x.denominator)
        if abs(x) > 2000:
            return False
    return d <= 2000


def gen_m(rng, s):
    M = s.M
    r = rng.random()
    ro = rng.random() < .25
    if not M or r < .05:
        n = rng.choice([6, 6, 16, 16, 6, 4])
        return {'name': 'm', 'f': 'new', 'v': [quarter(rng, -4, 4)
                                               for _ in range(n)],
                'ro': ro, 'w': rng.randrange(2), 'i': 0}
    if r < .13:
        kw = []
        names = rng.sample(COMPS + list('abcdef') * 2, rng.randrange(1, 6))
        for n in dict.fromkeys(names):
            v = quarter(rng, -4, 4)
            for k, x in kw:
                if ALIAS.get(k, k) == ALIAS.get(n, n) and rng.random() < .7:
                    v = x
            if ALIAS.get(n, n) in ('m13', 'm14', 'm23', 'm24', 'm31', 'm32',
                                   'm34', 'm43') and rng.random() < .6:
                v = [0, 1]
            if n in ('m33', 'm44') and rng.random() < .6:
                v = [1, 1]
            kw.append([n, v])
        bad = rng.random() < .06
        return {'name': 'm', 'f': 'dict', 'kw': kw[:1] if bad else kw,
                'ro': ro, 'i': 0, 'w': rng.randrange(2),
                'is2': -1 if bad else rng.choice([-1, -1, 0, 1]),
                'bad': rng.choice(['m45', 'g', 'is_2d']) if bad else ''}
    i = rng.randrange(1, len(M) + 1)
    m = M[i - 1]
    w = rng.randrange(2) if isinstance(m, DOMMatrix) else 1
    if len(M) >= 6 and isinstance(m, DOMMatrix):
        w = 0
    big, den = size(m)

    def ok(bound, d):
        return big * bound <= 2000 and den * d <= 2000

    f = rng.choice(['mul', 'mul', 'translate', 'translate', 'scale', 'scale',
                    'rotate', 'rotate', 'axis', 'vector', 'skewx', 'skewy',
                    'flipx', 'flipy', 'inverse', 'inverse', 'set', 'set',
                    'clear', 'point', 'point', 'parts', 'eq', 'ident',
                    'text', 'json', 'angle'])
    op = {'name': 'm', 'f': f, 'i': i, 'w': w}
    if f == 'json':
        op.update(ro=ro)
        return op if len(M) < 8 else None
    if f == 'mul':
        j = rng.randrange(1, len(M) + 1)
        b2, d2 = size(M[j - 1])
        op['j'] = j
        if w == 0 and rng.random() < .4:
            op['w'] = 3
            op['w'] = 0
        elif w == 1 and rng.random() < .5:
            op['w'] = 2
        return op if ok(b2 * 4, d2) else None
    if f == 'translate':
        t = [quarter(rng, -6, 6) if rng.random() < p else [0, 1]
             for p in (.8, .8, .3)]
        op['t'] = t
        return op if ok(20, 4) else None
    if f == 'scale':
        k = rng.randrange(4)
        s_ = [quarter(rng, -3, 3) for _ in range(3)]
        o = [quarter(rng, -3, 3) if rng.random() < .6 else [0, 1]
             for _ in range(3)]
        s_ = [x if rng.random() < .8 else [1, 1] for x in s_]
        if rng.random() < .5:
            s_[2], o[2] = [1, 1], [0, 1]
        if rng.random() < .2:
            o = [[0, 1]] * 3
        if k == 1:
            s_ = [s_[0]] * 3
        elif k == 2:
            s_ = [s_[0], s_[0], [1, 1]]
            o = [[0, 1]] * 3
        if s_ == [[1, 1]] * 3 and o[2] != [0, 1]:
            return None          # flagged 2d or not: left open
        op.update(s=s_, o=o, k=k)
        return op if ok(40, 16) else None
    if f == 'rotate':
        op.update(z=rot(rng), y=[[1, 1], [0, 1]], x=[[1, 1], [0, 1]])
        if rng.random() < .4:
            op['y'] = rot(rng, True)
        if rng.random() < .4:
            op['x'] = rot(rng, True)
        # whole turns about each axis
        op['t'] = [rng.choice([0, 0, 0, 0, 1, -1, 2]) if rng.random() < .5
                   else 0 for _ in 'xyz']
        return op if ok(3, 13) else None
    if f == 'axis':
        u, ln = rng.choice([((1, 0, 0), 1), ((0, 1, 0), 1), ((0, 0, 1), 1),
                            ((0, 0, -2), 2), ((0, 3, 4), 5), ((1, 2, 2), 3),
                            ((2, -1, 2), 3), ((0, 0, 0), 0), ((-3, 0, 4), 5),
                            ((0, -1, 0), 1), ((0, 0, 3), 3)])
        c, s_ = rot(rng)
        k = rng.choice([(1, 1), (1, 1), (1, 8), (1, 2), (3, 1)])
        op.update(u=[Q(x * k[0], k[1]) for x in u], len=Q(ln * k[0], k[1]),
                  c=c, s=s_)
        return op if ok(
            6, {3: 9, 5: 25}.get(ln, 1) * lcm(c[1], s_[1])) else None
    if f == 'vector':
        x, y, ln = rng.choice([(3, 4, 5), (-3, 4, 5), (0, 2, 2), (-1, 0, 1),
                               (4, -3, 5), (0, 0, 0), (5, 12, 13), (2, 0, 2)])
        op.update(x=Q(x), y=Q(y), len=Q(ln))
        return op if ok(2, 13) else None
    if f in ('skewx', 'skewy'):
        op['t'] = rng.choice([Q(1), Q(-1), Q(1, 2), Q(3, 4), Q(0), Q(2)])
        return op if ok(3, 4) else None
    if f in ('flipx', 'flipy'):
        op['w'] = 1
        return op if len(M) < 8 else None
    if f == 'inverse':
        a = [[fr(rat(m.matrix[x][y])) for y in range(4)] for x in range(4)]
        d = det(a)
        if d == 0 or big > 40 or den > 60:
            return None
        res = []
        for x in range(4):
            for y in range(4):
                sub = [[a[p][q] for q in range(4) if q != x]
                       for p in range(4) if p != y]
                res.append((-1) ** (x + y) * det(sub) / d)
        if not fits(res) or max(abs(v) for v in res) > 300 or \
                abs(d.numerator) > 4000 or d.denominator > 4000:
            return None
        return op
    if f == 'set':
        if not isinstance(m, DOMMatrix):
            return None
        op.update(n=rng.choice(COMPS + list('abcdef') * 2),
                  v=rng.choice([quarter(rng, -4, 4), Q(0), Q(1)]), w=0)
        return op if den <= 500 else None
    if f == 'clear':
        if not isinstance(m, DOMMatrix):
            return None
        op.update(is2=rng.choice([-1, 0, 1]), w=0)
        return op
    if f == 'point':
        p = [quarter(rng), quarter(rng), Q(0), Q(1)]
        if rng.random() < .3:
            p[2] = quarter(rng)
        if rng.random() < .2:
            p[3] = quarter(rng, 0, 3)
        op['p'] = p
        return op if ok(50, 64) else None
    if f == 'parts':
        return op if big < 200 and den <= 40 else None
    if f == 'angle':
        q = m.m11 ** 2 + m.m12 ** 2
        ok2 = 0 < q < 40 and den <= 6
        n = Fraction(*rat(m.m11)) ** 2 + Fraction(*rat(m.m12)) ** 2
        if not ok2 or n == 0 or n.numerator * den * den > 3000:
            return None
        if not m.is2d:
            return None
        return op
    if f == 'eq':
        op['j'] = rng.randrange(1, len(M) + 1)
        j = M[op['j'] - 1]
        near = [rat(getattr(m, n)) == rat(getattr(j, n)) for n in COMPS]
        exact = [getattr(m, n) == getattr(j, n) for n in COMPS]
        return op if all(near) == all(exact) else None
    if f == 'ident':
        near = [rat(getattr(m, n)) for n in COMPS]
        exact = [getattr(m, n) for n in COMPS]
        return op if all(num(a) == b for a, b in zip(near, exact)) else None
    if f == 'text':
        for n in COMPS:
            d = rat(getattr(m, n))[1]
            if 10 ** 7 % d == 0 and 10 ** 6 % d:
                return None
        op['sep'] = rng.choice([', ', ', ', ' ', ',', ';'])
        return op
    return op


def gen_r(rng, s):
    R = s.R
    r = rng.random()
    ro = rng.random() < .2
    if not R or r < .08:
        v = [quarter(rng), quarter(rng), quarter(rng, -2, 12),
             quarter(rng, -2, 12)]
        if rng.random() < .12:
            v[0] = v[1] = NONUM
        if rng.random() < .1:
            v[rng.choice([2, 3])] = [0, 1]
        return {'name': 'r', 'f': 'new', 'v': v, 'ro': ro, 'w': 0
                if rng.random() < .6 else 1, 'i': 0}
    i = rng.randrange(1, len(R) + 1)
    x = R[i - 1]
    w = rng.randrange(2) if isinstance(x, DOMRect) else 1
    if len(R) >= 6 and isinstance(x, DOMRect):
        w = 0
    f = rng.choice(['copy', 'set', 'set', 'set', 'adjust', 'translate',
                    'transpose', 'normalize', 'unite', 'unite', 'or', 'or',
                    'intersect', 'intersect', 'intersect', 'transform',
                    'transform', 'contains', 'contains', 'eq'])
    op = {'name': 'r', 'f': f, 'i': i, 'w': w}
    none = x.x is None or x.y is None
    big = max(abs(v) for v in (x.x or 0, x.y or 0, x.width, x.height))
    den = 1
    for v in (x.x, x.y, x.width, x.height):
        if v is not None:
            den = lcm(den, rat(v)[1])
    if f == 'copy':
        op.update(ro=ro)
        return op if len(R) < 8 else None
    if f == 'set':
        if not isinstance(x, DOMRect):
            return None
        op['w'] = 0
        n = rng.choice(['x', 'y', 'width', 'height', 'coords', 'rect',
                        'size', 'move'])
        k = {'coords': 4, 'rect': 4, 'size': 2, 'move': 2}.get(n, 1)
        if none and n in ('x', 'y'):
            return None
        v = [quarter(rng) for _ in range(k)]
        if n in ('width', 'height', 'size') or n == 'rect':
            v = [Q(abs(a), b) if rng.random() < .85 else [a, b]
                 for a, b in v]
        op.update(n=n, v=v)
        return op
    if f in ('adjust', 'translate'):
        if none and f == 'translate':
            return None
        op['v'] = [quarter(rng, -4, 4)
                   for _ in range(4 if f == 'adjust' else 2)]
        return op if big < 400 and den <= 200 else None
    if f in ('normalize',):
        if none:
            return None
        op['w'] = 1
        return op if len(R) < 8 else None
    if f in ('unite', 'contains'):
        v = [quarter(rng), quarter(rng), quarter(rng, -1, 10),
             quarter(rng, -1, 10)]
        if rng.random() < .3:
            v[2] = v[3] = [0, 1]
        elif rng.random() < .3:
            v[rng.choice([2, 3])] = [0, 1]
        if not none and rng.random() < .4:      # on its edges
            v[0] = rat(rng.choice([x.x, x.right]))
        if not none and rng.random() < .4:
            v[1] = rat(rng.choice([x.y, x.bottom]))
        if f == 'unite' and rng.random() < .06:
            v[rng.randrange(2)] = NONUM
        op['v'] = v
        return op if den <= 200 else None
    if f in ('or', 'intersect', 'eq'):
        j = rng.randrange(1, len(R) + 1)
        if f == 'or' and w == 0 and not isinstance(R[j - 1], DOMRect):
            return None
        if f == 'intersect' and w == 1:
            op['w'] = rng.choice([1, 2])
        if f == 'intersect' and w == 0 and isinstance(R[j - 1], DOMRect):
            op['iand'] = rng.random() < .4
        o = R[j - 1]
        for v in (o.x, o.y, o.width, o.height):
            if v is not None:
                den = lcm(den, rat(v)[1])
        op['j'] = j
        if f == 'eq' and x is not o:
            a = [x.x, x.y, x.width, x.height]
            b = [o.x, o.y, o.width, o.height]
            if rats(a) == rats(b) and a != b:
                return None
        if f == 'intersect' and (x.width < 0 or x.height < 0 or
                                 o.width < 0 or o.height < 0) and False:
            return None
        return op if den <= 1000 else None
    if f == 'transform':
        c = [k for k, m in enumerate(s.M) if m.is2d and exact(m)]
        if not c:
            return None
        k = rng.choice(c)
        b2, d2 = size(s.M[k])
        op['m'] = k + 1
        return op if big * b2 < 1000 and den * d2 <= 1000 else None
    return op


def behaviours(rng, tier, focus=''):
    count, length = (260, 40) if tier == "quick" else (3000, 60)
    for i in range(count):
        pm = {'m': .85, 'r': .3}.get(focus, .5)

        def pick(s):
            return gen_m(rng, s) if rng.random() < pm else gen_r(rng, s)
        yield 'g%d' % i, {}, [pick] * rng.randrange(8, length)
