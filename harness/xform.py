"""Drives SVGTransform, SVGTransformList and Element.transform."""

from fractions import Fraction

from svgpy import SVGParser
from svgpy.geometry.matrix import DOMMatrix
from svgpy.transform import SVGTransform, SVGTransformList

from harness.num import Q, fr, num, nums, rat, rats

NS = 'http://www.w3.org/2000/svg'
NAMES = ['', 'matrix', 'translate', 'scale', 'rotate', 'skewX', 'skewY']
SETTERS = ['set_unknown', 'set_matrix', 'set_translate', 'set_scale',
           'set_rotate', 'set_skew_x', 'set_skew_y']


def exact(o):
    t = o.type
    if t == 0:
        return False
    if t == 4:
        return o.angle % 90 == 0
    if t in (5, 6):
        return o.angle % 45 == 0 and o.angle % 180 != 90
    return True


def six(m):
    return rats([m.a, m.b, m.c, m.d, m.e, m.f])


class System(object):
    bad = ''

    def __init__(self, start):
        self.O = [SVGTransform(t, *nums(v)) for t, v in start['objs']]
        self.L = [SVGTransformList([self.O[i - 1] for i in ids])
                  for ids in start['lists']]
        p = SVGParser()
        self.E = [p.create_element_ns(NS, 'g') for _ in range(start['n'])]

    def oid(self, o):
        for i, x in enumerate(self.O):
            if x is o:
                return i + 1
        self.O.append(o)
        return len(self.O)

    def item(self, i):
        return self.O[i - 1] if i else 'translate(1)'

    def apply(self, op):
        try:
            v, s = self.do(op) or ([], '')
        except (TypeError, ValueError, IndexError) as e:
            return {'r': type(e).__name__, 'v': [], 's': ''}
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__, 'v': [], 's': ''}
        return {'r': 'ok', 'v': v, 's': s}

    def do(self, op):
        f = op['f']
        if f in ('obj', 'oset'):
            v, t = nums(op['v']), op['t']
            o = SVGTransform() if f == 'obj' else self.O[op['o'] - 1]
            if f == 'obj' and op['w'] == 0:
                o = SVGTransform(t, *v)
            elif op['w'] <= 1 or t in (1, 7):
                o.set(t, *v)
            else:
                getattr(o, SETTERS[t])(*v)
            self.oid(o)
            return
        if f in ('frommat', 'omat'):
            m = DOMMatrix(nums(op['v']))
            if not op['flat']:
                m.translate_self(0, 0, 1)
            if f == 'omat':
                self.O[op['o'] - 1].set_matrix(m)
            elif op['w']:
                self.oid(SVGTransform.from_matrix(m))
            else:
                self.oid(SVGTransformList.create_svg_transform_from_matrix(m))
            m.translate_self(1, 1)
            return
        if f == 'lmake':
            os = [self.item(i) for i in op['os']]
            self.L.append(SVGTransformList(os if op['w'] else tuple(os)))
            return
        if f == 'ltext':
            t = SVGTransformList.parse(op['text']) if op['w'] else \
                SVGTransformList(op['text'])
            self.put(t)
            return
        if f == 'otext':
            return [], self.O[op['o'] - 1].tostring(
                *([op['sep']] if op['w'] else []))
        if 'e' in op:
            e = self.E[op['e'] - 1]
            if f == 'eget':
                t = e.transform
                if t is None:
                    return [], 'None'
                self.put(t)
            elif f == 'eset':
                e.transform = self.L[op['l'] - 1]
            elif f == 'eraw':
                e.set_attribute('transform', op['text'])
            elif op['s'] == '-':
                e.remove_attribute('transform')
            else:
                e.set_attribute('transform', op['s'])
            return
        li = self.L[op['l'] - 1]
        w = op.get('w', 0)
        o = self.item(op['o']) if 'o' in op else None
        os = [self.item(i) for i in op['os']] if 'os' in op else None
        i = op.get('i')
        if f == 'append':
            if w:
                self.same(li.append_item(o), o)
            else:
                li.append(o)
            return [op['o']], ''
        if f == 'insert':
            if w:
                self.same(li.insert_item_before(o, i), o)
            else:
                li.insert(i, o)
            return [op['o']], ''
        if f == 'init':
            self.same(li.initialize(o), o)
            return [op['o']], ''
        if f == 'replace':
            if w:
                self.same(li.replace_item(o, i), o)
            else:
                li[i] = o
            return [op['o']], ''
        if f == 'remove':
            if w == 0:
                return [self.oid(li.remove_item(i))], ''
            if w == 1:
                return [self.oid(li.pop(i))], ''
            x = li[i]
            del li[i]
            return [self.oid(x)], ''
        if f == 'get':
            return [self.oid(li.get_item(i) if w else li[i])], ''
        if f == 'clear':
            li.clear()
        elif f == 'reverse':
            li.reverse()
        elif f == 'extend':
            if w == 0:
                li.extend(os)
            else:
                li += os if w == 1 else tuple(os)
        elif f == 'lextend':
            k = self.L[op['k'] - 1]
            if w:
                li += k
            else:
                li.extend(k)
        elif f == 'slice':
            if w == 2:
                os = SVGTransformList(os)
            li[i:op['j']] = tuple(os) if w == 1 else os
        elif f == 'del':
            del li[i:op['j']]
        elif f == 'part':
            return [self.oid(x) for x in li[i:op['j']]], ''
        elif f == 'add':
            t = li + (SVGTransformList(os) if w == 2 else
                      tuple(os) if w else os)
            self.put(t)
        elif f == 'consolidate':
            t = li.consolidate()
            if t is None:
                return [], 'None'
            return [self.oid(t)], ''
        elif f == 'total':
            t = li.transform
            if t is None:
                return [], 'None'
            self.oid(t)
        elif f == 'mutmat':
            for m in [li.matrix] + [x.matrix for x in li]:
                if m is not None:
                    m.translate_self(1, 2)
                    m.a = 7
        elif f == 'text':
            return [], li.tostring(*([op['sep']] if w else []))
        elif f == 'len':
            return [len(li), li.length, li.number_of_items], ''

    def same(self, a, b):
        if a is not b:
            self.bad = 'the item is not what is returned'

    def put(self, t):
        if type(t) is not SVGTransformList:
            self.bad = 'a %s instead of a list' % type(t)
        elif any(t is x for x in self.L):
            self.bad = 'an existing list is returned'
        self.L.append(t)
        for x in t:
            self.oid(x)

    def state(self):
        lists = []
        for li in self.L:
            ids = [self.oid(x) for x in li]
            m = li.matrix if len(li) and all(exact(x) for x in li) else None
            lists.append({'o': ids, 's': li.tostring(),
                          'm': six(m) if m is not None else []})
            if not len(li) and li.matrix is not None:
                self.bad = 'an empty list has a matrix'
            if m is not None and not m.is2d:
                self.bad = 'the matrix is not 2d'
        objs = [{'t': o.type, 'v': rats(o.values or ()), 'a': rat(o.angle),
                 's': o.tostring(), 'm': six(o.matrix) if exact(o) else []}
                for o in self.O]
        els = [e.get_attribute('transform') for e in self.E]
        return {'objs': objs, 'lists': lists,
                'els': ['-' if x is None else x for x in els]}


# ------------------------------------------------------------- generators
def norm(o):
    """Bounds (size, denominator) of what the function does to numbers."""
    if o.type == 0:
        return Fraction(1), 1
    v = [fr(rat(x)) for x in o.values]
    den = 1
    for x in v:
        den = max(den, x.denominator)
    if o.type == 4:
        n = 1 + 2 * (abs(v[1]) + abs(v[2]))
    elif o.type in (5, 6):
        n, den = Fraction(2), 1
    elif o.type == 2:
        n = 1 + abs(v[0]) + abs(v[1])
    elif o.type == 3:
        n = max(abs(v[0]), abs(v[1]), 1)
    else:
        n = max(abs(v[0]) + abs(v[2]) + abs(v[4]),
                abs(v[1]) + abs(v[3]) + abs(v[5]), 1)
    return Fraction(n), den


def fits(objs):
    n, d = Fraction(1), 1
    for o in objs:
        a, b = norm(o)
        n, d = n * a, d * b
    return n <= 20000 and d <= 256 and len(objs) <= 6


def half(rng, lo, hi):
    return Q(rng.randint(lo * 4, hi * 4), rng.choice([1, 2, 4, 4])) \
        if rng.random() < .3 else Q(rng.randint(lo, hi))


ANGLES = [0, 90, 180, 270, -90, 360, 450, -180, 720, 90, 180, 270]
SKEWS = [0, 45, -45, 135, 225, 180, 45, -135, 360]


def values(rng, t):
    r = rng.random
    if t == 1:
        v = [Q(rng.choice([0, 1, -1, 2, 1]), rng.choice([1, 1, 2]))
             for _ in range(4)]
        if r() < .3:
            v = [Q(1), Q(0), Q(0), Q(1)]
        v += [half(rng, -5, 5) for _ in range(2)]
        n = 6
    elif t == 2:
        v = [half(rng, -9, 9), half(rng, -9, 9) if r() < .7 else Q(0)]
        n = rng.choice([1, 2, 2])
    elif t == 3:
        v = [Q(rng.choice([1, 2, 3, -1, -2, 0, 1]), rng.choice([1, 1, 2]))
             for _ in range(2)]
        if r() < .3:
            v[1] = v[0]
        n = rng.choice([1, 2, 2])
    elif t == 4:
        a = Q(rng.choice(ANGLES)) if r() < .85 else \
            rng.choice([Q(30), Q(9), Q(45, 2), Q(-75)])
        v = [a, half(rng, -4, 4) if r() < .7 else Q(0),
             half(rng, -4, 4) if r() < .7 else Q(0)]
        if r() < .2:
            v[2] = v[1] if r() < .5 else [-v[1][0], v[1][1]]
        if r() < .05:
            v[1] = v[2] = v[0]
        n = rng.choice([1, 3, 3])
    elif t in (5, 6):
        v = [Q(rng.choice(SKEWS)) if r() < .85 else
             rng.choice([Q(30), Q(15, 2), Q(-20)])]
        n = 1
    else:
        v, n = [Q(1)], 0 if t == 0 else 1
    v = v[:n]
    if t in range(1, 7) and r() < .04:
        if r() < .5 and v:
            v.pop()
        else:
            v += [Q(1)] * 3
        if t == 4 and len(v) == 2:
            v.pop()
    return v


def number(rng, q):
    """A decimal notation of the rational q."""
    n, d = q
    s = ('%.6f' % (n / d)).rstrip('0').rstrip('.')
    r = rng.random()
    if r < .1 and n >= 0:
        s = '+' + s
    elif r < .2 and abs(n) < d and n != 0:
        s = s.replace('0.', '.', 1)
    elif r < .26 and '.' not in s:
        s += '.'
    elif r < .32 and '.' not in s:
        s += '.0'
    elif r < .42:
        e = rng.randrange(1, 3)
        s = ('%.8f' % (n / d / 10 ** e)).rstrip('0').rstrip('.')
        s += rng.choice('eE') + rng.choice(['', '+', '0']) + str(e)
    elif r < .5:
        s = ('%.6f' % (n / d * 100)).rstrip('0').rstrip('.')
        s += rng.choice('eE') + '-2'
    return s


def sequence(rng, v):
    s = ''
    for i, q in enumerate(v):
        t = number(rng, q)
        if i:
            sep = rng.choice([' ', ' ', ',', ', ', ' , ', '\n', '  '])
            if t[0] in '+-' and rng.random() < .4:
                sep = ''
            elif t[0] == '.' and rng.random() < .5 and \
                    ('.' in prev or 'e' in prev.lower()):
                sep = ''
            s += sep
        s += t
        prev = t
    return s


def render(rng, items):
    s = rng.choice(['', '', ' ', '\n '])
    for i, (t, v) in enumerate(items):
        if i:
            s += rng.choice([' ', ' ', ',', ', ', ' , ', '\n', '  '])
        s += NAMES[t] + rng.choice(['', '', ' ']) + '(' + \
            rng.choice(['', ' ']) + sequence(rng, v) + \
            rng.choice(['', ' ']) + ')'
    return s + rng.choice(['', '', ' ', '\n'])


def gen(rng, s):
    r = rng.random()
    if len(s.O) < 3 or (r < .1 and len(s.O) < 25):
        t = rng.choice([1, 2, 3, 4, 5, 6, 2, 4, 0, 7 if r < .01 else 1])
        return {'name': 'x', 'f': 'obj', 't': t, 'v': values(rng, t),
                'w': rng.randrange(3)}
    if not s.L or (r < .22 and len(s.L) < 6):
        if rng.random() < .4:
            os = [rng.randrange(1, len(s.O) + 1)
                  for _ in range(rng.randrange(4))]
            if not fits([s.O[i - 1] for i in os]):
                return None
            return {'name': 'x', 'f': 'lmake', 'os': os,
                    'w': rng.randrange(2)}
        items = []
        for _ in range(rng.randrange(4)):
            t = rng.randrange(1, 7)
            v = values(rng, t)
            if v:
                items.append([t, v])
        try:
            if not fits([SVGTransform(t, *nums(v)) for t, v in items]):
                return None
        except TypeError:
            pass
        op = {'name': 'x', 'items': items, 'text': render(rng, items)}
        if rng.random() < .3 and op['text']:
            try:
                [SVGTransform(t, *nums(v)) for t, v in items]
            except TypeError:
                return None
            op.update(f='eraw', e=rng.randrange(1, len(s.E) + 1))
        else:
            op.update(f='ltext', w=rng.randrange(2))
        return op
    if r < .28:
        o = rng.randrange(1, len(s.O) + 1)
        if rng.random() < .2:
            return {'name': 'x', 'f': 'omat', 'o': o, 'flat': rng.random() < .8,
                    'v': fullmat(rng)}
        t = rng.choice([1, 2, 3, 4, 5, 6, 0])
        op = {'name': 'x', 'f': 'oset', 'o': o, 't': t, 'v': values(rng, t),
              'w': rng.randrange(1, 3)}
        return op
    if r < .30 and len(s.O) < 25:
        return {'name': 'x', 'f': 'frommat', 'flat': rng.random() < .8,
                'v': fullmat(rng), 'w': rng.randrange(2)}
    if r < .32:
        return {'name': 'x', 'f': 'otext',
                'o': rng.randrange(1, len(s.O) + 1), 'w': rng.randrange(2),
                'sep': ', '} if rng.random() < .5 else \
               {'name': 'x', 'f': 'otext', 'w': 1, 'sep': ' ',
                'o': rng.randrange(1, len(s.O) + 1)}
    li = rng.randrange(1, len(s.L) + 1)
    ids = list(s.L[li - 1])
    if r < .42:
        e = rng.randrange(1, len(s.E) + 1)
        k = rng.choice(['eset', 'eset', 'eset', 'eget', 'eget', 'enone'])
        if k == 'enone':
            if rng.random() < .5:
                return None
            return {'name': 'x', 'f': k, 'e': e,
                    's': rng.choice(['none', '-'])}
        if k == 'eset':
            if any(rat(v)[1] > 64 for o in ids for v in o.values or ()) or \
                    any(o.type == 0 for o in ids):
                return None
            return {'name': 'x', 'f': k, 'e': e, 'l': li}
        if len(s.L) >= 8 or len(s.O) >= 25:
            return None
        return {'name': 'x', 'f': k, 'e': e}
    f = rng.choice(['append', 'append', 'insert', 'insert', 'init', 'replace',
                    'replace', 'remove', 'remove', 'get', 'clear', 'reverse',
                    'extend', 'lextend', 'slice', 'slice', 'del', 'part',
                    'add', 'consolidate', 'consolidate', 'total', 'mutmat',
                    'text', 'len'])
    if f in ('clear', 'init') and rng.random() < .7:
        return None
    op = {'name': 'x', 'f': f, 'l': li, 'w': rng.randrange(3)}
    if f in ('append', 'insert', 'init', 'replace'):
        op['o'] = rng.randrange(1, len(s.O) + 1) if rng.random() < .93 else 0
        op['w'] %= 2
        if op['o'] and not fits(ids + [s.O[op['o'] - 1]]):
            return None
    if f in ('insert', 'replace', 'remove', 'get', 'slice', 'del', 'part'):
        op['i'] = rng.randint(-len(ids) - 1, len(ids) + 1)
        if len(ids) and rng.random() < .4:
            op['i'] = rng.randrange(len(ids))
    if f in ('slice', 'del', 'part'):
        op['j'] = rng.randint(-len(ids) - 1, len(ids) + 1)
    if f in ('extend', 'slice', 'add'):
        op['os'] = [rng.randrange(1, len(s.O) + 1)
                    for _ in range(rng.randrange(3))]
        if f == 'slice' and rng.random() < .1 and op['w'] < 2:
            op['os'].append(0)
        if not fits(ids + [s.O[i - 1] for i in op['os'] if i]):
            return None
    if f == 'add' and (len(s.L) >= 8 or len(s.O) >= 25):
        return None
    if f == 'lextend':
        op['k'] = rng.randrange(1, len(s.L) + 1)
        if not fits(ids + list(s.L[op['k'] - 1])):
            return None
    if f in ('consolidate', 'total'):
        if not all(exact(o) for o in ids) or len(s.O) >= 30:
            return None
    if f == 'mutmat' and any(o.type == 0 for o in ids):
        return None
    if f == 'text':
        op['sep'] = rng.choice([', ', ' ', ',']) if op['w'] else ', '
    return op


def fullmat(rng):
    return [Q(rng.choice([0, 1, -1, 2, 1]), rng.choice([1, 1, 2]))
            for _ in range(4)] + [half(rng, -5, 5) for _ in range(2)]


def pick(rng):
    def fn(s):
        for _ in range(20):
            op = gen(rng, s)
            if op is None:
                continue
            if op['f'] in ('oset', 'omat'):
                try:
                    o = SVGTransform(op.get('t', 1), *nums(op['v']))
                except TypeError:
                    return op
                old = s.O[op['o'] - 1]
                if not all(fits([o if x is old else x for x in li])
                           for li in s.L):
                    continue
            return op
        return None
    return fn


def behaviours(rng, tier, focus=''):
    n = 250 if tier == 'quick' else 2500
    for i in range(n):
        k = rng.randrange(5, 40)
        yield 'x%d' % i, {'n': 2, 'objs': [], 'lists': []}, [pick(rng)] * k
