"""Drives the numeric values of the CSS Typed OM."""

import math
import re
from fractions import Fraction

from svgpy.css.types import (
    CSSMathClamp, CSSMathInvert, CSSMathMax, CSSMathMin, CSSMathNegate,
    CSSMathProduct, CSSMathSum, CSSNumericValue, CSSUnitValue)

from harness.driver import Unrepresentable
from harness.num import num, rat

BASES = ['length', 'angle', 'time', 'frequency', 'resolution', 'flex',
         'percent']
UNITS = ['deg', 'dppx', 'em', 'ex', 'fr', 'hz', 'ms', 'percent', 'px', 'rem',
         'vw']
MATH = {'sum': CSSMathSum, 'product': CSSMathProduct,
        'negate': CSSMathNegate, 'invert': CSSMathInvert, 'min': CSSMathMin,
        'max': CSSMathMax, 'clamp': CSSMathClamp}
MAXDEN = 300000
KIND = {v: k for k, v in MATH.items()}
KIND[CSSUnitValue] = 'unit'
TOKEN = re.compile(
    r'\s*(?:(?P<comment>/\*.*?\*/)'
    r'|(?P<bad>--[0-9.]+(?:[a-z]+|%)?)'
    r'|(?P<num>[+-]?(?:[0-9]*\.)?[0-9]+(?:e[+-]?[0-9]+)?)(?P<unit>[a-z]+|%)?'
    r'|(?P<fn>-?[a-z]+)\(|(?P<op>[-+*/(),]))', re.I | re.S)


def kids(x):
    if isinstance(x, CSSMathClamp):
        return [x.min, x.val, x.max]
    if isinstance(x, (CSSMathNegate, CSSMathInvert)):
        return [x.value]
    if isinstance(x, CSSUnitValue):
        return []
    return list(x.values)


def number(v, unit):
    return rat(float(v) / math.pi if unit == 'rad' else v, maxden=MAXDEN)


def text(r):
    """Decimal text of an exact number."""
    s = '%.6f' % (r[0] / r[1])
    return s.rstrip('0').rstrip('.')


def suffix(u):
    return {'number': '', 'percent': '%'}.get(u, u)


def tokens(s):
    out, p = [], 0
    while p < len(s.rstrip()):
        m = TOKEN.match(s, p)
        if m is None:
            raise Unrepresentable('text %r' % s)
        p = m.end()
        if m.group('comment'):
            continue
        if m.group('bad'):
            n = re.match(r'--([0-9.]+)(.*)', m.group('bad'))
            u = n.group(2).lower()
            u = {'': 'number', '%': 'percent'}.get(u, u)
            t = dict(t='bad', s=text(rat(float(n.group(1)) / math.pi,
                                         tol=1e-4))
                     if u == 'rad' else n.group(1), u=u)
        elif m.group('num') is not None:
            u = (m.group('unit') or '').lower()
            u = {'': 'number', '%': 'percent'}.get(u, u)
            x = Fraction(m.group('num'))
            if u == 'rad':
                x = rat(float(x) / math.pi, tol=1e-4)
            else:
                x = [x.numerator, x.denominator]
            t = dict(t='num', s=text(x), u=u)
        elif m.group('fn'):
            t = dict(t='fn', s='', u=m.group('fn').lower())
        else:
            t = dict(t=m.group('op'), s='', u='')
        out.append(t)
    return out


def write(q, lay):
    """Text of tokens, laid out in one of several ways."""
    s = ''
    for i, t in enumerate(q):
        k = t['t']
        if k == 'num':
            s += text(t['v']) + suffix(t['u'])
        elif k == 'fn':
            s += (t['u'].upper() if lay == 2 else t['u']) + '('
        elif k in '+-':
            s += {1: '  %s\n', 3: ' /* */ %s /**/ '}.get(lay, ' %s ') % k
        elif k in '*/':
            near = [x['t'] for x in q[max(i - 1, 0):i + 2]]
            s += ({1: '%s', 2: ' %s'}.get(lay, ' %s ')
                  if near in (['num', k, 'num'], ['num', k, 'fn'])
                  else ' %s ') % k
        elif k == ',':
            s += {1: ' , ', 2: ','}.get(lay, ', ')
        else:
            s += {1: ' %s '}.get(lay if k == ')' else 0, '%s') % k
        if k == 'num' and i + 1 < len(q) and q[i + 1]['t'] in ('num', 'fn',
                                                              '('):
            s += ' '
        if k == ')' and i + 1 < len(q) and q[i + 1]['t'] in ('num', 'fn',
                                                            '('):
            s += ' '
    return s


class System(object):
    bad = ''

    def __init__(self, start):
        self.vals = []

    def arg(self, x):
        return -x if x < 0 else self.vals[x - 1]

    def push(self, v):
        self.vals.append(v)
        return ''

    def apply(self, op):
        try:
            return {'r': self.do(op)}
        except ValueError:
            return {'r': 'ValueError'}
        except TypeError:
            return {'r': 'TypeError'}

    def do(self, op):
        n = op['name']
        if n == 'unit':
            v = num(op['v'])
            return self.push(CSSUnitValue(
                v * math.pi if op['u'].lower() == 'rad' else v, op['u']))
        if n == 'parse':
            return self.push(CSSNumericValue.parse(write(op['q'],
                                                         op['lay'])))
        args = [self.arg(x) for x in op['is']]
        if n in MATH:
            return self.push(MATH[n](*args))
        if n == 'add':
            return self.push(args[0].add(*args[1:]))
        if n == 'set':
            v = num(op['v'])
            args[0].value = v * math.pi if args[0].unit == 'rad' else v
            return ''
        if n == 'kid':
            return self.push(kids(self.vals[op['is'][0] - 1])
                             [op['is'][1] - 1])
        if n == 'to':
            return self.push(args[0].to(op['u']))
        if n == 'tosum':
            return self.push(args[0].to_sum(*op['us']))
        if n == 'equals':
            return str(args[0].equals(*args[1:])).lower()
        if n == 'compare':
            a, b = args
            return str({'==': lambda: a == b, '<': lambda: a < b,
                        '<=': lambda: a <= b, '>': lambda: a > b,
                        '>=': lambda: a >= b}[op['u']]()).lower()
        if n == 'reparse':
            return self.push(CSSNumericValue.parse(args[0].tostring()))
        raise AssertionError(n)

    def state(self):
        return {'vals': [self.show(v) for v in self.vals]}

    def show(self, x):
        t = x.type()
        sv = x.create_sum_value()
        unit = isinstance(x, CSSUnitValue)
        return {
            'k': KIND[type(x)], 'v': number(x.value, x.unit) if unit
            else [0, 1], 'u': x.unit if unit else '', 'n': len(kids(x)),
            'ty': [t.get(b, 0) or 0 for b in BASES],
            'hint': t.get('percent_hint') or '', 'ok': sv is not None,
            'sum': [{'v': rat(v, maxden=MAXDEN),
                     'm': [m.get(u, 0) for u in UNITS]}
                    for v, m in sv or []],
            'txt': tokens(x.tostring())}


# -------------------------------------------------------------- behaviours
DIM = {'length': ['px', 'in', 'pt', 'pc', 'em', 'px', 'cm', 'mm', 'q', 'vw',
                  'rem', 'ex'],
       'angle': ['deg', 'grad', 'turn', 'rad'], 'time': ['ms', 's'],
       'frequency': ['hz', 'khz'], 'resolution': ['dppx', 'dpi', 'dpcm'],
       'flex': ['fr'], 'number': ['number'], 'percent': ['percent']}
ALL = sorted(set(u for us in DIM.values() for u in us))


def op(name, i=(), v=(0, 1), u='', us=(), q=(), lay=0):
    return dict(name=name, v=list(v), u=u, us=list(us), q=list(q), lay=lay,
                **{'is': list(i)})


def value(rng):
    return rng.choice([[1, 1], [2, 1], [3, 1], [5, 1], [10, 1], [1, 2],
                       [-1, 1], [-3, 1], [3, 2], [4, 1], [-1, 2], [12, 1]])


def unit(rng, dims):
    return rng.choice(DIM[rng.choice(dims)])


def exact(x):
    return all(len(t['s'].partition('.')[2]) < 5 for t in tokens(x.tostring())
               if t['t'] == 'num') and 'rad' not in x.tostring()


def tok(t, v=(0, 1), u=''):
    return dict(t=t, v=list(v), u=u)


def numtok(rng, dims):
    u = unit(rng, dims)
    while u == 'rad':
        u = unit(rng, dims)
    return [tok('num', value(rng), u)]


def operand(rng, dims, depth):
    """Tokens of a value of one of the dimensions (mostly)."""
    r = rng.random()
    if depth <= 0 or r < .5:
        return numtok(rng, dims)
    if r < .65:
        return [tok('(')] + expression(rng, dims, depth - 1) + [tok(')')]
    if r < .8:
        return ([tok('fn', u='calc')] + expression(rng, dims, depth - 1)
                + [tok(')')])
    return function(rng, dims, depth)


def function(rng, dims, depth):
    f = rng.choice(['min', 'max', 'clamp'])
    n = 3 if f == 'clamp' and rng.random() < .95 else rng.randint(1, 3)
    q = [tok('fn', u=f)]
    for i in range(n):
        q += ([tok(',')] if i else []) + expression(rng, dims, depth - 1)
    return q + [tok(')')]


def term(rng, dims, depth):
    q = operand(rng, dims, depth)
    while rng.random() < .35:
        q += [tok(rng.choice('**/'))] + operand(rng, ['number'], depth - 1)
    if rng.random() < .08:
        q = operand(rng, ['number'], 0) + [tok('*')] + q
    return q


def expression(rng, dims, depth):
    q = term(rng, dims, depth)
    while rng.random() < .55:
        q += [tok(rng.choice('+-'))] + term(rng, dims, depth)
    return q


def spoil(rng, q):
    i = rng.randrange(len(q))
    r = rng.randrange(4)
    if r == 0:
        return q[:i] + q[i + 1:]
    if r == 1:
        return q[:i] + [rng.choice(q)] + q[i:]
    if r == 2:
        return q[:i]
    return q[:i] + [tok(rng.choice('+-*/,)'))] + q[i + 1:]


def parse(rng):
    dims = rng.choice([['length'], ['length'], ['number'], ['angle'],
                       ['length', 'percent'], ['time'], ['length', 'angle'],
                       ['frequency'], ['resolution'], ['number', 'percent']])
    depth = rng.choice([0, 1, 1, 2, 2])
    if rng.random() < .12:
        q = numtok(rng, dims)
    elif rng.random() < .25:
        q = function(rng, dims, depth)
    else:
        q = ([tok('fn', u='calc')] + expression(rng, dims, depth)
             + [tok(')')])
    if rng.random() < .12:
        q = spoil(rng, q)
    if len(q) > 26 or not q or sum(t['t'] in '*/' for t in q) > 3:
        q = numtok(rng, dims)
    return op('parse', q=q, lay=rng.randrange(4))


def small(s):
    """Leave out values whose numbers grow beyond the model's integers."""
    return all(abs(v) <= 3000 for x in s.vals
               for v, m in x.create_sum_value() or [])


def modest(s, refs):
    n = d = 1
    for r in refs:
        x = s.arg(r)
        if r < 0:
            n *= -r
            continue
        for v, m in x.create_sum_value() or []:
            v = rat(v, maxden=MAXDEN)
            n, d = n * max(1, abs(v[0])), d * v[1]
    return n < 20000 and d < 2000


def step(rng, dims, free):
    def go(s):
        n = len(s.vals)
        r = rng.random()
        if n >= 9 or not small(s):
            return None
        plain = [i + 1 for i, x in enumerate(s.vals)
                 if isinstance(x, CSSUnitValue)]
        if n < 2 or r < .16:
            return op('unit', v=value(rng), u=unit(rng, dims))
        if r < .17:
            return op('unit', v=value(rng), u=rng.choice(
                ['PX', 'Deg', 'foo', '', '%', 'x', 'DPI', 'Q', 'em ']))
        def ref(lit=.15):
            if rng.random() < lit:
                return rng.choice([-1, -2, -3])
            return rng.randint(max(1, n - 4), n)
        if r < .46:
            k = rng.choice(['sum', 'sum', 'product', 'product', 'negate',
                            'invert', 'min', 'max', 'clamp'])
            c = {'negate': 1, 'invert': 1, 'clamp': 3}.get(
                k, rng.choice([1, 2, 2, 2, 3, 3]))
            i = [ref() for _ in range(c)]
            if k == 'product' and not modest(s, i):
                return None
            return op(k, i)
        if r < .56:
            return op('to', [ref(0)], u=unit(rng, dims)
                      if rng.random() < .9 else rng.choice(ALL + ['foo']))
        if r < .64:
            us = rng.choice([[], [unit(rng, dims)],
                             [unit(rng, dims), unit(rng, dims)],
                             [unit(rng, dims), unit(rng, dims), 'percent'],
                             ['px', 'percent'], ['em', 'px', 'number']])
            return op('tosum', [ref(0)], us=us)
        if r < .72:
            return op('add', [ref(0)] + [ref() for _ in range(
                rng.choice([0, 1, 1, 2]))])
        if r < .78 and free:
            if plain:
                return op('set', [rng.choice(plain)], value(rng))
        if r < .83 and free:
            i = ref(0)
            k = len(kids(s.vals[i - 1]))
            if k and s.vals[i - 1].css_text is None:
                return op('kid', [i, rng.randint(1, k)])
        if r < .9:
            if rng.random() < .5 and plain:
                x = ref(.1)
                return op('compare', [rng.choice(plain), x],
                          u=rng.choice(['==', '<', '<=', '>', '>=']))
            i = [j for j in range(1, n + 1) if clean(s.vals[j - 1])]
            if i:
                return op('equals', [rng.choice(i) for _ in range(
                    rng.choice([2, 2, 2, 3]))])
        if free:
            i = ref(0)
            if exact(s.vals[i - 1]):
                return op('reparse', [i])
        return op('unit', v=value(rng), u=unit(rng, dims))
    return go


def clean(x):
    """Made of numbers that halves write exactly."""
    return all(clean(k) for k in kids(x)) if kids(x) else (
        x.unit != 'rad' and float(x.value * 2).is_integer())


FREE = ('unit', 'sum', 'product', 'negate', 'invert', 'min', 'max', 'clamp',
        'add', 'to', 'tosum')


def behaviours(rng, tier, focus=''):
    n = {'quick': 3000, 'thorough': 20000}[tier]
    cases = [['length'], ['length', 'number'], ['length', 'percent'],
             ['length', 'percent', 'number'], ['angle'], ['angle', 'number'],
             ['time', 'number'], ['frequency', 'number'],
             ['resolution', 'number'], ['length', 'time', 'percent'],
             ['flex', 'length'], ['number', 'percent'],
             ['length', 'angle', 'number']]
    for i in range(n):
        r = rng.random()
        if r < .35:
            ops = [parse(rng) for _ in range(rng.randint(1, 3))]
            dims = ['length', 'number']
            ops += [step(rng, dims, False) for _ in range(rng.randint(0, 4))]
        else:
            dims = rng.choice(cases)
            ops = [op('unit', v=value(rng), u=unit(rng, dims))
                   for _ in range(rng.randint(1, 3))]
            ops += [step(rng, dims, True) for _ in range(rng.randint(2, 9))]
        yield 'r%d' % i, {}, ops
