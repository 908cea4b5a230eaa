"""Drives media queries: a window asked the same questions as it changes."""

from svgpy import window

SVG = 'http://www.w3.org/2000/svg'


# ----------------------------------------------------------- text of queries
def num(a, d):
    s = '%.6f' % (a / d)
    return s.rstrip('0').rstrip('.')


def value(v):
    k, u = v['k'], v['u']
    if k == 'len':
        if u == 'in':
            return num(v['a'], 96) + 'in'
        if u == 'pc':
            return num(v['a'], 16) + 'pc'
        return '%dpx' % v['a']
    if k == 'res':
        if u == 'dpi':
            return num(v['a'] * 96, 1000) + 'dpi'
        return num(v['a'], 1000) + 'dppx'
    if k == 'int':
        return '%d' % v['a']
    if k == 'ratio':
        return '%d%s%d' % (v['a'], u, v['b'])
    return v['id']


def feature(c, sp):
    a = ['', ' ', '', '\n '][sp]
    b = [' ', ' ', '', '\t'][sp]
    f, n = c['form'], c['n']
    if f == 'group':
        return '(' + query(c['g']) + ')'
    if f == 'not':
        return 'not ' + query(c['g'])
    if f == 'bool':
        t = n
    elif f in ('is', 'min', 'max'):
        t = '%s%s:%s%s' % ('' if f == 'is' else f + '-', n,
                           '' if sp == 2 else b, value(c['v']))
    elif f == 'range':
        t = b.join([n, c['rel'], value(c['v'])])
    elif f == 'flip':
        t = b.join([value(c['v']), c['rel'], n])
    else:
        t = b.join([value(c['v']), c['rel'], n, c['rel2'], value(c['v2'])])
    return '(' + a + t + a + ')'


def query(q):
    sp = q['sp']
    w = ' \n ' if sp == 3 else ' '
    if q['junk']:
        return q['junk']
    fs = [feature(c, sp) for c in q['cs']]
    if q['op'] == 'mix':
        t = fs[0]
        for i, x in enumerate(fs[1:]):
            t += w + q['mx'][i] + w + x
    else:
        t = (w + q['op'] + w).join(fs)
    if q['ty']:
        t = q['ty'] + (w + 'and' + w + t if fs else '')
    if q['neg']:
        t = q['neg'] + w + t
    return t.upper() if q['up'] else t


# --------------------------------------------------------------------- system
SET = {'media': 'media', 'sw': 'width', 'sh': 'height',
       'depth': 'color_depth', 'mono': 'monochrome', 'scan': 'scan',
       'update': 'update', 'gamut': 'color_gamut'}


class System(object):
    bad = ''

    def __init__(self, start):
        window.location = 'about:blank'
        self.root = None
        self.asked = []
        w = start['w']
        if start['root']:
            self.root = window.document.create_element_ns(SVG, 'svg')
            window.document.append(self.root)
        for f in w:
            self.set(f, w[f])

    def set(self, f, v):
        s = window.screen
        if f in SET:
            setattr(s, SET[f], v)
        elif f == 'angle':
            s.orientation.angle = v
        elif f == 'dpr':
            s.device_pixel_ratio = v / 1000
        elif f == 'zoom':
            window.page_zoom_scale = v / 1000
        elif f == 'iw':
            window.inner_width = v
        elif f == 'ih':
            window.inner_height = v
        elif self.root is not None:
            n = {'dw': 'width', 'dh': 'height'}[f]
            if v == 0:
                self.root.remove_attribute(n)
            else:
                self.root.set_attribute(n, str(v))

    def apply(self, op):
        try:
            if op['name'] == 'ask':
                t = op['sep'].join(query(q) for q in op['q'])
                self.asked.append((window.match_media(t), t))
            else:
                self.set(op['f'], op['t' if op['name'] == 'word' else 'v'])
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__}
        return {'r': 'ok'}

    def state(self):
        m = []
        for x, t in self.asked:
            y = x.matches
            if y is not x.matches or window.match_media(t).matches is not y:
                self.bad = 'asked again, the answer to %r differs' % t
            m.append(bool(y))
        return {'m': m,
                'o': window.screen.orientation.type.split('-')[0]}


# ----------------------------------------------------------------- behaviours
TYPES = ['all', 'screen', 'print', 'speech', 'projection', 'tv', 'unknown']
LEN = [1, 40, 96, 300, 320, 600, 640, 720, 960, 1280]
RES = [500, 1000, 1500, 2000, 3000]
RELS = ['<', '<=', '>', '>=', '=']
WORDS = {'orientation': ['portrait', 'landscape'],
         'scan': ['progressive', 'interlace'],
         'update': ['none', 'slow', 'fast'],
         'overflow-block': ['none', 'scroll'],
         'overflow-inline': ['none', 'scroll'],
         'color-gamut': ['srgb', 'p3', 'rec2020']}
RATIOS = [(16, 9), (4, 3), (1, 1), (9, 16), (3, 4), (32, 18), (8, 15)]
WIN = {'media': TYPES[1:-1], 'sw': LEN, 'sh': LEN, 'iw': LEN, 'ih': LEN,
       'dw': [0] + LEN, 'dh': [0] + LEN, 'depth': [0, 1, 4, 8, 24],
       'mono': [0, 1, 8], 'scan': WORDS['scan'], 'update': WORDS['update'],
       'gamut': WORDS['color-gamut'], 'dpr': RES, 'zoom': [500, 1000, 2000],
       'angle': [0, 90, 180, 270, 45, 135, -90, 360, 450]}


def val(rng, n, w):
    v = {'k': 'bad', 'a': 0, 'b': 1, 'id': '', 'u': ''}
    if n in ('width', 'height', 'device-width', 'device-height'):
        near = {'width': 'iw', 'height': 'ih', 'device-width': 'sw',
                'device-height': 'sh'}[n]
        if near in ('iw', 'ih') and w['d' + near[1]] and rng.random() < .7:
            near = 'd' + near[1]
        a = w[near] if rng.random() < .5 else rng.choice(LEN)
        a = a + rng.choice([0, 0, 0, 1, -1])
        v.update(k='len', a=a, u=rng.choice(
            ['px', 'px'] + (['in'] if a % 24 == 0 else [])
            + (['pc'] if a % 4 == 0 else [])))
    elif n == 'resolution':
        a = rng.choice(RES + [w['dpr'] * w['zoom'] // 1000] * 4)
        v.update(k='res', a=a, u=rng.choice(['dppx', 'dpi']))
    elif n in ('color', 'color-index', 'monochrome', 'grid'):
        a = rng.choice([0, 1, 2, 4, 8, 16, 24, 256])
        if n == 'color' and rng.random() < .5:
            a = w['depth'] + rng.choice([0, 0, 1, -1])
        v.update(k='int', a=max(a, 0))
    elif n in ('aspect-ratio', 'device-aspect-ratio'):
        x, y = rng.choice(RATIOS)
        if rng.random() < .5:
            x, y = (w['sw'], w['sh']) if n[0] == 'd' else \
                (w['dw'] or w['iw'], w['dh'] or w['ih'])
        v.update(k='ratio', a=x, b=y, u=rng.choice(['/', '/', ' / ']))
    elif n in WORDS:
        v.update(k='id', id=rng.choice(WORDS[n]))
    if rng.random() < .04:
        v.update(k='bad', id=rng.choice(['20example', '0.254m']))
    return v


NUMERIC = ['width', 'height', 'device-width', 'device-height', 'resolution',
           'color', 'color-index', 'monochrome', 'aspect-ratio',
           'device-aspect-ratio']


def sure(rng, w):
    """A feature that is met, mostly, so that long conditions can be."""
    c = {'n': 'width', 'form': 'min', 'rel': '=', 'rel2': '=',
         'v': {'k': 'len', 'a': 1, 'b': 1, 'id': '', 'u': 'px'}}
    c['v2'] = c['v']
    c['n'] = rng.choice(['width', 'height', 'device-width', 'scan',
                         'color-gamut', 'resolution'])
    if c['n'] in ('scan', 'color-gamut', 'resolution'):
        c['form'] = 'bool'
    elif rng.random() < .3:
        c.update(form='range', rel='>=')
    return c


def cond(rng, w):
    if rng.random() < .35:
        return sure(rng, w)
    n = rng.choice(NUMERIC * 2 + list(WORDS) * 2 + ['grid', 'max-weight',
                                                    'pointer', 'hover'])
    if n in NUMERIC:
        form = rng.choice(['bool', 'is', 'min', 'max', 'range', 'range',
                           'flip', 'between'])
    elif n in WORDS:
        form = rng.choice(['bool', 'is', 'is', 'is', 'min'])
    elif n == 'grid':
        form = rng.choice(['bool', 'is', 'min'])
    else:
        form = 'bool'
    c = {'n': n, 'form': form, 'rel': rng.choice(RELS),
         'rel2': rng.choice(RELS), 'v': val(rng, n, w), 'v2': val(rng, n, w)}
    if form == 'between':
        r = rng.choice(['<', '>'])
        c['rel'] = r + rng.choice(['', '='])
        c['rel2'] = r + rng.choice(['', '='])
    return c


def one(rng, w):
    q = {'neg': '', 'ty': '', 'op': 'and', 'cs': [], 'junk': '',
         'sp': rng.randrange(4), 'up': rng.random() < .15}
    r = rng.random()
    if r < .05:
        q.update(junk=rng.choice(['&test', 'test;', '+']), ty='unknown')
    elif r < .2:
        q.update(neg=rng.choice(['', 'only', 'not', 'not']),
                 ty=rng.choice(TYPES))
    elif r < .4:
        q.update(neg=rng.choice(['', '', 'only']), ty=rng.choice(TYPES),
                 cs=[cond(rng, w) for _ in range(rng.choice([1, 1, 2, 3]))])
    elif r < .5:
        q.update(neg='not', cs=[cond(rng, w)])
    elif r < .55:
        n = rng.choice([2, 3, 4])
        a, b = rng.sample(['and', 'or'], 2)
        k = rng.randrange(n)
        q.update(op='mix', mx=[b if i == k else a for i in range(n)],
                 cs=[cond(rng, w) for _ in range(n + 1)])
    else:
        q.update(op=rng.choice(['and', 'or']),
                 cs=[cond(rng, w) for _ in range(rng.choice([1, 1, 2, 3]))])
    if q['op'] == 'mix':
        q['neg'] = ''
    return q


def pick(w, root):
    def fn_rng(rng):
        def fn(s):
            if not s.asked or rng.random() < .5:
                return {'name': 'ask', 'sep': rng.choice([', ', ',', ' , ']),
                        'q': [one(rng, w)
                              for _ in range(rng.choice([1, 1, 1, 2, 3]))]}
            f = rng.choice([f for f in WIN if root or f not in ('dw', 'dh')])
            v = rng.choice(WIN[f])
            w[f] = v
            if isinstance(v, str):
                return {'name': 'word', 'f': f, 't': v}
            return {'name': 'set', 'f': f, 'v': v}
        return fn
    return fn_rng


def behaviours(rng, tier, focus=''):
    n = {'quick': 800, 'thorough': 8000}[tier]
    for i in range(n):
        root = rng.random() < .4
        w = {f: rng.choice(WIN[f]) for f in WIN}
        w.update(media='screen' if rng.random() < .6 else w['media'],
                 angle=0)
        if not root or rng.random() < .5:
            w.update(dw=0, dh=0)
        yield 'm%d' % i, {'w': dict(w), 'root': root}, \
            [pick(w, root)(rng)] * rng.choice([3, 6, 10])
