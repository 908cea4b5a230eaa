"""Drives style sheets: their rules, and lists of media queries."""

from svgpy.css import CSSMediaRule, CSSStyleRule, CSSStyleSheet, \
    MediaList, CSSParser, CSSRule

KINDS = {CSSRule.STYLE_RULE: 'style', CSSRule.MEDIA_RULE: 'media',
         CSSRule.FONT_FACE_RULE: 'font-face',
         CSSRule.NAMESPACE_RULE: 'namespace',
         CSSRule.FONT_FEATURE_VALUES_RULE: 'values'}
TYPES = ['annotation', 'character-variant', 'ornaments', 'styleset',
         'stylistic', 'swash']


# ------------------------------------------------------------- text of rules
def kw(s, sp):
    return s.upper() if sp == 3 else s


def block(ds, sp):
    sep = ';' if sp == 1 else ' ;\n ' if sp == 2 else '; '
    s = sep.join('%s%s%s%s' % (n, ':' if sp == 1 else ' : ' if sp == 2
                               else ': ', v, '!important' if p and sp == 1
                               else ' ! important' if p else '')
                 for n, v, p in ds)
    return s + (';' if sp in (0, 2) and ds else '')


def text(r):
    sp = r['sp']
    k = r['k']
    nl = '' if sp == 1 else '\n' if sp == 2 else ' '
    pre = '/* { ; } */' if sp == 2 else ''
    if k == 'style':
        return '%s%s%s{%s}' % (pre, r['t'], nl, block(r['ds'], sp))
    if k == 'font-face':
        return '%s@%s{%s%s}' % (pre, kw(k, sp), nl, block(r['ds'], sp))
    if k == 'media':
        return '%s@%s %s%s{%s%s}' % (
            pre, kw(k, sp), media(r['ml'], sp), nl,
            nl.join(text(x) for x in r['q']), nl)
    if k == 'namespace':
        u = {0: 'url(%s)', 1: '"%s"', 2: "url('%s')", 3: "'%s'"}[sp] % r['u']
        return '%s@%s %s%s;' % (pre, kw(k, sp), r['t'] + ' ' if r['t']
                                else '', u)
    if k == 'values':
        parts = []
        for i, (t, n, v) in enumerate(r['f']):
            parts.append((t, '%s:%s%s' % (n, ' ' if sp != 1 else '',
                                          ' '.join(map(str, v)))))
        out, i = '', 0
        while i < len(parts):
            j = i
            while j < len(parts) and parts[j][0] == parts[i][0]:
                j += 1
            out += '@%s{%s%s}' % (kw(parts[i][0], sp), ('; ' if sp != 1
                                                        else ';').join(
                x[1] for x in parts[i:j]), ';' if sp in (0, 2) else '')
            i = j
        return '%s@%s %s%s{%s}' % (pre, kw('font-feature-values', sp),
                                   r['t'], nl, out)
    return r['t']


def media(q, sp):
    return ('' if sp == 1 else ' ').join(
        x + ',' if i < len(q) - 1 else x for i, x in enumerate(q)) \
        if sp != 2 else ' ,\n'.join(q)


# --------------------------------------------------------------------- system
class System(object):
    bad = ''

    def __init__(self, start):
        self.sheet = CSSStyleSheet(media=', '.join(start['ml'])
                                   if start['ml'] else None)
        self.ids = {}
        self.keep = []
        t = ' '.join(text(r) for r in start['q'])
        if start['how'] == 'parse':
            self.sheet.css_rules.extend(
                CSSParser.fromstring(t, parent_style_sheet=self.sheet))
        else:
            self.sheet.insert_rule(t)
        self.number(self.sheet.css_rules)

    def number(self, rules):
        for r in rules:
            if id(r) not in self.ids:
                self.ids[id(r)] = len(self.ids) + 1
                self.keep.append(r)
            if isinstance(r, CSSMediaRule):
                self.number(r.css_rules)

    def at(self, path):
        x = self.sheet
        for i in path:
            x = x.css_rules[i - 1]
        return x

    def apply(self, op):
        try:
            v = self.do(op)
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__}
        out = {'r': 'ok'}
        if v is not None:
            out['v'] = v
        return out

    def do(self, op):
        x = self.at(op['at'])
        k = op['name']
        if k == 'insert':
            t = ' '.join(text(r) for r in op['q'])
            if op['at'] == [] and op['i'] == 0 and op['c']:
                v = x.insert_rule(t)
            else:
                v = x.insert_rule(t, op['i'])
            self.number(x.css_rules)
            return v
        if k == 'delete':
            return x.delete_rule(op['i'])
        if k == 'dset':
            n, v, p = op['d']
            x.style.set_property(n, v, p)
            return None
        if k == 'drem':
            return x.style.remove_property(op['n'])
        m = x.media
        c = op['c']
        t = media(op['v'], op['sp']) if 'v' in op else ''
        if k == 'mltext':
            if c and op['at']:
                x.condition_text = t
            else:
                m.media_text = t
        elif k == 'mlapp':
            if c:
                m.append(t)
            else:
                m.append_medium(t)
        elif k == 'mldel':
            m.delete_medium(t)
        elif k == 'mlins':
            m.insert(op['i'], t)
        elif k == 'mlrem':
            if c:
                m.pop(op['i'])
            else:
                del m[op['i']]
        elif k == 'mlitem':
            return m.item(op['i'])
        return None

    # -- observation
    def media(self, m):
        q = list(m)
        if m.media_text != ', '.join(q):
            self.bad = 'media_text is %r' % m.media_text
        if m.length != len(q) or [m[i] for i in range(len(q))] != q:
            self.bad = 'views of a media list disagree'
        return q

    def decls(self, rule):
        s = rule.style
        if s.parent_rule is not rule:
            self.bad = 'declarations of another rule'
        return [[n, s.get_property_value(n), s.get_property_priority(n)]
                for n in s]

    def rule(self, r, parent):
        if r.parent_rule is not parent:
            self.bad = 'parent_rule is wrong'
        if r.parent_style_sheet is not self.sheet:
            self.bad = 'parent_style_sheet is wrong'
        k = KINDS.get(r.type, str(r.type))
        o = {'i': self.ids.get(id(r), 0), 'k': k, 't': '', 'u': '', 'ds': [],
             'ml': [], 'q': [], 'f': []}
        if k == 'style':
            o.update(t=r.selector_text, ds=self.decls(r))
        elif k == 'font-face':
            o.update(ds=self.decls(r))
        elif k == 'media':
            if r.condition_text != r.media.media_text:
                self.bad = 'condition_text is %r' % r.condition_text
            o.update(ml=self.media(r.media),
                     q=[self.rule(x, r) for x in r.css_rules])
        elif k == 'namespace':
            o.update(t=r.prefix or '', u=r.namespace_uri or '')
        elif k == 'values':
            o['t'] = r.font_family
            for t in TYPES:
                m = getattr(r, t.replace('-', '_'))
                for n in m:
                    o['f'].append([t, n.lower(), list(m[n])])
                    if m.get(n.upper()) != m[n]:
                        self.bad = 'the case of %s matters' % n
        return o

    def state(self):
        return {'q': [self.rule(r, None) for r in self.sheet.css_rules],
                'ml': self.media(self.sheet.media)}


# ----------------------------------------------------------------- behaviours
SELS = ['g', '.a', '#b', 'svg > rect', 'a,b', '*', 'g:hover',
        'rect[x="1;{"]']
MEDIA = ['all', 'screen', 'print', '(color)', 'not screen',
         'screen and (min-width: 10px)', 'only print', '(width > 1px)']
PROPS = [('fill', ['red', 'none', 'url("#p")', 'url("#p") red']),
         ('stroke', ['blue', 'currentcolor']),
         ('stroke-width', ['1', '2px', '50%']),
         ('opacity', ['.5', '1']), ('display', ['none', 'inline']),
         ('font-family', ['"A;B"', '"A", serif'])]
FACE = [('font-family', ['"A"', 'B']), ('src', ['url("a.woff")',
                                               'local("x"), url("b.otf")'])]
JUNK = ['@unknown x;', '@unknown { a: b }', '@page { margin: 0 }',
        '@supports (a: b) { g { fill: red } }', '/* g { fill: red } */']


def mqs(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3]) if n is None else n
    q = rng.sample(MEDIA, n)
    return [rng.choice([x, x, x.upper()]) for x in q]


def decls(rng, props, n):
    out = []
    for _ in range(n):
        a, vs = rng.choice(props)
        out.append([a, rng.choice(vs),
                    'important' if rng.random() < .2 else ''])
    return out


def blank(k, rng):
    return {'k': k, 't': '', 'u': '', 'ds': [], 'ml': [], 'q': [], 'f': [],
            'sp': rng.randrange(4)}


def rule(rng, depth=0):
    k = rng.choice(['style'] * 5 + ['media'] * (3 if depth < 2 else 0)
                   + ['font-face', 'namespace', 'values', 'junk'])
    r = blank(k, rng)
    if k == 'style':
        r['t'] = rng.choice(SELS)
        r['ds'] = decls(rng, PROPS, rng.randrange(4))
    elif k == 'media':
        r['ml'] = mqs(rng)
        r['q'] = [rule(rng, depth + 1) for _ in range(rng.randrange(4))]
    elif k == 'font-face':
        r['ds'] = decls(rng, FACE, rng.randrange(3))
    elif k == 'namespace':
        r['t'] = rng.choice(['', 'svg', 'Xy'])
        r['u'] = rng.choice(['http://www.w3.org/2000/svg', 'urn:x'])
    elif k == 'values':
        r['t'] = rng.choice(['Font One', '"A B"', 'A, B'])
        r['f'] = [[rng.choice(TYPES), rng.choice(['one', 'Two', 'ONE', 'x-y']),
                   [rng.randrange(20) for _ in range(rng.choice([1, 1, 2]))]]
                  for _ in range(rng.randrange(5))]
    else:
        r['t'] = rng.choice(JUNK)
    return r


def places(sheet, rng, media=False):
    """A path to something that holds rules."""
    at, x = [], sheet
    while rng.random() < .6:
        k = [i for i, r in enumerate(x.css_rules)
             if isinstance(r, CSSMediaRule)]
        if not k:
            break
        i = rng.choice(k)
        at.append(i + 1)
        x = x.css_rules[i]
    return at, x


def pick(rng, focus):
    def fn(s):
        at, x = places(s.sheet, rng)
        r = rng.random()
        if r < .3:
            n = len(x.css_rules)
            return {'name': 'insert', 'at': at, 'c': rng.randrange(2),
                    'i': rng.choice([0, n, n, rng.randrange(n + 1), -1,
                                     n + 2]),
                    'q': [rule(rng, len(at)) for _ in range(
                        rng.choice([1, 1, 1, 2, 2, 3, 4, 0]))]}
        if r < .55:
            n = len(x.css_rules)
            return {'name': 'delete', 'at': at,
                    'i': rng.choice([0, n - 1, rng.randrange(n + 1), n, -1])}
        if rng.random() < .4:
            i = [i for i, r in enumerate(x.css_rules)
                 if isinstance(r, CSSStyleRule)]
            if i:
                at = at + [rng.choice(i) + 1]
                d = decls(rng, PROPS, 1)[0]
                if rng.random() < .6:
                    return {'name': 'dset', 'at': at, 'd': d}
                return {'name': 'drem', 'at': at, 'n': d[0]}
        m = list(x.media)
        k = rng.choice(['mltext', 'mlapp', 'mlapp', 'mldel', 'mldel', 'mlins',
                        'mlrem', 'mlitem'])
        op = {'name': k, 'at': at, 'c': rng.randrange(2),
              'sp': rng.choice([0, 0, 1, 2])}
        if k in ('mlrem', 'mlitem', 'mlins'):
            op['i'] = rng.choice([0, len(m) - 1, len(m), -1,
                                  rng.randrange(len(m) + 1)])
        if k == 'mltext':
            op['v'] = mqs(rng)
        elif k == 'mlins':
            op['v'] = mqs(rng, 1)
        elif k in ('mlapp', 'mldel'):
            op['v'] = mqs(rng, rng.choice([1, 1, 1, 2]))
            if m and rng.random() < .6:
                y = rng.choice(m)
                op['v'] = [rng.choice([y, y.upper()])]
        return op
    return fn


def behaviours(rng, tier, focus=''):
    n = {'quick': 600, 'thorough': 5000}[tier]
    for i in range(n):
        start = {'how': rng.choice(['parse', 'insert']), 'ml': mqs(rng),
                 'q': [rule(rng) for _ in range(rng.randrange(5))]}
        yield 's%d' % i, start, [pick(rng, focus)] * rng.choice([3, 6, 10])
