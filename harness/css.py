"""Drives declaration blocks: of style rules, and of style attributes."""

import re

from svgpy.css import CSSParser, CSSStyleDeclaration
from svgpy.window import SVGDOMImplementation

PLAIN = ['fill', 'stroke', '--x', '--X', 'font-kerning', 'font-size-adjust']
SHORT = ['font', 'font-synthesis', 'font-variant', 'mask', 'mask-border',
         'overflow', 'text-decoration', 'white-space']
VARIANT = ['font-variant-' + x for x in (
    'ligatures', 'caps', 'alternates', 'numeric', 'east-asian', 'position')]
LONG = (['font-style'] + VARIANT
        + ['font-weight', 'font-stretch', 'font-size', 'line-height',
           'font-family', 'font-synthesis-weight', 'font-synthesis-style']
        + ['mask-' + x for x in ('image', 'position', 'size', 'repeat',
                                 'origin', 'clip', 'composite', 'mode')]
        + ['mask-border-' + x for x in ('source', 'slice', 'width', 'outset',
                                        'repeat', 'mode')]
        + ['overflow-x', 'overflow-y']
        + ['text-decoration-' + x for x in ('line', 'style', 'color')]
        + ['text-space-collapse', 'text-wrap', 'text-space-trim'])
NAMES = PLAIN + SHORT + LONG

TOKEN = re.compile(r'"[^"]*"|url\([^)]*\)|[/,]|[^\s/,"]+')


def tokens(text):
    """The tokens of a value, independent of how the code splits it."""
    out = TOKEN.findall(text)
    return [re.sub(r'^url\(["\']?([^"\')]*)["\']?\)$', r'url(\1)', x)
            for x in out]


def text(toks, sp=0):
    if sp == 1:
        return '  ' + '  '.join(toks) + ' '
    if sp == 2:
        s = ' '.join(toks)
        return s.replace(' / ', '/').replace(' , ', ',')
    if sp == 3 and toks:
        return '/* c */' + '\n'.join(toks)
    return ' '.join(toks)


def block(ds, sp=0):
    return (';' if sp == 2 else '; ').join(
        '%s:%s%s%s' % (x.get('c') or x['n'], '' if sp == 2 else ' ',
                       text(x['v'], sp if sp == 2 else 0),
                       ' !important' if x['p'] else '')
        for x in ds)


DECL = re.compile(r'\s*([-\w]+)\s*:((?:"[^"]*"|[^";])*)(?:;|$)')


def declared(text):
    """The declarations of a style attribute."""
    out = []
    i = 0
    while text[i:].strip():
        m = DECL.match(text, i)
        if m is None:
            return [{'n': 'unreadable', 'v': [text[i:]], 'p': ''}]
        i = m.end()
        n, v = m.groups()
        k = re.sub(r'\s*!\s*important\s*$', '', v)
        out.append({'n': n if n.startswith('--') else n.lower(),
                    'v': tokens(k), 'p': '' if k == v else 'important'})
    return out


class System(object):
    bad = ''

    def __init__(self, start):
        self.kind = start['kind']
        self.el = None
        ds = start['ds']
        if self.kind == 'inline':
            doc = SVGDOMImplementation().create_svg_document()
            self.el = doc.document_element
            if ds:
                self.el.set_attribute('style', block(ds, start['sp']))
            self.b = self.el.style
        elif self.kind == 'rule':
            r = CSSParser.fromstring('g {%s}' % block(ds, start['sp']))
            self.b = r[0].style
        else:
            self.b = CSSStyleDeclaration()
            for x in ds:
                self.b.set_property(x['n'], text(x['v']), x['p'])

    def apply(self, op):
        try:
            v = self.do(op)
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__}
        out = {'r': 'ok'}
        if v is not None:
            out['v'] = v
        return out

    def do(self, op):
        b = self.b
        n = op.get('c') or op.get('n')
        k = op['name']
        if k == 'set':
            if op['p'] == 'keep' and op.get('idx'):
                b[n] = text(op['v'], op['sp'])
            elif op['p'] == 'keep':
                b.set_property(n, text(op['v'], op['sp']))
            else:
                b.set_property(n, text(op['v'], op['sp']), op['p'])
        elif k == 'rem':
            return tokens(b.remove_property(n))
        elif k == 'del':
            del b[n]
        elif k == 'readonly':
            b.readonly = op['v']
        elif k == 'again':
            c = CSSStyleDeclaration()
            c.set_property(n, b.get_property_value(n))
            return tokens(c.get_property_value(n))
        elif k == 'extern':
            if op['how'] == 'remove':
                self.el.remove_attribute('style')
            elif op['how'] == 'map':
                self.el.attributes['style'] = block(op['ds'], op['sp'])
            elif op['how'] == 'attr' and 'style' in self.el.attributes:
                a = self.el.attributes.get_named_item('style')
                a.value = block(op['ds'], op['sp'])
            else:
                self.el.set_attribute('style', block(op['ds'], op['sp']))
        elif k == 'attr':
            s = self.el.get_attribute('style') or ''
            op['w'] = declared(s)
        return None

    def state(self):
        b = self.b
        vals = []
        for n in NAMES:
            v = b.get_property_value(n)
            if b[n] != v:
                self.bad = 'two values of ' + n
            if not n.startswith('--') and (
                    b.get_property_value(n.upper()) != v
                    or (n.upper() in b) != (n in b)):
                self.bad = 'the case of %s matters' % n
            if n not in SHORT and (n in b) != (v != ''):
                self.bad = '%s is %r, but contained: %s' % (n, v, n in b)
            if v:
                vals.append([n, tokens(v), b.get_property_priority(n)])
        keys = list(b)
        if [b.item(i) for i in range(len(keys))] != keys \
                or list(b.keys()) != keys \
                or [x[0] for x in b.items()] != keys \
                or [x[0] for x in b.values()] != \
                [b.get_property_value(x) for x in keys]:
            self.bad = 'the views of the block disagree'
        if len(set(keys)) != len(keys) or b.length != len(b):
            self.bad = 'listed twice'
        return {'vals': vals, 'order': [x for x in keys if x not in LONG],
                'size': len(b), 'ro': b.readonly}


# ------------------------------------------------------------------ behaviours
WIDE = ['inherit', 'initial', 'unset']
VALUES = {
    'fill': [['red'], ['BLUE'], ['url(#a)'], ['url(#a)', 'red'], ['Inherit']],
    'stroke': [['currentColor'], ['none'], ['blue']],
    '--x': [['Red'], ['1px', '2PX'], ['BLUE']],
    '--X': [['y']],
    'font-kerning': [['none'], ['initial'], ['auto']],
    'font-size-adjust': [['0.5'], ['initial']],
    'font-style': [['italic'], ['normal'], ['oblique']],
    'font-variant-ligatures': [['none'], ['common-ligatures'], ['normal'],
                               ['common-ligatures', 'historical-ligatures']],
    'font-variant-caps': [['small-caps'], ['normal'], ['unicase']],
    'font-variant-alternates': [['historical-forms'], ['normal']],
    'font-variant-numeric': [['lining-nums', 'tabular-nums'], ['ordinal'],
                             ['normal']],
    'font-variant-east-asian': [['jis78', 'ruby'], ['normal']],
    'font-variant-position': [['sub'], ['normal'], ['super']],
    'font-weight': [['bold'], ['100'], ['normal']],
    'font-stretch': [['condensed'], ['normal']],
    'font-size': [['12px'], ['medium'], ['50%']],
    'line-height': [['normal'], ['1.5'], ['20px']],
    'font-family': [['serif'], ['"A B"', ',', 'serif'], ['sans-serif']],
    'font-synthesis-weight': [['auto'], ['none']],
    'font-synthesis-style': [['auto'], ['none']],
    'mask-image': [['none'], ['url(#a)']],
    'mask-position': [['left'], ['10%', '5px']],
    'mask-size': [['cover'], ['50%', 'auto']],
    'mask-repeat': [['repeat-x'], ['no-repeat', 'round']],
    'mask-origin': [['border-box'], ['padding-box'], ['view-box']],
    'mask-clip': [['border-box'], ['padding-box'], ['no-clip']],
    'mask-composite': [['add'], ['exclude']],
    'mask-mode': [['alpha'], ['luminance']],
    'mask-border-source': [['none'], ['url(#b)']],
    'mask-border-slice': [['30'], ['10%', 'fill'], ['2', '30']],
    'mask-border-width': [['5px'], ['auto', '10%']],
    'mask-border-outset': [['2'], ['5px', '2']],
    'mask-border-repeat': [['stretch'], ['round', 'space']],
    'mask-border-mode': [['alpha'], ['luminance']],
    'overflow-x': [['hidden'], ['scroll'], ['visible']],
    'overflow-y': [['hidden'], ['auto'], ['visible']],
    'text-decoration-line': [['none'], ['underline'],
                             ['overline', 'underline']],
    'text-decoration-style': [['wavy'], ['solid']],
    'text-decoration-color': [['red'], ['BLUE'], ['currentcolor']],
    'text-space-collapse': [['collapse'], ['preserve'],
                            ['preserve-breaks']],
    'text-wrap': [['wrap'], ['nowrap']],
    'text-space-trim': [['none'], ['trim-inner']],
}
CLASSES = {
    'font-variant': [
        ['common-ligatures', 'no-common-ligatures'],
        ['discretionary-ligatures'], ['historical-ligatures'],
        ['small-caps', 'unicase'], ['historical-forms'], ['lining-nums'],
        ['tabular-nums'], ['ordinal'], ['jis78'], ['ruby'],
        ['sub', 'super']],
}


def some(rng, groups, p=0.5):
    """Some of the groups' members, in some order."""
    out = [g for g in groups if rng.random() < p]
    rng.shuffle(out)
    return [t for g in out for t in g]


def shorthand(rng, h):
    if rng.random() < .12:
        w = rng.choice(WIDE)
        return [rng.choice([w, w.upper()])]
    c = rng.choice
    if h == 'overflow':
        o = ['visible', 'hidden', 'scroll', 'auto', 'clip']
        return [c(o) for _ in range(c([1, 2, 2]))]
    if h == 'white-space':
        w = c(['normal', 'pre', 'nowrap', 'pre-wrap', 'pre-line'])
        return [c([w, w, w.upper()])]
    if h == 'font-synthesis':
        v = c([['none'], ['weight'], ['style'], ['weight', 'style'],
               ['style', 'weight']])
        return [x.upper() for x in v] if rng.random() < .2 else v
    if h == 'text-decoration':
        lines = [x for x in ('underline', 'overline', 'line-through')
                 if rng.random() < .5]
        rng.shuffle(lines)
        g = [lines or ['none'], [c(['solid', 'double', 'wavy'])],
             [c(['red', 'blue', 'currentcolor'])]]
        return some(rng, g, .6) or ['underline']
    if h == 'font-variant':
        if rng.random() < .25:
            return [c(['normal', 'none', 'NONE', 'Normal'])]
        return some(rng, [[c(g)] for g in CLASSES[h]], .3) or ['small-caps']
    if h == 'font':
        head = some(rng, [[c(['italic', 'oblique'])], ['small-caps'],
                          [c(['bold', 'bolder', '100'])],
                          [c(['condensed', 'expanded'])]], .4)
        if len(head) < 3 and rng.random() < .2:
            head.insert(rng.randrange(len(head) + 1), 'normal')
        size = [c(['12px', 'large', '50%', 'medium'])]
        lh = ['/', c(['1.5', '20px', 'normal', '120%'])] \
            if rng.random() < .4 else []
        fam = c([['serif'], ['"A B"'], ['"A B"', ',', 'serif'],
                 ['monospace', ',', '"C"', ',', 'serif']])
        return head + size + lh + fam
    if h == 'mask':
        pos = c([['left'], ['10%', '5px'], ['left', 'top']])
        if rng.random() < .5:
            pos = pos + ['/'] + c([['cover'], ['50%', 'auto'], ['7px']])
        box = [c(['border-box', 'padding-box', 'view-box'])]
        r = rng.random()
        if r < .3:
            box = box + [c(['border-box', 'padding-box', 'no-clip'])]
        elif r < .4:
            box = ['no-clip']
        return some(rng, [[c(['none', 'url(#a)'])], pos,
                          c([['repeat-x'], ['no-repeat', 'round']]), box,
                          [c(['add', 'exclude'])],
                          [c(['alpha', 'luminance'])]], .5) or ['none']
    if h == 'mask-border':
        s = c([['30'], ['10%', 'fill'], ['2', '30']])
        if rng.random() < .5:
            s = s + ['/'] + c([['5px'], ['auto', '10%']])
            if rng.random() < .5:
                s = s + ['/'] + c([['2'], ['5px', '2']])
        return some(rng, [[c(['none', 'url(#b)'])], s,
                          c([['stretch'], ['round', 'space']]),
                          [c(['alpha', 'luminance'])]], .6) or ['none']


def value(rng, n):
    if n in SHORT:
        return shorthand(rng, n)
    r = rng.random()
    if r < .1:
        w = rng.choice(WIDE)
        return [w] if n.startswith('--') else [rng.choice([w, w.upper()])]
    if r < .13 and n in LONG and n != 'font-family':
        return ['bogus']
    return rng.choice(VALUES[n])


def members(h):
    if h == 'font':
        return LONG[:12]
    if h == 'font-variant':
        return VARIANT
    if h == 'white-space':
        return LONG[-3:]
    if h == 'mask':
        return [x for x in LONG if x.startswith('mask-')
                and not x.startswith('mask-border')]
    return [x for x in LONG if x.startswith(h + '-')]


def names(rng):
    """A family of related properties to work with."""
    h = rng.choice(SHORT)
    fam = [h] * 3 + members(h)
    if h in ('font', 'font-variant'):
        fam += ['font'] * 2 + ['font-variant'] * 2 \
            + ['font-kerning', 'font-size-adjust'] + LONG[:12]
    if h in ('mask', 'mask-border'):
        fam += ['mask', 'mask-border'] * 2 \
            + rng.sample(members('mask') + members('mask-border'), 4)
    return fam + rng.sample(PLAIN, 2) + [rng.choice(SHORT)]


def decls(rng, fam, n):
    out = []
    for _ in range(n):
        x = rng.choice(fam)
        v = value(rng, x)
        out.append({'n': x, 'v': v,
                    'p': 'important' if rng.random() < .2 else ''})
    return out


def case_of(rng, n):
    if n.startswith('--') or rng.random() < .8:
        return ''
    return rng.choice([n.upper(), n.title()])


def behaviours(rng, tier, focus=''):
    n = {'quick': 700, 'thorough': 6000}[tier]
    for i in range(n):
        fam = names(rng)
        kind = 'inline' if focus == 'inline' else \
            rng.choice(['rule', 'rule', 'own'])
        start = {'kind': kind, 'sp': rng.choice([0, 0, 2]),
                 'ds': decls(rng, fam, rng.choice([0, 0, 1, 2, 4]))}
        if kind == 'rule':      # tinycss2 reads no custom properties
            start['ds'] = [x for x in start['ds'] if x['n'][0] != '-']
        ops = []
        if kind == 'inline':
            ops.append({'name': 'attr' if not start['ds'] else 'again',
                        'n': 'font', 'w': []})
        for _ in range(rng.choice([3, 5, 8])):
            x = rng.choice(fam)
            r = rng.random()
            if r < .62:
                ops.append({
                    'name': 'set', 'n': x, 'c': case_of(rng, x),
                    'v': value(rng, x) if rng.random() < .95 else [],
                    'sp': rng.choice([0, 0, 0, 1, 2, 3]),
                    'idx': rng.random() < .5,
                    'p': rng.choice(['keep', 'keep', '', '', 'important',
                                     'IMPORTANT', 'loud'])})
            elif r < .8:
                ops.append({'name': rng.choice(['rem', 'rem', 'del']),
                            'n': x, 'c': case_of(rng, x)})
            elif r < .9:
                h = rng.choice([y for y in fam if y in SHORT])
                ops.append({'name': 'again', 'n': h})
            elif kind != 'inline':
                if rng.random() < .3:
                    ops.append({'name': 'readonly',
                                'v': rng.random() < .6})
            elif rng.random() < .7:
                ds = decls(rng, fam, rng.choice([0, 1, 2, 3]))
                ops.append({'name': 'extern', 'ds': ds,
                            'sp': rng.choice([0, 2]),
                            'how': rng.choice(['set', 'map', 'attr'])
                            if ds else 'remove'})
            if kind == 'inline' and ops[-1]['name'] in ('set', 'rem', 'del'):
                ops.append({'name': 'attr', 'n': '', 'w': []})
        yield '%s%d' % (focus[:1] or 'b', i), start, ops
