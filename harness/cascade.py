"""Drives the cascade: style sheets, attributes and what elements inherit."""

from base64 import b64encode
from urllib.parse import quote

from svgpy import window

from harness import find

NONE = find.NONE
NSS = find.NSS
PROPS = ['fill', 'stroke', 'visibility', 'opacity', 'display', 'overflow',
         'stroke-width', 'font-size', 'font-style', 'font-weight',
         'line-height', 'white-space', 'font-family', 'marker-start',
         'marker-mid', 'marker-end', 'text-decoration', 'stop-color']
MQ = {'': '', 'all': 'all', 'screen': 'screen', 'print': 'print',
      'wide': 'screen and (min-width: 500px)', 'narrow': '(width < 500px)'}


# ----------------------------------------------------------- text of sheets

PREFIX = {'svg': 's', 'html': 'h'}


def render(c):
    t = find.render(c)
    if c['type'] and not c['ns']:
        t = t.replace('|', '', 1)
    elif c['type'] and c['ns'] in PREFIX:
        # not the prefixes of the documents
        t = t.replace(c['ns'] + '|', PREFIX[c['ns']] + '|', 1)
    return t


def complex_(q, sp):
    t = ''
    for i, c in enumerate(q):
        if i:
            t += c['comb'] if c['comb'] == ' ' or sp == 1 \
                else ' %s ' % c['comb']
        t += render(c)
    return t


def decls(ds, sp):
    out = []
    for p, v, imp in ds:
        if sp == 2:
            p = p.upper()
        out.append(p + (':' if sp == 1 else ' : ' if sp == 2 else ': ') + v
                   + ({0: ' !important', 1: '!important',
                       2: ' ! IMPORTANT'}[sp] if imp else ''))
    return (';' if sp == 1 else '; ').join(out) + (';' if sp == 2 else '')


def rules(q, sp):
    t = ''
    for r in q:
        if r['k'] == 'style':
            t += '%s {%s}' % (', '.join(complex_(x, sp) for x in r['sel']),
                              decls(r['ds'], sp))
        elif r['k'] == 'media':
            t += '@media %s {%s}' % (MQ[r['mq']], rules(r['q'], sp))
        elif r['k'] == 'junk':
            t += r['t']
        t += '' if sp == 1 else '\n /* x */ '
    return t


def sheet(c, sp):
    imports = [r for r in c['q'] if r['k'] == 'import']
    t = ''
    for r in imports:
        t += '@import url("data:text/css,%s") %s;' % (
            quote(sheet(dict(dn=NONE, q=r['q']), sp)), MQ[r['mq']])
    if c['dn'] != NONE:
        t += '@namespace url(%s);' % NSS[c['dn']]
    t += '@namespace s "%s"; @namespace h url("%s");' % (
        NSS['svg'], NSS['html'])
    return t + rules([r for r in c['q'] if r['k'] != 'import'], sp)


def pi(c):
    return 'type="text/css" href="data:text/css,%s"%s%s' % (
        quote(sheet(c, 0)), ' media="%s"' % MQ[c['mq']] if c['mq'] else '',
        '' if c['ok'] else ' alternate="yes"')


# --------------------------------------------------------------------- system
class System(find.System):
    def __init__(self, start):
        window.location = 'about:blank'
        window.inner_width = 800 if start['wide'] else 400
        self.doc = window.document
        self.nodes = []
        self.props = start['props']
        for k, at in zip(start['kind'], start['at']):
            if k['ns'] == '!':
                x = self.doc.create_comment('c')
            else:
                x = self.doc.create_element_ns(
                    NSS[k['ns']], k['name'], nsmap={'html': NSS['html']})
                for a in find.ATTR:
                    if at[a] != NONE:
                        x.set(find.ATTR[a], at[a])
            self.nodes.append(x)
        self.ids = {id(x): i + 1 for i, x in enumerate(self.nodes)}
        for p, q in enumerate(start['ch']):
            for c in q:
                self.nodes[p].append_child(self.nodes[c - 1])
        if start['root']:
            self.doc.append(self.nodes[start['root'] - 1])
        self.pis = []
        for c in start['pis']:
            self.pis.append(self.doc.create_processing_instruction(
                'xml-stylesheet', pi(c)))
            self.nodes[0].addprevious(self.pis[-1])
        for i in range(len(self.nodes)):
            if start['pa'][i]:
                self.do({'name': 'attr', 'n': i + 1, 'q': start['pa'][i]})
            if start['il'][i]:
                self.do({'name': 'inline', 'n': i + 1, 'q': start['il'][i]})
            if start['css'][i]['q']:
                self.do({'name': 'sheet', 'n': i + 1, 'c': start['css'][i]})

    def do(self, op):
        name = op['name']
        if name == 'pi':
            self.pis[op['n'] - 1].data = pi(op['c'])
            return []
        sp = op.get('sp', 0)
        x = self.nodes[op['n'] - 1] if op.get('n') else self.doc
        if name == 'attr':
            for p in PROPS:
                x.attrib.pop(p, None)
            for p, v in op['q']:
                x.set(p, v)
        elif name == 'inline':
            if sp == 0 and all(not d[2] for d in op['q']):
                x.attrib.pop('style', None)
                for p, v, imp in op['q']:
                    x.style.set_property(p, v)
            elif op['q']:
                x.set('style', decls(op['q'], sp))
            else:
                x.attrib.pop('style', None)
        elif name == 'sheet':
            c = op['c']
            x.attrib.pop('type', None)
            x.attrib.pop('media', None)
            if x.local_name == 'link':
                x.set('href', 'data:text/css;%s,%s' % (
                    ('base64', quote(b64encode(sheet(c, sp).encode())))
                    if sp == 2 else
                    ('charset=utf-8', quote(sheet(c, sp)))))
                x.set('rel', 'stylesheet' if c['ok']
                      else 'alternate stylesheet')
            else:
                x.text = sheet(c, sp)
            if not c['ok']:
                x.set('type', 'text/plain')
            elif sp == 1:
                x.set('type', 'text/css')
            if c['mq']:
                x.set('media', MQ[c['mq']])
        elif name == 'window':
            window.inner_width = 800 if op['w'] else 400
        else:
            return super().do(op)
        return []

    def state(self):
        s = {p: [] for p in self.props}
        for i, x in enumerate(self.nodes):
            if not hasattr(x, 'get_inherited_style') \
                    or find.up(self, x)[-1] != 1:
                for p in self.props:
                    s[p].append('')
                continue
            v = x.get_inherited_style()
            for p in self.props:
                w = v.get(p)
                s[p].append(', '.join(w) if isinstance(w, list) else w)
            if i == len(self.nodes) // 2:
                if x.isdisplay() != (v['display'] != 'none'):
                    self.bad = 'isdisplay() differs from display'
                c = x.get_computed_style()
                for p in self.props:
                    if p in ('fill', 'stroke', 'visibility', 'opacity',
                             'display', 'font-style', 'font-family') \
                            and c[p] != v[p]:
                        self.bad = 'computed %s differs' % p
        s['ch'] = [[self.num(y) for y in x.child_nodes] for x in self.nodes]
        return s


# ----------------------------------------------------------------- behaviours
KINDS = [dict(ns='svg', name=n, prefix='') for n in
         ('g', 'g', 'g', 'rect', 'rect', 'rect', 'svg', 'svg', 'symbol', 'defs',
          'text', 'image', 'linearGradient', 'pattern')] + [
    dict(ns='html', name='p', prefix='html'), dict(ns='', name='rect',
                                                   prefix=''),
    dict(ns='', name='g', prefix=''), dict(ns='!', name='', prefix='')]
VALS = {'fill': ['red', 'none', 'blue'], 'stroke': ['red', 'blue'],
        'visibility': ['hidden', 'visible'], 'opacity': ['0.5', '0'],
        'display': ['none', 'block', 'inline'],
        'overflow': ['hidden', 'visible', 'scroll'],
        'stroke-width': ['2', '3px'], 'font-size': ['10px', '14px'],
        'font-style': ['italic', 'oblique'], 'font-weight': ['bold', '300'],
        'line-height': ['3', '20px'], 'white-space': ['pre', 'nowrap'],
        'font-family': ['c', 'd'], 'marker-start': ['none'],
        'marker-mid': ['none'], 'text-decoration': ['underline', 'overline'],
        'stop-color': ['red', 'white'],
        'font': ['12px a', 'italic bold 20px/2 b'], 'marker': ['none']}
VALS.update({
    'alignment-baseline': ['middle', 'central'],
    'baseline-shift': ['sub', 'super'],
    'clip-rule': ['evenodd'],
    'color': ['red', 'blue'],
    'color-interpolation': ['linearRGB'],
    'cursor': ['pointer', 'help'],
    'direction': ['rtl'],
    'dominant-baseline': ['hanging', 'middle'],
    'fill-opacity': ['0', '0.5'],
    'fill-rule': ['evenodd'],
    'flood-color': ['red', 'white'],
    'flood-opacity': ['0', '0.5'],
    'font-kerning': ['none', 'normal'],
    'font-stretch': ['condensed', 'expanded'],
    'image-rendering': ['pixelated'],
    'letter-spacing': ['1px', '2'],
    'lighting-color': ['red'],
    'pointer-events': ['none', 'all'],
    'shape-rendering': ['crispEdges'],
    'stop-opacity': ['0', '0.5'],
    'stroke-dasharray': ['1', '5'],
    'stroke-dashoffset': ['1', '5'],
    'stroke-linecap': ['round', 'square'],
    'stroke-linejoin': ['round', 'bevel'],
    'stroke-miterlimit': ['1', '5'],
    'stroke-opacity': ['0', '0.5'],
    'tab-size': ['4', '2'],
    'text-anchor': ['middle', 'end'],
    'text-orientation': ['upright'],
    'text-rendering': ['optimizeSpeed'],
    'unicode-bidi': ['embed', 'plaintext'],
    'vector-effect': ['non-scaling-stroke'],
    'word-spacing': ['1px', '2'],
    'writing-mode': ['vertical-rl'],
})
PROPS += [p for p in sorted(VALS)
          if p not in PROPS and p not in ('font', 'marker')]
WIDE = ['inherit', 'inherit', 'initial', 'unset']
OVERLAP = {'font': {'font-size', 'font-style', 'font-weight', 'line-height',
                    'font-family'},
           'marker': {'marker-start', 'marker-mid'}}


FULL = {'font': OVERLAP['font'],
        'marker': {'marker-start', 'marker-mid', 'marker-end'}}


def overlap(p, q):
    return p == q or q in OVERLAP.get(p, ()) or p in OVERLAP.get(q, ())


def some(rng, n, attr, few):
    ds = []
    names = few
    for _ in range(n):
        p = rng.choice(names)
        if attr and p in OVERLAP:
            continue
        imp = '' if attr or rng.random() < 0.8 else 'important'
        if any(p == d[0] for d in ds) \
                or any(overlap(p, d[0]) and d[2] != imp for d in ds):
            continue        # which of the two wins is another property's
        v = rng.choice(WIDE) if rng.random() < 0.2 else rng.choice(VALS[p])
        ds.append([p, v, imp])
    return [d[:2] for d in ds] if attr else ds


def compound(rng, comb):
    c = find.compound(rng, comb)
    if c['type']:
        k = rng.choice(KINDS[:15])
        c['ns'], c['type'] = k['ns'], k['name']
        if rng.random() < 0.6:
            c['ns'] = ''
    if c['first'] == 'empty':       # style elements hold text
        c['first'] = ''
    if not c['type'] and not c['cls'] and rng.random() < 0.3:
        c['cls'] = [rng.choice('ab')]
    return c


BROAD = dict(comb=' ', ns='', type='', id='', cls=[], nocls=[], op='', val='',
             first='')


def style(rng, few):
    if rng.random() < 0.25:
        return dict(k='style', sel=[[dict(BROAD, type=rng.choice(
            ['', '', 'g', 'rect']))]], mq='', q=[], t='',
            ds=some(rng, rng.choice([1, 2]), False, few))
    sel = [[compound(rng, rng.choice([' ', ' ', '>', '+', '~']))
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
           for _ in range(rng.choice([1, 1, 1, 2]))]
    if rng.random() < 0.25:         # several likely matches of one element
        sel = rng.sample([[dict(BROAD)], [dict(BROAD, cls=['a'])],
                          [dict(BROAD, type=rng.choice(['g', 'rect']))],
                          [dict(BROAD, cls=['b'])], sel[0]], 2)
    return dict(k='style', sel=sel, ds=some(rng, rng.choice([1, 1, 2, 3]),
                                            False, few), mq='', q=[], t='')


def contest(rng, few):
    """Rules one of which wins by one of several selectors only."""
    low = [[dict(BROAD)], [dict(BROAD, type='rect')], [dict(BROAD, type='g')]]
    high = [[dict(BROAD, cls=['a'])], [dict(BROAD, cls=['b'])],
            [dict(BROAD, type='', id='x')], [dict(BROAD, cls=['a', 'b'])]]
    two = [rng.choice(low), rng.choice(high)]
    rng.shuffle(two)
    p = rng.choice([x for x in few])
    vs = [rng.choice(VALS[p]) for _ in range(2)]
    rs = [dict(k='style', sel=q, ds=[[p, v, '']], mq='', q=[], t='')
          for q, v in zip([two, [rng.choice(low + high)]], vs)]
    return rs if rng.random() < 0.7 else rs[::-1]


JUNK = ['rect:nope {fill: lime}', '::before {fill: lime}',
        'g::after, rect {fill: lime}', 'rect > {fill: lime}',
        'zz|rect {fill: lime}', '@unknown {rect {fill: lime}}',
        '* {fill lime}', '* {: lime}', '@media print {* {fill: lime}}',
        'rect:hover {fill: lime}', '* {}']


def block(rng, n, few, depth=0, media=0.15):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.1:
            out.append(dict(k='junk', sel=[], ds=[], mq='', q=[],
                            t=rng.choice(JUNK)))
        elif r < 0.1 + media and depth < 2:
            out.append(dict(k='media', sel=[], ds=[], t='',
                            mq=rng.choice(['all', 'screen', 'print', 'wide',
                                           'wide', 'narrow']),
                            q=block(rng, rng.randint(0, 2), few, depth + 1)))
        elif r > 0.9:
            out += contest(rng, few)
        else:
            out.append(style(rng, few))
    return out


def css(rng, few):
    q = block(rng, rng.choice([0, 1, 2, 2, 3, 4]), few)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        inner = block(rng, rng.randint(1, 2), few, media=0.4)
        if rng.random() < 0.2:
            inner.insert(0, dict(k='import', sel=[], ds=[], t='', mq=rng.choice(
                ['', 'print', 'wide']), q=block(rng, 1, few)))
        q.insert(0, dict(k='import', sel=[], ds=[], t='',
                         mq=rng.choice(['', 'screen', 'print', 'wide']),
                         q=inner))
    return dict(ok=rng.random() < 0.93,
                mq=rng.choice(['', '', '', 'all', 'screen', 'wide', 'print']),
                dn=rng.choice([NONE] * 5 + ['svg', 'svg', 'html']), q=q)


SHEETS = ('style', 'link')
EMPTY = dict(ok=True, mq='', dn=NONE, q=[])


def looked(rng, few):
    ps = {'fill', 'opacity', 'display', 'overflow', 'font-size'}
    for p in few:
        ps |= FULL.get(p, {p})
    ps.update(rng.sample(PROPS, 4))
    return sorted(ps - {'font-stretch', 'font-kerning'}
                  if 'font' in few else ps)


def start(rng):
    n = rng.randint(3, 8)
    k = rng.choice([1, 1, 1, 2])
    kind = [dict(ns='svg' if rng.random() < 0.85 else '', name='svg',
                 prefix='')]
    kind += [dict(ns=rng.choice(['svg', 'svg', 'html', '']), name='style',
                  prefix='') if rng.random() < 0.75 else
             dict(ns='html', name='link', prefix='') for _ in range(k)]
    kind += [rng.choice(KINDS) for _ in range(n - 1)]
    ch = [[] for _ in kind]
    few = rng.sample(sorted(VALS), 4) + ['fill', 'opacity', 'display']
    if rng.random() < 0.3:
        few += rng.sample(['font', 'marker', 'font-size', 'font-weight',
                           'white-space', 'text-decoration', 'overflow'], 2)
    if 'font' in few:
        few = [p for p in few if p not in ('font-stretch', 'font-kerning')]
    for i in range(1, len(kind)):
        cands = [p for p in range(i) if kind[p]['ns'] != '!'
                 and kind[p]['name'] not in SHEETS]
        if rng.random() < 0.6:
            cands = cands[-2:]
        p = 0 if kind[i]['name'] in SHEETS and rng.random() < 0.7 \
            else rng.choice(cands)
        ch[p].insert(rng.randint(0, len(ch[p])), i + 1)
    el = [x['ns'] != '!' for x in kind]
    at = []
    for x in kind:
        a = find.attrs(rng, x)
        if a['class'] != NONE:
            a['class'] = ' '.join(rng.choice(['a', 'b', 'ab', 'a-b'])
                                  for _ in range(rng.choice([1, 2])))
        if a['id'] not in (NONE, 'a', 'b', 'A'):
            a['id'] = 'b'
        at.append(a)
    root = 1 if rng.random() < 0.95 else 0
    return {'kind': kind, 'ch': ch, 'root': root,
            'pis': [css(rng, few) for _ in range(rng.choice([0, 0, 1, 2]))]
            if root else [],
            'at': at,
            'pa': [some(rng, rng.randint(1, 2), True, few)
                   if e and rng.random() < 0.35 else [] for e in el],
            'il': [some(rng, rng.randint(1, 3), False, few)
                   if e and rng.random() < 0.25 else [] for e in el],
            'css': [css(rng, few) if x['name'] in SHEETS else EMPTY
                    for x in kind],
            'props': looked(rng, few), 'wide': rng.random() < 0.6}, few


def mk(rng, st, few):
    def gen(s):
        els = [i + 1 for i, k in enumerate(st['kind']) if k['ns'] != '!']
        sheets = [i for i in els if st['kind'][i - 1]['name'] in SHEETS]
        sp = rng.randint(0, 2)
        r = rng.random()
        n = rng.choice(els)
        if r < 0.2:
            return {'name': 'attr', 'n': n,
                    'q': some(rng, rng.randint(0, 3), True, few)}
        if r < 0.4:
            return {'name': 'inline', 'n': n, 'sp': sp,
                    'q': some(rng, rng.randint(0, 3), False, few)}
        if r < 0.65:
            return {'name': 'sheet', 'n': rng.choice(sheets), 'sp': sp,
                    'c': css(rng, few)}
        if r < 0.68 and st['pis']:
            return {'name': 'pi', 'n': rng.randint(1, len(st['pis'])),
                    'c': css(rng, few)}
        if r < 0.72:
            return {'name': 'window', 'w': rng.random() < 0.5}
        if r < 0.87:
            a = rng.choice(['id', 'class', 'class', 'data'])
            v = {'id': ['a', 'b', NONE], 'class': ['a', 'b a', 'ab', NONE],
                 'data': ['v', 'v w', 'v-w', NONE]}[a]
            return {'name': 'set', 'n': n, 'a': a, 'v': rng.choice(v)}
        root = s.num(s.doc.document_element)
        x = rng.randint(1, len(s.nodes))
        if x in (1, root) or r > 0.97 and s.nodes[x - 1].getparent() is not None:
            return None if x in (1, root) else {'name': 'remove', 'n': x}
        ps = [p for p in els if x not in find.up(s, s.nodes[p - 1])
              and st['kind'][p - 1]['name'] not in SHEETS]
        if not ps:
            return None
        p = rng.choice(ps)
        kids = [s.num(c) for c in s.nodes[p - 1].child_nodes]
        kids = [c for c in kids if c != x]
        return {'name': 'move', 'p': p, 'n': x,
                'b': rng.choice(kids + [0]) if kids else 0}
    return gen


def behaviours(rng, tier, focus=''):
    for i in range(160 if tier == 'quick' else 1600):
        st, few = start(rng)
        yield 'c%d' % i, st, [mk(rng, st, few)
                              for _ in range(rng.randint(3, 7))]
