"""Drives the finders: ids, classes, tag names, selectors, owner elements."""

from svgpy.window import SVGDOMImplementation

NONE = '~none'
NSS = {'svg': 'http://www.w3.org/2000/svg',
       'html': 'http://www.w3.org/1999/xhtml', '': None, '*': '*', NONE: None}
ATTR = {'id': 'id', 'class': 'class', 'data': 'data-k'}


def render(c):
    s = ''
    if c['type']:
        s += c['ns'] + '|' + c['type']
    if c['id']:
        s += '#' + c['id']
    s += ''.join('.' + x for x in c['cls'])
    s += ''.join(':not(.%s)' % x for x in c['nocls'])
    if c['op'] == '[]':
        s += '[data-k]'
    elif c['op']:
        s += '[data-k%s"%s"]' % (c['op'], c['val'])
    if c['first']:
        s += ':' + c['first']
    return s or '*'


def selector(sel):
    out = []
    for q in sel:
        t = ''
        for i, c in enumerate(q):
            if i:
                t += ' ' if c['comb'] == ' ' else ' %s ' % c['comb']
            t += render(c)
        out.append(t)
    return ', '.join(out)


class System(object):
    bad = ''

    def __init__(self, start):
        self.impl = SVGDOMImplementation()
        self.doc = self.impl.create_document(None)
        self.nodes = []
        for k, at in zip(start['kind'], start['at']):
            if k['ns'] == '!':
                x = self.doc.create_comment('c')
            else:
                x = self.doc.create_element_ns(
                    NSS[k['ns']], k['name'],
                    nsmap={'html': NSS['html']})
                for a in ATTR:
                    if at[a] != NONE:
                        x.set(ATTR[a], at[a])
            self.nodes.append(x)
        self.ids = {id(x): i + 1 for i, x in enumerate(self.nodes)}
        for p, q in enumerate(start['ch']):
            for c in q:
                self.nodes[p].append_child(self.nodes[c - 1])
        if start['root']:
            self.doc.append(self.nodes[start['root'] - 1])

    def num(self, x):
        if x is None:
            return 0
        if id(x) not in self.ids:
            self.bad = 'unknown node %r' % (x,)
            return -99
        return self.ids[id(x)]

    def apply(self, op):
        try:
            v = self.do(op)
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__, 'v': []}
        return {'r': 'ok', 'v': v}

    def do(self, op):
        name = op['name']
        n = op.get('n', 0)
        x = self.nodes[n - 1] if n else self.doc
        v = op.get('v')
        nums = lambda q: [self.num(y) for y in q]  # noqa: E731
        if name == 'set':
            a = ATTR[op['a']]
            if v == NONE:
                x.attrib.pop(a, None)
            else:
                x.set(a, v)
            return []
        if name == 'move':
            p = self.nodes[op['p'] - 1]
            if op['b']:
                p.insert_before(x, self.nodes[op['b'] - 1])
            else:
                p.append_child(x)
            return []
        if name == 'remove':
            x.parent_node.remove_child(x)
            return []
        if name == 'unroot':
            self.doc.remove(self.doc.document_element)
            return []
        if name == 'root':
            self.doc.append(x)
            return []
        if name == 'id':
            return [self.num(x.get_element_by_id(v))]
        if name == 'class':
            m = {'q': 'urn:q'}
            r = nums(x.get_elements_by_class_name(v, nsmap=m))
            if m != {'q': 'urn:q'}:
                self.bad = 'nsmap argument changed'
            return r
        if name == 'tag':
            return nums(x.get_elements_by_tag_name(v))
        if name == 'tagns':
            return nums(x.get_elements_by_tag_name_ns(NSS[op['ns']], v))
        if name == 'local':
            return nums(x.get_elements_by_local_name(v))
        if name == 'query':
            r = x.query_selector_all(selector(op['sel']))
            return nums(y for y in r if y is not x)
        if name == 'query1':
            return [self.num(x.query_selector(selector(op['sel'])))]
        if name == 'owners':
            return nums([x.owner_svg_element, x.viewport_element,
                         x.get_nearest_svg_element(),
                         x.get_farthest_svg_element(),
                         x.get_nearest_viewport_element(),
                         x.get_farthest_viewport_element()])
        raise RuntimeError(name)

    def state(self):
        return {'ch': [[self.num(y) for y in x.child_nodes]
                       for x in self.nodes],
                'root': self.num(self.doc.document_element)}


# ------------------------------------------------------------- behaviours
KINDS = [dict(ns='svg', name='svg', prefix=''),
         dict(ns='svg', name='g', prefix=''),
         dict(ns='svg', name='symbol', prefix=''),
         dict(ns='svg', name='rect', prefix=''),
         dict(ns='svg', name='g', prefix=''),
         dict(ns='svg', name='svg', prefix=''),
         dict(ns='html', name='video', prefix='html'),
         dict(ns='html', name='source', prefix='html'),
         dict(ns='!', name='', prefix='')]
IDS = ['a', 'b', 'a.b', 'A', '1', 'a b']
WORDS = ['a', 'b', 'a.b', 'axb', 'ab', 'A', 'a-b', '+', 'q"', "q'", '(', 'b$',
         '\u00e9']
SPACES = [' ', ' ', '  ', '\t', '\n']
PLAIN = ['a', 'b', 'ab', 'A', 'a-b', 'axb']
DATA = ['', 'v', 'v w', 'v-w', 'vw', 'w v']


def classes(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice(['', ' ', '\t'])
    k = rng.choice([1, 1, 2, 2, 3, 3, 6])
    ws = [rng.choice(WORDS) for _ in range(k)]
    s = rng.choice(['', '', ' ', '\n'])
    for i, w in enumerate(ws):
        s += (rng.choice(SPACES) if i else '') + w
    return s + rng.choice(['', '', ' '])


def attrs(rng, k):
    if k['ns'] == '!':
        return {'id': NONE, 'class': NONE, 'data': NONE}
    return {'id': rng.choice(IDS) if rng.random() < 0.6 else NONE,
            'class': classes(rng) if rng.random() < 0.7 else NONE,
            'data': rng.choice(DATA) if rng.random() < 0.4 else NONE}


def start(rng):
    n = rng.randint(4, 11)
    kind = [KINDS[0] if rng.random() < 0.8 else rng.choice(KINDS[:3])]
    kind += [rng.choice(KINDS) for _ in range(n - 1)]
    ch = [[] for _ in kind]
    for i in range(1, n):
        if rng.random() < 0.12:
            continue
        cands = [p for p in range(i) if kind[p]['ns'] not in ('!', '')]
        if rng.random() < 0.5:
            cands = cands[-3:]
        p = rng.choice(cands)
        ch[p].insert(rng.randint(0, len(ch[p])), i + 1)
    return {'kind': kind, 'at': [attrs(rng, k) for k in kind], 'ch': ch,
            'root': 1 if rng.random() < 0.9 else 0}


def compound(rng, comb):
    c = dict(comb=comb, ns='', type='', id='', cls=[], nocls=[], op='',
             val='', first='')
    r = rng.random()
    if r < 0.5:
        k = rng.choice(KINDS[:8])
        c['ns'], c['type'] = k['ns'], k['name']
    if rng.random() < 0.15:
        c['id'] = rng.choice(['a', 'b', 'A'])
    if rng.random() < 0.3:
        c['cls'] = [rng.choice(PLAIN)
                    for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.12:
        c['nocls'] = [rng.choice(PLAIN)]
    if rng.random() < 0.2:
        c['op'] = rng.choice(['[]', '=', '^=', '~=', '|='])
        c['val'] = rng.choice(['v', 'w', 'v w' if c['op'] != '~=' else 'v'])
    if rng.random() < 0.12:
        c['first'] = rng.choice(['first-child', 'last-child', 'empty'])
    return c


def sel(rng, simple):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = 1 if simple else rng.choice([1, 1, 2, 2, 3])
        out.append([compound(rng, rng.choice([' ', ' ', '>', '+', '~']))
                    for _ in range(k)])
    return out


def behaviours(rng, tier, focus=''):
    n = 350 if tier == 'quick' else 4000
    for i in range(n):
        st = start(rng)
        yield 'f%d' % i, st, [mk(rng, st) for _ in range(rng.randint(8, 20))]


def up(s, x):
    out = []
    while x is not None:
        out.append(s.num(x))
        x = x.getparent()
    return out


def mk(rng, st):
    def gen(s):
        els = [i + 1 for i, k in enumerate(st['kind']) if k['ns'] != '!']
        svg = [i for i in els if st['kind'][i - 1]['ns'] == 'svg']
        root = s.num(s.doc.document_element)
        r = rng.random()
        if r < 0.14:
            a = rng.choice(['id', 'class', 'class', 'data'])
            v = {'id': lambda: rng.choice(IDS), 'class': lambda: classes(rng),
                 'data': lambda: rng.choice(DATA)}[a]()
            return {'name': 'set', 'n': rng.choice(els), 'a': a,
                    'v': NONE if rng.random() < 0.15 else v}
        if r < 0.26:
            x = rng.randint(1, len(s.nodes))
            if x == root:
                return None
            ps = [p for p in els if x not in up(s, s.nodes[p - 1])
                  and st['kind'][p - 1]['ns']]
            if not ps:
                return None
            p = rng.choice(ps)
            kids = [s.num(c) for c in s.nodes[p - 1].child_nodes]
            kids = [c for c in kids if c != x]
            b = rng.choice(kids + [0]) if kids else 0
            return {'name': 'move', 'p': p, 'n': x, 'b': b}
        if r < 0.3:
            xs = [i + 1 for i, x in enumerate(s.nodes)
                  if x.getparent() is not None]
            return {'name': 'remove', 'n': rng.choice(xs)} if xs else None
        if r < 0.33:
            if root:
                return {'name': 'unroot'}
            xs = [i for i in els if s.nodes[i - 1].getparent() is None]
            return {'name': 'root', 'n': rng.choice(xs)}
        n = rng.choice([0, 0] + els)
        if r < 0.42:
            return {'name': 'id', 'n': n if n in [0] + [
                i for i in els if st['kind'][i - 1]['name'] == 'svg'] else 0,
                'v': rng.choice(IDS)}
        if r < 0.55:
            v = classes(rng)
            held = [w for w in (s.nodes[i - 1].get('class') for i in els)
                    if w and w.strip()]
            if held and rng.random() < .4:
                # the words of one element, some left out or added, reordered
                ws = rng.choice(held).split()
                if rng.random() < .6:
                    ws += [rng.choice(WORDS) for _ in range(
                        rng.choice([1, 1, 2, 3]))]
                elif len(ws) > 1:
                    del ws[rng.randrange(len(ws))]
                rng.shuffle(ws)
                v = ' '.join(ws)
            return {'name': 'class', 'n': n, 'v': v}
        if r < 0.62:
            # which prefix an element has after a move is lxml's business
            return {'name': 'tag', 'n': n, 'v': rng.choice(
                ['*', 'g', 'svg', 'rect', 'html:video', 'video', 'symbol',
                 'G']), 'names': [x.tag_name if k['ns'] != '!' else ''
                                  for k, x in zip(st['kind'], s.nodes)]}
        if r < 0.7:
            return {'name': 'tagns', 'n': n, 'ns': rng.choice(
                ['svg', 'svg', 'html', '*', NONE]), 'v': rng.choice(
                ['*', 'g', 'svg', 'rect', 'video', 'source'])}
        if r < 0.74:
            return {'name': 'local', 'n': rng.choice(els), 'v': rng.choice(
                ['g', 'svg', 'video', 'rect'])}
        if r < 0.94:
            q = sel(rng, n != 0 or False)
            x = s.nodes[n - 1] if n else s.doc.document_element
            if x is not None:
                # a selector can only use prefixes the scope declares
                have = {'svg' if k is None else k: v
                        for k, v in x.nsmap.items()}
                for c in (c for y in q for c in y):
                    if c['type'] and c['comb'] == '+':
                        c['comb'] = '~'      # cssselect's matter
                    if c['type'] and have.get(c['ns']) != NSS[c['ns']]:
                        c['type'] = c['ns'] = ''
            return {'name': 'query1' if n == 0 and r > 0.88 else 'query',
                    'n': n, 'sel': q}
        return {'name': 'owners', 'n': rng.choice(svg)} if svg else None
    return gen
