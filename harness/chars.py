"""Drives the characters of a text: what is shown, how long it is and where."""

from harness.driver import Unrepresentable

SVG = 'http://www.w3.org/2000/svg'
FONT = 'DejaVu Sans Mono'
# advances at 10 and 20 of that font (of the font's stand-in for the wide ones)
ADVANCE = [[c, 385, 771] for c in (97, 98, 99, 32, 9, 10, 13, 160)]
BOX = [[576, 768], [1152, 1472]]
SEPARATORS = [' ', ',', ' , ', '\n', ',\t']


def start(ws=''):
    return {'ws': ws, 'adv': ADVANCE + [[c, 0, 0] for c in (8203, 23383, 65393, 44032)],
            'box': BOX}


class System(object):
    def __init__(self, st):
        from svgpy.window import SVGDOMImplementation
        self.bad = ''
        self.doc = SVGDOMImplementation().create_document(SVG, 'svg')
        root = self.doc.document_element
        text = self.doc.create_element_ns(SVG, 'text')
        text.set_attribute('font-family', FONT)
        text.set_attribute('font-size', '10')
        root.append_child(text)
        self.root = root
        if st['ws']:
            text.set_attribute('white-space', st['ws'])
        self.ns = [root[0]]
        self.kinds = ['text']

    def node(self, n):
        return self.ns[n - 1]

    def apply(self, op):
        name = op['name']
        n = self.node(op['n'])
        if name == 'append':
            doc = self.doc
            text = ''.join(map(chr, op['s']))
            k = op['k']
            if k == 'comment':
                c = doc.create_comment(text)
            elif k == 'pi':
                c = doc.create_processing_instruction('x', text)
            else:
                c = doc.create_element_ns(SVG, k)
                if text:
                    c.text = text
            n.append_child(c)
            if op['tail']:
                c.tail = ''.join(map(chr, op['tail']))
            self.ns.append(c)
            self.kinds.append(k)
        elif name in ('text', 'tail'):
            setattr(n, name, ''.join(map(chr, op['s'])) or None)
        elif name == 'set':
            key = {'ws': 'white-space', 'disp': 'display',
                   'size': 'font-size'}[op['key']]
            if op['v']:
                n.set_attribute(key, op['v'])
            else:
                n.remove_attribute(key)
        elif name == 'place':
            sp = SEPARATORS[op['sp'] % 5]
            if op['l']:
                v = sp.join(map(str, op['l']))
                if op['sp'] > 4:
                    v = ' %s\n' % v
                n.set_attribute(op['key'], v)
            else:
                n.remove_attribute(op['key'])
        elif name == 'chars':
            v = self.chars(n)
            if op['sp'] and n.get_number_of_chars() != len(v):
                self.bad = 'not as many characters as get_chars returns'
            return {'r': 'ok', 'v': v}
        elif name == 'length':
            if op['from'] == 0 and op['count'] == -1 and op['sp']:
                v = n.get_computed_text_length()
            else:
                v = n.get_sub_string_length(op['from'], op['count'])
            return {'r': 'ok', 'v': self.whole(v * 64)}
        elif name == 'box':
            b = n.get_bbox()
            if b.x is None or (b.width == 0 and b.height == 0):
                return {'r': 'ok', 'v': []}
            return {'r': 'ok', 'v': [self.whole(v * 64) for v in
                                     (b.x, b.y, b.width, b.height)]}
        return {'r': 'ok'}

    def whole(self, v):
        if abs(v - round(v)) > 1e-6:
            raise Unrepresentable('%r is not in 64ths' % v)
        return int(round(v))

    def chars(self, n):
        return [ord(c) for c in n.get_chars() or '']

    def state(self):
        return {'chars': self.chars(self.ns[0])}


PLAIN = [97, 98, 99, 32, 32, 32, 9, 10, 10, 160]
WORDS = [97, 98, 32]
WIDE = [97, 32, 32, 10, 10, 13, 9, 8203, 23383, 23383, 65393, 44032]
SPACES = ['normal', 'nowrap', 'pre', 'pre-line', 'pre-wrap']


def behaviours(rng, tier, focus=''):
    count = {'quick': 160, 'thorough': 3000}[tier]
    for i in range(count):
        letters = rng.choice([PLAIN, PLAIN, WORDS, WIDE])
        yield ('c%d' % i, start(rng.choice(['', '', ''] + SPACES)),
               [step(rng, letters) for _ in range(rng.choice([4, 7, 10]))])


def some(rng, letters, hi=5):
    out = []
    for _ in range(rng.randint(0, hi)):
        out.append(rng.choice(letters))
        if letters is WIDE and out[-1] > 32:
            out += rng.choice([[], [10], [13, 10], [10, 10], [32, 13],
                               [9, 10, 32]])
    return out


def step(rng, letters):
    def make(sys):
        els = [i + 1 for i, k in enumerate(sys.kinds)
               if k in ('text', 'tspan')]
        n = rng.choice(els)
        if rng.random() < .5:
            n = els[-1]
        names = ['append'] * (6 if len(sys.ns) < 4 else
                              3 if len(sys.ns) < 8 else 0)
        names += ['text', 'tail', 'set', 'set', 'chars']
        if letters is not WIDE:
            names += ['place', 'place', 'length', 'box']
        name = rng.choice(names)
        if name == 'append':
            k = rng.choice(['tspan'] * 6 + ['comment', 'pi', 'title'])
            s = (some(rng, letters) if k == 'tspan' else
                 [97] * rng.randint(0, 2))
            return {'name': name, 'n': n, 'k': k, 's': s,
                    'tail': some(rng, letters, 3)}
        if name == 'text':
            return {'name': name, 'n': n, 's': some(rng, letters, 8)}
        if name == 'tail':
            if len(sys.ns) == 1:
                return None
            return {'name': name, 'n': rng.randint(2, len(sys.ns)),
                    's': some(rng, letters, 4)}
        if name == 'set':
            key = rng.choice(['ws', 'ws', 'disp', 'size'])
            v = {'ws': SPACES + [''], 'disp': ['none', 'inline', ''],
                 'size': ['10', '20', '']}[key]
            v = rng.choice(v)
            if n == 1 and key == 'size' and not v:
                v = '10'
            return {'name': name, 'n': n, 'key': key, 'v': v}
        if name == 'place':
            return {'name': name, 'n': n,
                    'key': rng.choice(['x', 'x', 'y', 'dx', 'dy']),
                    'l': [rng.choice([0, 1, 7, 30, -5, 100])
                          for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))],
                    'sp': rng.randint(0, 9)}
        if name == 'chars':
            return {'name': name, 'n': n, 'sp': rng.randint(0, 1)}
        if name == 'length':
            return {'name': name, 'n': n, 'from': rng.choice([0, 0, 1, 2, 5]),
                    'count': rng.choice([-1, -1, 0, 1, 2, 9]),
                    'sp': rng.randint(0, 1)}
        return {'name': 'box', 'n': 1}
    return make
