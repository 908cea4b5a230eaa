"""Drives the computed sizes and weights of the fonts of a tree of elements."""

from harness.num import num, rat

SVG = 'http://www.w3.org/2000/svg'
NAMES = {'s': 'font-size', 'w': 'font-weight'}
ABS = ['xx-small', 'x-small', 'small', 'medium', 'large', 'x-large',
       'xx-large']


def text(d):
    """The text of a declared value; None where nothing is declared."""
    k = d['k']
    if k == 'none':
        return None
    if k == 'abs':
        return d['v']
    if k in ('px', 'pt', 'em', 'pc'):
        n = num(d['n'])
        n = '%d' % n if n == int(n) else repr(n)
        return n + (d['v'] if k == 'px' else '%' if k == 'pc' else k)
    if k == 'n':
        return str(d['n'][0])
    return k


class System(object):
    bad = ''

    def __init__(self, st):
        from svgpy.window import SVGDOMImplementation
        self.doc = SVGDOMImplementation().create_document(SVG, 'svg')
        self.els = [self.doc.document_element]
        self.css = [{}]

    def apply(self, op):
        e = self.els[op['e'] - 1]
        if op['name'] == 'append':
            n = len(self.els)
            c = self.doc.create_element_ns(
                SVG, ['g', 'text', 'a', 'svg'][n % 4])
            e.append_child(c)
            self.els.append(c)
            self.css.append({})
        elif op['name'] == 'move':
            self.els[op['to'] - 1].append_child(e)
        else:
            key, v = NAMES[op['p']], text(op['d'])
            if op['css']:
                q = self.css[op['e'] - 1]
                q.pop(key, None)
                if v is not None:
                    q[key] = v
                if q:
                    e.set_attribute('style', '; '.join(
                        '%s: %s' % x for x in q.items()))
                else:
                    e.remove_attribute('style')
            elif v is None:
                e.remove_attribute(key)
            else:
                e.set_attribute(key, v)
        return {'r': 'ok'}

    def state(self):
        out = []
        for e in self.els:
            s = e.get_computed_style()
            out.append({'size': rat(s['font-size']),
                        'weight': int(s['font-weight'])})
        return {'fonts': out}


# ----------------------------------------------------------------- behaviours
def decl(k, n=(0, 1), v=''):
    return {'k': k, 'n': list(n), 'v': v}


def size(rng):
    k = rng.choice(['none', 'none', 'inherit', 'unset', 'initial', 'abs',
                    'px', 'px', 'pt', 'em', 'em', 'pc', 'pc', 'larger',
                    'larger', 'smaller', 'smaller'])
    if k == 'abs':
        return decl(k, v=rng.choice(ABS))
    if k == 'px':
        return decl(k, rng.choice([(8, 1), (10, 1), (20, 1), (37, 1), (25, 2),
                                   (40, 1), (100, 1)]), rng.choice(['', 'px']))
    if k == 'pt':
        return decl(k, rng.choice([(9, 1), (12, 1), (30, 1)]))
    if k == 'em':
        return decl(k, rng.choice([(1, 2), (3, 2), (2, 1), (5, 4), (1, 1)]))
    if k == 'pc':
        return decl(k, rng.choice([(50, 1), (80, 1), (120, 1), (150, 1),
                                   (200, 1)]))
    return decl(k)


def weight(rng):
    k = rng.choice(['none', 'none', 'inherit', 'unset', 'initial', 'normal',
                    'bold', 'bolder', 'bolder', 'bolder', 'lighter',
                    'lighter', 'lighter', 'n', 'n', 'n'])
    if k == 'n':
        return decl(k, (100 * rng.randint(1, 9), 1))
    return decl(k)


def step(rng):
    def make(sys):
        n = len(sys.els)
        e = rng.randint(1, n)
        name = rng.choice(['append'] * (3 if n < 5 else 0)
                          + ['set'] * 6 + ['move'] * (n > 2))
        if name == 'append':
            return {'name': name, 'e': rng.choice([e, n])}
        if name == 'move':
            e = rng.randint(2, n)
            to = rng.choice([i + 1 for i, x in enumerate(sys.els)
                             if sys.els[e - 1] not in
                             [x] + list(x.iterancestors())])
            return {'name': name, 'e': e, 'to': to}
        p = rng.choice('sw')
        return {'name': name, 'e': e, 'p': p, 'css': rng.choice([0, 0, 1]),
                'd': size(rng) if p == 's' else weight(rng)}
    return make


def behaviours(rng, tier, focus=''):
    count = {'quick': 500, 'thorough': 5000}[tier]
    for i in range(count):
        yield ('f%d' % i, {'u': 0},
               [step(rng) for _ in range(rng.choice([4, 8, 12]))])
