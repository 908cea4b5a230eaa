"""Drives element attributes, Attr objects, class tokens and datasets."""

from svgpy import SVGParser
from svgpy.dom import DOMTokenList
from svgpy.window import SVGDOMImplementation

NS = 'http://www.w3.org/2000/svg'
NONE = '~none'
XL = '{http://www.w3.org/1999/xlink}href'
XML = '{http://www.w3.org/XML/1998/namespace}lang'
ERRORS = ('KeyError', 'ValueError', 'IndexError', 'InUseAttributeError',
          'InvalidCharacterError', 'NamespaceError', 'TypeError')


def none(v):
    return NONE if v is None else v


class System(object):
    bad = ''

    def __init__(self, start):
        self.impl = SVGDOMImplementation()
        self.doc = self.impl.create_document(NS, 'svg')
        self.els = []
        for i, at in enumerate(start['el']):
            e = self.doc.create_element_ns(NS, 'g' if i % 2 == 0 else 'text')
            for n, v in at:
                e.set(n, v)
            self.els.append(e)
        self.attrs = []
        self.ids = {}
        self.state()

    def num(self, a):
        if a is None:
            return 0
        if id(a) not in self.ids:
            self.attrs.append(a)
            self.ids[id(a)] = len(self.attrs)
        return self.ids[id(a)]

    def enum(self, e):
        if e is None:
            return 0
        for i, x in enumerate(self.els):
            if x is e:
                return i + 1
        self.bad = 'unknown owner element'
        return 0

    def apply(self, op):
        try:
            v, a = self.do(op)
        except Exception as e:
            n = type(e).__name__
            return {'r': n if n in ERRORS else 'exc:' + n, 'v': [], 'a': 0}
        return {'r': 'ok', 'v': v, 'a': a}

    def do(self, op):
        name = op['name']
        e = self.els[op['e'] - 1] if op.get('e') else None
        n = op.get('n')
        v = op.get('v')
        if v == NONE:
            v = None
        w = op.get('w', 0)
        ns = local = None
        if n is not None and n[0] == '{':
            ns, local = n[1:].split('}')
        elif n is not None:
            local = n
        x = self.attrs[op['a'] - 1] if op.get('a') else None
        if name == 'set_attribute':
            if w == 0:
                e.set_attribute(n, v)
            elif w == 1:
                e.attributes[n] = v
            else:
                e.set_attribute_ns(ns, local, v)
        elif name == 'raw_set':
            if w == 1 and n == 'class':
                e.class_name = v
            elif w == 1 and n == 'id':
                e.id = v
            elif w == 2:
                e.attrib[n] = v
            else:
                e.set(n, v)
        elif name == 'raw_del':
            del e.attrib[n]
        elif name == 'get_attribute':
            r = e.get_attribute(n) if w == 0 else e.get_attribute_ns(ns, local)
            return [none(r)], 0
        elif name == 'get_node':
            if w == 0:
                r = e.get_attribute_node(n)
            elif w == 1:
                r = e.get_attribute_node_ns(ns, local)
            elif w == 2:
                r = e.attributes.get_named_item(n)
            else:
                r = e.attributes.get_named_item_ns(ns, local)
            return [], self.num(r)
        elif name == 'item':
            return [], self.num(e.attributes.item(op['i']))
        elif name == 'map_del':
            if w == 1 and n in e.attributes:
                del e.attributes[e.attributes[n]]
            else:
                del e.attributes[n]
        elif name == 'remove_attribute':
            if w == 0:
                e.remove_attribute(n)
            else:
                e.remove_attribute_ns(ns, local)
        elif name == 'remove_named':
            r = e.attributes.remove_named_item(n) if w == 0 else \
                e.attributes.remove_named_item_ns(ns, local)
            return [], self.num(r)
        elif name == 'remove_node':
            return [], self.num(e.remove_attribute_node(x))
        elif name == 'set_node':
            f = [e.set_attribute_node, e.set_attribute_node_ns,
                 e.attributes.set_named_item,
                 e.attributes.set_named_item_ns][w]
            return [], self.num(f(x))
        elif name == 'map_set_node':
            e.attributes[n] = x
        elif name == 'toggle':
            f = {-1: None, 0: False, 1: True}[op['i']]
            r = e.toggle_attribute(n) if f is None and w == 0 else \
                e.toggle_attribute(n, f)
            return [str(r)], 0
        elif name == 'attr_value':
            if w == 0:
                x.value = v
            elif w == 1:
                x.node_value = v
            else:
                x.text_content = v
        elif name == 'new_attr':
            r = self.doc.create_attribute_ns(ns, local) if ns else \
                self.doc.create_attribute(n)
            r.value = v
            return [], self.num(r)
        elif name == 'token':
            return self.token(e, op), 0
        elif name == 'data':
            d = e.dataset
            f, k = op['f'], op['k']
            if f == 'get':
                return [none(d[k])], 0
            if f == 'set':
                d[k] = v
            elif f == 'del':
                del d[k]
            else:
                return [str(k in d)], 0
        else:
            raise RuntimeError(name)
        return [], 0

    def token(self, e, op):
        f, ts, i = op['f'], op['ts'], op['i']
        t = e.class_list if op['w'] == 0 else DOMTokenList(e, 'class')
        if f == 'add':
            t.add(*ts)
        elif f == 'remove':
            t.remove(*ts)
        elif f == 'insert':
            t.insert(i, ts[0])
        elif f == 'replace':
            return [str(t.replace(ts[0], ts[1]))]
        elif f == 'toggle':
            return [str(t.toggle(ts[0]) if i == -1 else
                        t.toggle(ts[0], bool(i)))]
        elif f == 'del':
            del t[i]
        elif f == 'set':
            t[i] = ts[0]
        elif f == 'item':
            return [t.item(i) if op['w'] == 0 else t[i]]
        elif f == 'contains':
            return [str(t.contains(ts[0]) if op['w'] == 0 else ts[0] in t)]
        return []

    def state(self):
        at, nodes, tokens, data = [], [], [], []
        # the map first: it is what hands out Attr objects
        for x in list(self.attrs):
            for e in self.els:
                e.attributes.get(x.name)
        for e in self.els:
            m = e.attributes
            names = list(m)
            at.append([[n, e.get_attribute(n)] for n in names])
            nodes.append([self.num(m[n]) for n in names])
            if len(m) != len(names) or m.length != len(names) or \
                    e.has_attributes() != (len(names) > 0) or \
                    list(e.attrib.keys()) != names or \
                    e.get_attribute_names() != sorted(names):
                self.bad = 'sizes or names of the attribute map disagree'
            for i, n in enumerate(names):
                a = m[n]
                if m.item(i) is not a or a.value != e.get(n) or \
                        a.name != n or a.node_value != e.get(n) or \
                        a.text_content != e.get(n) or \
                        e.get_attribute_node(n) is not a or \
                        not e.has_attribute(n) or n not in m:
                    self.bad = 'views of attribute %s disagree' % n
            t = e.class_list
            tokens.append(list(t))
            if len(t) != len(tokens[-1]) or t.length != len(t) or \
                    t.value != ' '.join(tokens[-1]) or \
                    e.class_name != (e.get('class') or '') or \
                    e.id != (e.get('id') or ''):
                self.bad = 'class_list views disagree'
            d = e.dataset
            data.append([[k, d[k]] for k in d])
            if len(d) != len(data[-1]):
                self.bad = 'dataset views disagree'
        attr = [{'n': a.name, 'own': self.enum(a.owner_element),
                 'v': none(a.value)} for a in self.attrs]
        return {'at': at, 'nodes': nodes, 'attr': attr, 'tokens': tokens,
                'data': data}


NAMES = ['a', 'class', 'class', 'id', XL, XML, 'data-foo', 'data-foo-bar',
         'data-a-1', 'data-x1y', 'data--z', 'data-Foo', 'data-', 'data-a-b-c']
KEYS = ['foo', 'fooBar', 'a-1', 'x1y', 'Z', 'aBC', '', 'foo-bar', 'a b',
        'FooBar', 'a-', '-', 'a--b', 'é']
VALUES = ['v', 'w x', ' a  b ', 'a b a', '', NONE, 'q', ' ', '\t',
          'W\xe9', 'a\nb c d e f g h', 'b' * 90]
TOKENS = ['a', 'b', 'c', 'w', 'x']
BADTOK = ['', 'a b', '\t', 'c\n']


def gen(rng, focus):
    def pick(s):
        e = rng.randrange(1, len(s.els) + 1)
        n = rng.choice(NAMES)
        v = rng.choice(VALUES)
        w = rng.randrange(3)
        r = rng.random()
        if focus == 'tokens':
            r = 0.7 + 0.15 * r if rng.random() < .8 else r
        elif focus == 'data':
            r = 0.86 + 0.14 * r if rng.random() < .7 else r
        if r < .14:
            return {'name': 'set_attribute', 'e': e, 'n': n, 'v': v, 'w': w}
        if r < .19:
            return {'name': 'raw_set', 'e': e, 'n': n,
                    'v': '' if v == NONE else v, 'w': w}
        if r < .22:
            return {'name': 'raw_del', 'e': e, 'n': n}
        if r < .25:
            return {'name': 'get_attribute', 'e': e, 'n': n, 'w': w % 2}
        if r < .28:
            return {'name': 'get_node', 'e': e, 'n': n,
                    'w': rng.randrange(4)}
        if r < .30:
            return {'name': 'item', 'e': e, 'i': rng.randrange(0, 6)}
        if r < .34:
            return {'name': 'map_del', 'e': e, 'n': n, 'w': w % 2}
        if r < .38:
            return {'name': 'remove_attribute', 'e': e, 'n': n, 'w': w % 2}
        if r < .41:
            return {'name': 'remove_named', 'e': e, 'n': n, 'w': w % 2}
        if r < .46:
            return {'name': 'new_attr', 'n': n, 'v': v}
        if r < .60:
            if not s.attrs:
                return None
            a = rng.randrange(1, len(s.attrs) + 1)
            k = rng.random()
            if k < .25:
                return {'name': 'attr_value', 'a': a, 'v': v, 'w': w}
            if k < .4:
                return {'name': 'remove_node', 'e': e, 'a': a}
            if k < .8:
                return {'name': 'set_node', 'e': e, 'a': a,
                        'w': rng.randrange(4)}
            m = s.attrs[a - 1].name if rng.random() < .7 else n
            return {'name': 'map_set_node', 'e': e, 'n': m, 'a': a}
        if r < .65:
            return {'name': 'toggle', 'e': e, 'n': n,
                    'i': rng.choice([-1, 0, 1]), 'w': w % 2}
        if r < .70:
            return {'name': 'raw_set', 'e': e, 'n': 'class',
                    'v': rng.choice(['a b c', 'a', ' b a  b', 'x\ty',
                                     'w a x b c', '', 'q r s t u v w x y z',
                                     'A a B b']), 'w': w}
        if r < .86:
            f = rng.choice(['add', 'add', 'remove', 'insert', 'replace',
                            'toggle', 'toggle', 'del', 'set', 'item',
                            'contains'])
            k = {'add': 3, 'remove': 3, 'replace': 2}.get(f, 1)
            if k == 3:
                k = rng.choice([1, 2, 3, 3, 6])
            ts = [rng.choice(BADTOK) if rng.random() < .06 else
                  rng.choice(TOKENS) for _ in range(k)]
            i = rng.randrange(-4, 5)
            if f == 'toggle':
                i = rng.choice([-1, 0, 1])
            return {'name': 'token', 'e': e, 'f': f, 'ts': ts, 'i': i,
                    'w': w % 2}
        return {'name': 'data', 'e': e, 'k': rng.choice(KEYS), 'v': v,
                'f': rng.choice(['get', 'set', 'set', 'set', 'del', 'has'])}
    return pick


def behaviours(rng, tier, focus=''):
    count, length = (300, 40) if tier == 'quick' else (5000, 80)
    for i in range(count):
        el = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            at = {}
            for _ in range(rng.randrange(4)):
                at[rng.choice(NAMES)] = rng.choice(['v', 'w x', 'a b', ''])
            el.append([[k, v] for k, v in at.items()])
        yield 'a%d' % i, {'el': el}, [gen(rng, focus)] * rng.randrange(
            5, length)
