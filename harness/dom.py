"""Drives the real document tree (svgpy.dom / svgpy.window)."""

import svgpy
from svgpy import SVGParser, window
from svgpy.dom import Attr, Element, Node
from svgpy.window import SVGDOMImplementation

NS = Element.SVG_NAMESPACE_URI


class System(object):
    bad = ''

    def __init__(self, start):
        self.impl = SVGDOMImplementation()
        self.docs = [self.impl.create_document(None)
                     for _ in range(start['ndocs'])]
        self.kind = start['kind']
        self.nodes = []
        parser = self.impl.parser
        for k, o in zip(start['kind'], start['own']):
            f = parser if o == 0 else self.docs[o - 1]
            n = len(self.nodes) + 1
            if k == 'e':
                x = f.create_element_ns(NS, 'g')
            elif k == 't':
                x = f.create_element_ns(NS, 'text')
            elif k == 'c':
                x = f.create_comment('c%d' % n)
            else:
                x = f.create_processing_instruction('pi%d' % n, 'x')
            self.nodes.append(x)
        self.attr = Attr(None, 'a', 'v')
        self.odd = [self.attr, self.impl.create_document(None)]
        self.ids = {id(x): i + 1 for i, x in enumerate(self.nodes)}
        for i, x in enumerate(self.odd):
            self.ids[id(x)] = len(self.nodes) + 1 + i

    def obj(self, n):
        if n == 0:
            return None
        if n < 0:
            return self.docs[-n - 1]
        if n > len(self.nodes):
            return self.odd[n - len(self.nodes) - 1]
        return self.nodes[n - 1]

    def num(self, x):
        if x is None:
            return 0
        for i, d in enumerate(self.docs):
            if d is x:
                return -(i + 1)
        n = self.ids.get(id(x))
        if n is None:
            self.bad = 'unknown node %r' % (x,)
            return 0
        return n

    def apply(self, op):
        try:
            r = self.do(op)
        except Exception as e:
            n = type(e).__name__
            if n in ('HierarchyRequestError', 'NotFoundError'):
                return {'r': n}
            if n in ('TypeError', 'ValueError'):
                return {'r': 'refused'}
            return {'r': 'exc:' + n}
        if r is not None:
            return {'r': r}
        return {'r': 'ok'}

    def do(self, op):
        name = op['name']
        p = self.obj(op.get('p', 0))
        n = self.obj(op.get('n', 0))
        c = self.obj(op.get('c', 0))
        items = [it['s'] if it['n'] == 0 else self.obj(it['n'])
                 for it in op.get('items', [])]
        if name == 'append':
            p.append(*items)
        elif name == 'append_child':
            r = p.append_child(items[0])
            if r is not items[0]:
                return 'wrong result'
        elif name == 'extend':
            p.extend(list(items))
        elif name == 'extend_iter':
            p.extend(x for x in items)
        elif name == 'prepend':
            p.prepend(*items)
        elif name == 'insert':
            p.insert(op['i'], n)
        elif name == 'insert_before':
            r = p.insert_before(n, c)
            if r is not n:
                return 'wrong result'
        elif name == 'remove':
            p.remove(n)
        elif name == 'remove_child':
            r = p.remove_child(n)
            if r is not n:
                return 'wrong result'
        elif name == 'remove_self':
            n.remove()
        elif name == 'replace':
            p.replace(c, n)
        elif name == 'replace_child':
            r = p.replace_child(n, c)
            if r is not c:
                return 'wrong result'
        elif name == 'addnext':
            c.addnext(n)
        elif name == 'addprevious':
            c.addprevious(n)
        elif name == 'set_text_content':
            p.text_content = op['s']
        elif name == 'set_text':
            p.text = op['s']
        elif name == 'set_tail':
            n.tail = op['s']
        else:
            raise RuntimeError(name)

    def state(self):
        num = self.num
        ch, text, tail, own, nav, kids = [], [], [], [], [], []
        for k, x in zip(self.kind, self.nodes):
            if k == 'e':
                cn = x.child_nodes
                ch.append([num(y) for y in cn])
                if [num(y) for y in x] != ch[-1] or len(x) != len(cn) \
                        or x.has_child_nodes() != (len(cn) > 0):
                    self.bad = 'child_nodes disagrees with iteration'
                text.append(x.text or '')
                es = x.children
                kids.append([num(x.first_child), num(x.last_child),
                             num(x.first_element_child),
                             num(x.last_element_child),
                             x.child_element_count])
                if [num(y) for y in es] != [
                        num(y) for y in cn if y.node_type == 1]:
                    self.bad = 'children is not the element child nodes'
            else:
                ch.append([])
                text.append('')
                kids.append([0, 0, 0, 0, 0])
                if x.has_child_nodes() or len(x.child_nodes) != 0:
                    self.bad = 'character data with children'
            tail.append(x.tail or '')
            own.append(-num(x.owner_document))
            par = num(x.parent_node)
            if num(x.parent_element) != par:
                self.bad = 'parent_element differs from parent_node'
            nav.append([par, num(x.previous_sibling), num(x.next_sibling),
                        num(x.previous_element_sibling),
                        num(x.next_element_sibling)])
        dch, dkids, order = [], [], []
        for d in self.docs:
            dch.append([num(y) for y in d.child_nodes])
            dkids.append([num(d.document_element), num(d.first_child),
                          num(d.last_child), d.child_element_count])
            order.append([num(y) for y in d.iter()])
        return {'ch': ch, 'dch': dch, 'text': text, 'tail': tail, 'own': own,
                'nav': nav, 'kids': kids, 'dkids': dkids, 'order': order}


# ------------------------------------------------------------------ generator
TEXTS = ['', 'x', 'y ', ' z', 'ab']


def placed(s):
    """Nodes that have a place (a parent, or a document)."""
    out = {}
    for i, x in enumerate(s.nodes):
        p = x.getparent()
        if p is not None:
            out[i + 1] = s.num(p)
    for di, d in enumerate(s.docs):
        for y in d.child_nodes:
            out[s.num(y)] = -(di + 1)
    return out


def tailed(s, n):
    return 0 < n <= len(s.nodes) and bool(s.obj(n).tail)


def gen(rng):
    def pick(s):
        N = len(s.nodes)
        nodes = list(range(1, N + 1))
        elems = [n for n in nodes if s.kind[n - 1] == 'e']
        docs = [-(i + 1) for i in range(len(s.docs))]
        roots = [s.num(d.document_element) for d in s.docs]
        place = placed(s)

        def movable(target=None):
            # moving a document element elsewhere is a listed finding
            c = [n for n in nodes if n not in roots]
            return rng.choice(c) if c else None
        for _ in range(30):
            r = rng.random()
            on_doc = rng.random() < 0.3
            p = rng.choice(docs) if on_doc else rng.choice(elems)
            if rng.random() < 0.03:
                p = rng.choice([n for n in nodes if n not in elems] or elems)
            n = movable()
            if n is None:
                continue
            odd = rng.random() < 0.05
            if odd:
                n = N + rng.choice([1, 2])
            if p < 0 and tailed(s, n):
                continue      # text cannot follow a node of a document
            ch = s.obj(p).child_nodes
            chn = [s.num(x) for x in ch]
            if p < 0 and roots[-p - 1] and r < 0.8 and rng.random() < 0.1:
                n = roots[-p - 1]
            if r < 0.28:
                nm = rng.choice(['append', 'append', 'prepend', 'prepend',
                                 'append_child', 'extend', 'extend_iter'])
                if p > 0 and p not in elems:
                    if nm not in ('append', 'append_child'):
                        continue
                    items = [{'n': n, 's': ''}]
                elif odd or p < 0:
                    items = [{'n': n, 's': ''}]
                    if p < 0 and rng.random() < 0.05 and \
                            nm in ('append', 'prepend'):
                        items = [{'n': 0, 's': 'x'}]
                else:
                    items = []
                    seen = set()
                    for _ in range(rng.choice([1, 1, 2, 3, 4])):
                        if nm in ('append', 'prepend') and rng.random() < .4:
                            items.append({'n': 0, 's': rng.choice(TEXTS)})
                            continue
                        m = movable()
                        if m in seen or m is None:
                            continue
                        seen.add(m)
                        items.append({'n': m, 's': ''})
                    if len(items) > 1:
                        # several nodes at once: none of them refused
                        anc = set()
                        x = s.obj(p)
                        while x is not None:
                            anc.add(s.num(x))
                            x = x.getparent()
                        items = [it for it in items if it['n'] not in anc]
                    if not items:
                        continue
                if nm == 'append_child' and (len(items) != 1
                                             or items[0]['n'] == 0):
                    continue
                return {'name': nm, 'p': p, 'items': items}
            if r < 0.38:
                if p > 0 and p not in elems:
                    continue
                if p < 0 and not chn and s.kind[n - 1:n] != ['e']:
                    i = 0
                elif p < 0:
                    i = rng.randrange(-len(chn), len(chn)) if chn else 0
                else:
                    i = rng.randrange(-len(chn), len(chn) + 3)
                return {'name': 'insert', 'p': p, 'i': i, 'n': n}
            if r < 0.52:
                c = rng.choice(chn) if chn and rng.random() < .85 else \
                    rng.choice([0] + nodes)
                return {'name': 'insert_before', 'p': p, 'n': n, 'c': c}
            if r < 0.64:
                c = rng.choice(chn) if chn and rng.random() < .9 else \
                    rng.choice(nodes)
                if p < 0 and c == roots[-p - 1] and len(chn) > 1:
                    continue       # the other children go, too
                return {'name': rng.choice(['remove', 'remove_child']),
                        'p': p, 'n': c}
            if r < 0.67:
                return {'name': 'remove_self',
                        'n': rng.choice([x for x in elems if x not in roots]
                                        or [0])} \
                    if [x for x in elems if x not in roots] else None
            if r < 0.80:
                c = rng.choice(chn) if chn and rng.random() < .9 else \
                    rng.choice(nodes)
                if p < 0 and c == roots[-p - 1] and len(chn) > 1:
                    continue       # the other children go, too
                if p < 0 and c == roots[-p - 1] and \
                        s.kind[n - 1:n] in (['c'], ['p']):
                    continue       # listed finding
                return {'name': rng.choice(['replace', 'replace_child']),
                        'p': p, 'n': n, 'c': c}
            if r < 0.92:
                c = rng.choice([x for x in place] or [0])
                if c == 0 or c == n or (place[c] < 0 and tailed(s, n)):
                    continue
                return {'name': rng.choice(['addnext', 'addprevious']),
                        'c': c, 'n': n}
            if r < 0.94:
                e = [x for x in elems if x not in roots]
                if not e:
                    continue
                return {'name': 'set_text_content', 'p': rng.choice(e),
                        's': rng.choice(TEXTS)}
            if r < 0.97:
                return {'name': 'set_text', 'p': rng.choice(elems),
                        's': rng.choice(TEXTS)}
            inside = [x for x in place if place[x] > 0]
            if not inside:
                continue
            return {'name': 'set_tail', 'n': rng.choice(inside),
                    's': rng.choice(TEXTS)}
        return None
    return pick


def behaviours(rng, tier):
    count, length = (250, 30) if tier == 'quick' else (4000, 60)
    for i in range(count):
        n = rng.randrange(3, 10)
        kind = ['e', 'e'] + [rng.choice('eeeecp') for _ in range(n)]
        own = [rng.choice([0, 1, 1, 2]) for _ in kind]
        start = {'kind': kind, 'own': own, 'ndocs': 2}
        g = gen(rng)
        yield 't%d' % i, start, [g] * rng.randrange(5, length)
