"""Drives reading, writing and making nodes."""

import base64
import os
import re
import shutil
import tempfile
from io import BytesIO, StringIO
from urllib.parse import quote
from xml.dom import minidom

from svgpy.element import SVGParser
from svgpy.window import SVGDOMImplementation

from harness.driver import Unrepresentable

CHARS = {'L': '<', 'G': '>', 'A': '&', 'Q': '"', 'P': "'", 'N': '\n',
         'T': '\t', 'R': '\r', 'U': '\xe9', 'W': '\u6f22', 'E': '\U0001f600',
         'C': '\x01', 'M': '>', 'B': ']'}
BACK = {v: k for k, v in CHARS.items() if k != 'M'}
SPACES = {'svg': 'http://www.w3.org/2000/svg',
          'html': 'http://www.w3.org/1999/xhtml',
          'xlink': 'http://www.w3.org/1999/xlink',
          'xml': 'http://www.w3.org/XML/1998/namespace', 'x': 'urn:x-y'}
SHORT = {v: k for k, v in SPACES.items()}


def real(s):
    if s == 'aQM':
        return 'a?>'
    return ''.join(CHARS.get(c, c) for c in s)


def spelt(s):
    return ''.join(BACK.get(c, c) for c in (s or ''))


def short(ns):
    if not ns:
        return ''
    if ns not in SHORT:
        raise Unrepresentable('namespace %r' % ns)
    return SHORT[ns]


def clark(ns, name):
    return '{%s}%s' % (SPACES[ns], name) if ns else name


def attrs(node):
    out = []
    for k, v in node.attrib.items():
        m = re.match(r'(?:\{(.*)\})?(.*)', k)
        out.append([short(m.group(1)), m.group(2), spelt(v)])
    return out


class Writer:
    """Text of a tree, in one of several styles."""

    def __init__(self, tree, ds, style):
        self.tree, self.ds, self.style = tree, ds, style
        self.kids = [[j for j, n in enumerate(tree) if n['par'] == i + 1]
                     for i in range(len(tree))]

    def chars(self, s, attr=False):
        if self.style == 2 and not attr and s and 'R' not in s:
            return '<![CDATA[' + real(s).replace(']]>', ']]]]><![CDATA[>') \
                + ']]>'
        out = ''
        for c in real(s):
            if c in '<&' or (c == '>' and not attr) or c == '\r' \
                    or (attr and c in '\n\t' + self.q):
                out += {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;',
                        "'": '&apos;'}.get(c) if self.style != 1 \
                    and c in '<&>"\'' else '&#%d;' % ord(c)
            elif self.style == 1 and ord(c) > 126:
                out += '&#x%x;' % ord(c)
            elif self.style == 3 and c == '\u6f22':
                out += '&w;'
            else:
                out += c
        return out

    @property
    def q(self):
        return "'" if self.style == 1 else '"'

    def default(self, i):
        while i >= 0:
            if self.ds[i]:
                return self.ds[i]
            i = self.tree[i]['par'] - 1
        return ''

    def node(self, i):
        n = self.tree[i]
        if n['k'] == 'c':
            s = '<!--' + real(n['text']) + '-->'
        elif n['k'] == 'p':
            s = '<?' + n['name'] + ' ' + real(n['text']) + '?>'
        else:
            s = self.element(i, n)
        return s + self.chars(n['tail'])

    def element(self, i, n):
        d = self.default(i)
        pre = '' if n['ns'] == d else 'html:' if n['ns'] == 'html' else \
            'ns7:' if n['ns'] == 'svg' else 'ns8:'
        s = '<' + pre + n['name']
        decl = []
        if self.ds[i]:
            decl.append(('xmlns', SPACES[self.ds[i]]))
        if n['par'] == 0:
            names = {m['ns'] for j, m in enumerate(self.tree)
                     if m['k'] == 'e' and m['ns'] != self.default(j)}
            names |= {a[0] for m in self.tree for a in m['at']}
            for ns, p in (('html', 'html'), ('svg', 'ns7'), ('x', 'ns8'),
                          ('xlink', 'xl')):
                if ns in names:
                    decl.append(('xmlns:' + p, SPACES[ns]))
        sep = '\n  ' if self.style == 1 else ' '
        ap = {'xlink': 'xl:', 'xml': 'xml:', 'x': 'ns8:', '': ''}
        q = self.q
        rows = [(k, v) for k, v in decl] + [
            (ap[a[0]] + a[1], self.chars(a[2], True)) for a in n['at']]
        for k, v in rows:
            s += sep + k + '=' + q + v + q
        inner = self.chars(n['text']) + ''.join(
            self.node(j) for j in self.kids[i])
        if not inner and self.style != 2:
            return s + (' />' if self.style == 1 else '/>')
        return s + '>' + inner + '</' + pre + n['name'] \
            + (' ' if self.style == 1 else '') + '>'

    def text(self, encoding=None):
        s = ''
        if encoding:
            s = '<?xml version="1.0" encoding="%s"?>\n' % encoding
        if self.style == 3:
            s += '<!DOCTYPE %s [<!ENTITY w "\u6f22">]>' % self.tree[0]['name'] \
                if encoding in (None, 'utf-8', 'utf-16') else ''
        return s + self.node(0)


class System:
    def __init__(self, start):
        self.bad = ''
        self.parser = SVGParser()
        self.impl = SVGDOMImplementation(self.parser)
        self.doc = self.impl.create_document(None)
        self.nodes = []
        self.gone = set()
        self.made = set()

    # ------------------------------------------------------------- reading
    def read(self, op):
        w = Writer(op['tree'], op['ds'], op['style'])
        via = op['via']
        p = self.parser
        if via == 'str':
            return p.fromstring(w.text())
        if via in ('bytes-utf-8', 'bytes-utf-16', 'bytes-iso-8859-1'):
            enc = via[6:]
            return p.fromstring(w.text(enc).encode(enc))
        if via == 'bytes':
            return p.fromstring(w.text().encode('utf-8'))
        if via == 'stringio':
            return p.parse(StringIO(w.text())).getroot()
        if via == 'bytesio':
            return p.parse(BytesIO(w.text('utf-8').encode())).getroot()
        if via == 'impl-stringio':
            return self.impl.parse(StringIO(w.text()))
        if via.startswith('data'):
            safe = '/+="' if op['style'] % 2 else '/'
            if via == 'data':
                url = 'data:image/svg+xml,' + quote(w.text(), safe)
            elif via == 'data-utf8':
                url = 'data:image/svg+xml;charset=utf-8,' + quote(w.text(), safe)
            elif via == 'data-declared':
                url = 'data:image/svg+xml,' + quote(w.text('utf-8'), safe)
            elif via == 'data-quoted':
                url = 'data:image/svg+xml;charset="utf-16";base64,' + quote(
                    base64.b64encode(w.text('utf-8').encode('utf-16')), safe)
            elif via == 'data-64':
                url = 'data:image/svg+xml;base64,' + quote(
                    base64.b64encode(w.text('utf-8').encode()), safe)
            else:
                url = 'data:image/svg+xml;charset=utf-16;base64,' + quote(
                    base64.b64encode(w.text().encode('utf-16')), safe)
            return self.impl.parse(url)
        enc = via.split('-', 1)[1] if '-' in via else None
        tmp = tempfile.mkdtemp(prefix='verif-xml-')
        try:
            path = os.path.join(tmp, 'a b.svg')
            with open(path, 'wb') as f:
                f.write(w.text(enc).encode(enc or 'utf-8'))
            if via.startswith('path'):
                return p.parse(path).getroot()
            return self.impl.parse('file://' + quote(path))
        finally:
            shutil.rmtree(tmp)

    # ------------------------------------------------------------- writing
    def write(self, op):
        n = self.nodes[op['n'] - 1]
        style = op['style']
        tail = real('') if n.tail is None else n.tail
        if style == 0:
            s = n.tostring().decode('ascii')
        elif style == 1:
            s = n.tostring(encoding='unicode')
        elif style == 2:
            s = n.tostring(encoding='utf-8').decode('utf-8')
        else:
            s = n.tostring(with_tail=False, encoding='unicode')
            s += ''.join('&#%d;' % ord(c) for c in tail)
        dom = minidom.parseString(('<w>' + s + '</w>').encode('utf-8'))
        rows = []

        def walk(parent, par):
            prev = None
            for x in parent.childNodes:
                if x.nodeType in (x.TEXT_NODE, x.CDATA_SECTION_NODE):
                    if prev is not None:
                        prev['tail'] += spelt(x.data)
                    elif par:
                        rows[par - 1]['text'] += spelt(x.data)
                    else:
                        raise Unrepresentable('text before the node')
                    continue
                row = dict(k='e', ns='', name='', at=[], text='', tail='',
                           par=par)
                rows.append(row)
                prev = row
                me = len(rows)
                if x.nodeType == x.COMMENT_NODE:
                    row.update(k='c', text=spelt(x.data))
                elif x.nodeType == x.PROCESSING_INSTRUCTION_NODE:
                    row.update(k='p', name=x.target, text=spelt(x.data))
                else:
                    row.update(ns=short(x.namespaceURI), name=x.localName)
                    for i in range(x.attributes.length):
                        a = x.attributes.item(i)
                        if a.namespaceURI != 'http://www.w3.org/2000/xmlns/':
                            row['at'].append([short(a.namespaceURI),
                                              a.localName, spelt(a.value)])
                    walk(x, me)
        walk(dom.documentElement, 0)
        return rows

    # ------------------------------------------------------------- running
    def name(self, q):
        pre, name = q['pre'], q['name'].replace('L', '<')
        if pre.startswith('{'):
            return '{%s}%s' % (SPACES[pre[1:-1]], name)
        return pre + ':' + name if pre else name

    def add(self, x, made=True):
        if isinstance(x, list):
            self.nodes += x
        else:
            self.nodes.append(x)
            self.made.add(len(self.nodes))

    def subtree(self, root):
        return list(root.iter())

    def make(self, op):
        attrib = {clark(a[0], a[1]): real(a[2]) for a in op['at']}
        ns = SPACES.get(op['ns'])
        if op['ns'] == '' and op['style'] % 2:
            ns = ''
        given = dict(attrib)
        maker = self.parser if op['style'] < 2 else self.doc
        nsmap = {'xl': SPACES['xlink']} if op['style'] in (1, 3) else None
        kept = dict(nsmap) if nsmap is not None else None
        try:
            if op['name'] == 'sub':
                p = self.nodes[op['p'] - 1]
                if op['ns'] == '' and op['q']['pre'] == '' \
                        and op['style'] % 2 == 0:
                    x = p.create_sub_element(self.name(op['q']),
                                             index=self.index(op),
                                             attrib=attrib) \
                        if op['q']['name'] not in ('', 'a b') else \
                        p.create_sub_element_ns(None, self.name(op['q']))
                else:
                    x = p.create_sub_element_ns(
                        ns, self.name(op['q']), index=self.index(op),
                        attrib=attrib)
                if x.parent_node is not p:
                    self.bad = 'the element is not where it was made'
            elif op['ns'] == '' and op['style'] % 2 == 0:
                x = maker.create_element(self.name(op['q']), attrib=attrib,
                                         nsmap=nsmap)
            else:
                x = maker.create_element_ns(ns, self.name(op['q']),
                                            attrib=attrib, nsmap=nsmap)
            if (x.owner_document is self.doc) != (
                    op['name'] == 'create' and op['style'] >= 2) \
                    and op['name'] == 'create':
                self.bad = 'a node made by a document belongs to it'
            self.add(x)
        finally:
            if attrib != given or nsmap != kept:
                self.bad = 'the arguments were changed'

    def index(self, op):
        return None if op['i'] == 99 else op['i']

    def run(self, op):
        name = op['name']
        n = self.nodes[op['n'] - 1] if op['n'] else None
        if name in ('create', 'sub'):
            self.make(op)
        elif name == 'comment':
            maker = self.parser if op['style'] < 2 else self.doc
            self.add(maker.create_comment(real(op['s'])))
        elif name == 'pi':
            maker = self.parser if op['style'] < 2 else self.doc
            self.add(maker.create_processing_instruction(
                op['q']['name'], real(op['s'])) if op['s'] else
                maker.create_processing_instruction(op['q']['name']))
        elif name == 'put':
            p = self.nodes[op['p'] - 1]
            if op['i'] == 99:
                p.append_child(n)
            else:
                p.insert(op['i'], n)
        elif name == 'data':
            if op['style'] == 0:
                n.data = real(op['s'])
            else:
                n.node_value = real(op['s'])
        elif name == 'text':
            n.text = real(op['s'])
        elif name == 'tail':
            n.tail = real(op['s'])
        elif name == 'content':
            before = self.subtree(n)[1:]
            n.text_content = real(op['s'])
            now = set(self.subtree(n))
            self.gone |= {x for x in before if x not in now}
        elif name == 'attr':
            a = op['at'][0]
            if op['style'] % 2:
                n.attrib[clark(a[0], a[1])] = real(a[2])
            else:
                n.set(clark(a[0], a[1]), real(a[2]))
        elif name == 'unattr':
            n.attrib.pop(clark(op['at'][0][0], op['at'][0][1]), None)
        elif name == 'read':
            self.add(self.subtree(self.read(op)))
        elif name == 'reread':
            s = n.tostring(with_tail=False, encoding=(
                'unicode', 'utf-8', 'utf-16', None)[op['style']])
            self.add(self.subtree(self.parser.fromstring(s)))
        elif name == 'write':
            return self.write(op)
        return []

    def apply(self, op):
        try:
            return {'r': 'ok', 'w': self.run(op)}
        except Unrepresentable as e:
            self.bad = str(e)
            return {'r': 'ok', 'w': []}
        except Exception as e:
            return {'r': type(e).__name__, 'w': []}

    def state(self):
        rows = []
        ids = {x: i + 1 for i, x in enumerate(self.nodes)}
        for x in self.nodes:
            if x in self.gone:
                rows.append(dict(k='gone', ns='', local='', name='', at=[],
                                 text='', tail='', ch=[], par=0, cls='',
                                 content=''))
                continue
            k = {1: 'e', 8: 'c', 7: 'p'}[x.node_type]
            name = x.node_name
            content = x.text_content
            row = dict(k=k, ns='', local='', at=[], text=spelt(x.text),
                       tail=spelt(x.tail), par=0,
                       name=re.sub(r'^ns\d+:', '?:', name),
                       cls=type(x).__name__,
                       content='~' if content is None else spelt(content))
            row['ch'] = [ids.get(c, -1) for c in x.child_nodes]
            p = x.parent_node
            if p is not None:
                row['par'] = ids.get(p, -1)
            if k == 'e':
                row['ns'] = short(x.namespace_uri)
                row['local'] = x.local_name
                row['at'] = attrs(x)
                if x.tag_name != name or x.node_value is not None:
                    self.bad = 'tag_name or node_value of an element'
            else:
                if not (x.data == x.node_value == content
                        and x.length == len(content)):
                    self.bad = 'data, node_value, text_content disagree'
                if k == 'p' and x.target != name:
                    self.bad = 'the target is not the name'
            rows.append(row)
        return {'nodes': rows}


# ------------------------------------------------------------------ generator
WORDS = ['', 'a', 'b c', 'aLb', 'AA', 'xGy', 'BBG', 'Q', 'P', 'aNb', 'T', 'aRb',
         'U', 'W', 'E', ' ', 'aAlt;', 'N N', 'a+b', 'a%2b']
TAMED = [w for w in WORDS if 'R' not in w and not w.startswith((' ', 'N', 'T'))
         and w]
NAMES = ['svg', 'g', 'text', 'tspan', 'textPath', 'rect', 'title', 'desc',
         'metadata', 'style', 'video', 'div', 'foo', 'defs']
VIAS = ['str', 'bytes', 'bytes-utf-8', 'bytes-utf-16', 'bytes-iso-8859-1',
        'stringio', 'bytesio', 'impl-stringio', 'data', 'data-utf8', 'data-64',
        'data-64-utf-16', 'data-declared', 'data-quoted', 'path', 'path-utf-16', 'url', 'url-utf-8',
        'url-utf-16', 'url-iso-8859-1']


def blank(name, **kw):
    op = dict(name=name, n=0, p=0, i=99, ns='', q=dict(pre='', name=''), at=[],
              s='', style=0, tree=[], ds=[], via='')
    op.update(kw)
    return op


def some_attrs(rng, k=3, bad=0.0):
    out, seen = [], set()
    for _ in range(rng.randrange(k)):
        ns, name = rng.choice([('', 'id'), ('', 'b'), ('', 'a'), ('xlink', 'href'),
                               ('xml', 'lang'), ('x', 'a'), ('', 'class')])
        if (ns, name) in seen:
            continue
        seen.add((ns, name))
        out.append([ns, name, rng.choice(WORDS) if rng.random() >= bad
                    else rng.choice(['C', 'aCb'])])
    return out


def a_tree(rng, latin):
    words = [w for w in WORDS if not (latin and set(w) & set('WE'))]
    tamed = [w for w in TAMED if not (latin and set(w) & set('WE'))]
    n = rng.choice([1, 2, 3, 4, 6])
    mode = rng.choice(['svg', 'svg', 'svg', 'none', 'html'])
    tree, ds = [], []
    root = 'html' if mode == 'html' else rng.choice(['svg', 'svg', '', 'x']) \
        if mode == 'none' else 'svg'
    for i in range(n):
        par = 0
        if i:
            # in order: under the last node or one of those it is under
            chain, p = [], i
            while p:
                if tree[p - 1]['k'] == 'e':
                    chain.append(p)
                p = tree[p - 1]['par']
            par = rng.choice(chain)
        k = rng.choice('eeeeecp') if i else 'e'
        text = rng.choice(words) if k == 'e' else rng.choice(tamed)
        node = dict(k=k, ns='', name='', at=[], text=text,
                    tail=rng.choice(words + [''] * 8) if i else '', par=par)
        d = ''
        if k == 'e':
            at = some_attrs(rng)
            node['at'] = [[a[0], a[1], a[2] if not (
                latin and set(a[2]) & set('WE')) else 'U'] for a in at]
            node['name'] = rng.choice(NAMES + ['text', 'tspan'])
            if i == 0:
                node['ns'] = root
                d = {'svg': 'svg', 'none': '', 'html': 'html'}[mode]
            elif mode == 'svg':
                node['ns'] = rng.choice(['svg', 'svg', 'svg', 'html', 'x'])
            elif mode == 'html':
                node['ns'] = rng.choice(['html', 'html', 'x'])
                if rng.random() < .3:
                    node['ns'] = d = 'svg'
                else:
                    q, p = '', par
                    while p:
                        if ds[p - 1]:
                            q = ds[p - 1]
                            break
                        p = tree[p - 1]['par']
                    if node['ns'] == 'html' and q != 'html':
                        node['ns'] = q
            else:
                node['ns'] = rng.choice(['', 'svg', 'x', 'html'])
        elif k == 'p':
            node['name'] = rng.choice(['t', 'xml-stylesheet'])
        tree.append(node)
        ds.append(d)
    return tree, ds


def default(sys, n):
    while n is not None:
        if None in n.nsmap:
            return short(n.nsmap[None])
        n = n.getparent()
    return ''


def kinds(ns, at):
    """Namespaces that get a made-up prefix; lxml mixes up several of them
    when it moves a node."""
    return ({'x'} if ns == 'x' else set()) | (
        {a[0] for a in at} & {'x', 'xlink'})


def candidates(sys):
    live = [i + 1 for i, x in enumerate(sys.nodes) if x not in sys.gone]
    elems = [i for i in live if sys.nodes[i - 1].node_type == 1]
    return live, elems


def step(rng, focus):
    def go(sys):
        live, elems = candidates(sys)
        if len(sys.nodes) > 24:
            if not live:
                return None
            return blank('write', n=rng.choice(live),
                         style=rng.randrange(1, 4))
        f = rng.random()
        st = rng.randrange(4)
        q = dict(pre='', name=rng.choice(NAMES + ['text', 'tspan']))
        odd = rng.random() < .12
        ns = rng.choice(['svg', 'svg', 'svg', 'html', '', 'x'])
        if odd:
            q = rng.choice([dict(pre='', name=''), dict(pre='', name='a b'),
                            dict(pre='', name='1a'), dict(pre='', name='aLb'),
                            dict(pre='html', name='div'),
                            dict(pre='svg', name='g'),
                            dict(pre='zz', name='g'),
                            dict(pre='{html}', name='p'),
                            dict(pre='{svg}', name='g')])
        if f < .1 or not live:
            via = rng.choice(VIAS)
            tree, ds = a_tree(rng, 'iso' in via)
            style = rng.randrange(4)
            return blank('read', tree=tree, ds=ds, via=via, style=style)
        if f < .2:
            return blank('create', ns=ns, q=q, style=st,
                         at=some_attrs(rng, 3, .04))
        if f < .4 and elems:
            at = some_attrs(rng, 3, .04)
            if len(kinds(ns, at)) > 1:
                at = []
            return blank('sub', p=rng.choice(elems), ns=ns, q=q, style=st,
                         at=at,
                         i=rng.choice([99, 99, 0, 1, -1, 7]))
        if f < .46:
            return blank('comment', style=st,
                         s=rng.choice(TAMED + ['', 'a--b', 'a-', 'C']))
        if f < .5:
            return blank('pi', style=st, q=dict(pre='', name=rng.choice(
                ['t', 't', 'xml-stylesheet', 'xml', '1t'])),
                s=rng.choice(TAMED + ['', 'aQM', 'C']))
        if f < .62:
            tops = [i for i in live if sys.nodes[i - 1].getparent() is None
                    and i in sys.made]
            ps = [i for i in elems if default(sys, sys.nodes[i - 1]) == 'svg']
            if not tops or not ps:
                return None
            n = rng.choice(tops)
            inside = set(sys.nodes[n - 1].iter())
            used = set()
            for x in inside:
                if x.node_type == 1:
                    m = re.match(r'\{(.*)\}', x.tag)
                    used |= kinds(short(m.group(1)) if m else '', attrs(x))
            if len(used) > 1:
                return None
            ps = [i for i in ps if sys.nodes[i - 1] not in inside]
            if not ps:
                return None
            return blank('put', n=n, p=rng.choice(ps),
                         i=rng.choice([99, 0, 1, -1, 7]))
        n = rng.choice(live)
        x = sys.nodes[n - 1]
        if f < .70:
            if x.node_type != 1:
                return blank('data', n=n, s=rng.choice(TAMED + ['C']),
                             style=rng.randrange(2))
            return blank('text', n=n, s=rng.choice(WORDS))
        if f < .76:
            if x.getparent() is None:
                return None
            return blank('tail', n=n, s=rng.choice(WORDS))
        if f < .8:
            if x.node_type != 1:
                return blank('content', n=n, s=rng.choice(TAMED + ['C']))
            return blank('content', n=n, s=rng.choice(WORDS))
        if f < .86 and elems:
            n = rng.choice(elems)
            at = []
            while not at:
                at = some_attrs(rng, 2, .08)
            if rng.random() < .3:
                return blank('unattr', n=n, at=at)
            return blank('attr', n=n, at=at, style=st)
        # ASCII cannot spell every comment
        wide = any(y.node_type != 1 and not y.text.isascii()
                   for y in x.iter())
        if f < .95 or x.node_type != 1:
            return blank('write', n=n, style=rng.randrange(wide, 4))
        return blank('reread', n=n, style=rng.randrange(4 - wide))
    return go


def behaviours(rng, tier, focus=''):
    count = {'quick': 2500, 'thorough': 15000}[tier]
    for i in range(count):
        yield ('x%d' % i, {'a': 0},
               [step(rng, focus) for _ in range(rng.choice([3, 6, 10, 14]))])
