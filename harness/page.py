"""Pages, where they are and the style sheets they load, on files of a scratch
folder."""

import os
import shutil
import tempfile
from urllib.parse import quote

from harness.driver import Unrepresentable

SVG = 'http://www.w3.org/2000/svg'
HTML = 'http://www.w3.org/1999/xhtml'
ENCODINGS = ['utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'utf-8']
MEDIA = {'wide': 'screen and (min-width: 10px)', 'thin': '(max-width: 10px)',
         'list': 'print, screen'}
MEDIUM = {v.replace(' ', ''): k for k, v in MEDIA.items()}


def media(text):
    return MEDIUM.get(text.replace(' ', ''), text)


class System(object):
    def __init__(self, start):
        from svgpy.window import SVGDOMImplementation, Window
        self.bad = ''
        self.top = tempfile.mkdtemp(prefix='verif-page-')
        os.mkdir(os.path.join(self.top, 'w'))
        self.base = os.path.join(self.top, 'w')
        for f in start['fs']:
            self.write(f['p'], f['c'])
        self.win = Window(SVGDOMImplementation())
        self.docs = [self.win.document]

    def __del__(self):
        top = getattr(self, 'top', None)
        if top is not None and shutil is not None:
            shutil.rmtree(top, ignore_errors=True)

    # ------------------------------------------------------------------ files
    def where(self, p):
        return os.path.join(self.base, *p)

    def write(self, p, c):
        path = self.where(p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if c['kind'] == 'css':
            enc = ENCODINGS[c['enc']]
            s = self.css(c['items'], c['enc'])
            if c['enc'] in (3, 4):
                s = '@charset "%s";%s' % (enc, s)
            data = s.encode(enc)
        else:
            s = ''.join(self.node(n) for n in c['pre'])
            s += '<svg xmlns="%s" xmlns:h="%s"%s>' % (
                SVG, HTML, ' id="%s"' % c['id'] if c['id'] else '')
            s += ''.join(self.node(n) for n in c['kids'])
            if c['kind'] == 'svg':
                s += '</svg>'
            s += ''.join(self.node(n) for n in c['post'])
            data = s.encode('utf-8')
        with open(path, 'wb') as f:
            f.write(data)

    def ref(self, ref):
        if ref['s'] == 'about':
            s = 'about:blank'
        elif ref['s'] == 'data':
            return ('data:text/css' if ref['q'] == 'bad' else
                    'data:text/css,*{fill:%%2300000%s}' % ref['q'])
        else:
            s = '../' * ref['up'] + '/'.join(ref['p'])
            if ref['top'] or ref['s'] == 'file':
                s = self.base + '/' + s
            if ref['s'] == 'file':
                s = 'file://' + s
            elif not ref['top'] and s and ref['sp']:
                s = [None, './', 'zz/../'][ref['sp']] + s
        return s + ('#' + ref['h'] if ref['h'] else '')

    def css(self, items, sp=0):
        q = []
        for it in items:
            if it['k'] == 'rule':
                q.append('*%s{fill:#%06d}' % (', .\xe9' if it['v'] % 2 else '',
                                              it['v']))
                continue
            r = self.ref(it['ref'])
            r = ['"%s"', "'%s'", 'url(%s)', 'url("%s")'][
                (sp + len(r)) % (4 if '(' not in r and '{' not in r else 2)] % r
            m = MEDIA.get(it['media'], it['media'])
            q.append('@import %s%s%s;' % (
                r, ' ' + m if m else '', ' ' if sp == 1 else ''))
        return ['', ' ', '\n', '/* c */', ' '][sp].join(q)

    def pi(self, n):
        q = ['href="%s"' % self.ref(n['ref'])]
        if n['media']:
            q.append('media="%s"' % MEDIA.get(n['media'], n['media']))
        if n['ty']:
            q.append('type="%s"' % n['ty'])
        if n['rel'] != 'stylesheet':
            q.append('alternate="yes"')
        return ' '.join(q[n['sp'] % 2:] + q[:n['sp'] % 2])

    def attrs(self, n):
        q = {}
        if n['k'] == 'link':
            q['rel'] = n['rel']
            q['href'] = self.ref(n['ref'])
        if n['media']:
            q['media'] = MEDIA.get(n['media'], n['media'])
        if n['ty']:
            q['type'] = n['ty']
        if n['id']:
            q['id'] = n['id']
        return q

    def node(self, n):
        k = n['k']
        if k == 'c':
            return '<!--%s-->' % n['id']
        if k == 'pi':
            return '<?xml-stylesheet %s?>' % self.pi(n)
        tag = 'h:link' if k == 'link' and n['sp'] % 2 == 0 else k
        at = ''.join(' %s="%s"' % (a, v.replace('&', '&amp;'))
                     for a, v in self.attrs(n).items())
        if k == 'style':
            t = self.css(n['items'], n['sp'])
            if n['sp'] == 1:
                t = '<![CDATA[%s]]>' % t if t else ''
            elif n['sp'] == 2:
                t = t.replace('}', '}<!--c-->').replace(
                    '\n', '<!-- *{fill:red} -->')
            return '<%s%s>%s</%s>' % (tag, at, t, tag)
        return '<%s%s/>' % (tag, at)

    # ------------------------------------------------------------- operations
    def make(self, doc, n):
        k = n['k']
        if k == 'pi':
            return doc.create_processing_instruction('xml-stylesheet',
                                                     self.pi(n))
        ns, tag = (HTML, 'html:link') if k == 'link' and n['sp'] % 2 == 0 \
            else (SVG, k)
        e = doc.create_element_ns(ns, tag)
        for a, v in self.attrs(n).items():
            e.set(a, v)
        if k == 'style' and n['items']:
            e.text = self.css(n['items'], n['sp'])
        return e

    def run(self, op):
        name = op['name']
        doc = self.docs[op['d'] - 1]
        root = doc.document_element
        if name == 'go':
            ref = self.ref(op['ref'])
            via = op['via']
            if via == 'window':
                self.win.location = ref
            elif via == 'doc':
                doc.location = ref
            elif via == 'href':
                doc.location.href = ref
            else:
                doc.location.assign(ref)
        elif name == 'hash':
            doc.location.hash = op['h']
        elif name == 'path':
            doc.location.pathname = quote(self.where(op['p']))
        elif name == 'reload':
            doc.location.reload()
        elif name == 'newdoc':
            self.docs.append(self.win.document.implementation
                             .create_svg_document())
        elif name == 'write':
            self.write(op['p'], op['c'])
        elif name == 'unlink':
            if os.path.exists(self.where(op['p'])):
                os.remove(self.where(op['p']))
        elif name == 'add':
            x = self.make(doc, op['nd'])
            if op['nd']['k'] == 'pi':
                doc.insert_before(x, root)
            else:
                root.append(x)
        elif name == 'drop':
            root.remove(root[op['i'] - 1])
        elif name == 'ref':
            root[op['i'] - 1].href = self.ref(op['ref'])
        elif name == 'words':
            root[op['i'] - 1].text_content = self.css(op['c']['items'],
                                                      op['c']['enc'])

    def apply(self, op):
        here = os.getcwd()
        os.chdir(self.base)
        try:
            self.run(op)
            return {'r': 'ok'}
        except Exception as e:
            return {'r': type(e).__name__}
        finally:
            os.chdir(here)

    # ------------------------------------------------------------------ state
    def url(self, href):
        url, _, h = href.partition('#')
        if url == 'about:blank':
            return {'k': 'about', 'p': [], 'h': h}
        if url.startswith('data:'):
            return {'k': 'data', 'h': '',
                    'p': ['bad' if ',' not in url else url[-2]]}
        top = 'file://' + self.base + '/'
        if not url.startswith(top):
            raise Unrepresentable('a URL elsewhere: ' + href)
        return {'k': 'file', 'p': url[len(top):].split('/'), 'h': h}

    def shown(self, x):
        from svgpy.dom import Node
        if x.node_type == Node.COMMENT_NODE:
            return {'k': 'c', 'id': x.data}
        if x.node_type == Node.PROCESSING_INSTRUCTION_NODE:
            return {'k': 'pi', 'id': ''}
        return {'k': x.local_name, 'id': x.get('id', '')}

    def page(self, doc):
        href = doc.location.href
        if not (doc.url == doc.document_uri == href
                and doc.location.tostring() == href):
            self.bad = 'the document disagrees on its URL'
        row = dict(url=self.url(href), on=False, pre=[], id='', kids=[],
                   post=[])
        root = doc.document_element
        nodes = doc.child_nodes
        if root is None:
            if nodes:
                self.bad = 'nodes beside no root'
            return row
        i = nodes.index(root)
        row.update(on=True, id=root.get('id', ''),
                   pre=[self.shown(x) for x in nodes[:i]],
                   kids=[self.shown(x) for x in root],
                   post=[self.shown(x) for x in nodes[i + 1:]])
        if not (root.owner_document is doc
                and all(x.owner_document is doc for x in root.iter())):
            self.bad = 'a page is not owned by its document'
        return row

    def rules(self, sheet, d):
        rows = []
        for r in sheet.css_rules:
            if r.type == r.STYLE_RULE:
                v = int(r.style.get_property_value('fill')[1:])
                if v < 8 and r.selector_text != (
                        '*, .\xe9' if v % 2 else '*'):
                    v = -v
                rows.append(dict(d=d, k='rule', h=self.none, v=v, m=''))
            elif r.type == r.IMPORT_RULE:
                rows.append(dict(d=d, k='import', h=self.url(r.href), v=0,
                                 m=media(r.media.media_text)))
                if r.style_sheet.owner_rule is not r:
                    rows.append(dict(self.odd, k='owner rule'))
                rows += self.rules(r.style_sheet, d + 1)
            else:
                rows.append(dict(self.odd, k='other rule'))
        return rows

    none = {'k': '', 'p': [], 'h': ''}
    odd = dict(d=-1, k='?', h=none, v=0, m='')

    def sheets(self, doc):
        try:
            return self.read_sheets(doc)
        except Exception as e:
            return [dict(self.odd, k='raised ' + type(e).__name__)]

    def read_sheets(self, doc):
        rows = []
        for s in doc.style_sheets[1:]:
            n = s.owner_node
            k = 'pi' if n.node_type == n.PROCESSING_INSTRUCTION_NODE \
                else n.local_name
            m = media(n.get('media', ''))
            if s.href != n.get('href'):
                rows.append(dict(self.odd, k='href'))
            rows.append(dict(d=0, k=k, h=self.none, v=0, m=m))
            rows += self.rules(s, 1)
        return rows

    def fill(self, doc):
        root = doc.document_element
        if root is None:
            return 0
        try:
            v = root.get_computed_style()['fill']
        except Exception:
            return -1
        return 0 if v == 'black' else int(v[1:])

    def state(self):
        here = os.getcwd()
        os.chdir(self.base)
        try:
            pages = [self.page(d) for d in self.docs]
            return {'pages': pages,
                    'sheets': [self.sheets(d) for d in self.docs],
                    'fill': [self.fill(d) for d in self.docs]}
        finally:
            os.chdir(here)


# ------------------------------------------------------------------ generator
PAGES = [['a.svg'], ['b.svg'], ['s', 'c.svg'], ['s', 't', 'd.svg'], ['bad.svg']]
CSS = [['x.css'], ['y.css'], ['s', 'x.css'], ['s', 'z.css'],
       ['s', 't', 'w.css']]
NOREF = dict(s='', up=0, p=[], top=False, h='', q='', sp=0)
NOC = dict(kind='css', pre=[], id='', kids=[], post=[], items=[], enc=0)


def to(rng, dirs, p):
    """A reference from a folder to a file."""
    ref = dict(NOREF, sp=rng.choice([0, 0, 1, 2]))
    r = rng.random()
    if r < 0.12:
        return dict(ref, s='file', p=p, h=rng.choice(['', '', 'f']))
    if r < 0.2:
        return dict(ref, top=True, p=p)
    n = 0
    while n < len(dirs) and n < len(p) - 1 and dirs[n] == p[n]:
        n += 1
    if rng.random() < 0.2:
        n = rng.randint(0, n)
    return dict(ref, up=len(dirs) - n, p=p[n:],
                h=rng.choice(['', '', '', 'f']))


def sheet_ref(rng, dirs):
    r = rng.random()
    if r < 0.05:
        return dict(NOREF, s='data', q=rng.choice(['8', '9', 'bad']))
    if r < 0.1:
        return to(rng, dirs, rng.choice([['no.css'], ['s', 'no.css'],
                                         ['no', 'x.css']]))
    return to(rng, dirs, rng.choice(CSS))


def items(rng, dirs, k):
    q = [dict(k='import', v=0, ref=sheet_ref(rng, dirs),
              media=rng.choice(['', '', 'all', 'screen', 'print', 'wide',
                                'thin', 'list']))
         for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    q += [dict(k='rule', v=rng.randint(1, 7), ref=NOREF, media='')
          for _ in range(rng.randint(0, k))]
    return q


def css(rng, p):
    return dict(NOC, items=items(rng, p[:-1], 2), enc=rng.randint(0, 4))


IDS = ['a', 'b', 'c', 'k', 'm']


def nd(rng, dirs, k):
    n = dict(k=k, id=rng.choice(IDS), ref=NOREF, rel='stylesheet',
             media='', ty='', sp=rng.randint(0, 2), items=[])
    if k in ('pi', 'link', 'style'):
        n['media'] = rng.choice(['', '', '', 'all', 'screen', 'print',
                                 'wide', 'thin', 'list'])
        n['ty'] = rng.choice(['', '', '', 'text/css', 'text/css', 'text/xsl'])
    if k == 'style':
        n['items'] = items(rng, dirs, 2)
    if k in ('pi', 'link'):
        n['ref'] = NOREF if rng.random() < 0.06 else sheet_ref(rng, dirs)
        if rng.random() < 0.12:
            n['rel'] = 'alternate stylesheet'
        elif k == 'link' and rng.random() < 0.1:
            n['rel'] = 'icon'
    if k == 'pi':
        n['id'] = ''
    return n


def some(rng, dirs, ks, k):
    return [nd(rng, dirs, rng.choice(ks)) for _ in range(rng.randint(0, k))]


def page(rng, p):
    if p[-1] == 'bad.svg' or rng.random() < 0.05:
        return dict(NOC, kind='bad', id='x')
    d = p[:-1]
    return dict(NOC, kind='svg', id=rng.choice(IDS + ['']),
                pre=some(rng, d, ['pi', 'pi', 'c'], 3),
                kids=some(rng, d, ['link', 'style', 'g'], 4),
                post=some(rng, d, ['c'], 1))


def site(rng):
    fs = [dict(p=p, c=page(rng, p)) for p in PAGES if rng.random() < 0.9]
    return fs + [dict(p=p, c=css(rng, p)) for p in CSS if rng.random() < 0.85]


def blank(name, **kw):
    op = dict(name=name, d=1, via='', ref=NOREF, h='', p=[], c=NOC, i=1,
              nd=dict(k='g', id='', ref=NOREF, rel='stylesheet', media='',
                      ty='', sp=0, items=[]))
    op.update(kw)
    return op


def step(rng, focus):
    def gen(sys):
        d = rng.randint(1, len(sys.docs))
        doc = sys.docs[d - 1]
        try:
            url = sys.url(doc.location.href)
        except Exception:
            return None
        root = doc.document_element
        dirs = url['p'][:-1]
        r = rng.random()
        if root is None and r < 0.6 or r < 0.3:
            q = rng.random()
            if q < 0.05:
                ref = dict(NOREF, s='about')
            elif q < 0.09:
                ref = dict(NOREF, s='data', q='8')
            elif q < 0.14:
                ref = to(rng, dirs, rng.choice([['no.svg'], ['no', 'a.svg'],
                                                ['x.css']]))
            elif q < 0.18 and url['k'] == 'file':
                ref = dict(NOREF, h='f')
            else:
                ref = to(rng, dirs, rng.choice(PAGES))
            via = rng.choice(['window', 'doc', 'doc', 'href', 'assign'])
            if via in ('href', 'assign') and rng.random() < 0.7 \
                    and ref['p']:
                ref = dict(NOREF, s='file', h=ref['h'],
                           p=rng.choice(PAGES))
            if via == 'window' and d != 1:
                via = 'doc'
            return blank('go', d=d, via=via, ref=ref)
        if r < 0.36:
            return blank('reload', d=d)
        if r < 0.4 and url['k'] == 'file':
            return blank('hash', d=d, h=rng.choice(['', 'x', 'y']))
        if r < 0.44 and url['k'] == 'file':
            return blank('path', d=d, p=rng.choice(PAGES + [['no.svg']]))
        if r < 0.48 and len(sys.docs) < 3:
            return blank('newdoc')
        if r < 0.6:
            p = rng.choice(CSS)
            return blank('write', p=p, c=css(rng, p))
        if r < 0.65:
            p = rng.choice(PAGES)
            return blank('write', p=p, c=page(rng, p))
        if r < 0.7:
            return blank('unlink', p=rng.choice(PAGES + CSS))
        if root is None:
            return None
        kids = list(root)
        if r < 0.85 or not kids:
            return blank('add', d=d, nd=nd(rng, dirs, rng.choice(
                ['pi', 'link', 'link', 'style', 'style', 'g'])))
        i = rng.randint(1, len(kids))
        k = kids[i - 1].local_name
        if k == 'link' and r < 0.95:
            return blank('ref', d=d, i=i, ref=sheet_ref(rng, dirs))
        if k == 'style' and r < 0.95:
            return blank('words', d=d, i=i,
                         c=dict(NOC, items=items(rng, dirs, 2),
                                enc=rng.randint(0, 4)))
        return blank('drop', d=d, i=i)
    return gen


def behaviours(rng, tier, focus=''):
    count = {'quick': 500, 'thorough': 4500}[tier]
    for i in range(count):
        yield ('p%d' % i, {'fs': site(rng)},
               [step(rng, focus) for _ in range(rng.choice([4, 8, 12]))])
