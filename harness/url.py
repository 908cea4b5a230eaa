"""Drives URLs: their parts, their text and relative references."""

import base64
from urllib.parse import quote

from svgpy.url import URL, Location
from svgpy.utils import load


# ------------------------------------------------------------ text of the parts
def spell(s, raw, sp, plus=False):
    """Text for s: characters outside raw are encoded, and at will others."""
    out = ''
    for i, c in enumerate(s):
        if plus and c == ' ':
            out += '+' if (sp + i) % 2 else '%20'
        elif c in raw and not (sp == 3 and i == 0):
            out += c
        elif c == 'é' and sp == 1:
            out += c
        else:
            e = quote(c, safe='') if not c.isalnum() or ord(c) > 127 else c
            if c in '_.-~':
                e = '%%%02X' % ord(c)
            elif sp == 3 and c.isascii() and c.isalnum():
                e = '%%%02x' % ord(c)
            out += e.lower() if sp == 2 else e
    return out


ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~'


def path(segs, d, sp):
    q = []
    for i, s in enumerate(segs):
        if s == '..' and sp == 3:
            q.append('%2e.')
        elif s in ('.', '..'):
            q.append(s)
        else:
            q.append(spell(s, ALNUM + '&=;@,' + (':' if i else ''), sp))
    return '/'.join(q) + ('/' if d and segs else '')


def search(q, sp):
    out = []
    for k, v in q:
        t = spell(k, ALNUM + '*,', sp, True)
        if v or sp != 1:
            t += '=' + spell(v, ALNUM + '*,=:/', sp, True)
        out.append(t)
    return '&'.join(out) + ('&' if sp == 2 and out else '')


def text(u):
    sp = u['sp']
    k = u.get('k', 'full')
    t = ''
    if k == 'full':
        t += u['pr'].rstrip(':') + ':'
    if k in ('full', 'net'):
        t += '//'
        if u['us'] and u['hn'] and k == 'full':
            t += spell(u['us'], ALNUM, sp)
            if u['pw']:
                t += ':' + spell(u['pw'], ALNUM, sp)
            t += '@'
        t += u['hn'] + (':' + u['po'] if u['po'] else '')
        if u['segs'] or sp:
            t += '/'
    if k == 'abs':
        t += '/'
    if k in ('full', 'net', 'abs', 'rel'):
        t += path(u['segs'], u['dir'], sp)
    if k not in ('frag', 'empty') and u['q']:
        t += '?' + search(u['q'], sp)
    if k != 'empty' and u['h']:
        t += '#' + spell(u['h'], ALNUM + '!/?', sp)
    return t


# --------------------------------------------------------------------- system
def show(u):
    sp = u.search_params
    return {'href': u.href, 'bare': u.tostring(exclude_fragment=True),
            'origin': u.origin, 'pr': u.protocol, 'us': u.username,
            'pw': u.password, 'host': u.host, 'hn': u.hostname,
            'po': u.port, 'path': u.pathname, 'search': u.search,
            'hash': u.hash, 'sp': [[k, sp[k]] for k in sorted(sp)],
            'form': sp.tostring()}


class System(object):
    bad = ''

    def __init__(self, start):
        t = text(start['u'])
        self.url = URL(t)
        self.loc = Location()
        self.loc.href = t

    def apply(self, op):
        try:
            v = self.do(op)
        except Exception as e:
            return {'r': 'exc:' + type(e).__name__}
        return {'r': 'ok'} if v is None else {'r': 'ok', 'v': v}

    def both(self, f, t):
        e = []
        # A location moved by text no longer has a port that is the default,
        # nor a user without a host.
        own = f in ('username', 'password') \
            or f == 'protocol' and self.loc.port != self.url.port \
            or self.url.username != '' and self.url.hostname == ''
        for x in [self.url, self.loc]:
            if x is self.loc and own:
                self.loc.href = self.url.href
                continue
            try:
                setattr(x, f, t)
                e.append(None)
            except Exception as exp:
                e.append(exp)
        if len(e) == 2 and type(e[0]) is not type(e[1]):
            self.bad = 'a location takes what a URL does not'
        if e[0] is not None:
            raise e[0]

    def do(self, op):
        k = op['name']
        if k == 'data':
            t = op['t']
            if op['b64']:
                t = ';base64,' + base64.b64encode(t.encode()).decode()
            else:
                t = ',' + ''.join(
                    c if c in ALNUM + "/,;:=&+@!$'()*" and (op['sp'] + i) % 3
                    else quote(c, safe='') if c.isascii() and not c.isalnum()
                    else quote(c) for i, c in enumerate(t))
            u = URL('data:' + op['m'] + t)
            d, h = load(u if op['sp'] % 2 else u.href)
            return {'text': d.decode() if op['b64'] else d,
                    'type': h['content-type'], 'origin': u.origin,
                    'pr': u.protocol, 'hash': u.hash}
        if k == 'blob':
            u = URL('blob:' + self.url.href)
            return {'origin': u.origin, 'pr': u.protocol, 'host': u.host,
                    'search': u.search, 'hash': u.hash}
        u = self.url
        sp = op.get('sp', 0)
        if k == 'href':
            self.both('href', text(op['u']))
        elif k == 'bad':
            self.both(op['f'], op['t'])
        elif k == 'protocol':
            self.both(k, op['v'] + (':' if sp else ''))
        elif k in ('username', 'password'):
            self.both(k, spell(op['v'], ALNUM, sp))
        elif k in ('host', 'hostname'):
            self.both(k, op['v'] + (':' + op['p'] if op['p'] else ''))
        elif k == 'port':
            self.both(k, op['v'])
        elif k == 'pathname':
            t = path(op['segs'], op['dir'], sp)
            self.both(k, ('/' if sp != 1 or not op['segs'] else '') + t)
        elif k == 'search':
            self.both(k, ('?' if sp != 2 else '') + search(op['q'], sp))
        elif k == 'hash':
            self.both(k, ('#' if sp != 2 else '')
                      + spell(op['v'], ALNUM + '!/?', sp))
        elif k == 'spset':
            u.search_params[op['kv'][0]] = op['kv'][1]
            self.loc.href = u.href
        elif k == 'spdel':
            del u.search_params[op['key']]
            self.loc.href = u.href
        elif k == 'resolve':
            r = URL(text(op['u']), u.href if sp else u)
            v = show(r)
            if op['go']:
                self.url = r
                self.loc.href = r.href
            return v
        elif k == 'again':
            return show(URL(u.href))

    def state(self):
        s = show(self.url)
        if show(self.url) != s:
            self.bad = 'looking at a URL changes it'
        if self.loc.href != s['href'] or self.loc.tostring() != s['href'] \
                or self.loc.origin != s['origin'] \
                or self.loc.pathname != s['path'] \
                or self.loc.search != s['search'] \
                or self.loc.hash != s['hash'] or self.loc.host != s['host'] \
                or self.loc.protocol != s['pr']:
            self.bad = 'the location differs: ' + self.loc.href
        return s


# ----------------------------------------------------------------- behaviours
CH = ['a', 'b', 'B', '1', '-', '~', '_', '.', ' ', 'é', '"', '<', '!', '$',
      '&', "'", '(', '*', '+', ',', ':', ';', '=', '@', '[', '^', '{', '|']
PROTO = ['http', 'https', 'ftp', 'ws', 'ssh', 'HTTPS']
PORTS = ['', '', '80', '443', '21', '8080', '0', '65535']
HOSTS = ['example.org', 'h', 'A.Example', '[2001:db8::1]', '127.0.0.1']


def word(rng, extra='', n=3):
    return ''.join(rng.choice(CH + list(extra))
                   for _ in range(rng.choice([1, 1, 2, n])))


def seg(rng):
    r = rng.random()
    if r < .15:
        return '..'
    if r < .25:
        return '.'
    s = word(rng, '%/\\#?')
    return 'x' + s if set(s) <= {'.'} else s


def segs(rng):
    q = [seg(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    return q, bool(q) and rng.random() < .3


def params(rng, n=3):
    keys = ['a', 'b', 'a b', 'é', 'k=', 'x+y', 'A', '%', 'a&b', '10']
    return [[rng.choice(keys),
             rng.choice(['', '1', word(rng, '%/?#'), '%41', 'a=b=c', '100% 8',
                         ' ', '+', '&x=y'])]
            for _ in range(rng.randrange(n + 1))]


def frag(rng):
    r = rng.random()
    if r < .3:
        return ''
    s = word(rng, '/?%', 4)
    return s + rng.choice(['', '', '%41', '#'])


def full(rng, file=False):
    s, d = segs(rng)
    u = {'k': 'full', 'pr': rng.choice(PROTO) + ':', 'us': '', 'pw': '',
         'hn': rng.choice(HOSTS), 'po': rng.choice(PORTS), 'segs': s,
         'dir': d, 'q': params(rng), 'h': frag(rng), 'sp': rng.randrange(4)}
    if rng.random() < .3:
        u.update(us=word(rng, ':@/%'), pw=rng.choice(['', word(rng, ':@/%')]))
    if file:
        u.update(pr='file:', hn='', po='', us='', pw='',
                 segs=['nowhere'] + s, sp=rng.choice([0, 1, 2]))
    return u


def ref(rng, file=False):
    u = full(rng)
    k = rng.choice(['full', 'net', 'abs', 'rel', 'rel', 'rel', 'query',
                    'frag', 'empty'])
    if file:
        k = rng.choice(['full', 'rel', 'rel', 'frag', 'query', 'abs'])
        if k == 'abs':
            u.update(q=[], h='')
    if k == 'abs' and not u['segs']:
        u['segs'] = ['a']
    if k == 'rel' and not u['segs']:
        u['segs'] = ['..']
    if k == 'query' and not u['q']:
        u['q'] = [['a', '1']]
    if k == 'frag' and not u['h']:
        u['h'] = 'a'
    if k != 'full':
        u.update(us='', pw='')
    if k != 'full' and k != 'net':
        u.update(pr='', hn='', po='')
    if k in ('query', 'frag', 'empty'):
        u.update(segs=[], dir=False)
    if k in ('frag', 'empty'):
        u['q'] = []
    if k == 'empty':
        u['h'] = ''
    u['k'] = k
    return u


BAD = [('href', ''), ('href', 'foo'), ('href', '/foo'), ('href', '?a'),
       ('href', 'http://h:99999/x'), ('href', 'https://h:1x/y?z'),
       ('href', 'ws://e%41x/'), ('href', 'about:'), ('protocol', '0http'),
       ('protocol', 'coap_tcp'), ('host', 'a b'), ('host', 'x:99999'),
       ('host', 'a/b'), ('host', '[::1:80'), ('hostname', 'a?b'),
       ('hostname', 'y:70000'), ('port', '65536'), ('port', '0.1'),
       ('port', 'x'), ('port', '-1'), ('pathname', 'a\\b')]


def pick(rng, file):
    def fn(s):
        r = rng.random()
        sp = rng.randrange(4)
        if r < .3:
            return {'name': 'resolve', 'u': ref(rng, file),
                    'go': rng.random() < .5, 'sp': rng.randrange(2)}
        if r < .36:
            return {'name': 'again'}
        if r < .38:
            return {'name': 'blob'}
        if r < .41:
            return {'name': 'data', 'm': rng.choice(
                ['', 'text/css', 'image/svg+xml;charset=utf-8', 'a/b;x="y"']),
                't': word(rng, '/?%#"+', 9),
                'b64': rng.randrange(2), 'sp': rng.randrange(6)}
        if r < .5:
            f, t = rng.choice(BAD)
            if f == 'pathname' and s.url.protocol == 'ssh:':
                return None
            return {'name': 'bad', 'f': f, 't': t}
        k = rng.choice(['href', 'pathname', 'pathname', 'search', 'search',
                        'hash', 'spset', 'spset', 'spdel'] + (
            [] if file else ['protocol', 'protocol', 'username', 'password',
                             'host', 'hostname', 'port', 'port']))
        op = {'name': k, 'sp': sp}
        if k == 'href':
            op['u'] = full(rng, file)
        elif k == 'protocol':
            op['v'] = rng.choice(PROTO)
        elif k in ('username', 'password'):
            op['v'] = rng.choice(['', word(rng, ':@/%'), word(rng)])
        elif k in ('host', 'hostname'):
            op['v'] = rng.choice(HOSTS)
            op['p'] = rng.choice(PORTS)
        elif k == 'port':
            op['v'] = rng.choice(PORTS)
        elif k == 'pathname':
            op['segs'], op['dir'] = segs(rng)
        elif k == 'search':
            op['q'] = params(rng)
        elif k == 'hash':
            op['v'] = frag(rng)
        elif k == 'spset':
            q = params(rng)
            op['kv'] = q[0] if q else ['a', '2']
        elif k == 'spdel':
            q = list(s.url.search_params)
            op['key'] = rng.choice(q) if q and rng.random() < .8 else 'none'
        return op
    return fn


def behaviours(rng, tier, focus=''):
    n = {'quick': 800, 'thorough': 8000}[tier]
    for i in range(n):
        file = rng.random() < .2
        yield 'u%d' % i, {'u': full(rng, file)}, \
            [pick(rng, file)] * rng.choice([2, 4, 8])
