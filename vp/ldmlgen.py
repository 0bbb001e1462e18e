"""LDML documents as plain data, generated from the shipped DTD, with a writer and a
reference reading of their own (nothing here uses the code under test)."""
import functools, io, os, re
from xml.etree import ElementTree as ET
from hypothesis import strategies as st
from vp.gen import xmlchars, INVIS, LETTERS, ASCII_LETTERS

SIL = 'urn://www.sil.org/ldml/0.1'
XMLNS = 'http://www.w3.org/XML/1998/namespace'
PREF = {'sil': SIL, 'xml': XMLNS}
DRAFTS = ('approved', 'contributed', 'provisional', 'unconfirmed', 'tentative', 'generated', 'suspect')
SERIAL = set("""attributeValues attributes base comment context exception extend i ic languageMatch last_non_ignorable
 last_secondary_ignorable last_tertiary_ignorable optimize p pc pluralRule rbnfrule reset rules ruleset s sc settings
 substitute suppress_contractions suppression t tRule tc variable x special sil:reorder""".split())
CDATA = ('cr', 'sil:note', 'sil:text')


class Dtd(object):
    """Element models and attribute declarations, read with regular expressions"""
    def __init__(self, fname='/repo/lib/sldr/sil.dtd'):
        text = open(fname, encoding='utf-8').read()
        text = re.sub(r'<!--.*?-->', '', text, flags=re.S)
        self.children, self.pcdata, self.attrs = {}, set(), {}
        for m in re.finditer(r'<!ELEMENT\s+([\w:.-]+)\s+(.*?)>', text, flags=re.S):
            toks = re.findall(r'#?[\w:.-]+', m.group(2))
            if '#PCDATA' in toks:
                self.pcdata.add(m.group(1))
            self.children[m.group(1)] = [t for t in toks if t not in ('#PCDATA', 'EMPTY', 'ANY')]
        for m in re.finditer(r'<!ATTLIST\s+([\w:.-]+)\s+([\w:.-]+)\s+(\([^)]*\)|\w+)', text):
            vals = re.findall(r'[^\s|()]+', m.group(3)) if m.group(3).startswith('(') else None
            self.attrs.setdefault(m.group(1), {})[m.group(2)] = vals

    def rank(self, parent, tag):
        """Position of a child in its parent's content model"""
        c = self.children.get(parent, [])
        return len(c) - 1 - c[::-1].index(tag) if tag in c else 1 << 20

    def attrank(self, tag, att):
        a = list(self.attrs.get(tag, {}))
        return a.index(att) if att in a else 1 << 20


DTD = Dtd()
EXTRA = {'sil:reorder': dict(match=None, reorder=None)}      # (the DTD gives these to its parent)


KEYS = {'sil:matched-pair': ['open', 'close'], 'sil:quotation': ['level'], 'sil:punctuation-pattern': ['context', 'pattern']}


def keyattrs(tag):
    """Attributes that tell elements of one tag apart"""
    if tag in KEYS:
        return KEYS[tag]
    return [a for a in DTD.attrs.get(tag, {}) if a not in ('draft', 'alt') and (tag, a) != ('collation', 'sil:modified')]


# ---------------------------------------------------------------- documents as data
# element: dict(t=tag, a={attribute: value}, x=text or None, c=[children], m=[comments before it])

def E(t, a=None, x=None, c=(), m=()):
    return dict(t=t, a=dict(a or {}), x=x, c=list(c), m=list(m))


def key(e):
    ks = keyattrs(e['t'])
    return (e['t'], tuple(sorted((k, v) for k, v in e['a'].items() if k in ks)))


def foldkey(e):
    """key under which no two siblings are generated, so that their order is decided"""
    ks = keyattrs(e['t'])
    return (e['t'], tuple(sorted((k, v.lower()) for k, v in e['a'].items() if k in ks)))


LONG = 'Some_rather_long_name_of_something_or_other/'
POOL = ['standard', 'a', 'b', 'Zz', 'gregorian', 'en', 'US', 'Africa/Abidjan', 'Europe/Paris', '10', '2', 'x y', 'long', LONG + 'A', LONG + 'B', '9', '01']


@functools.lru_cache(None)
def attrvalue(wild=True):
    base = st.sampled_from(POOL)
    if not wild:
        return base
    return st.one_of(base, base, base, st.text(xmlchars('\t\n /=[]@'), min_size=1, max_size=6))


ODD = INVIS.replace(' ', '') + '\u200b\u200e\u200f\u202a\u202e\u034f\u061c\u2066\u2069\u0301\u093c\ufffd\ufffc\ue000\U0010fffd\U000e0020\u2191\u0130\u1e9e\ufb01'


@functools.lru_cache(None)
def textvalue(cdata=False):
    line = st.text(xmlchars(' \t-]>'), min_size=1, max_size=8)
    t = st.one_of(st.sampled_from(['x', '[a b c]', 'dd/MM/y', '\u202f', ' ', 'a&b<c>"d"', "it's", '&amp;', '[[a]]>', '\u00a0']),
                  line, line, st.sampled_from(ODD).flatmap(lambda c: st.sampled_from(['a' + c + 'b', 'a' + c, c + 'b', c, c + c])),
                  st.tuples(st.text(xmlchars(' '), min_size=1, max_size=3), st.sampled_from([1, 1, 1, 1, 500, 9000])).map(lambda t: 'a' + t[0] * t[1] + 'b'),
                  st.lists(line, min_size=2, max_size=3).map("\n".join),
                  st.tuples(line, st.text(st.sampled_from(' \t\n'), max_size=4), st.text(st.sampled_from(' \t\n'), max_size=4), line).map(lambda t: t[0] + t[1] + '\n' + t[2] + t[3]),
                  st.lists(line, min_size=2, max_size=3).map(lambda l: "\n  " + "\n\t ".join(l) + " \n "))
    return t.filter(lambda x: x.strip() != '↑↑↑')


COMMENT = st.text(st.sampled_from(ASCII_LETTERS + ' &<>"\'é漢'), min_size=1, max_size=8).map(lambda s: ' ' + s + ' ')


@st.composite
def element(draw, tag, depth, opts):
    decl = DTD.attrs.get(tag, {}) or EXTRA.get(tag, {})
    avail = [a for a in decl if a not in ('draft', 'alt', 'xmlns:sil')]
    attrs = {}
    if avail:
        for a in draw(st.lists(st.sampled_from(avail), max_size=2, unique=True)):
            vals = decl[a]
            attrs[a] = draw(st.sampled_from(vals)) if vals and not (opts.get('unknown') and draw(st.integers(0, 9)) == 0) \
                else draw(attrvalue(opts.get('wild', True)))
    if opts.get('foreign') and draw(st.integers(0, 7)) == 0:      # what the DTD knows nothing of
        attrs[draw(st.sampled_from(['zz', 'sil:zz', 'xml:lang', 'Aa']))] = draw(attrvalue(opts.get('wild', True)))
    kids = [k for k in dict.fromkeys(DTD.children.get(tag, [])) if k not in opts.get('exclude', ('alias', 'cp'))]
    e = E(tag, attrs)
    if opts.get('comments') and draw(st.integers(0, 9)) == 0:
        e['m'] = draw(st.lists(COMMENT, min_size=1, max_size=2))
    if kids and depth > 0 and (tag not in DTD.pcdata or draw(st.booleans())):
        e['c'] = draw(children(tag, kids, depth - 1, opts))
    if not e['c'] and (tag in DTD.pcdata or not kids):
        e['x'] = draw(st.one_of(st.none(), textvalue(), textvalue()))
    if opts.get('drafts') and 'draft' in decl and draw(st.integers(0, 3)) == 0:
        e['a']['draft'] = draw(st.sampled_from(DRAFTS))
    return e


@st.composite
def children(draw, tag, kids, depth, opts):
    n = draw(st.integers(0, opts.get('width', 4)))
    if opts.get('foreign') and tag == 'special':
        kids = kids + ['sil:zz', 'zz', 'sil:aa'] * 4
    res, seen = [], set()
    order = draw(st.lists(st.sampled_from(kids), min_size=n, max_size=n))
    for k in order:
        c = draw(element(k, depth, opts))
        fk = foldkey(c)
        if k in SERIAL and k != 'special':
            if opts.get('serial', True):
                res.append(c)
            continue
        if k == 'special':
            fk = ('special',)
        if fk in seen:
            continue
        seen.add(fk)
        res.append(c)
        if opts.get('lists') and k == 'sil:url' and c['x'] and draw(st.booleans()):      # several addresses
            res += [E(k, c['a'], 'address %s' % n) for n in draw(st.lists(st.sampled_from('abc'), max_size=2, unique=True))]
            continue
        free = [a for a in c['a'] if a in keyattrs(k) and not DTD.attrs[k][a]]
        if free and draw(st.integers(0, 3)) == 0:       # one much like it
            a = draw(st.sampled_from(free))
            if draw(st.booleans()) and not opts.get('tame'):
                c['a'][a] = LONG + c['a'][a]
                seen.add(foldkey(c))
            near = E(k, dict(c['a'], **{a: c['a'][a] + draw(st.sampled_from(['A', 'b', '2', '-']))}), 'near' if k in DTD.pcdata else None)
            if foldkey(near) not in seen:
                seen.add(foldkey(near))
                res.append(near)
        if opts.get('alts') and not c['c'] and 'alt' in DTD.attrs.get(k, {}) and c['x'] and draw(st.integers(0, 2)) < (2 if opts.get('manyalts') else 1):
            for alt in draw(st.lists(st.sampled_from(['proposed', 'x', 'Short', 'variant', 'proposed-u1']), min_size=1, max_size=3, unique=True)):
                a = dict(c, a=dict(c['a'], alt=alt), m=[], c=[])
                a['a'].pop('draft', None)
                d = draw(st.sampled_from((None,) * (4 if opts.get('manyalts') else 1) + DRAFTS))
                if d: a['a']['draft'] = d
                a['x'] = draw(textvalue())
                res.append(a)
            if draw(st.booleans()):
                res.remove(c)
    if opts.get('shuffle', True) and len(res) > 1:
        ser = [c for c in res if c['t'] in SERIAL and c['t'] != 'special']
        rest = draw(st.permutations([c for c in res if not (c['t'] in SERIAL and c['t'] != 'special')]))
        if ser and rest:
            at = draw(st.integers(0, len(rest)))
            res = rest[:at] + ser + rest[at:]
        else:
            res = ser + rest
    return res


@st.composite
def document(draw, **opts):
    """An ldml element: an identity, perhaps with a uid and default draft, and anything else the DTD has"""
    opts.setdefault('drafts', True)
    opts.setdefault('alts', True)
    opts.setdefault('comments', True)
    kids = [k for k in dict.fromkeys(DTD.children['ldml']) if k not in ('identity', 'alias', 'fallback')]
    ident = [E('version', {'number': '1'})] if draw(st.booleans()) else []
    ident.append(E('language', {'type': draw(st.sampled_from(['en', 'fr', 'sg']))}))
    if draw(st.integers(0, 2)) == 0:
        ident.append(E('script', {'type': draw(st.sampled_from(['Latn', 'Cyrl']))}))
    dd = draw(st.one_of(st.none(), st.none(), st.sampled_from(DRAFTS))) if opts['drafts'] else None
    uid = draw(st.one_of(st.none(), st.sampled_from(['u1', 'test'])))
    if dd or uid:
        ident.append(E('special', {}, None, [E('sil:identity', dict(([('draft', dd)] if dd else []) + ([('uid', uid)] if uid else [])))]))
    rest = draw(children('ldml', opts.get('tops', kids), opts.get('depth', 4), opts))
    root = E('ldml', {}, None, [E('identity', {}, None, ident)] + rest)
    if opts['comments'] and draw(st.integers(0, 9)) == 0:
        root['m'] = [draw(COMMENT)]
    return root


def walk(e):
    yield e
    for c in e['c']:
        for x in walk(c):
            yield x


# ---------------------------------------------------------------- writing
def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;')
    return s


def to_xml(e, indent='  ', top=True, level=0, cdata=False, lowns=False):
    """The document as text, in its own order. cdata: write the text of CDATA elements so.
    lowns: declare the sil namespace where it is used rather than on the root."""
    res = []
    if top:
        res.append('<?xml version="1.0" encoding="UTF-8"?>\n')
    pad = indent * level
    for m in e['m']:
        res.append('{}<!--{}-->\n'.format(pad, m))
    at = "".join(' {}="{}"'.format(k, esc(v, True)) for k, v in e['a'].items())
    if top and not lowns:
        at = ' xmlns:sil="{}"'.format(SIL) + at
    elif lowns and (e['t'].startswith('sil:') or any(k.startswith('sil:') for k in e['a'])):
        at = ' xmlns:sil="{}"'.format(SIL) + at
    if e['c']:
        res.append('{}<{}{}>\n'.format(pad, e['t'], at))
        for c in e['c']:
            res.append(to_xml(c, indent, False, level + 1, cdata, lowns and not (' xmlns:sil=' in at)))
        res.append('{}</{}>\n'.format(pad, e['t']))
    elif e['x'] is not None:
        t = e['x']
        t = '<![CDATA[' + t.replace(']]>', ']]]]><![CDATA[>') + ']]>' if cdata and e['t'] in CDATA else esc(t)
        res.append('{}<{}{}>{}</{}>\n'.format(pad, e['t'], at, t, e['t']))
    else:
        res.append('{}<{}{}/>\n'.format(pad, e['t'], at))
    return "".join(res)


# ---------------------------------------------------------------- reference reading
def lname(tag):
    """{uri}name -> prefix:name"""
    if tag[0] == '{':
        u, n = tag[1:].split('}')
        for p, x in PREF.items():
            if x == u:
                return p + ':' + n
        return tag
    return tag


def normtext(t):
    """Text of an element: XML white space around it and around its lines is not content"""
    if t is None:
        return None
    t = "\n".join(l.strip(' \t\r') for l in t.strip(' \t\r\n').split('\n'))
    return t or None


def from_et(n):
    """A parsed stdlib element as data; comments are separate"""
    kids = [from_et(c) for c in n if isinstance(c.tag, str)]
    return E(lname(n.tag), {lname(k): v for k, v in n.attrib.items()}, normtext(n.text) if not kids else None, kids)


def parse(text):
    """Parse with the standard library; ET.ParseError if not well formed"""
    if isinstance(text, str):
        text = text.encode('utf-8')
    return from_et(ET.fromstring(text))


def comments_of(text):
    class B(ET.TreeBuilder):
        def __init__(self):
            super().__init__()
            self.found = []

        def comment(self, t):
            self.found.append(t)
    b = B()
    p = ET.XMLParser(target=b)
    p.feed(text.encode('utf-8') if isinstance(text, str) else text)
    p.close()
    return b.found


def canon(e):
    """Order-free form of a document (order kept among serial elements)"""
    ser = [canon(c) for c in e['c'] if c['t'] in SERIAL and c['t'] != 'special']
    rest = sorted((canon(c) for c in e['c'] if not (c['t'] in SERIAL and c['t'] != 'special')), key=repr)
    return (e['t'], tuple(sorted(e['a'].items())), normtext(e['x']) if not e['c'] else None, tuple(ser), tuple(rest))


def default_draft(doc):
    for i in doc['c']:
        if i['t'] == 'identity':
            for s in i['c']:
                if s['t'] == 'special':
                    for d in s['c']:
                        if d['t'] == 'sil:identity':
                            return d['a'].get('draft', 'unconfirmed')
    return 'unconfirmed'


def rating(d, default):
    d = d if d is not None else default
    return DRAFTS.index(d) if d in DRAFTS else 5


def strip_drafts(e, dd):
    """What saving leaves of draft marks: none on containers, none that say the default"""
    a = dict(e['a'])
    if e['t'] != 'sil:identity' and 'draft' in a and (e['c'] or a['draft'] == dd):
        del a['draft']
    return dict(e, a=a, c=[strip_drafts(c, dd) for c in e['c']])


def diff(a, b, path=''):
    """First difference between two canonical forms, for messages"""
    if a == b:
        return None
    if a[0] != b[0] or a[1] != b[1] or a[2] != b[2]:
        return "{}/{}: {!r} {!r} against {!r} {!r}".format(path, a[0], a[1], a[2], b[1], b[2]) if a[0] == b[0] else \
            "{}: {} against {}".format(path, a[0], b[0])
    for i in (3, 4):
        for x, y in zip(a[i], b[i]):
            d = diff(x, y, path + '/' + a[0])
            if d:
                return d
        if len(a[i]) != len(b[i]):
            return "{}/{}: {} children against {}: {!r} / {!r}".format(path, a[0], len(a[i]), len(b[i]),
                [x[:3] for x in a[i]], [x[:3] for x in b[i]])
    return "?"
