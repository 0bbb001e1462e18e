"""What is written is well-formed XML saying exactly what is in the tree, for any content and any namespaces."""
import io
from xml.etree import ElementTree as ET
from hypothesis import strategies as st
from vp.core import *
from vp.gen import *
from vp import ldmlgen as G, ldmlio as IO
from sldr import ldml as L

NS = ['', '', '', 'urn:a', 'urn:b', 'http://x/y?z&w', G.SIL]
PX = ['', 'a', 'b', 'sil', 'ns1', 'ns2', 's']
NASTY = [']]>', 'a]]>b]]>', '<a b="c">', '--', '-', '->', 'a--b-', '&amp;', '"', "'", 'a\tb', 'a\nb', 'a\n  b\n', ']]', '<![CDATA[x]]>', '<!--', '&#10;', ' a ', '\u00a0']
ANY = st.one_of(st.sampled_from(NASTY), st.text(xmlchars(' \t\n-]>/=[]@↑'), max_size=8),
                st.lists(st.sampled_from(NASTY), min_size=2, max_size=3).map("".join))
NAME = st.sampled_from(['a', 'b', 'c', 'cr', 'text', 'note', 'item', 'special', 'p-q', 'é', '_1'])


# ---- trees of any vocabulary, for the general purpose writer
@st.composite
def tree(draw, depth=3):
    ns = draw(st.sampled_from(NS))
    at = {}
    for n, a, v in draw(st.lists(st.tuples(st.sampled_from(NS + [G.XMLNS]), st.sampled_from(['lang', 'x', 'y', 'alt']), ANY), max_size=3)):
        at[('{%s}%s' % (n, a)) if n else a] = v
    kids = draw(st.lists(tree(depth - 1), max_size=3)) if depth else []
    nm = draw(NAME)
    return dict(t=('{%s}%s' % (ns, nm)) if ns else nm, a=at, x=None if kids else draw(st.one_of(st.none(), ANY)), c=kids)


def build(d):
    e = ET.Element(d['t'], d['a'])
    e.text = d['x']
    for c in d['c']:
        e.append(build(c))
    return e


def plain(e, strip):
    """Comparable form of a parsed element"""
    kids = [plain(c, strip) for c in e if isinstance(c.tag, str)]
    return (e.tag, sorted(e.attrib.items()), strip(e.text) if not kids else None, kids)


def plaind(d, strip):
    kids = [plaind(c, strip) for c in d['c']]
    return (d['t'], sorted(d['a'].items()), strip(d['x']) if not kids else None, kids)


def runwriter(case, ctx):
    d = case['tree']
    el = build(d)
    nss = {x[1:].split('}')[0] for e in G.walk(d) for x in [e['t']] + list(e['a']) if x[0] == '{'}
    ctx.nontrivial(len(nss) > 1)
    known = {}
    for n, p in zip(sorted(nss - {G.XMLNS}), case['prefixes']):
        if p and p not in known.values() and case['given']:
            known[n] = p
    before = dict(known)
    strip = lambda t: G.normtext(t)

    def write():
        out = []
        call(L.etwrite, el, out.append, topns=case['topns'], namespaces=known if case['given'] else None)
        return "".join(out)
    text = write()
    try:
        got = ET.fromstring(text.encode('utf-8'))
    except ET.ParseError as e:
        raise Violation("not well formed: {}\n{}".format(e, text))
    eq(plain(got, strip), plaind(d, strip), "content of {!r}".format(text))
    for n, p in before.items():
        if case['topns']:
            check('xmlns:{}="{}"'.format(p, n.replace('&', '&amp;')) in text, "{} is not declared for {} in {}", p, n, text)
    # writing one tree has no effect on writing the next
    out = []
    call(L.etwrite, ET.Element('z'), out.append, topns=case['topns'])
    eq("".join(out), '<?xml version="1.0" encoding="utf-8"?>\n<z/>\n', "an empty tree written after it")
    eq(write(), text, "written twice")


# ---- documents with whatever namespace declarations
@st.composite
def nsdoc(draw, depth=3, scope=None):
    """An element as text in any namespaces; scope: prefix -> namespace"""
    scope = dict(scope or {})
    decl = {}
    for p, n in draw(st.lists(st.tuples(st.sampled_from(PX), st.sampled_from([x for x in NS if x])), max_size=2)):
        decl[p] = n
    scope.update(decl)
    p = draw(st.sampled_from([''] + sorted(scope)))
    at = {}
    for q, a, v in draw(st.lists(st.tuples(st.sampled_from(['', 'xml'] + [x for x in sorted(scope) if x]), st.sampled_from(['lang', 'x', 'y']), ANY), max_size=2)):
        key = (scope.get(q, q) if q else '', a)
        if all(k[2] != key for k in at):
            at[(q, a, key)] = v
    kids = draw(st.lists(nsdoc(depth - 1, scope), max_size=3)) if depth else []
    return dict(p=p, n=draw(NAME), decl=decl, at=[[q, a, v] for (q, a, k), v in at.items()], x=None if kids else draw(st.one_of(st.none(), ANY)), c=kids)


def nstext(d):
    s = ''.join(' xmlns{}="{}"'.format(':' + p if p else '', G.esc(n, True)) for p, n in d['decl'].items())
    s += ''.join(' {}{}="{}"'.format(q + ':' if q else '', a, G.esc(v, True)) for q, a, v in d['at'])
    nm = (d['p'] + ':' if d['p'] else '') + d['n']
    return '<{0}{1}>{2}</{0}>'.format(nm, s, "".join(map(nstext, d['c'])) if d['c'] else G.esc(d['x'] or ''))


def unordered(t):
    return (t[0], t[1], t[2], sorted((unordered(c) for c in t[3]), key=repr))


def rundoc(case, ctx):
    text = nstext(case['doc'])
    try:
        want = ET.fromstring(text.encode('utf-8'))
    except ET.ParseError as e:
        raise HarnessError("{}: {}".format(e, text))
    ctx.nontrivial(sum(len(d['decl']) for d in G.walk(case['doc'])) > 1)
    one = IO.load(text, usedrafts=False, uparrows=True)
    s = IO.save(one, topns=case['topns'])
    try:
        got = ET.fromstring(s.encode('utf-8'))
    except ET.ParseError as e:
        raise Violation("not well formed: {}\n{}\nfrom {}".format(e, s, text))
    eq(unordered(plain(got, G.normtext)), unordered(plain(want, G.normtext)), "content of {!r} from {!r}".format(s, text))
    eq(IO.save(one, topns=case['topns']), s, "saved twice")
    eq(IO.save(IO.load(s, False, True), topns=case['topns']), s, "saved and loaded again")


# ---- content set through the tree
def sets():
    return st.fixed_dictionaries(dict(
        doc=G.document(depth=3, width=3, alts=False, lists=True), usedrafts=st.booleans(), topns=st.booleans(),
        edits=st.lists(st.tuples(st.integers(0, 500), st.sampled_from(['text', 'attr', 'comment', 'nsattr', 'sil:note', 'cr', 'sub', 'sub']), ANY).map(list), min_size=1, max_size=5)))


def runsets(case, ctx):
    ldml = IO.load(G.to_xml(case['doc']), case['usedrafts'])
    els = [e for e in ldml.root.iter()]
    undeclared = False      # the writer learns of such a namespace as it writes
    for i, kind, v in sorted(case['edits'], key=lambda x: x[1] == 'sub'):     # nothing is found beside those
        e = els[i % len(els)]
        if kind == 'text' and len(e) == 0:
            e.text = v
        elif kind == 'attr':
            e.set('type', v)
        elif kind == 'nsattr':
            if len(v) % 2:
                eq(call(ldml.add_namespace, 'q', 'urn:q'), 'q', "prefix of an added namespace")
            else:
                undeclared = True
            e.set('{urn:q}x', v)
        elif kind == 'comment':
            e.comments = [v]
        elif kind == 'sub' and len(e):      # a new element of the document's own kind
            p = call(ldml.subelement, e, 'sil:new', type=v, x=None)
            eq((p.tag, dict(p.attrib)), ('{%s}new' % G.SIL, {'type': v}), "a new element")
            p.text = v
            els.append(p)
        elif kind in ('sil:note', 'cr'):
            p = call(ldml.ensure_path, 'special/' + kind)[0]
            p.text = v
            if p not in els: els.append(p)
    ctx.nontrivial(any(set('&<>"\'-]\t\n') & set(v) for i, k, v in case['edits']))
    if case['usedrafts']:
        dd = ldml.default_draft
    s = IO.save(ldml, topns=case['topns'])
    try:
        got = ET.fromstring(s.encode('utf-8'))
    except ET.ParseError as e:
        raise Violation("not well formed: {}\n{}".format(e, s))
    nodraft = lambda t: (t[0], [(k, v) for k, v in t[1] if k != 'draft'], t[2], [nodraft(c) for c in t[3]])
    eq(nodraft(plain(got, G.normtext)), nodraft(plain(ldml.root, G.normtext)), "content of {!r}".format(s))
    squeeze = lambda t: re.sub(r'[- ]', '', t)
    have = [squeeze(c) for c in G.comments_of(s)]
    for e in els:
        for c in getattr(e, 'comments', []):
            check(squeeze(c) in have, "comment {!r} is not written in {!r}", c, s)
    if not undeclared:
        eq(IO.save(ldml, topns=case['topns']), s, "saved twice")


import re
CHECK = Check('C08', 'What is written is well formed and says what is in the tree',
    'Generated element trees in several namespaces, known to the writer by prefix or not; generated documents with '
    'default, repeated, shadowed and clashing namespace declarations; documents with any text, attribute values and '
    'comments set through the tree. The output is parsed with the standard library. Non-trivial: more than one '
    'namespace, or characters special to XML.',
    [Sub('writer', lambda: st.fixed_dictionaries(dict(tree=tree(), topns=st.booleans(), given=st.booleans(),
         prefixes=st.permutations(PX).map(lambda l: l[:4]))), runwriter, quick=350, thorough=8000, qshards=3, tshards=8),
     Sub('namespaces', lambda: st.fixed_dictionaries(dict(doc=nsdoc(), topns=st.booleans())), rundoc, quick=350, thorough=8000, qshards=3, tshards=8),
     Sub('content', sets, runsets, quick=200, thorough=4000, qshards=3, tshards=8)],
    ['no control characters in text, as XML cannot carry them; runs of hyphens in comments may be spaced out'])
