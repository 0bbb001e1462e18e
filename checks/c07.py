"""Loading and saving loses, invents and changes nothing but what the format says is redundant."""
import random, re
from collections import Counter
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO

ARROWS = '↑↑↑'


@st.composite
def strategy(draw):
    doc = draw(G.document(depth=draw(st.integers(2, 5)), width=draw(st.integers(2, 4)), unknown=True, foreign=True, lists=True))
    kind = draw(st.sampled_from(['plain', 'plain', 'dups', 'arrows']))
    if kind == 'dups':          # the same leaf given more than once, with drafts of its own
        for e in list(G.walk(doc)):
            for c in list(e['c']):
                if not c['c'] and c['x'] and c['t'] not in G.SERIAL and 'draft' in G.DTD.attrs.get(c['t'], {}) and draw(st.integers(0, 2)) == 0:
                    ds = draw(st.lists(st.sampled_from(G.DRAFTS), min_size=2, max_size=3, unique=True))
                    c['a']['draft'] = ds[0]
                    for d in ds[1:]:
                        e['c'].insert(draw(st.integers(0, len(e['c']))),
                                      dict(c, a=dict(c['a'], draft=d), x=draw(G.textvalue()), m=[]))
    elif kind == 'arrows':
        leaves = [(e, c) for e in G.walk(doc) for c in e['c'] if not c['c'] and e['t'] not in ('ldml', 'identity') and c['t'] != 'sil:identity']
        for e, c in leaves:
            if draw(st.integers(0, 2)):
                c['x'] = ARROWS
    return dict(doc=doc, kind=kind, usedrafts=draw(st.booleans()), topns=draw(st.booleans()),
                uparrows=draw(st.booleans()), cdata=draw(st.booleans()), lowns=draw(st.booleans()))


def inherited(e):
    """Without what says it is inherited, and what that leaves empty"""
    kids = []
    gone = False
    for c in e['c']:
        k = inherited(c)
        if k is None:
            gone = True
        else:
            kids.append(k)
    if e['x'] == ARROWS or (gone and not kids):
        return None
    return dict(e, c=kids)


def best(e, dd):
    """One element of each key and alt: that with the best draft"""
    kids, at = [], {}
    urls = [(G.key(c), c['a'].get('alt')) for c in e['c'] if c['t'] == 'sil:url']
    lists = set(k for k, a in urls if urls.count((k, a)) > 1)
    for c in e['c']:
        c = best(c, dd)
        k = (G.key(c), c['a'].get('alt'))
        if c['t'] in G.SERIAL or G.key(c) in lists:       # several addresses are not several drafts of one
            kids.append(c)
        elif k not in at:
            at[k] = len(kids)
            kids.append(c)
        elif G.rating(c['a'].get('draft'), dd) < G.rating(kids[at[k]]['a'].get('draft'), dd):
            kids[at[k]] = c
    return dict(e, c=kids)


def run(case, ctx):
    doc, ud = case['doc'], case['usedrafts']
    els = list(G.walk(doc))
    text = G.to_xml(doc, cdata=case['cdata'], lowns=case['lowns'])
    ctx.label(case['kind'])
    s = IO.save(IO.load(text, ud, case['uparrows']), topns=case['topns'])
    try:
        got = G.parse(s)
    except G.ET.ParseError as e:
        raise Violation("what is saved is not well formed: {}\n{}".format(e, s))
    want = doc
    dd = G.default_draft(doc)
    if not case['uparrows']:
        want = inherited(want) or dict(want, c=[])
    if ud:
        want = G.strip_drafts(best(want, dd), dd)
    ctx.nontrivial(len(els) > 8)
    d = G.diff(G.canon(want), G.canon(got))
    check(d is None, "wanted against saved: {}", d)
    if case['kind'] == 'plain':
        eq(sorted(G.comments_of(s)), sorted(m for e in els for m in e['m']), "comments")


# ---- the ways XML has of writing the same ----

TOKEN = re.compile(r'(<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<[^>]*>)', re.S)
ATTR = re.compile(r'\s([\w:.-]+)="([^"]*)"', re.S)


def forms_strategy():
    doc = st.builds(lambda d, w: (d, w), st.integers(2, 4), st.integers(2, 4)).flatmap(
        lambda t: G.document(depth=t[0], width=t[1], unknown=True, foreign=True, lists=True))
    return st.fixed_dictionaries(dict(doc=doc, cdata=st.booleans(), seed=st.integers(0, 10 ** 6), enc=st.sampled_from(['utf-8', 'utf-8', 'utf-8-sig', 'utf-16', 'utf-16-be']),
                                      doctype=st.sampled_from(['', '', 'bare', 'system', 'public', 'internal', 'both']), what=st.lists(st.sampled_from(['refs', 'hex', 'cdata', 'pi', 'entity', 'quote', 'space', 'empty', 'crlf']), unique=True)))


def rewritten(text, case):
    """The document in other words"""
    rnd = random.Random(case['seed'])
    what = case['what']
    root = []

    def ref(c):
        return '&#x{:X};'.format(ord(c)) if 'hex' in what else '&#{};'.format(ord(c))

    def words(t):
        res = []
        for m in re.finditer(r'&[^;]*;|.', t, re.S):
            c = m.group(0)
            k = rnd.randrange(8)
            if len(c) > 1 or c in ' \t\r\n':
                res.append(c)
            elif k == 0 and 'refs' in what:
                res.append(ref(c))
            elif k == 1 and 'cdata' in what and c != ']':
                res.append('<![CDATA[' + c + ']]>')
            elif k == 2 and 'pi' in what:
                res.append(c + '<?pi a="b" ?>')
            elif k == 3 and 'entity' in what and c == 'a' and case['doctype'] in ('internal', 'both'):
                res.append('&lett;')
            else:
                res.append(c)
        return "".join(res)

    def tag(t):
        m = re.match(r'<([\w:.-]+)((?:\s[\w:.-]+="[^"]*")*)\s*(/?)>$', t, re.S)
        if not m:
            return t
        ats = []
        for n, v in ATTR.findall(m.group(2)):
            if 'refs' in what:
                v = re.sub(r'&[^;]*;|.', lambda x: ref(x.group(0)) if len(x.group(0)) == 1 and x.group(0) not in ' \t\r\n' and rnd.randrange(6) == 0 else x.group(0), v, flags=re.S)
            q = '"'
            if 'quote' in what and "'" not in v and rnd.randrange(2):
                q, v = "'", v.replace('&quot;', '"')
            eqs = ' =\n\t' if 'space' in what and rnd.randrange(2) else '='
            ats.append((rnd.choice(['  ', '\n', '\t ', ' ']) if 'space' in what else ' ') + n + eqs + q + v + q)
        r = '<' + m.group(1) + "".join(ats) + (rnd.choice([' ', '\n', '']) if 'space' in what else '')
        if not m.group(3):
            return r + '>'
        if 'empty' in what and rnd.randrange(2):
            return r + '></' + m.group(1) + (' ' if 'space' in what else '') + '>'
        return r + '/>'
    res = []
    for i, t in enumerate(TOKEN.split(text)):
        if i % 2 and t.startswith('<?xml'):
            continue
        if i % 2 == 0:
            res.append(words(t))
        else:
            if t[1] not in '!?/' and not root:
                root.append(t)
                d = {'': '', 'bare': '<!DOCTYPE ldml>', 'system': '<!DOCTYPE ldml SYSTEM "../../common/dtd/ldml.dtd">', 'public': '<!DOCTYPE ldml PUBLIC "-//Unicode//x"\n "ldml.dtd" >',
                     'internal': '<!DOCTYPE ldml [\n<!ENTITY lett "a">\n]>', 'both': "<!DOCTYPE ldml SYSTEM 'ldml.dtd' [<!ENTITY lett 'a'><!ELEMENT zz ANY>]>"}[case['doctype']]
                res.append(d + '\n' if d else '')
                if 'pi' in what:
                    res.append('<?xml-stylesheet href="a.xsl"?>\n')
            res.append(tag(t) if t[1] not in '!?' else t)
            if 'pi' in what and rnd.randrange(6) == 0 and t[1] not in '!?' and len(root):
                res.append('<?what ever?>' if not t.startswith('</ldml') else '\n<?last?>\n')
    out = "".join(res).strip()
    if 'crlf' in what:
        out = out.replace('\n', '\r\n')
    decl = '' if case['enc'] == 'utf-8' and 'quote' in what else '<?xml version="1.0" encoding="{}"?>\n'.format({'utf-8-sig': 'UTF-8', 'utf-16-be': 'utf-16'}.get(case['enc'], case['enc']))
    out = decl + out
    return out.encode('utf-16-be' if case['enc'] == 'utf-16-be' else case['enc']) if case['enc'] != 'utf-16-be' else b'\xfe\xff' + out.encode('utf-16-be')


def run_forms(case, ctx):
    doc = case['doc']
    text = G.to_xml(doc, cdata=case['cdata'])
    other = rewritten(text, case)
    if G.diff(G.canon(G.parse(text)), G.canon(G.parse(other))) is not None:
        raise AssertionError("not the same document: " + repr(other))
    one = IO.save(IO.load(text))
    ctx.nontrivial(len(case['what']) > 1 and len(list(G.walk(doc))) > 5)
    ctx.label(case['enc'])
    ctx.label('doctype ' + case['doctype'])
    two = IO.save(IO.load(other))
    eq(two, one, "what is saved of the document in other words\n{}\n".format(other[:3000]))


CHECK = Check('C07', 'Nothing is lost in loading and saving',
    'Generated documents as for C06, with leaves repeated under different drafts, and with leaves marked as inherited; '
    'what is saved is parsed with the standard library and compared with a reference reading of the input. '
    'Non-trivial: more than eight elements.',
    [Sub('content', strategy, run, quick=500, thorough=5000, qshards=8, tshards=8),
     Sub('forms', forms_strategy, run_forms, quick=400, thorough=4000, qshards=4, tshards=8)],
    ['among repeated leaves no two have the same draft rating, containers are not repeated'])
