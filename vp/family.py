"""Related documents: ones derived from another by leaving out, changing and adding"""
import copy
from hypothesis import strategies as st
from vp import ldmlgen as G

UP = '\u2191\u2191\u2191'


def plain(doc):
    """Without the mark of an inherited value (such elements are not loaded)"""
    for e in G.walk(doc):
        if e['x'] and e['x'].strip() == UP:
            e['x'] = 'up'
    return doc


def nodefault(doc):
    """Without a default draft of its own"""
    for e in G.walk(doc):
        if e['t'] == 'sil:identity':
            e['a'].pop('draft', None)
    return doc


@st.composite
def relative(draw, doc, name, p=4, empties=True):
    """A document with some of another's elements, some of them changed"""
    def one(e):
        res = dict(e, a=dict(e['a']), c=[], m=[])
        for c in e['c']:
            r = draw(st.integers(0, p))
            if c['t'] == 'identity' or e['t'] == 'identity':
                res['c'].append(copy.deepcopy(c))
            elif r == 0:
                continue
            elif r == 1 and not c['c'] and c['x'] and e['t'] != 'ldml':
                x = '%s %s' % (name, draw(st.sampled_from('abc')))
                if c['x'] != UP and draw(st.integers(0, 3)) == 0:     # only a space is different
                    x = draw(st.sampled_from([c['x'] + '\u00a0', c['x'].replace(' ', '\u00a0'), c['x'].replace('\n', ' ').strip(), '\n'.join(c['x'].split('\n')[::-1]), c['x'].strip() + ' x']))
                n = dict(c, a=dict(c['a']), x=x, m=[])
                if draw(st.integers(0, 4)) == 0:        # only an attribute is different, one of no meaning
                    n.update(x=c['x'], a=dict(c['a'], zz=draw(st.sampled_from('ab'))))
                res['c'].append(n)
            elif c['c']:
                n = one(c)
                if n['c'] or (empties and draw(st.booleans())):
                    res['c'].append(n)
            else:
                res['c'].append(dict(c, a=dict(c['a']), m=[]))
        return res
    return one(doc)


def identity(doc, script=None, silscript=None, silattrs=None):
    """Give a document an identity of this script"""
    kids = [G.E('language', {'type': 'xx'})] + ([G.E('script', {'type': script})] if script else [])
    at = dict(silattrs or {})
    if silscript: at['script'] = silscript
    if at: kids.append(G.E('special', {}, None, [G.E('sil:identity', at)]))
    return dict(doc, c=[G.E('identity', {}, None, kids)] + [c for c in doc['c'] if c['t'] != 'identity'])


@st.composite
def collations(draw):
    cs = []
    for t in draw(st.lists(st.sampled_from(['standard', 'phonebook', 'search']), max_size=3, unique=True)):
        cs.append(G.E('collation', {'type': t}, None, [G.E('cr', {}, draw(st.sampled_from(['&a < b', '&c < d', '& e = f\n[strength 2]', '[strength 2]\n& e = f'])))]))
        if draw(st.booleans()):
            cs[-1]['c'].insert(0, G.E('special', {}, None, [G.E('sil:simple', {}, 'a b ' + t)]))
    return G.E('collations', {}, None, ([G.E('defaultCollation', {}, 'standard')] if draw(st.booleans()) else []) + cs)


@st.composite
def sequences(draw):
    """Two lists, the second much like the first"""
    a = draw(st.lists(st.sampled_from('abcdef'), max_size=5))
    b = list(a)
    k = draw(st.sampled_from(['order', 'order', 'in', 'out', 'change', 'any', 'same']))
    if k == 'any': b = draw(st.lists(st.sampled_from('abcdef'), max_size=5))
    elif k == 'order': b = draw(st.permutations(a))
    elif k == 'in': b.insert(draw(st.integers(0, len(b))), draw(st.sampled_from('abcdefg')))
    elif k != 'same' and b:
        i = draw(st.integers(0, len(b) - 1))
        b[i:i + 1] = ['g'] * (k == 'change')
    return [a, b] if draw(st.booleans()) else [b, a]


@st.composite
def moves(draw):
    """Lists as they were, of which one gives an element to another"""
    names = draw(st.lists(st.sampled_from(['rules', 'SentenceBreak', 'WordBreak']), min_size=2, max_size=3, unique=True))
    res = {n: [draw(st.lists(st.sampled_from('abcdef'), max_size=3))] * 2 for n in names}
    a, b = names[:2]
    if not res[a][0]: res[a] = [['a'], ['a']]
    new = [list(res[n][1]) for n in (a, b)]
    x = new[0].pop(draw(st.integers(0, len(new[0]) - 1)))
    new[1].insert(draw(st.integers(0, len(new[1]))), x)
    res[a], res[b] = [res[a][0], new[0]], [res[b][0], new[1]]
    return res


def ordered(lists):
    """A document with lists of which the order is significant"""
    kids = []
    for kind, items in lists:
        if not items and kind == 'rules':       # (a collation is taken as a whole)
            continue
        if kind == 'rules':
            els = [G.E(('reset', 'p', 's', 't')['adbcef'.find(x) % 4], {}, x) for x in items]
            kids.append(G.E('collations', {}, None, [G.E('collation', {'type': 'standard'}, None, [G.E('rules', {}, None, els)])]))
        else:
            els = [G.E('suppression', {}, x + '.') for x in items]
            n = G.E('segmentation', {'type': kind}, None, [G.E('suppressions', {'type': 'standard'}, None, els)])
            if kids and kids[-1]['t'] == 'segmentations': kids[-1]['c'].append(n)
            else: kids.append(G.E('segmentations', {}, None, [n]))
    return G.E('ldml', {}, None, [G.E('identity', {}, None, [G.E('language', {'type': 'en'})])] + kids)


def items(doc):
    """The lists of such a document"""
    res = {}
    for e in G.walk(doc):
        if e['t'] == 'segmentation': res[e['a']['type']] = [x['x'][:-1] for s in e['c'] for x in s['c'] if x['x'] is not None]
        if e['t'] == 'rules': res['rules'] = [x['x'] for x in e['c']]
    return {k: v for k, v in res.items() if v}


def same(a, b):
    """Content and key alike, drafts and alternates aside"""
    strip = lambda e: dict(e, a={k: v for k, v in e['a'].items() if k not in ('draft', 'alt')}, c=[strip(c) for c in e['c'] if 'alt' not in c['a']])
    return G.canon(strip(a)) == G.canon(strip(b))


def fill(t, o):
    """What t lacks taken from o; a collation is taken whole or not at all"""
    res = dict(t, c=list(t['c']))
    for c in o['c']:
        if c['t'] == 'identity':
            continue
        for i, x in enumerate(res['c']):
            if G.key(x) == G.key(c):
                if c['t'] != 'collation':
                    res['c'][i] = fill(x, c)
                break
        else:
            res['c'].append(c)
    return res
