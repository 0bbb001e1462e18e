"""Saved documents are in canonical order, whatever order they were written in."""
import random
from xml.etree import ElementTree as ET
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO

TZ = {}
for _n, _l in enumerate(open('/repo/lib/sldr/tzones.csv')):
    TZ[_l.split('#')[0].strip().split(',')[0].strip()] = _n


def strategy():
    docs = st.one_of(G.document(depth=4, width=5, comments=False), G.document(depth=3, width=6, comments=False, unknown=True, foreign=True),
                     G.document(depth=5, width=6, comments=False, tops=['dates', 'numbers', 'localeDisplayNames', 'special', 'collations']))
    return st.fixed_dictionaries(dict(doc=docs, usedrafts=st.booleans(), perm=st.integers(0, 1 << 30)))


def shuffled(e, rnd):
    """The same document with siblings and attributes in another order (serial siblings in theirs)"""
    kids = [shuffled(c, rnd) for c in e['c']]
    ser = [c for c in kids if c['t'] in G.SERIAL and c['t'] != 'special']
    rest = [c for c in kids if not (c['t'] in G.SERIAL and c['t'] != 'special')]
    rnd.shuffle(rest)
    for c in ser:       # spread out among the others
        pass
    cuts = sorted(rnd.randint(0, len(rest)) for _ in ser)
    out = []
    for i, r in enumerate(rest):
        out += [s for s, c in zip(ser, cuts) if c == i]
        out.append(r)
    out += [s for s, c in zip(ser, cuts) if c == len(rest)]
    at = list(e['a'].items())
    rnd.shuffle(at)
    return dict(e, c=out, a=dict(at))


def run_perm(case, ctx):
    x = IO.save(IO.load(G.to_xml(case['doc']), case['usedrafts']))
    d2 = shuffled(case['doc'], random.Random(case['perm']))
    t2 = G.to_xml(d2)
    y = IO.save(IO.load(t2, case['usedrafts']))
    ctx.nontrivial(any(len(e['c']) > 2 for e in G.walk(case['doc'])))
    ctx.label('same order' if t2 == G.to_xml(case['doc']) else 'another order')
    eq(y, x, "saved from the same content in another order")


def attkey(tag, e):
    """What the order of same-named siblings goes by, for siblings with the same attributes"""
    res = []
    for a in sorted((a for a in e['a'] if a != 'draft'), key=lambda a: G.DTD.attrank(tag, a)):
        v = e['a'][a]
        vals = G.DTD.attrs[tag].get(a)
        if tag == 'zone' and a == 'type':
            res.append(TZ[v] if v in TZ else None)
        elif vals and not (len(vals) == 1 and vals[0] in ('CDATA',)):
            res.append(vals.index(v) if v in vals else None)
        else:
            res.append(v.lower())
    return res


def run_order(case, ctx):
    if case['perm'] % 2:        # the general purpose writer, which has no order of its own, makes no difference
        call(IO.L.etwrite, ET.fromstring(G.to_xml(case['doc']).encode('utf-8')), lambda s: None)
    out = G.parse(IO.save(IO.load(G.to_xml(case['doc']), case['usedrafts'])))
    n = 0
    for e in G.walk(out):
        at = [a for a in e['a']]
        eq(at, sorted(at, key=lambda a: (G.DTD.attrank(e['t'], a), a)), "order of the attributes of {}".format(e['t']))
        kids = [c for c in e['c'] if not (c['t'] in G.SERIAL and c['t'] != 'special')]
        ranks = [G.DTD.rank(e['t'], c['t']) for c in kids]
        n = max(n, len(set(ranks)))
        check(ranks == sorted(ranks), "elements in {} are not in order: {}", e['t'], [c['t'] for c in kids])
        groups = {}
        for c in kids:
            # alternates follow what they are alternates to
            groups.setdefault(c['t'], []).append(c)
        for t, g in groups.items():
            heads, seen = [], set()
            lastkey, alts = None, []
            for c in g:
                k = G.key(c)
                if case['usedrafts'] and k == lastkey:
                    alts.append(c['a'].get('alt'))
                    check(alts == sorted(alts, key=lambda x: x or ''), "alternates of {} are not in order: {}", t, alts)
                    continue
                check(not case['usedrafts'] or k not in seen, "alternates of {} are apart", t)
                seen.add(k)
                lastkey, alts = k, []
                heads.append(c)
            for a, b in zip(heads, heads[1:]):
                sa, sb = ({x for x in y['a'] if x != 'draft'} for y in (a, b))
                if sa == sb:
                    ka, kb = attkey(t, a), attkey(t, b)
                    if None not in ka + kb:
                        ctx.label('compared values')
                        check(ka <= kb, "{} elements are not in order: {} before {}", t, a['a'], b['a'])
    # elements whose order means something are in the order they were in
    def serials(e):
        return [[(c['t'], sorted((k, v) for k, v in c['a'].items() if k != 'draft'), G.normtext(c['x']) if not c['c'] else None)
                 for c in p['c'] if c['t'] in G.SERIAL and c['t'] != 'special'] for p in G.walk(e)]
    a, b = ([l for l in serials(x) if len(l)] for x in (case['doc'], out))
    ctx.label('serial' if any(len(l) > 1 for l in a) else 'no serial')
    ctx.nontrivial(n > 2)
    eq(sorted(map(repr, b)), sorted(map(repr, a)), "elements whose order is significant")


CHECK = Check('C09', 'Canonical order',
    'Generated documents, and the same documents with siblings and attributes permuted; what is saved is compared with '
    'the order of elements, attributes and enumerated values in the shipped DTD. Non-trivial: siblings of three '
    'different tags (order), or more than two siblings somewhere (permutation).',
    [Sub('permuted', strategy, run_perm, quick=250, thorough=4000, qshards=4, tshards=8),
     Sub('order', strategy, run_order, quick=300, thorough=5000, qshards=4, tshards=8)],
    ['no two siblings differ only in the case of an attribute value; comments are left out, as they belong to what follows them'])
