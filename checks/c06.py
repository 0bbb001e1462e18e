"""Loading and saving a document reaches a fixed point at once, and saving is repeatable."""
import glob
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO


ALTERED = ['localeDisplayNames', 'characters', 'delimiters', 'numbers', 'posix', 'listPatterns']


def several(doc):
    """An element that has two children or more with alternates"""
    for e in G.walk(doc):
        if len({(c['t'], tuple(sorted((k, v) for k, v in c['a'].items() if k not in ('alt', 'draft')))) for c in e['c'] if 'alt' in c['a']}) > 1:
            return True
    return False


def strategy():
    docs = st.one_of(G.document(depth=3, width=3, lists=True), G.document(depth=5, width=3, unknown=True, foreign=True, lists=True), G.document(depth=3, width=5, drafts=False),
                     G.document(depth=4, width=6, manyalts=True, lists=True, tops=ALTERED))
    return st.fixed_dictionaries(dict(doc=docs, usedrafts=st.booleans(), topns=st.booleans(), uparrows=st.booleans(),
                                      cdata=st.booleans(), lowns=st.booleans(), file=st.booleans()))


def cycle(text, case, ctx):
    ud, tn, ua = case['usedrafts'], case['topns'], case['uparrows']
    one = IO.load(text, ud, ua)
    s1 = IO.save(one, topns=tn)
    eq(IO.save(one, topns=tn), s1, "saving the same document twice")
    two = IO.load(s1, ud, ua)
    eq(IO.save(two, topns=tn), s1, "saving what was loaded from a saved document")
    # normalising once more is no change, nor is a look at the other layout
    call(two.normalise, usedrafts=ud)
    IO.save(two, topns=not tn)
    eq(IO.save(two, topns=tn), s1, "saving after normalising again")
    if case['file']:
        import os
        fn, fn2 = ctx.path('a.xml'), ctx.path('b.xml')
        with open(fn, 'wb') as f:
            f.write(text.encode('utf-8'))
        l = call(IO.L.Ldml, fn, usedrafts=ud, uparrows=ua)
        call(l.save_as, fn2, topns=tn)
        got = open(fn2, encoding='utf-8', newline='').read()
        os.remove(fn)
        os.remove(fn2)
        eq(got, s1, "saved to a file")
    # either layout of the namespaces reads back as the same document
    other = IO.load(IO.save(IO.load(text, ud, ua), topns=not tn), ud, ua)
    eq(IO.save(other, topns=tn), s1, "saving after going through the other namespace layout")


def run(case, ctx):
    els = list(G.walk(case['doc']))
    ctx.nontrivial(len(els) > 8)
    ctx.label('alternates' if any('alt' in e['a'] for e in els) else 'no alternates')
    ctx.label('several with alternates' if several(case['doc']) else 'one or none with alternates')
    ctx.label('sil' if any(e['t'].startswith('sil:') for e in els) else 'no sil')
    ctx.label('lines' if any(e['x'] and '\n' in e['x'] for e in els) else 'no lines')
    cycle(G.to_xml(case['doc'], cdata=case['cdata'], lowns=case['lowns']), case, ctx)


def shipped():
    return [dict(fname=f, usedrafts=u, topns=t, uparrows=False, file=True)
            for f in sorted(glob.glob('/repo/tests/sldr/*.xml')) for u in (True, False) for t in (True, False)]


def run_shipped(case, ctx):
    ctx.nontrivial()
    cycle(open(case['fname'], encoding='utf-8').read(), case, ctx)


CHECK = Check('C06', 'Saving is a fixed point',
    'Documents generated from the shipped DTD (all its elements, drafts, alternates, comments, multi-line text, '
    'attribute values with XML-special characters, CDATA, namespace declarations high or low) and the documents in the '
    'repository. Non-trivial: more than eight elements.',
    [Sub('fixpoint', strategy, run, quick=220, thorough=3000, qshards=7, tshards=8),
     Sub('shipped', None, run_shipped, fixed=shipped, qshards=1, tshards=1)],
    ['comments after the root element are outside the generated domain'])
