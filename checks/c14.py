"""Unflattening: leaves out what can be had from the parent, all of it and nothing more."""
import copy, os, io, shutil
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO
from vp.family import *
from checks.c13 import docs, parents, FAMILIES, write, TYPES
from sldr.ldml_merge import LdmlMerge, flattenlocale


def load(doc, ud):
    return call(LdmlMerge, io.BytesIO(G.to_xml(doc).encode('utf-8')), usedrafts=ud)


def result(l):
    call(l.normalise)
    return G.parse(IO.save(l))


@st.composite
def alternates(draw, doc):
    """The document with alternates for some of its leaves"""
    def one(e):
        kids = []
        for c in e['c']:
            kids.append(one(c))
            if not c['c'] and c['x'] and c['t'] != 'sil:url' and 'alt' in G.DTD.attrs.get(c['t'], {}) and e['t'] not in ('identity', 'ldml') and draw(st.integers(0, 2)) == 0:
                for a in draw(st.lists(st.sampled_from(['proposed', 'other']), min_size=1, max_size=2, unique=True)):
                    kids.append(dict(c, a=dict(c['a'], alt=a, draft='suspect'), x=draw(st.sampled_from(['alt 1', 'alt 2']))))
        return dict(e, c=kids)
    return one(doc)


URLS = st.lists(st.sampled_from(['http://a', 'http://b', 'http://c']), min_size=1, max_size=3, unique=True).map(sorted)


@st.composite
def external(draw):
    """Fonts and keyboards with one address or several"""
    res = []
    types = draw(st.sampled_from([None, None, 'default']))     # (for the same, often)
    for k, n in draw(st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(['font', 'font', 'kbd']), st.sampled_from('AB')), min_size=1, max_size=3, unique=True))):
        a = {'name' if k == 'font' else 'id': n}
        if k == 'font' and draw(st.booleans()): a['types'] = types or draw(st.sampled_from(TYPES + ['default ui']))
        res.append(G.E('sil:' + k, a, None, [G.E('sil:url', {}, u) for u in draw(URLS)]))
    return res


@st.composite
def changed(draw, e):
    how = draw(st.integers(-1, 7))
    if how <= 0: return None
    e = copy.deepcopy(e)
    if how == 1: e['a']['types'] = draw(st.sampled_from(TYPES))
    if how in (2, 3): e['c'] = [G.E('sil:url', {}, u) for u in draw(URLS)]
    return e


@st.composite
def strategy(draw):
    d = draw(docs(['child', 'parent'], drafts=False, empties=False))
    alts = draw(st.booleans())
    ext = draw(external())
    for n in d:
        d[n] = identity(d[n], draw(st.sampled_from([None, 'Latn'])))
        if draw(st.booleans()):
            c = draw(collations())
            if c['c']: d[n]['c'].append(c)
        if ext and draw(st.integers(0, 5)):
            els = [x for x in [draw(changed(e)) for e in ext] if x]
            if els: d[n]['c'].append(G.E('special', {}, None, [G.E('sil:external-resources', {}, None, els)]))
        if alts:
            d[n] = draw(alternates(d[n]))
    flat = draw(st.booleans())
    return dict(child=d['child'], parent=d['parent'], alts=alts, flat=flat, usedrafts=alts or draw(st.booleans()))


@st.composite
def fonts(draw):
    """Nothing but fonts and keyboards"""
    ext = draw(external().filter(bool))
    res = dict(alts=False, flat=draw(st.booleans()), usedrafts=draw(st.booleans()))
    for n in ('child', 'parent'):
        els = [x for x in [draw(changed(e)) if draw(st.booleans()) else e for e in ext] if x]
        res[n] = identity(G.E('ldml', {}, None, [G.E('special', {}, None, [G.E('sil:external-resources', {}, None, els)])] if els else []))
    return res


def leaves(e, p=()):
    """Everything there is to keep, by where it is"""
    if e['t'] == 'identity':
        return {}
    res = {}
    p = p + (G.key(e) + (e['a'].get('alt'),),)
    if e['t'] == 'collation' or not e['c']:
        res[p] = G.canon(e)
    else:
        for c in e['c']:
            for q, v in leaves(c, p).items():
                if q in res:        # several addresses are one
                    v = ('', '', '', '') + tuple(sorted((res[q][4:] if res[q][0] == '' else (res[q],)) + (v,)))
                res[q] = v
    return res


def font(p):
    """Fonts stand or fall together, as a font for one thing hides those of the parent for it"""
    return any(k[0][0] == 'sil:font' if isinstance(k[0], tuple) else k[0] == 'sil:font' for k in p)


def run(case, ctx):
    ud = case['usedrafts']
    C, P = case['child'], case['parent']
    F = load(C, ud)
    if case['flat']:        # a flat document, as flattening makes them
        call(F.overlay, load(P, ud))
    F = result(F)
    l = load(F, ud)
    call(l.difference, load(P, ud))
    D = result(l)
    fl, dl, pl = leaves(F), leaves(D), leaves(P)
    ctx.nontrivial(len(dl) < len(fl) and len(dl) > 1)
    ctx.label('%d%% left' % (len(dl) * 4 // max(1, len(fl)) * 25))
    ident = lambda d: [G.canon(c) for c in d['c'] if c['t'] == 'identity']
    eq(ident(D), ident(F), "identity")
    # nothing is made up
    for p, v in dl.items():
        check(p in fl and fl[p] == v or v[3:] == ((), ()) and v[2] is None, "{} is not in the flat document, {} is", v, fl.get(p))
    # what differs from the parent is kept
    for p, v in fl.items():
        if p[-1][2] is None and pl.get(p) != v:
            check(p in dl, "{} is lost, the parent has {}", v, pl.get(p))
        elif p[-1][2] is not None and pl.get(p) != v:
            check(p in dl, "the alternate {} is lost, the parent has {}", v, pl.get(p))
    # what is the same is not
    withalts = {q[:-1] + (q[-1][:2],) for q in fl if q[-1][2] is not None}
    for p, v in fl.items():
        if pl.get(p) == v and not font(p) and not "('alt', " in repr(v[4:]) and p[:-1] + (p[-1][:2],) not in withalts:
            check(p not in dl, "{} is kept though the parent has it", v)
    # fonts that are all the parent's are not either
    for p in {q[:-n] for q in fl if font(q) for n in (1, 2) if q[-n][0] == 'sil:font'}:
        own, theirs = ({q: v for q, v in x.items() if font(q) and q[:len(p)] == p} for x in (fl, pl))
        if own == theirs and "('alt', " not in repr(own):
            for q, v in own.items():
                check(q not in dl, "{} is kept though the parent has it and all the other fonts", v)
    # flattening gives back the flat document
    l = load(D, ud)
    call(l.overlay, load(P, ud))
    again = leaves(result(l))
    whole = load(F, ud)
    call(whole.overlay, load(P, ud))
    for p, v in fl.items():
        eq(again.get(p), v, "flattened, unflattened and flattened again")
    if not case['alts']:
        # an element with nothing in it may have come to be left out altogether
        some = lambda x: {p: v for p, v in x.items() if v[2] is not None or v[1]}
        eq(some(again), some(leaves(result(whole))), "all that unflattened and flattened again has")
    # unflattening once more leaves out nothing more
    l = load(D, ud)
    call(l.difference, load(P, ud))
    d = G.diff(G.canon(D), G.canon(result(l)))
    check(d is None, "unflattened against unflattened again: {}", d)


# ---- through directories
@st.composite
def chain(draw):
    fam = draw(st.sampled_from(FAMILIES))
    have = [n for n in fam[1:] + ['root'] if draw(st.integers(0, 2))]
    ds = draw(docs([fam[0]] + have + ['decoy'], drafts=False, empties=False))
    scripts = {}
    for n in ds:
        scripts[n] = draw(st.sampled_from([None, 'Latn', 'Latn'] + ['Cyrl'] * (n != fam[0])))
    if 'root' in ds and have[0] != 'root' and draw(st.booleans()):      # a locale has again what its parent has otherwise than root
        ds[have[0]], ds[fam[0]] = draw(relative(ds['root'], have[0], p=2)), draw(relative(ds['root'], fam[0], p=6))
        scripts = {n: None for n in ds}
    for n in ds:
        ds[n] = identity(ds[n], scripts[n])
    place = {n: [draw(st.integers(0, 1)), draw(st.booleans())] for n in have + [fam[0]]}
    return dict(name=fam[0], docs=ds, scripts=scripts, place=place, decoys=[])


def flatten(name, dirs, how):
    l = call(flattenlocale, name, dirs=dirs, rev=how)
    check(l is not None, "{} is not found", name)
    return l


def run_chain(case, ctx):
    """A tree of locales flattened, unflattened and flattened again"""
    dirs, files = write(case, ctx)
    name = case['name']
    texts = {}
    for how in 'frf':
        out = {}
        for n in files:
            l = flatten(n, dirs, how)
            call(l.normalise)
            out[n] = IO.save(l)
        texts.setdefault(how, []).append(out)
        if how == 'r':      # on request, what has nothing left but its identity is not there
            for n in files:
                l = call(flattenlocale, n, dirs=dirs, rev='r', skipstubs=True)
                eq(l is None, [c['t'] for c in G.parse(out[n])['c']] == ['identity'], "{} is taken for a stub".format(n))
        # all are flat at once, and unflattened from flat parents
        for n, f in files.items():
            with open(f, 'w', encoding='utf-8') as fh:
                fh.write(out[n])
    flat, again = texts['f']
    thin = texts['r'][0]
    inherits = {n: [p for p in parents(n) if p in files and case['scripts'][p] in (None, case['scripts'][n])] for n in files}

    def consistent(n):
        """what it inherits is all that its parent inherits, which a script in between may prevent"""
        return not inherits[n] or (inherits[inherits[n][0]] == inherits[n][1:] and consistent(inherits[n][0]))
    ok = [n for n in files if consistent(n)]
    ctx.nontrivial(any(thin[n] != flat[n] for n in ok))
    ctx.label('all' if len(ok) == len(files) else 'some')
    for n in ok:
        F, A, T = (leaves(G.parse(x[n])) for x in (flat, again, thin))
        for p, v in F.items():
            eq(A.get(p), v, "{} flattened, unflattened and flattened again".format(n))
        for p, v in A.items():
            check(p in F or (v[2] is None and not v[1]), "{} has come to {}", v, n)
        near = inherits[n]
        if near:
            pl = leaves(G.parse(flat[near[0]]))
            for p, v in T.items():
                check(pl.get(p) != v or v[2] is None or font(p), "{} is kept though {} has it", v, near[0])
        else:
            eq(T, F, "with no parent there is nothing to leave out")


# ---- lists of which the order is significant
def ordereds():
    return st.fixed_dictionaries(dict(lists=moves() | st.dictionaries(st.sampled_from(['rules', 'SentenceBreak', 'WordBreak']), sequences(), min_size=1, max_size=3), flat=st.booleans(), usedrafts=st.booleans()))


def run_ordered(case, ctx):
    """Such a list is left out if it is that of the parent, in the same order, and is kept as it is if not"""
    docs = [ordered([[k, s[i]] for k, s in sorted(case['lists'].items())]) for i in (0, 1)]
    own, theirs = (items(d) for d in docs)
    L = lambda d: load(d, case['usedrafts'])
    ctx.nontrivial(any(own.get(k) != v for k, v in theirs.items()) and any(len(v) > 1 for v in own.values()))
    flat = L(docs[0])
    call(flat.overlay, L(docs[1]))
    flat = result(flat)
    eq(items(flat), dict(theirs, **own), "flattened")
    l = L(flat if case['flat'] else docs[0])
    call(l.difference, L(docs[1]))
    thin = result(l)
    eq(items(thin), {k: v for k, v in own.items() if theirs.get(k) != v}, "unflattened")
    l = L(thin)
    call(l.overlay, L(docs[1]))
    eq(items(result(l)), items(flat), "unflattened and flattened again")


CHECK = Check('C14', 'Unflattening',
    'Pairs of related documents, the first flat over the second or not, with alternates and collations: what differs is '
    'kept, what is the same is left out, and flattening gives everything back. Whole trees of locales flattened, '
    'unflattened and flattened again. Non-trivial: something is left out and something is kept.',
    [Sub('pair', strategy, run, quick=170, thorough=5000, qshards=5, tshards=8),
     Sub('fonts', fonts, run, quick=300, thorough=8000, qshards=2, tshards=8),
     Sub('tree', chain, run_chain, quick=90, thorough=2000, qshards=3, tshards=8),
     Sub('ordered', ordereds, run_ordered, quick=300, thorough=5000, qshards=2, tshards=8)],
    [])
