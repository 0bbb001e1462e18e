"""Three-way merging: every change one side made is taken, and nothing else changes."""
import copy, re
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO
from vp.family import sequences, moves, ordered, items
from sldr.ldml_merge import LdmlMerge
import io

CONT = {'ldml': ['dates', 'numbers', 'characters', 'listPatterns', 'localeDisplayNames', 'units', 'posix', 'delimiters', 'layout']}


def plain(doc):
    """Without the mark of an inherited value (such elements are not loaded)"""
    for e in G.walk(doc):
        if e['x'] and e['x'].strip() == '\u2191\u2191\u2191':
            e['x'] = 'up'
    return doc


def load(doc, ud, winner=None):
    return call(LdmlMerge, io.BytesIO(G.to_xml(doc).encode('utf-8')), usedrafts=ud, winner=winner)


def finish(l, ud):
    """As the merging command ends"""
    call(l.normalise)
    call(l.normalise, usedrafts=ud)
    return IO.save(l)


def same(text, want, what, ud):
    if ud:
        want = G.strip_drafts(want, G.default_draft(want))
    d = G.diff(G.canon(want), G.canon(G.parse(text)))
    check(d is None, "{}: wanted against merged: {}", what, d)
    eq(G.comments_of(text), [], "{}: comments".format(what))


def spots(doc):
    """Leaves that can be edited, as paths"""
    res = []

    def walk(e, p):
        for i, c in enumerate(e['c']):
            if not c['c'] and c['t'] not in G.SERIAL and e['t'] not in ('identity', 'ldml') and not c['t'].startswith('sil:identity'):
                res.append(p + [i])
            walk(c, p + [i])
    walk(doc, [])
    return res


def everything(doc):
    """All elements but those of the identity, as paths"""
    res = []

    def walk(e, p):
        for i, c in enumerate(e['c']):
            if c['t'] != 'identity':
                res.append(p + [i])
                walk(c, p + [i])
    walk(doc, [])
    return res


@st.composite
def addition(draw, name):
    """Containers both sides may add, with contents by which they differ"""
    kind = draw(st.sampled_from(['chars', 'lang', 'deep']))
    if kind == 'chars':
        return [['characters', {}], ['exemplarCharacters', {'type': name}]]
    if kind == 'lang':
        return [['localeDisplayNames', {}], ['languages', {}], ['language', {'type': name}]]
    return [['dates', {}], ['calendars', {}], ['calendar', {'type': draw(st.sampled_from(['gregorian', 'buddhist']))}],
            ['months', {}], ['monthContext', {'type': draw(st.sampled_from(['format', 'stand-alone']))}],
            ['monthWidth', {'type': 'wide'}], ['month', {'type': name}]]


@st.composite
def strategy(draw):
    doc = plain(draw(G.document(serial=False, drafts=False, alts=False, comments=False, depth=draw(st.integers(2, 4)), width=draw(st.integers(2, 5)))))
    if draw(st.booleans()):     # elements with attributes that do not tell them apart
        doc['c'] = [c for c in doc['c'] if c['t'] != 'delimiters']
        doc['c'].append(G.E('delimiters', {}, None, [G.E('special', {}, None, [G.E('sil:quotation-marks', {}, None,
            [G.E('sil:quotation', {'level': str(i), 'open': '<', 'close': '>', 'continue': '|'}) for i in draw(st.sets(st.integers(1, 3), min_size=1))])])]))
    edits = []
    for p in spots(doc):
        k = draw(st.sampled_from([None, None, 'text', 'text', 'del', 'add']))
        if k:
            edits.append([p, k, draw(st.sampled_from(['new1', 'new2', 'two\nlines', 'lines\ntwo'])), draw(st.booleans())])
            if k == 'text' and draw(st.integers(0, 3)) == 0 and at(doc, p)['t'] in G.DTD.pcdata:     # only the order of its lines is changed
                at(doc, p)['x'] = 'lines\ntwo' if edits[-1][2] == 'two\nlines' else 'two\nlines'
    if draw(st.booleans()):     # attributes the DTD knows nothing of
        edited = [e[0] for e in edits]
        for p in everything(doc):
            if p in edited:
                continue
            k = draw(st.sampled_from([None, None, 'base', 'base', 'attr']))
            if k == 'base':
                at(doc, p)['a']['zz'] = 'old'
                k = draw(st.sampled_from([None, 'attr']))
            if k:
                edits.append([p, k, draw(st.sampled_from([None, 'new1', 'new2'])), draw(st.booleans())])
    adds = []
    for n in range(draw(st.integers(0, 3))):
        adds.append([draw(addition('N%d' % n)), 'tree', 'text %d' % n, draw(st.booleans())])
    return dict(doc=doc, edits=edits, adds=adds, usedrafts=draw(st.booleans()))


def at(d, p):
    for i in p:
        d = d['c'][i]
    return d


def nokids(e):
    return not e['c'] and e['t'] in ('special',)


def apply(doc, eds):
    d = copy.deepcopy(doc)
    dels = []
    for p, k, v, side in eds:
        if k == 'tree':
            e = d
            for t, a in p:
                f = [c for c in e['c'] if c['t'] == t and G.key(c) == G.key(G.E(t, a))]
                if not f:
                    f = [G.E(t, a)]
                    e['c'] += f
                    e['x'] = None
                e = f[0]
            e['x'] = v
            continue
        e = at(d, p)
        if k == 'text':
            if e['t'] == 'sil:quotation':
                e['a']['open' if side else 'close'] = v
            elif e['t'] in G.DTD.pcdata:
                e['x'] = v
        elif k == 'attr':
            e['a'].pop('zz', None)
            if v: e['a']['zz'] = v
        elif k == 'add':
            ka = [a for a in G.keyattrs(e['t']) if not G.DTD.attrs[e['t']][a]]
            if ka:
                n = copy.deepcopy(e)
                n['a'][ka[0]] = 'NEW%d%s' % (p[-1], side)
                at(d, p[:-1])['c'].append(n)
        elif k == 'del':
            dels.append(p)
    for p in sorted(dels, reverse=True):
        if not at(d, p)['c']:       # something was added to it: that stays
            del at(d, p[:-1])['c'][p[-1]]
    return d


def run(case, ctx):
    A, ud = case['doc'], case['usedrafts']
    eds = case['edits'] + case['adds']
    X, Y = [e for e in eds if e[3]], [e for e in eds if not e[3]]
    AX, AY, AXY = apply(A, X), apply(A, Y), apply(A, X + Y)
    for e in eds: ctx.label(e[1])
    ctx.nontrivial(X and Y)
    ctx.label('both sides' if X and Y else 'one side' if X or Y else 'no change')
    L = lambda d: load(d, ud)

    def merged(t, o, b, want, what, winner=None):
        l = load(t, ud, winner)
        r = call(l.merge, L(o), L(b))
        s = finish(l, ud)
        same(s, want, what, ud)
        if not r:
            # what reports no changes made none
            same(s, t, "{}, reported as unchanged".format(what), ud)
        return r
    r = merged(A, A, A, A, 'nothing changed')
    check(not r, "merging identical documents reports a change")
    merged(A, AY, A, AY, 'only the other side changed')
    r = merged(AX, A, A, AX, 'only this side changed')
    merged(AY, AY, A, AY, 'both sides made the same change')
    merged(AX, AY, A, AXY, 'changes in different places')
    merged(AY, AX, A, AXY, 'changes in different places, the other way')


# ---- without a common ancestor
def union(a, b):
    """Everything in either; where both have an element, what is in either of it"""
    res = dict(a, c=list(a['c']))
    for o in b['c']:
        for i, t in enumerate(res['c']):
            if G.key(t) == G.key(o):
                res['c'][i] = union(t, o)
                break
        else:
            res['c'].append(o)
    return res


def run_union(case, ctx):
    """With no common ancestor everything either side has is there"""
    A, ud = case['doc'], case['usedrafts']
    eds = [e for e in case['edits'] + case['adds'] if e[1] not in ('text', 'attr')]
    X, Y = [e for e in eds if e[3]], [e for e in eds if not e[3]]
    AX, AY = apply(A, X), apply(A, Y)
    ctx.nontrivial(X and Y)
    l = load(AX, ud)
    call(l.merge, load(AY, ud), None)
    same(finish(l, ud), union(AX, AY), 'no common ancestor', ud)


# ---- both sides change the same thing, and deletion against change
@st.composite
def clashes(draw):
    doc = plain(draw(G.document(serial=False, drafts=False, alts=False, comments=False, depth=3, width=4)))
    return dict(doc=doc, usedrafts=draw(st.booleans()), pick=draw(st.integers(0, 1000)), winner=draw(st.sampled_from([None, 'other', 'this'])),
                kind=draw(st.sampled_from(['text', 'text', 'del-this', 'del-other', 'attr-both', 'attr-del-this'])))


def run_clash(case, ctx):
    A, ud = case['doc'], case['usedrafts']
    sp = [p for p in spots(A) if at(A, p)['t'] in G.DTD.pcdata and at(A, p)['x'] and at(A, p)['x'].strip()]
    if not sp:
        return
    p = sp[case['pick'] % len(sp)]
    others = [q for q in sp if q != p and q[:-1] != p[:-1]]
    ex = [[others[0], 'text', 'else1', True]] if others else []
    ey = [[others[-1], 'text', 'else2', False]] if len(others) > 1 else []
    ctx.nontrivial(bool(ex))
    ctx.label(case['kind'])
    kind = case['kind']
    if kind.startswith('attr'):
        return run_clash_attr(case, ctx, p, ex, ey)
    T = apply(A, ex + [[p, 'del' if kind == 'del-this' else 'text', 'mine', True]])
    O = apply(A, ey + [[p, 'del' if kind == 'del-other' else 'text', 'theirs', False]])
    # (which text is to win is for texts not told apart)
    l = load(T, ud, case['winner'] if kind != 'text' else None)
    call(l.merge, load(O, ud), load(A, ud))
    s = finish(l, ud)
    comments = G.comments_of(s)
    got = G.canon(G.parse(s))
    if kind == 'text':
        # this side's stays, with a note of what it clashed with
        want = apply(A, ex + ey + [[p, 'text', 'mine', True]])
        check(any('mine' in c and 'theirs' in c for c in comments), "no note of a clash: {}", comments)
        eq(len(comments), 1, "notes of one clash")
    elif kind == 'del-this':
        want = apply(A, ex + ey + [[p, 'text', 'theirs', True]])
        eq(comments, [], "comments")
    else:
        want = apply(A, ex + ey + [[p, 'del' if case['winner'] == 'other' else 'text', 'mine', True]])
        eq(comments, [], "comments")
    d = G.diff(G.canon(want), got)
    check(d is None, "{}: wanted against merged: {}", kind, d)


def run_clash_attr(case, ctx, p, ex, ey):
    """Of an attribute changed there the change is taken if it is removed here, and noted if it is changed here"""
    A, both = copy.deepcopy(case['doc']), case['kind'] == 'attr-both'
    at(A, p)['a']['zz'] = 'old'
    mine = [[p, 'attr', 'mine' if both else None, True]]
    l = load(apply(A, ex + mine), case['usedrafts'], case['winner'])
    r = call(l.merge, load(apply(A, ey + [[p, 'attr', 'theirs', False]]), case['usedrafts']), load(A, case['usedrafts']))
    s = finish(l, case['usedrafts'])
    comments = G.comments_of(s)
    if both:
        check(len(comments) == 1 and 'mine' in comments[0] and 'theirs' in comments[0], "no note of a clash: {}", comments)
        want = apply(A, ex + ey + mine)
    else:
        check(r, "taking a change is not reported")
        eq(comments, [], "comments")
        want = apply(A, ex + ey + [[p, 'attr', 'theirs', True]])
    d = G.diff(G.canon(want), G.canon(G.parse(s)))
    check(d is None, "{}: wanted against merged: {}", case['kind'], d)


# ---- elements nothing tells apart but what is in them
@st.composite
def lists(draw):
    names = draw(st.lists(st.sampled_from('abcdefgh'), min_size=1, max_size=6, unique=True))
    sub = lambda: draw(st.lists(st.sampled_from(names + ['new1', 'new2', 'new3']), max_size=6, unique=True))
    base = sub()
    k = draw(st.sampled_from(['any', 'any', 'one', 'order', 'apart']))
    new2 = draw(st.lists(st.sampled_from(base), max_size=3, unique=True)) if k == 'apart' and base else sub()
    if k == 'any' or not base:
        new = sub()
    elif k == 'apart':      # nothing of it is as it was
        new = draw(st.lists(st.sampled_from(['new1', 'new2', 'new3', 'new4']), min_size=1, max_size=4, unique=True))
    elif k == 'order':
        new = draw(st.permutations(base))
    else:
        new = list(base)
        new[draw(st.integers(0, len(new) - 1))] = 'new'
    return dict(base=base, new=new, new2=new2, usedrafts=draw(st.booleans()), keep=draw(st.booleans()), kind=draw(st.sampled_from(['sil:url', 'special'])))


def listdoc(case, items):
    if case['kind'] == 'special':
        els = [G.E('special', {}, None, [G.E('sil:external-resources', {}, None, [G.E('sil:sampletext', {}, x)])]) for x in items]
        return G.E('ldml', {}, None, [G.E('identity', {}, None, [G.E('language', {'type': 'en'})]), G.E('characters', {}, None, els + [G.E('exemplarCharacters', {}, '[a]')])])
    els = [G.E('sil:url', {}, 'http://x/' + x) for x in items]
    f = [G.E('sil:font', {'name': 'F'}, None, els)] if items or case['keep'] else []
    return G.E('ldml', {}, None, [G.E('identity', {}, None, [G.E('language', {'type': 'en'})]), G.E('special', {}, None, [G.E('sil:external-resources', {}, None, f + [G.E('sil:font', {'name': 'G'})])])])


def run_lists(case, ctx):
    """What only one side changed of a list is taken; order is not told apart"""
    B, N, ud = listdoc(case, case['base']), listdoc(case, case['new']), case['usedrafts']
    ctx.nontrivial(set(case['base']) != set(case['new']) and len(case['base']) > 1)
    ctx.label(case['kind'])

    def texts(l):
        return sorted(e['x'] for e in G.walk(G.parse(finish(l, ud))) if e['t'] in ('sil:url', 'sil:sampletext'))
    want = {n: sorted(('http://x/' if case['kind'] == 'sil:url' else '') + x for x in case[n]) for n in ('base', 'new')}
    for t, o, b, w, what in ((B, N, B, 'new', 'only the other side changed'), (N, B, B, 'new', 'only this side changed'),
                             (N, N, B, 'new', 'both made the same change'), (B, B, B, 'base', 'nothing changed')):
        l = load(t, ud)
        r = call(l.merge, load(o, ud), load(b, ud))
        eq(texts(l), want[w], what)
        if what != 'only the other side changed':
            check(not r, "{}, but a change is reported", what)
        else:
            check(r or sorted(case['base']) == sorted(case['new']), "a change is not reported")
    if case['kind'] == 'special':       # nothing is made up of two sides' changes, and what both have is kept
        l = load(N, ud)
        call(l.merge, load(listdoc(case, case['new2']), ud), load(B, ud))
        got = set(texts(l))
        all_ = [set(case[n]) for n in ('base', 'new', 'new2')]
        check(got <= all_[1] | all_[2], "made up: {}", got)
        check(got >= all_[0] & all_[1] & all_[2], "lost though on both sides: {}", got)
    if case['kind'] == 'sil:url' and max(len(case[n]) for n in ('base', 'new', 'new2')) > 1:
        # both sides have their own changes
        b, x, y = (set(case[n]) for n in ('base', 'new', 'new2'))
        if case['keep'] or b and x and y:       # (a font left out has no list to merge)
            l = load(N, ud)
            call(l.merge, load(listdoc(case, case['new2']), ud), load(B, ud))
            eq(texts(l), sorted('http://x/' + n for n in (x & y) | (x - b) | (y - b)), "both sides changed")


# ---- drafts
TEXTS = {'b': 'base', 't': 'mine', 'o': 'theirs'}


def drafts():
    v = lambda own: st.one_of(st.none(), st.tuples(st.sampled_from(['base', own, own, own]), st.one_of(st.none(), st.sampled_from(G.DRAFTS))).map(list))
    return st.fixed_dictionaries(dict(leaves=st.lists(st.tuples(st.tuples(st.just('base'), st.one_of(st.none(), st.sampled_from(G.DRAFTS))).map(list), v('mine'), v('theirs')).map(list), min_size=1, max_size=4),
                                      dd=st.sampled_from([None, 'approved', 'unconfirmed', 'suspect']), default=st.sampled_from([None, 'proposed', 'unconfirmed', 'approved'])))


def leafdoc(case, n):
    ident = G.E('identity', {}, None, [G.E('special', {}, None, [G.E('sil:identity', {'draft': case['dd']} if case['dd'] else {})])])
    els = [G.E('language', {k: v for k, v in (('type', 'l%d' % i), ('draft', x[n][1])) if v}, '%s %d' % (x[n][0], i)) for i, x in enumerate(case['leaves']) if x[n]]
    return G.E('ldml', {}, None, [ident, G.E('localeDisplayNames', {}, None, [G.E('languages', {}, None, els), G.E('localeDisplayPattern', {}, None, [G.E('localePattern', {}, 'x')])])])


def run_drafts(case, ctx):
    """A text changed by one side is in front, or an alternate, or in the note of a clash"""
    b, t, o = (load(leafdoc(case, n), True) for n in range(3))
    call(t.merge, o, b, default=case['default'])
    s = finish(t, True)
    doc = G.parse(s)
    dd = case['dd'] or 'unconfirmed'
    comments = G.comments_of(s)
    for i, (bv, tv, ov) in enumerate(case['leaves']):
        els = [e for e in G.walk(doc) if e['t'] == 'language' and e['a'].get('type') == 'l%d' % i]
        texts = [e['x'] for e in els]
        notes = " ".join(c for c in comments)
        name = lambda v: '%s %d' % (v[0], i) if v else None
        changed = [v for v in (tv, ov) if v and v[0] != 'base']
        if len(changed) > 1: ctx.label('clash')
        for v in changed:
            ctx.nontrivial(v[1] is not None)
            check(name(v) in texts or name(v) in notes, "{} of {} is in none of {} {}", name(v), [bv, tv, ov], texts, comments)
        check(all(x in [name(v) for v in (bv, tv, ov) if v] for x in texts), "{} from {}", texts, [bv, tv, ov])
        eq(len([e for e in els if 'alt' not in e['a']]), 1 if els else 0, "elements in front")
        if bv and tv and tv[0] != 'base' and G.rating(bv[1], dd) < G.rating(tv[1], dd) and not (ov and ov[0] == 'base'):
            pass
        # unchanged by either, or deleted by one and unchanged by the other
        if tv and ov and tv[0] == ov[0] == 'base':
            eq(texts, [name(bv)], "an element nobody changed")
        if (tv is None and ov and ov[0] == 'base') or (ov is None and tv and tv[0] == 'base') or (tv is None and ov is None):
            eq(texts, [], "an element one side removed")
    eq([e['x'] for e in G.walk(doc) if e['t'] == 'localePattern'], ['x'], "an element nobody changed")


# ---- alternates, and changes of nothing but the draft
ALTS = ['proposed', 'proposed-x', 'short', 'variant']
better = lambda d: st.sampled_from(G.DRAFTS[:G.DRAFTS.index(d) + 1])


@st.composite
def part(draw, name, front):
    """A text and its draft: as it was, as this side and as the other side has it, and as it is to be"""
    val = lambda x, d: [x, d]
    b = val('base ' + name, draw(st.sampled_from(G.DRAFTS))) if front or draw(st.integers(0, 2)) else None
    who = draw(st.sampled_from([None, None, 'this', 'other', 'same', 'clash'][:5 if front else 6]))
    if b is None:
        one, two = (val(n + name, draw(st.sampled_from(G.DRAFTS))) for n in ('new ', 'newer '))
    else:
        d = draw(better(b[1]))
        one = draw(st.sampled_from([None, val('new ' + name, d), val('new ' + name, d), val(b[0], draw(st.sampled_from(G.DRAFTS)) if front else d)]))
        two = val('newer ' + name, draw(better(b[1])))
        if one is None and front:
            one = val(b[0], b[1])
    if who is None: return [b, b, b, [b]]
    if who == 'clash':      # the better draft, either of the same
        if one is None: return [b, one, two, [two]]
        r = [G.rating(x[1], None) for x in (one, two)]
        if draw(st.booleans()):
            one, two, r = two, one, r[::-1]
        if b and one[0] == b[0] or b and two[0] == b[0]:    # of a text changed and a draft, one or the other
            return [b, one, two, [one, two]]
        return [b, one, two, [one] if r[0] < r[1] else [two] if r[1] < r[0] else [one, two]]
    return [b, b if who == 'other' else one, b if who == 'this' else one, [one]]


@st.composite
def alternates(draw):
    leaves = []
    for i in range(draw(st.integers(1, 3))):
        names = draw(st.lists(st.sampled_from(ALTS), max_size=3, unique=True))
        leaves.append({'': draw(part('%d' % i, True)), **{n: draw(part('%d%s' % (i, n), False)) for n in names}})
    gone = draw(st.sampled_from([None, None, None, 'this', 'other', 'both', 'new']))
    if gone:                # a whole element removed, or new
        names = draw(st.lists(st.sampled_from(ALTS), max_size=2, unique=True))
        v = {n: ['gone %s' % (n or 'x'), draw(st.sampled_from(G.DRAFTS))] for n in [''] + names}
        leaves.append({n: [None, x, None, [x]] if gone == 'new' else [x, None if gone != 'other' else x, None if gone != 'this' else x, [None]] for n, x in v.items()})
    return dict(leaves=leaves, elsewhere=draw(st.sampled_from(['', 'this', 'other', 'both'])), near=draw(st.booleans()), swap=draw(st.booleans()))


def altdoc(case, n):
    els = []
    for i, x in enumerate(case['leaves']):
        for k in x:
            v = x[k][n]
            if v: els.append(G.E('language', {a: w for a, w in (('type', 'l%d' % i), ('alt', k), ('draft', v[1])) if w}, v[0]))
    e = case['elsewhere']
    near = [G.E('script' if not case['near'] else 'language', {'type': 'y' + s}, 'changed' if n and e in (m, 'both') and n == k else 'not')
            for s, m, k in (('t', 'this', 1), ('o', 'other', 2))]
    return G.E('ldml', {}, None, [G.E('identity', {}, None, [G.E('language', {'type': 'en'})]),
        G.E('localeDisplayNames', {}, None, [G.E('languages', {}, None, els + (near if case['near'] else [])), G.E('scripts', {}, None, [] if case['near'] else near),
                                             G.E('codePatterns', {}, None, [G.E('codePattern', {'type': 'language'}, 'x')])])])


def run_alternates(case, ctx):
    """Alternates are merged as what they are alternates to, each by its name; a draft is a change too"""
    parts = [p for x in case['leaves'] for p in x.values()]
    ctx.nontrivial(any(p[0] != p[1] for p in parts) and any(p[0] != p[2] for p in parts))
    s = (2, 1) if case['swap'] else (1, 2)
    docs = {n: altdoc(case, n) for n in range(3)}
    for what, t, o, b in [('both', s[0], s[1], 0), ('this only', s[0], 0, 0), ('other only', 0, s[1], 0), ('the same', s[0], s[0], 0), ('none', s[0], s[0], s[0])]:
        l = load(docs[t], True)
        before = IO.save(load(docs[t], True))
        r = call(l.merge, load(docs[o], True), load(docs[b], True))
        text = finish(l, True)
        doc = G.parse(text)
        eq(G.comments_of(text), [], what + ": comments")
        for i, x in enumerate(case['leaves']):
            got = {e['a'].get('alt', ''): [e['x'], e['a'].get('draft', 'unconfirmed')] for e in G.walk(doc) if e['t'] == 'language' and e['a'].get('type') == 'l%d' % i}
            for k, p in x.items():
                want = p[3] if what == 'both' else [p[o if what == 'other only' else t]]
                check(got.get(k) in want, "{}: {} {}: {} where {} is due of {}", what, i, k, got.get(k), want, p)
            check(set(got) <= set(x), "{}: made up: {}", what, got)
        for n, m in (('yt', 1), ('yo', 2)):
            v = [e['x'] for e in G.walk(doc) if e['a'].get('type') == n]
            sides = {'both': {1, 2}, 'this only': {t}, 'other only': {o}}.get(what, {t})
            eq(v, ['changed' if m in sides and case['elsewhere'] in (('this', 'other')[m - 1], 'both') else 'not'], what + ": elsewhere")
        if what in ('this only', 'the same', 'none'):
            check(not r, "{}: a change is reported", what)
        elif not r:
            eq(text, finish(load(docs[t], True), True), what + ", reported as unchanged")


# ---- lists of which the order is significant
def ordereds():
    side = st.sampled_from(['this', 'other', 'both'])
    moved = st.tuples(moves(), side).map(lambda x: {k: [v, x[1]] for k, v in x[0].items()})
    return st.fixed_dictionaries(dict(lists=moved | st.dictionaries(st.sampled_from(['rules', 'SentenceBreak', 'WordBreak']), st.tuples(sequences(), st.sampled_from(['this', 'other', 'both', 'none'])).map(list), min_size=1, max_size=3),
                                      usedrafts=st.booleans()))


def run_ordered(case, ctx):
    """A list of which only one side changed anything is that side's, in order"""
    pick = lambda sides: ordered([[k, s[who in sides]] for k, (s, who) in sorted(case['lists'].items())])
    B, T, O = pick(()), pick(('this', 'both')), pick(('other', 'both'))
    want = items(pick(('this', 'other', 'both')))
    ctx.nontrivial(any(s[0] != s[1] and len(s[0]) > 1 for s, who in case['lists'].values() if who != 'none'))
    for what, t, o, w in (('both sides', T, O, want), ('the other way', O, T, want), ('only this side', T, B, items(T)), ('only the other side', B, O, items(O)), ('the same', O, O, items(O))):
        l = load(t, case['usedrafts'])
        r = call(l.merge, load(o, case['usedrafts']), load(B, case['usedrafts']))
        text = finish(l, case['usedrafts'])
        eq(items(G.parse(text)), w, what)
        eq(G.comments_of(text), [], what + ": comments")


CHECK = Check('C12', 'Three-way merging',
    'A generated document and two sets of edits to different places of it (texts, attributes, added and removed '
    'elements, whole added containers): merging gives exactly both. Conflicting edits, removal against change, merging '
    'without an ancestor, and drafts. Non-trivial: both sides have edits; a draft is involved.',
    [Sub('laws', strategy, run, quick=250, thorough=2000, qshards=4, tshards=8),
     Sub('union', strategy, run_union, quick=300, thorough=3000, qshards=2, tshards=8),
     Sub('clash', clashes, run_clash, quick=300, thorough=3000, qshards=2, tshards=8),
     Sub('lists', lists, run_lists, quick=400, thorough=5000, qshards=2, tshards=8),
     Sub('alternates', alternates, run_alternates, quick=300, thorough=5000, qshards=3, tshards=8),
     Sub('ordered', ordereds, run_ordered, quick=300, thorough=5000, qshards=2, tshards=8),
     Sub('drafts', drafts, run_drafts, quick=250, thorough=5000, qshards=2, tshards=8)],
    ['of a list in significant order only one side changes anything', 'changes to what tells elements apart are additions and removals'])
