"""Alternates: the best draft is in front and none is lost, through any history of edits."""
from collections import Counter
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO

PATHS = [('characters/exemplarCharacters', 'characters', 'exemplarCharacters', {}),
         ('characters/exemplarCharacters[@type="index"]', 'characters', 'exemplarCharacters', {'type': 'index'}),
         ('localeDisplayNames/languages/language[@type="aa"]', 'languages', 'language', {'type': 'aa'}),
         ('special/sil:external-resources/sil:font[@name="F"]/sil:url', 'sil:font', 'sil:url', {})]
ALTS = [None, 'proposed', 'x', 'short']
# what may stand beside them, before and after
AROUND = [([], [('ellipsis', {'type': 'final'}), ('ellipsis', {'type': 'initial'})]),
          ([('exemplarCharacters', {}), ('exemplarCharacters', {'type': 'auxiliary'})], [('exemplarCharacters', {'type': 'punctuation'})]),
          ([('language', {'type': 'a'})], [('language', {'type': 'ab'}), ('language', {'type': 'zz'})]),
          ([], [])]
TEXTS = ['t%d' % i for i in range(6)]


@st.composite
def strategy(draw):
    dd = draw(st.sampled_from(['unconfirmed', 'approved', 'suspect', None]))
    drafts = [d for d in G.DRAFTS if d != (dd or 'unconfirmed')]
    draft = st.sampled_from(drafts)
    init = []
    for a in draw(st.lists(st.sampled_from([None, 'proposed', 'x', 'z-proposed', 'short']), unique=True, max_size=4)):
        init.append([a, draw(st.one_of(st.none(), draft)), draw(st.sampled_from(TEXTS))])
    op = st.one_of(
        st.tuples(st.just('ensure'), st.one_of(st.none(), draft), st.sampled_from(ALTS), st.sampled_from([None, None, 'draft', 'alt', 'both']),
                  st.one_of(st.none(), st.sampled_from(TEXTS))),
        st.tuples(st.just('ensure'), st.one_of(st.none(), draft), st.sampled_from(ALTS), st.none(), st.sampled_from(TEXTS)),
        st.tuples(st.just('change'), st.integers(0, 5), draft, st.sampled_from(ALTS)),
        st.tuples(st.just('remove'), st.sampled_from([None, 'alt', 'draft']), st.sampled_from(ALTS), draft),
        st.tuples(st.just('reload')), st.tuples(st.just('normalise')))
    return dict(dd=dd, uid=draw(st.sampled_from([None, 'u1'])), use=draw(st.one_of(st.none(), st.none(), draft)),
                path=draw(st.integers(0, len(PATHS) - 1)), init=init, around=draw(st.sampled_from([0, 0, 1, 2, 3, 3, 3])),
                ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=8))])


def observe(ldml, case):
    """What is saved of the element: [(alt, draft, text)], the one in front first"""
    p = PATHS[case['path']]
    doc = G.parse(IO.save(ldml))
    res = []
    for e in G.walk(doc):
        if e['t'] == p[1]:
            res += [(c['a'].get('alt'), c['a'].get('draft'), c['x']) for c in e['c']
                    if c['t'] == p[2] and {k: v for k, v in c['a'].items() if k not in ('alt', 'draft')} == p[3]]
    return res


def beside(ldml, case):
    """All that is saved in the parent of the element: [(tag and attributes that tell it apart)] in order, and the other elements"""
    p = PATHS[case['path']]
    order, others = [], []
    for e in G.walk(G.parse(IO.save(ldml))):
        if e['t'] == p[1]:
            for c in e['c']:
                k = (c['t'], tuple(sorted((k, v) for k, v in c['a'].items() if k not in ('alt', 'draft'))))
                if k != (p[2], tuple(sorted(p[3].items()))):
                    others.append((k, c['a'].get('alt'), c['a'].get('draft'), c['x']))
                if not order or order[-1] != k:
                    order.append(k)
    return order, others


def nodes(ldml, case):
    """Every element of the kind in the tree, the one in front first"""
    h = call(ldml.find, PATHS[case['path']][0])
    if h is None:
        return []
    return [h] + [v for k, v in sorted(getattr(h, 'alternates', {}).items())]


def run(case, ctx):
    dd = case['dd'] or 'unconfirmed'
    path = PATHS[case['path']][0]
    rate = lambda d: G.rating(d, dd)
    # the document to start from
    ident = {k: v for k, v in (('draft', case['dd']), ('uid', case['uid'])) if v}
    doc = G.E('ldml', {}, None, [G.E('identity', {}, None, [G.E('special', {}, None, [G.E('sil:identity', ident)])])])
    p = PATHS[case['path']]
    els = [G.E(p[2], dict(p[3], **{k: v for k, v in (('alt', a), ('draft', d)) if v}), t) for a, d, t in case['init']]
    before, after = ([G.E(t, a, 'n%d' % i) for i, (t, a) in enumerate(l)] for l in AROUND[case['path']])
    around = case.get('around', 0)
    els = (before if around & 1 else []) + els + (after if around & 2 else [])
    if els:
        holder = {'characters': lambda: G.E('characters', {}, None, els),
                  'languages': lambda: G.E('localeDisplayNames', {}, None, [G.E('languages', {}, None, els)]),
                  'sil:font': lambda: G.E('special', {}, None, [G.E('sil:external-resources', {}, None, [G.E('sil:font', {'name': 'F'}, None, els)])])}
        doc['c'].append(holder[p[1]]())
    ldml = IO.load(G.to_xml(doc))
    ldml.use_draft = case['use']
    want = Counter((d, t) for a, d, t in case['init'])
    obs = observe(ldml, case)
    eq(Counter((d, t) for a, d, t in obs), want, "elements after loading")
    # with none that is not an alternate, the best of the alternates is in front
    edited = False

    def front(obs, what):
        if obs and obs[0][0] is None and not edited:
            return              # loaded so: one that is not an alternate is in front whatever its draft
        if obs:
            r = [rate(d) for a, d, t in obs]
            check(r[0] == min(r), "{}: what is in front is not the best of {}", what, obs)
    front(obs, 'loading')
    seen = set()
    order, others = beside(ldml, case)
    me = (p[2], tuple(sorted(p[3].items())))
    for op in case['ops']:
        before = obs
        slots = {a: (d, t) for a, d, t in before[1:]}
        what = "{} on {}".format(op, before)
        was = Counter((d, t) for a, d, t in before)
        best = not before or rate(before[0][1]) == min(rate(d) for a, d, t in before)
        seen.add(op[0])
        if op[0] in ('reload', 'normalise'):
            if op[0] == 'reload':
                ldml = IO.load(IO.save(ldml))
                ldml.use_draft = case['use']
            else:
                call(ldml.normalise, usedrafts=True)
            order = beside(ldml, case)[0]
            eq(beside(ldml, case)[1], others, "{}: the elements beside it".format(what))
            obs = observe(ldml, case)
            eq(sorted(obs, key=repr), sorted(before, key=repr), what)
            if before and before[0][0] is None:
                eq(obs[:1], before[:1], what)
            else:               # as good, if not the same
                front(obs, what)
            continue
        if op[0] == 'change':
            ns = nodes(ldml, case)
            if not ns:
                continue
            n = ns[op[1] % len(ns)]
            was[(n.get('draft'), n.text)] -= 1
            was[(op[2], n.text)] += 1
            r = call(ldml.change_draft, n, op[2], alt=op[3])
            check(r is not None and (r is n or r.parent is n.parent), "{}: what change_draft returns", what)
        elif op[0] == 'remove':
            _, md, alt, draft = op
            real = call(ldml.alt, alt)
            if md is None:
                gone = before
                if before: seen.add('removed all')
            elif md == 'alt':
                gone = [o for o in before[1:] if o[0] == real]
                if gone: seen.add('removed alternate')
            else:
                gone = [o for o in before if o[1] == draft]
                if gone: seen.add('removed by draft')
            kw = {} if md is None else dict(matchdraft='alt', alt=alt) if md == 'alt' else dict(matchdraft='draft', draft=draft)
            r = call(ldml.remove_path, path, **kw)
            for a, d, t in gone:
                was[(d, t)] -= 1
            if md is not None:
                eq(Counter(e.text for e in r), Counter(t for a, d, t in gone), "{}: what is removed".format(what))
        else:
            _, draft, alt, md, text = op
            eff = draft if draft is not None else case['use']
            real = call(ldml.alt, alt)
            if md is None:
                cand = before[:1]
            elif md == 'draft':
                cand = [o for o in before if o[1] == eff and eff is not None]
            else:
                cand = [o for o in before[1:] if o[0] == real and (md == 'alt' or o[1] == eff)]
            kw = {} if md is None else dict(matchdraft=md)
            if md in ('draft', 'both') and eff is None:
                continue
            res = call(ldml.ensure_path, path, text=text, draft=draft, alt=alt, **kw)
            check(len(res) > 0, "{}: nothing returned", what)

            def added(st):
                """a new element of its draft and text goes under its alt, unless that is taken by a better"""
                st = Counter(st)
                slot, n = real, 1
                while before and (slot == before[0][0] or (slot in slots and rate(slots[slot][0]) < rate(eff))):
                    n += 1
                    slot = real + str(n)
                if n > 1:
                    seen.add('numbered')
                if slot in slots:
                    st[slots[slot]] -= 1
                    seen.add('replaced')
                st[(eff, text)] += 1
                return st
            if text is None:
                if not cand:
                    was = added(was)
            else:
                check(all(e.text == text for e in res), "{}: returned elements have text {!r}", what, [e.text for e in res])
                if not cand:
                    was = added(was)
                    if draft is not None and before and rate(draft) < rate(before[0][1]):
                        # in front now, and so its alternates are looked at for the same text
                        for d, t in [k for k in was if k[1] == text and rate(k[0]) > rate(draft)]:
                            was[(draft, t)] += was.pop((d, t))
                else:
                    # alternates of those found are looked at as well, if it is for a draft
                    if draft is not None and cand[0] == before[0]:
                        cand = before
                    same = [o for o in cand if o[2] == text]
                    if same:
                        seen.add('found text')
                        if draft is not None:
                            for o in same:
                                if rate(o[1]) > rate(draft):
                                    was[(o[1], text)] -= 1
                                    was[(draft, text)] += 1
                                    seen.add('improved')
                    else:
                        was = added(was)
        edited = True
        norder, nothers = beside(ldml, case)
        eq(nothers, others, "{}: the elements beside it".format(what))
        if me in order and me in norder:
            eq(norder, order, "{}: the order of the elements".format(what))
        order = norder
        obs = observe(ldml, case)
        eq(+Counter((d, t) for a, d, t in obs), +was, what)
        alts = [a for a, d, t in obs]
        eq(len(set(alts)), len(alts), "{}: alternates of one name: {}".format(what, obs))
        if best:
            front(obs, what)
        else:
            # it was loaded with a worse one in front
            ctx.label('front not best')
    for s in seen: ctx.label(s)
    ctx.nontrivial(len(obs) > 1 and len(seen & {'ensure', 'change', 'remove'}) > 0)
    ctx.label('elements %d' % min(len(obs), 5))


CHECK = Check('C10', 'The best draft is in front and no alternate is lost',
    'Histories of adding by path (with text, draft, alternate, and match by draft or alternate), changing drafts, '
    'removing, normalising and reloading over one element and its alternates, from generated documents; after each '
    'step what is saved is compared with a model. Non-trivial: several alternates at the end and at least one edit.',
    [Sub('history', strategy, run, quick=1200, thorough=15000, qshards=8, tshards=8)],
    ['drafts other than the default of the document are used in the edits, as that one is not written out'])
