"""Language tags: parsing, formatting, equivalent forms, merging."""
from hypothesis import strategies as st
from vp.core import *
from sldr.langtags_full import LangTag

LOW = 'abcdefghijklmnopqrstuvwyz'


def word(lo, hi, chars=LOW):
    return st.text(chars, min_size=lo, max_size=hi)


def parts():
    lang = st.one_of(word(2, 3), st.sampled_from(['en', 'sr', 'qaa', 'zh', 'de', 'und']))
    extlang = st.one_of(st.none(), st.none(), st.none(), word(3, 3))
    script = st.one_of(st.none(), st.sampled_from(['Latn', 'Cyrl', 'Arab', 'Zzzz', 'Brai']), word(4, 4).map(str.title))
    region = st.one_of(st.none(), st.sampled_from(['US', 'GB', '419', '001', 'ZZ']), word(2, 2).map(str.upper),
                       word(3, 3, '0123456789'))
    variant = st.one_of(word(5, 8, LOW + '0123456789').filter(lambda s: not s.isdigit()),
                        st.builds(lambda d, r: d + r, st.sampled_from('0123456789'), word(3, 3, LOW + '0123456789')),
                        st.sampled_from(['fonipa', '1901', '1996', 'rozaj', 'biske', '1994', 'valencia']))
    variants = st.one_of(st.just([]), st.lists(variant, max_size=3, unique=True))
    ext = st.dictionaries(st.sampled_from('abtu0'), st.lists(word(2, 8, LOW + '0123'), min_size=1, max_size=4), max_size=2)
    priv = st.one_of(st.just([]), st.just([]), st.lists(word(1, 8, LOW + 'x0123'), min_size=1, max_size=3))
    return st.fixed_dictionaries(dict(lang=lang, extlang=extlang, script=script, region=region, variants=variants,
                                      ext=ext, priv=priv))


def want_lang(p):
    return p['lang'] + ('-' + p['extlang'] if p['extlang'] else '')


def exts(p):
    e = {k: list(v) for k, v in p['ext'].items()}
    if p['priv']:
        e['x'] = list(p['priv'])
    return e


def full(p):
    res = [want_lang(p)] + [x for x in (p['script'], p['region']) if x] + p['variants']
    for k, v in sorted(exts(p).items()):
        res += [k] + v
    return "-".join(res)


def recase(s, bits, sep):
    """A differently cased and separated spelling of the same tag"""
    res = ''
    for i, c in enumerate(s):
        if c == '-':
            res += sep
        else:
            res += c.upper() if (bits >> (i % 16)) & 1 else c.lower()
    return res


def fields(t):
    return dict(lang=t.lang, script=t.script, region=t.region, variants=list(t.variants or []),
                extensions={k: list(v) for k, v in (t.extensions or {}).items()})


def check_fields(t, p, what):
    eq(fields(t), dict(lang=want_lang(p), script=p['script'], region=p['region'], variants=p['variants'], extensions=exts(p)), what)


def run_parse(case, ctx):
    p = case['parts']
    f = full(p)
    nparts = len(f.split('-'))
    ctx.nontrivial(nparts > 2)
    for k in p:
        if p[k]: ctx.label(k)
    t = call(LangTag, f)
    check_fields(t, p, "parts of {!r}".format(f))
    eq(repr(t), f, "full form")
    eq(str(t), f, "canonical form with nothing hidden")
    eq(call(len, t), nparts - (1 if p['extlang'] else 0), "number of subtags of {!r}".format(f))
    eq(repr(call(LangTag, str(t))), f, "reparsed")
    other = recase(f, case['bits'], case['sep'])
    t2 = call(LangTag, other)
    eq(repr(t2), f, "normalised form of {!r}".format(other))
    check(t.matches(t2) and t2.matches(t), "{!r} and {!r} do not match", f, other)
    c = call(t.copy)
    eq((repr(c), str(c)), (repr(t), str(t)), "copy of {!r}".format(f))
    # order is that of the full forms
    q = case['other']
    u = call(LangTag, full(q))
    eq(bool(t < u), f < full(q), "order of {!r} and {!r}".format(f, full(q)))
    if full(p) != full(q):
        check(not t.matches(u) and not u.matches(t), "{!r} matches {!r}", f, full(q))


def tagof(case):
    t = LangTag(full(case['parts']))
    t.hidescript = case['hs'] and t.script is not None
    t.hideregion = case['hr'] and t.region is not None
    # with only one of them there, hiding it is hiding both
    t.hideboth = case['hb'] or (t.script is None and t.hideregion) or (t.region is None and t.hidescript)
    return t


def forms_model(p, hs, hr, hb):
    """Every way of leaving out what may be left out; not both unless that is allowed too"""
    res = []
    for s in ([None] if hs or not p['script'] else []) + ([p['script']] if p['script'] else []):
        for r in ([None] if hr or not p['region'] else []) + ([p['region']] if p['region'] else []):
            if s is None and r is None and not hb and (p['script'] or p['region']):
                continue
            res.append(full(dict(p, script=s, region=r)))
    return res


def run_forms(case, ctx):
    p = case['parts']
    t = tagof(case)
    if not p['script'] and not p['region']:
        t.hideboth = True
    hs, hr = bool(t.hidescript), bool(t.hideregion)
    ctx.nontrivial(hs or hr)
    ctx.label("hs{} hr{} hb{}".format(int(hs), int(hr), int(t.hideboth)))
    got = call(t.allforms)
    want = forms_model(p, hs, hr, t.hideboth)
    eq(sorted(got), sorted(want), "equivalent forms of {!r}".format(repr(t)))
    eq(got[-1], repr(t), "longest form comes last")
    c = call(t.copy)
    eq((str(c), repr(c), len(c), c.allforms()), (str(t), repr(t), len(t), got), "name, full form, length and forms of a copy of {!r}".format(repr(t)))
    check(c is not t and c.matches(t) and t.matches(c), "{!r} and its copy do not match", repr(t))
    check(str(t) in got, "canonical form {!r} not among the forms {!r}", str(t), got)
    for g in got:
        u = call(LangTag, g)
        eq(repr(u), g, "reparsed form")
        check(call(t.matches, u), "{!r} does not match its form {!r}", repr(t), g)


def merge_strategy():
    base = st.fixed_dictionaries(dict(
        script=st.sampled_from([None, 'Latn', 'Cyrl']), region=st.sampled_from([None, 'US', 'RU']),
        hs=st.booleans(), hr=st.booleans(), hb=st.booleans(),
        variants=st.sampled_from([[], [], ['fonipa'], ['fonipa', 'baku1926'], ['1996']]),
        ext=st.sampled_from([{}, {}, {'u': ['nu', 'latn']}, {'u': ['co', 'phonebk', 'nu', 'arab']}, {'t': ['en']}, {'t': ['ru'], 'u': ['va']}])))
    return st.tuples(base, base).map(list)


def mk(d):
    p = dict(lang='sr', extlang=None, script=d['script'], region=d['region'], variants=d['variants'], ext=d['ext'], priv=[])
    t = LangTag(full(p))
    t.hidescript, t.hideregion, t.hideboth = d['hs'], d['hr'], d['hb']
    return t


def state(t):
    return dict(fields(t), hs=t.hidescript, hr=t.hideregion, hb=t.hideboth)


def hidden_strategy():
    some = lambda l: st.sets(st.sampled_from(l)).map(sorted) if l else st.just([])
    return parts().flatmap(lambda p: st.fixed_dictionaries(dict(parts=st.just(p), hv=some(p['variants']), he=some(sorted(set((k, x) for k, v in exts(p).items() for x in v))))))


def run_hidden(case, ctx):
    """Variants and parts of extensions that may be left out, in every combination"""
    p = case['parts']
    t = LangTag(full(p))
    hide = [(None, v) for v in case['hv']] + [tuple(x) for x in case['he']]
    if len(hide) > 6:
        return
    if case['hv']: t.hidevariants = case['hv']
    if case['he']:
        t.hideextensions = {}
        for k, x in case['he']:
            t.hideextensions.setdefault(k, []).append(x)
    want = set()
    for n in range(1 << len(hide)):
        off = [x for i, x in enumerate(hide) if n >> i & 1]
        e = {k: [x for x in v if (k, x) not in off] for k, v in exts(p).items()}
        q = dict(p, variants=[v for v in p['variants'] if (None, v) not in off], ext={k: v for k, v in e.items() if v and k != 'x'}, priv=e.get('x', []))
        want.add(full(q))
    ctx.nontrivial(len(want) > 2)
    got = call(t.allforms)
    eq(sorted(set(got)), sorted(want), "forms of {!r}, {} may be left out".format(repr(t), hide))


def private_strategy():
    return st.fixed_dictionaries(dict(words=st.lists(word(2, 3), max_size=3), script=st.sampled_from([None, 'Latn', 'Cyrl']), region=st.sampled_from([None, 'US', '419']),
                                      variants=st.sampled_from([[], ['fonipa'], ['1901']]), ext=st.sampled_from([{}, {'u': ['nu', 'latn']}, {'x': ['b']}])))


def run_private(case, ctx):
    """Languages of no registry, as x-abc"""
    lang = "-".join(['x'] + case['words'])
    region = case['region'] if case['script'] else None
    f = "-".join([lang] + [x for x in (case['script'], region) if x] + case['variants'] + [y for k, v in case['ext'].items() for y in [k] + v])
    if f == 'x':
        return
    ctx.nontrivial(bool(case['words'] and case['script']))
    t = call(LangTag, f)
    eq((repr(t), str(t)), (f, f), "full and short form of {!r}".format(f))
    if case['words']:
        eq(fields(t), dict(lang=lang, script=case['script'], region=region, variants=case['variants'], extensions=case['ext']), "parts of {!r}".format(f))
        eq(repr(call(LangTag, f.replace('-', '_'))), f, "{!r} with other separators".format(f))


def run_merge(case, ctx):
    a, b = mk(case[0]), mk(case[1])
    before, bb = state(a), state(b)
    clash = any(before[k] and bb[k] and before[k] != bb[k] for k in ('script', 'region'))
    ctx.nontrivial(before != bb)
    ctx.label('clash' if clash else 'merge')
    ok = call(a.merge_equivalent, b)
    eq(bool(ok), not clash, "whether {!r} takes {!r}".format(case[0], case[1]))
    eq(state(b), bb, "the tag merged from")
    after = state(a)
    if clash:
        eq(after, before, "a tag after a refused merge")
        return
    for k in ('lang', 'script', 'region', 'variants'):
        eq(after[k], before[k] or bb[k], k + " after merging")
    want = dict(bb['extensions'])
    want.update(before['extensions'])
    eq(after['extensions'], want, "extensions after merging")
    # what either leaves out may be left out; a tag without script is the one with it left out
    if bb['script'] is None and before['script']:
        check(after['hs'], "{!r} has no script, with it it is to be left out", b)
    if bb['script'] and bb['region']:
        eq((after['hs'], after['hr']), (before['hs'] or bb['hs'], before['hr'] or bb['hr']), "what may be left out of {!r} merged with {!r}".format(case[0], case[1]))
    # merging never makes something left out compulsory
    for k in ('hs', 'hr', 'hb'):
        check(after[k] or not before[k], "{} lost in merging", k)


def strat_parse():
    return st.fixed_dictionaries(dict(parts=parts(), other=parts(), bits=st.integers(0, 65535), sep=st.sampled_from('-_')))


def strat_forms():
    return st.fixed_dictionaries(dict(parts=parts(), hs=st.booleans(), hr=st.booleans(), hb=st.booleans()))


CHECK = Check('C03', 'Language tags survive parsing, formatting and merging',
    'Tags built from generated subtags (language, extended language, script, region, variants including digit-first '
    'ones, extensions, private use), respelled in other case and separator; every combination of hidden parts; pairs '
    'to merge. Non-trivial: more than two subtags / something hidden / two differing tags.',
    [Sub('parse', strat_parse, run_parse, quick=3000, thorough=50000, qshards=3),
     Sub('forms', strat_forms, run_forms, quick=3000, thorough=50000, qshards=2),
     Sub('hidden', hidden_strategy, run_hidden, quick=1000, thorough=20000, qshards=1, tshards=4),
     Sub('private', private_strategy, run_private, quick=500, thorough=4000, qshards=1, tshards=2),
     Sub('merge', merge_strategy, run_merge, quick=2000, thorough=10000, qshards=1, tshards=2)])
