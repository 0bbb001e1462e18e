"""Completing language tags: tags that the tables do not list get the script and region of
what they do list, and likely subtags are all found."""
import os
from hypothesis import strategies as st
from vp.core import *
from checks.c04 import load, lines_of, read_lines, TABLE
from sldr import langtags_full as lf
from sldr.langtags_full import LangTag, LangTags

SUFFIXES = ['', '-1901', '-x-abc', '-u-nu-latn', '-1996-x-a-bc', '-a-foo-x-b', '-fonipa', '-baku1926', '-fonupa', '-heploc-fonapa']
PHONETIC = ('fonipa', 'fonapa', 'fonupa')
_cache = {}


def shipped():
    if 'table' not in _cache:
        _cache['table'] = load(TABLE)
        _cache['lines'] = read_lines(TABLE)
        bylang = {}
        for l in _cache['lines']:
            for lang in {LangTag(f).lang for f in l}:
                bylang.setdefault(lang, []).append(l)
        _cache['bylang'] = {k: v for k, v in bylang.items() if not k.startswith('x-')}
        _cache['langs'] = sorted(_cache['bylang'], key=lambda k: (-len(_cache['bylang'][k]), k))
    return _cache


def parts(t):
    return (t.lang, t.script, t.region, list(t.variants or []), dict(t.extensions or {}))


def state(t):
    return (repr(t), str(t), tuple(t.allforms()))


def snapshot(table, lines):
    return [state(table[l[-1]]) for l in lines]


def decide(table, lines, text, ctx):
    """lines: all those of the table for the language of the tag"""
    before = snapshot(table, lines)
    t = LangTag(text)
    given = parts(t)
    listed = {f: l for l in lines for f in l}
    r = call(LangTag(text).analyse, table)
    check(isinstance(r, LangTag), "analysing {!r} gives {!r}", text, r)
    got = parts(r)
    eq(snapshot(table, lines), before, "the entries of the table after analysing {!r}".format(text))
    if str(t) in listed:
        check(r is table[listed[str(t)][-1]], "analysing the listed {!r} gives {!r}", text, repr(r))
        ctx.label('listed')
        return
    lang, script, region, var, ext = given
    if region == 'ZZ':
        region = None
        ctx.label('region ZZ')
        bare = "-".join(x for x in (lang, script) if x)
        if not var and not ext and bare in listed:
            check(r is table[listed[bare][-1]], "analysing {!r} gives {!r}, and {!r} is listed", text, repr(r), bare)
            return
    if LangTag(repr(r)).lang != lang:           # found in the line of another tag for the same thing
        check(repr(r) in listed, "analysing {!r} gives {!r}", text, repr(r))
        return
    bare = "-".join(x for x in (lang, script, region) if x)
    if bare in listed and (lambda x: x.variants or x.extensions)(LangTag(listed[bare][-1])):
        ctx.label('of an entry with extensions')        # the tag alone says more than it shows
        return
    # what was given is all still there
    eq((got[0], got[3], got[4]), (lang, var, ext), "language, variants and extensions of {!r} analysed".format(text))
    check(script is None or got[1] == script, "the script of {!r} analysed is {!r}", text, got[1])
    check(region is None or got[2] == region, "the region of {!r} analysed is {!r}", text, got[2])
    # what is added comes from an entry of the table which agrees with what was given
    if (got[1], got[2]) != (script, region):
        same = [LangTag(l[-1]) for l in lines]
        check(any((x.lang, x.script, x.region) == got[:3] for x in same) or "-".join(x for x in got[:3] if x) in listed,
              "{!r} is completed to {!r}, and no entry has that script and region", text, repr(r))
        ctx.label('completed')
    # the listed tag it extends says what its script and region are
    suffix = [x for x in lines if parts(LangTag(x[-1]))[3:] == (var, ext)]
    bare = "-".join(x for x in (lang, script, region) if x)
    if (var or ext) and not suffix and bare in listed:
        full = listed[bare][-1]
        f = LangTag(full)
        if (f.lang == lang and not f.variants and not f.extensions and script in (None, f.script)
                and region in (None, f.region)):
            eq(got[1:3], (f.script, f.region), "script and region of {!r}, {!r} being {!r}".format(text, bare, full))
            ctx.label('by its listed part')
            ctx.nontrivial()
    # phonetic alphabets are Latin: that need not be said
    if region is None and got[1] == 'Latn' and any(p in var for p in PHONETIC) and repr(r) not in listed:
        check('Latn' not in str(r), "{!r} analysed is written {!r}", text, str(r))
        ctx.label('phonetic')
    # and its short form means the same
    whole = listed.get("-".join(x for x in got[:3] if x))
    if whole and LangTag(whole[-1]).lang != lang:
        ctx.label('another language')
    elif not suffix and not (got[1] == 'Latn' and any(p in var for p in PHONETIC)):
        again = call(LangTag(str(r)).analyse, table)
        eq(parts(again), got, "{!r} analysed is written {!r}, which analysed".format(text, str(r)))
        forms = call(r.allforms)
        if got[1] is not None and got[2] is not None:
            check(repr(r) in forms and str(r) in forms, "forms {!r} of {!r} analysed lack {!r} or {!r}", forms, text, repr(r), str(r))
        for f in forms:
            if f in listed:
                eq(listed[f][-1], repr(r), "the entry of {!r}, a form of {!r} analysed".format(f, text))


def tagtext(lines, d):
    if lines and d['line'] >= 0:
        l = lines[d['line'] % len(lines)]
        base = l[d['form'] % len(l)]
        t = LangTag(base)
        if t.variants or t.extensions:
            base = l[-1]
            t = LangTag(base)
        lang, s, r = t.lang, t.script, t.region
        var = "" if not (t.variants or t.extensions) else base[len("-".join(x for x in (lang, s, r) if x)):]
    else:
        lang, s, r, var = d['lang'], None, None, ''
    if d['script'] is not None: s = d['script'] or None
    if d['region'] is not None: r = d['region'] or None
    text = "-".join(x for x in (lang, s, r) if x) + (var or SUFFIXES[d['suffix'] % len(SUFFIXES)])
    return [text, text.upper(), text.lower(), text.replace('-', '_')][d['case'] % 4]


def tag_strategy():
    return st.fixed_dictionaries(dict(
        line=st.integers(-1, 40), form=st.integers(0, 40), lang=st.sampled_from(['aa', 'zz', 'qqq', 'sr']),
        script=st.sampled_from([None, None, None, None, '', 'Latn', 'Cyrl', 'Arab', 'Zzzz']),
        region=st.sampled_from([None, None, None, None, '', 'ZZ', 'US', '419', 'RU', 'FR']),
        suffix=st.integers(0, 29), case=st.integers(0, 3)))


def shipped_strategy():
    return st.tuples(st.integers(0, 9000), st.booleans(), tag_strategy())


def run_shipped(case, ctx):
    c = shipped()
    n, many, d = case
    lang = c['langs'][n % (800 if many else len(c['langs']))]
    lines = c['bylang'][lang]
    text = tagtext(lines, d)
    if LangTag(text).lang in c['bylang']:
        lines = c['bylang'][LangTag(text).lang]
    # tags of other languages which are forms of these lines do not matter here
    decide(c['table'], lines, text, ctx)


def gen_strategy():
    from checks.c04 import strategy
    return st.tuples(strategy(), st.lists(tag_strategy(), min_size=1, max_size=5))


def run_generated(case, ctx):
    lines = [f for f, s in lines_of(case[0])]
    fname = ctx.path('langtags.txt')
    with open(fname, 'w', encoding='utf-8') as f:
        for l in lines:
            f.write(" = ".join(l) + "\n")
    table = call(load, fname)
    for d in case[1]:
        text = tagtext(lines, d)
        lang = LangTag(text).lang
        decide(table, [l for l in lines if LangTag(l[-1]).lang == lang], text, ctx)


# ---- likely subtags ----

def empty():
    obj = LangTags.__new__(LangTags)
    dict.__init__(obj)
    obj.variants, obj.global_variants = {}, []
    return obj


def decide_likely(table, pairs, ctx):
    for f, to in pairs:
        o = table.get(f)
        check(o is not None, "{!r} is not found, it is likely {!r}", f, to)
        eq(repr(o), to, "what {!r} is likely".format(f))
        p = table.get(to)
        check(p is not None and repr(p) == to, "{!r} is not in the table by its full form", to)
    for k, o in table.items():
        check(k in o.allforms(), "{!r} finds {!r}, of which it is no form", k, repr(o))


def run_likely_shipped(case, ctx):
    from xml.etree import ElementTree as et
    fname = os.path.join(os.path.dirname(lf.__file__), 'likelySubtags.xml')
    pairs = []
    for p in et.parse(fname).getroot().find('likelySubtags').findall('likelySubtag'):
        f, to = (p.get(k).replace('_', '-') for k in ('from', 'to'))
        if not f.startswith('und'):
            pairs.append((f, to))
    check(len(pairs) > 7000, "only {} likely subtags", len(pairs))
    table = LangTags.__new__(LangTags)
    call(LangTags.__init__, table, noalltags=True)
    decide_likely(table, pairs, ctx)
    ctx.nontrivial()
    ctx.label('pairs {}'.format(len(pairs)))


def likely_strategy():
    lang = st.fixed_dictionaries(dict(
        lang=st.sampled_from(['aa', 'ab', 'sr', 'en', 'zh', 'qaa', 'kkk']),
        main=st.tuples(st.integers(0, 3), st.integers(0, 3)),
        scripts=st.dictionaries(st.sampled_from('0123'), st.integers(0, 3), max_size=3),
        regions=st.dictionaries(st.sampled_from('0123'), st.integers(0, 3), max_size=3)))
    return st.fixed_dictionaries(dict(langs=st.lists(lang, max_size=4, unique_by=lambda d: d['lang']),
                                      und=st.booleans(), order=st.integers(0, 10 ** 6), sep=st.sampled_from('_-')))


SC = ['Latn', 'Cyrl', 'Arab', 'Hans']
RG = ['US', 'RU', '419', 'CN']


def likely_pairs(case):
    """Pairs as CLDR has them: the language's own, and by script and region where that is something else"""
    pairs = []
    for d in case['langs']:
        l, (s, r) = d['lang'], d['main']
        pairs.append((l, (l, s, r)))
        for k, rr in sorted(d['scripts'].items()):
            if int(k) != s:
                pairs.append(("{}-{}".format(l, SC[int(k)]), (l, int(k), rr)))
        for k, ss in sorted(d['regions'].items()):
            if int(k) != r and ss != s:
                pairs.append(("{}-{}".format(l, RG[int(k)]), (l, ss, int(k))))
    pairs = [(f, "{}-{}-{}".format(l, SC[s], RG[r])) for f, (l, s, r) in pairs]
    n = case['order']
    res = []
    while pairs:
        res.append(pairs.pop(n % len(pairs)))
        n //= 3
    return res


def run_likely(case, ctx):
    pairs = likely_pairs(case)
    ctx.nontrivial(len(pairs) > 2)
    fname = ctx.path('likely.xml')
    with open(fname, 'w', encoding='utf-8') as f:
        f.write('<supplementalData><likelySubtags>\n')
        if case['und']:
            f.write('<likelySubtag from="und" to="en_Latn_US"/>\n')
        for a, b in pairs:
            f.write('<likelySubtag from="{}" to="{}"/>\n'.format(a.replace('-', case['sep']), b.replace('-', case['sep'])))
        f.write('</likelySubtags></supplementalData>\n')
    table = empty()
    call(table.readLikelySubtags, fname)
    decide_likely(table, pairs, ctx)
    eq({repr(o) for o in table.values()}, {b for a, b in pairs}, "entries of the table")


# ---- the whole table from its sources ----

def decide_forms(table):
    """An entry is found by its forms, all of them, and by nothing else"""
    keys = {}
    for k, o in table.items():
        keys.setdefault(id(o), (o, set()))[1].add(k)
    for o, ks in keys.values():
        fs = call(o.allforms)
        if set(fs) != ks:
            eq(sorted(set(fs)), sorted(ks), "forms of {!r}, and what finds it".format(o))
    lines = call(table.generate_alltags)
    eq(len(lines), len(keys), "number of lines of the table")
    eq(sorted(set(f) == keys[id(table[f[-1]])][1] for f in lines), [True] * len(lines), "whether the lines hold the forms of the entries")


def decide_supplement(table, likely, regions, scripts):
    """Of a language in one territory alone, and in one script, both are known"""
    known = {LangTag(f).lang for f, to in likely}
    for l, rs in regions.items():
        if len(rs) != 1 or l in known or '_' in l or '-' in l:
            continue
        o = table.get(l)
        check(o is not None, "{!r} is spoken in {} alone, and is not found", l, rs[0])
        eq(o.region, rs[0], "the region of {!r}".format(l))
        if len(scripts.get(l, [])) == 1:
            eq(o.script, scripts[l][0], "the script of {!r}".format(l))
            check(str(o) == l, "{!r} is written {!r}", l, str(o))


def supplement_of(fname):
    from xml.etree import ElementTree as et
    root = et.parse(fname).getroot()
    regions, scripts = {}, {}
    for t in root.iterfind('territoryInfo/territory'):
        for l in t.iterfind('languagePopulation'):
            regions.setdefault(l.get('type'), []).append(t.get('type'))
    for l in root.iterfind('languageData/language'):
        scripts.setdefault(l.get('type'), []).extend((l.get('scripts') or '').split())
    return regions, scripts


def shipped_pairs():
    from xml.etree import ElementTree as et
    fname = os.path.join(os.path.dirname(lf.__file__), 'likelySubtags.xml')
    res = []
    for p in et.parse(fname).getroot().find('likelySubtags').findall('likelySubtag'):
        f, to = (p.get(k).replace('_', '-') for k in ('from', 'to'))
        if not f.startswith('und'):
            res.append((f, to))
    return res


def run_sources_shipped(case, ctx):
    table = LangTags.__new__(LangTags)
    call(LangTags.__init__, table, noalltags=True)
    decide_forms(table)
    regions, scripts = supplement_of(os.path.join(os.path.dirname(lf.__file__), 'supplementalData.xml'))
    check(len(regions) > 600, "only {} languages in the supplemental data", len(regions))
    decide_supplement(table, shipped_pairs(), regions, scripts)
    ctx.nontrivial()


LANGS = ['aa', 'ab', 'sr', 'en', 'zh', 'qaa', 'kkk']


def sources_strategy():
    supp = st.fixed_dictionaries(dict(lang=st.sampled_from(LANGS), scripts=st.lists(st.integers(0, 3), max_size=2, unique=True),
        second=st.booleans(), regions=st.lists(st.integers(0, 3), max_size=3, unique=True)))
    return st.fixed_dictionaries(dict(likely=likely_strategy(), extras=likely_strategy(),
        confirmed=st.lists(st.sampled_from(['CLDR', 'yes', '']), min_size=4, max_size=4),
        suppress=st.dictionaries(st.sampled_from(LANGS), st.integers(0, 3), max_size=4),
        supp=st.lists(supp, max_size=7, unique_by=lambda d: d['lang'])))


def run_sources(case, ctx):
    likely = sorted(likely_pairs(case['likely']))       # in the order of CLDR, the language's own first
    mine = {LangTag(f).lang for f, t in likely}
    rows = [(f, t, case['confirmed'][LANGS.index(LangTag(f).lang) % 4]) for f, t in sorted(likely_pairs(case['extras']))]
    extras = [(f, t) for f, t, c in rows if c != 'CLDR' and LangTag(f).lang not in mine]
    rows = [(f, t, c) for f, t, c in rows if LangTag(f).lang not in mine or c == 'CLDR']
    pairs = likely + extras
    main = {f: LangTag(t) for f, t in pairs}
    # a script is suppressed where it is the usual one
    suppress = {l: SC[s] for l, s in case['suppress'].items() if l not in {LangTag(f).lang for f, t in pairs} or l in main and main[l].script == SC[s]}
    supp = case['supp']
    regions, scripts = {}, {}
    for d in supp:
        if d['regions']:
            regions[d['lang']] = [RG[r] for r in d['regions']]
        ss = [SC[s] for s in d['scripts']]
        if d['lang'] in suppress or d['lang'] in main:
            ss = ss[:0]
        scripts[d['lang']] = ss
    ctx.nontrivial(len(pairs) > 1 and any(len(r) == 1 for r in regions.values()))
    if any(len(r) == 1 and l not in main for l, r in regions.items()): ctx.label('one territory')
    if suppress: ctx.label('suppressed script')
    if extras: ctx.label('extras')
    reg, lik, ext, sup = (ctx.path(n) for n in ('registry.txt', 'likely.xml', 'extras.tsv', 'supplemental.xml'))
    with open(reg, 'w', encoding='utf-8') as f:
        f.write("File-Date: 2025-02-06\n")
        for l in LANGS:
            f.write("%%\nType: language\nSubtag: {}\nDescription: Language {}\n".format(l, l))
            if l in suppress:
                f.write("Suppress-Script: {}\n".format(suppress[l]))
        f.write("%%\nType: region\nSubtag: US\nDescription: United States\n")
    with open(lik, 'w', encoding='utf-8') as f:
        f.write('<supplementalData><likelySubtags>\n')
        f.write("".join('<likelySubtag from="{}" to="{}"/>\n'.format(a.replace('-', '_'), b.replace('-', '_')) for a, b in likely))
        f.write('</likelySubtags></supplementalData>\n')
    with open(ext, 'w', encoding='utf-8') as f:
        f.write("langtag\tlikely_subtag\tconfirmed\n" + "".join("\t".join(r) + "\n" for r in rows))
    with open(sup, 'w', encoding='utf-8') as f:
        f.write('<supplementalData><languageData>\n')
        for d in supp:
            ss = scripts[d['lang']]
            if ss:
                f.write('<language type="{}" scripts="{}"/>\n'.format(d['lang'], " ".join(ss[:1] if d['second'] else ss)))
                if d['second'] and ss[1:]:
                    f.write('<language type="{}" scripts="{}" territories="ET" alt="secondary"/>\n'.format(d['lang'], ss[1]))
        f.write('</languageData><territoryInfo>\n')
        for r in RG:
            f.write('<territory type="{}">{}</territory>\n'.format(r, "".join('<languagePopulation type="{}" populationPercent="5"/>'.format(l)
                    for l, rs in regions.items() if r in rs)))
        f.write('</territoryInfo></supplementalData>\n')
    table = empty()
    call(table.readIana, reg)
    call(table.readLikelySubtags, lik)
    call(table.readExtras, ext)
    decide_likely(table, pairs, ctx)
    decide_forms(table)
    call(table.readSupplementalData, sup)
    decide_likely(table, pairs, ctx)
    decide_forms(table)
    decide_supplement(table, pairs, regions, scripts)
    for l in LANGS:
        o = table.get(l)
        check(o is not None and o.lang == l, "the language {!r} is not found", l)
        eq(getattr(o, 'desc', None), ['Language ' + l], "the description of {!r}".format(l))
        if l in suppress:
            eq(o.script, suppress[l], "the script of {!r}, which is suppressed".format(l))
            check(table.get(l + '-' + suppress[l]) is o, "{!r} does not find the entry of {!r}", l + '-' + suppress[l], l)


CHECK = Check('C20', 'Language tags are completed from the tables without contradiction',
    'Tags made from forms of the shipped table and of generated tables, with scripts, regions, variants and extensions exchanged and added; '
    'the shipped likely subtags (all) and generated ones. Non-trivial: an unlisted tag which extends a listed one; three pairs or more.',
    [Sub('sources-shipped', None, run_sources_shipped, quick=1, thorough=1, qshards=1, tshards=1, cpu=120, fixed=[['shipped']], exhaustive=True),
     Sub('sources', sources_strategy, run_sources, quick=1500, thorough=20000, qshards=2),
     Sub('likely-shipped', None, run_likely_shipped, quick=1, thorough=1, qshards=1, tshards=1, cpu=120, fixed=[['shipped']], exhaustive=True),
     Sub('likely', likely_strategy, run_likely, quick=1500, thorough=20000, qshards=2),
     Sub('shipped', shipped_strategy, run_shipped, quick=4000, thorough=60000, qshards=3),
     Sub('generated', gen_strategy, run_generated, quick=1500, thorough=20000, qshards=2)])
