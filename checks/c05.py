"""Reading subtag registries."""
import os, re
from hypothesis import strategies as st
from vp.core import *
from sldr import iana, langtags_full as lf
from sldr.iana import Iana
from sldr.langtags_full import LangTags

SHIPPED = os.path.join(os.path.dirname(iana.__file__), 'language-subtag-registry.txt')
TYPES = ('language', 'extlang', 'script', 'region', 'variant', 'grandfathered', 'redundant')


def records(text):
    """Reference reader of the record-jar format: list of [(field, value)...]"""
    res, cur = [], []
    for l in text.split('\n'):
        if l.strip() == '%%':
            res.append(cur)
            cur = []
        elif l[:1] == ' ':
            if cur:
                cur[-1][1] += ' ' + l.strip()
        elif ':' in l:
            f, v = l.split(':', 1)
            cur.append([f.strip().lower(), v.strip()])
    res.append(cur)
    return [r for r in res if r]


def model(text):
    res = {}
    for r in records(text):
        d, typ, key = {}, None, None
        for f, v in r:
            if f == 'type':
                typ = v
            elif f in ('subtag', 'tag'):
                key = v
            else:
                d.setdefault(f, []).append(v)
        if typ is not None and key is not None:
            res.setdefault(typ, {})[key] = {f: (v[0] if len(v) == 1 else v) for f, v in d.items()}
    return res


def decide(text, fname, ctx):
    with open(fname, 'w', encoding='utf-8') as f:
        f.write(text)
    reg = call(Iana, fname)
    want = model(text)
    for t in TYPES:
        got = getattr(reg, t, {})
        w = want.get(t, {})
        eq(sorted(got), sorted(w), t + " subtags")
        for k in w:
            eq(got[k], w[k], "fields of {} {!r}".format(t, k))


words = st.lists(st.sampled_from(['Afar', 'Latin', 'a', 'Niger-Congo', 'see: lyg', 'lyg', '(Wu)', '"x"', 'ß漢', '%', 'Type: x', '::']),
                 min_size=1, max_size=6)


def strategy():
    value = st.fixed_dictionaries(dict(words=words, fold=st.integers(0, 63)))
    fields = st.lists(st.tuples(st.sampled_from(['Description', 'Description', 'Added', 'Comments', 'Suppress-Script', 'Scope',
                      'Deprecated', 'Preferred-Value', 'Prefix', 'Prefix', 'Macrolanguage']), value).map(list), min_size=1, max_size=6)
    rec = st.fixed_dictionaries(dict(type=st.sampled_from(TYPES),
        key=st.sampled_from(['aa', 'ab', 'Latn', 'US', '419', '1901', 'fonipa', 'i-klingon', 'zh-min-nan', 'qaa..qtz', 'en-GB-oed']), fields=fields))
    return st.lists(rec, max_size=6)


def text_of(case):
    out, seen = ['File-Date: 2025-02-06'], set()
    for r in case:
        if (r['type'], r['key']) in seen:
            continue
        seen.add((r['type'], r['key']))
        out.append('%%')
        out.append('Type: ' + r['type'])
        out.append(('Tag: ' if r['type'] in ('grandfathered', 'redundant') else 'Subtag: ') + r['key'])
        for f, v in r['fields']:
            l = f + ': '
            for i, w in enumerate(v['words']):
                if i and (v['fold'] >> i) & 1:
                    out.append(l.rstrip() if i else l)
                    l = '  ' + w
                else:
                    l += (' ' if i else '') + w
            out.append(l)
    return "\n".join(out) + "\n"


def run_generated(case, ctx):
    text = text_of(case)
    ctx.nontrivial('\n  ' in text and len(case) > 1)
    if '\n  ' in text: ctx.label('folded')
    if any(len([1 for g, _ in r['fields'] if g == f]) > 1 for r in case for f, _ in r['fields']): ctx.label('repeated field')
    decide(text, ctx.path('reg.txt'), ctx)


def run_shipped(case, ctx):
    text = open(SHIPPED, encoding='utf-8').read()
    w = model(text)
    check(len(w.get('language', {})) > 8000 and len(w.get('redundant', {})) > 60, "shipped registry has lost records")
    ctx.nontrivial()
    reg = call(Iana)
    for t in TYPES:
        eq(sorted(getattr(reg, t, {})), sorted(w[t]), t + " subtags")
        for k in w[t]:
            eq(getattr(reg, t)[k], w[t][k], "fields of {} {!r}".format(t, k))


def tags_from(fname):
    """An empty tag table that has read only a registry"""
    obj = LangTags.__new__(LangTags)
    dict.__init__(obj)
    obj.variants, obj.global_variants = {}, []
    call(obj.readIana, fname)
    return obj


def decide_tags(w, table):
    keys = set()
    for t in ('language', 'extlang'):
        for k, d in w.get(t, {}).items():
            key = k if t == 'language' else d['prefix'] + '-' + k
            o = table.get(key)
            check(o is not None, "{} {!r} is not in the table", t, key)
            eq(o.lang, key, "language of {!r}".format(key))
            ss = d.get('suppress-script') if t == 'language' else None
            eq(o.script, ss, "script of {!r}".format(key))
            eq(bool(getattr(o, 'suppress', False)), bool(ss), "whether the script of {!r} is suppressed".format(key))
            keys.update([key, key + '-' + ss] if ss else [key])
            eq(str(o), key, "shortest form of {!r}".format(key))
            if ss:
                check(table.get(key + '-' + ss) is o, "{!r} does not find the entry of {!r}", key + '-' + ss, key)
            desc = d.get('description', [])
            eq(list(getattr(o, 'desc', [])), desc if isinstance(desc, list) else [desc], "descriptions of {!r}".format(key))
            eq(getattr(o, 'mode', None), t, "type of {!r}".format(key))
            eq(bool(getattr(o, 'deprecated', False)), 'deprecated' in d, "deprecation of {!r}".format(key))
            eq(getattr(o, 'preferred', None), d.get('preferred-value'), "preferred value of {!r}".format(key))
    eq(sorted(set(table) - keys), [], "tags which no record gives")
    prefixes = {}
    for k, d in w.get('variant', {}).items():
        p = d.get('prefix', [])
        for x in (p if isinstance(p, list) else [p]):
            prefixes.setdefault(x, []).append(k)
    eq({k: sorted(v) for k, v in table.variants.items()}, {k: sorted(v) for k, v in prefixes.items()}, "variants by prefix")
    eq(sorted(table.global_variants), sorted(k for k, d in w.get('variant', {}).items() if 'prefix' not in d), "variants of any language")


def strategy_tags():
    """Registries in the shipped order of types"""
    desc = st.lists(st.sampled_from(['Afar', 'Wu Chinese', 'Old: one', 'ß', 'Church\n  Slavic', 'Old\n  Church\n  Slavonic: lyg']), min_size=1, max_size=3, unique=True)
    lang = st.fixed_dictionaries(dict(key=st.sampled_from(['aa', 'ab', 'zh', 'sgn', 'qqq']), desc=desc,
        ss=st.sampled_from([None, 'Latn', 'Cyrl']), comment=st.booleans(), dep=st.booleans(), pref=st.sampled_from([None, 'xx'])))
    ext = st.fixed_dictionaries(dict(key=st.sampled_from(['yue', 'wuu', 'ase']), desc=desc, prefix=st.sampled_from(['zh', 'sgn']),
        comment=st.booleans(), dep=st.booleans(), pref=st.sampled_from([None, 'yue'])))
    var = st.fixed_dictionaries(dict(comment=st.booleans(), key=st.sampled_from(['1901', '1996', 'fonipa', 'rozaj', 'biske']), desc=desc,
        prefix=st.lists(st.sampled_from(['de', 'sl', 'sl-rozaj']), max_size=2, unique=True)))
    return st.fixed_dictionaries(dict(short=st.booleans(), lang=st.lists(lang, max_size=4, unique_by=lambda x: x['key']),
        ext=st.lists(ext, max_size=3, unique_by=lambda x: x['key']), var=st.lists(var, max_size=4, unique_by=lambda x: x['key'])))


def run_tags(case, ctx):
    out = []

    def rec(t, r, extra):
        out.extend(['%%', 'Type: ' + t, 'Subtag: ' + r['key']] + ['Description: ' + d for d in r['desc']] + ['Added: 2005-10-16'] + extra
                   + (['Comments: see also', '  Description: of it', ' Prefix: zh'] if r.get('comment') else []))

    def common(r):
        return (['Deprecated: 2010-01-01'] if r.get('dep') else []) + (['Preferred-Value: ' + r['pref']] if r.get('pref') else [])
    for r in case['lang']:
        rec('language', r, common(r) + (['Suppress-Script: ' + r['ss']] if r['ss'] else []))
    for r in case['ext']:
        rec('extlang', r, common(r) + ['Prefix: ' + r['prefix']])
    if not case.get('short'):
        out += ['%%', 'Type: script', 'Subtag: Latn', 'Description: Latin', 'Added: 2005-10-16']
        out += ['%%', 'Type: region', 'Subtag: US', 'Description: United States', 'Added: 2005-10-16']
    vs = sorted(case['var'], key=lambda v: not v['prefix'])     # as in the real one, the first has a prefix
    if vs and not vs[0]['prefix']:
        vs = []
    for r in vs:
        rec('variant', r, ['Prefix: ' + p for p in r['prefix']])
    if not case.get('short') or vs:
        out += ['%%', 'Type: redundant', 'Tag: zh-min', 'Description: Min', 'Added: 2005-10-16']
    text = "\n".join(['File-Date: 2025-02-06'] + out) + "\n"
    ctx.nontrivial(len(case['lang']) + len(case['ext']) > 1 and vs)
    fname = ctx.path('reg.txt')
    with open(fname, 'w', encoding='utf-8') as f:
        f.write(text)
    decide_tags(model(text), tags_from(fname))


def run_tags_shipped(case, ctx):
    ctx.nontrivial()
    decide_tags(model(open(SHIPPED, encoding='utf-8').read()), tags_from(SHIPPED))


CHECK = Check('C05', 'Subtag registries are read record for record',
    'The shipped IANA registry record by record, and generated registries with folded lines, colons in values, repeated '
    'fields, whole-tag records and ranges, compared with a reference record-jar reader. Non-trivial: a folded line and '
    'at least two records / two languages and a variant.',
    [Sub('generated', strategy, run_generated, quick=2000, thorough=30000, qshards=3),
     Sub('shipped', None, run_shipped, quick=1, thorough=1, qshards=1, tshards=1, cpu=120, fixed=[['shipped']], exhaustive=True),
     Sub('tagtable', strategy_tags, run_tags, quick=1500, thorough=20000, qshards=2),
     Sub('tagtable-shipped', None, run_tags_shipped, quick=1, thorough=1, qshards=1, tshards=1, cpu=120, fixed=[['shipped']], exhaustive=True)])
