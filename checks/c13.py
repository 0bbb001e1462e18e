"""Flattening: a locale with what it lacks filled in from its parents, nearest first."""
import copy, os, io
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO
from vp.family import *
from sldr.ldml_merge import LdmlMerge, flattenlocale

# reference reading of the parents CLDR gives
PARENTS = {}
for p in ET.parse(os.path.join(os.path.dirname(IO.L.__file__), 'supplementalData.xml')).getroot().find('parentLocales'):
    for n in p.get('locales').split():
        PARENTS[n] = p.get('parent')

FAMILIES = [['xx_Latn_ZZ_V', 'xx_Latn_ZZ', 'xx_Latn', 'xx', 'yy_Latn', 'yy'], ['xx_ZZ', 'xx', 'yy'], ['qaa_Latn_ZZ_x_abc', 'qaa_Latn_ZZ_x', 'qaa_Latn_ZZ', 'qaa_Latn', 'qaa', 'yy'],
            ['en_AU', 'en_001', 'en', 'fr'], ['en_AT', 'en_150', 'en_001', 'en', 'fr'], ['es_AR', 'es_419', 'es', 'fr'],
            ['az_Cyrl', 'az', 'fr'], ['zh_Hant_MO', 'zh_Hant_HK', 'zh_Hant', 'zh'], ['ht', 'fr_HT', 'fr', 'en'], ['nn_NO', 'nn', 'no', 'en'],
            ['pt_AO', 'pt_PT', 'pt', 'fr']]


def parents(name, fallback=None):
    """Every ancestor, nearest first"""
    first = fallback or [PARENTS.get(name, name.rpartition('_')[0])]
    res = []
    for f in first:
        while f and f != 'root' and f not in res:
            res.append(f)
            f = PARENTS.get(f, f.rpartition('_')[0])
    return res + (['root'] if name != 'root' else [])


@st.composite
def docs(draw, names, empties=True, **kw):
    """Documents with much in common"""
    opts = dict(serial=False, alts=False, comments=False, wild=False, depth=draw(st.integers(2, 4)), width=draw(st.integers(3, 6)),
                tops=draw(st.sampled_from([None, ['localeDisplayNames', 'dates', 'numbers', 'characters', 'units', 'listPatterns', 'delimiters', 'layout', 'posix']])),
                exclude=('alias', 'cp', 'collations', 'fallback', 'sil:external-resources'))
    opts.update(kw)
    if opts['tops'] is None: del opts['tops']
    base = nodefault(plain(draw(G.document(**opts))))
    base['c'] = [c for c in base['c'] if c['t'] not in ('collations', 'special')]
    return {n: draw(relative(base, n, p=draw(st.sampled_from([4, 4, 2])), empties=empties)) for n in names}


@st.composite
def strategy(draw):
    fam = draw(st.sampled_from(FAMILIES + FAMILIES[:1] * 3))
    fallback = draw(st.sampled_from([['yy', 'yy_Latn']] * 3 * (fam is FAMILIES[0]) + [None, None, None, None, ['yy'], ['en', 'fr'], ['yy_Latn', 'xx'], ['yy', 'yy_Latn']]))
    have = [n for n in fam[1:] + ['root'] if draw(st.integers(0, 4))]
    ds = draw(docs([fam[0]] + have + ['decoy'], drafts=draw(st.booleans())))
    scripts = {}
    for n in ds:
        s = draw(st.sampled_from([None, None, None, 'Latn', 'Latn', 'Latn', 'Cyrl'])) if n != fam[0] else draw(st.sampled_from([None, 'Latn', 'Latn', 'Latn', 'Latn', 'Cyrl']))
        sil = draw(st.sampled_from([None, None, None, None, 'Latn', 'Cyrl']))
        scripts[n] = sil or s
        ds[n] = identity(ds[n], s, sil, {'uid': n[:2]} if draw(st.booleans()) else None)
    for n in ds:
        if draw(st.booleans()):
            ds[n]['c'].append(draw(collations()))
    if fallback:
        ds[fam[0]]['c'].insert(1, G.E('fallback', {}, " ".join(fallback)))
    for n in ds:        # values marked as inherited
        for e in G.walk(ds[n]):
            for c in e['c']:
                if c['x'] and not c['c'] and e['t'] not in ('ldml', 'identity') and len(e['c']) > 1 and draw(st.integers(0, 19)) == 0 \
                        and not any(x['x'] == UP for x in e['c']):
                    c['x'] = UP
    # where the files are: several directories, by first letter or not; others of the same name further on
    place = {n: [draw(st.integers(0, 1)), draw(st.booleans())] for n in have + [fam[0]]}
    decoys = {n: draw(st.booleans()) for n in place if place[n][0] == 0 and draw(st.integers(0, 5)) == 0}
    # locales from which to look for change
    changed = draw(st.sampled_from([None, None, None] + [[n] for n in fam + ['root', 'zz']]))
    return dict(name=fam[0], docs=ds, scripts=scripts, fallback=fallback, place=place, decoys=decoys, changed=changed, how=draw(st.sampled_from(['name', 'name', 'file', 'ldml'])))


def drop(e):
    return dict(e, c=[drop(c) for c in e['c'] if c['x'] != UP])


def write(case, ctx):
    dirs = [ctx.path('d0'), ctx.path('d1')]
    for d in dirs:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    def put(n, where, doc):
        d, alpha = where
        f = os.path.join(dirs[d], n[0].lower(), n + '.xml') if alpha else os.path.join(dirs[d], n + '.xml')
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'w', encoding='utf-8') as fh:
            fh.write(G.to_xml(doc))
        return f
    os.makedirs(dirs[0], exist_ok=True); os.makedirs(dirs[1], exist_ok=True)
    files = {}
    for n, w in case['place'].items():
        files[n] = put(n, w, case['docs'][n])
        if n in case['decoys']:
            put(n, [1, case['decoys'][n]], case['docs']['decoy'])
    return dirs, files


def expected(case):
    res = drop(case['docs'][case['name']])
    used = []
    for p in parents(case['name'], case['fallback']):
        if p not in case['place']:
            continue
        s = case['scripts'][p]
        if s is not None and s != case['scripts'][case['name']]:
            continue
        if p == 'root':
            for c in G.walk(res):
                if c['t'] == 'collation':
                    c['a'] = dict(c['a'], **{'sil:modified': 'true'})
        o = drop(case['docs'][p])
        used.append(p)
        res = fill(res, o)
    return res, used


def text_of(l):
    call(l.normalise)
    return IO.save(l)


def run(case, ctx):
    case = copy.deepcopy(case)
    dirs, files = write(case, ctx)
    name = case['name']
    if case['how'] == 'name':
        arg = name
    elif case['how'] == 'file':
        arg = open(files[name], encoding='utf-8')
    else:
        arg = call(LdmlMerge, files[name])
    kw = dict(fname=name) if case['how'] != 'name' else {}
    if case['changed'] is not None:
        kw['changed'] = set(case['changed'])
    l = call(flattenlocale, arg, dirs=dirs, rev='f', **kw)
    ch = parents(name, case['fallback'])
    if case['changed'] is not None and not any(c in ch for c in case['changed']):
        check(l is None, "flattened though nothing it depends on is among those changed, {}", case['changed'])
        return
    check(l is not None, "not flattened, changed: {}, parents {}", case['changed'], ch)
    want, used = expected(case)
    ctx.nontrivial(len(used) > 1)
    ctx.label('%d parents' % len(used))
    want = G.strip_drafts(want, 'unconfirmed')
    s = text_of(l)
    d = G.diff(G.canon(want), G.canon(G.parse(s)))
    check(d is None, "{} with {} filled in: wanted against flattened: {}", name, used, d)
    # flattening what is flat already changes nothing
    with open(files[name], 'w', encoding='utf-8') as fh:
        fh.write(s)
    s2 = text_of(call(flattenlocale, name, dirs=dirs, rev='f'))
    if not any(e['t'] == 'collation' for e in G.walk(want)):       # (these are now all its own)
        eq(s2, s, "flattened again")
    # and copying takes it as it is
    s3 = text_of(call(flattenlocale, name, dirs=dirs, rev='c'))
    eq(s3, s, "copied")


# ---- fonts and other resources
TYPES = ['default', 'heading', 'ui', 'emphasis']


def resources():
    font = st.tuples(st.just('font'), st.sampled_from('ABCD'), st.one_of(st.none(), st.lists(st.sampled_from(TYPES), max_size=2, unique=True)), st.integers(0, 2)).map(list)
    kbd = st.tuples(st.just('kbd'), st.sampled_from('KLM'), st.none(), st.integers(0, 2)).map(list)
    return st.one_of(st.none(), st.lists(st.one_of(font, font, kbd), max_size=4, unique_by=lambda x: (x[0], x[1])))


def urls(n, name, count):
    return ['http://%s/%s/%d' % (n, name, i) for i in range(int(count))]


def fontdoc(rs, n, other):
    kids = []
    if other:
        kids.append(G.E('special', {}, None, [G.E('sil:note', {}, 'note')]))
    if rs is not None:
        els = []
        for k, name, types, url in rs:
            a = {'name': name} if k == 'font' else {'id': name}
            if types is not None: a['types'] = " ".join(types)
            els.append(G.E('sil:' + k, a, None, [G.E('sil:url', {}, u) for u in urls(n, name, url)]))
        if not other:
            kids.append(G.E('special', {}, None, []))
        kids[0]['c'].append(G.E('sil:external-resources', {}, None, els))
    return identity(G.E('ldml', {}, None, kids))


def fontstrategy():
    return st.fixed_dictionaries(dict(child=resources(), parent=resources(), root=resources(), others=st.lists(st.booleans(), min_size=3, max_size=3)))


def run_fonts(case, ctx):
    """For what a locale has no font, its parents' fonts"""
    ls = [call(LdmlMerge, io.BytesIO(G.to_xml(fontdoc(case[k], k, case['others'][i])).encode('utf-8'))) for i, k in enumerate(('child', 'parent', 'root'))]
    call(ls[0].overlay, ls[1])
    call(ls[0].overlay, ls[2])
    got = G.parse(text_of(ls[0]))
    fonts = {}
    for e in G.walk(got):
        if e['t'] == 'sil:font':
            for t in e['a'].get('types', '').split() or ['default']:
                fonts.setdefault(t, set()).add((e['a']['name'], tuple(sorted(c['x'] for c in e['c']))))
    want, res = {}, {}
    for k in ('child', 'parent', 'root'):
        mine = {}
        for kind, name, types, url in case[k] or []:
            if kind == 'font':
                for t in types or ['default']:
                    mine.setdefault(t, set()).add((name, tuple(urls(k, name, url))))
        for t, v in mine.items():
            want.setdefault(t, v)
        for kind, name, types, url in case[k] or []:
            if kind == 'kbd':
                res[name] = res.get(name) or urls(k, name, url)
    ctx.nontrivial(sum(bool(case[k]) for k in ('child', 'parent', 'root')) > 1)
    eq({t: sorted(v) for t, v in fonts.items()}, {t: sorted(v) for t, v in want.items()}, "fonts by what they are for")
    kbds = sorted((e['a']['id'], sorted(c['x'] for c in e['c'])) for e in G.walk(got) if e['t'] == 'sil:kbd')
    eq(kbds, sorted(res.items()), "keyboards and their addresses")


CHECK = Check('C13', 'Flattening',
    'Families of related locale documents, laid out over directories, with scripts, fallbacks and locales of which the '
    'parents are not their prefixes; flattening is compared with filling in from each parent in turn, nearest first. '
    'Fonts and keyboards inherited through three documents. Non-trivial: at least two parents are used.',
    [Sub('chain', strategy, run, quick=220, thorough=3000, qshards=6, tshards=8),
     Sub('fonts', fontstrategy, run_fonts, quick=500, thorough=10000, qshards=2, tshards=8)],
    ['default drafts differing between parent and child are left out'])
