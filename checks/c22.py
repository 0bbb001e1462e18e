"""The command-line tools do to files what they say, and nothing to others."""
import copy, os, re, shutil
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO, script, tailor, family
from checks import c07, c12, c13, c15
from sldr.ldml import Ldml
from sldr.ldml_merge import LdmlMerge, flattenlocale


def fresh(ctx, name):
    d = ctx.path(name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def put(f, text):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, 'w', encoding='utf-8', newline='') as fh:
        fh.write(text)


def get(f):
    with open(f, encoding='utf-8', newline='') as fh:
        return fh.read()


def tree(d):
    """Every file under a directory, with its bytes"""
    res = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as fh:
                res[os.path.relpath(os.path.join(p, f), d)] = fh.read()
    return res


def same(text, want, what):
    """What is written is the document wanted, drafts and alternates as for loading and saving"""
    try:
        got = G.parse(text)
    except G.ET.ParseError as e:
        raise Violation("{}: what is written is not well formed: {}\n{}".format(what, e, text))
    d = G.diff(G.canon(want), G.canon(got))
    check(d is None, "{}: wanted against written: {}", what, d)


def canonical(doc):
    dd = G.default_draft(doc)
    return G.strip_drafts(c07.best(doc, dd), dd)


# ---- ldmlnormalize

NAMES = ['aa.xml', 'b/bb.xml', 'b/bb_Latn.xml', 'c/cc.ldml', 'dd.ldml', 'e/ee.xml']
OTHERS = ['b/notes.txt', 'c/cc.xml.bak', 'README', 'b/ff.xmlx', 'z/readme.md']


@st.composite
def normalize_strategy(draw):
    n = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    return dict(docs={x: draw(G.document(depth=draw(st.integers(2, 4)), width=3, unknown=True, foreign=True, lists=True)) for x in names},
                broken=draw(st.sampled_from([None, None, 'b/broken.xml', 'aaa.xml'])),
                others=draw(st.lists(st.sampled_from(OTHERS), max_size=3, unique=True)),
                how=draw(st.sampled_from(['dir', 'dir out', 'file', 'file out'])))


def run_normalize(case, ctx):
    src = fresh(ctx, 'src')
    for n, d in case['docs'].items():
        put(os.path.join(src, n), G.to_xml(d))
    names = sorted(case['docs'])
    if case['broken']:
        put(os.path.join(src, case['broken']), '<ldml><identity></ldml>')
    for o in case['others']:
        put(os.path.join(src, o), 'not <an> LDML file')
    before = tree(src)
    dst = src
    if 'out' in case['how']:
        dst = fresh(ctx, 'dst')
        for n in before:
            os.makedirs(os.path.dirname(os.path.join(dst, n)), exist_ok=True)
    if case['how'].startswith('file'):
        names = names[:1]
        code, out = script.run('ldmlnormalize', os.path.join(src, names[0]), *([os.path.join(dst, names[0])] if dst != src else []))
    else:
        code, out = script.run('ldmlnormalize', src, *([dst] if dst != src else []))
        if case['broken']:
            check(case['broken'].split('/')[-1] in (out or ''), "nothing is said of the file that cannot be read: {!r}", out)
    eq(code, 0, "exit status of ldmlnormalize")
    ctx.label(case['how'])
    ctx.nontrivial(sum(1 for d in case['docs'].values() for e in G.walk(d)) > 8)
    after = tree(dst)
    for n in names:
        check(n in after, "{} is not written", n)
        same(after[n].decode('utf-8'), canonical(case['docs'][n]), n)
        eq(after[n].decode('utf-8'), IO.save(IO.load(G.to_xml(case['docs'][n]))), "{} normalised".format(n))
    if dst != src:
        eq(tree(src), before, "the files read")
        eq(sorted(after), names, "the files written")
    else:
        eq({n: b for n, b in after.items() if n not in names}, {n: b for n, b in before.items() if n not in names}, "the other files")
    # and again
    if case['how'].startswith('file'):
        script.run('ldmlnormalize', os.path.join(dst, names[0]))
    else:
        script.run('ldmlnormalize', dst)
    eq(tree(dst), after, "files normalised again")


# ---- ldmlflatten

@st.composite
def flatten_strategy(draw):
    case = draw(c13.strategy())
    stub = draw(st.booleans())
    if stub:        # one with nothing but its identity
        n = draw(st.sampled_from(sorted(case['place'])))
        case['docs'][n] = dict(case['docs'][n], c=[c for c in case['docs'][n]['c'] if c['t'] in ('identity', 'fallback')])
    case.update(changed=None, how='name', opts=draw(st.lists(st.sampled_from(['-a', '--skipstubs', '-t', '--revid']), max_size=3, unique=True)),
                mode=draw(st.sampled_from(['f', 'f', 'f', 'r', 'c'])), some=draw(st.booleans()), pool=draw(st.integers(0, 7)) == 5)
    return case


def isstub(doc):
    return [c['t'] for c in c13.drop(doc)['c']] == ['identity']


def run_flatten(case, ctx):
    case = copy.deepcopy(case)
    dirs, files = c13.write(case, ctx)
    out = ctx.path('out')
    shutil.rmtree(out, ignore_errors=True)
    before = [tree(d) for d in dirs]
    names = sorted(case['place'])
    args = [a for d in dirs for a in ('-i', d)] + ['-o', out]
    for o in case['opts']:
        args += [o] if o != '--revid' else ['--revid', 'abc123']
    if case['mode'] != 'f':
        args.append('-' + case['mode'])
    if case['some']:
        names = [case['name']]
        args += ['-l', case['name']]
    ctx.label(case['mode'] + (' one' if case['some'] else ' all') + (' several processes' if case['pool'] else ''))
    if case['pool']:
        code, text, err = script.spawn('ldmlflatten', *args)
    else:
        code, text = script.run('ldmlflatten', '-s', *args)
    eq(code, 0, "exit status of ldmlflatten")
    eq([tree(d) for d in dirs], before, "the files read")
    got = tree(out) if os.path.isdir(out) else {}
    want = {}
    for n in names:
        fn = os.path.join(n[0].lower(), n + '.xml') if '-a' in case['opts'] else n + '.xml'
        if '--skipstubs' in case['opts'] and isstub(case['docs'][n]):
            ctx.label('stub')
            continue
        want[fn] = n
    if '--skipstubs' in case['opts'] and case['mode'] == 'r':     # those of which nothing else is left
        for fn, n in list(want.items()):
            if call(flattenlocale, n, dirs=dirs, rev='r', skipstubs=True) is None:
                del want[fn]
    eq(sorted(got), sorted(want), "the files written")
    for fn, n in want.items():
        text = got[fn].decode('utf-8')
        if '--revid' in case['opts']:
            check('revid="abc123"' in text, "the revision is not in {}", fn)
        elif case['mode'] == 'f':
            exp, used = c13.expected(dict(case, name=n, fallback=case['fallback'] if n == case['name'] else None))
            ctx.nontrivial(len(used) > 1)
            same(text, G.strip_drafts(exp, 'unconfirmed'), "{} flattened".format(n))
        elif case['mode'] == 'c':
            same(text, canonical(c13.drop(case['docs'][n])), "{} copied".format(n))
        else:
            l = call(flattenlocale, n, dirs=dirs, rev='r')
            same(text, G.parse(c13.text_of(l)), "{} unflattened".format(n))


# ---- imports in collations

LOCALES = ['men', 'en', 'de', 'sde', 'und', 'sr_Latn', 'de_AT']
TYPES = ['standard', 'phonebook', 'search', 'pinyin']
BCP = {'phonebook': 'phonebk'}


def lookup(l, t, colls):
    """The nearest locale of which there is a collation, its own or inherited"""
    for x in ([l, l.rpartition('_')[0]] if '_' in l else [l]) + ['und']:
        if (x, t) in colls: return (x, t)


@st.composite
def imports_strategy(draw):
    order = draw(st.permutations([(l, t) for l in LOCALES for t in TYPES]))[:draw(st.integers(1, 8))]
    colls = []
    for i, (l, t) in enumerate(order):
        parts = []
        for _ in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 0]))):
            if draw(st.booleans()):
                parts.append(draw(st.sampled_from(['&a < b', '&c <<< d', '[reorder Latn]', '&m << n # [import]', '[caseFirst upper]'])))
            elif i and draw(st.integers(0, 3)) == 0 and any(lookup(l, t, order) in order[:i] for l in LOCALES for t in TYPES):    # (or one inherited)
                parts.append(list(draw(st.sampled_from([(l, t) for l in LOCALES for t in TYPES if lookup(l, t, order) in order[:i]]))))
            elif i and draw(st.integers(0, 4)):
                parts.append(list(draw(st.sampled_from(order[:i]))))
            else:
                parts.append([draw(st.sampled_from(LOCALES + ['zz'])), 'traditional'])
        colls.append([l, t, parts])
    return dict(colls=colls, space=draw(st.booleans()), short=draw(st.booleans()), main=draw(st.integers(0, 7)), first=draw(st.booleans()))


def run_imports(case, ctx):
    d = fresh(ctx, 'sldr')
    colls = {(l, t): parts for l, t, parts in case['colls']}

    def spell(p):
        if isinstance(p, str): return p
        t = BCP.get(p[1], p[1]) if case['short'] else p[1]
        return '[import{}{}-u-co-{}]'.format('  ' if case['space'] else ' ', p[0].replace('_', '-'), t)
    locs = {}
    for (l, t), parts in sorted(colls.items()):
        locs.setdefault(l, []).append(G.E('collation', {'type': t}, None, [G.E('cr', {}, "\n".join(map(spell, parts)) or None)]))
    for l, cs in locs.items():
        doc = G.E('ldml', {}, None, [G.E('identity', {}, None, [G.E('version', {'number': '1'}), G.E('language', {'type': l.split('_')[0]})]),
                                     G.E('collations', {}, None, cs)])
        put(os.path.join(d, ('root' if l == 'und' else l) + '.xml'), G.to_xml(doc))

    def expand(l, t):       # (what is inherited is only looked for where the locale is flattened)
        at = lambda p: lookup(p[0], p[1], colls) if p[0] == main else tuple(p) if tuple(p) in colls else None
        return "\n".join(p if isinstance(p, str) else expand(*at(p)) if at(p) else '' for p in colls[(l, t)])
    main = sorted(x for x in locs if x != 'und')
    if not main: return
    main = main[case['main'] % len(main)]
    ctx.nontrivial(any(not isinstance(p, str) and tuple(p) in colls for (l, t), ps in colls.items() if l == main for p in ps))
    r = call(flattenlocale, main, [d], flattencollation=True)
    got = {c.get('type'): (c.find('cr').text or '') for c in r.root.findall('collations/collation')}
    chain = [x for x in ([main, main.rpartition('_')[0]] if '_' in main else [main]) if x] + ['und']
    norm = lambda s: [x.strip() for x in s.split('\n') if x.strip()]
    for l in reversed(chain):
        for (ll, t) in colls:
            if ll == l and (l == main or not any((x, t) in colls for x in chain[:chain.index(l)])):
                check(t in got, "no collation {!r}", t)
                eq(norm(got[t]), norm(expand(l, t)), "collation {!r} of {!r} with its imports".format(t, main))


# ---- ldmlmerge

@st.composite
def merge_strategy(draw):
    case = draw(c12.strategy())
    case['out'] = draw(st.booleans())
    case['two'] = draw(st.integers(0, 5)) == 0
    return case


def run_merge(case, ctx):
    A = case['doc']
    eds = case['edits'] + case['adds']
    X, Y = [e for e in eds if e[3]], [e for e in eds if not e[3]]
    docs = dict(this=c12.apply(A, X), base=A, other=c12.apply(A, Y))
    want = c12.apply(A, X + Y)
    d = fresh(ctx, 'merge')
    files = {}
    for n, x in docs.items():
        files[n] = os.path.join(d, n + '.xml')
        put(files[n], G.to_xml(x))
    if case['two']:
        want = docs['this']
        del files['other']
    before = tree(d)
    args = [files[n] for n in ('this', 'base', 'other') if n in files]
    out = ctx.path('merged.xml')
    if os.path.exists(out): os.unlink(out)
    code, text = script.run('ldmlmerge', *(args + (['-o', out] if case['out'] else [])))
    eq(code, 0, "exit status of ldmlmerge")
    eq(tree(d), before, "the files read")
    if case['out']:
        check(os.path.exists(out), "nothing is written")
        text = get(out)
    ctx.label('to a file' if case['out'] else 'to standard output')
    ctx.label('no other' if case['two'] else 'both sides' if X and Y else 'one side' if X or Y else 'no change')
    ctx.nontrivial(X and Y)
    same(text or '', canonical(want), "merged")


# ---- icupretty

def run_pretty(case, ctx):
    ref, text, words = c15.prepare(case, ctx)
    if ref is None:
        return
    f, out = ctx.path('tailoring.txt'), ctx.path('pretty.txt')
    put(f, text)
    if os.path.exists(out): os.unlink(out)
    code, got = script.run('icupretty', f, *(['-o', out] if case['wrap'] else []))
    eq(code, 0, "exit status of icupretty")
    eq(get(f), text, "the file read")
    if case['wrap']:
        got = get(out)
    check(got is not None, "nothing is written")
    c15.same_order(ref, got, words, "{!r} written by icupretty".format(text))


# ---- zonetab

def zones():
    num = lambda a, b: st.integers(a, b)
    zone = st.fixed_dictionaries(dict(cc=st.sampled_from(['AD', 'BR', 'GL', 'IN', 'ZA']), lat=st.tuples(num(-89, 89), num(0, 59), num(-1, 59)),
                                      long=st.tuples(num(-179, 179), num(0, 59)), neg=st.tuples(st.booleans(), st.booleans()),
                                      name=st.sampled_from(['Africa/Luanda', 'Asia/Kolkata', 'America/Nuuk', 'Europe/Andorra', 'Pacific/Apia', 'Africa/Asmara', 'America/Araguaina']),
                                      note=st.booleans()))
    return st.lists(zone, max_size=6, unique_by=lambda z: z['name'])


FIX = {'Asia/Kolkata': 'Asia/Calcutta', 'America/Nuuk': 'America/Godthab', 'Africa/Asmara': 'Africa/Asmera'}


def run_zones(case, ctx):
    lines, want = ['# comment\n'], {}
    for z in case:
        (a, b, c), (d, e) = z['lat'], z['long']
        sa, sd = '+' if not z['neg'][0] else '-', '+' if not z['neg'][1] else '-'
        a, d = abs(a), abs(d)
        pos = '{}{:02d}{:02d}{}{}{:03d}{:02d}{}'.format(sa, a, b, '' if c < 0 else '{:02d}'.format(c), sd, d, e, '' if c < 0 else '30')
        lines.append("\t".join([z['cc'], pos, z['name']] + (['a note'] if z['note'] else [])) + '\n')
        lat = (a + b / 60. + max(c, 0) / 3600.) * (-1 if z['neg'][0] else 1)
        lon = (d + e / 60. + (30 if c >= 0 else 0) / 3600.) * (-1 if z['neg'][1] else 1)
        want[FIX.get(z['name'], z['name'])] = (z['cc'], lat, lon)
    ctx.nontrivial(any(n for z in case for n in z['neg']))
    f, out = ctx.path('zone.tab'), ctx.path('tzones.csv')
    put(f, "".join(lines))
    code, text = script.run('zonetab', f, out)
    eq(code, 0, "exit status of zonetab")
    rows = [[x.strip() for x in l.split(',')] for l in get(out).splitlines()]
    got = {r[0]: (r[1], float(r[2]), float(r[3])) for r in rows}
    eq(len(got), len(rows), "number of zones, and of rows")
    for n, w in want.items():
        check(n in got, "no row for {!r}", n)
        g = got[n]
        check(g[0] == w[0] and abs(g[1] - w[1]) < 1e-3 * max(1, abs(w[1])) and abs(g[2] - w[2]) < 1e-3 * max(1, abs(w[2])),
              "{!r} is given as {!r}, it is {!r}", n, g, w)
    eq({n for n in got if not n.startswith('Etc/')}, set(want), "the zones")
    order = [(r[1], float(r[2])) for r in rows]
    eq(order, sorted(order), "the order of the rows")


CHECK = Check('C22', 'The command-line tools do to files what they say, and nothing to others',
    'Generated directories, families, triples of versions, tailorings and zone tables, given to the scripts as files. '
    'Non-trivial: documents of more than eight elements; more than one ancestor; changes on both sides; an import of what is there; '
    'a tailoring of several relations; a southern or western zone.',
    [Sub('normalize', normalize_strategy, run_normalize, quick=120, thorough=2000, qshards=2),
     Sub('flatten', flatten_strategy, run_flatten, quick=60, thorough=1000, qshards=3, cpu=60),
     Sub('imports', imports_strategy, run_imports, quick=600, thorough=8000, qshards=2),
     Sub('merge', merge_strategy, run_merge, quick=120, thorough=2000, qshards=2),
     Sub('pretty', c15.rules_case(again=True), run_pretty, quick=150, thorough=3000, qshards=1),
     Sub('zones', zones, run_zones, quick=300, thorough=5000, qshards=1)],
    ['collations of the documents flattened have no imports but in their own sub-check'])
