"""Aliases: flattening with aliases resolved puts in place of each what it points to in the
flattened locale."""
import os
from xml.etree import ElementTree as ET
from hypothesis import strategies as st
from vp.core import *
from sldr.ldml import Ldml
from sldr.ldml_merge import flattenlocale

CALS = ['chinese', 'buddhist', 'gregorian', 'islamic']
KINDS = ['month', 'day', 'quarter']
CTX = ['format', 'stand-alone', 'x-other']
WIDTH = ['abbreviated', 'narrow', 'short', 'wide']
KEYS = {'month': ['1', '2', '12'], 'day': ['sun', 'mon', 'sat'], 'quarter': ['1', '2', '4']}


# A locale is {cal: {kind: {ctx: {width: {key: text}}}}}; anything below a calendar may instead
# be ['alias', cal, kind, ctx, width] (to the depth of the place it stands in).

def content(name):
    def leaf(kind):
        return st.dictionaries(st.sampled_from(KEYS[kind]), st.integers(0, 9), min_size=1, max_size=3).map(
            lambda d: {k: '{}{}{}{}'.format(name, k, v, '' if v < 8 else '|alt %d' % v) for k, v in d.items()})      # some with an alternate
    def kind(k):
        return st.dictionaries(st.sampled_from(CTX), st.dictionaries(st.sampled_from(WIDTH), leaf(k), min_size=1, max_size=3), min_size=1, max_size=3)
    return st.dictionaries(st.sampled_from(CALS), st.one_of(*[st.fixed_dictionaries({k: kind(k)}) for k in KINDS] +
                           [st.fixed_dictionaries({k: kind(k) for k in KINDS[:2]})]), max_size=3)


@st.composite
def case_strategy(draw):
    docs = [draw(content('c')), draw(content('m')), draw(content('r'))][-draw(st.sampled_from([1, 2, 2, 3])):]
    root = docs[-1]
    cyclic = draw(st.integers(0, 9)) == 0
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(KINDS[:2]))
        depth = draw(st.sampled_from([2, 3, 4, 4, 4]))
        a = [draw(st.sampled_from(CALS)), kind, draw(st.sampled_from(CTX)), draw(st.sampled_from(WIDTH))][:depth]
        b = [draw(st.sampled_from(CALS)), kind, draw(st.sampled_from(CTX)), draw(st.sampled_from(WIDTH))][:depth]
        order = lambda p: [CALS.index(p[0])] + [0] + [CTX.index(x) for x in p[2:3]] + [WIDTH.index(x) for x in p[3:]]
        if order(a) == order(b): continue
        if order(a) > order(b) and not cyclic: a, b = b, a      # each alias points further on: none leads back
        at = root
        for x in a[:-1]:
            if isinstance(at, dict):
                at = at.setdefault(x, {})
        if isinstance(at, dict) and a[-1] not in at or draw(st.booleans()) and isinstance(at, dict):
            at[a[-1]] = ['alias'] + b
    return dict(docs=docs, quote=draw(st.booleans()), short=draw(st.booleans()))


def isalias(x):
    return isinstance(x, list)


def prune(x):
    if not isinstance(x, dict):
        return x
    res = {k: prune(v) for k, v in x.items()}
    return {k: v for k, v in res.items() if v != {}}


def tags(kind):
    return ['calendar', kind + 's', kind + 'Context', kind + 'Width', kind]


def apath(frm, to, quote, short):
    q = '"' if quote else "'"
    kind = frm[1]
    t = tags(kind)
    common = 0
    if short:
        while common < len(frm) - 1 and frm[common] == to[common]:
            common += 1
    up = ['..'] * (len(frm) - common)
    def step(n):
        return t[n] if n == 1 else '{}[@type={q}{}{q}]'.format(t[n], to[n], q=q)
    return "/".join(up + [step(n) for n in range(common, len(to))])


def write(fname, doc, locale, case):
    root = ET.Element('ldml')
    i = ET.SubElement(root, 'identity')
    ET.SubElement(i, 'version', number='1')
    ET.SubElement(i, 'language', type=locale.split('_')[0])
    cals = ET.SubElement(ET.SubElement(root, 'dates'), 'calendars')
    def fill(e, x, path):
        if isalias(x):
            ET.SubElement(e, 'alias', source='locale', path=apath(path, x[1:], case['quote'], case['short']))
            return
        for k, v in x.items():
            kind = path[1] if len(path) > 1 else k
            n = len(path)
            s = ET.SubElement(e, tags(kind)[n], {} if n == 1 else {'type': k})
            if n == 4:
                s.text = v.split('|')[0]
                for a in v.split('|')[1:]:
                    ET.SubElement(e, tags(kind)[n], {'type': k, 'alt': 'proposed'}).text = a
            else:
                fill(s, v, path + [k])
    fill(cals, doc, [])
    ET.ElementTree(root).write(fname, encoding='utf-8', xml_declaration=True)


def read(fname):
    res = {}
    root = ET.parse(fname).getroot()
    check(not list(root.iter('alias')), "an alias is left")
    def under(e, path):
        res = {}
        for s in e:
            k = s.tag[:-1] if len(path) == 1 else s.get('type')
            if s.get('alt') and k in res:
                res[k] += '|' + s.text
                continue
            check(k not in res, "{!r} is there twice in {!r}", k, path)
            if len(path) == 4:
                res[k] = s.text
            else:
                res[k] = under(s, path + [k])
        return res
    for cals in root.findall('dates/calendars'):
        res.update(under(cals, []))
    return res


def overlay(t, o):
    """What t lacks from o; an alias stands for what there is nothing of at all"""
    if isalias(t) or not isinstance(t, dict):
        return t
    if isalias(o):
        return t if t else o
    res = dict(t)
    for k, v in o.items():
        res[k] = overlay(res[k], v) if k in res else v
    return res


class Loop(Exception):
    pass


def resolve(tree):
    def get(path):
        at = tree
        for n, x in enumerate(path):
            if isalias(at):
                return None, path       # what is only reached through another alias is not there
            if x not in at:
                return None, path
            at = at[x]
        return at, path
    def full(x, path, seen):
        if isalias(x):
            to = x[1:]
            if tuple(to) in seen:
                raise Loop()
            v, p = get(to)
            return {} if v is None else full(v, p, seen | {tuple(to)})
        if isinstance(x, dict):
            return {k: full(v, path + [k], seen) for k, v in x.items()}
        return x
    return full(tree, [], frozenset())


def through(tree):
    """Whether some alias points at what is only there through another"""
    def walk(x):
        if isalias(x):
            at = tree
            for k in x[1:]:
                if isalias(at): return True
                if k not in at: return False
                at = at[k]
            return False
        return isinstance(x, dict) and any(walk(v) for v in x.values())
    return walk(tree)


def loops(tree):
    """Whether following aliases, from anything within what they point to, can lead back"""
    al = []
    def walk(x, path):
        if isalias(x): al.append((tuple(path), tuple(x[1:])))
        elif isinstance(x, dict):
            for k, v in x.items(): walk(v, path + [k])
    walk(tree, [])
    under = lambda a, b: a[:len(b)] == b or b[:len(a)] == a
    def reach(a, seen):
        for f, t in al:
            if under(f, a):
                if (f, t) in seen or reach(t, seen | {(f, t)}): return True
        return False
    return any(reach(t, {(f, t)}) for f, t in al)


def run(case, ctx):
    docs = [prune(d) for d in case['docs']]
    names = {1: ['root'], 2: ['aa', 'root'], 3: ['aa_BB', 'aa', 'root']}[len(docs)]
    d = ctx.path('sldr')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    for n, x in zip(names, docs):
        write(os.path.join(d, n + '.xml'), x, n, case)
    want = docs[0]
    for x in docs[1:]:
        want = overlay(want, x)
    if len(docs) == 1:
        l = Ldml(os.path.join(d, 'root.xml'))
        call(l.resolve_aliases)
    else:
        l = call(flattenlocale, names[0], [d], resolveAlias=True)
    check(l is not None, "nothing comes of flattening")
    call(l.normalise)
    out = ctx.path('out.xml')
    call(l.save_as, out)
    got = read(out)
    if loops(want):
        ctx.label('loop')
        return
    if through(want):
        ctx.label('through another')
        return
    res = prune(resolve(want))
    n = str(want).count("'alias'")
    ctx.label('aliases {}'.format(min(n, 4)))
    ctx.nontrivial(n and res != prune(want))
    eq(prune(got), res, "what is there, aliases resolved")


# three aliases of which the last leads back to the second
LOOP = dict(docs=[{'gregorian': {'month': {'format': {'abbreviated': ['alias', 'gregorian', 'month', 'format', 'narrow'],
                                                      'narrow': ['alias', 'gregorian', 'month', 'format', 'short'],
                                                      'short': ['alias', 'gregorian', 'month', 'format', 'narrow']}}}}], quote=False, short=True)


CHECK = Check('C21', 'Resolving aliases puts in place of each what it points to',
    'Non-trivial: an alias that points to something that is there.',
    [Sub('resolve', case_strategy, run, quick=1000, thorough=15000, qshards=4, fixed=[LOOP])])
