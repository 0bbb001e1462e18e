"""Paths address elements: finding, making sure of, removing, and describing elements by path."""
from collections import Counter
from hypothesis import strategies as st
from vp.core import *
from vp import ldmlgen as G, ldmlio as IO

VALS = ['a', 'b', 'Africa/Abidjan', 'x=y', "it's", 'a b', '[x', '{0}', 'ü', '@']


def simple(e, n=[0]):
    """Attribute values that can stand in a path"""
    for k, v in e['a'].items():
        if any(c in v for c in ']"') or v != v.strip() or '\n' in v or '\t' in v:
            e['a'][k] = VALS[len(v) % len(VALS)]
    for c in e['c']:
        simple(c)
    return e


@st.composite
def strategy(draw):
    doc = simple(draw(G.document(depth=4, width=4, alts=False, comments=False,
        tops=['dates', 'numbers', 'localeDisplayNames', 'special', 'characters', 'collations', 'units'])))
    if draw(st.integers(0, 2)) == 0:        # attributes with nothing in them
        for e in list(G.walk(doc)):
            like = [(c, k) for c in e['c'] for k in c['a'] if k in G.keyattrs(c['t'])]
            if like and draw(st.booleans()):
                c, k = draw(st.sampled_from(like))
                e['c'].append(dict(c, a=dict(c['a'], **{k: ''}), c=[]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append(dict(op=draw(st.sampled_from(['find', 'find', 'ensure', 'ensure', 'remove', 'xpath', 'deep', 'relative'])),
                        node=draw(st.integers(0, 200)), preds=draw(st.integers(0, 255)), extra=draw(st.lists(st.sampled_from(
                            ['language', 'sil:font', 'x', 'territories', 'sil:note', 'special']), max_size=3)),
                        val=draw(st.one_of(st.none(), st.sampled_from(VALS))), quote=draw(st.sampled_from('"\'')), dot=draw(st.booleans()),
                        att=draw(st.sampled_from(['type', 'id', 'sil:alias', 'xml:lang', 'draft2']))))
    return dict(doc=doc, usedrafts=draw(st.booleans()), ops=ops)


def tagname(e):
    return G.lname(e.tag)


def attrs(e):
    return {G.lname(k): v for k, v in e.attrib.items()}


def parents(root):
    return {id(c): p for p in root.iter() for c in p}


def lineage(root, n, par):
    res = []
    while n is not root:
        res.append(n)
        n = par[id(n)]
    return res[::-1]


def step_text(tag, preds, q):
    return tag + "".join('[@{}={}{}{}]'.format(k, q if q not in v else '"', v, q if q not in v else '"') for k, v in preds.items())


def select(nodes, steps):
    """Reference reading: children of each tag with each attribute value"""
    for tag, preds in steps:
        nodes = [c for n in nodes for c in n if tagname(c) == tag and all(attrs(c).get(k, '') == v for k, v in preds.items())]
    return nodes


def shape(e):
    return (e.tag, sorted(e.attrib.items()), e.text, [shape(c) for c in e])


def ids(l):
    return [id(x) for x in l]


def run(case, ctx):
    ldml = IO.load(G.to_xml(case['doc']), case['usedrafts'])
    root = ldml.root
    for o in case['ops']:
        all_ = [e for e in root.iter() if e is not root]
        if not all_:
            break
        par = parents(root)
        n = all_[o['node'] % len(all_)]
        ctx.label(o['op'])
        bits = o['preds']
        steps = []
        for i, e in enumerate(lineage(root, n, par)):
            a = attrs(e)
            ks = [k for j, k in enumerate(sorted(a)) if not (bits >> ((i + j) % 8)) & 1]
            steps.append((tagname(e), {k: a[k] for k in ks}))
        if o['op'] == 'xpath':
            # what an element is described by finds it
            p = call(ldml.as_xpath, n)
            got = call(ldml.findall, p)
            check(any(x is n for x in got), "{} does not find the element it describes", p)
            check(all(x.tag == n.tag for x in got), "{} finds elements of other names", p)
            keys = lambda e: {k: v for k, v in attrs(e).items() if k in G.keyattrs(tagname(e)) + ['alt']}
            full = select([root], [(tagname(e), dict(keys(e), **({'draft': e.get('draft')} if e.get('draft') and not G.KEYS.get(tagname(e)) else {})))
                                   for e in lineage(root, n, par)])
            check(set(ids(got)) <= set(ids(full)), "{} does not tell {} from others", p, shape(n)[:2])
            q = call(ldml.as_xpath, n, usedrafts=True)
            check('@draft' not in q, "a path that leaves out drafts: {}", q)
            got = call(ldml.findall, q)
            check(any(x is n for x in got), "{} does not find the element it describes", q)
            ctx.nontrivial(len(steps) > 2)
            continue
        if o['op'] == 'deep':
            tag, preds = steps[-1]
            p = './/' + step_text(tag, preds, o['quote'])
            want = [e for e in root.iter() if e is not root and tagname(e) == tag and all(attrs(e).get(k, '') == v for k, v in preds.items())]
            eq(sorted(ids(call(ldml.findall, p))), sorted(ids(want)), "elements found by {}".format(p))
            continue
        base = None
        if o['op'] == 'relative' and len(steps) > 1:
            k = bits % (len(steps) - 1) + 1
            base = lineage(root, n, par)[k - 1]
            steps = steps[k:]
        if o['op'] in ('find', 'remove', 'relative') and bits % 5 == 0 and o['val']:
            steps[-1][1][o['att']] = o['val']          # perhaps no such element
        if o['op'] == 'ensure':
            steps += [(t, {}) for t in o['extra']]
            ka = [k for k in G.keyattrs(steps[-1][0]) if k != 'xmlns:sil']
            if o['val'] is not None and ka:
                steps[-1][1][ka[len(o['att']) % len(ka)]] = o['val']
        path = ('./' if o['dot'] else '') + "/".join(step_text(t, p, o['quote']) for t, p in steps)
        want = select([base if base is not None else root], steps)
        kw = dict(elem=base) if base is not None else {}
        before = shape(root)
        if o['op'] in ('find', 'relative'):
            got = call(ldml.findall, path, **kw)
            eq(ids(got), ids(want), "elements found by {}".format(path))
            f = call(ldml.find, path, **kw)
            check(f is (want[0] if want else None), "first element found by {}", path)
            eq(ids(call(ldml.ensure_path, path, dontadd=True, base=base)), ids(want), "elements at {} without adding".format(path))
            eq(shape(root), before, "the document after finding {}".format(path))
            ctx.nontrivial(len(want) > 0 and len(steps) > 2)
        elif o['op'] == 'ensure':
            old = [id(e) for e in root.iter()]
            got = call(ldml.ensure_path, path)
            if want:
                eq(ids(got), ids(want), "elements at {}".format(path))
                eq(shape(root), before, "the document after making sure of {}".format(path))
                continue
            ctx.label('created')
            ctx.nontrivial(len(steps) > 2)
            eq(len(got), 1, "elements made for {}".format(path))
            n = got[0]
            eq((tagname(n), {k: v for k, v in attrs(n).items() if k not in ('draft', 'alt')}),
               (steps[-1][0], {k: v for k, v in steps[-1][1].items() if k not in ('draft', 'alt') and v}), "the element made for {}".format(path))
            eq(ids(call(ldml.ensure_path, path)), [id(n)], "elements at {} once made".format(path))
            new = [e for e in root.iter() if id(e) not in old]
            # the longest part of the path there was is what the rest is added to
            k = max(i for i in range(len(steps) + 1) if select([root], steps[:i]) and any(id(e) in old for e in select([root], steps[:i])))
            if len(new) and all('alt' not in e.attrib for e in new):
                gone = [i for i in old if i not in {id(e) for e in root.iter()}]
                eq(gone, [], "elements gone after making {}".format(path))
                eq(len(new), len(steps) - k, "elements made for {}".format(path))
        else:
            got = call(ldml.remove_path, path)
            eq(ids(got), ids(want), "elements removed by {}".format(path))
            eq(call(ldml.findall, path), [], "elements at {} once removed".format(path))
            left = {id(e) for e in root.iter()}
            dropped = {id(x) for e in want for x in e.iter()}
            eq(sorted(left | dropped), sorted({id(e) for e in all_} | {id(root)}), "elements left and removed by {}".format(path))
            check(not (left & dropped), "{} removed but still there", path)
            ctx.nontrivial(len(want) > 0)


CHECK = Check('C11', 'Paths address elements',
    'Histories of finding, making sure of, removing and describing elements of generated documents, by paths made from '
    'elements in the tree, with and without attribute tests, extended with new steps; compared with a reference '
    'selection. Non-trivial: a path of three or more steps that finds or makes something.',
    [Sub('paths', strategy, run, quick=250, thorough=6000, qshards=8, tshards=8)],
    ['attribute values in paths have no ] or double quote'])
