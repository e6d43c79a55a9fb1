"""C06: conversion to dicts"""
import random
import json

from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.rowgen import MetatabRowGenerator, TextRowGenerator
from metatab.util import flatten

from vlib import big, decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from props.c03 import build


@st.composite
def cases(draw):
    pool = draw(sp.name_pools(size=5))
    decl = dict(sections=[], terms=draw(dc.types(pool)))
    value = gen.weighted((gen.few_values, 3), (gen.values(), 1))
    doc = [['Root', [], []]]
    seen = {'root'}
    for i in range(draw(st.integers(1, 3))):
        if i:
            n = draw(gen.section_names)
            if n.lower() in seen or not gen.upper_ok(n):
                continue
            seen.add(n.lower())
            doc.append([n, draw(sp.columns(pool)), []])
        doc[-1][2] = dc.terminal_concats([draw(sp.term(pool, value, (), 2, True))
                                          for _ in range(draw(st.integers(0 if i else 1, 4)))], decl)
    return dict(decl=decl, doc=doc, route=draw(st.sampled_from(['row', 'decl', 'decl list', 'api', 'lines', 'csv',
                                                                'elided', 'declared lines', 'declared csv'])),
                columns=draw(st.booleans()))


def elide(rows):
    """Write children of the last term row with an elided parent"""
    last = None
    for r in rows:
        first = r[0]
        if '.' in first and len(r) == 2 and last is not None and first.split('.')[0].lower() == last:
            yield ['.' + first.split('.')[1], r[1]]
            continue
        yield r
        last = None if first.lower() == 'section' else first.split('.')[-1].lower()


def declared(case, ctx):
    decl, spec, route = case['decl'], case['doc'], case['route']
    if route.endswith(('lines', 'csv')):  # Blank children may be lost in writing
        spec = [[n, c, [dc.prune(t) for t in ts]] for n, c, ts in spec]
    path = ctx.write('decl.csv', dc.text(decl))
    rows = list(model.spec_rows(spec, case['columns']))
    tree = model.spec_tree(spec)

    if route == 'row':
        doc = obs.make([['Declare', path]] + rows)
    elif route == 'decl':
        doc = obs.make(rows, decl=path)
    elif route == 'decl list':
        doc = obs.make(rows, decl=[path])
    elif route == 'elided':
        # Only terminal children can be elided without changing the parent of those after them
        flat = [[s, c, [[t[0], t[1], [[k[0], k[1], []] for k in t[2]]] for t in ts]] for s, c, ts in spec]
        tree = model.spec_tree(flat)
        doc = obs.make(list(elide(model.spec_rows(flat, case['columns']))), decl=path)
    elif route == 'declared lines':
        doc = MetatabDoc(TextRowGenerator(obs.make(rows, decl=path).as_lines()))
    elif route == 'declared csv':
        doc = obs.make(obs.parse_csv(obs.make([['Declare', path]] + rows).as_csv()))
    elif route == 'api':
        doc = build(MetatabDoc(decl=path), spec)
    elif route == 'lines':
        doc = MetatabDoc(TextRowGenerator(obs.make(rows).as_lines()), decl=path)
    else:
        doc = obs.make(obs.parse_csv(obs.make(rows).as_csv()), decl=path)
    ctx.label(route)

    terms = [t for _, ts in tree for t in ts]
    before = obs.doc_tree(doc)
    tab = dc.table(decl)

    for replace in (True, False):
        exp = dc.blank(dc.as_dict(terms, 'root', decl, replace=replace))
        d = doc.as_dict() if replace else doc.as_dict(replace_value_names=False)
        got = dc.blank(json.loads(json.dumps(d)))
        same(got.pop('declare', path), path, 'the declaration in the dict')
        if not replace:
            got.pop('@value', None)  # The name of the section that holds the terms
        same(got, exp, 'dict of the document, replace_value_names=%s' % replace)
        same(json.dumps(doc.as_dict(replace)), json.dumps(d), 'dict of the document, the second time')

        for name, ts in tree:
            live = [t for t in doc[name] if t.record_term_lc != 'declare']
            check(len(live) == len(ts), 'terms of section {}', name)
            for t, tt in zip(live, ts):
                v = tab.get('root.' + tt[0], {}).get('vname') or '@value'
                same(dc.blank(json.loads(json.dumps(t.as_dict(replace)))),
                     dc.blank(dc.term_value(tt, tt[0], decl, v, '@value', replace)), 'dict of a term')
            if ts and name != 'Root':
                sd = dc.blank(json.loads(json.dumps(doc[name].as_dict(replace))))
                same(sd.pop('@value', name), name, 'name of the section, in its dict')
                same(sd, dc.blank(dc.as_dict(ts, 'root', decl, replace=replace)), 'dict of a section')
                check(doc[name].children == [], 'children of a section')

    same(obs.doc_tree(doc), before, 'the document, after converting it')

    used = [tab[k] for k in keys(terms, 'root') if k in tab]
    for t in used:
        ctx.label('type ' + (t['cpt'] or 'any'))
    if any(t['vname'] for t in used):
        ctx.label('value name')
    return bool(used) and len(terms) > 1


def keys(terms, parent):
    for name, value, children in terms:
        yield parent + '.' + name
        yield from keys(children, name)


# -- Header: the value name of a section ----------------------------------------------------------------------

def header(case, ctx):
    rows = [['Section', 'Stuff'], ['Header', case['vname']] + case['cols']]
    sub = case.get('sub')
    api = obs.make(rows)
    for n, v, cells in case['terms']:
        rows.append([n, v] + cells)
        if sub is not None and n.lower() != 'subterm':
            rows.append([n + '.Subterm', 'w'] + sub)
    exp = {}
    for n, v, cells in case['terms']:
        d = {case['cols'][i].lower(): c for i, c in enumerate(cells) if c}
        props = {case['cols'][i]: c for i, c in enumerate(cells) if c}
        t = api['Stuff'].new_term(n, v, **props)
        if sub is not None and n.lower() != 'subterm':
            e = {case['cols'][i].lower(): c for i, c in enumerate(sub) if c}
            d['subterm'] = dict(e, **{case['vname'].lower() or '@value': 'w'}) if e else 'w'
            c = t.new_child('Subterm', 'w')
            for i, x in enumerate(sub):
                if x:
                    c[case['cols'][i]] = x
        if d:
            d[case['vname'].lower() or '@value'] = v
        else:
            d = v
        exp.setdefault(n.lower(), []).append(d)
    exp = {k: v[0] if len(v) == 1 else v for k, v in exp.items()}
    doc = obs.make(rows)
    same(json.loads(json.dumps(doc.as_dict())), exp, 'dict of a document with a Header')
    same(json.loads(json.dumps(api.as_dict())), exp, 'dict of a document with a Header, and terms made with the API')
    return any(c for t in case['terms'] for c in t[2])


@st.composite
def header_cases(draw):
    pool = [n for n in draw(sp.name_pools(size=6)) if n.lower() not in ('vn', 'fname')]
    cols = draw(sp.columns(pool or ['Alpha'], max_size=3)) or ['Alpha']
    return dict(vname=draw(st.sampled_from(['', 'Vn', 'fname'])), cols=cols,
                sub=draw(st.one_of(st.none(), st.lists(gen.weighted((gen.few_values, 3), (st.just(''), 1)), max_size=len(cols)))),
                terms=draw(st.lists(st.tuples(st.sampled_from(pool or ['Alpha']), gen.few_values,
                                              st.lists(gen.weighted((gen.few_values, 3), (st.just(''), 1)),
                                                       max_size=len(cols))).map(list), min_size=1, max_size=4)))


# -- flatten --------------------------------------------------------------------------------------------------

leaf = st.one_of(st.none(), st.text('abc.', max_size=3), st.integers(0, 3))
tree = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4),
                                              st.dictionaries(st.text('abXY_', min_size=1, max_size=3), c, max_size=4)),
                    max_leaves=20)


def flat(case, ctx):
    d, sep = case['d'], case['sep']

    def walk(e, path):
        if isinstance(e, dict):
            for k, v in e.items():
                yield from walk(v, path + [k])
        elif isinstance(e, list):
            for i, v in enumerate(e):
                yield from walk(v, path + [str(i)])
        else:
            yield sep.join(path), e

    got = flatten(d, sep) if sep != '.' else flatten(d)
    same([list(e) for e in got], [list(e) for e in walk(d, [])], 'flattened')
    return isinstance(d, (dict, list)) and len(got) > 1


def large(case, ctx):
    """Many repeated and nested terms"""
    r = random.Random(case['seed'])
    names = ['Nm%d' % i for i in range(case['names'] + 3)]
    decl = dict(sections=[], terms=[])
    for k in {(r.choice(['Root'] + names), r.choice(names)) for _ in range(case['declared'])}:
        if k[0] != k[1]:
            decl['terms'].append(dict(term='.'.join(k), vname=r.choice(['', '', 'Vname', 'FN']), cpt=r.choice([''] + dc.TYPES)))
    decl['terms'].sort(key=lambda t: t['term'])
    doc = big.doc(dict(case, names=len(names), depth=6))
    for s in doc:
        s[2] = dc.terminal_concats(s[2], decl)
    return declared(dict(decl=decl, doc=doc, route=r.choice(['row', 'decl', 'api', 'lines', 'csv', 'declared csv']),
                         columns=r.random() < 0.5), ctx)


def deep(case, ctx):
    d = 'x'
    if case['kind'] == 'wide':
        d = {'k%d' % i: list(range(10)) for i in range(case['n'])}
    else:
        for i in range(case['n']):
            d = [d, i] if case['kind'] == 'list' else {'k': d, 'n': i}
    return flat(dict(d=d, sep='.'), ctx)


CHECKS = [
    Check('declared', cases(), declared, quick=2400,
          rule='documents over a small pool of names, so names repeat, with a generated declaration of child property '
               'types and value names, made by 9 routes (Declare row, decl argument, API, elided rows, Lines, CSV), compared with '
               'a model of the conversion; non-trivial: more than one term, and a declared term is used'),
    Check('header', header_cases(), header, quick=300,
          rule='sections with a Header row that names the value and the columns; non-trivial: some property'),
    Check('flatten', st.fixed_dictionaries(dict(d=tree, sep=st.sampled_from(['.', '.', '/', '::']))), flat, quick=600,
          rule='nested lists and dicts; non-trivial: more than one leaf'),
    Check('large', big.sizes(sections=8, terms=15, width=12, names=12, declared=60), large, quick=60,
          rule='documents of up to 8 sections with up to 15 terms each, and up to 60 declared terms; non-trivial: as in declared'),
    Check('deep', st.fixed_dictionaries(dict(n=st.integers(1, 300), kind=st.sampled_from(['list', 'dict', 'wide']))), deep, quick=40,
          rule='structures nested up to 300 deep, or with up to 3000 leaves'),
]
