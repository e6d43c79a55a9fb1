"""C16: columns of sections, and cleaning the schema, never change the content"""
import random
from hypothesis import strategies as st

from metatab import MetatabDoc

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from props.c03 import build

PROPS = ['Datatype', 'altname', 'Description', 'valuetype', 'Width', 'units', 'Url', 'x y', 'under_score', 'a-b']


@st.composite
def cases(draw):
    def props(n):
        return [[draw(gen.recase(st.sampled_from(PROPS))), draw(gen.weighted((gen.few_values, 5), (gen.values(), 2),
                                                                             (st.none(), 1))), []]
                for _ in range(draw(st.integers(0, n)))]

    tables = []
    for _ in range(draw(st.integers(0, 3))):
        kids = [['Column', draw(gen.few_values), props(4)] for _ in range(draw(st.integers(0, 4)))]
        # Tables have properties, too
        for p in props(2):
            kids.insert(draw(st.integers(0, len(kids))), p)
        tables.append([draw(st.sampled_from(['Table', 'Table', 'Table', 'Other'])), draw(gen.few_values), kids])
    cols = draw(st.lists(st.sampled_from(PROPS + ['Unused', 'note']), max_size=6, unique=True))
    cols = [draw(st.sampled_from([c, c, c.lower(), c.upper(), c.title()])) for c in cols]
    other = [['Root', [], [['Title', 't', []]]], ['Resources', ['Datatype', 'Unused'],
                                                 [['Table', 'a', [['Column', 'x', [['Datatype', 'y', []]]]]]]]]
    return dict(tables=tables, cols=cols, other=draw(st.booleans()), api=draw(st.booleans()), columns=draw(st.booleans()),
                rest=other)


def clean(case, ctx):
    spec = (case['rest'] if case['other'] else [['Root', [], []]]) + [['Schema', case['cols'], case['tables']]]
    doc = build(MetatabDoc(), spec) if case['api'] else obs.make(list(model.spec_rows(spec, case['columns'])))
    before = obs.doc_tree(doc)
    others = {s.name: list(s.property_names) for s in doc if s.name != 'Schema'}
    live = [id(t) for t in doc.terms]

    doc.clean_unused_schema_terms()

    # Only blank properties of columns are removed
    exp = []
    for s, ts in before:
        nts = []
        for t in ts:
            if s == 'Schema' and t[0] == 'table':
                t = [t[0], t[1], [[c[0], c[1], [p for p in c[2] if p[1]]] if c[0] == 'column' else c for c in t[2]]]
            nts.append(t)
        exp.append([s, nts])
    same(obs.doc_tree(doc), exp, 'the document, after cleaning the schema')
    same([id(t) for t in doc.terms], live, 'the terms')
    obs.check_links(doc)

    # The columns are the properties that are used by some table column
    used, unclear = set(), set()
    for t in exp[-1][1]:
        if t[0] == 'table':
            for c in t[2]:
                if c[0] == 'column':
                    used.update(p[0] for p in c[2])
    for t in before[-1][1]:
        for c in t[2]:
            names = [p[0] for p in c[2]]
            unclear.update(p[0] for p in c[2] if names.count(p[0]) > 1 and not all(q[1] for q in c[2] if q[0] == p[0]))
    cols = [c.lower() for c in doc['Schema'].property_names]
    check(len(set(cols)) == len(cols), 'columns {}', cols)
    same(set(cols) - unclear, used - unclear, 'columns of the schema')
    kept = [c.lower() for c in case['cols'] if c.lower() in used - unclear]
    same([c for c in cols if c in kept], kept, 'order of the columns that were there before')
    same(cols[:len(kept)] if not unclear else kept, kept, 'new columns are after those that were there before')
    same({s.name: list(s.property_names) for s in doc if s.name != 'Schema'}, others, 'columns of the other sections')

    same(model.norm_doc(obs.doc_tree(obs.make(obs.parse_csv(doc.as_csv())))), model.norm_doc(before),
         'the cleaned document, written and read')
    same(model.norm_doc(obs.doc_tree(obs.make_lines(doc.as_lines()))), model.norm_doc(before),
         'the cleaned document, written and read as Lines')
    tree = obs.doc_tree(doc)
    doc.clean_unused_schema_terms()
    same(obs.doc_tree(doc), tree, 'the document, cleaned twice')
    if not unclear:
        same([c.lower() for c in doc['Schema'].property_names], cols, 'the columns, cleaned twice')
    if set(cols) != set(c.lower() for c in case['cols']):
        ctx.label('columns changed')
    return bool(used)


# -- Changing the columns of any section ------------------------------------------------------------------------------

@st.composite
def arg_cases(draw):
    doc = draw(sp.docs(max_sections=2, max_terms=3, depth=2, value=gen.weighted((gen.few_values, 3), (gen.values(), 1))))
    names = sorted({c for _, cols, _ in doc for c in cols} | {t[0] for _, _, ts in doc for r in ts for t in r[2]}) + ['New', 'x y']
    names = [n for n in names if not n.isdigit()]
    ops = [[draw(st.sampled_from(['add', 'add', 'prepend', 'remove'])), draw(st.integers(0, 5)),
            draw(gen.recase(st.sampled_from(names)))] for _ in range(draw(st.integers(1, 8)))]
    return dict(doc=doc, ops=ops)


def args(case, ctx):
    doc = obs.make(list(model.spec_rows(case['doc'])))
    tree = obs.doc_tree(doc)
    cols = {s.name: [c.lower() for c in s.property_names] for s in doc}

    def dicts():
        return [[{k: v for k, v in d.items() if v} for d in (t.props, t.arg_props, t.all_props)]
                for s in doc for r in s for t in [r] + list(r.descendents)]

    props = dicts()
    for op, i, n in case['ops']:
        s = list(doc)[i % len(doc.sections)]
        c = cols[s.name]
        if op == 'remove':
            s.remove_arg(n)
            cols[s.name] = [e for e in c if e != n.lower()]
        else:
            s.add_arg(n, prepend=op == 'prepend')
            if n.lower() not in c:
                cols[s.name] = [n.lower()] + c if op == 'prepend' else c + [n.lower()]
        same({s.name: [c.lower() for c in s.property_names] for s in doc}, cols, 'columns after %s %s' % (op, n))
        same(obs.doc_tree(doc), tree, 'the document, after %s %s' % (op, n))
        same(dicts(), props, 'the property dictionaries, after %s %s' % (op, n))
        d2 = obs.make(obs.parse_csv(doc.as_csv()))
        same(model.norm_doc(obs.doc_tree(d2)), model.norm_doc(tree), 'the document, written and read')
        same([[c.lower() for c in s.property_names] for s in d2], list(cols.values()), 'columns, written and read')
        same(model.norm_doc(obs.doc_tree(obs.make_lines(doc.as_lines()))) if not cols['Root'] else None,
             model.norm_doc(tree) if not cols['Root'] else None, 'the document, written and read as Lines')
    return sp.has_children(case['doc'])


def large(case, ctx):
    r = random.Random(case['seed'])
    names = ['Prop%d' % i for i in range(case['props'])]
    tables = [['Table', 't%d' % i, [['Column', 'c%d' % k, [[p, r.choice(['v', 'w', '0', None]), []]
                                                        for p in r.sample(names, r.randint(0, min(len(names), 8)))]]
                                    for k in range(r.randint(0, case['columns']))]] for i in range(case['tables'])]
    # Properties that only one column has, anywhere in the schema
    for i in range(3):
        at = [c for t in tables for c in t[2]]
        if at:
            r.choice([at[-1], at[len(at) // 2], r.choice(at)])[2].append(['Rare%d' % i, 'v', []])
    cols = r.sample(names + ['Rare0'] + ['Unused%d' % i for i in range(10)], r.randint(0, len(names)))
    return clean(dict(tables=tables, cols=cols, other=r.random() < 0.5, api=r.random() < 0.5, columns=r.random() < 0.5,
                      rest=[['Root', [], [['Title', 't', []]]], ['Resources', ['Prop0'], []]]), ctx)


CHECKS = [
    Check('clean-schema', cases(), clean, quick=1800,
          rule='schemas with tables and columns whose properties are blank, repeated, missing from the section columns or '
               'unused; non-trivial: some property is used'),
    Check('columns', arg_cases(), args, quick=1000,
          rule='up to eight columns added to and removed from sections of generated documents, written and read after '
               'each; non-trivial: some term has children'),
    Check('large', big.sizes(tables=12, columns=60, props=40), large, quick=50,
          rule='schemas of up to 12 tables with up to 60 columns and 40 properties; non-trivial: as in clean-schema'),
]
