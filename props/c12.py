"""C12: ordering of terms and sections"""
import random
from hypothesis import strategies as st

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from props.c03 import build


@st.composite
def cases(draw):
    pool = [n for n in draw(sp.name_pools(size=6)) if not n.isdigit()] or ['Alpha']
    value = gen.few_values
    doc = [['Root', [], [draw(sp.term(pool, value, (), 1)) for _ in range(draw(st.integers(0, 7)))]]]
    seen = {'root'}
    for _ in range(draw(st.integers(0, 4))):
        n = draw(gen.section_names)
        if n.lower() in seen or not gen.upper_ok(n):
            continue
        seen.add(n.lower())
        doc.append([n, draw(sp.columns(pool)), [draw(sp.term(pool, value, (), 1))
                                                for _ in range(draw(st.integers(0, 7)))]])
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            names = draw(st.lists(st.sampled_from([d[0] for d in doc] + ['Nosuch', 'Another']), max_size=6))
            ops.append(['sections', [draw(st.sampled_from([n, n.lower(), n.upper()])) for n in names]])
        else:
            order = None
            if draw(st.integers(0, 2)):
                order = []
                for n in draw(st.lists(st.sampled_from(pool + ['Nosuch']), max_size=5)):
                    n = draw(st.sampled_from(['Root.', 'root.', ''])) + n
                    order.append(draw(st.sampled_from([n.lower(), n.lower(), n, n.upper()])))
                if draw(st.integers(0, 9)) == 0:
                    order.append(draw(st.sampled_from(['Root.*', '*.*', '*.' + pool[0]])))
            ops.append(['terms', draw(st.integers(0, 10)), order])
    return dict(doc=doc, ops=ops, api=draw(st.booleans()))


def matches(name, q):
    q = q.lower()
    q = q if '.' in q else 'root.' + q
    p, c = q.split('.')
    return p in ('root', '*') and c in (name, '*')


def order(case, ctx):
    from metatab import MetatabDoc
    if case['api']:
        doc = build(MetatabDoc(), case['doc'])
    else:
        doc = obs.make(list(model.spec_rows(case['doc'])))
    # Live terms: [section name, section, [term, ...]]
    exp = [[s.name, s, list(s)] for s in doc]
    trees = {id(t): obs.term_tree(t) for _, _, ts in exp for t in ts}
    moved = False
    for op in case['ops']:
        before = [[n, [id(t) for t in ts]] for n, _, ts in exp]
        if op[0] == 'sections':
            done, rest = [], list(exp)
            for n in op[1]:
                for e in list(rest):
                    if e[0].lower() == n.lower():
                        done.append(e)
                        rest.remove(e)
            exp = done + rest
            names = list(op[1])
            doc.sort_sections(names)
            same(names, op[1], 'the list of section names')
        else:
            e = exp[op[1] % len(exp)]
            if op[2] is None:
                e[2] = sorted(e[2], key=lambda t: 'root.' + trees[id(t)][0])
                e[1].sort_by_term()
            else:
                done, rest = [], list(e[2])
                for q in op[2]:
                    for t in list(rest):
                        if matches(trees[id(t)][0], q):
                            done.append(t)
                            rest = [r for r in rest if r is not t]
                e[2] = done + sorted(rest, key=lambda t: 'root.' + trees[id(t)][0])
                names = list(op[2])
                e[1].sort_by_term(names) if op[1] % 2 else e[1].sort_by_term(order=names)
                same(names, op[2], 'the list of term names')
        after = [[n, [id(t) for t in ts]] for n, _, ts in exp]
        moved = moved or before != after
        same([s.name for s in doc], [n for n, _, _ in exp], 'order of the sections after %r' % op)
        for (n, s, ts), live in zip(exp, doc):
            check(live is s, 'section {} was replaced', n)
            same([[t.record_term_lc, t.value] for t in live], [[t.record_term_lc, t.value] for t in ts],
                 'order of the terms of section %s after %r' % (n, op))
            check(all(a is b for a, b in zip(live, ts)), 'terms of section {} were replaced', n)
            check(doc[n.upper()] is s, 'section {} by name', n)
        for _, _, ts in exp:
            for t in ts:
                same(obs.term_tree(t), trees[id(t)], 'a term, after sorting')
        obs.check_links(doc)
    # The order is kept by writing and reading. Reading always makes the Root section first
    tree = obs.doc_tree(doc)
    root_first = sorted(tree, key=lambda e: e[0] != 'Root')
    for name, d in (('CSV', obs.make(obs.parse_csv(doc.as_csv()))), ('Lines', obs.make_lines(doc.as_lines()))):
        same(model.norm_doc(obs.doc_tree(d)), model.norm_doc(root_first), 'the sorted document, read back from ' + name)
    if exp and exp[0][0] != 'Root':
        ctx.label('Root section not first')
    if moved:
        ctx.label('order changed')
    return moved


def large(case, ctx):
    """Enough terms and sections that a sort which is not stable shows"""
    r = random.Random(case['seed'])
    names = ['Nm%d' % i for i in range(case['names'])]
    doc = [['Root', [], []]] + [['Sec %d' % i, [], []] for i in range(case['sections'])]
    for s in doc:
        s[2] = [[r.choice(names), 'v%d' % i, []] for i in range(r.randint(0, case['terms']))]
    ops = []
    for _ in range(3):
        if r.random() < 0.5:
            ops.append(['sections', r.sample([d[0] for d in doc] + ['Nosuch'], r.randint(0, len(doc)))])
        else:
            ops.append(['terms', r.randrange(len(doc)), r.choice([None, r.sample(names, r.randint(0, len(names)))])])
    return order(dict(doc=doc, ops=ops, api=r.random() < 0.5), ctx)


CHECKS = [
    Check('order', cases(), order, quick=2500,
          rule='documents with repeated term names, sorted up to four times by section (with missing, repeated and mixed '
               'case names) or by term (alphabetically, or with a list of names, including wildcards), against a stable '
               'sort of the model, then written and read; non-trivial: the order of something changed'),
    Check('large', big.sizes(sections=30, terms=80, names=15), large, quick=60,
          rule='up to 30 sections with up to 80 terms each; non-trivial: as above'),
]
