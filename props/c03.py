"""C03: CSV round trip"""
from hypothesis import strategies as st

from vlib import big, decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from vlib.rowgen import raw_rows


def representable(tree):
    """No term has an ancestor with its own name: a row could not tell them apart"""
    def ok(t, anc):
        return t[0] not in anc and all(ok(c, anc | {t[0]}) for c in t[2])
    return all(ok(t, frozenset()) for _, terms in tree for t in terms)


def blanks(tree):
    """A child without value or children, which a property column does not hold: a document that has some may lose
    them, level by level, and so may write something else each time"""
    def has(t):
        return any((not c[1] and not c[2]) or has(c) for c in t[2])
    return any(has(t) for _, terms in tree for t in terms)


def columns(doc):
    """The property columns of the sections, without the blank ones at the end"""
    def trim(cols):
        while cols and not cols[-1]:
            cols = cols[:-1]
        return cols
    return [[s.name, trim([str(c).strip() for c in s.property_names])] for s in doc if s.name != 'Root']


def roundtrip(doc, tree, reread=None):
    text = doc.as_csv()
    doc2 = (reread or (lambda s: obs.make(obs.parse_csv(s))))(text)
    same(model.norm_doc(obs.doc_tree(doc2)), model.norm_doc(tree), 'the document read back from its CSV\n' + text)
    same(columns(doc2), columns(doc), 'columns of the sections')
    if not blanks(obs.doc_tree(doc2)):
        text2 = doc2.as_csv()
        same(obs.make(obs.parse_csv(text2)).as_csv(), text2, 'CSV written by a document that was written and read again')
    same(obs.doc_tree(doc), tree, 'the document, after writing it')
    return text


def from_spec(case, ctx):
    tree = model.spec_tree(case['doc'])
    rows = list(model.spec_rows(case['doc'], case['columns']))
    doc = obs.make(rows)
    same(model.norm_doc(obs.doc_tree(doc)), model.norm_doc(tree), 'the document, as read')
    roundtrip(doc, obs.doc_tree(doc))

    # Carriage returns inside of values are line feeds after a file was read, as in any text file
    if case['file'] and not any('\r' in str(c) for r in rows for c in r):
        text = doc.as_csv()
        path = ctx.write('d/metadata.csv', text)
        from metatab import MetatabDoc
        same(model.norm_doc(obs.doc_tree(MetatabDoc(path))), model.norm_doc(tree), 'the document, from a CSV file')
        ctx.label('through a file')
    if sp.repeats(case['doc']):
        ctx.label('repeated children')
    if sp.depth(case['doc']) > 2:
        ctx.label('depth > 2')
    return sp.size(case['doc']) > 2 and sp.has_children(case['doc'])


def from_rows(rows, ctx):
    try:
        m = model.interpret(rows)
    except model.ModelParserError:
        return False
    tree = m.tree()
    if not representable(tree):
        ctx.label('not representable')
        return False
    roundtrip(obs.make(rows), tree)
    return len(m.all) > 1


def build(doc, spec):
    """Build a document with the API"""
    for name, cols, terms in spec:
        s = doc['Root'] if name.lower() == 'root' else doc.get_or_new_section(name, list(cols))

        def add(parent, t):
            c = parent.new_child(t[0], t[1])
            for g in t[2]:
                add(c, g)

        for t in terms:
            nt = s.new_term(t[0], t[1])
            for c in t[2]:
                add(nt, c)
    return doc


# Sections can be in any order, also Root
orders = st.one_of(st.just([]), st.lists(st.integers(0, 5), min_size=1, max_size=4))


def sorted_sections(doc, order):
    names = [s.name for s in doc]
    tree = dict(obs.doc_tree(doc))
    if order:
        doc.sort_sections([names[i % len(names)] for i in order] + (['Root'] if order[0] else []))
    same(dict(obs.doc_tree(doc)), tree, 'the sections, sorted')
    return doc


def from_api(case, ctx):
    from metatab import MetatabDoc
    doc = build(MetatabDoc(), case['doc'])
    tree = model.spec_tree(case['doc'])
    same(obs.doc_tree(doc), tree, 'the document, as built')
    if case['order']:
        tree = obs.doc_tree(sorted_sections(doc, case['order']))
        ctx.label('Root first' if tree[0][0] == 'Root' else 'Root not first')
    obs.check_links(doc)
    roundtrip(doc, tree)
    return sp.size(case['doc']) > 2 and sp.has_children(case['doc'])


@st.composite
def declared_docs(draw, multiline=True):
    """A document and a declaration of value names, which may also be names of children and columns"""
    pool = draw(sp.name_pools(size=5))
    decl = dict(sections=[], terms=draw(dc.types(pool, vnames=tuple(n for n in pool if not n.isdigit()) + ('Vname', 'thevalue'),
                                                 max_size=8)))
    value = gen.weighted((gen.few_values, 2), (gen.values(multiline=multiline), 1))
    doc, seen = [], set()
    for name in ['Root', draw(gen.section_names), draw(gen.section_names)]:
        if name.lower() in seen or not gen.upper_ok(name):
            continue
        seen.add(name.lower())
        doc.append([name, draw(sp.columns(pool)) if doc else [],
                    [draw(sp.term(pool, value, (), 2)) for _ in range(draw(st.integers(0, 3)))]])
    return dict(doc=doc, decl=decl, columns=draw(st.booleans()), how=draw(st.sampled_from(['row', 'decl', 'api'])))


def make_declared(case, ctx):
    from metatab import MetatabDoc
    path = ctx.write('dd.csv', dc.text(case['decl']))
    rows = list(model.spec_rows(case['doc'], case['columns']))
    if case['how'] == 'row':
        doc = obs.make([['Declare', path]] + rows)
    elif case['how'] == 'decl':
        doc = obs.make(rows, decl=path)
    else:
        doc = build(MetatabDoc(decl=path), case['doc'])
    tree = model.spec_tree(case['doc'])
    same(model.norm_doc(obs.doc_tree(doc, skip=('declare',))), model.norm_doc(tree), 'the declared document')
    ctx.label(case['how'])
    tab = dc.table(case['decl'])

    def collides(t, parent):
        v = (tab.get(parent + '.' + t[0].lower(), {}).get('vname') or '').lower()
        return any(c[0].lower() == v or collides(c, t[0].lower()) for c in t[2])

    if any(collides(t, 'root') for s in case['doc'] for t in s[2]):
        ctx.label('child with the name of the value')
    return doc, sum(k in tab for k in ['root.' + t[0].lower() for s in case['doc'] for t in s[2]])


def large(case, ctx):
    from metatab import MetatabDoc
    doc = big.doc(case, one_line=False)
    d = obs.make(list(model.spec_rows(doc, True))) if case['seed'] % 3 else build(MetatabDoc(), doc)
    same(model.norm_doc(obs.doc_tree(d)), model.norm_doc(model.spec_tree(doc)), 'the document')
    roundtrip(d, obs.doc_tree(d))
    return sp.size(doc) > 2 and sp.has_children(doc)


def from_declared(case, ctx):
    doc, used = make_declared(case, ctx)
    roundtrip(doc, obs.doc_tree(doc))
    return used > 0 and sp.has_children(case['doc'])


docs = sp.docs(multiline='returns', numeric=True)

CHECKS = [
    Check('read-write-read', st.fixed_dictionaries(dict(doc=docs, columns=st.booleans(),
                                                        file=st.sampled_from([False] * 5 + [True]))),
          from_spec, quick=1500,
          rule='documents generated as nested terms (to depth 4, repeated and blank children, property columns, CSV '
               'metacharacters, newlines and non-ASCII text in values); non-trivial: more than two terms and a child'),
    Check('rows', raw_rows(max_rows=16), from_rows, quick=1200,
          rule='documents from generated rows, including re-opened sections, headers and unnamed columns; '
               'non-trivial: more than one root level term, and no term with an ancestor of its own name'),
    Check('built', st.fixed_dictionaries(dict(doc=docs, order=orders)), from_api, quick=1000,
          rule='generated documents built with new_section, new_term and new_child; non-trivial: as above'),
    Check('declared', declared_docs(), from_declared, quick=800,
          rule='documents with declared value names, which may also be the names of children and columns; non-trivial: a '
               'declared term, and a child'),
    Check('large', big.sizes(sections=12, terms=12, width=12, names=30, depth=12), large, quick=120,
          rule='documents of up to 12 sections with up to 12 terms each, with up to 12 columns, 12 children and depth 12, expanded '
               'from a seed; non-trivial: as above'),
]
