"""C04: Lines round trip"""
from hypothesis import strategies as st

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from vlib.rowgen import raw_rows
from props.c03 import blanks, build, columns, declared_docs, make_declared, orders, representable, sorted_sections


def one_line(tree):
    """Lines cannot represent a value with a line break"""
    def ok(t):
        return len((t[1] or '').splitlines()) < 2 and all(ok(c) for c in t[2])
    return all(ok(t) for _, terms in tree for t in terms)


def roundtrip(doc, tree):
    text = doc.as_lines()
    doc2 = obs.make_lines(text)
    same(model.norm_doc(obs.doc_tree(doc2)), model.norm_doc(tree), 'the document read back from its lines\n' + text)
    same(columns(doc2), columns(doc), 'columns of the sections')
    if not blanks(obs.doc_tree(doc2)):
        text2 = doc2.as_lines()
        same(obs.make_lines(text2).as_lines(), text2, 'lines written by a document that was written and read again')
    same(obs.doc_tree(doc), tree, 'the document, after writing it')
    # Both representations hold the same document
    same(model.norm_doc(obs.doc_tree(obs.make(obs.parse_csv(doc2.as_csv())))), model.norm_doc(tree),
         'lines, then CSV')
    # Each section can be written by itself
    joined = '\n'.join(s.as_lines() for s in sorted(doc, key=lambda s: s.name != 'Root'))
    same(model.norm_doc(obs.doc_tree(obs.make_lines(joined))), model.norm_doc(tree), 'the lines of each section')


def from_spec(case, ctx):
    rows = list(model.spec_rows(case['doc'], case['columns']))
    doc = obs.make(rows)
    roundtrip(doc, obs.doc_tree(doc))
    if case['file']:
        from metatab import MetatabDoc
        from metatab.rowgen import TextRowGenerator
        from pathlib import Path
        p = ctx.write('metadata.txt', doc.as_lines())
        same(model.norm_doc(obs.doc_tree(MetatabDoc(TextRowGenerator(Path(p))))),
             model.norm_doc(model.spec_tree(case['doc'])), 'the document, from a file of lines')
        ctx.label('through a file')
    if '|' in doc.as_lines():
        ctx.label('pipes')
    if sp.repeats(case['doc']):
        ctx.label('repeated children')
    return sp.size(case['doc']) > 2 and sp.has_children(case['doc'])


def from_rows(rows, ctx):
    try:
        m = model.interpret(rows)
    except model.ModelParserError:
        return False
    tree = m.tree()
    if not representable(tree) or not one_line(tree):
        ctx.label('not representable')
        return False
    roundtrip(obs.make(rows), tree)
    return len(m.all) > 1


def from_api(case, ctx):
    from metatab import MetatabDoc
    doc = sorted_sections(build(MetatabDoc(), case['doc']), case['order'])
    roundtrip(doc, model.spec_tree(case['doc']) if not case['order'] else obs.doc_tree(doc))
    return sp.size(case['doc']) > 2 and sp.has_children(case['doc'])


def large(case, ctx):
    from metatab import MetatabDoc
    doc = big.doc(case, one_line=True)
    d = obs.make(list(model.spec_rows(doc, True))) if case['seed'] % 3 else build(MetatabDoc(), doc)
    same(model.norm_doc(obs.doc_tree(d)), model.norm_doc(model.spec_tree(doc)), 'the document')
    roundtrip(d, obs.doc_tree(d))
    return sp.size(doc) > 2 and sp.has_children(doc)


def from_declared(case, ctx):
    doc, used = make_declared(case, ctx)
    roundtrip(doc, obs.doc_tree(doc))
    return used > 0 and sp.has_children(case['doc'])


docs = sp.docs(numeric=True)

CHECKS = [
    Check('read-write-read', st.fixed_dictionaries(dict(doc=docs, columns=st.booleans(),
                                                        file=st.sampled_from([False] * 5 + [True]))),
          from_spec, quick=1300,
          rule='documents generated as nested terms, with values that contain pipes, backslashes, colons, hashes and '
               'leading equal signs; non-trivial: more than two terms and a child'),
    Check('rows', raw_rows(max_rows=16, punctuated=False), from_rows, quick=1000,
          rule='documents from generated rows; non-trivial: more than one root level term, and no term with an '
               'ancestor of its own name'),
    Check('built', st.fixed_dictionaries(dict(doc=docs, order=orders)), from_api, quick=800,
          rule='generated documents built with the API; non-trivial: as above'),
    Check('declared', declared_docs(multiline=False), from_declared, quick=600,
          rule='documents with declared value names, which may also be the names of children and columns; non-trivial: a '
               'declared term, and a child'),
    Check('large', big.sizes(sections=12, terms=12, width=12, names=30, depth=12), large, quick=120,
          rule='documents of up to 12 sections with up to 12 terms each, with up to 12 columns, 12 children and depth 12, expanded '
               'from a seed; non-trivial: as above'),
]
