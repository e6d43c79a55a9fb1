"""C01: rows build the term tree"""
from metatab.exc import ParserError

from vlib import big, model, obs
from vlib.core import Check, check, raises, same
from vlib.rowgen import raw_rows


def interpret(rows, ctx):
    try:
        m = model.interpret(rows)
    except model.ModelParserError:
        raises(ParserError, obs.make, rows)
        ctx.label('unknown parent')
        return False

    doc = obs.make(rows)
    same(obs.doc_tree(doc), m.tree(), 'sections and terms of the document')

    # The root level terms are listed in the order in which they appear, whatever section they are in
    same([obs.term_tree(t) for t in doc.terms], [t.tree() for t in m.all], 'terms of the document')
    same([t.row for t in doc.terms], [t.row for t in m.all], 'row numbers')

    def rows_of(t):
        return [t.row] + [rows_of(c) for c in t.children]

    same([rows_of(t) for t in doc.terms], [rows_of(t) for t in m.all], 'row numbers of the children')

    same([(t.record_term_lc, obs.val(t)) for t in doc.all_terms if not t.term_is('root.section')],
         [(t.name, t.value) for t in m.walk()], 'all of the terms, depth first')

    for t, mt in zip(doc.terms, m.all):
        same([(d.record_term_lc, obs.val(d)) for d in t.descendents], [(d.name, d.value) for d in mt.walk()][1:],
             'descendents')
        same(t.section.name, mt.section.name, 'section of a term')
        same(t.qualified_term, 'root.' + mt.name, 'qualified name')

    obs.check_links(doc)

    kinds = {len(t.children) > 0 for t in m.all}
    nsec = len([s for s in m.sections.values() if s.terms])
    if nsec > 1:
        ctx.label('terms in several sections')
    if any(c.children for t in m.all for c in t.children):
        ctx.label('grandchildren')
    return len(m.all) > 1 and True in kinds


def large(case, ctx):
    return interpret(big.rows(case), ctx)


RULE = ('rows drawn from a grammar of root terms, qualified children (P.C), elided children (.C), Section, Header, '
        'comment and blank rows with mixed case and padding; non-trivial: more than one root level term and at '
        'least one child')

CHECKS = [
    Check('interpreter', raw_rows(), interpret, quick=3000, rule=RULE),
    Check('rows-only', raw_rows(columns=False, headers=False, max_rows=40), interpret, quick=1500,
          rule=RULE + '; no property columns, longer documents'),
    Check('large', big.sizes(rows=600, sections=40, columns=45, names=60), large, quick=120,
          rule='rows of up to 600, with up to 40 sections, 45 columns and 60 names, and values of up to 10000 characters, expanded '
               'from a seed; non-trivial: as above'),
]
