"""Observes documents through their public interface"""
import csv
import io


def val(t):
    v = t.value
    return None if v is None or v == '' else v


def term_tree(t):
    return [t.record_term_lc, val(t), [term_tree(c) for c in t.children]]


def is_declare(t):
    return getattr(t, 'file_type', None) == 'declare'


def doc_tree(doc, skip=()):
    """[[section name, [term tree, ...]], ...]"""
    return [[s.name, [term_tree(t) for t in s if t.record_term_lc not in skip]] for s in doc]


def make(rows, **kwargs):
    """A document from rows"""
    from metatab import MetatabDoc
    from metatab.rowgen import MetatabRowGenerator
    return MetatabDoc(MetatabRowGenerator([list(r) for r in rows]), **kwargs)


def make_lines(text, **kwargs):
    from metatab import MetatabDoc
    from metatab.rowgen import TextRowGenerator
    return MetatabDoc(TextRowGenerator(text), **kwargs)


def parse_csv(text):
    return list(csv.reader(io.StringIO(text, newline='')))


def to_csv(rows):
    s = io.StringIO(newline='')
    w = csv.writer(s)
    for r in rows:
        w.writerow(r)
    return s.getvalue()


def check_links(doc):
    """The structure of a document is consistent: parent, section, document and term list agree"""
    from vlib.core import check
    listed = [id(t) for t in doc.terms]
    in_sections = []
    for s in doc:
        check(s.doc is doc, 'section {} belongs to another document', s.name)
        check(doc[s.name] is s and doc[s.name.upper()] is s, 'section {} is not found by its name', s.name)
        for t in s:
            in_sections.append(id(t))
            check(t.section is s, 'term {!r} in section {} has section {!r}', t, s.name, t.section)
            check(t.doc is doc, 'term {!r} belongs to another document', t)
            _links(t, s, doc)
    check(len(set(in_sections)) == len(in_sections), 'a term is in a section twice')
    # doc.terms also lists the terms of declarations, which are in no section
    dl = [id(t) for t in doc.terms if not is_declare(t)]
    check(len(set(dl)) == len(dl), 'a term is in the document twice')
    check(sorted(dl) == sorted(in_sections), 'the terms of the document are not the terms of its sections: {} {}',
          [t for t in doc.terms if id(t) not in in_sections and not is_declare(t)],
          [t for s in doc for t in s if id(t) not in listed])


def _links(t, s, doc):
    from vlib.core import check
    for c in t.children:
        check(c.parent is t, 'child {!r} of {!r} has parent {!r}', c, t, c.parent)
        check(c.qualified_term == t.record_term_lc + '.' + c.record_term_lc, 'qualified name {} of a child of {!r}',
              c.qualified_term, t)
        check(c.doc is doc, "child {!r} belongs to another document", c)
        check(c.section is not None and c.section.doc is doc, "child {!r} has section {!r}", c, c.section)
        _links(c, s, doc)
