"""C24: malformed input is refused, and everything else is a document"""
import re

from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.exc import DeclarationError, MetatabError, ParserError

from vlib import decl as dc, gen, model, obs
from vlib.core import Check, check, raises, same
from vlib.rowgen import raw_rows

BAD = [['A.B.C', 'x'], ['..', 'x'], ['Title.', 'x'], ['.', 'x'], [' . ', ''], ['Root', 'x'], ['root'], ['Root.Root', 'x'],
       ['Section'], ['Section', ''], ['section', ' ', 'Aa'], ['Root.Section', None], ['Include'], ['Include', ''],
       ['Declare', '  '], ['Root.', 'x'], ['.Section', 'x'], ['.Root', 'x'], ['nosuchparent.x', 'y'], ['...'],
       ['Title.Name.', 'x'], ['.a.b', 'x'], ['root.a.b', 'x'], ['Nosuchparent.Section', 'x'], ['Root.Declare', None, 'x']]
ODD = [[None, 'x'], [None], [1, 'x'], [2017], [True, 'x'], [0, 'zero'], ['Alpha', 5, None, 'x'], ['Alpha', None], ['Beta', 2.5, 0],
       ['Section', 2017], ['Section', 'Stuff', 2017, None, 'Aa'], ['Header', 'Vname', 2017, 'Bb'], ['Section', 1.5, True],
       ['Alpha', True, False], ['', 'x'], ['#1', 'Section']]


@st.composite
def cases(draw):
    rows = draw(raw_rows(max_rows=8, wide=False))
    for _ in range(draw(st.integers(0, 3))):
        bad = draw(st.sampled_from(['odd', 'odd', 'bad']))
        rows.insert(draw(st.integers(0, len(rows))), draw(st.sampled_from(ODD if bad == 'odd' else BAD)))
    return dict(rows=rows, form=draw(st.sampled_from(['rows', 'rows', 'rows', 'csv', 'load'])))


def load(case, ctx):
    rows, form = case['rows'], case['form']
    if form == 'rows':
        return obs.make(rows)
    if form == 'load':
        from metatab.rowgen import MetatabRowGenerator
        return MetatabDoc().load_rows(MetatabRowGenerator([list(r) for r in rows]))
    # A blank first row would be seen as the end of a file by some readers
    return MetatabDoc(ctx.write('doc.csv', obs.to_csv(rows)))


def stringify(rows):
    return [[('' if c is None else str(c)) for c in r] for r in rows]


def rows(case, ctx):
    try:
        m = model.interpret(stringify(case['rows']))
    except model.ModelParserError as e:
        exc = raises(ParserError, load, case, ctx)
        check(isinstance(exc, MetatabError), '{!r} is not a MetatabError', exc)
        check(re.search(r'(?<!\d)%d(?!\d)' % e.row, str(exc)), 'the error {!r} does not have the number of row {}', str(exc), e.row)
        ctx.label('refused')
        return True
    doc = load(case, ctx)
    tree = obs.doc_tree(doc)
    same([[str(s), [text(t) for t in ts]] for s, ts in tree], m.tree(), 'the document')
    usable(doc)
    return any(r in ODD for r in case['rows'])


def text(t):
    return [t[0], None if t[1] is None or t[1] is False else str(t[1]), [text(c) for c in t[2]]]


def usable(doc):
    """The document has consistent links, and can be converted and written"""
    obs.check_links(doc)
    doc.as_dict()
    doc.find('*.*')
    for form in (doc.as_csv(), doc.as_lines()):
        check(isinstance(form, str), 'the text is {!r}', form)


# -- Text -------------------------------------------------------------------------------------------------------------

TOKENS = ['Section', 'Title', 'Header', 'Include', 'Declare', ': ', ':', '|', '\\|', '\n', '\n', '\n', '\n', '====', '# ', '.', 'A', 'B',
          'é', '"', ',', ',', '\r\n', '\t', ' ', '\x0b', '\u2028', 'Root', 'nosuch.csv', 'dd.csv', 'Declare,dd.csv\n',
          'DeclareTerm,', '\nDeclareSection,', 'InheritsFrom', 'Synonym,', '\\', 'DeclaredTerms', 'TermValueName', '\ufeff',
          'Section,A\n', 'A,x\n', 'A.B,y\n', '.B,z\n', 'A: x\n', '.B: y\n', '\x1c', '1', "'"]

tokens = st.lists(st.sampled_from(TOKENS), max_size=24).map(''.join)


def fuzz(case, ctx):
    ctx.write('dd.csv', case['decl'])
    path = ctx.write('doc.csv' if case['form'] == 'csv' else 'doc.txt', case['text'])
    try:
        if case['form'] == 'csv':
            doc = MetatabDoc(path)
        elif case['form'] == 'lines':
            doc = obs.make_lines(case['text'])
        else:
            from metatab import parse_app_url
            doc = MetatabDoc(parse_app_url('metatab+file:' + path))
    except MetatabError as e:
        ctx.label('refused')
        return True
    usable(doc)
    ctx.label('read')
    return bool(doc.terms)


# -- Declarations -----------------------------------------------------------------------------------------------------

NAMES = ['Root.Aa', 'Aa', 'Bb', 'Aa.Bb', 'Root.Bb', 'bb.aa', 'Root.Stuff']
BAD_NAMES = ['A.B.C', '..', 'Aa.', '.', 'Root.']


@st.composite
def decl_cases(draw):
    terms = []
    for _ in range(draw(st.integers(1, 4))):
        t = dict(term=draw(st.sampled_from(NAMES)), section=draw(st.sampled_from(['Stuff', 'root', 'STUFF'])),
                 vname=draw(st.sampled_from(['', 'Name'])), cpt='')
        if draw(st.integers(0, 3)) == 0:
            t[draw(st.sampled_from(['synonym', 'inherits']))] = draw(st.sampled_from(['Root.Cc', 'Cc.Dd']))
        terms.append(t)
    bad = draw(st.sampled_from([None, None, 'term', 'blank', 'synonym', 'inherits', 'section']))
    if bad == 'section':
        return dict(sections=[['Stuff', []], ['', []]], terms=terms, bad=bad, row=draw(st.booleans()))
    if bad:
        t = draw(st.sampled_from(terms))
        if bad == 'blank':
            t['term'] = ''
        else:
            t[bad] = draw(st.sampled_from(BAD_NAMES))
    return dict(sections=[['Stuff', []]], terms=terms, bad=bad, row=draw(st.booleans()))


def decls(case, ctx):
    path = ctx.write('dd.csv', dc.text(dict(sections=case['sections'], terms=case['terms'])))

    def make():
        if case['row']:
            return obs.make([['Declare', path], ['Title', 'x']])
        return obs.make([['Title', 'x']], decl=path)

    if case['bad']:
        raises(DeclarationError, make)
        ctx.label('refused')
    else:
        usable(make())
    return True


CHECKS = [
    Check('rows', cases(), rows, quick=2500,
          rule='generated rows with up to three rows that are malformed (bad names, reserved names, no value) or odd (numbers and '
               'None as names and cells); refused if and only if the reference interpreter refuses them; non-trivial: '
               'refused, or an odd row'),
    Check('text', st.fixed_dictionaries(dict(text=tokens, decl=tokens, form=st.sampled_from(['csv', 'lines', 'txt']))), fuzz, quick=2500,
          rule='random sequences of tokens as CSV or Lines, which may refer to each other; non-trivial: refused, or a document '
               'with terms'),
    Check('declarations', decl_cases(), decls, quick=600,
          rule='declarations with bad names, or without values'),
]
