"""C23: values that are not text, from spreadsheets and from programs"""
import datetime

from hypothesis import strategies as st

from metatab import MetatabDoc

from vlib import decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same

# Values are text, or [type, text]
TYPED = st.one_of(st.sampled_from([['int', '0'], ['int', '0'], ['float', '0.0'], ['int', '1'], ['int', '-1'], ['int', '2017'], ['float', '1.5'],
                                   ['float', '-0.25'], ['float', '1e+20'], ['date', '2017-01-02'], ['time', '2017-01-02 03:04:05'], ['bool', 'True']]),
                  st.integers(-10 ** 6, 10 ** 12).map(lambda n: ['int', str(n)]),
                  st.floats(allow_nan=False, allow_infinity=False, width=32).map(lambda n: ['float', str(n)]))


def typed(v):
    if not isinstance(v, list):
        return v
    k, s = v
    return {'int': int, 'float': float, 'bool': bool, 'date': datetime.date.fromisoformat,
            'time': datetime.datetime.fromisoformat}[k](s)


def text(v):
    return v[1] if isinstance(v, list) else v


def conv(tree, f):
    return [tree[0], None if tree[1] is None else f(tree[1]), [conv(c, f) for c in tree[2]]]


@st.composite
def cases(draw):
    pool = draw(sp.name_pools(size=5))
    decl = dict(sections=[], terms=draw(dc.types(pool))) if draw(st.booleans()) else None
    doc = draw(sp.docs(value=gen.weighted((TYPED, 3), (gen.few_values, 1)), max_sections=3, depth=2))
    if decl:
        doc = [[n, c, dc.terminal_concats(ts, decl)] for n, c, ts in doc]
    return dict(doc=doc, decl=decl, route=draw(st.sampled_from(['rows', 'rows', 'rows of children', 'api', 'set', 'assign'])))


def build(doc, spec, route):
    """Make the document with its programming interface"""
    for name, cols, terms in spec:
        s = doc['Root'] if name == 'Root' else doc.new_section(name, cols)
        for t in terms:
            if route == 'assign':
                n = s.new_term(t[0], 'x')
                n.value = t[1]
            else:
                n = s.new_term(t[0], t[1])
            children(n, t[2], route)
    return doc


def children(n, cs, route):
    counts = {}
    for c in cs:
        counts[c[0].lower()] = counts.get(c[0].lower(), 0) + 1
    for c in cs:
        if route == 'set' and counts[c[0].lower()] == 1 and c[1] is not None:
            n[c[0]] = c[1]
            k = n.find_first(c[0])
            check(k is not None, 'the property {} was not set', c[0])
        elif route == 'assign':
            k = n.new_child(c[0], 'x')
            k.value = c[1]
        else:
            k = n.new_child(c[0], c[1])
        children(k, c[2], route)


def texts(d):
    if isinstance(d, dict):
        return {k: texts(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [texts(v) for v in d]
    return None if d is None or d == '' else str(d)


def values(case, ctx):
    spec, route, decl = case['doc'], case['route'], case['decl']
    kw = dict(decl=ctx.write('decl.csv', dc.text(decl))) if decl else {}

    def make(f):
        sp_ = [[n, c, [conv(t, f) for t in ts]] for n, c, ts in spec]
        if route.startswith('rows'):
            return obs.make([[a] + list(r) for a, *r in rows(sp_, route == 'rows')], **kw)
        return build(MetatabDoc(**kw), sp_, route)

    a, b = make(typed), make(text)
    want = [[n, [conv(t, text) for t in ts]] for n, ts in model.spec_tree(spec)]
    norm = lambda doc: model.norm_doc([[n, [conv(t, str) for t in ts]] for n, ts in obs.doc_tree(doc, skip=('declare',))])  # noqa
    same(norm(b), model.norm_doc(want), 'content, with text')
    same(norm(a), model.norm_doc(want), 'content, with %s' % route)
    same(texts(a.as_dict()), texts(b.as_dict()), 'dict')
    same(texts(a.as_dict(False)), texts(b.as_dict(False)), 'dict, with @value')
    same([texts(t.props) for t in a.terms], [texts(t.props) for t in b.terms], 'properties')
    same([texts(t.all_props) for t in a.terms], [texts(t.all_props) for t in b.terms], 'all properties')
    same(a.as_csv(), b.as_csv(), 'CSV')
    same(a.as_lines(), b.as_lines(), 'Lines')
    skip = (lambda rows: [r for r in rows if not r or r[0].lower() != 'declare'])
    same(norm(obs.make(skip(obs.parse_csv(a.as_csv())), **kw)), model.norm_doc(want), 'content, read back')
    for ta, tb in zip(a.terms, b.terms):
        same((ta.join_lc, texts(ta.value)), (tb.join_lc, texts(tb.value)), 'term')
        for ca, cb in zip(ta.children, tb.children):
            n = ca.record_term
            same(texts(ta.find_first_value(n)), texts(tb.find_first_value(n)), 'value of %s' % n)
            same(texts(ta[n].value), texts(tb[n].value), 'property %s' % n)
    ctx.label(route)
    ctx.label('zero' if '"0"' in str(spec).replace("'", '"') else 'no zero')
    return any(isinstance(v, list) for v in vals(spec))


def vals(spec):
    def tv(t):
        yield t[1]
        for c in t[2]:
            yield from tv(c)
    for s in spec:
        for t in s[2]:
            yield from tv(t)


def rows(spec, in_columns):
    """Rows as a spreadsheet has them"""
    for name, cols, terms in spec:
        if name.lower() != 'root' or cols:
            yield ['Section', name] + list(cols)
        for t in terms:
            yield from term_rows(t, None, cols if in_columns else [])


def term_rows(t, parent, cols):
    name, value, children = t
    cells, rest, counts = {}, [], {}
    lcols = [c.lower() for c in cols]
    for c in children:
        counts[c[0].lower()] = counts.get(c[0].lower(), 0) + 1
    for c in children:
        if c[0].lower() in lcols and not c[2] and counts[c[0].lower()] == 1:
            cells[c[0].lower()] = c[1]
        else:
            rest.append(c)
    yield [(parent + '.' if parent else '') + name, value] + [cells.get(c) for c in lcols]
    for c in rest:
        yield from term_rows(c, name, cols)


# -- Schemas ----------------------------------------------------------------------------------------------------------

@st.composite
def schemas(draw):
    cols = draw(st.lists(st.sampled_from(['Width', 'Start', 'Size', 'Note', 'DataType']), unique=True, max_size=4))
    tables = []
    for i in range(draw(st.integers(1, 3))):
        tables.append(['t%d' % i, [['c%d' % k, draw(st.lists(st.tuples(
            st.sampled_from(['Width', 'Start', 'Size', 'Note', 'Extra']),
            gen.weighted((TYPED, 3), (st.sampled_from(['', 'v']), 1))).map(list), unique_by=lambda e: e[0], max_size=4))]
            for k in range(draw(st.integers(0, 4)))]])
    return dict(cols=cols, tables=tables)


def schema(case, ctx):
    def make(f):
        doc = MetatabDoc()
        s = doc.new_section('Schema', case['cols'])
        for t, cs in case['tables']:
            tt = s.new_term('Table', t)
            for c, props in cs:
                cc = tt.new_child('Column', c)
                for k, v in props:
                    cc.new_child(k, f(v)).value = f(v)
        return doc
    a, b = make(typed), make(text)
    same(texts([t.props for t in a.terms]), texts([t.props for t in b.terms]), 'before')
    a.clean_unused_schema_terms()
    b.clean_unused_schema_terms()
    for d in (a, b):
        for t, (_, cs) in zip(d['Schema'].find('Root.Table'), case['tables']):
            for c, (_, props) in zip(t.find('Table.Column'), cs):
                same({k: str(v) for k, v in c.props.items()}, {k.lower(): text(v) for k, v in props if text(v) != ''}, 'properties of a column')
        d['Schema'].args.sort()
    same([e.lower() for e in a['Schema'].args], [e.lower() for e in b['Schema'].args], 'columns of the schema')
    same(a['Schema'].as_lines(), b['Schema'].as_lines(), 'Lines')
    return any(isinstance(v, list) for _, cs in case['tables'] for _, ps in cs for _, v in ps)


# -- Names ------------------------------------------------------------------------------------------------------------

NUMBERS = [['int', '2017'], ['int', '2018'], ['int', '1'], ['float', '1.5'], ['int', '12'], ['bool', 'True']]
COLS = [['int', '2017'], ['int', '2018'], ['int', '7'], 'Aa', 'Bb', '', None]
dotless = st.sampled_from([n for n in NUMBERS if '.' not in n[1]])


@st.composite
def named(draw):
    """Rows of a spreadsheet, as it is for years or codes: numbers are the names of sections, columns and terms"""
    rows = []
    name = gen.weighted((dotless, 2), (st.sampled_from(['Alpha', 'Beta']), 1))
    for _ in range(draw(st.integers(1, 3))):
        cols = draw(st.lists(st.sampled_from(COLS), max_size=4, unique_by=lambda c: str(c) if c else object()))
        if draw(st.integers(0, 3)):
            rows.append(['Section', draw(gen.weighted((st.sampled_from(NUMBERS), 2), (st.just('Stuff'), 1)))] + cols)
        for _ in range(draw(st.integers(0, 4))):
            n = draw(name)
            rows.append([n, draw(gen.weighted((TYPED, 1), (gen.few_values, 1)))]
                        + draw(st.lists(gen.weighted((TYPED, 2), (st.sampled_from(['', 'v']), 1)), max_size=len(cols))))
            for _ in range(draw(st.integers(0, 2))):
                rows.append([text(n) + '.' + text(draw(name)), draw(TYPED)])
        if rows and draw(st.integers(0, 4)) == 0:
            rows.append(['Header', 'Vname'] + draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=3, unique_by=lambda c: str(c) if c else object())))
    return rows


def names(case, ctx):
    of = lambda f: [[f(c) for c in r] for r in case]  # noqa
    rows = [[c if c is not None else '' for c in r] for r in of(text)]
    m = model.interpret(rows)
    a, b = obs.make(of(typed)), obs.make(rows)
    tree = lambda doc: [[str(n), [conv(t, str) for t in ts]] for n, ts in obs.doc_tree(doc)]  # noqa
    same(tree(a), m.tree(), 'the document, with numbers')
    same(tree(b), m.tree(), 'the document, with text')
    same(texts(a.as_dict()), texts(b.as_dict()), 'dict')
    same([texts(t.props) for t in a.terms], [texts(t.props) for t in b.terms], 'properties')
    same(a.as_csv(), b.as_csv(), 'CSV')
    same(a.as_lines(), b.as_lines(), 'Lines')
    for s in b:
        check(s.name in a, 'there is no section {!r}', s.name)
        for t in s:
            same(texts([e.value for e in a.find(t.join, section=s.name)]), texts([e.value for e in b.find(t.join, section=s.name)]), 'terms %s' % t.join)
    return any(isinstance(r[0], list) or (r[0] in ('Section', 'Header') and any(isinstance(c, list) for c in r[1:])) for r in case)


CHECKS = [
    Check('names', named(), names, quick=800,
          rule='rows with numbers as the names of sections, columns and terms, against the rows with their text; non-trivial: '
               'some name is a number'),
    Check('values', cases(), values, quick=1600,
          rule='documents with integers, floats, dates and booleans, from rows and from the programming interface, against '
               'the same document with the text of the values; non-trivial: some value is not text'),
    Check('schema', schemas(), schema, quick=600,
          rule='schemas with typed properties of columns, cleaned of unused columns; non-trivial: some value is not text'),
]
