"""C11: access to the properties of a term"""
from hypothesis import strategies as st

from metatab import MetatabDoc

from vlib import decl as dc, gen, obs, spec as sp
from vlib.core import Check, check, raises, same

COMMON = ['url', 'name', 'description', 'schema']

# Names that are attributes of a term, and so are not available as properties by attribute
ATTRS = {'parent', 'section', 'doc', 'args', 'row', 'col', 'children', 'term', 'value', 'valid', 'options', 'file_name',
         'file_type', 'parent_term', 'record_term', 'term_value_name', 'child_property_type', 'props', 'rows', 'find',
         'get', 'get_value', 'join', 'terms', 'name'}


@st.composite
def cases(draw):
    pool = [n for n in draw(sp.name_pools(size=6)) if not n.isdigit() and n.lower() not in ('vname', 'thevalue')]
    pool = pool or ['Alpha']
    names = pool + ['Url', 'Description', 'Schema', 'Name']
    cols = draw(sp.columns(names, max_size=4, case=True))
    kids = [[draw(gen.recase(st.sampled_from(names))), draw(gen.weighted((gen.few_values, 6), (st.none(), 1)))] for _ in range(draw(st.integers(0, 6)))]
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        ops.append([draw(st.sampled_from(['set', 'set', 'del', 'attr', 'attr', 'value', 'get_or_new', 'undeclared', 'other attr'])),
                    draw(gen.recase(st.sampled_from(names))), draw(gen.weighted((gen.few_values, 4), (gen.values(), 2), (st.just(''), 1)))])
    return dict(pool=names, cols=cols, term=draw(st.sampled_from(pool)), value=draw(gen.few_values), kids=kids, ops=ops,
                vname=draw(st.sampled_from(['', '', 'Vname', 'theValue'])),
                how=draw(st.sampled_from(['rows', 'cells', 'api'])))


def make(case, ctx):
    kw = {}
    if case['vname']:
        kw['decl'] = ctx.write('dd.csv', dc.text(dict(terms=[dict(term='Root.' + case['term'], vname=case['vname'])])))
    kids = []
    if case['how'] == 'api':
        doc = MetatabDoc(**kw)
        s = doc.new_section('Stuff', case['cols'])
        t = s.new_term(case['term'], case['value'])
        for n, v in case['kids']:
            t.new_child(n, '' if v is None and len(n) % 2 else v)
        kids = [[n.lower(), v] for n, v in case['kids']]
    else:
        cells, rest = {}, []
        if case['how'] == 'cells':
            for n, v in case['kids']:
                if n.lower() in [c.lower() for c in case['cols']] and n.lower() not in cells and v is not None:
                    cells[n.lower()] = v
                else:
                    rest.append([n, v])
        else:
            rest = case['kids']
        rows = [['Section', 'Stuff'] + case['cols'],
                [case['term'], case['value']] + [cells.get(c.lower(), '') for c in case['cols']]]
        kids = [[c.lower(), cells[c.lower()]] for c in case['cols'] if c.lower() in cells]
        for n, v in rest:
            rows.append(['.' + n, v or ''])
            kids.append([n.lower(), v])
        doc = obs.make(rows, **kw)
        t = list(doc['Stuff'])[0]
    return doc, t, kids


def same(got, exp, what, same_=same):
    """A blank value may be None or an empty string"""
    def blank(e):
        if isinstance(e, dict):
            return {k: blank(v) for k, v in e.items()}
        if isinstance(e, list):
            return [blank(v) for v in e]
        return None if isinstance(e, str) and not e else e
    same_(blank(got), blank(exp), what)


def verify(case, doc, t, value, kids):
    """Everything that can be read from the term"""
    same(obs.term_tree(t), [case['term'].lower(), value, [[n, v, []] for n, v in kids]], 'the term')
    props = {}
    for n, v in kids:
        props[n] = v
    same(t.props, props, 'props')
    vn = (case['vname'] or '@value').lower()
    for n in case['pool'] + ['Nosuch']:
        ln = n.lower()
        vals = [v for k, v in kids if k == ln]
        forms = {n, ln, n.upper(), n.title()}
        for f in forms:
            if f.lower() != ln:
                continue
            if vals:
                same(t[f].value, vals[0], 'term[%r]' % f)
                check(t[f] is t.find_first(f) and t.get(f) is t[f], 'term[{!r}] is a child', f)
                same(t.get(f, 'dflt').value, vals[0], 'get(%r)' % f)
                same(t.get_value(f), vals[0], 'get_value(%r)' % f)
                same(t.get_value(f, 'dflt'), vals[0], 'get_value(%r)' % f)
                check(f in t, '{!r} in term', f)
                if ln not in ATTRS or f not in ATTRS and not hasattr(type(t), f):
                    if f.isidentifier() and not hasattr(type(t), f) and f not in vars(t):
                        same(getattr(t, f), vals[0], 'attribute ' + f)
            else:
                raises(KeyError, lambda: t[f])
                check(t.get(f) is None, 'get({!r})', f)
                same(t.get(f, 'dflt'), 'dflt', 'get with a default')
                check(t.get_value(f) is None, 'get_value({!r})', f)
                same(t.get_value(f, 'dflt'), 'dflt', 'get_value with a default')
                same(f in t, ln in COMMON, '%r in term' % f)
                if f.isidentifier() and not hasattr(type(t), f) and f not in vars(t):
                    if ln in COMMON:
                        check(getattr(t, f) is None, 'attribute {} is not None', f)
                    else:
                        raises(AttributeError, getattr, t, f)
                        check(not hasattr(t, f), 'attribute {}', f)
    # The value
    same(t.value, value, 'value')
    for f in {vn, vn.upper(), case['vname'] or '@value'}:
        check(t[f] is t, 'term[{!r}]', f)
        same(t.get_value(f), value, 'get_value(%r)' % f)
        if f.isidentifier():
            same(getattr(t, f), value, 'attribute ' + f)
    check('value' in t, 'value in term')
    ap = t.all_props
    same(ap[vn], value, 'value in all_props')
    for k, v in props.items():
        if k != vn:
            same(ap[k], v, 'all_props ' + k)
    if case['how'] != 'api':
        # The row had a cell for each column
        for c in case['cols']:
            check(c.lower() in ap, 'column {} in all_props', c)
            if c.lower() not in props and c.lower() != vn:
                same(ap[c.lower()] or '', '', 'all_props of a column without a property')


def access(case, ctx):
    doc, t, kids = make(case, ctx)
    value = case['value']
    vn = (case['vname'] or '@value').lower()
    verify(case, doc, t, value, kids)
    undeclared = set()
    lcols = [c.lower() for c in case['cols']]
    for op, n, v in case['ops']:
        ln = n.lower()

        def put():
            for e in kids:
                if e[0] == ln:
                    e[1] = v
                    return
            kids.append([ln, v])

        if op == 'set':
            t[n] = v
            put()
        elif op == 'get_or_new':
            t.get_or_new_child(n, v)
            put()
        elif op == 'del':
            t[n] = None
            for e in kids:
                if e[0] == ln:
                    kids.remove(e)
                    break
        elif op == 'value':
            f = {0: 'value', 1: vn, 2: vn.upper()}[len(v) % 3]
            if len(n) % 2 and f.isidentifier():
                setattr(t, f, v)
            else:
                t[f] = v
            value = v
        elif op == 'attr':
            # Only the columns of the section can be set as attributes
            if ln in lcols and n.isidentifier() and not hasattr(type(t), n) and n not in vars(t):
                setattr(t, n, v)
                put()
                ctx.label('property set by attribute')
        elif op == 'undeclared':
            # Other attributes are just attributes, not properties
            a = 'zz_' + ''.join(c for c in ln if c.isalnum() and c.isascii())
            setattr(t, a, v)
            same(getattr(t, a), v, 'attribute')
            check(a not in t and t.get(a) is None, 'an attribute became a property')
        elif op == 'other attr':
            # ... also if there is a property of the same name, which is not a column
            names = [k for k, _ in kids if k not in lcols and k.isidentifier() and k != vn and k not in ATTRS | {'value'}
                     and not hasattr(type(t), k) and k not in vars(t)]
            if names:
                setattr(t, names[len(n) % len(names)], v)
                ctx.label('attribute with the name of a property')
        verify(case, doc, t, value, kids)
    if len({k for k, _ in kids}) < len(kids):
        ctx.label('repeated property')
    return bool(kids)


CHECKS = [
    Check('access', cases(), access, quick=2500,
          rule='a term with generated properties (repeated, mixed case, in columns, in rows, or made with the API; with '
               'or without a declared value name), and up to six changes by item, attribute or method; every way to read '
               'the properties is compared with a model after each; non-trivial: some property'),
]
