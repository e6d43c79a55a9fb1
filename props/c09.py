"""C09: find() returns exactly the terms that match"""
import random
from hypothesis import strategies as st

from metatab import MetatabDoc

from vlib import big, decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from vlib.rowgen import raw_rows
from props.c03 import build, representable


@st.composite
def query(draw, names, sections, values):
    def name():
        return draw(st.sampled_from(names + names + ['Nosuch']))

    def one():
        k = draw(st.sampled_from(['root', 'root', 'root2', 'child', 'child', '*c', 'p*', 'root*', '**']))
        q = {'root': name, 'root2': lambda: 'Root.' + name(), 'child': lambda: name() + '.' + name(),
             '*c': lambda: '*.' + name(), 'p*': lambda: name() + '.*', 'root*': lambda: 'Root.*',
             '**': lambda: '*.*'}[k]()
        return draw(st.sampled_from([q, q, q.lower(), q.upper()]))

    q = dict(term=one())
    if draw(st.integers(0, 4)) == 0:
        q['term'] = [one() for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        s = draw(gen.recase(st.sampled_from(sections)))
        q['section'] = s
        if draw(st.integers(0, 3)) == 0:
            q['section'] = [s, draw(st.sampled_from(sections))]
    q['tuples'] = draw(st.booleans())  # Ask with tuples in place of lists
    if draw(st.integers(0, 2)) == 0:
        q['value'] = draw(st.sampled_from(values + [None, None, '']))
    if draw(st.integers(0, 2)) == 0:
        q['props'] = {draw(gen.recase(st.sampled_from(names))): draw(st.sampled_from(values))
                      for _ in range(draw(st.integers(1, 2)))}
    return q


@st.composite
def cases(draw):
    spec = None
    if draw(st.booleans()):
        rows = draw(raw_rows(max_rows=18, unknown_parents=False))
    else:
        spec = draw(sp.docs(value=gen.few_values, max_terms=4, depth=2, pool_size=4))
        api = draw(st.integers(0, 2)) == 0
        rows = list(model.spec_rows(spec, False if api else draw(st.booleans())))
        if not api or not representable(model.spec_tree(spec)):
            spec = None
    names, sections, values = {'Alpha'}, {'Root', 'Nosection'}, {'v', 'nosuchvalue'}
    for r in rows:
        first = r[0].strip() if r else ''
        if not first or first.startswith('#'):
            continue
        if first.lower() in ('section', 'root.section'):
            sections.add(r[1])
            names.update(c.strip() for c in r[2:] if c.strip())
        elif first.lower() != 'header':
            names.update(e.strip() for e in first.split('.') if e.strip() and e.strip().lower() != 'root')
            values.update(str(c).strip() for c in r[1:] if str(c).strip())
        else:
            names.update(c.strip() for c in r[2:] if c.strip())
    names = sorted(n for n in names if n.lower() not in gen.RESERVED and '*' not in n and gen.upper_ok(n))
    names = names or ['Alpha']
    sections = sorted(s for s in sections if gen.upper_ok(s))
    values = sorted(values)
    queries = draw(st.lists(query(names, sections, values), min_size=1, max_size=4))
    try:
        targets = [t for t in model.interpret(rows).walk() if '*' not in t.name]
    except model.ModelParserError:
        targets = []
    for _ in range(draw(st.integers(1, 4))):
        if targets:
            queries.append(draw(targeted(targets)))
    return dict(rows=rows, queries=queries, spec=spec)


@st.composite
def targeted(draw, targets):
    """A query that a term of the document satisfies"""
    t = draw(st.sampled_from(targets))
    parent = t.parent.name if t.parent else 'root'
    q = dict(term=draw(st.sampled_from([parent + '.' + t.name] * 3 + ['*.' + t.name, parent + '.*'] +
                                       ([t.name] if parent == 'root' else []))))
    up = q['term'].upper()
    if up.lower() == q['term'] and draw(st.integers(0, 3)) == 0:
        q['term'] = up
    if draw(st.integers(0, 2)) == 0:
        q['section'] = t.section.name
    if draw(st.integers(0, 2)) == 0:
        q['value'] = t.value
    kids = [c for c in t.children if c.value is not None and gen.upper_ok(c.name)]
    if kids and draw(st.integers(0, 3)):
        q['props'] = {c.name: c.value for c in draw(st.lists(st.sampled_from(kids), min_size=1, max_size=2))}
    return q


def match(m, term):
    term = term.lower()
    if '.' not in term:
        term = 'root.' + term
    p, c = term.split('.')
    parent = m.parent.name if m.parent else 'root'
    return p in ('*', parent) and c in ('*', m.name)


def prop(m, k):
    k = k.lower()
    if k == (m.vname or '@value'):
        return m.value
    for c in m.children:
        if c.name == k:
            return c.value
    return None


def expected(m, pairs, q):
    """Brute force, over the model"""
    out = []
    terms = q['term'] if isinstance(q['term'], list) else [q['term']]
    for term in terms:
        lt = term.lower()
        root_only = lt.startswith('root.') or '.' not in lt
        order = m.all if root_only else list(m.walk())
        for t in order:
            if not match(t, term):
                continue
            if 'section' in q:
                secs = q['section'] if isinstance(q['section'], list) else [q['section']]
                if t.section.name.lower() not in [s.lower() for s in secs]:
                    continue
            if 'value' in q and t.value != (q['value'] or None):
                continue
            if any(prop(t, k) != v for k, v in q.get('props', {}).items()):
                continue
            out.append(pairs[id(t)])
    return out


def find(case, ctx):
    try:
        m = model.interpret(case['rows'])
    except model.ModelParserError:
        return False
    if case.get('spec'):
        doc = build(MetatabDoc(), case['spec'])
        ctx.label('made with the API')
    else:
        doc = obs.make(case['rows'])
    same(obs.doc_tree(doc), m.tree(), 'the document')
    live = [t for t in doc.all_terms if not t.term_is('root.section')]
    mods = list(m.walk())
    pairs = {id(a): b for a, b in zip(mods, live)}
    hits = 0
    for q in case['queries']:
        kw = {}
        ask = q['term']
        if 'value' in q:
            kw['value'] = q['value']
        if 'section' in q:
            kw['section'] = q['section']
        if q.get('tuples'):
            ask, kw = tuple(ask) if isinstance(ask, list) else ask, {k: tuple(v) if isinstance(v, list) else v
                                                                    for k, v in kw.items()}
        props = q.get('props', {})
        if {'term', 'value', 'section', 'self'} & {k.lower() for k in props}:
            continue
        exp = expected(m, pairs, q)
        if 'value' in q and not q['value']:
            # A blank value is None or an empty string; either way, it is not the value of any other term
            got = [doc.find(ask, **dict(kw, value=v), **props) for v in (None, '')]
            same(sorted({id(t) for g in got for t in g}), sorted({id(t) for t in exp}), 'terms without a value, found for %r' % q)
            for g, v in zip(got, (None, '')):
                f = doc.find_first(ask, **dict(kw, value=v), **props)
                check(f is (g[0] if g else None), 'find_first for {} is {!r}', q, f)
            if exp:
                ctx.label('found by no value')
            continue
        got = [t for t in doc.find(ask, **kw, **props) if not t.term_is('root.section')]
        same([id(t) for t in got], [id(t) for t in exp], 'terms found for %r: %r, expected %r' % (q, got, exp))
        all_sections = '*.*' in (q['term'] if isinstance(q['term'], list) else [q['term']])
        if not all_sections:
            f = doc.find_first(ask, **kw, **props)
            check(f is (exp[0] if exp else None), 'find_first for {} is {!r}', q, f)
            same(doc.find_first_value(ask, **kw, **props), exp[0].value if exp else None, 'find_first_value')
            if not props and 'value' not in q:
                same(doc.get_value(ask, 'dflt', **kw), exp[0].value if exp else 'dflt', 'get_value')
                if not kw:
                    g = doc.get(ask, 'dflt')
                    check(g is exp[0] if exp else g == 'dflt', 'get')
        if isinstance(q.get('section'), str) and q['section'].lower() in m.sections and not props:
            s = doc[q['section']]
            vk = {k: v for k, v in kw.items() if k == 'value'}
            same([id(t) for t in s.find(ask, **vk) if not t.term_is('root.section')], [id(t) for t in exp],
                 'section.find')
            if not all_sections:
                check(s.find_first(ask, **vk) is (exp[0] if exp else None), 'section.find_first')
                same(s.find_first_value(ask, **vk), exp[0].value if exp else None, 'section.find_first_value')
                check(s.get_term(ask, **vk) is (exp[0] if exp else None), 'section.get_term')
                if not vk:
                    check(s[ask] is (exp[0] if exp else None), 'section[...]')
        if exp:
            hits += 1
            for k in ('value', 'section', 'props'):
                if k in q:
                    ctx.label('found by ' + k)
            if isinstance(kw.get('section'), tuple):
                ctx.label('found by tuple of sections')
            if isinstance(q['term'], list):
                ctx.label('found by list')
            elif '*' in q['term']:
                ctx.label('found by wildcard')

        # term_is agrees with find
        terms = q['term'] if isinstance(q['term'], list) else [q['term']]
        for mt in mods:
            same(bool(pairs[id(mt)].term_is(terms)), any(match(mt, t) for t in terms), 'term_is of a list')
            same(bool(pairs[id(mt)].term_is(terms[0])), match(mt, terms[0]), 'term_is %r' % terms[0])

    # Children of a term
    for mt in mods:
        t = pairs[id(mt)]
        for n in {c.name for c in mt.children}:
            kids = [pairs[id(c)] for c in mt.children if c.name == n]
            for q in (n, n.upper() if n.upper().lower() == n else n, mt.name + '.' + n):
                same([id(c) for c in t.find(q)], [id(c) for c in kids], 'children found for ' + q)
                check(t.find_first(q) is kids[0], 'first child found for {}', q)
                same(t.find_first_value(q), kids[0].value, 'first value of ' + q)
                same(t.find_value(q), kids[0].value, 'value of ' + q)
            for v in {k.value for k in kids}:
                same([id(c) for c in t.find(n, value=v)], [id(c) for c in kids if c.value == v], 'children by value')
                check(t.find_first(n, value=v) is [c for c in kids if c.value == v][0], 'first child by value')
        same(list(t.find('nosuchchild')), [], 'children that do not exist')
        check(t.find_first('nosuchchild') is None, 'a child that does not exist')
        check(t.find_first_value('nosuchchild') is None, 'a child that does not exist')
    return hits > 0


# -- Derived terms ----------------------------------------------------------------------------------------------

@st.composite
def derived_cases(draw):
    bases = ['Base', 'Other']
    terms = [dict(term='Root.' + b, section='Root') for b in bases]
    names = list(bases) + ['Plain']
    for i in range(draw(st.integers(1, 4))):
        n = 'Sub%d' % i
        terms.append(dict(term='Root.' + n, section='Root', inherits=draw(st.sampled_from(['Root.', 'Root.', ''])) + draw(st.sampled_from(bases))))
        names.append(n)
    doc = [[draw(st.sampled_from(['', 'Stuff', 'More'])), draw(st.sampled_from(names)), draw(gen.few_values),
            draw(gen.few_values)] for _ in range(draw(st.integers(1, 8)))]
    qs = [[draw(gen.recase(st.sampled_from(['Root.' + n for n in names] + names))) for _ in range(draw(st.integers(1, 3)))]
          for _ in range(3)]
    return dict(decl=dict(sections=[['Root', []]], terms=terms), doc=doc, queries=qs,
                section=draw(st.sampled_from([None, None, 'Stuff', 'Root'])), value=draw(st.sampled_from([None, None, None, 'v', 'w'])),
                prop=draw(st.sampled_from([None, None, None, '1', 'foo'])), how=draw(st.sampled_from(['row', 'decl', 'api'])))


def derived(case, ctx):
    path = ctx.write('dd.csv', dc.text(case['decl']))
    rows = []
    for s, n, v, p in case['doc']:
        rows += [['Section', s or 'Root'], [n, v], ['.prop', p]]
    if case['how'] == 'row':
        doc = obs.make([['Declare', path]] + rows)
    elif case['how'] == 'decl':
        doc = obs.make(rows, decl=path)
    else:
        doc = MetatabDoc(decl=path)
        for s, n, v, p in case['doc']:
            doc.get_or_new_section(s or 'Root').new_term(n, v, prop=p)
    sup = {dc.key(t['term']): dc.key(t['inherits']) for t in case['decl']['terms'] if t.get('inherits')}
    live = [t for s in doc for t in s if not t.term_is('root.declare')]
    nt = False
    for q in case['queries']:
        for ask in (q, q[0]):
            exp = []
            for n in (ask if isinstance(ask, list) else [ask]):
                for t in live:
                    if dc.key(n) not in (t.qualified_term, sup.get(t.qualified_term)):
                        continue
                    if case['section'] and t.section.name != case['section']:
                        continue
                    if case['value'] and t.value != case['value']:
                        continue
                    if case['prop'] and t.get_value('prop') != case['prop']:
                        continue
                    exp.append(id(t))
            kw = {}
            if case['section']:
                kw['section'] = case['section']
            if case['value']:
                kw['value'] = case['value']
            if case['prop']:
                kw['prop'] = case['prop']
            got = doc.find(ask, **kw)
            same(sorted(id(t) for t in got), sorted(exp), 'terms found for %s' % ask)
            f = doc.find_first(ask, **kw)
            check((f is None) == (not exp) and (f is None or id(f) in exp), 'first term found for {}', ask)
            nt = nt or len(exp) > 1
    return nt


def large(case, ctx):
    r = random.Random(case['seed'])
    rows = big.rows(case)
    names = ['Nm%d' % i for i in range(case['names'])] + ['nosuch']
    qs = []
    for _ in range(6):
        n, p = r.choice(names), r.choice(names)
        q = dict(term=r.choice([n, 'Root.' + n, p + '.' + n, '*.' + n, p + '.*', 'root.*', [n, p + '.' + n, '*.' + p]]))
        if r.random() < 0.3:
            q['section'] = r.choice(['Root', 'SEC 1', 'sec 0', ['Sec 2', 'Sec 3']])
        if r.random() < 0.2:
            q['value'] = r.choice(big.WORDS)
        qs.append(q)
    return find(dict(rows=rows, queries=qs), ctx)


CHECKS = [
    Check('find', cases(), find, quick=1800,
          rule='generated documents and queries (qualified names, wildcards, lists, mixed case, by section or list of '
               'sections, by value, by properties), against brute force over the reference model; non-trivial: a query '
               'found something'),
    Check('derived', derived_cases(), derived, quick=600,
          rule='documents with declared inheritance; queries for base and derived terms; non-trivial: more than one '
               'term found'),
    Check('large', big.sizes(rows=150, sections=10, columns=12, names=15), large, quick=60,
          rule='documents of up to 150 rows; non-trivial: as in find'),
]
