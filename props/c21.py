"""C21: reading is pure, and documents are isolated from each other and from their input"""
import copy
import json

from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.rowgen import MetatabRowGenerator
from metatab.datapackage import convert_to_datapackage

from vlib import decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from vlib.rowgen import raw_rows


def full(doc):
    """Everything that can be seen of a document"""
    out = []
    for s in doc:
        out.append([s.name, list(s.property_names), [walk(t) for t in s]])
    return json.loads(json.dumps([out, [[t.qualified_term, t.value] for t in doc.terms], doc.as_csv(), doc.as_lines(),
                                  doc.decl_terms, doc.decl_sections, sorted(doc.super_terms.items()),
                                  {k: sorted(v) for k, v in doc.derived_terms.items()}]))


def walk(t):
    return [t.qualified_term, t.value, t.row, t.col, t.term_value_name, t.child_property_type, list(t.args), t.section.name,
            [walk(c) for c in t.children]]


# Reads, which take the document and a list of numbers
def _terms(doc):
    return [t for t in doc.all_terms if not t.term_is('root.section')]


def r_find(doc, i):
    ts = _terms(doc)
    n = ts[i % len(ts)].qualified_term if ts else 'root.x'
    return [[t.qualified_term, t.value] for t in doc.find(n)], doc.find_first_value(n), doc.get_value(n, 'd')


def r_props(doc, i):
    ts = _terms(doc)
    if not ts:
        return None
    t = ts[i % len(ts)]
    return (t.props, t.arg_props, t.all_props, t.get_value('nosuch'), t.get('nosuch', 1), 'url' in t, t.url, hasattr(t, 'nosuch'),
            [c.value for c in t.find('alpha')], t.is_terminal, t.property_names, str(t), repr(t), t.join, t.term_is('*.*'))


READS = {
    'csv': lambda d, i: d.as_csv(),
    'lines': lambda d, i: d.as_lines(),
    'dict': lambda d, i: json.dumps(d.as_dict()),
    'dict2': lambda d, i: json.dumps(d.as_dict(False)),
    'section dict': lambda d, i: json.dumps(list(d)[i % len(d.sections)].as_dict()),
    'section lines': lambda d, i: list(d)[i % len(d.sections)].as_lines(),
    'rows': lambda d, i: [list(map(str, r)) for r in d.rows],
    'find': r_find,
    'find all': lambda d, i: [t.qualified_term for t in d.find('*.*')],
    'find prop': lambda d, i: [t.qualified_term for t in d.find('Root.*', alpha='v')],
    'props': r_props,
    'get section': lambda d, i: (d.get_section('nosuch', None), 'Root' in d, 'nosuch' in d, d['root'].name),
    'section find': lambda d, i: [t.value for t in list(d)[i % len(d.sections)].find('*.*')],
    'section item': lambda d, i: str(list(d)[i % len(d.sections)]['Nosuch']),
    'section args': lambda d, i: (d.section_args('Resources'), d.section_args('nosuch')),
    'term class': lambda d, i: d.get_term_class('Root.Title').__name__,
    'term dict': lambda d, i: json.dumps([t.as_dict() for s in d for t in s]),
    'descend': lambda d, i: [[c.qualified_term for c in t.descendents] for s in d for t in s],
    'as_version': lambda d, i: d.as_version(None),
    'version': lambda d, i: d._has_semver() if hasattr(d, '_has_semver') else None,
    'missing': lambda d, i: (d.find('Nosuch'), d.find_first('No.Such'), d.get('Nosuch', 5)),
}


@st.composite
def read_cases(draw):
    rows = draw(raw_rows(max_rows=14, unknown_parents=False))
    if draw(st.booleans()):
        rows += [['Section', 'Root'], ['Dataset', 'd'], ['Version', draw(st.sampled_from(['', '1']))]]
        rows += draw(st.sampled_from([[], [['Version.Major', '2']], [['Version.Major', '2'], ['Version.Minor', '1'], ['Version.Patch', '1']]]))
    pool = draw(sp.name_pools(size=5))
    return dict(rows=rows, decl=draw(st.sampled_from([None, dict(sections=[['Resources', ['Aa', 'Bb']]], terms=draw(dc.types(pool)))])),
                reads=draw(st.lists(st.tuples(st.sampled_from(sorted(READS)), st.integers(0, 30)).map(list), min_size=1, max_size=8)),
                as_list=draw(st.booleans()))


def reads(case, ctx):
    try:
        m = model.interpret(case['rows'])
    except model.ModelParserError:
        return False
    kw, decl = {}, None
    if case['decl']:
        decl = ctx.write('dd.csv', dc.text(case['decl']))
        decl = [decl, ctx.write('ab.csv', dc.text(dict(sections=[['More', ['Cc']]], terms=[])))] if case['as_list'] else decl
        kw['decl'] = decl
    rows = [list(r) for r in case['rows']]
    src = MetatabRowGenerator(rows)
    given = copy.deepcopy(decl)
    doc = MetatabDoc(src, **kw)
    same(rows, case['rows'], 'the rows that were given')
    same(decl, given, 'the list of declarations')
    twin = obs.make(case['rows'], **kw)
    state = full(doc)
    same(full(twin), state, 'two documents from the same rows')
    for name, i in case['reads']:
        a = READS[name](doc, i)
        ids = [id(t) for t in _terms(doc)]
        same(full(doc), state, 'the document, after reading %s' % name)
        same(READS[name](doc, i), a, '%s, the second time' % name)
        same(READS[name](twin, i), a, '%s of a document with the same rows' % name)
        same([id(t) for t in _terms(doc)], ids, 'terms')
    same(rows, case['rows'], 'the rows that were given')
    same(full(twin), state, 'the other document')
    return len(m.all) > 1


# -- Isolation --------------------------------------------------------------------------------------------------------

EDITS = ['new_term', 'new_child', 'set', 'del', 'section', 'add_arg', 'remove', 'clean', 'del section', 'sort', 'name', 'load', 'value',
         'sort sections', 'cleanse', 'arg append']


@st.composite
def isolation_cases(draw):
    n = draw(st.integers(2, 3))
    pool = draw(sp.name_pools(size=4))
    sources = [draw(sp.docs(value=gen.few_values, max_sections=2, max_terms=3, depth=1, section_name=st.sampled_from(['Resources', 'Stuff'])))
               for _ in range(2)]
    cols = draw(st.lists(st.sampled_from(['Aa', 'Bb', 'Cc']), min_size=1, max_size=3, unique=True))
    # Declared columns are used by sections that name none
    sources = [[[s, c if draw(st.booleans()) else [], t] for s, c, t in src] for src in sources]
    return dict(sources=sources, which=[draw(st.integers(0, 1)) for _ in range(n)],
                decl=dict(sections=[['Resources', cols], ['Stuff', ['Aa']]], terms=draw(dc.types(pool))),
                use=[draw(st.sampled_from([True, True, False])) for _ in range(n)],
                ops=draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(EDITS), st.integers(0, 20)).map(list),
                                  min_size=1, max_size=10)))


def edit(doc, op, i):
    secs = list(doc)
    s = secs[i % len(secs)]
    ts = list(s)
    t = ts[i % len(ts)] if ts else None
    if op == 'new_term':
        s.new_term('Added', 'x%d' % i, prop='y')
    elif op == 'new_child' and t:
        t.new_child('kid', 'x%d' % i)
    elif op == 'set' and t:
        t['prop'] = 'z%d' % i
    elif op == 'del' and t and t.children:
        t.remove_child(t.children[0])
    elif op == 'section':
        name = ['Resources', 'Stuff', 'New'][i % 3]
        new = doc.get_or_new_section if name in doc or i % 2 else doc.new_section
        s = new(name)
        if i % 4 > 1:
            s.add_arg('Yy')
        if i % 5 == 0:
            s.remove_arg('Aa')
    elif op == 'add_arg':
        s.add_arg('Zz%d' % i, prepend=bool(i % 2))
    elif op == 'arg append':
        s.remove_arg('Aa')
    elif op == 'remove' and t:
        doc.remove_term(t)
    elif op == 'clean':
        s.clean()
    elif op == 'del section':
        del doc[s.name if s.name != 'Root' else 'nosuch']
    elif op == 'sort':
        s.sort_by_term()
    elif op == 'name':
        doc.update_name(create_term=True)
    elif op == 'load':
        doc.load_rows(MetatabRowGenerator([['Section', s.name], ['Loaded', '%d' % i, 'c']]))
    elif op == 'value' and t:
        t.value = 'v%d' % i
    elif op == 'sort sections':
        doc.sort_sections(['stuff', 'resources'])
    elif op == 'cleanse':
        doc.cleanse()


def isolation(case, ctx):
    path = ctx.write('dd.csv', dc.text(case['decl']))
    srcs = [list(model.spec_rows(s)) for s in case['sources']]
    given = copy.deepcopy(srcs)
    decls = [path]

    def make(k):
        return MetatabDoc(MetatabRowGenerator(srcs[case['which'][k]]), **(dict(decl=decls) if case['use'][k] else {}))

    docs = [make(k) for k in range(len(case['which']))]
    fresh = [full(d) for d in docs]
    states = list(fresh)
    changed = 0
    for k, op, i in case['ops']:
        k %= len(docs)
        edit(docs[k], op, i)
        for j, d in enumerate(docs):
            if j != k:
                same(full(d), states[j], 'document %d, after %s in document %d' % (j, op, k))
        new = full(docs[k])
        same(new[4:6], states[k][4:6], 'the declarations, after %s' % op)
        changed += new != states[k]
        states[k] = new
    same(srcs, given, 'the rows that the documents were made from')
    same(decls, [path], 'the list of declarations')
    # New documents, from the same rows, are as they were
    for k in range(len(docs)):
        same(full(make(k)), fresh[k], 'a new document, after others were changed')
    return changed > 0 and len(docs) > 1


# -- Reads between edits ----------------------------------------------------------------------------------------------

@st.composite
def history_cases(draw):
    c = draw(isolation_cases())
    ops = [e for e in EDITS if e not in ('name', 'cleanse')]  # These make identifiers, which are random
    reads_ = st.lists(st.tuples(st.sampled_from(sorted(READS)), st.integers(0, 30)).map(list), max_size=4)
    return dict(source=c['sources'][0], decl=c['decl'], use=c['use'][0],
                ops=[[draw(reads_), draw(st.sampled_from(ops)), draw(st.integers(0, 20))] for _ in range(draw(st.integers(1, 8)))])


def history(case, ctx):
    """What was read before makes no difference for edits, and edits are seen by what is read after them"""
    kw = dict(decl=ctx.write('dd.csv', dc.text(case['decl']))) if case['use'] else {}
    rows = list(model.spec_rows(case['source']))
    doc, quiet = obs.make(rows, **kw), obs.make(rows, **kw)
    for rs, op, i in case['ops']:
        for name, k in rs:
            READS[name](doc, k)
        edit(doc, op, i)
        edit(quiet, op, i)
    last = case['ops'][-1][2]
    for name in sorted(READS):
        same(READS[name](doc, last), READS[name](quiet, last), '%s, of documents with the same edits, one of which was read between them' % name)
    for a, b in zip(doc, quiet):
        same(json.dumps(a.as_dict()), json.dumps(b.as_dict()), 'dict of section %s' % a.name)
        for n in ('Added', 'Loaded', 'Name', 'Title'):
            same([t.value for t in a.find(n)], [t.value for t in b.find(n)], 'terms %s of section %s' % (n, a.name))
    for a, b in zip(_terms(doc), _terms(quiet)):
        for n in ('prop', 'kid', 'aa'):
            same(a.get_value(n), b.get_value(n), 'property %s of %s' % (n, a.qualified_term))
        same([a.props, a.all_props], [b.props, b.all_props], 'properties of %s' % a.qualified_term)
    same(full(doc), full(quiet), 'the documents')
    return any(rs for rs, _, _ in case['ops'])


# -- Interleaving -----------------------------------------------------------------------------------------------------

@st.composite
def interleave_cases(draw):
    return dict(rows=[draw(raw_rows(max_rows=12, unknown_parents=False)) for _ in range(2)],
                turns=draw(st.lists(st.integers(0, 1), max_size=40)))


def interleave(case, ctx):
    """Two documents are parsed at the same time, with their rows in turns"""
    import threading
    docs, errors = [None, None], []
    cond = threading.Condition()
    state = dict(turn=list(case['turns']), done=[False, False])

    def may(k):
        return state['done'][1 - k] or not state['turn'] or state['turn'][0] == k

    def rows(k):
        for r in case['rows'][k]:
            with cond:
                cond.wait_for(lambda: may(k), timeout=30)
                if state['turn']:
                    state['turn'].pop(0)
                cond.notify_all()
            yield list(r)

    def work(k):
        try:
            docs[k] = MetatabDoc(MetatabRowGenerator(rows(k)))
        except Exception as e:
            errors.append(e)
        finally:
            with cond:
                state['done'][k] = True
                cond.notify_all()

    try:
        models = [model.interpret(r) for r in case['rows']]
    except model.ModelParserError:
        return False
    ts = [threading.Thread(target=work, args=(k,)) for k in (0, 1)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    if errors:
        raise errors[0]
    for k in (0, 1):
        same(obs.doc_tree(docs[k]), models[k].tree(), 'document %d, parsed in turns with another' % k)
        obs.check_links(docs[k])
    return all(len(m.all) > 1 for m in models)


CHECKS = [
    Check('reads', read_cases(), reads, quick=1200,
          rule='documents from generated rows, with and without declarations, and up to eight of %d kinds of read; the '
               'whole state, the input rows and declarations, and a twin document are compared after each; '
               'non-trivial: more than one root level term' % len(READS)),
    Check('isolation', isolation_cases(), isolation, quick=1200,
          rule='two or three documents from the same rows and declarations, and up to ten edits of any of them; the others '
               'must not change, and documents made from the same source afterwards are as the first ones were; '
               'non-trivial: some document changed'),
    Check('history', history_cases(), history, quick=1000,
          rule='up to eight edits, with up to four reads before each; against the same edits without the reads; '
               'non-trivial: there are reads'),
    Check('interleave', interleave_cases(), interleave, quick=400,
          rule='two documents parsed at the same time in two threads, with a generated schedule of rows; against the '
               'reference interpreter; non-trivial: both have more than one term'),
]
