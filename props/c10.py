"""C10: histories of edits"""
from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.terms import Term

from vlib import gen, model, obs, spec as sp
from vlib.core import Check, check, raises, same

idx = st.integers(0, 40)
value = gen.weighted((gen.few_values, 3), (gen.values(), 1), (st.sampled_from(['ab', 'xy', '0']), 1))

OPS = ['new_term'] * 4 + ['new_child'] * 5 + ['get_or_new_term', 'section_set', 'set_terms', 'get_or_new_child',
                                             'get_or_new_child', 'term_set', 'term_set', 'term_del', 'term_del',
                                             'set_value', 'set_value', 'set_attr', 'new_section', 'new_section',
                                             'del_section', 'remove_child', 'remove_child', 'remove_term',
                                             'doc_remove_term', 'doc_remove_child', 'del_name', 'clean',
                                             'remove_arg', 'add_arg', 'load_rows', 'reread', 'move', 'move', 'sort_sections', 'sort_terms']

op = st.fixed_dictionaries(dict(op=st.sampled_from(OPS), s=idx, t=idx, c=st.lists(idx, max_size=2), n=idx, v=value,
                                case=st.sampled_from(['', '', 'l', 'u', 't']), props=st.lists(st.tuples(idx, st.one_of(value, value, value, st.sampled_from(['', None]))), max_size=2),
                                qual=st.integers(0, 5)))


@st.composite
def cases(draw):
    pool = [n for n in draw(sp.name_pools(size=6)) if not n.isdigit()] or ['Alpha']
    start = draw(sp.docs(value=gen.few_values, max_sections=2, max_terms=3, depth=2)) if draw(st.booleans()) else []
    secs = []
    for s in draw(st.lists(gen.section_names, min_size=2, max_size=3)):
        if s.lower() not in [e.lower() for e in secs] and gen.upper_ok(s):
            secs.append(s)
    return dict(pool=pool, start=start, secs=secs or ['Stuff'], watch=draw(st.sampled_from([False, True])), ops=draw(st.lists(op, min_size=1, max_size=14)))


def recase(n, how):
    m = dict(l=n.lower(), u=n.upper(), t=n.title()).get(how, n)
    return m if m.lower() == n.lower() else n


class Model:
    """Sections hold terms, terms hold children: [name, value, children]"""

    def __init__(self, tree, cols):
        self.secs = {n.lower(): [n, ts, cols.get(n.lower(), [])] for n, ts in tree}

    def tree(self):
        return [[n, ts] for n, ts, _ in self.secs.values()]


def pick(seq, i):
    return seq[i % len(seq)] if seq else None


def run(case, ctx):
    pool = case['pool']
    rows = list(model.spec_rows(case['start']))
    doc = obs.make(rows) if rows else MetatabDoc()
    m = Model(obs.doc_tree(doc), {s[0].lower(): list(s[1]) for s in case['start']})
    # Live objects, in parallel with the model
    ran = []
    for o in case['ops']:
        done = step(case, doc, m, o, pool)
        if isinstance(done, MetatabDoc):
            doc = done
            done = 'reread'
        if done:
            ran.append(done)
            ctx.label(done)
        same(obs.doc_tree(doc), m.tree(), 'the document after %s %r' % (ran, o))
        obs.check_links(doc)
        # Every term can be found, nothing else can
        same(sorted(id(t) for t in doc.find('Root.*')), sorted(id(t) for s in doc for t in s), 'find after %s' % ran)
        for s in doc:
            same([id(t) for t in s.find('*.*')], [id(d) for t in s for d in [t] + list(t.descendents)],
                 'section.find after %s' % ran)
        if case['watch']:
            watch(doc, m, ran, pool)

    tree = m.tree()
    if representable(tree):
        same(model.norm_doc(obs.doc_tree(obs.make(obs.parse_csv(doc.as_csv())))), model.norm_doc(tree),
             'the edited document, written and read')
        same(model.norm_doc(obs.doc_tree(obs.make_lines(doc.as_lines()))), model.norm_doc(tree),
             'the edited document, written and read as lines')
    return len(set(ran)) > 2


def watch(doc, m, ran, case_names):
    """What is read after every edit"""
    for s in doc:
        names = {}
        for t in s:
            names.setdefault(t.record_term_lc, []).append(t)
            props = {}
            for c in t.children:
                props[c.record_term_lc] = c.value
                check(t[c.record_term_lc] is t.find_first(c.record_term_lc), 'property {} after {}', c, ran)
            same(t.props, props, 'props after %s' % ran)
        # Terms that were moved or sorted may be found in some other order
        for n, ts in names.items():
            found = list(s.find(n))
            same(sorted(map(id, found)), sorted(map(id, ts)), 'find %s in %s after %s' % (n, s.name, ran))
            check(s.find_first(n) is found[0] and s[n] is found[0], 'find_first {} in {} after {}', n, s.name, ran)
            check(doc.find_first(n, section=s.name) is found[0], 'find_first {} in section {} after {}', n, s.name, ran)
            found = doc.find(n)
            same(sorted(map(id, found)), sorted(id(t) for x in doc for t in x if t.record_term_lc == n), 'find %s after %s' % (n, ran))
            check(doc.find_first(n) is found[0], 'find_first {} after {}', n, ran)
    for n in case_names:
        if all(n.lower() != t.record_term_lc for s in doc for t in s):
            check(doc.find_first(n) is None, 'find_first {} after {}', n, ran)
    tree = m.tree()
    if representable(tree):
        same(model.norm_doc(obs.doc_tree(obs.make(obs.parse_csv(doc.as_csv())))), model.norm_doc(tree), 'CSV after %s' % ran)


def representable(tree):
    def ok(t, anc):
        return t[0] not in anc and all(ok(c, anc | {t[0]}) for c in t[2])
    return all(ok(t, frozenset()) for _, terms in tree for t in terms)


def first(children, name):
    for c in children:
        if c[0] == name.lower():
            return c
    return None


def step(case, doc, m, o, pool):
    name = recase(pick(pool, o['n']), o['case'])
    v = o['v']
    sk = pick(list(m.secs), o['s'])
    ms, ls = m.secs[sk], doc[recase(m.secs[sk][0], o['case'])]
    mt, lt = pick(ms[1], o['t']), pick(list(ls), o['t'])
    # Down to a descendent
    mparent, lparent = None, None
    md, ld = mt, lt
    if mt is not None:
        for i in o['c']:
            if md[2]:
                mparent, lparent = md, ld
                md, ld = pick(md[2], i), pick(ld.children, i)
    props = {}
    for i, pv in o['props']:
        pn = pick(pool, i)
        if pn.lower() not in [k.lower() for k in props]:
            props[pn] = pv
    mprops = [[k.lower(), pv or None, []] for k, pv in props.items()]
    anc = name.lower()
    k = o['op']

    if k == 'new_term':
        q = 'Root.' + name if o['qual'] == 0 else name
        t = ls.new_term(q, v, **props)
        ms[1].append([name.lower(), v, mprops])
        check(list(ls)[-1] is t, 'new_term returned {!r}', t)
    elif k in ('get_or_new_term', 'section_set'):
        if k == 'section_set':
            props, mprops = {}, []
            ls[name] = v
        else:
            t = ls.get_or_new_term(name, v, **props)
        old = [e for e in ms[1] if e[0] == name.lower() and e[1] == v]
        if old:
            for p in mprops:
                c = first(old[0][2], p[0])
                if c:
                    c[1] = p[1]
                else:
                    old[0][2].append(p)
        else:
            ms[1].append([name.lower(), v, mprops])
        if k == 'get_or_new_term':
            same(obs.term_tree(t), old[0] if old else ms[1][-1], 'the term that get_or_new_term returned')
    elif k == 'set_terms':
        other = pick(pool, o['n'] + 1)
        if other.lower() == name.lower():
            ls.set_terms(**{name: (v, props)})
            ms[1].append([name.lower(), v, mprops])
        else:
            ls.set_terms(**{name: (v, props), other: v})
            ms[1].append([name.lower(), v, mprops])
            ms[1].append([other.lower(), v, []])
    elif k == 'new_child':
        if md is None:
            return
        q = md[0] + '.' + name if o['qual'] == 0 else name
        t = ld.new_child(q, v, **props)
        md[2].append([name.lower(), v, mprops])
        check(ld.children[-1] is t and t.parent is ld, 'new_child returned {!r}', t)
    elif k == 'get_or_new_child':
        if md is None:
            return
        if md[2] and o['qual'] > 3:
            # The name, and the value, of children that are there
            like = pick(md[2], o['n'])
            name, v = recase(like[0], o['case']), like[1] or v
        t = ld.get_or_new_child(name, v, **props)
        c = first(md[2], name)
        if c is None:
            md[2].append([name.lower(), v, mprops])
            c = md[2][-1]
        else:
            c[1] = v
            for p in mprops:
                g = first(c[2], p[0])
                if g:
                    g[1] = p[1]
                else:
                    c[2].append(p)
        same(obs.term_tree(t), c, 'the child that get_or_new_child returned')
    elif k == 'term_set':
        if md is None:
            return
        ld[name] = v
        c = first(md[2], name)
        if c is None:
            md[2].append([name.lower(), v, []])
        else:
            c[1] = v
        same(ld[name].value, v, 'the property that was set')
    elif k == 'term_del':
        if md is None:
            return
        if md[2] and o['qual']:
            name = recase(pick(md[2], o['n'])[0], o['case'])
        ld[name] = None
        c = first(md[2], name)
        if c is not None:
            md[2].remove_identity(c) if hasattr(md[2], 'remove_identity') else del_is(md[2], c)
    elif k == 'set_value':
        if md is None:
            return
        if o['qual'] < 2:
            ld.value = v
        elif o['qual'] < 4:
            ld['value'] = v
        else:
            ld['@value'] = v
        md[1] = v
    elif k == 'set_attr':
        # Properties that are columns of the section can be set as attributes
        names = [c for c in ms[2] if c.isidentifier() and c.lower() not in SPECIAL]
        if md is None or not names:
            return
        n = pick(names, o['n'])
        setattr(ld, n, v)
        c = first(md[2], n)
        if c is None:
            md[2].append([n.lower(), v, []])
        else:
            c[1] = v
        same(getattr(ld, n), v, 'the attribute that was set')
    elif k == 'new_section':
        n = recase(pick(case['secs'], o['n']), o['case'])
        cols = [c for c in props]
        had = n.lower() in m.secs
        check((n in doc) == had, 'section {} in the document', n)
        if (not had and o['qual'] < 3) or (o['qual'] == 0 and n.lower() != 'root'):
            # A new section replaces one that is there
            s = doc.new_section(n, cols)
            had = False
        else:
            s = doc.get_or_new_section(n, cols)
        if not had:
            m.secs[n.lower()] = [n, [], cols]
        check(s is doc[n.upper()] or n.upper().lower() != n.lower(), 'new section {}', n)
        same([str(e).lower() for e in s.property_names], [e.lower() for e in m.secs[n.lower()][2]], 'columns of section ' + n)
        check(n in doc, 'section {} in the document', n)
    elif k == 'del_section':
        n = recase(pick(case['secs'], o['n']), o['case'])
        if o['qual'] == 0:
            n = 'Nosuch'
        del doc[n]
        m.secs.pop(n.lower(), None)
        check(n not in doc, 'deleted section {} in the document', n)
        raises(KeyError, doc.get_section, n)
        check(doc.get_section(n, None) is None, 'deleted section {}', n)
    elif k == 'remove_child':
        if mparent is None:
            return
        lparent.remove_child(ld)
        del_is(mparent[2], md)
    elif k == 'doc_remove_child':
        if mparent is None:
            return
        doc.remove_term(ld)
        del_is(mparent[2], md)
    elif k == 'remove_term':
        if mt is None:
            return
        ls.remove_term(lt)
        del_is(ms[1], mt)
    elif k == 'doc_remove_term':
        if mt is None:
            return
        doc.remove_term(lt)
        del_is(ms[1], mt)
    elif k == 'del_name':
        q = 'Root.' + name if o['qual'] == 0 else name
        if ms[1] and o['qual'] > 2:
            q = name = recase(pick(ms[1], o['n'])[0], o['case'])
        del ls[q]
        ms[1][:] = [t for t in ms[1] if t[0] != name.lower()]
    elif k == 'clean':
        if o['qual'] > 2:
            return
        ls.clean()
        ms[1][:] = []
    elif k == 'move':
        # A term is moved to some section, or a new one is added
        ts = m.secs[pick(list(m.secs), o['n'])]
        to = doc[recase(ts[0], o['case'])]
        fn = [to.move_term, to.add_term, to.set_terms][o['qual'] % 3]
        if o['qual'] == 5 or mt is None:
            t = Term(pick(pool, o['n']), v)
            ts[1].append([pick(pool, o['n']).lower(), v, []])
            fn(t)
            check(list(to)[-1] is t and t.section is to and t.doc is doc, 'the added term {!r}', t)
            return k
        fn(lt)
        if ts is not ms:
            del_is(ms[1], mt)
            ts[1].append(mt)
        check(lt.section is to and lt.doc is doc, 'the section of a moved term is {!r}', lt.section)
        for d in lt.descendents:
            check(d.section is to and d.doc is doc, 'the section of a child of a moved term is {!r}', d.section)
    elif k == 'add_arg':
        ls.add_arg(name, prepend=bool(o['qual'] % 2))
        if name.lower() not in [c.lower() for c in ms[2]]:
            ms[2][:] = [name] + ms[2] if o['qual'] % 2 else ms[2] + [name]
        same([c.lower() for c in ls.property_names], [c.lower() for c in ms[2]], 'columns after add_arg')
    elif k == 'remove_arg':
        ls.remove_arg(name)
        ms[2][:] = [c for c in ms[2] if c.lower() != name.lower()]
        same([c.lower() for c in ls.property_names], [c.lower() for c in ms[2]], 'columns after remove_arg')
    elif k == 'sort_sections':
        order = [recase(pick(case['secs'] + ['Root', 'Nosuch'], o['n'] + i), o['case']) for i in range(o['qual'] % 3 + 1)]
        doc.sort_sections(order)
        lc = list(dict.fromkeys(e.lower() for e in order))
        m.secs = {e: m.secs[e] for e in [e for e in lc if e in m.secs] + [e for e in m.secs if e not in lc]}
    elif k == 'sort_terms':
        order = None if o['qual'] < 3 else [recase(pick(pool, o['n'] + i), o['case']) for i in range(o['qual'] - 2)]
        ls.sort_by_term(order and ['Root.' + e for e in order])
        lc = list(dict.fromkeys(e.lower() for e in order or []))
        ms[1].sort(key=lambda t: (lc.index(t[0]) if t[0] in lc else len(lc), '' if t[0] in lc else t[0]))
    elif k == 'load_rows':
        from metatab.rowgen import MetatabRowGenerator
        rows = [['Section', ms[0]], [name, v]] + [['.' + p, pv] for p, pv in props.items()]
        doc.load_rows(MetatabRowGenerator(rows))
        ms[1].append([name.lower(), v, mprops])
    elif k == 'reread':
        if o['qual'] > 1 or not representable(m.tree()):
            return
        d2 = obs.make(obs.parse_csv(doc.as_csv()))
        same(model.norm_doc(obs.doc_tree(d2)), model.norm_doc(m.tree()), 'the document, written and read')
        m2 = Model(obs.doc_tree(d2), {s[0].lower(): s[2] for s in m.secs.values()})
        m.secs = m2.secs
        return d2
    return k


SPECIAL = {'value', 'section', 'term', 'doc', 'parent', 'row', 'col', 'children', 'args', 'options', 'valid', 'rows',
           'file_name', 'file_type', 'name', 'props', 'find', 'get', 'terms', 'record_term', 'parent_term'}


def del_is(seq, x):
    for i, e in enumerate(seq):
        if e is x:
            del seq[i]
            return


CHECKS = [
    Check('history', cases(), run, quick=3500,
          rule='histories of up to 14 of %d kinds of edit (terms, children, values, sections, columns, loading rows, '
               'writing and reading), on empty and parsed documents, against a model after every edit; non-trivial: at '
               'least three kinds of edit took effect' % len(set(OPS))),
    Check('long', st.builds(lambda c, more: dict(c, ops=c['ops'] + more), cases(), st.lists(op, min_size=20, max_size=40)),
          run, quick=400, rule='the same, with 20 to 54 edits'),
]
