"""C18: registered term classes"""
import sys
import types

from hypothesis import strategies as st

from metatab import MetatabDoc, Term
from metatab.parser import TermParser

from vlib import decl as dc, gen, model, obs
from vlib.core import Check, check, raises, same

MOD = types.ModuleType('verif_term_classes')
sub = types.ModuleType('verif_term_classes.inner')
CLASSES = {}
for _i in range(4):
    _n = 'Class%d' % _i
    CLASSES[_n] = type(_n, (Term,), dict(marker=_i, __module__='verif_term_classes.inner'))
    setattr(sub, _n, CLASSES[_n])
MOD.inner = sub
sys.modules['verif_term_classes'] = MOD
sys.modules['verif_term_classes.inner'] = sub

NAMES = ['Base', 'Other', 'Sub0', 'Sub1', 'Plain', 'MixedCase']


@st.composite
def cases(draw):
    terms = [dict(term='Root.' + n, section='Root') for n in ('Base', 'Other')]
    for i in range(2):
        if draw(st.integers(0, 3)):
            terms.append(dict(term='Root.Sub%d' % i, section='Root', inherits=draw(st.sampled_from(['Root.', 'Root.', ''])) + draw(st.sampled_from(['Base', 'Other']))))
    steps = []
    for i in range(draw(st.integers(2, 6))):
        k = 'register' if i == 0 else draw(st.sampled_from(['register', 'register', 'register', 'unregister', 'rows', 'api', 'rows']))
        if k == 'register':
            p = draw(st.sampled_from(['Root.', 'Root.', 'Base.', 'Plain.']))
            n = p + draw(st.sampled_from(NAMES))
            steps.append([k, draw(st.sampled_from([n, n.lower(), n.upper()])), draw(st.sampled_from(sorted(CLASSES))),
                          draw(st.sampled_from(['class', 'dotted'])), draw(st.booleans())])
        elif k == 'unregister':
            n = draw(st.sampled_from(['Root.', 'Base.'])) + draw(st.sampled_from(NAMES + ['Never']))
            steps.append([k, draw(st.sampled_from([n, n.lower(), n.upper()]))])
        else:
            doc = [[draw(gen.recase(st.sampled_from(NAMES))), draw(gen.few_values),
                    [[draw(gen.recase(st.sampled_from(NAMES))), draw(gen.few_values)] for _ in range(draw(st.integers(0, 3)))]]
                   for _ in range(draw(st.integers(1, 4)))]
            steps.append([k, doc, draw(st.sampled_from(['', 'Stuff'])), draw(st.integers(0, 3))])
    if steps[-1][0] not in ('rows', 'api'):
        steps.append([draw(st.sampled_from(['rows', 'api'])),
                      [[n, 'v', [[c, 'w'] for c in NAMES if c != n and draw(st.booleans())]] for n in NAMES if draw(st.integers(0, 3))],
                      '', draw(st.integers(0, 3))])
    return dict(decl=dict(sections=[['Root', []]], terms=terms), steps=steps, live=draw(st.booleans()),
                deep=draw(st.lists(gen.recase(st.sampled_from(NAMES)), max_size=2)))


def classes(case, ctx):
    names = [s[1] for s in case['steps'] if s[0] == 'register']
    try:
        return _classes(case, ctx)
    finally:
        for n in names:
            TermParser.unregister_term_class(n)


def _classes(case, ctx):
    path = ctx.write('dd.csv', dc.text(case['decl']))
    sup = {dc.key(t['term']): dc.key(t['inherits']) for t in case['decl']['terms'] if t.get('inherits')}
    reg = {}
    hits = 0

    def expect(key):
        return reg.get(key) or reg.get(sup.get(key)) or Term

    # A document that is there while classes come and go
    live_doc = MetatabDoc(decl=path)

    def live_check():
        for n in NAMES:
            t = live_doc['Root'].new_term(n, 'v')
            check(type(t) is expect('root.' + n.lower()), '{!r}, new in a document that was there before, has class {}', t, type(t))
            c = t.new_child('Base' if n != 'Base' else 'Plain', 'w')
            check(type(c) is expect(c.qualified_term), '{!r}, new in a document that was there before, has class {}', c, type(c))
            check(live_doc.get_term_class('Root.' + n) is expect('root.' + n.lower()), 'class for {}', n)
        from metatab.rowgen import MetatabRowGenerator
        k = len(live_doc.terms)
        live_doc.load_rows(MetatabRowGenerator([[n, 'v'] for n in NAMES]))
        for t in live_doc.terms[k:]:
            check(type(t) is expect(t.qualified_term), '{!r}, loaded into a document that was there before, has class {}', t, type(t))

    for step in case['steps']:
        if case['live']:
            live_check()
        if step[0] == 'register':
            _, n, c, form, via = step
            (MetatabDoc if via else TermParser).register_term_class(
                n, CLASSES[c] if form == 'class' else 'verif_term_classes.inner.' + c)
            reg[n.lower()] = CLASSES[c]
            ctx.label(form)
            continue
        if step[0] == 'unregister':
            TermParser.unregister_term_class(step[1])
            reg.pop(step[1].lower(), None)
            continue
        kind, spec, section, mode = step
        if kind == 'rows':
            rows = [['Section', section]] if section else []
            for n, v, kids in spec:
                rows.append([n, v])
                for cn, cv in kids:
                    # Always a child of the first of the parents with that name
                    rows.append([n + '.' + cn, cv])
                    if cn.lower() == n.lower():
                        break
            if mode % 2:
                doc = obs.make([['Declare', path]] + rows)
            else:
                doc = obs.make(rows, decl=path)
        else:
            doc = MetatabDoc(decl=path)
            s = doc.new_section(section) if section else doc['Root']
            for n, v, kids in spec:
                t = s.new_term(('Root.' if mode & 1 else '') + n, v)
                for cn, cv in kids:
                    q = (n + '.' if (len(cn) + len(v)) % 2 else '') + cn
                    c = t.new_child(q, cv) if not mode & 2 or t.find_first(cn) else t.get_or_new_child(q, cv)
                    # Grandchildren
                    for gn in case.get('deep', []):
                        if mode & 2:
                            c.get_or_new_child(gn, 'g')
                        else:
                            c.new_child(gn, 'g')
        live = [t for x in doc for t in x if not t.term_is('root.declare')]
        same([t.record_term_lc for t in live], [n.lower() for n, _, _ in spec], 'terms')
        for t, (n, v, kids) in zip(live, spec):
            check(type(t) is expect('root.' + n.lower()), '{!r} has class {}', t, type(t))
            check(doc.get_term_class('Root.' + n) is expect('root.' + n.lower()), 'class for {}', n)
            hits += type(t) is not Term
            if type(t) is not Term and 'root.' + n.lower() not in reg:
                ctx.label('class of the super term')
            same(t.value, v, 'value')
            for c in t.descendents:
                check(type(c) is expect(c.qualified_term), '{!r} of {!r} has class {}', c, t, type(c))
                hits += type(c) is not Term
        # Terms of a registered class are terms like any other
        d2 = obs.make(obs.parse_csv(doc.as_csv()))
        strip = lambda tr: [[s, [t for t in ts if t[0] != 'declare']] for s, ts in tr]
        if all(len({t.record_term_lc, *(c.record_term_lc for c in t.descendents)}) == 1 + len(list(t.descendents)) for t in live):
            same(model.norm_doc(strip(obs.doc_tree(d2))), model.norm_doc(strip(obs.doc_tree(doc))), 'written and read')
        obs.check_links(doc)
    return hits > 0


CHECKS = [
    Check('classes', cases(), classes, quick=1500,
          rule='sequences of registering and unregistering classes (as classes or dotted names, mixed case) for root and '
               'child terms, with declared inheritance, interleaved with documents from rows and from the API; the class '
               'of every term is compared with a model of the registry; non-trivial: a term of a registered class'),
]
