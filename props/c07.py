"""C07: declarations"""
import random
import os

from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.exc import DeclarationError, IncludeError, MetatabError, ParserError
from metatab.rowgen import MetatabRowGenerator

from vlib import big, decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, raises, same


# -- A declaration, and a document that uses it -----------------------------------------------------------------

BASES = [['Base', 'Other', 'Thing', 'Basement', 'Things', 'Bas'], ['Datafile', 'Reference', 'Data', 'Table', 'Datafiles', 'Title'],
         ['Name', 'Note', 'Names', 'Term', 'Value', 'Type']]
KIDS = [['Xx', 'yy', 'ZZ', 'aa', 'own', 'extra'], ['url', 'Name', 'TITLE', 'Description', 'Type', 'Schema'],
        ['Identifier', 'Value', 'Note', 'Column', 'Datatype', 'Names'], ['a-b', 'Datafile', 'Base', 'two words', 'x_1', '2x']]


def recased(draw, name):
    return draw(st.sampled_from([str, str, str.lower, str.upper]))(name)


@st.composite
def decls(draw):
    """A declaration with sections, value names, types, synonyms and inheritance"""
    bases, kids = draw(st.sampled_from(BASES)), draw(st.sampled_from(KIDS))
    secs = draw(st.lists(st.sampled_from(['Root', 'Stuff', 'Resources', 'Things', 'Mixed Case']), min_size=1, max_size=3,
                         unique=True))
    sections = [[s, draw(st.lists(st.sampled_from(['Aa', 'bb', 'CC', 'Dd']), max_size=3, unique=True))
                 if s != 'Root' else []] for s in secs]
    terms = []
    for b in draw(st.lists(st.sampled_from(bases), min_size=1, max_size=4, unique=True)):
        sec = draw(st.sampled_from(secs))
        case = draw(st.sampled_from([str, str.lower, str.upper]))
        terms.append(dict(term=draw(st.sampled_from(['Root.', ''])) + case(b), section=case(sec),
                          vname=draw(st.sampled_from(['', 'Vname', 'THEVALUE'])),
                          cpt=draw(st.sampled_from(['', 'sequence', 'any']))))
        for c in draw(st.lists(st.sampled_from(kids[:4]), max_size=3, unique=True)):
            terms.append(dict(term=recased(draw, b) + '.' + c, section=draw(st.sampled_from([sec, sec, sec, draw(st.sampled_from(secs))])),
                              vname=draw(st.sampled_from(['', 'Cname'])), cpt=draw(st.sampled_from([''] + dc.TYPES))))
        derived = [b]
        for i in range(draw(st.integers(0, 2))):
            base = draw(st.sampled_from(derived))
            n = 'D%d%s' % (i, b)
            terms.append(dict(term='Root.' + n, section=sec, vname=draw(st.sampled_from(['', 'Dname'])),
                              cpt='', inherits=draw(st.sampled_from(['Root.', 'root.', ''])) + recased(draw, base)))
            derived.append(n)
            if draw(st.booleans()):
                terms.append(dict(term=n + '.' + kids[4], section=sec, vname='', cpt=draw(st.sampled_from(dc.TYPES))))
        if draw(st.booleans()):
            terms.append(dict(term='Root.Alias' + b, section=sec, synonym='Root.' + b))
        if draw(st.booleans()):
            terms.append(dict(term=b + '.aliaschild', section=sec, synonym=b + '.' + kids[0].lower()))
    decl = dict(sections=sections, terms=terms, kids=kids)
    if draw(st.integers(0, 2)) == 0:
        # Terms that describe the declaration itself, and sections with the names of sections of the document
        meta = [['Meta', 'm'], ['.sub', 's'], [draw(st.sampled_from(['Title', bases[0]])), 'of the declaration', 'x'],
                ['.' + kids[0], 'y'], ['Meta.other', 'z'], ['Header', 'Hname', 'Mm'], ['Meta', 'n', 'o'],
                ['Section', draw(st.sampled_from(['Keep', 'keep', 'Root', 'Stuff'])), 'Mm', 'Nn'], [bases[0], '1', '2', '3'], ['Meta', '4', '5'],
                ['Header', '', 'Oo'], ['Meta', '6', '7']]
        a, b = draw(st.integers(0, len(meta))), draw(st.integers(0, len(meta)))
        meta = meta[min(a, b):max(a, b)]
        if meta and meta[0][0].startswith('.'):
            meta = meta[1:]
        if not meta or meta[0][0] != 'Meta':
            meta = [r for r in meta if not r[0].startswith('Meta.')]
        decl['meta'] = meta
    return decl


def meaning(decl):
    """What the declaration says: {qualified name: (value name, type, section)}, {derived: base}, {alias: name}"""
    table, order, supers, alias = {}, [], {}, {}
    in_section = {}
    for t in decl['terms']:
        k = dc.key(t['term'])
        table[k] = dict(vname=t.get('vname') or '', cpt=t.get('cpt') or '', section=t['section'].lower())
        in_section.setdefault(t['section'].lower(), [])
        if k not in in_section[t['section'].lower()]:
            in_section[t['section'].lower()].append(k)
        if t.get('synonym'):
            alias[k] = t['synonym'].lower()
        if t.get('inherits'):
            base = dc.key(t['inherits'])
            supers[k] = base
            for c in list(in_section[t['section'].lower()]):
                if c.startswith(base.split('.')[1] + '.'):
                    n = k.split('.')[1] + '.' + c.split('.')[1]
                    table[n] = dict(table[c])
                    if n not in in_section[t['section'].lower()]:
                        in_section[t['section'].lower()].append(n)
                    if c in alias:
                        alias[n] = alias[c]
    return table, supers, alias


@st.composite
def cases(draw):
    decl = draw(decls())
    names = []
    for t in decl['terms']:
        n = t['term'].split('.')[-1] if t['term'].lower().startswith('root.') or '.' not in t['term'] else None
        if n:
            names.append(n)
    doc = []
    for _ in range(draw(st.integers(1, 6))):
        n = draw(gen.recase(st.sampled_from(names + ['Undeclared'])))
        # Only two of the inherited aliases would mean a child of the base term
        kids = [[draw(gen.recase(st.sampled_from(decl['kids'] + ['aliaschild']))),
                 draw(gen.few_values)] for _ in range(draw(st.integers(0, 4)))]
        # The rows after a child with the name of its parent would be children of the child
        kids = [k for k in kids if not n.lower().endswith(k[0].lower())]
        doc.append([n, draw(gen.few_values), kids, draw(st.sampled_from(['qualified', 'elided']))])
    return dict(decl=decl, doc=doc, header=draw(st.sampled_from([None, None, '', 'Hname'])), before=draw(st.integers(0, 3)) == 0, keep=draw(st.booleans()), stray=draw(st.sampled_from(['', '', '', 'Meta', 'DeclareTerm', 'DeclareSection'])), section=draw(st.sampled_from(['', 'Stuff', 'Elsewhere'])),
                how=draw(st.sampled_from(['row', 'decl', 'declpath list', 'beside', 'beside no ext', 'two',
                                      'parts', 'parts decl', 'by include'])))


def load(case, ctx, rows):
    how, text = case['how'], dc.text(case['decl'])
    keep = [['Section', 'Keep', 'K1', 'K2'], ['Before', 'a', 'b', 'c']] if case.get('keep') else []
    if keep:
        rows = [['After', 'd', 'e', 'f'], ['Section', 'Root']] + rows
    path = ctx.write('decls/dd.csv', text)
    if how == 'row':
        return obs.make(keep + [['Declare', path]] + rows)
    if how == 'decl':
        return obs.make(keep + rows, decl=path)
    if how == 'declpath list':
        return obs.make(keep + rows, decl=[path])
    if how == 'two':
        # The declaration, in two parts
        half = len(case['decl']['terms']) // 2
        a = dict(case['decl'], terms=case['decl']['terms'][:half])
        if any(t.get('inherits') for t in case['decl']['terms'][half:]):
            a = case['decl']  # The base terms have to be declared in the same document
        b = dict(sections=case['decl']['sections'], terms=case['decl']['terms'])
        p1, p2 = ctx.write('decls/a.csv', dc.text(a)), ctx.write('decls/b.csv', dc.text(b))
        return obs.make(keep + [['Declare', p1], ['Declare', p2]] + rows)
    if how.startswith('parts'):
        # A declaration that includes the rest of it, in a chain of documents
        drows, half = list(dc.rows(case['decl'])), len(case['decl']['terms']) // 2
        first = len(drows) - len(case['decl']['terms'])
        ctx.write('decls/c.csv', obs.to_csv(drows[first + half:]))
        ctx.write('decls/b.csv', obs.to_csv(drows[first - 1:first + half] + [['Include', 'c.csv']]))
        path = ctx.write('decls/parts.csv', obs.to_csv(drows[:first - 1] + [['include', 'b.csv']]))
        return obs.make(keep + rows, decl=path) if how == 'parts decl' else obs.make(keep + [['Declare', path]] + rows)
    if how == 'by include':
        # A declaration in an included document also is for the document that includes it
        ctx.write('sub/localdecl.csv', text)
        ctx.write('sub/inc.csv', obs.to_csv([['Declare', 'localdecl']]))
        return MetatabDoc(ctx.write('sub/doc.csv', obs.to_csv(keep + [['Include', 'inc.csv']] + rows)))
    ctx.write('sub/localdecl.csv', text)
    # Other files with a similar name
    ctx.write('sub/localdecl.csv.csv', dc.text(dict(sections=[['Wrong', []]], terms=[dict(term='Wrong', section='Wrong')])))
    name = 'localdecl.csv' if how == 'beside' else 'localdecl'
    p = ctx.write('sub/doc.csv', obs.to_csv(keep + [['Declare', name]] + rows))
    return MetatabDoc(p)


def declared(case, ctx):
    table, supers, alias = meaning(case['decl'])
    rows = [['Section', case['section']]] if case['section'] else []
    expected = []
    for n, v, kids, style in case['doc']:
        k = alias.get('root.' + n.lower(), 'root.' + n.lower())
        rows.append([n, v])
        rn = k.split('.')[1]
        term = [k, v, []]
        expected.append(term)
        for cn, cv in kids:
            ck = rn + '.' + cn.lower()
            ak = alias.get(ck, ck)
            if ak.split('.')[0] != rn:
                continue  # A synonym that is inherited names the parent it was declared with
            rows.append([('.' if style == 'elided' else rn + '.') + cn, cv])
            term[2].append([ak, cv, []])
    if case.get('before'):
        # The same files have been read before, when they were other declarations
        old = dict(sections=[['Stuff', ['Old']], ['Older', []]], terms=[dict(term=n, section=s, vname='Oldname', cpt='sequence') for n, s in (
            ('Root.Base', 'Stuff'), ('Root.Name', 'Stuff'), ('Base.Xx', 'Stuff'), ('Root.Gone', 'Older'), ('Base.Aliaschild', 'Stuff'))])
        load(dict(case, decl=old), ctx, [['Title', 'x'], ['Base', 'y']])
        ctx.label('read before, with other declarations')
    doc = load(case, ctx, rows)
    ctx.label(case['how'])
    s = doc[case['section'] or 'Root']
    terms = [t for t in s if not t.term_is(['root.declare', 'root.include'])]

    def names(t):
        return [t.qualified_term, obs.val(t), [names(c) for c in t.children]]

    same([names(t) for t in terms], expected, 'terms, with synonyms replaced')
    check(not any(obs.is_declare(t) for x in doc for t in x), 'terms of the declaration are part of the document')
    same(sorted(x.name for x in doc), sorted({'Root', case['section'] or 'Root'} | ({'Keep'} if case.get('keep') else set())),
         'sections of the document')
    if case.get('keep'):
        same([obs.term_tree(t) for t in doc['Keep'] if not t.term_is(['root.declare', 'root.include'])],
             [['before', 'a', [['k1', 'b', []], ['k2', 'c', []]]], ['after', 'd', [['k1', 'e', []], ['k2', 'f', []]]]],
             'terms of the section that was open at the Declare')
        same(doc['Keep'].property_names, ['K1', 'K2'], 'columns of the section that was open at the Declare')
    all_terms = [t for x in doc for t in x]
    same(sorted(id(t) for t in doc.find('root.*')), sorted(id(t) for t in all_terms), 'all root level terms')
    for q in ('DeclareTerm', 'DeclareSection', 'Meta', 'Meta.*', '*.sub'):
        same(doc.find(q), [], 'terms found for ' + q)
    check(doc.find_first('Root.Meta') is None and doc.get('Meta') is None, 'a term of the declaration is found')
    if case['decl'].get('meta'):
        ctx.label('declaration with other terms')
    if case.get('stray'):
        # Names in the declaration are no parents for the rows of the document
        raises(ParserError, load, case, ctx, rows + [[case['stray'] + '.xyz', 'x']])

    used = 0
    for t in terms:
        for e in [t] + list(t.children):
            d = table.get(e.qualified_term)
            used += d is not None
            d = d or dict(vname='', cpt='')
            vn = d['vname'].lower() or '@value'
            same(e.term_value_name.lower(), vn, 'value name of ' + e.qualified_term)
            same(e.child_property_type, d['cpt'] or 'any', 'child property type of ' + e.qualified_term)
            if d['vname']:
                same(e[d['vname']].value, e.value, 'the value, by the declared name')
                same(e.get_value(d['vname'].upper()), e.value, 'the value, by the declared name')
            same(bool(e.valid), e.qualified_term in table, 'validity of ' + e.qualified_term)

    # Terms that are made with the API, also in a section with a Header row
    api = obs.make([['Declare', ctx.write('api.csv', dc.text(case['decl']))], ['Section', 'Api'],
                    ['Header', case.get('header', ''), 'Aa', 'Bb']]) if case.get('header') is not None else \
        MetatabDoc(decl=ctx.write('api.csv', dc.text(case['decl'])))
    s = api.get_or_new_section('Api')
    for n, v, kids, style in case['doc']:
        if 'root.' + n.lower() in alias:
            continue
        t = [s.new_term, s.get_or_new_term][len(v) % 2](n, v)
        made = [t] + [[t.new_child, t.get_or_new_child][len(cv) % 2](cn, cv) for cn, cv in kids]
        for e in made:
            d = table.get(e.qualified_term) or dict(vname='', cpt='')
            if d['vname']:
                same(e.term_value_name.lower(), d['vname'].lower(), 'value name of the new term ' + e.qualified_term)
                same(e[d['vname']].value, e.value, 'the value of a new term, by the declared name')
            same(e.child_property_type, d['cpt'] or 'any', 'child property type of the new term ' + e.qualified_term)

    # The declarations can be looked up, and there are no others
    builtin = set(obs.make([['Title', 'x']]).decl_terms)
    same(sorted(set(doc.decl_terms) - builtin), sorted(table), 'declared terms')
    for k, d in table.items():
        dd = doc.decl_terms[k]
        same((dd.get('termvaluename') or '').lower(), d['vname'].lower(), 'declared value name of ' + k)
        same(dd.get('childpropertytype') or '', d['cpt'], 'declared type of ' + k)
        same((dd.get('section') or '').lower(), d['section'], 'declared section of ' + k)
        same(dc.key(dd['term']), k, 'name of the declared term ' + k)
        check(k in [dc.key(n) for n in doc.decl_sections[d['section']]['terms']], '{} is not in its section', k)
    for n, args in case['decl']['sections']:
        same(doc.decl_sections[n.lower()]['args'], args, 'declared columns of ' + n)

    # Inheritance: the base name also finds the terms that directly inherit from it
    for base in set(supers.values()):
        kids = {k for k, b in supers.items() if b == base}
        exp = [id(t) for t in terms if t.qualified_term in kids | {base}]
        for q in (base, base.title()):
            same(sorted(id(t) for t in doc.find(q)), sorted(exp), 'terms found for ' + base)
        if any(t.qualified_term in kids for t in terms):
            ctx.label('derived terms found')
    if any('root.' + n.lower() in alias for n, *_ in case['doc']):
        ctx.label('synonym')
    return used > 1


# -- Declared columns -------------------------------------------------------------------------------------------

@st.composite
def column_cases(draw):
    secs = draw(st.lists(gen.section_names.filter(lambda n: gen.upper_ok(n)), min_size=1, max_size=3, unique_by=str.lower))
    decl = dict(sections=[[s, draw(st.lists(st.sampled_from(['Aa', 'bb', 'CC', 'Dd']), min_size=1, max_size=4, unique=True))]
                          for s in secs], terms=[])
    blocks = []
    for s in draw(st.lists(st.sampled_from(secs + ['Undeclared']), min_size=1, max_size=4, unique=True)):
        own = draw(st.lists(st.sampled_from(['Ee', 'ff', 'Aa']), max_size=2, unique=True)) if draw(st.booleans()) else []
        terms = [[draw(gen.few_names), draw(gen.few_values),
                  draw(st.lists(gen.weighted((gen.few_values, 3), (st.just(''), 1)), max_size=4))]
                 for _ in range(draw(st.integers(0, 3)))]
        blocks.append([draw(st.sampled_from([s, s.upper(), s.lower()])), own, terms])
    return dict(decl=decl, blocks=blocks, how=draw(st.sampled_from(['decl', 'row', 'include', 'file'])),
                pad=draw(st.sampled_from([0, 0, 1, 3])))


def columns(case, ctx):
    path = ctx.write('dd.csv', dc.text(case['decl']))
    args = {n.lower(): a for n, a in case['decl']['sections']}
    rows, exp = [], []
    for name, own, terms in case['blocks']:
        cols = own or args.get(name.lower(), [])
        rows.append(['Section', name] + own + [''] * case.get('pad', 0))
        rows += [[n, v] + cells for n, v, cells in terms]
        exp.append([name, [[n.lower(), v, [[cols[i].lower() if i < len(cols) else str(i), c, []]
                                          for i, c in enumerate(cells) if c]] for n, v, cells in terms]])
    how = case.get('how', 'decl')
    ctx.label(how)
    if how == 'decl':
        doc = obs.make(rows, decl=path)
    elif how == 'row':
        doc = obs.make([['Declare', path]] + rows)
    elif how == 'include':
        ctx.write('sub/dd2.csv', dc.text(case['decl']))
        ctx.write('sub/inc.csv', obs.to_csv([['Declare', 'dd2']]))
        doc = MetatabDoc(ctx.write('sub/doc.csv', obs.to_csv([['Include', 'inc.csv']] + rows)))
    else:
        doc = MetatabDoc(ctx.write('doc.csv', obs.to_csv([['Declare', 'dd.csv']] + rows)))
    same(obs.doc_tree(doc, skip=('declare', 'include')), [['Root', []]] + exp, 'document with declared columns')

    # Sections made with the API
    api = MetatabDoc(decl=path)
    for i, (name, own, terms) in enumerate(case['blocks']):
        s = (api.new_section if i % 2 else api.get_or_new_section)(name)
        same([str(a) for a in s.property_names], args.get(name.lower(), []), 'columns of a new section')
        same([str(a) for a in api.section_args(name)], args.get(name.lower(), []), 'section_args()')
        # ... or with columns of their own
        api2 = MetatabDoc(decl=path)
        s = (api2.new_section if i % 2 else api2.get_or_new_section)(name, own)
        same([str(a) for a in s.property_names], own or args.get(name.lower(), []), 'columns of a new section that has columns')
        same([str(a) for a in api2.section_args(name)], args.get(name.lower(), []), 'section_args()')
    return any(n.lower() in args and not own and any(c for t in terms for c in t[2]) for n, own, terms in case['blocks'])


# -- Declarations that replace others ----------------------------------------------------------------------------

@st.composite
def replace_cases(draw):
    decls = []
    for _ in range(draw(st.integers(2, 3))):
        secs = [[draw(gen.recase(st.just(n))), draw(st.lists(st.sampled_from(['Aa', 'bb', 'CC', 'Dd', 'Ee']), max_size=3, unique=True))]
                for n in ['Stuff', 'Other', 'Third'] if n == 'Stuff' or draw(st.booleans())]
        terms = [dict(term=draw(gen.recase(st.just(t))), section=draw(st.sampled_from(['Stuff', ''])),
                      vname=draw(st.sampled_from(['', 'Vname', 'Wname', 'Xname'])), cpt=draw(st.sampled_from([''] + dc.TYPES)))
                 for t in ['Root.Base', 'Base.Xx', 'Root.Plain', 'Plain.yy'] if draw(st.booleans())]
        decls.append(dict(sections=secs, terms=terms))
    return dict(decls=decls, how=draw(st.sampled_from(['rows', 'decl', 'mixed', 'one document', 'api'])),
                cells=draw(st.lists(gen.few_values, min_size=1, max_size=4)),
                section=draw(gen.recase(st.sampled_from(['Stuff', 'Other', 'Third']))))


def replaced(case, ctx):
    """The last declaration of a section or of a term is the one that holds"""
    paths = [ctx.write('d%d.csv' % i, dc.text(d)) for i, d in enumerate(case['decls'])]
    args, table, said = {}, {}, {}
    for d in case['decls']:
        for n, a in d['sections']:
            args[n.lower()] = a
        for t in d['terms']:
            table[dc.key(t['term'])] = t
            for f in ('vname', 'cpt'):
                if t[f]:
                    said.setdefault(dc.key(t['term']) + f, []).append(t[f])

    def unsaid(k, f):
        # What the last declaration leaves out, and an earlier one states, is not specified
        return not table.get(k, {}).get(f) and bool(said.get(k + f))

    cols = args.get(case['section'].lower(), [])
    rows = [['Section', case['section']], ['Base', 'b'] + case['cells'], ['Base.Xx', 'x'], ['Plain', 'p'], ['.yy', 'y']]
    how = case['how']
    ctx.label(how)
    if how == 'rows':
        doc = obs.make([['Declare', p] for p in paths] + rows)
    elif how == 'decl':
        doc = obs.make(rows, decl=paths)
    elif how == 'mixed':
        doc = obs.make([['Declare', p] for p in paths[1:]] + rows, decl=paths[0])
    elif how == 'one document':
        p = ctx.write('all.csv', obs.to_csv([r for d in case['decls'] for r in dc.rows(d)]))
        doc = obs.make([['Declare', p]] + rows)
    else:
        doc = MetatabDoc(decl=paths)
        s = doc.new_section(case['section'])
        s.new_term('Base', 'b', **{cols[i].lower() if i < len(cols) else str(i): c for i, c in enumerate(case['cells'])}) \
            .new_child('Xx', 'x')
        s.new_term('Plain', 'p').new_child('yy', 'y')
    s = doc[case['section']]
    if how != 'api':
        same(obs.term_tree(list(s)[0]), ['base', 'b', [[cols[i].lower() if i < len(cols) else str(i), c, []]
                                                       for i, c in enumerate(case['cells'])] + [['xx', 'x', []]]],
             'a term with cells in declared columns')
    for n, a in args.items():
        same([str(e) for e in doc.section_args(n.title())], a, 'columns of ' + n)
        same([str(e) for e in doc.decl_sections[n]['args']], a, 'columns of ' + n)
    for t in s:
        for e in [t] + [c for c in t.children if c.record_term_lc in ('xx', 'yy')]:
            k = e.qualified_term
            d, dd = table.get(k, {}), doc.decl_terms.get(k, {})
            if not unsaid(k, 'vname'):
                same(e.term_value_name.lower(), (d.get('vname') or '@value').lower(), 'value name of ' + k)
                same((dd.get('termvaluename') or '').lower(), (d.get('vname') or '').lower(), 'declared value name of ' + k)
            if not unsaid(k, 'cpt'):
                same(e.child_property_type, d.get('cpt') or 'any', 'type of ' + k)
                same(dd.get('childpropertytype') or '', d.get('cpt') or '', 'declared type of ' + k)
    return any(len([1 for d in case['decls'] for t in d['terms'] if dc.key(t['term']) == k]) > 1 for k in table)


# -- Errors -----------------------------------------------------------------------------------------------------

def errors(case, ctx):
    kind = case['kind']
    decl = dict(sections=[['Stuff', []]], terms=[dict(t) for t in case['terms']])
    bad = dict(term='Root.Bad', section='Stuff')
    if kind == 'section':
        bad['section'] = case['name']
    elif kind == 'inherits':
        bad.update(section='', inherits='Root.Base')
    rows = [['Title', 'x']]
    if kind == 'missing':
        name = case['name'].replace(' ', '_') + '-nosuchdecl'
        raises((IncludeError, MetatabError), obs.make, [['Declare', name]] + rows)
        raises((IncludeError, MetatabError), obs.make, rows, decl=name)
        p = ctx.write('doc.csv', obs.to_csv([['Declare', name]] + rows))
        raises((IncludeError, MetatabError), MetatabDoc, p)
        return True
    decl['terms'].insert(case['pos'] % (len(decl['terms']) + 1), bad)
    path = ctx.write('dd.csv', dc.text(decl))
    if kind == 'ok':
        obs.make([['Declare', path]] + rows)
        obs.make(rows, decl=path)
        return True
    raises(DeclarationError, obs.make, [['Declare', path]] + rows)
    raises(DeclarationError, obs.make, rows, decl=path)
    ctx.label(kind)
    return True


error_cases = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['section', 'inherits', 'missing', 'ok']),
    name=st.sampled_from(['Nosuch', 'Elsewhere 2', 'contacts', 'Stuffed']),
    pos=st.integers(0, 10),
    terms=st.lists(st.fixed_dictionaries(dict(term=st.sampled_from(['Root.Base', 'Base.xx', 'Other']),
                                              section=st.sampled_from(['Stuff', 'stuff', '']))), max_size=4)))

def large(case, ctx):
    """Long declarations"""
    r = random.Random(case['seed'])
    secs = ['Sec %d' % i for i in range(case['sections'])]
    terms, bases = [], []
    for i in range(case['terms']):
        n, sec = 'Term%d' % i, r.choice(secs)
        t = dict(term='Root.' + n, section=sec, vname=r.choice(['', 'Vname']), cpt=r.choice(['', 'sequence', 'any']))
        same_sec = [b for b in bases if b[1] == sec]
        if same_sec and r.random() < 0.4:
            t['inherits'] = 'Root.' + r.choice(same_sec)[0]
        terms.append(t)
        bases.append((n, sec))
        for c in r.sample(['Xx', 'yy', 'ZZ', 'aa', 'own'], r.randint(0, 4)):
            terms.append(dict(term=n + '.' + c, section=sec, vname=r.choice(['', 'Cname']), cpt=r.choice([''] + dc.TYPES)))
        if r.random() < 0.2:
            terms.append(dict(term='Root.Alias' + n, section=sec, synonym='Root.' + n))
    decl = dict(sections=[[s, r.sample(['Aa', 'bb', 'CC', 'Dd'], r.randint(0, 4))] for s in secs], terms=terms)
    names = [t['term'].split('.')[1] for t in terms if t['term'].startswith('Root.')]
    doc = [[r.choice(names), 'v%d' % i, [[r.choice(['Xx', 'yy', 'ZZ', 'aa', 'own', 'extra']), 'w'] for _ in range(r.randint(0, 4))],
            r.choice(['qualified', 'elided'])] for i in range(case['doc'])]
    return declared(dict(decl=decl, doc=doc, section=r.choice(['', 'Stuff']), how=r.choice(['row', 'decl', 'beside'])), ctx)


CHECKS = [
    Check('declared', cases(), declared, quick=1800,
          rule='generated declarations (sections, value names, child property types, synonyms, two levels of '
               'inheritance, mixed case) loaded in 9 ways, and documents that use them, against a model of the '
               'declaration; non-trivial: at least two terms that are declared'),
    Check('columns', column_cases(), columns, quick=800,
          rule='documents with sections whose columns are declared, named, or neither; non-trivial: a cell in a declared '
               'column'),
    Check('replaced', replace_cases(), replaced, quick=600,
          rule='two or three declarations of the same sections and terms, with other columns, value names and types, loaded '
               'in five ways; non-trivial: a term that is declared more than once'),
    Check('errors', error_cases, errors, quick=300,
          rule='declarations that refer to an undeclared section, inherit without a section, or cannot be found'),
    Check('large', big.sizes(sections=12, terms=40, doc=60), large, quick=40,
          rule='declarations of up to 40 root terms with children, long chains of inheritance, and documents of up to 60 terms; '
               'non-trivial: as in declared'),
]
