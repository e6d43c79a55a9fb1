"""C17: conversion to datapackages"""
import random
import json

from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.datapackage import convert_to_datapackage
from metatab.exc import ConversionError

from vlib import big, decl as dc, gen, model, obs
from vlib.core import Check, check, raises, same
from props.c03 import build

DECL = dict(sections=[['Root', []], ['Resources', ['Name', 'Schema']], ['Schema', ['Datatype']]],
            terms=[dict(term='Root.Datafile', vname='url', cpt='sequence', section='Resources'),
                   dict(term='Root.Table', vname='name', cpt='sequence', section='Schema'),
                   dict(term='Table.Column', vname='name', cpt='sequence', section='Schema'),
                   dict(term='Root.Keyword', cpt='sequence', section='Root'),
                   dict(term='Root.Description', cpt='sconcat', section='Root')])

TYPES = ['str', 'text', 'unicode', 'int', 'float', 'integer', 'date', 'number', 'Str', 'datetime']
TYPE_MAP = {'str': 'string', 'text': 'string', 'unicode': 'string', 'int': 'integer', 'float': 'number'}
NAMES = ['one', 'two', 'three', 'Four', 'five 5', 'süx']


@st.composite
def cases(draw):
    val = gen.weighted((gen.few_values, 2), (gen.values(), 1))
    root = [[n, draw(val), []] for n in draw(st.lists(st.sampled_from(['Title', 'Description', 'Description', 'Keyword',
                                                                      'Keyword', 'Homepage', 'License']), max_size=5))]
    name = draw(st.sampled_from(['name', 'name', 'identifier', 'both', 'both', 'none', 'identity', 'both', 'name']))
    if name in ('name', 'both'):
        root.insert(draw(st.integers(0, len(root))), ['Name', draw(val), []])
    if name in ('identifier', 'both'):
        root.insert(draw(st.integers(0, len(root))), ['Identifier', draw(val), []])
    identity = [['Name', draw(val), []], ['Grain', draw(val), []]] if name == 'identity' or draw(st.integers(0, 4)) == 0 else []
    if identity and draw(st.booleans()):
        identity.append(['Title', draw(val), []])
    tables = []
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=draw(st.sampled_from([0, 1, 1])), max_size=4, unique=True)):
        cols = []
        for _ in range(draw(st.integers(1, 4))):
            p = {}
            for k in ('Datatype', 'Title', 'Description', 'Width'):
                if draw(st.booleans()):
                    p[k] = draw(st.sampled_from(TYPES)) if k == 'Datatype' else draw(val)
            cols.append(['Column', draw(val), [[k, v, []] for k, v in p.items()]])
        if draw(st.integers(0, 3)) == 0:
            cols.insert(draw(st.integers(0, len(cols))), ['Description', draw(val), []])
        tables.append(['Table', n, cols])
    files = []
    for _ in range(draw(st.integers(0, 5))):
        some = [t[1] for t in tables] * 3 + NAMES
        p = [['Name', draw(st.sampled_from(some)), []]]
        if draw(st.booleans()):
            p.append(['Table', draw(st.sampled_from(some + ['nosuch'])), []])
        if draw(st.booleans()):
            p.append(['Encoding', 'utf8', []])
        files.append([draw(st.sampled_from(['Datafile', 'Datafile', 'Datafile', 'DATAFILE', 'Homepage', 'Reference'])),
                      draw(st.sampled_from(['http://example.com/a.csv', 'data/b.csv', 'file:x y.csv#1', 'c.zip'])),
                      draw(st.permutations(p))])
    return dict(root=root, identity=identity, tables=tables, files=files, name=name,
                cols=[draw(st.permutations(['Name', 'Table', 'Encoding'])), draw(st.lists(st.sampled_from(
                    ['Datatype', 'Title', 'Description', 'Width']), unique=True))],
                how=draw(st.sampled_from(['rows', 'rows', 'children', 'api', 'csv', 'lines'])),
                order=draw(st.booleans()),
                edits=draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['no table', 'table', 'name', 'url']),
                                              st.sampled_from(NAMES)).map(list), max_size=3)))


def convert(case, ctx):
    spec = [['Root', [], case['root']]]
    if case['identity']:
        spec.append(['Identity', [], case['identity']])
    more = [['Resources', case['cols'][0], case['files']], ['Schema', case['cols'][1], case['tables']]]
    spec += more if case['order'] else more[::-1]
    path = ctx.write('dd.csv', dc.text(DECL))
    rows = list(model.spec_rows(spec, case['how'] != 'children'))
    how = case['how']
    if how == 'api':
        doc = build(MetatabDoc(decl=path), spec)
    elif how == 'csv':
        doc = obs.make(obs.parse_csv(obs.make(rows).as_csv()), decl=path)
    elif how == 'lines':
        doc = obs.make_lines(obs.make(rows).as_lines(), decl=path)
    else:
        doc = obs.make(rows, decl=path)
    # Changes of the resources
    files = [[n, u, {k.lower(): v for k, v, _ in ps}] for n, u, ps in case['files']]
    for i, what, v in case.get('edits', []):
        if i < len(files):
            t = list(doc['Resources'])[i]
            if what == 'no table':
                t['Table'] = None
                files[i][2].pop('table', None)
            elif what == 'url':
                t.value = files[i][1] = v
            else:
                t[what] = v
                files[i][2][what] = v
            ctx.label('edited')
    tree = obs.doc_tree(doc)
    ctx.label(how)

    if case['name'] == 'none' and not case['identity']:
        if case['root']:
            raises(ConversionError, convert_to_datapackage, doc)
            same(obs.doc_tree(doc), tree, 'the document, after a refused conversion')
        ctx.label('no name')
        return False
    if not case['root']:
        return False  # Only an Identity section

    exp = dc.as_dict([model.lower_tree(t) for t in case['root']], 'root', DECL)
    if case['identity']:
        exp.update(dc.as_dict([model.lower_tree(t) for t in case['identity']], 'root', DECL))
    if 'name' not in exp:
        exp['name'] = exp['identifier']
    schemas = {}
    for _, n, cols in case['tables']:
        fields = []
        for c, cname, props in cols:
            if c != 'Column':
                continue
            p = {k.lower(): v for k, v, _ in props}
            f = dict(name=cname, type=TYPE_MAP.get(p.get('datatype'), p.get('datatype')))
            for k in ('title', 'description'):
                if p.get(k):
                    f[k] = p[k]
            fields.append(f)
        schemas[n] = fields
    exp['resources'] = []
    for n, url, p in files:
        if n.lower() != 'datafile':
            continue
        s = p['name'] if p['name'] in schemas else p.get('table')
        if s in schemas:
            exp['resources'].append(dict(path=url, name=p['name'], schema=dict(fields=schemas[s])))

    got = json.loads(json.dumps(convert_to_datapackage(doc)))
    for d in (got, exp):
        d.pop('@value', None)  # The name of the Identity section
        d.pop('declare', None)
    same(got, exp, 'the datapackage')
    same(obs.doc_tree(doc), tree, 'the document, after converting it')
    again = json.loads(json.dumps(convert_to_datapackage(doc)))
    again.pop('@value', None)
    again.pop('declare', None)
    same(again, exp, 'the datapackage, the second time')
    if exp['resources']:
        ctx.label('resources')
    return bool(exp['resources'])


def missing(case, ctx):
    """Documents without a Schema or Resources are not dropped silently"""
    path = ctx.write('dd.csv', dc.text(DECL))
    spec = [['Root', [], [['Name', case['name'], []]]]]
    if case['kind'] == 'bad table':
        spec += [['Resources', [], []], ['Schema', [], [['Table', 'x', [['Note', 'no columns', []]]]]]]
    else:
        spec += [['Resources', [], []]]
    doc = obs.make(list(model.spec_rows(spec)), decl=path)
    raises(ConversionError, convert_to_datapackage, doc)
    return True


def large(case, ctx):
    r = random.Random(case['seed'])
    tables = [['Table', 'table%d' % i, [['Column', 'c%d' % k, [[p, r.choice(TYPES) if p == 'Datatype' else 'v%d' % k, []]
                                                            for p in r.sample(['Datatype', 'Title', 'Description', 'Width'], r.randint(0, 4))]]
                                        for k in range(r.randint(1, case['columns']))]] for i in range(case['tables'])]
    files = []
    for i in range(case['files']):
        p = [['Name', r.choice(['table%d' % r.randrange(case['tables']), 'file%d' % i]), []]]
        if r.random() < 0.6:
            p.append(['Table', 'table%d' % r.randrange(case['tables'] + 2), []])
        files.append([r.choice(['Datafile', 'Datafile', 'Datafile', 'Reference']), 'data/%d.csv' % i, p])
    return convert(dict(root=[['Name', 'n', []], ['Title', 't', []]], identity=[], tables=tables, files=files, name='name',
                        cols=[['Name', 'Table'], ['Datatype', 'Title']], how=r.choice(['rows', 'children', 'api', 'csv', 'lines']),
                        order=r.random() < 0.5), ctx)


CHECKS = [
    Check('convert', cases(), convert, quick=2000,
          rule='documents with root terms, resources (with tables found by name or by the Table property, or not at all), '
               'and schemas, made from rows with columns, rows without, the API, CSV and Lines; against a model of the '
               'datapackage; non-trivial: some resource'),
    Check('missing', st.fixed_dictionaries(dict(name=gen.few_values, kind=st.sampled_from(['schema', 'bad table']))), missing,
          quick=40, rule='documents without a schema, or with a table that has no columns'),
    Check('large', big.sizes(tables=25, columns=40, files=50), large, quick=40,
          rule='up to 25 tables with up to 40 columns, and 50 resources; non-trivial: some resource'),
]
