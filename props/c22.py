"""C22: documents in YAML"""
import datetime
import os
import random

import yaml
from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.rowgen import YamlMetatabSource

from vlib import big, decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same

SECTIONS = ['Root', 'Contacts', 'Documentation', 'Resources', 'References', 'Schema']


@st.composite
def cases(draw, latest=False):
    value = gen.weighted((gen.few_values, 2), (gen.values(multiline=True), 2))
    if latest:
        terms = [draw(latest_term(value)) for _ in range(draw(st.integers(1, 6)))]
        decl = None
    else:
        pool = draw(sp.name_pools(size=5))
        decl = dict(sections=[[n, [] if n == 'Root' else draw(sp.columns(pool))] for n in SECTIONS], terms=draw(dc.types(pool)))
        for t in decl['terms']:
            p, _, c = t['term'].rpartition('.')
            if p.lower() in ('', 'root'):
                t['term'] = (p or 'Root') + '.' + c
                t['section'] = draw(st.sampled_from(['', 'Root'] + SECTIONS))
        terms = dc.terminal_concats([draw(sp.term(pool, value, (), 3, True)) for _ in range(draw(st.integers(1, 5)))], decl)
    return dict(decl=decl, terms=[dc.prune(t) for t in terms], lists=draw(st.booleans()), dicts=draw(st.booleans()),
                plain=draw(st.booleans()), case=draw(st.booleans()), unicode=draw(st.booleans()), numbers=draw(st.booleans()),
                none=draw(st.lists(st.sampled_from(['empty', 'title', 'datafile']), max_size=2, unique=True)),
                flow=draw(st.sampled_from([None, True, False])), share=draw(st.booleans()), twice=draw(st.booleans()),
                ref=draw(st.sampled_from(['path', 'abs', 'url', 'source', 'file:', 'object'])))


# Terms of the standard declarations: section, name, value property, children
LATEST = [('root', 'title', None, []), ('root', 'description', None, []), ('root', 'identifier', None, []),
          ('contacts', 'wrangler', 'name', ['email', 'organization', 'url']), ('contacts', 'creator', 'name', ['email', 'url']),
          ('resources', 'datafile', 'url', ['name', 'title', 'startline', 'encoding', 'note']),
          ('references', 'reference', 'url', ['name', 'title', 'description']),
          ('schema', 'table', 'name', ['description', 'column']),
          ('documentation', 'documentation', 'url', ['title', 'name'])]


@st.composite
def latest_term(draw, value):
    s, n, vn, ch = draw(st.sampled_from(LATEST))
    cs = []
    for c in draw(st.lists(st.sampled_from(ch), unique=True, max_size=3)) if ch else []:
        if c == 'column':
            for _ in range(draw(st.integers(1, 3))):
                cs.append([c, draw(value), [[k, draw(value), []] for k in draw(st.lists(st.sampled_from(
                    ['datatype', 'altname', 'description', 'note']), unique=True, max_size=3))]])
        else:
            cs.append([c, draw(value), []])
    return [n, draw(value), cs]


def typed(v):
    """The number, date or truth value with this text, if there is one"""
    for f in (int, float, datetime.date.fromisoformat, {'True': True}.__getitem__):
        try:
            if str(f(v)) == v and f(v) == f(v):
                return f(v)
        except (ValueError, KeyError):
            pass
    return v


def to_yaml(terms, parent, tab, case):
    """The mapping for these terms"""
    d, groups = {}, {}
    for t in terms:
        groups.setdefault(t[0].lower(), []).append(t)
    for i, (name, ts) in enumerate(groups.items()):
        vname = tab.get(parent + '.' + name)
        out = []
        for n, (_, v, cs) in enumerate(ts):
            if case['numbers'] and v:
                v = typed(v)
            if cs or (case['dicts'] and n % 2 == 0 and v is not None):
                e = to_yaml(cs, name, tab, case)
                if v is not None:
                    if vname and vname.lower() in e:
                        return None  # The value and a child would have the same name
                    e[vname.lower() if vname and not case['plain'] else '@value'] = v
                elif vname and vname.lower() in e:
                    return None
                if None in e.values() and any(e is None for e in e.values()):
                    pass
                out.append(e)
            else:
                out.append(v)
        if any(e is Ellipsis for e in out):
            return None
        key = ts[0][0] if case['case'] and parent == 'root' else name
        d[key] = out[0] if len(out) == 1 and not case['lists'] else out
    return d


def yaml_source(case, ctx):
    decl = case['decl']
    if decl:
        tab = {dc.key(t['term']): t.get('vname') for t in decl['terms']}
        sec = {dc.key(t['term']): t.get('section') for t in decl['terms']}
    else:
        tab = {'root.' + n: v for _, n, v, _ in LATEST}
        tab['table.column'] = 'name'
        sec = {'root.' + n: s for s, n, _, _ in LATEST}
    if case.get('twice') and case['terms']:
        case = dict(case, terms=case['terms'] + case['terms'][:2])
    try:
        d = to_yaml(case['terms'], 'root', tab, case)
    except TypeError:
        d = None
    if not d:
        return False
    os.chdir(ctx.dir)
    if decl:
        d = dict([('declare', ctx.write('decl.csv', dc.text(decl)))] + list(d.items()))
    for n in case['none']:
        if n not in [k.lower() for k in d]:
            d[n] = []  # No terms
    if case.get('share'):
        d = shared(d, {})  # The same mappings and lists are anchors and aliases
    text = yaml.safe_dump(d, allow_unicode=case['unicode'], sort_keys=False, default_flow_style=case['flow'])
    same(yaml.safe_load(text), d, 'the YAML')
    path = ctx.write('meta.yaml', text)
    ref = case['ref']
    doc = MetatabDoc({'path': 'meta.yaml', 'abs': path, 'url': parse_app_url(path), 'file:': 'file:' + path,
                      'source': None, 'object': parse_app_url('meta.yaml')}[ref] or YamlMetatabSource(parse_app_url('meta.yaml')))

    # Terms are in the section where they are declared to be, in the order of the file, grouped by name
    exp = {s.lower(): [] for s in SECTIONS}
    order = {}
    for t in case['terms']:
        order.setdefault(t[0].lower(), []).append(t)
    for name, ts in order.items():
        exp[(sec.get('root.' + name) or 'root').lower()].extend(model.lower_tree(t) for t in ts)
    got = obs.doc_tree(doc, skip=('declare',))
    same(model.norm_doc([[n.lower(), strs(ts)] for n, ts in got]), model.norm_doc([[n, ts] for n, ts in exp.items()]),
         'the document of\n' + text)
    if decl:
        for n, args in decl['sections']:
            same([a.lower() for a in doc[n].args], [a.lower() for a in args], 'columns of %s' % n)
        # ... and the document says the same as the file
        got = dc.blank({k: v for k, v in plain(doc.as_dict()).items() if k != 'declare'})
        want = dc.blank(dc.as_dict([t for ts in exp.values() for t in map(dc.prune, ts)], 'root', decl))
        same(got, want, 'dict of the document')
    same([t.value for t in doc.find('Root.Declare')], [d.get('declare', 'metatab-latest')], 'declaration')
    same(open(path, encoding='utf8', newline='').read(), text, 'the file')
    ctx.label(ref)
    ctx.label('declared section' if any(v for k, v in exp.items() if k != 'root') else 'root only')
    return any(t[2] for t in case['terms'])


def shared(e, seen):
    if isinstance(e, dict):
        e = {k: shared(v, seen) for k, v in e.items()}
    elif isinstance(e, list):
        e = [shared(v, seen) for v in e]
    else:
        return e
    return seen.setdefault(repr(e), e) if e else e


def strs(ts):
    return [[n, None if v is None else str(v), strs(cs)] for n, v, cs in ts]


def plain(d):
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    if isinstance(d, list):
        return [plain(v) for v in d]
    return d if d is None else str(d)


def large(case, ctx):
    r = random.Random(case['seed'])
    names = ['Nm%d' % i for i in range(case['names'] + 3)]
    decl = dict(sections=[[n, []] for n in SECTIONS], terms=[dict(term='Root.' + n, vname=r.choice(['', 'Vname']), cpt='',
                                                                  section=r.choice(SECTIONS)) for n in names if r.random() < 0.6])
    terms = [t for s in big.doc(dict(case, sections=1, names=len(names)), one_line=False) for t in s[2]]
    if not terms:
        return False
    return yaml_source(dict(decl=decl, terms=terms, lists=r.random() < 0.5, dicts=r.random() < 0.5, plain=r.random() < 0.5, case=False,
                            unicode=r.random() < 0.5, numbers=False, none=[], flow=r.choice([None, True, False]), ref=r.choice(['path', 'abs', 'url'])), ctx)


CHECKS = [
    Check('declared', cases(), yaml_source, quick=1500,
          rule='YAML mappings for generated term trees, with scalars, lists and mappings with @value or the declared value '
               'name, over generated declarations with sections; non-trivial: some term has children'),
    Check('latest', cases(True), yaml_source, quick=64,
          rule='the same, with terms of the standard metatab-latest declarations; non-trivial: some term has children'),
    Check('large', big.sizes(terms=40, width=15, names=20, depth=15), large, quick=40,
          rule='up to 40 root terms, lists of up to 15 elements, nested up to 15 deep; non-trivial: some term has children'),
]
