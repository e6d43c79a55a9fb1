"""C19: the command line program"""
import contextlib
import io
import json
import logging
import os
import sys
import uuid

import yaml
from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab import cli

from vlib import decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from props.c15 import snapshot

OUT = ['-c', '-l', '-j', '-y', '', '--csv', '--line', '--json', '--yaml']


@st.composite
def cases(draw):
    pool = draw(sp.name_pools(size=5))
    doc = draw(sp.docs(max_sections=2, max_terms=3, depth=2, multiline=draw(st.booleans())))
    return dict(doc=doc, again=draw(st.integers(0, 7)), src=draw(st.sampled_from(['metadata.csv', 'metadata.csv', 'other.csv', 'lines.txt', 'pkg/metadata.csv',
                                                                   'x-1.2.3.csv', 'a.b.txt', 'd.1/e.f.csv'])),
                ref=draw(st.sampled_from(['rel', 'abs', 'dir', 'default'])),
                runs=draw(st.lists(st.tuples(st.sampled_from(OUT + ['-t', '-f', '-f', '-p']), st.sampled_from([False, False, True]),
                                             st.integers(0, 20)).map(list), min_size=1, max_size=4)),
                decl=draw(st.sampled_from([None, None, dict(sections=[], terms=draw(dc.types(pool)))])))


def run(*argv):
    """Exit code, output and errors of the program"""
    out, err = io.StringIO(newline=''), io.StringIO(newline='')
    old = sys.argv
    for l in (logging.getLogger('user'), logging.getLogger('cli-errors')):
        l.handlers[:] = []
    sys.argv = ['metatab'] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                cli.metatab()
                code = 0
            except SystemExit as e:
                code = e.code or 0
    finally:
        sys.argv = old
        for l in (logging.getLogger('user'), logging.getLogger('cli-errors')):
            l.handlers[:] = []
    return code, out.getvalue(), err.getvalue()


def plain(d):
    return json.loads(json.dumps(d))


def program(case, ctx):
    spec = case['doc']
    if case['src'].endswith('.txt'):
        one = lambda v: v if v is None else v.replace('\n', ' ')
        fix = lambda t: [t[0], one(t[1]), [fix(c) for c in t[2]]]
        spec = [[n, c, [fix(t) for t in ts]] for n, c, ts in spec]
    rows = list(model.spec_rows(spec))
    if spec and case['again'] < 2 and not case['src'].endswith('.txt'):
        # Return to a section, with terms of another one
        rows.append(['Section', ['Root', spec[0][0]][case['again']]])
        for t in spec[-1][2]:
            rows += model.term_rows([t[0], 'again', t[2]], None, [])
        ctx.label('section re-opened')
    os.makedirs(os.path.join(ctx.dir, 'w'))
    top = os.path.join(ctx.dir, 'w')
    os.chdir(top)
    if case['decl'] and '/' not in case['src']:
        ctx.write('w/dd.csv', dc.text(case['decl']))
        rows = [['Declare', 'dd.csv']] + rows
        text = obs.to_csv(rows)
        if case['src'].endswith('.txt'):
            text = 'Declare: dd.csv\n' + obs.make(rows[1:]).as_lines()
        ctx.label('declaration')
    else:
        text = obs.make(rows).as_lines() if case['src'].endswith('.txt') else obs.to_csv(rows)
    src = os.path.join(top, case['src'])
    ctx.write('w/' + case['src'], text)
    ref = {'rel': case['src'], 'abs': src, 'dir': os.path.dirname(src), 'default': None}[case['ref']]
    if case['ref'] == 'dir' and os.path.basename(src) != 'metadata.csv':
        ref = case['src']
    if ref is None:
        if case['src'] != 'metadata.csv':
            ref = case['src']
    args = [ref] if ref else []

    def load():
        return MetatabDoc(parse_app_url(src, proto='metatab'))

    outputs = 0
    for out, write, i in case['runs']:
        before = snapshot(top)
        doc = load()
        tree = obs.doc_tree(doc)
        if out == '-f':
            ts = [t for t in doc.all_terms if not t.term_is('root.section') and '*' not in t.qualified_term
                  and t.record_term_lc and t.section.name]
            if not ts:
                continue
            t = ts[i % len(ts)]
            name = t.qualified_term
            if i % 3 == 0 and name.upper().lower() == name:
                name = name.upper()
            code, text, _ = run('-f', name, *args)
            same(code, 0, 'exit code')
            same(text, '%s\n' % doc.find_first(name).value, 'the first value of ' + name)
            same(snapshot(top), before, 'files, after printing')
            ctx.label('find')
            continue
        flags = ([out] if out else []) + (['-W'] if write else [])
        if i % 2:
            code, text, errs = run(*flags, *args)
        else:
            code, text, errs = run(*args, *flags)
        same(code, 0, 'exit code of %s: %s' % (flags, errs))
        kind = {'c': 'csv', '': 'csv', 'l': 'line', 'j': 'json', 'y': 'yaml', 't': 'terms', 'p': 'pretty'}[out.strip('-')[:1]]
        if out == '--csv':
            kind = 'csv'
        after = snapshot(top)
        if write and kind not in ('terms', 'pretty'):
            same(text, '', 'output, with -W')
            target = os.path.splitext(os.path.relpath(src, top))[0] + {'line': '.txt'}.get(kind, '.' + kind)
            same({k: v for k, v in after.items() if k != target}, {k: v for k, v in before.items() if k != target},
                 'the other files')
            check(target in after, '{} was not written', target)
            text = after[target].decode('utf8')
            ctx.label('written')
        else:
            same(after, before, 'files, after printing')
            if kind not in ('terms', 'pretty'):
                check(text.endswith('\n'), 'output')
                text = text[:-1]
        if kind == 'csv':
            same(text, doc.as_csv(), 'CSV')
            same(model.norm_doc(obs.doc_tree(obs.make(strip_declare(obs.parse_csv(text))))),
                 model.norm_doc(no_declare(tree)), 'the document that was printed')
        elif kind == 'line':
            same(text, doc.as_lines(), 'Lines')
        elif kind == 'json':
            same(json.loads(text), plain(doc.as_dict()), 'JSON')
        elif kind == 'yaml':
            same(plain(yaml.safe_load(text)), plain(doc.as_dict()), 'YAML')
        elif kind == 'terms':
            # One line for each term, with its name and value, in the order of the rows
            at = 0
            for t in sorted(load_terms(src), key=lambda t: (t.row, t.col)):
                e = ':{}.{}={}\n'.format(t.parent.record_term_lc if t.parent else 'root', t.record_term_lc, t.value)
                n = text.find(e, at)
                check(n >= 0, 'term {!r} is not in the output {!r}', e, text)
                at = n + len(e) - 1
        elif kind == 'pretty':
            from collections import OrderedDict
            same(plain(eval(text, dict(OrderedDict=OrderedDict))), plain(doc.as_dict()), 'the dict that was printed')
        ctx.label(kind)
        outputs += 1
        if write and kind == 'csv' and src.endswith('.csv'):
            same(model.norm_doc(obs.doc_tree(load())), model.norm_doc(tree), 'the document that was written over its file')
        if kind == 'line' and write and src.endswith('.txt'):
            same(model.norm_doc(obs.doc_tree(load())), model.norm_doc(tree), 'the document that was written over its file')
    return outputs > 0 and sp.size(spec) > 0


def load_terms(src):
    doc = MetatabDoc(parse_app_url(src, proto='metatab'))
    return [t for t in doc.all_terms if not t.term_is('root.section')]


def strip_declare(rows):
    return [r for r in rows if not r or r[0].lower() != 'declare']


def no_declare(tree):
    return [[s, [t for t in ts if t[0] != 'declare']] for s, ts in tree]


# -- Declarations -----------------------------------------------------------------------------------------------------

@st.composite
def decl_cases(draw):
    pool = draw(sp.name_pools(size=5))
    secs = draw(st.lists(st.sampled_from(['Root', 'Stuff', 'Things']), min_size=1, max_size=3, unique=True))
    terms = draw(dc.types(pool))
    for t in terms:
        t['section'] = draw(st.sampled_from(secs))
    return dict(decl=dict(sections=[[s, draw(st.lists(st.sampled_from(['Aa', 'Bb']), unique=True))] for s in secs], terms=terms),
                out=draw(st.sampled_from(['-j', '-y'])))


def declaration(case, ctx):
    p = ctx.write('dd.csv', dc.text(case['decl']))
    before = snapshot(ctx.dir)
    code, text, errs = run('-d', case['out'], p)
    same(code, 0, 'exit code: ' + errs)
    d = json.loads(text) if case['out'] == '-j' else yaml.safe_load(text)
    same(snapshot(ctx.dir), before, 'files')
    doc = MetatabDoc(decl=p)
    same(plain(d), plain(dict(terms=doc.decl_terms, sections=doc.decl_sections)), 'the declarations')
    for t in case['decl']['terms']:
        e = d['terms'][dc.key(t['term'])]
        same([e.get('termvaluename') or '', e.get('childpropertytype') or '', e['section']], [t['vname'], t['cpt'], t['section']],
             'declared term')
    for s, args in case['decl']['sections']:
        same(d['sections'][s.lower()]['args'], args, 'declared section')
    return True


# -- New files --------------------------------------------------------------------------------------------------------

@st.composite
def create_cases(draw):
    return dict(name=draw(st.sampled_from([None, 'new.csv', 'sub/new.csv', 'with space.csv', 'metadata.csv'])),
                template=draw(st.sampled_from([None, 'metatab', 'metatab', 'datapackage'])),
                exists=draw(st.sampled_from([None, None, 'Title,Old\n', '', 'not metatab'])), flag=draw(st.sampled_from(['-C', '--create'])))


def create(case, ctx):
    top = os.path.join(ctx.dir, 'w')
    os.makedirs(os.path.join(top, 'sub'))
    os.chdir(top)
    ctx.write('w/keep.csv', 'Title,Keep\n')
    name = case['name'] or 'metadata.csv'
    if case['exists'] is not None:
        ctx.write('w/' + name, case['exists'])
    before = snapshot(top)
    argv = ([case['name']] if case['name'] else []) + [case['flag']] + ([case['template']] if case['template'] else [])
    code, out, err = run(*argv)
    after = snapshot(top)
    same(code, 0, 'exit code')
    if case['exists'] is not None:
        same(after, before, 'files, with a file that exists')
        check(name in err and 'exists' in err, 'no warning: {!r}', err)
        ctx.label('exists')
        return True
    same(sorted(after), sorted(set(before) | {name}), 'files')
    same({k: v for k, v in after.items() if k != name}, before, 'the other files')
    check(name in out, 'no message: {!r}', out)
    d = obs.make(obs.parse_csv(after[name].decode('utf8')))
    template = cli.make_metatab_file(case['template'] or 'metatab')
    skip = ('name', 'identifier', 'version')

    def content(doc):
        return model.norm_doc([[s, [t for t in ts if t[0] not in skip]] for s, ts in obs.doc_tree(doc)])
    same(content(d), content(template), 'the new file')
    uuid.UUID(d.find_first_value('Root.Identifier'))
    return True


# -- Errors -----------------------------------------------------------------------------------------------------------

def missing(case, ctx):
    top = os.path.join(ctx.dir, 'w')
    ctx.write('w/keep.csv', 'Title,Keep\n')
    os.chdir(top)
    before = snapshot(top)
    try:
        code, out, err = run(*case['flags'], case['name'])
    except Exception:
        code = 1
    check(code != 0, 'a missing file is not an error')
    same(snapshot(top), before, 'files')
    return True


CHECKS = [
    Check('print-and-write', cases(), program, quick=900,
          rule='generated documents in CSV and Lines files and packages, with and without declarations, and up to four '
               'runs with an output flag, with and without -W; the output is compared with the API, the directory with '
               'what it was; non-trivial: some output of a document with terms'),
    Check('declaration', decl_cases(), declaration, quick=150, rule='generated declarations printed with -d'),
    Check('create', create_cases(), create, quick=60,
          rule='-C with and without a template, a file name, and a file that exists already'),
    Check('missing', st.fixed_dictionaries(dict(flags=st.sampled_from([[], ['-j'], ['-c', '-W'], ['-l', '-W']]),
                                                name=st.sampled_from(['nosuch.csv', 'nosuch', 'sub/nosuch.txt', 'keep.txt']))),
          missing, quick=32, rule='files that do not exist'),
]
