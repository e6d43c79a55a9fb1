"""C25: documents on the web"""
import io
import os
import zipfile

from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.exc import IncludeError, MetatabError
from metatab.rowgen import MetatabRowGenerator

from vlib import decl as dc, gen, model, obs, spec as sp
from vlib.core import Check, check, raises, same
from vlib.web import Site
from props import c07, c08


def zipped(text):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr('data/other.csv', 'Title,Wrong\n')
        z.writestr('metadata.csv', text.encode('utf8'))
    return b.getvalue()


FORMS = ['csv', 'metatab+ csv', 'url object', 'metatab url object', 'metatab url doc', 'package', 'package/', 'package file',
         'zip', 'lines']
PATHS = ['', 'sub/', 'a/b-1.2/', 'x.csv.d/', 'UPPER/']
NAMES = ['doc', 'metadata', 'x-1.2.3', 'Doc_2', 'a.b', 'csv', 'zip']

doc_cases = st.builds(dict, doc=sp.docs(value=gen.few_values, max_sections=2, max_terms=3, depth=2), form=st.sampled_from(FORMS),
                      path=st.sampled_from(PATHS), name=st.sampled_from(NAMES), query=st.sampled_from(['', '', '?x=1', '?Key=A&b=c.d']))


def document(case, ctx):
    rows = list(model.spec_rows(case['doc'], False))
    local = obs.make(rows)
    text = obs.to_csv(rows)
    f, path, name = case['form'], case['path'], case['name']
    with Site() as site:
        site.write(path + 'wrong.csv', 'Title,Wrong\n')
        if f.startswith('package'):
            d = site.base + path + name + '-pkg'
            site.write(path + name + '-pkg/metadata.csv', text)
            url = 'metatab+' + d + {'package': '', 'package/': '/', 'package file': '/metadata.csv'}[f]
        elif f == 'zip':
            url = 'metatab+' + site.write(path + name + '.zip', zipped(text))
        elif f == 'lines':
            url = 'metatab+' + site.write(path + name + '.txt', local.as_lines())
        else:
            if case['query']:
                site.write(path + name + '.csv', 'Title,Wrong\n')  # The query makes a difference
            url = site.write(path + name + '.csv' + case['query'], text)
            if f == 'metatab+ csv':
                url = 'metatab+' + url
        if f == 'url object':
            doc = MetatabDoc(parse_app_url(url))
        elif f == 'metatab url object':
            doc = MetatabDoc(parse_app_url(url, proto='metatab'))
        elif f == 'metatab url doc':
            doc = parse_app_url('metatab+' + url).doc
        else:
            doc = MetatabDoc(url)
        if f == 'lines':
            same(model.norm_doc(obs.doc_tree(doc)), model.norm_doc(obs.doc_tree(local)), 'the document at ' + url)
        else:
            same(obs.doc_tree(doc), obs.doc_tree(local), 'the document at ' + url)
            same([t.row for t in doc.terms], [t.row for t in local.terms], 'row numbers')
        obs.check_links(doc)
        ctx.label(f)

        # It can't be written to the web, but can be written to a file
        if f != 'metatab url doc':
            tree = obs.doc_tree(doc)
            before = sorted(os.listdir(ctx.dir))
            for w in (doc.write, doc.write_csv, doc.write_lines):
                raises(MetatabError, w)
                raises(MetatabError, w, site.base + path + 'new.csv')
            same(obs.doc_tree(doc), tree, 'the document that was not written')
            same(sorted(os.listdir(ctx.dir)), before, 'files')
        os.chdir(ctx.dir)
        doc.write_csv('out.csv')
        same(model.norm_doc(obs.doc_tree(MetatabDoc('out.csv'))), model.norm_doc(obs.doc_tree(doc)), 'the document that was written')
    return sp.size(case['doc']) > 1


@st.composite
def include_cases(draw):
    c = draw(c08.cases(cross=False))
    n = len(c['files'])
    # The first file may be a local one; web files only include web files
    c['paths'] = [draw(st.sampled_from(['', 'Dir_1/', 'UPPER/', 'x.y/Z-'])) + p for p in c['paths']]
    return dict(c, local=draw(st.booleans()), query=draw(st.sampled_from(['', '', '?v=1', '?Key=A&b=c'])), loop=draw(st.integers(0, 9)) == 0, missing=draw(st.integers(0, 9)) == 0,
                slash=draw(st.booleans()))


def includes(case, ctx):
    """The same files, on the web and as local files"""
    flat = list(c08.expand(case['files'], 0, {'s': 'Root'}))
    if len(flat) > 500:
        return False
    files = [list(f) for f in case['files']]
    bad = None
    inc = c08.used(files) - {0}
    if case['missing'] and inc:
        files[max(inc)] = files[max(inc)] + [['Include', 'nosuch.csv']]
        bad = 'missing'
    elif case['loop'] and inc:
        files[max(inc)] = files[max(inc)] + [['Include', max(inc) if case['local'] else 0]]
        bad = 'loop'
    with Site() as site:
        def url(i):
            return site.base + (case['paths'][i].replace(' ', '_') if isinstance(i, int) else i)

        main = None
        for i, rows in enumerate(files):
            out = [['Include', url(r[1]) + case['query'] + ('/' if case['slash'] and r[1] != 'nosuch.csv' else '')] if r[0] == 'Include' else r for r in rows]
            if i == 0 and case['local']:
                main = ctx.write('main.csv', obs.to_csv(out))
            else:
                u = site.write(case['paths'][i].replace(' ', '_'), obs.to_csv(out))
                main = main or u
        if bad:
            raises(IncludeError, MetatabDoc, main)
            ctx.label(bad)
            return True
        try:
            m = model.interpret(flat)
        except model.ModelParserError:
            return False
        doc = MetatabDoc(main)
        same(obs.doc_tree(doc, skip=('include',)), m.tree(), 'the document, with includes from the web')
        obs.check_links(doc)
        ctx.label('local document' if case['local'] else 'web document')
    return len(m.all) > 1


decl_cases = st.builds(lambda c, how, slash, path: dict(c, how=how, slash=slash, path=path), c07.cases(),
                       st.sampled_from(['row', 'decl', 'decl list', 'web row']), st.booleans(),
                       st.sampled_from(['decls/dd.csv', 'Decls/My-Decl_2.csv', 'DD.csv', 'x.y/a.b.csv']))


def facts(doc, section):
    def f(t):
        return [t.qualified_term, t.value, t.term_value_name, t.child_property_type, bool(t.valid), [f(c) for c in t.children]]
    return [f(t) for t in doc[section] if not t.term_is('root.declare')]


def declared(case, ctx):
    """Declarations from the web do what the same declarations in a file do"""
    sec = case['section'] or 'Root'
    rows = [['Section', sec]]
    for n, v, kids, style in case['doc']:
        rows.append([n, v])
        rows += [['.' + cn, cv] for cn, cv in kids]
    text = dc.text(case['decl'])
    local = obs.make([['Declare', ctx.write('dd.csv', text)]] + rows)
    with Site() as site:
        u = site.write(case['path'], text) + ('/' if case['slash'] else '')
        if case['how'] == 'row':
            doc = obs.make([['Declare', u]] + rows)
        elif case['how'] == 'web row':
            doc = MetatabDoc(site.write('doc.csv', obs.to_csv([['Declare', u]] + rows)))
        else:
            doc = obs.make(rows, decl=u if case['how'] == 'decl' else [u])
            local = obs.make(rows, decl=os.path.join(ctx.dir, 'dd.csv'))
        raises(IncludeError, obs.make, [['Declare', site.base + 'decls/nosuch.csv']] + rows)
    same(facts(doc, sec), facts(local, sec), 'terms, with a declaration from the web')
    same(sorted(doc.decl_terms), sorted(local.decl_terms), 'declared terms')
    same({k: v['args'] for k, v in doc.decl_sections.items()}, {k: v['args'] for k, v in local.decl_sections.items()},
         'declared sections')
    same(sorted(s.name for s in doc), sorted(s.name for s in local), 'sections')
    ctx.label(case['how'])
    return True


CHECKS = [
    Check('document', doc_cases, document, quick=400, thorough=20000,
          rule='documents on a web server, as CSV file, package directory, ZIP package or Lines file, by all forms of URL, '
               'against the same rows from memory; non-trivial: at least two terms'),
    Check('include', include_cases(), includes, quick=250, thorough=15000,
          rule='local and web documents that include web documents, in sections, with missing files and loops, '
               'against the model of the rows in place; non-trivial: at least two terms, or an error'),
    Check('declare', decl_cases, declared, quick=250, thorough=15000,
          rule='declarations on the web, by Declare row or decl argument, against the same declaration in a file'),
]
