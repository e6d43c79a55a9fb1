"""C05: the same rows make the same document, whatever they are read from"""
import random
import io
import os
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.rowgen import MetatabRowGenerator, TextRowGenerator

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, same
from vlib.rowgen import raw_rows


def zipped(ctx, name, member, text, other):
    p = os.path.join(ctx.dir, name)
    with zipfile.ZipFile(p, 'w', zipfile.ZIP_DEFLATED) as z:
        if other:
            z.writestr('data/other.csv', 'Title,Wrong\n')
        z.writestr(member, text.encode('utf8'))
    return p


CSV_FORMS = {
    'absolute': lambda c, p: MetatabDoc(p),
    'relative': lambda c, p: MetatabDoc(os.path.relpath(p)),
    'file:': lambda c, p: MetatabDoc('file:' + os.path.relpath(p)),
    'file:///': lambda c, p: MetatabDoc('file://' + p),
    'metatab+file:': lambda c, p: MetatabDoc('metatab+file:' + os.path.relpath(p)),
    'metatab+file:///': lambda c, p: MetatabDoc('metatab+file://' + p),
    'url': lambda c, p: MetatabDoc(parse_app_url(p)),
    'metatab url': lambda c, p: MetatabDoc(parse_app_url(p, proto='metatab')),
    'metatab url generator': lambda c, p: MetatabDoc(parse_app_url(p, proto='metatab').generator),
    'metatab url doc': lambda c, p: parse_app_url(p, proto='metatab').doc,
}

PKG_FORMS = {
    'package directory': lambda c, d: MetatabDoc('metatab+file:' + os.path.relpath(d)),
    'package directory/': lambda c, d: MetatabDoc('metatab+file:' + os.path.relpath(d) + '/'),
    'package url': lambda c, d: MetatabDoc(parse_app_url(d, proto='metatab')),
    'package url doc': lambda c, d: parse_app_url(d, proto='metatab').doc,
}

ZIP_FORMS = {
    'zip': lambda c, z: MetatabDoc(os.path.relpath(z)),
    'zip#': lambda c, z: MetatabDoc(os.path.relpath(z) + '#metadata.csv'),
    'metatab+zip': lambda c, z: MetatabDoc('metatab+file:' + os.path.relpath(z)),
    'metatab zip url': lambda c, z: MetatabDoc(parse_app_url(z, proto='metatab')),
}

LINE_FORMS = {
    'text': lambda c, p, t: MetatabDoc(TextRowGenerator(t)),
    'path': lambda c, p, t: MetatabDoc(TextRowGenerator(Path(p))),
    'name': lambda c, p, t: MetatabDoc(TextRowGenerator(p)),
    'handle': lambda c, p, t: MetatabDoc(TextRowGenerator(io.StringIO(t))),
    'metatab+file:': lambda c, p, t: MetatabDoc('metatab+file:' + os.path.relpath(p)),
    'metatab url': lambda c, p, t: MetatabDoc(parse_app_url(p, proto='metatab')),
}

ROW_FORMS = {
    'generator': lambda c, r: MetatabDoc(MetatabRowGenerator(r)),
    'tuples': lambda c, r: MetatabDoc(MetatabRowGenerator(tuple(tuple(e) for e in r))),
    'iterator': lambda c, r: MetatabDoc(MetatabRowGenerator(iter(r))),
    'load_rows': lambda c, r: MetatabDoc().load_rows(MetatabRowGenerator(r)),
    'path': lambda c, r: MetatabDoc(MetatabRowGenerator(r, path='somewhere/else.csv')),
}


def forms(case, ctx):
    rows = case['rows']
    try:
        m = model.interpret(rows)
    except model.ModelParserError:
        return False
    tree = m.tree()
    os.chdir(ctx.dir)
    one_line = all(len(str(c).splitlines()) < 2 for r in rows for c in r)
    text = obs.to_csv(rows)
    name = case['name']
    chosen = case['forms']
    n = 0

    def see(what, doc, place=None):
        same(obs.doc_tree(doc), tree, 'the document from ' + what)
        same([t.row for t in doc.terms], [t.row for t in m.all], 'rows of the terms, in the document from ' + what)
        if place:
            same(doc.doc_dir, os.path.realpath(place), 'directory of the document from ' + what)
        ctx.label(what)

    # The files may have been there, and have been read, with other rows
    for f in chosen * bool(case.get('before')):
        kind, k = f.split('/', 1)
        before = obs.to_csv(case['before'])
        if kind == 'csv':
            CSV_FORMS[k](ctx, ctx.write('sub/' + name + '.csv', before))
        elif kind == 'pkg':
            PKG_FORMS[k](ctx, os.path.dirname(ctx.write(name + '/metadata.csv', before)))
        ctx.label('read before, with other rows')

    for f in chosen:
        kind, k = f.split('/', 1)
        if kind == 'row':
            see('rows: ' + k, ROW_FORMS[k](ctx, [list(r) for r in rows]))
        elif kind == 'csv':
            p = ctx.write('sub/' + name + '.csv', text)
            see('csv: ' + k, CSV_FORMS[k](ctx, p), None if 'generator' in k else os.path.dirname(p))
        elif kind == 'pkg':
            p = ctx.write(name + '/metadata.csv', text)
            see('package: ' + k, PKG_FORMS[k](ctx, os.path.dirname(p)), os.path.dirname(p))
        elif kind == 'zip':
            p = zipped(ctx, name + '.zip', 'metadata.csv', text, k != 'zip')
            see('zip: ' + k, ZIP_FORMS[k](ctx, p))
        n += 1
    return len(m.all) > 1 and bool(tree)


ALL = (['row/' + k for k in ROW_FORMS] + ['csv/' + k for k in CSV_FORMS] + ['pkg/' + k for k in PKG_FORMS] +
       ['zip/' + k for k in ZIP_FORMS])


@st.composite
def form_cases(draw):
    src = draw(st.sampled_from(['rows', 'spec']))
    if src == 'rows':
        rows = draw(raw_rows(max_rows=10))
    else:
        rows = list(model.spec_rows(draw(sp.docs(max_sections=3, max_terms=3, depth=2, multiline='breaks')),
                                    draw(st.booleans())))
    fs = draw(st.lists(st.sampled_from(ALL), min_size=2, max_size=4, unique=True))
    name = draw(st.sampled_from(['metadata', 'foo', 'my_doc', 'a-b', 'Upper', 'with space', 'example.com-name-1', 'v1.2.3']))
    if '.' in name and any(f.startswith('pkg/') for f in fs):
        name = 'pkg'
    before = draw(st.sampled_from([None, None, None, 1]))
    if before:
        before = draw(st.lists(st.tuples(gen.names(), gen.few_values).map(list), min_size=1, max_size=3))
        kind = draw(st.sampled_from(['rows', 'bytes', 'other']))
        if kind == 'rows':  # As many rows
            before = before[:1] * max(1, len(rows))
        elif kind == 'bytes':
            n = len(obs.to_csv(rows).encode())
            if n > 4:
                before = [['Zz', 'z' * (n - len(obs.to_csv([['Zz', '']]).encode()))]]
    return dict(rows=[r or [''] for r in rows], forms=fs, name=name, before=before)


# -- Lines ---------------------------------------------------------------------------------------------------

SEP = [' | ', ' |', '| ', '  |  ']


@st.composite
def line_cases(draw):
    """Rows, and the text of the same rows, formatted in some way"""
    rows = draw(raw_rows(max_rows=10, punctuated=False))
    lines, keep = [], []
    for r in rows:
        first = r[0] if r else ''
        if not first.strip():
            lines.append(draw(st.sampled_from(['', '  ', '\t', ': orphan', '  : x'])))
            keep.append([])
            continue
        if first.strip().startswith('#'):
            lines.append(draw(st.sampled_from(['# comment', '   # Title: x', '#', '#Section: Foo | bar'])))
            keep.append(['#'])
            continue
        cells = list(r[1:])
        while cells and not cells[-1].strip():
            cells.pop()
        if first.strip().lower() == 'header' and len(cells) < 2:
            cells = ['', 'Hcol']  # A Header row names columns
        keep.append([first] + cells)
        esc = [c.strip().replace('|', '\\|') for c in cells]
        text = ''
        for i, e in enumerate(esc):
            if i:
                sep = draw(st.sampled_from(SEP))
                if esc[i - 1].endswith('\\'):
                    sep = ' |'
                text += sep
            text += e
        indent = draw(st.sampled_from(['', '', ' ', '    ', '\t']))
        kind = first.strip().lower()
        if kind in ('section', 'root.section') and esc[0] and draw(st.booleans()):
            lines.append(draw(st.sampled_from(['==== ', '=====', '==========  '])) + text)
        elif not esc:
            lines.append(indent + first.strip() + draw(st.sampled_from(['', ':', ': ', ' :'])))
        else:
            lines.append(indent + first.strip() + draw(st.sampled_from([': ', ':', ' : ', ':   '])) + text)
    eol = draw(st.sampled_from(['\n', '\n', '\n', '\r\n', '\r']))
    return dict(rows=keep, text=eol.join(lines + [''] * draw(st.integers(0, 2))), lines=len(lines),
                form=draw(st.sampled_from(sorted(LINE_FORMS))), before=draw(st.sampled_from([0, 0, 0, 1, 2])),
                name=draw(st.sampled_from(['metadata', 'x', 'a-b'])))


def text_lines(case, ctx):
    text = case['text']
    if len(text.splitlines()) > case['lines'] + 2:
        return False  # A line separator other than a newline
    try:
        m = model.interpret(case['rows'])
    except model.ModelParserError:
        return False
    os.chdir(ctx.dir)
    p = ctx.write(case['name'] + '.txt', text)
    if case.get('before') and case['form'] not in ('text', 'handle'):
        if case['before'] == 2:  # As many lines
            before = '\n'.join(['Zz: z'] * max(1, case['lines']))
        else:  # As many bytes
            before = ('Zz: ' + 'z' * len(text.encode()))[:max(6, len(text.encode()))]
        LINE_FORMS[case['form']](ctx, ctx.write(case['name'] + '.txt', before), before)
        ctx.write(case['name'] + '.txt', text)
        ctx.label('read before, with other lines')
    doc = LINE_FORMS[case['form']](ctx, p, text)
    same(obs.doc_tree(doc), m.tree(), 'the document from lines, by ' + case['form'])
    ctx.label(case['form'])
    if '====' in text:
        ctx.label('==== heading')
    if '\\|' in text:
        ctx.label('escaped pipe')
    return len(m.all) > 1


# -- load_rows -----------------------------------------------------------------------------------------------

def twice(case, ctx):
    """Rows loaded into a document are added to it"""
    doc = MetatabDoc()
    spec = []
    for part, how in zip(case['parts'], case['how']):
        rows = list(model.spec_rows(part))
        if how == 'lines' and all(len(str(c).splitlines()) < 2 for r in rows for c in r):
            doc.load_rows(TextRowGenerator(obs.make(rows).as_lines()))
        else:
            doc.load_rows(MetatabRowGenerator(rows))
        spec += part
    # A section keeps the name with which it was first opened
    same(model.norm_doc(obs.doc_tree(doc)), model.norm_doc(model.spec_tree(spec)), 'the document, after loading rows')
    obs.check_links(doc)
    same(model.norm_doc(obs.doc_tree(obs.make(doc.rows))), model.norm_doc(model.spec_tree(spec)),
         'the loaded document, written and read')
    return len(case['parts']) > 1 and sum(sp.size(p) > 0 for p in case['parts']) > 1


small = sp.docs(max_sections=3, max_terms=3, depth=2)

def large(case, ctx):
    """Long files, which are read in blocks"""
    r = random.Random(case['seed'])
    rows = [x or [''] for x in big.rows(case)]
    a = forms(dict(rows=rows, forms=r.sample(ALL, 4), name='doc'), ctx)
    lines = []
    for x in rows:
        cells = [c.replace('|', '\\|') for c in x[1:]]
        while cells and not cells[-1].strip():
            cells.pop()
        text = ''
        for i, e in enumerate(cells):
            text += (' |' if cells[i - 1].endswith('\\') else ' | ') + e if i else e
        lines.append(x[0] + (': ' + text if text else '') if x[0] else '')
    keep = [x for x in rows if not (x[0] == 'Header' and len(x) < 3)]
    if len(keep) == len(rows):
        b = text_lines(dict(rows=rows, text='\n'.join(lines), lines=len(lines), form=r.choice(sorted(LINE_FORMS)), name='x'), ctx)
    return a


CHECKS = [
    Check('forms', form_cases(), forms, quick=1500,
          rule='generated rows read from 2 to 4 of %d forms of source (row lists and iterators, load_rows, CSV files by '
               'path, file: and metatab+file: URLs, URL objects, package directories, ZIP files); non-trivial: more '
               'than one root level term' % len(ALL)),
    Check('lines', line_cases(), text_lines, quick=1800,
          rule='generated rows formatted as Lines text (indentation, ==== headings, comments, blank lines, escaped '
               'pipes, padding), read from %d forms of source; non-trivial: more than one root level term'
               % len(LINE_FORMS)),
    Check('load-rows', st.fixed_dictionaries(dict(parts=st.lists(small, min_size=1, max_size=3),
                                                  how=st.lists(st.sampled_from(['rows', 'lines']), min_size=3,
                                                               max_size=3))),
          twice, quick=700,
          rule='one to three generated documents loaded into one document with load_rows; non-trivial: two of them '
               'have terms'),
    Check('large', big.sizes(rows=400, sections=20, columns=30, names=30), large, quick=60,
          rule='rows of up to 400, with values of up to 10000 characters, from four forms of CSV source and one of Lines; '
               'non-trivial: more than one root level term'),
]
