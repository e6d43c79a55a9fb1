"""C15: writing documents to files"""
import random
import os
import uuid

from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.exc import FormatError, MetatabError

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, raises, same

DIRS = ['', 'sub', 'with space', 'sub/dé', 'a+b', '100%', 'x#y'][:6]


@st.composite
def cases(draw):
    docs = sp.docs(max_sections=2, max_terms=3, depth=2, value=gen.values())
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append([draw(st.sampled_from(['write', 'write_csv', 'write_lines', 'own', 'own typed', 'bad', 'add', 'edit',
                                          'reopen'])),
                    draw(st.integers(0, 3)), draw(st.sampled_from(['str', 'rel', 'url', 'path', 'filestr'])),
                    draw(gen.values())])
    return dict(doc=draw(docs), root=draw(st.sampled_from(['none', 'name', 'blank name', 'dataset', 'full'])),
                dirs=[draw(st.sampled_from(DIRS)) for _ in range(2)],
                long=draw(st.integers(0, 3)) == 0, source=draw(st.sampled_from(['csv', 'csv', 'txt', 'api'])), ops=ops)


def snapshot(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as h:
                out[os.path.relpath(os.path.join(b, f), d)] = h.read()
    return out


def strip_root(tree):
    """Without the terms that cleansing may change"""
    return [[s, [t for t in ts if s != 'Root' or t[0] not in ('name', 'identifier', 'version')]] for s, ts in tree]


def read(path, text=None):
    with open(path, 'rb') as f:
        text = f.read().decode('utf8')
    return obs.make_lines(text) if path.endswith('.txt') else obs.make(obs.parse_csv(text))


def write(case, ctx):
    rows = {'none': [], 'name': [['Name', 'Some Name']], 'blank name': [['Name', '']],
            'dataset': [['Name', 'x'], ['Dataset', 'data'], ['Origin', 'o.com']],
            'full': [['Name', ''], ['Identifier', 'id-1'], ['Dataset', 'd'], ['Version', '3']]}[case['root']]
    # The generated terms do not use the names that cleansing changes
    skip = {'name', 'identifier', 'dataset', 'version', 'origin', 'time', 'space', 'grain', 'variant'}
    spec = [[n, c, [t for t in ts if t[0].lower() not in skip]] for n, c, ts in case['doc']]
    rows = rows + list(model.spec_rows(spec))
    os.makedirs(os.path.join(ctx.dir, 'out'))
    os.chdir(os.path.join(ctx.dir, 'out'))
    top = os.getcwd()
    for d in case['dirs']:
        os.makedirs(d or '.', exist_ok=True)
    src = None
    if case['source'] == 'api' or not rows:
        doc = obs.make(rows) if rows else MetatabDoc()
    else:
        d0 = obs.make(rows)
        src = os.path.join(top, case['dirs'][0], 'source.' + case['source'])
        with open(src, 'w', encoding='utf8', newline='') as f:
            f.write(d0.as_csv() if case['source'] == 'csv' else d0.as_lines())
        doc = MetatabDoc(parse_app_url(src, proto='metatab')) if case['source'] == 'txt' else MetatabDoc(src)
    targets = [os.path.join(top, d, n) for d in case['dirs'] for n in ('a', 'metadata')]
    if case['long']:
        # Files that are longer than what is written over them
        for t in targets:
            for ext in ('.csv', '.txt'):
                with open(t + ext, 'w') as f:
                    f.write('Title,Old\n' + 'Old,x\n' * 2000)
    wrote = 0
    n = 0
    for op, i, form, v in case['ops']:
        before = snapshot(top)
        tree = obs.doc_tree(doc)

        def ref(p):
            rel = os.path.relpath(p, top)
            return {'str': p, 'rel': rel, 'url': parse_app_url(p), 'path': __import__('pathlib').Path(p),
                    'filestr': 'file:' + rel if '%' not in rel and '#' not in rel else p}[form]

        path = None
        if op in ('write', 'write_csv', 'write_lines'):
            ext = {'write': ['.csv', '.txt'][i % 2], 'write_csv': '.csv', 'write_lines': '.txt'}[op]
            path = targets[i % 4] + ext
            getattr(doc, op)(ref(path))
        elif op == 'own':
            if src is None:
                continue
            path = src
            doc.write()
        elif op == 'own typed':
            if src is None:
                continue
            path = src
            (doc.write_csv if src.endswith('.csv') else doc.write_lines)()
        elif op == 'bad':
            # A file with the wrong extension is refused, and neither the file nor the document change
            base = targets[i % 4]
            fn, ext = [(doc.write_csv, '.txt'), (doc.write_lines, '.csv'), (doc.write, '.xlsx'), (doc.write, '.json'),
                       (doc.write_csv, '.xlsx'), (doc.write, ''), (doc.write_csv, 'csv'), (doc.write_lines, 'txt'),
                       (doc.write_csv, '.mcsv'), (doc.write, '.csv2'), (doc.write_csv, '.csv.bak'), (doc.write_lines, '.txt~')
                       ][(len(v) + i) % 12]
            raises((MetatabError, FormatError), fn, base + ext)
            same(snapshot(top), before, 'files, after a refused write')
            same(obs.doc_tree(doc), tree, 'the document, after a refused write')
            # An extension in another case is refused, or taken for what it is
            fn, ext = [(doc.write, '.CSV'), (doc.write, '.TXT'), (doc.write_csv, '.Csv'), (doc.write_lines, '.Txt')][len(v) % 4]
            try:
                fn(base + ext)
            except MetatabError:
                same(snapshot(top), before, 'files, after a refused write')
                same(obs.doc_tree(doc), tree, 'the document, after a refused write')
            else:
                rel = os.path.relpath(base + ext, top)
                now = snapshot(top)
                same(now.pop(rel), (doc.as_csv() if 'c' in ext.lower() else doc.as_lines()).encode('utf8'), 'the file ' + rel)
                before.pop(rel, None)
                same(now, before, 'the other files')
                before = snapshot(top)
            raises(MetatabError, doc.write_csv, 'http://example.com/metadata.csv')
            same(snapshot(top), before, 'files, after a refused write')
            ctx.label('refused')
            continue
        elif op == 'add':
            n += 1
            doc['Root'].new_term('Added', v)
            continue
        elif op == 'edit':
            ts = [t for t in doc['Root'] if t.record_term_lc == 'added']
            if ts:
                doc.remove_term(ts[i % len(ts)])
            continue
        elif op == 'reopen':
            if src is None:
                continue
            # What is in memory and not written is lost
            doc = MetatabDoc(parse_app_url(src, proto='metatab')) if src.endswith('.txt') else MetatabDoc(src)
            same(model.norm_doc(obs.doc_tree(doc)), model.norm_doc(obs.doc_tree(read(src))), 'the document, read again')
            continue

        wrote += 1
        after = snapshot(top)
        rel = os.path.relpath(path, top)
        same({k: w for k, w in after.items() if k != rel}, {k: w for k, w in before.items() if k != rel},
             'the other files')
        check(rel in after, 'nothing was written to {}', rel)
        if rel in before:
            ctx.label('shorter' if len(after[rel]) < len(before[rel]) else 'overwrite')
        # The file is the document: nothing was lost, and the cleansed identifier and name are there
        same(after[rel].decode('utf8'), doc.as_lines() if path.endswith('.txt') else doc.as_csv(), 'the file')
        got = obs.doc_tree(read(path))
        same(model.norm_doc(got), model.norm_doc(obs.doc_tree(doc)), 'the document in the file')
        same(model.norm_doc(strip_root(obs.doc_tree(doc))), model.norm_doc(strip_root(tree)), 'the document, after writing')
        root = {t[0]: t[1] for t in got[0][1]}
        check(root.get('identifier'), 'no identifier in the file')
        if case['root'] == 'full':
            same(root['identifier'], 'id-1', 'identifier')
            same(root['name'], 'd-3', 'name')
        else:
            uuid.UUID(root['identifier'])
        if case['root'] == 'dataset':
            same(root['name'], 'o.com-data', 'name')
        if case['root'] == 'blank name':
            same(root['name'], root['identifier'], 'name')
        # Writing again changes nothing
        if path.endswith('.csv'):
            doc.write_csv(path)
        else:
            doc.write_lines(path)
        same(snapshot(top), after, 'files, after writing again')
    return wrote > 0 and sp.size(spec) > 0


# -- Writing to a file that cannot be written -----------------------------------------------------------------------

def unwritable(case, ctx):
    """A failed write raises and does not change the other files"""
    doc = obs.make(list(model.spec_rows(case['doc'])))
    os.makedirs(os.path.join(ctx.dir, 'out', 'isdir.csv'))
    top = os.path.join(ctx.dir, 'out')
    ctx.write('out/keep.csv', 'Title,Keep\n')
    before = snapshot(top)
    raises(OSError, doc.write_csv, os.path.join(top, 'nosuch', 'x.csv'))
    raises(OSError, doc.write_csv, os.path.join(top, 'isdir.csv'))
    raises(OSError, doc.write_lines, os.path.join(top, 'nosuch', 'x.txt'))
    same(snapshot(top), before, 'files, after failed writes')
    return True


def lines_in_values(case, ctx):
    """Values with line breaks of any kind, in CSV files"""
    doc = obs.make(list(model.spec_rows(case['doc'])))
    for i, fn in enumerate((doc.write_csv, doc.write)):
        path = os.path.join(ctx.dir, 'x%d.csv' % i)
        fn(path)
        with open(path, 'rb') as f:
            data = f.read()
        same(data, doc.as_csv().encode('utf8'), 'the file')
        same(model.norm_doc(obs.doc_tree(read(path))), model.norm_doc(obs.doc_tree(doc)), 'the document in the file')
    return any(b in str(case['doc']) for b in ('\\n', '\\r', '\\x'))


def large(case, ctx):
    """Files that are longer than the buffers they are written through"""
    r = random.Random(case['seed'])
    doc = big.doc(case)
    ops = [[r.choice(['write', 'write_csv', 'write_lines', 'own', 'add', 'edit', 'reopen']), r.randrange(4), r.choice(['str', 'rel', 'url']), 'v']
           for _ in range(4)]
    return write(dict(doc=doc, root='full', dirs=['', 'sub'], long=r.random() < 0.5, source=r.choice(['csv', 'txt', 'api']), ops=ops), ctx)


CHECKS = [
    Check('write', cases(), write, quick=1500,
          rule='documents read from CSV or Lines files or made in memory, and up to five operations: writing to new and '
               'existing files, in directories with unusual names, by path, URL or to their own file, wrong extensions, '
               'edits, reading again; the whole directory is compared before and after; non-trivial: something was '
               'written'),
    Check('unwritable', st.fixed_dictionaries(dict(doc=sp.docs(max_sections=1, max_terms=2, depth=1))), unwritable, quick=80,
          rule='missing directories, and a directory in place of the file'),
    Check('line-breaks', st.fixed_dictionaries(dict(doc=sp.docs(max_sections=2, max_terms=3, depth=2, multiline='returns'))),
          lines_in_values, quick=300, rule='values with line feeds, carriage returns and other line breaks, in CSV files; '
          'non-trivial: some value has one'),
    Check('large', big.sizes(sections=10, terms=12, width=8, names=20, depth=4), large, quick=60,
          rule='documents of up to some hundred kilobytes; non-trivial: as in write'),
]
