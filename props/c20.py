"""C20: what a Metatab URL refers to"""
import os
import zipfile
from urllib.parse import unquote

from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.appurl import MetatabUrl

from vlib import gen, obs
from vlib.core import Check, check, same

EXTS = ['csv', 'txt', 'ipynb', 'zip', 'xlsx']
ROOT = ['foo', 'x.metadata', 'metadata', 'bar.d', 'pkg-1.2', 'pkg-1.2.3', 'a b', 'v1.0', 'été', 'UPPER', 'csv', 'zip', 'my_data',
        'metadata.csv.d', 'x.csv.y']
TAIL = ['', '', '.csv', '.txt', '.ipynb', '.zip', '.xlsx', '.CSV', '.Zip', '.json', '.tar', '/', '.metadata.csv', '/metadata.csv',
        '/metadata.txt', '.csv.zip']


@st.composite
def cases(draw):
    d = draw(st.lists(st.sampled_from(['d', 'sub dir', 'x.csv', 'p.zip', 'with.dot', '..', '.']), max_size=2))
    base = draw(st.sampled_from(ROOT)) + draw(st.sampled_from(TAIL))
    where = draw(st.sampled_from(['relative', 'relative', 'absolute', 'file:', 'file:///', 'http', 'https', 'web query',
                                  'web port', 's3']))
    return dict(path='/'.join(d + [base]), where=where, pre=draw(st.booleans()))


def expected_path(path):
    base = path.rsplit('/', 1)[-1]
    ext = base.rsplit('.', 1)[-1].lower() if '.' in base else ''
    if ext in EXTS:
        return path, ext
    return path + ('' if path.endswith('/') else '/') + 'metadata.csv', 'csv'


def norm(p):
    return os.path.normpath(unquote(p))


def resolve(case, ctx):
    w, path = case['where'], case['path']
    prefix = {'relative': '', 'absolute': '/abs/', 'file:': 'file:', 'file:///': 'file:///abs/', 'http': 'http://example.com/',
              'https': 'https://example.org/', 'web query': 'http://example.com/', 'web port': 'http://example.com:8080/',
              's3': 's3://bucket/'}[w]
    ref = prefix + path + ('?a=b' if w == 'web query' else '')
    scheme = prefix.split(':')[0] if ':' in prefix else 'file'
    if case['pre'] and ':' in ref:
        u = parse_app_url('metatab+' + ref)
    else:
        u = parse_app_url(ref, proto='metatab')
    web = scheme != 'file'
    full = {'absolute': '/abs/', 'file:///': '/abs/'}.get(w, '/' if web else '') + path
    exp, ext = expected_path(full)
    check(isinstance(u, MetatabUrl), '{} is a {}', ref, type(u))

    def verify(u, what):
        same(norm(u.path), norm(exp), 'path of %s' % what)
        same((u.proto, u.scheme), ('metatab', scheme), 'protocol and scheme of %s' % what)
        same(u.resource_format, ext, 'format of %s' % what)
        base = exp.rsplit('/', 1)[-1]
        same(unquote(u.resource_file), base, 'file of %s' % what)
        same(unquote(u.target_file), {'zip': 'metadata.csv', 'xlsx': 'meta'}.get(ext, base), 'target file of %s' % what)
        same(u.target_format, {'zip': 'csv'}.get(ext, ext), 'target format of %s' % what)
        inner = u.inner
        check(not isinstance(inner, MetatabUrl) and inner.proto != 'metatab', 'inner URL of {} is {!r}', what, inner)
        same((norm(inner.path), inner.scheme), (norm(exp), scheme), 'inner URL of %s' % what)
        if web:
            same((u.netloc, inner.netloc), (ref.split('/')[2],) * 2, 'host of %s' % what)
        if w == 'web query':
            same((u.query, inner.query), ('a=b',) * 2, 'query of %s' % what)

    verify(u, ref)
    text = str(u)
    again = parse_app_url(text)
    check(isinstance(again, MetatabUrl), '{} is a {}', text, type(again))
    verify(again, text)
    same(str(again), text, 'text of the URL')
    verify(parse_app_url(u), 'the same URL object')
    verify(u.clone(), 'a clone')
    if not web:
        verify(u.get_resource(), 'the resource')
        # Other files of the package
        if ext in ('csv', 'txt') and not exp.startswith('..'):
            same(os.path.normpath(unquote(u.join_target('data/x.csv').path)), os.path.normpath(os.path.join(os.path.dirname(exp), 'data/x.csv')),
                 'a file beside the metadata')
        if ext == 'zip':
            t = u.join_target('data/x.csv')
            same((norm(t.path), unquote(t.target_file)), (norm(exp), 'data/x.csv'), 'a file in the package')
    ctx.label(w)
    ctx.label('package' if exp != full else ext)
    return exp != full or ext in EXTS


# -- The file that is read --------------------------------------------------------------------------------------------

@st.composite
def file_cases(draw):
    tree = {}
    for _ in range(draw(st.integers(1, 5))):
        d = draw(st.sampled_from(['', 'pkg', 'pkg.d', 'a b', 'x.csv.y', 'deep/pkg']))
        n = draw(st.sampled_from(['metadata.csv', 'metadata.csv', 'metadata.txt', 'other.csv', 'x.metadata.csv', 'p.zip', 'metadata.zip',
                                  'notes.txt']))
        tree[os.path.join(d, n)] = draw(gen.few_values) + str(len(tree))
    return dict(tree=tree, back=draw(st.booleans()))


def files(case, ctx):
    os.makedirs(os.path.join(ctx.dir, 'w'))
    os.chdir(os.path.join(ctx.dir, 'w'))
    for p, v in case['tree'].items():
        if p.endswith('.zip'):
            os.makedirs(os.path.dirname(p) or '.', exist_ok=True)
            with zipfile.ZipFile(p, 'w') as z:
                z.writestr('data/a.csv', 'Title,Wrong\n')
                z.writestr('metadata.csv', 'Title,%s\n' % v)
        else:
            ctx.write('w/' + p, ('Title: %s\n' if p.endswith('.txt') else 'Title,%s\n') % v)
    hits = 0
    dirs = {os.path.dirname(p) for p in case['tree']}
    refs = [(p, v) for p, v in case['tree'].items()]
    refs += [(d, case['tree'].get(os.path.join(d, 'metadata.csv'))) for d in dirs if d]
    refs += [(d + '/', case['tree'].get(os.path.join(d, 'metadata.csv'))) for d in dirs if d]
    refs += [('nosuch', None), ('nosuch.csv', None), ('nosuch.zip', None), ('.', case['tree'].get('metadata.csv'))]
    for ref, v in refs:
        for r in (ref, os.path.join(os.getcwd(), ref) if ref != '.' else ref):
            u = parse_app_url(r, proto='metatab')
            same(bool(u.exists()), v is not None, 'existence of %s' % r)
            if v is not None:
                same(MetatabDoc(u).find_first_value('Root.Title'), v, 'title of %s' % r)
                same(u.doc.find_first_value('Root.Title'), v, 'title of %s, by its doc' % r)
                hits += 1
            else:
                try:
                    doc = MetatabDoc(u)
                except Exception:
                    pass
                else:
                    raise AssertionError('%s does not exist, but makes a document: %r' % (r, doc.as_csv()))
    return hits > 0


CHECKS = [
    Check('resolve', cases(), resolve, quick=2500,
          rule='relative, absolute, file, web and S3 references to files and package directories, with any extension and '
               'dots, spaces and other extensions in the directories; against a model of the resolution, also after '
               'printing and parsing the URL; non-trivial: a package or a known format'),
    Check('files', file_cases(), files, quick=400,
          rule='trees of metadata files, packages and ZIP packages: each reference reads the file it names, or fails; '
               'non-trivial: some file is read'),
]
