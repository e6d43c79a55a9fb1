"""C08: Include splices documents"""
import os
import random

from hypothesis import strategies as st

from metatab import MetatabDoc, parse_app_url
from metatab.exc import IncludeError, ParserError
from metatab.rowgen import MetatabRowGenerator

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, raises, same

DIRS = ['', '', 'sub', 'sub/deep', 'other dir']


@st.composite
def cols(draw, pool):
    out = draw(sp.columns(pool, max_size=3))
    if out and draw(st.integers(0, 4)) == 0:  # A column without a name
        out.insert(draw(st.integers(0, len(out) - 1)), '')
    return out


@st.composite
def blocks(draw, pool, secs, n, cross=0):
    """Rows; a Header or Section row may change the columns. The first row is never an elided child"""
    rows = []
    have = False
    for _ in range(n):
        kind = draw(st.sampled_from(['term'] * 4 + ['child'] * 2 + ['cross'] * cross + ['elided'] * 2 + ['section', 'header', 'comment']))
        if kind in ('child', 'elided') and not have:
            kind = 'term'
        if kind == 'term':
            k = draw(st.sampled_from([0, 0, 1, 2, 3]))
            base = draw(st.sampled_from(pool))
            rows.append([base, draw(gen.few_values)] + [draw(gen.few_values) for _ in range(k)])
            have = base
        elif kind == 'child':
            rows.append([have + '.k' + draw(st.sampled_from(pool)), draw(gen.few_values)])
        elif kind == 'cross':  # A child of a term that may be in another file
            name = draw(st.sampled_from(pool))
            rows.append([draw(gen.recase(st.just(name))) + '.k' + draw(st.sampled_from(pool)), draw(gen.few_values)])
            have = rows[-1][0].split('.')[1]
        elif kind == 'elided':
            rows.append(['.k' + draw(st.sampled_from(pool)), draw(gen.few_values)])
        elif kind == 'section':
            rows.append(['Section', draw(st.sampled_from(secs + ['Root']))] + draw(cols(pool)))
            have = False
        elif kind == 'header':
            rows.append(['Header', draw(st.sampled_from(['', 'Vv']))] + (draw(cols(pool)) or ['Hh']))
        else:
            rows.append(['# comment'])
    return rows


@st.composite
def cases(draw, cross=True):
    """A tree of files: {path: rows}, with Include rows that refer to files by their index"""
    pool = draw(sp.name_pools(size=5))
    secs = draw(st.lists(gen.section_names, min_size=1, max_size=3))
    n = draw(st.integers(2, 6))
    paths = ['%s/%s%d.csv' % (draw(st.sampled_from(DIRS)), draw(st.sampled_from(['f', 'f', 'F', 'My File_', 'a.b-'])), i) for i in range(n)]
    paths = [p.lstrip('/') for p in paths]
    files = []
    cross = draw(st.sampled_from([0, 0, 2])) if cross else 0
    for i in range(n):
        rows = [[p, draw(gen.few_values)] for p in pool] if cross and i == 0 and draw(st.integers(0, 4)) else []
        rows += draw(blocks(pool, secs, draw(st.integers(1, 4)), cross))
        # Only files after this one are included, so there are no loops
        for _ in range(draw(st.integers(1 if i == 0 else 0, 2))):
            if i + 1 < n:
                rows.append(['Include', draw(st.integers(i + 1, n - 1))])
                rows += draw(blocks(pool, secs, draw(st.integers(0, 4)), cross))
        files.append(rows)
    # Files which had other rows, when the document was read before
    before = {}
    if draw(st.integers(0, 2)) == 0:
        for i in draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=2)):
            before[str(i)] = draw(blocks(pool, secs, draw(st.integers(1, 3))))
    return dict(paths=paths, files=files, before=before)


def expand(files, i, state):
    """The rows of file i, with the included rows in place. state['s'] is the section at this point, and state['n'] has
    the numbers of the rows in their own files"""
    for n, r in enumerate(files[i], 1):
        if r[0] == 'Include':
            here = state['s']
            yield from expand(files, r[1], state)
            state['s'] = here
            state.setdefault('n', []).append(n)
            yield ['Section', here]
        else:
            if r[0] == 'Section':
                state['s'] = r[1]
            state.setdefault('n', []).append(n)
            yield r


def write(case, ctx, target=None):
    for i, (p, rows) in enumerate(zip(case['paths'], case['files'])):
        out = []
        for r in rows:
            if r[0] == 'Include':
                t = case['paths'][r[1]] if isinstance(r[1], int) else r[1]
                r = ['Include', os.path.relpath('/' + t, '/' + os.path.dirname(p))]
            out.append(r)
        ctx.write('docs/' + p, obs.to_csv(out))
    return os.path.join(ctx.dir, 'docs', case['paths'][0])


def used(files):
    out, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo += [r[1] for r in files[i] if r[0] == 'Include' and isinstance(r[1], int)]
    return out


def depth(files, i=0):
    return 1 + max([depth(files, r[1]) for r in files[i] if r[0] == 'Include'] or [0])


def splice(case, ctx):
    state = {'s': 'Root'}
    flat = list(expand(case['files'], 0, state))
    if len(flat) > 3000:
        return False
    if case.get('before'):
        files = [case['before'].get(str(i), f) for i, f in enumerate(case['files'])]
        path = write(dict(case, files=files), ctx)
        try:
            model.interpret(list(expand(files, 0, {'s': 'Root'})))
        except model.ModelParserError:
            pass
        else:
            MetatabDoc(path)
            MetatabDoc(parse_app_url(path))
            ctx.label('read before, with other rows')
    path = write(case, ctx)
    os.chdir(ctx.dir)
    try:
        m = model.interpret(flat)
    except model.ModelParserError:
        raises(ParserError, MetatabDoc, path)
        ctx.label('unknown parent')
        return False
    if any('.' in r[0] for r in flat):
        ctx.label('children')
    docs = [MetatabDoc(path), MetatabDoc(os.path.relpath(path))]
    os.chdir(os.path.dirname(path))
    docs.append(MetatabDoc(parse_app_url(os.path.basename(path))))
    for doc in docs:
        same(obs.doc_tree(doc, skip=('include',)), m.tree(), 'the document, with its includes')
        same([obs.term_tree(t) for t in doc.terms if not t.term_is('root.include')], [t.tree() for t in m.all],
             'terms of the document')
        same([t.row for t in doc.terms if not t.term_is('root.include')], [state['n'][t.row - 1] for t in m.all],
             'row numbers of the terms, in their own files')
        obs.check_links(doc)
    # Same as the flat document
    same([[s, t] for s, t in obs.doc_tree(docs[0], skip=('include',))], obs.doc_tree(obs.make(flat)),
         'the document with the same rows in one file')
    n = len([t for t in docs[0].find('Root.Include')])
    ctx.label('depth %d' % min(4, depth(case['files'])))
    if n > len(used(case['files'])) - 1:
        ctx.label('a file included more than once')
    return n > 0 and len(m.all) > 1


def large(case, ctx):
    """Long chains of includes, and files that are included many times"""
    r = random.Random(case['seed'])
    n = case['files'] + 1
    names = ['Nm%d' % i for i in range(8)]
    files = []
    for i in range(n):
        rows = []
        for _ in range(r.randint(0, case['rows'])):
            k = r.random()
            if k < 0.2:
                rows.append(['Section', 'Sec %d' % r.randrange(6)] + r.sample(names, r.randint(0, 4)))
            elif k < 0.7 or not rows or rows[-1][0] == 'Section':
                rows.append([r.choice(names), 'v%d' % r.randrange(99)] + ['c%d' % r.randrange(9) for _ in range(r.randint(0, 4))])
            else:
                rows.append(['.k' + r.choice(names), 'w'])
        if i + 1 < n:
            rows.insert(r.randint(0, len(rows)), ['Include', i + 1])
            rows = [e for j, e in enumerate(rows) if not (e[0].startswith('.') and rows[j - 1][0] in ('Include', 'Section'))]
        files.append(rows)
    for _ in range(case['again']):
        files[0].append(['Include', n - 1])
        files[0].append([r.choice(names), 'last'])
    return splice(dict(paths=['%sf%d.csv' % (r.choice(['', 'sub/', 'sub/deep/', 'x y/']), i) for i in range(n)], files=files), ctx)


# -- Errors -----------------------------------------------------------------------------------------------------

@st.composite
def bad_cases(draw):
    case = draw(cases(cross=False))
    reach = sorted(used(case['files']))
    where = draw(st.sampled_from(reach))
    kind = draw(st.sampled_from(['missing', 'missing dir', 'loop', 'loop', 'self']))
    if kind == 'missing':
        target = 'nosuch.csv'
    elif kind == 'missing dir':
        target = 'nodir/nosuch.csv'
    elif kind == 'self':
        target = where
    else:
        # Any file on a chain of includes that leads to this one
        anc = [i for i in reach if where in used_from(case['files'], i)]
        target = draw(st.sampled_from(anc))
    pos = draw(st.integers(0, len(case['files'][where])))
    case['files'][where].insert(pos, ['Include', target])
    return dict(case, kind=kind)


def used_from(files, i):
    out, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j not in out:
            out.add(j)
            todo += [r[1] for r in files[j] if r[0] == 'Include' and isinstance(r[1], int)]
    return out


def errors(case, ctx):
    path = write(case, ctx)
    raises(IncludeError, MetatabDoc, path)
    os.chdir(os.path.dirname(path))
    raises(IncludeError, MetatabDoc, os.path.basename(path))
    ctx.label(case['kind'])
    return True


def no_directory(case, ctx):
    """Rows that do not come from a file cannot include other files"""
    rows = case['rows'] + [['Include', case['name']]]
    ctx.write('x.csv', 'Title,Included\n')
    os.chdir(ctx.dir)
    raises(IncludeError, obs.make, rows)
    return True


CHECKS = [
    Check('splice', cases(), splice, quick=1200,
          rule='trees of up to six files in several directories, with Section, Header, column and elided rows before and '
               'after the Include rows, against the reference interpreter on the expanded rows; non-trivial: an '
               'include, and more than one term'),
    Check('large', big.sizes(files=30, rows=12, again=20), large, quick=80,
          rule='chains of up to 30 files, and a file that is included up to 20 times; non-trivial: as above'),
    Check('errors', bad_cases(), errors, quick=600,
          rule='the same trees, with an include of a missing file, or of a file that is already being included'),
    Check('no-directory', st.fixed_dictionaries(dict(rows=blocks(['Alpha', 'Beta'], ['Stuff'], 3),
                                                     name=st.sampled_from(['x.csv', './x.csv', 'sub/x.csv']))),
          no_directory, quick=60, rule='rows with an Include, that do not come from a file'),
]
