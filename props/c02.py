"""C02: cells in property columns are properties of the term of their row"""
import random
from hypothesis import strategies as st

from vlib import big, gen, model, obs, spec as sp
from vlib.core import Check, check, same


@st.composite
def cases(draw):
    """One or more blocks of rows under a Section (or Header) row that names the columns"""
    pool = draw(sp.name_pools(size=8))
    wide = draw(st.integers(0, 6)) == 0
    ncols = draw(st.integers(11, 16)) if wide else draw(st.integers(0, 5))
    cols = []
    for i in range(ncols):
        if draw(st.integers(0, 7)) == 0:
            cols.append(draw(st.sampled_from(['', ' '])))
        elif wide and i >= len(pool):
            cols.append('Wide%d' % i)
        else:
            cols.append(draw(gen.recase(st.sampled_from(pool))) if not wide else pool[i])
    # Column names must be distinct to be properties with one value
    seen, out = set(), []
    for c in cols:
        k = c.strip().lower()
        out.append('' if k in seen else c)
        if k:
            seen.add(k)
    cols = out
    rows = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['term', 'term', 'child']))
        if not rows:
            kind = 'term'
        n = draw(st.integers(0, len(cols) + 2))
        cells = [draw(gen.weighted((gen.values(multiline='breaks'), 5), (st.sampled_from(['', ' ', '\t']), 2)))
                 for _ in range(n)]
        rows.append([kind, draw(st.sampled_from(pool)), draw(gen.values()), cells])
    return dict(section=draw(gen.section_names), cols=cols, rows=rows,
                pad=draw(st.sampled_from(['', ' ', '  '])), perm=draw(st.integers(0, 1000)),
                vname=draw(st.sampled_from(['', 'Vn', 'urlx'])))


def build(case, mode, perm=None):
    """Rows of the case, with the cells in the columns of a Section or Header row, or as explicit child rows"""
    cols = list(case['cols'])
    order = list(range(len(cols)))
    if perm is not None:
        k = perm % len(cols) if cols else 0
        order = order[k:] + order[:k]
    pcols = [cols[i] for i in order]
    out = []
    if mode == 'section':
        out.append(['Section', case['section']] + pcols)
    else:
        out.append(['Section', case['section']])
        if mode == 'header':
            out.append(['Header', case['vname']] + pcols)
    base = None
    for kind, name, value, cells in case['rows']:
        if kind == 'term' or base is None:
            base = name
            first = name
        else:
            first = base + '.' + ('sub' + name)
        row = [first, value]
        last = first.split('.')[-1]
        if mode in ('rows', 'elided'):
            out.append(row)
            for i, v in enumerate(cells):
                if v.strip():
                    cn = cols[i].strip() if i < len(cols) and cols[i].strip() else str(i)
                    out.append([('.' if mode == 'elided' else last + '.') + cn, v])
        else:
            if perm is not None:
                by = {i: (cells[i] if i < len(cells) else '') for i in range(len(cols))}
                cells = [by[i] for i in order]
            out.append(row + [case['pad'] + c + case['pad'] for c in cells])
    return out


def expected(case):
    terms, base = [], None
    for kind, name, value, cells in case['rows']:
        children = []
        for i, v in enumerate(cells):
            if v.strip():
                cn = case['cols'][i].strip() if i < len(case['cols']) and case['cols'][i].strip() else str(i)
                children.append([cn.lower(), v.strip(), []])
        if kind == 'term' or base is None:
            base = [name.lower(), value, children]
            terms.append(base)
        else:
            base[2].append(['sub' + name.lower(), value, children])
    return terms


def columns(case, ctx):
    exp = expected(case)
    names = [c.strip().lower() for c in case['cols']]

    for mode in ('section', 'header', 'rows', 'elided'):
        if mode == 'elided' and any(r[0] == 'child' for r in case['rows']):
            continue
        if mode == 'rows' and {r[1].lower() for r in case['rows']} & set(names):
            continue  # P.P then P.C would be a child of the inner P
        doc = obs.make(build(case, mode))
        got = [obs.term_tree(t) for t in doc[case['section']]]
        if mode in ('section', 'header'):
            same(got, exp, 'terms, with the columns named by the %s row' % mode)
        else:
            # The base term gets its explicit children before the other child rows
            same([model.norm_term(t) for t in got], [model.norm_term(t) for t in exp], 'terms, with explicit rows')

    # Permuting the columns changes nothing, when all of them have names and no cell is outside of them
    if all(names) and names and all(len(r[3]) <= len(names) for r in case['rows']):
        doc = obs.make(build(case, 'section', case['perm']))
        same([model.norm_term(obs.term_tree(t)) for t in doc[case['section']]], [model.norm_term(t) for t in exp],
             'terms, with permuted columns')
        ctx.label('permuted')

    # The property dictionaries
    for mode, vn in (('section', '@value'), ('header', case['vname'].lower() or '@value')):
        if mode == 'header' and not case['cols']:
            continue
        doc = obs.make(build(case, mode))
        s = doc[case['section']]
        rows = list(case['rows'])
        flat = []
        for t in s:
            flat.append(t)
            flat.extend(c for c in t.children if c.record_term_lc.startswith('sub') and not c.is_arg_child)
        check(len(flat) == len(rows), 'number of terms')
        for t, (kind, name, value, cells) in zip(flat, rows):
            stripped = [c.strip() for c in cells]
            vals = {}
            for i, v in enumerate(stripped):
                if v:
                    vals[names[i] if i < len(names) and names[i] else str(i)] = v
            p = {k: v for k, v in t.props.items() if not k.startswith('sub')}
            same({k: v for k, v in p.items()}, vals, 'props of a term')
            for k, v in vals.items():
                same(t.get_value(k), v, 'value of property ' + k)
                same(t[k].value, v, 'value of property ' + k)
                same(t.get_value(k.upper()), v, 'value of property, by an upper case name')
            ap, al = t.arg_props, t.all_props
            if vn not in names:
                same(ap[vn], value, 'the value of the term in arg_props')
            for i, n in enumerate(names):
                if not n or n == vn:
                    continue
                v = stripped[i] if i < len(stripped) else ''
                same(ap.get(n) or '', v, 'arg_props ' + n)
                same(al.get(n) or '', v, 'all_props ' + n)
            for k, v in vals.items():
                if k != vn:
                    same(al[k], v, 'all_props ' + k)
        # A name without a value is not a property
        for t in s:
            for n in names:
                if n and n not in t.props and n not in ('url', 'name', 'description', 'schema', vn):
                    check(t.get(n) is None, 'property without a cell')
    if len(names) > 10:
        ctx.label('more than 10 columns')
    if any(r[0] == 'child' for r in case['rows']):
        ctx.label('cells on child rows')
    if any(len(r[3]) > len(names) for r in case['rows']):
        ctx.label('cells outside of the named columns')
    return bool(any(names)) and any(c.strip() for r in case['rows'] for c in r[3])


@st.composite
def switching(draw):
    """Blocks, each of which opens or re-opens a section, or changes the columns with a Header"""
    secs = draw(st.lists(gen.section_names, min_size=1, max_size=3)) + ['Root']
    pool = draw(sp.name_pools(size=8))
    blocks = []
    for _ in range(draw(st.integers(1, 5))):
        cols = draw(sp.columns(pool, max_size=4))
        if cols and draw(st.integers(0, 5)) == 0:  # Two columns with the same name
            cols.insert(draw(st.integers(0, len(cols))), draw(gen.recase(st.sampled_from(cols))))
        if cols and draw(st.integers(0, 3)) == 0:  # A column without a name
            cols.insert(draw(st.integers(0, len(cols))), '')
        rows = [[draw(st.sampled_from(pool)), draw(gen.values()),
                 draw(st.lists(gen.weighted((gen.few_values, 3), (st.just(''), 1)), max_size=5))]
                for _ in range(draw(st.integers(1, 3)))]
        blocks.append([draw(st.sampled_from(['section', 'section', 'header'])), draw(st.sampled_from(secs)), cols, rows, draw(st.booleans())])
    return blocks


def switch(blocks, ctx):
    """The columns are those of the most recent Section or Header row; those of a section are still in force when
    it is returned to"""
    rows, explicit, named, beyond = [], [], [], []
    state = {}
    current = 'root'
    state['root'] = []
    for n_block, (kind, sec, cols, trows, *late) in enumerate(blocks):
        if kind == 'section':
            rows.append(['Section', sec] + cols)
            explicit.append(['Section', sec])
            if sec.lower() not in state or cols:
                state[sec.lower()] = cols
            current = sec.lower()
        elif cols:
            rows.append(['Header', ''] + cols)
            state[current] = cols
            if late and late[0] and n_block:
                # A child of the term before the Header
                rows.append(['.late', 'z'])
                explicit.append(['.late', 'z'])
                beyond[-1].append(['late', 'z'])
                ctx.label('child after a Header')
        names = [n or str(i) for i, n in enumerate(state[current])]
        for n, v, cells in trows:
            named.append([[names[i].lower(), c.strip()] for i, c in enumerate(cells[:len(names)])])
            beyond.append([[str(i), c.strip()] for i, c in enumerate(cells) if i >= len(names) and c.strip()])
            rows.append([n, v] + cells)
            explicit.append([n, v])
            for i, c in enumerate(cells):
                if c.strip():
                    explicit.append(['.' + (names[i] if i < len(names) else str(i)), c])
    a, b = obs.make(rows), obs.make(explicit)
    same(obs.doc_tree(a), obs.doc_tree(b), 'cells in columns and the same properties as rows')
    # The property dictionaries have the names that the columns had for the row
    for t, cells, more in zip(a.terms, named, beyond):
        props = dict([e for e in cells if e[1]] + more)
        vn = t.term_value_name.lower()
        same(t.props, props, 'props')
        for k, v in cells:
            if k != vn and not (v == '' and k in props):
                same(t.all_props[k] or '', props.get(k, ''), 'all_props ' + k)
        for k, v in dict(cells).items():
            if k != vn:
                same(t.arg_props[k] or '', v, 'arg_props ' + k)
        same({k: v for k, v in t.arg_props.items() if v and k != vn and k not in dict(cells)}, {}, 'other names in arg_props')
    if len({b[1].lower() for b in blocks}) < len(blocks):
        ctx.label('section re-opened')
    return len(blocks) > 1


@st.composite
def repeated_cases(draw):
    pool = draw(sp.name_pools(size=6))
    cols = draw(sp.columns(pool, max_size=4))
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        cells = draw(st.lists(gen.weighted((gen.few_values, 3), (st.just(''), 1)), max_size=len(cols)))
        kids = [[draw(gen.recase(st.sampled_from(pool + cols))), draw(gen.few_values)] for _ in range(draw(st.integers(0, 4)))]
        terms.append([draw(st.sampled_from(pool)), draw(gen.few_values), cells, kids])
    return dict(cols=cols, terms=terms)


def repeated(case, ctx):
    """Properties in cells and the same ones in child rows: both are there, the cells first"""
    cols = [c.lower() for c in case['cols']]
    rows, exp = [['Section', 'Stuff'] + case['cols']], []
    for n, v, cells, kids in case['terms']:
        rows.append([n, v] + cells)
        rows += [['.' + k, kv] for k, kv in kids]
        exp.append([[c, x] for c, x in zip(cols, cells) if x] + [[k.lower(), kv] for k, kv in kids])
    doc = obs.make(rows)
    nt = False
    for t, (n, v, cells, kids), e in zip(list(doc['Stuff']), case['terms'], exp):
        same(obs.term_tree(t), [n.lower(), v, [[k, kv, []] for k, kv in e]], 'the term')
        same(t.props, dict(e), 'props')
        ap, al = t.arg_props, t.all_props
        same({k: x or '' for k, x in ap.items()}, dict({c: x for c, x in zip(cols, cells)}, **{'@value': v}), 'arg_props')
        same({k: x or '' for k, x in al.items()}, dict({c: '' for c in cols[:len(cells)]}, **{'@value': v}) | dict(e), 'all_props')
        for k in dict(e):
            same(t.get_value(k), [x for j, x in e if j == k][0], 'value of ' + k)
        nt = nt or len(dict(e)) < len(e)
    return nt


def large(case, ctx):
    """Many columns"""
    r = random.Random(case['seed'])
    cols = ['Col%d' % i if r.random() < 0.9 else '' for i in range(case['columns'])]
    rows = [[r.choice(['term', 'term', 'child']), 'Nm%d' % r.randrange(5), 'v',
             [big.value(r) if r.random() < 0.7 else '' for _ in range(r.randint(0, len(cols) + 5))]] for _ in range(case['rows'])]
    return columns(dict(section='Wide', cols=cols, rows=rows, pad='', perm=r.randrange(1000), vname=r.choice(['', 'Vn'])), ctx)


def very_wide(case, ctx):
    """Rows with many cells, as in the tables of spreadsheets"""
    r = random.Random(case['seed'])
    n = case['columns']
    cols = ['Col%d' % i if r.random() < 0.9 else '' for i in range(n)]
    rows, exp = [[case['kind'], 'Wide' if case['kind'] == 'Section' else ''] + cols], []
    for k in range(case['rows']):
        size = r.choice([n, n + 3, r.randint(0, n)])
        cells = ['v%d' % r.randint(0, 99) if r.random() < case['fill'] else '' for _ in range(size)]
        rows.append(['Term%d' % k, 'x'] + cells)
        exp.append(['term%d' % k, 'x', [[(cols[i].lower() if i < n else '') or str(i), c, []] for i, c in enumerate(cells) if c]])
    doc = obs.make(rows)
    same([obs.term_tree(t) for s in doc for t in s], exp, 'terms with many cells')
    return any(len(e[2]) > 26 for e in exp)


CHECKS = [
    Check('columns', cases(), columns, quick=1600,
          rule='a section with generated column names (blank ones, more than ten, mixed case) and rows with generated '
               'cells (blank, padded, beyond the named columns), written four ways; non-trivial: a named column and '
               'a cell that is not blank'),
    Check('switching', switching(), switch, quick=1200,
          rule='sequences of Section, re-opened Section and Header rows with different columns; non-trivial: more than '
               'one block'),
    Check('repeated', repeated_cases(), repeated, quick=500,
          rule='terms with properties in cells and in child rows, some with the same name; non-trivial: such a name'),
    Check('large', big.sizes(columns=150, rows=12), large, quick=60,
          rule='sections with up to 150 columns; non-trivial: as in columns'),
    Check('very-wide', st.fixed_dictionaries(dict(seed=st.integers(0, 10**6), columns=st.integers(12, 400), rows=st.integers(1, 4),
                                                  fill=st.sampled_from([0.1, 0.5, 0.9]), kind=st.sampled_from(['Section', 'Header']))),
          very_wide, quick=150,
          rule='rows under 12 to 400 columns, some without a name; non-trivial: a row with more than 26 cells'),
]
