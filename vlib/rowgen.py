"""Generates raw rows: any mixture of terms, children, sections, headers, comments and blank rows"""
from hypothesis import strategies as st

from vlib import gen

PAD = st.sampled_from(['', '', '', '', ' ', '  ', '\t'])
CASE = st.sampled_from([str, str, str.lower, str.upper, str.title])

# Names may have any characters but '.', and only start a comment when they start with '#'
PUNCTUATED = st.one_of(st.sampled_from(['C#', 'No #', 'a#b', 'x@y', '@id', 'R&D', 'a=b', '(x)', '[y]', 'a|b', 'a:b', 'http://x',
                                        'q"t', 'a,b', '"', '!', '-', '====x', '_', '\\', 'a\\b', '日本', 'x\u00a0y', '{0}', '%s', '$1',
                                        '*', 'İx', 'ß']),
                       st.text('abZ09#@&=()|:",-_/ \\*%é', min_size=1, max_size=5).map(str.strip)
                       .filter(lambda n: n and not n.startswith('#'))).filter(lambda n: gen._ok(n) and gen.upper_ok(n))

_cell = gen.weighted((gen.values(), 4), (gen.few_values, 2), (st.sampled_from(['', '', ' ', '  ']), 3))


@st.composite
def _name(draw, pool):
    n = draw(pool)
    c = draw(CASE)
    m = c(n)
    if m.lower() != n.lower():
        m = n
    return draw(PAD) + m + draw(PAD)


def _trim(row):
    return row


@st.composite
def raw_rows(draw, max_rows=22, columns=True, headers=True, unknown_parents=True, wide=True,
             punctuated=True):
    """A list of rows"""
    pool = draw(st.sampled_from([gen.few_names, gen.few_names, gen.names(), gen.names(),
                                 PUNCTUATED if punctuated else gen.names()]))
    secs = draw(st.lists(gen.section_names, min_size=1, max_size=4))
    n = draw(st.integers(1, max_rows))
    used = []     # Names of term rows
    have_term = False
    rows = []
    for _ in range(n):
        kind = draw(st.sampled_from(['term'] * 5 + ['child'] * 6 + ['elided'] * 4 + ['section'] * 3 +
                                    (['header'] if headers else []) + ['blank', 'comment']))
        if kind == 'child' and not used:
            kind = 'term'
        if kind in ('term', 'child', 'elided'):
            name = draw(_name(pool))
            value = draw(_cell)
            if kind == 'term':
                first = draw(st.sampled_from(['', '', '', 'Root.', 'root.'])) + name
            elif kind == 'child':
                if unknown_parents and draw(st.integers(0, 60)) == 37:
                    p = 'Nosuchparent'
                else:
                    p = used[draw(st.integers(0, len(used) - 1))]
                first = draw(CASE)(p) + draw(st.sampled_from(['.', '.', '.', ' . '])) + name
                if first.split('.')[0].strip().lower() != p.lower():
                    first = p + '.' + name
            else:
                first = draw(PAD) + '.' + name
            row = [first]
            if draw(st.integers(0, 9)) > 0 or columns:
                row.append(value)
            if kind != 'elided' and columns:
                k = draw(st.sampled_from([0, 0, 1, 2, 3, 4] + ([14] if wide else [])))
                row += [draw(_cell) for _ in range(k)]
            if kind != 'elided':
                used.append(name.strip())
            rows.append(row)
        elif kind == 'section':
            nm = draw(st.sampled_from(secs + ['Root']))
            nm = draw(st.sampled_from([nm, nm, nm.upper(), nm.lower()]))
            cols = []
            if columns:
                k = draw(st.sampled_from([0, 0, 1, 2, 3] + ([12] if wide else [])))
                cols = [draw(gen.weighted((gen.recase(pool), 6), (st.sampled_from(['', ' ']), 1))) for _ in range(k)]
            rows.append([draw(st.sampled_from(['Section', 'section', 'SECTION ', 'Root.Section'])), nm] + cols)
        elif kind == 'header':
            k = draw(st.sampled_from([1, 2, 3]))
            cols = [draw(gen.weighted((gen.recase(pool), 6), (st.just(''), 1))) for _ in range(k)]
            v = draw(st.sampled_from(['', 'Vname', 'url', 'NAME2']))
            rows.append([draw(st.sampled_from(['Header', 'header'])), v] + cols)
        elif kind == 'blank':
            rows.append(draw(st.sampled_from([[], [''], ['', ''], [' ', 'x'], ['', 'orphan value', 'y']])))
        else:
            rows.append(draw(st.sampled_from([['#'], ['# comment', 'x'], ['#Title', 'y', 'z'], ['  # z', 'Section']])))
    return rows
