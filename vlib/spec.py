"""Generates documents as nested specs: [[section, columns, [term, ...]], ...], term = [name, value, [term, ...]]"""
from hypothesis import strategies as st

from vlib import gen


@st.composite
def name_pools(draw, numeric=False, size=6):
    """A pool of distinct names for one document"""
    src = draw(st.sampled_from(['few', 'real', 'odd', 'mixed', 'mixed']))
    s = dict(few=gen.few_names, real=st.sampled_from(gen.REAL_NAMES), odd=st.sampled_from(gen.ODD_NAMES),
             mixed=gen.names())[src]
    if numeric:
        s = gen.weighted((s, 8), (st.sampled_from(['2017', '0', '1', '10']), 1))
    pool = draw(st.lists(s, min_size=3, max_size=size))
    out, seen = [], set()
    for n in pool:
        n = n.strip()
        if n and n.lower() not in seen and gen.upper_ok(n) and n.lower() not in gen.RESERVED:
            seen.add(n.lower())
            out.append(n)
    return out or ['Alpha']


@st.composite
def term(draw, pool, value, ancestors=(), depth=3, blank=True, exclude=()):
    avail = [n for n in pool if n.lower() not in ancestors and n.lower() not in exclude]
    name = avail[draw(st.integers(0, len(avail) - 1))]
    if not ancestors:  # Root level terms are not named with numbers
        name = name if not name.isdigit() else 'n' + name
    v = draw(value)
    if blank and draw(st.integers(0, 9)) == 0:
        v = None
    anc = tuple(ancestors) + (name.lower(),)
    left = [n for n in pool if n.lower() not in anc and n.lower() not in exclude]
    children = []
    if depth > 0 and left:
        n = draw(st.sampled_from([0, 0, 1, 2, 3, 5] if depth > 1 else [0, 0, 0, 1, 2]))
        for _ in range(n):
            children.append(draw(term(pool, value, anc, depth - 1, blank, exclude)))
    return [name, v, children]


@st.composite
def columns(draw, pool, max_size=4, case=True):
    idx = draw(st.lists(st.integers(0, len(pool) - 1), max_size=min(max_size, len(pool)), unique=True))
    cols = [pool[i] for i in idx if not pool[i].isdigit()]
    if case:
        cols = [draw(st.sampled_from([c, c, c.lower(), c.upper(), c.title()])) for c in cols]
    return cols


@st.composite
def docs(draw, value=None, max_sections=4, max_terms=4, depth=3, numeric=False, blank=True, cols=True, case=True,
         root=True, pool_size=6, multiline=False, distinct_sections=True, section_name=None):
    value = value or gen.values(multiline=multiline)
    pool = draw(name_pools(numeric, pool_size))
    n = draw(st.integers(0 if root else 1, max_sections))
    spec, seen = [], {'root'}
    if root:
        spec.append(['Root', [], [draw(term(pool, value, (), depth, blank))
                                  for _ in range(draw(st.integers(0, max_terms)))]])
    for _ in range(n):
        name = draw(section_name or gen.section_names)
        if distinct_sections and name.lower() in seen:
            continue
        if not gen.upper_ok(name):
            continue
        seen.add(name.lower())
        c = draw(columns(pool, case=case)) if cols else []
        terms = [draw(term(pool, value, (), depth, blank)) for _ in range(draw(st.integers(0, max_terms)))]
        spec.append([name, c, terms])
    return spec


def size(spec):
    def ts(t):
        return 1 + sum(ts(c) for c in t[2])
    return sum(ts(t) for s in spec for t in s[2])


def has_children(spec):
    return any(t[2] for s in spec for t in s[2])


def depth(spec):
    def td(t):
        return 1 + max([td(c) for c in t[2]] or [0])
    return max([td(t) for s in spec for t in s[2]] or [0])


def repeats(spec):
    """True if some term has two children with the same name"""
    def tr(t):
        ns = [c[0].lower() for c in t[2]]
        return len(set(ns)) != len(ns) or any(tr(c) for c in t[2])
    return any(tr(t) for s in spec for t in s[2])
