"""Large documents. A case holds a seed and sizes; the document is expanded from them, so that it can be far larger than
what Hypothesis would generate, and still shrinks (to smaller sizes) and replays."""
import random

from hypothesis import strategies as st

WORDS = ['v', 'w', '0', '1', 'None', 'a,b', 'say "hi"', 'a|b', '#tag', 'é', '日本語', 'a:b', '-', 'Root', '.child', '==== x', "it's",
         '\\', 'a\\|b', '*', 'x y', 'ß', '%s', '1.0']


def sizes(**kw):
    """A strategy for big cases: seed, and each size between 1 and its maximum"""
    d = {k: st.one_of(st.integers(1, m), st.integers(max(1, m // 2), m)) for k, m in kw.items()}
    return st.fixed_dictionaries(dict(seed=st.integers(0, 2 ** 32 - 1), **d))


def value(r, long=2000, one_line=True):
    k = r.random()
    if k < 0.5:
        return r.choice(WORDS)
    if k < 0.9:
        return 'v%d' % r.randrange(10 ** r.randint(1, 9))
    n = r.choice([10, 60, 70, 80, 100, 127, 128, 129, 255, 256, 257, 300, 500, 1000, 1024, long, 5 * long])
    v = ''.join(r.choice('abcdefghij |,"é#:.') for _ in range(n)).strip() or 'x'
    if not one_line and r.random() < 0.3:
        v = v.replace(' ', '\n').strip() or 'x'
    return v


def term(r, names, depth, width, anc=(), **kw):
    avail = [n for n in names if n.lower() not in anc]
    name = r.choice(avail)
    children = []
    if depth > 0 and len(avail) > 1:
        for _ in range(r.randint(0, width)):
            children.append(term(r, names, depth - 1, r.choice([0, 1, width // 2]), anc + (name.lower(),), **kw))
    return [name, value(r, **kw), children]


def chain(r, names, depth, **kw):
    """A chain of terms, each the only child of the one before it"""
    ns = r.sample(names, min(depth, len(names)))
    t = None
    for n in reversed(ns):
        t = [n, value(r, **kw), [t] if t else []]
    return t


def doc(case, one_line=True):
    """A spec document (see vlib.spec) from sections, terms (per section), width (of children and columns), names and depth"""
    r = random.Random(case['seed'])
    kw = dict(one_line=one_line)
    names = ['Nm%d' % i for i in range(max(3, case.get('names', 10)))]
    out = []
    for i in range(case.get('sections', 1)):
        cols = [n if r.random() < 0.7 else n.lower() for n in r.sample(names, min(len(names), r.randint(0, case.get('width', 3))))] if i else []
        terms = []
        for _ in range(r.randint(0, case.get('terms', 3))):
            if r.random() < 0.1:
                terms.append(chain(r, names, case.get('depth', 3), **kw))
            else:
                terms.append(term(r, names, min(case.get('depth', 3), 3), r.randint(0, case.get('width', 3)), **kw))
        out.append(['Sec %d' % i if i else 'Root', cols, terms])
    return out


def rows(case):
    """Raw rows, see vlib.rowgen: number of rows, sections, columns and names"""
    r = random.Random(case['seed'])
    names = ['Nm%d' % i for i in range(case.get('names', 10))]
    secs = ['Sec %d' % i for i in range(case.get('sections', 5))] + ['Root']
    used, out = [], []
    for _ in range(case['rows']):
        k = r.random()
        n = r.choice(names)
        n = r.choice([n, n, n.lower(), n.upper()])
        cells = [value(r) if r.random() < 0.6 else '' for _ in range(r.choice([0, 0, r.randint(0, case['columns'])]))]
        if k < 0.35 or not used:
            out.append([n, value(r)] + cells)
            used.append(n)
        elif k < 0.65:
            # The latest one, to nest, or any
            p = used[-1] if r.random() < 0.5 else r.choice(used)
            out.append([p + '.' + n, value(r)] + cells)
            used.append(n)
        elif k < 0.85:
            out.append(['.' + n, value(r)])
        elif k < 0.93:
            out.append(['Section', r.choice(secs)] + [r.choice(names) for _ in range(r.choice([0, r.randint(0, case['columns'])]))])
        elif k < 0.95:
            out.append(['Header', r.choice(['', 'Vn'])] + [r.choice(names) for _ in range(r.randint(1, case['columns'] + 1))])
        elif k < 0.98:
            out.append(r.choice([[], [''], ['', 'x', 'y']]))
        else:
            out.append(['# comment', 'x'])
    return out
