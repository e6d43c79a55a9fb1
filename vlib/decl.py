"""Declaration documents: generation, text, and what they mean for the conversion to dicts"""
from hypothesis import strategies as st

from vlib import obs

COLS = ['TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom']
TYPES = ['any', 'scalar', 'sequence', 'sconcat', 'bconcat']


def rows(decl):
    """decl = dict(sections=[[name, [arg, ...]], ...], terms=[dict(term=, vname=, cpt=, section=, synonym=,
    inherits=), ...], meta=[row, ...])"""
    yield from decl.get('meta', [])
    yield ['Section', 'DeclaredSections']
    for name, args in decl.get('sections', []):
        yield ['DeclareSection', name] + list(args)
    yield ['Section', 'DeclaredTerms'] + COLS
    for t in decl.get('terms', []):
        r = ['DeclareTerm', t['term']] + [t.get(k) or '' for k in ('vname', 'cpt', 'section', 'synonym', 'inherits')]
        while len(r) > 2 and r[-1] == '':
            r.pop()
        yield r


def text(decl):
    return obs.to_csv(rows(decl))


def key(name):
    name = name.lower()
    return name if '.' in name else 'root.' + name


@st.composite
def types(draw, pool, vnames=('Vname', 'thevalue', 'FN'), root_types=TYPES, max_size=6):
    """Declared terms over a pool of names: value names and child property types"""
    names = [n for n in pool if not n.isdigit()]
    out, seen = [], set()
    for _ in range(draw(st.integers(1, max_size))):
        p = draw(st.sampled_from(['Root'] + names))
        c = draw(st.sampled_from(names))
        k = (p + '.' + c).lower()
        if k in seen or p == c:
            continue
        seen.add(k)
        case = draw(st.sampled_from([str, str, str.lower, str.upper]))
        out.append(dict(term=case(c) if p == 'Root' and draw(st.booleans()) else case(p + '.' + c),
                        vname=draw(st.sampled_from(['', ''] + list(vnames))),
                        cpt=draw(st.sampled_from([''] + (root_types if p == 'Root' else TYPES)))))
    return out


def table(decl):
    return {key(t['term']): t for t in decl.get('terms', [])}


def terminal_concats(tree_terms, decl, parent='root'):
    """Drop the children of terms that are declared to be concatenated"""
    tab = table(decl)
    out = []
    for name, value, children in tree_terms:
        if (tab.get(parent + '.' + name.lower(), {}).get('cpt') or '').endswith('concat'):
            children = []
        out.append([name, value, terminal_concats(children, decl, name.lower())])
    return out


def as_dict(children, parent, decl, value=None, vname='@value', default='@value', replace=True):
    """The dict for a term with these children: trees [name, value, children]"""
    tab = table(decl)
    groups = {}
    for c in children:
        groups.setdefault(c[0].lower(), []).append(c)
    d = {}
    for name, cs in groups.items():
        t = tab.get(parent + '.' + name, {})
        cpt = t.get('cpt') or 'any'
        vals = [term_value(c, name, decl, t.get('vname') or default, default, replace) for c in cs]
        if cpt == 'scalar':
            d[name] = vals[-1]
        elif cpt == 'sequence':
            d[name] = vals
        elif cpt == 'sconcat':
            d[name] = ' '.join(v or '' for v in vals)
        elif cpt == 'bconcat':
            d[name] = ''.join(v or '' for v in vals)
        else:
            d[name] = vals[0] if len(vals) == 1 else vals
    if value:
        d[vname.lower() if replace else '@value'] = value
    return d


def term_value(c, name, decl, vname, default, replace):
    if not c[2]:
        return c[1]
    return as_dict(c[2], name, decl, c[1], vname, default, replace)


def blank(d):
    """Blank values compare equal to None"""
    if isinstance(d, dict):
        return {k: blank(v) for k, v in d.items()}
    if isinstance(d, list):
        return [blank(v) for v in d]
    return None if d == '' else d


def prune(t):
    """Without the blank terminal children"""
    cs = [prune(c) for c in t[2]]
    return [t[0], t[1], [c for c in cs if c[1] is not None or c[2]]]
