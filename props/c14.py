"""C14: versions"""
from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.exc import MetatabError

from vlib import gen, model, obs
from vlib.core import Check, check, raises, same
from props.c13 import ref_slug

number = gen.weighted((st.integers(0, 12).map(str), 4), (st.integers(0, 10 ** 12).map(str), 1))
BAD = ['beta', '1.0', '1b', 'v1', '1.2.3', '2017-01']


@st.composite
def mods(draw):
    k = draw(st.sampled_from(['+', '+', '-', '-', 'set', 'none', 'keep', 'bare']))
    if k in '+-':
        return k + draw(number)
    if k == 'bare':
        return draw(st.sampled_from(['+', '-']))
    if k == 'set':
        return 'set:' + draw(gen.weighted((number, 2), (st.sampled_from(['next', '9.9', 'x-y', 'Rel 2', '0']), 1)))
    return k


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['plain', 'plain', 'semver', 'semver', 'build', 'none', 'bad plain', 'bad patch']))
    return dict(kind=kind, plain=draw(st.sampled_from(BAD) if kind == 'bad plain' else number),
                numbers=[draw(number) for _ in range(4)], bad=draw(st.sampled_from(BAD)),
                shown=draw(st.sampled_from(['', '', 'stale', '9.9.9'])),
                order=draw(st.permutations([0, 1, 2, 3])), api=draw(st.booleans()),
                extra=draw(st.booleans()), mods=draw(st.lists(mods(), min_size=1, max_size=5)),
                style=draw(st.sampled_from(['Version.', '.'])))


def state(case):
    """[kind, [plain] or [major, minor, patch(, build)]]"""
    k = case['kind']
    if k == 'none':
        return None
    if k.endswith('plain'):
        return ['plain', case['plain']]
    n = list(case['numbers'][:4 if k == 'build' else 3])
    if k == 'bad patch':
        n[2] = case['bad']
    return ['semver'] + n


def show(st_):
    if st_ is None:
        return None
    return '.'.join(st_[1:])


def apply(st_, mod):
    """The state after a modification, or None for no version"""
    if mod == 'keep':
        return st_
    if mod == 'none':
        return None
    i = 1 if st_[0] == 'plain' else 3
    out = list(st_)
    if mod.startswith('set:'):
        out[i] = mod[4:]
        return out
    n = int(out[i])  # ValueError, if it is not a number
    d = int(mod[1:] or 1)
    out[i] = str(n + d if mod[0] == '+' else n - d)
    return out


def make(case):
    s = state(case)
    rows = [['Dataset', 'data'], ['Origin', 'org'], ['Name', 'old'], ['Identifier', 'id']]
    if s:
        names = ['Major', 'Minor', 'Patch', 'Build']
        rows.append(['Version', s[1] if s[0] == 'plain' else case['shown']])
        if s[0] == 'semver':
            for i in case['order']:
                if i < len(s) - 1:
                    rows.append([case['style'] + names[i], s[1 + i]])
            if case['extra']:
                rows.append([case['style'] + 'Note', 'keep me'])
    rows += [['Section', 'Resources'], ['Datafile', 'x'], ['Datafile.Version', '5'], ['Datafile.Patch', '6']]
    if not case['api']:
        return obs.make(rows)
    doc = MetatabDoc()
    t = None
    for r in rows[:-4]:
        if r[0].startswith(('Version.', '.')):
            t.new_child(r[0].split('.')[1], r[1])
        else:
            t = doc['Root'].new_term('Root.' + r[0], r[1])
    f = doc.new_section('Resources').new_term('Datafile', 'x')
    f.new_child('Version', '5')
    f.new_child('Patch', '6')
    return doc


def arg(mod):
    return {'none': None, 'keep': False}.get(mod, mod[4:] if mod.startswith('set:') else mod)


def name(st_):
    return '-'.join(ref_slug(e.replace('-', '_')) for e in ('org', 'data', show(st_)) if e)


def without_version(doc):
    return [[s, [t for t in ts if t[0] not in ('version', 'name')]] for s, ts in obs.doc_tree(doc)]


def versions(case, ctx):
    doc = make(case)
    s = state(case)
    rest = without_version(doc)
    ids = [id(t) for t in doc.all_terms]
    applied = 0

    def ask(cur):
        """as_version() for all of the modifications, which never change the document"""
        for mod in case['mods']:
            tree = obs.doc_tree(doc)
            if cur is None:
                if mod in ('none', 'keep'):
                    same(doc.as_version(arg(mod)), name(None), 'as_version(%s), without a version' % mod)
                continue
            try:
                exp = apply(cur, mod)
            except ValueError:
                raises(MetatabError, doc.as_version, arg(mod))
                ctx.label('version is not a number')
            else:
                same(doc.as_version(arg(mod)), name(exp), 'as_version(%r) of %s' % (mod, cur))
                ctx.label('as_version ' + mod[0])
            same(obs.doc_tree(doc), tree, 'the document, after as_version(%r)' % mod)
            same([id(t) for t in doc.all_terms], ids, 'the terms of the document, after as_version')

    ask(s)
    # update_version() makes the version from its parts, and nothing else
    same(doc.update_version(), show(s), 'update_version()')
    if s:
        same(doc.find_first_value('Root.Version'), show(s), 'the version')
    same(doc.update_version(), show(s), 'update_version(), the second time')
    same(without_version(doc), rest, 'the rest of the document')
    ask(s)

    for mod in case['mods']:
        if s is None and mod not in ('none', 'keep'):
            continue
        try:
            nxt = apply(s, mod)
        except ValueError:
            tree = obs.doc_tree(doc)
            raises(MetatabError, doc.update_name, mod_version=arg(mod))
            same(obs.doc_tree(doc), tree, 'the document, after version math that failed')
            continue
        doc.update_name(mod_version=arg(mod))
        same(doc.get_value('Root.Name'), name(nxt), 'the name, after update_name(%r) of %s' % (mod, s))
        if mod != 'none':
            s = nxt
        if s:
            same(doc.find_first_value('Root.Version'), show(s), 'the version, after update_name(%r)' % mod)
            if s[0] == 'semver':
                same([doc['Root'].find_first_value('Version.' + k) for k in ('Major', 'Minor', 'Patch', 'Build')],
                     (s[1:] + [None])[:4], 'parts of the version')
            if mod not in ('none', 'keep'):
                applied += 1
        same(without_version(doc), rest, 'the rest of the document')
        same([id(t) for t in doc.all_terms], ids, 'the terms of the document')
    if applied:
        ask(s)
    # The version is kept by writing and reading
    d2 = obs.make(obs.parse_csv(doc.as_csv()))
    same(d2.as_version(False), name(s), 'the name, after writing and reading')
    if case['kind'] != 'none':
        ctx.label(case['kind'])
    return bool(s) and len(case['mods']) > 0


@st.composite
def partial_cases(draw):
    """Versions with only some of the parts"""
    parts = {k: draw(st.sampled_from(['', '1', '2'])) for k in ('Major', 'Minor', 'Patch', 'Build') if draw(st.booleans())}
    return dict(parts=parts, value=draw(st.sampled_from(['', '7'])), second=draw(st.sampled_from([None, None, '5', ''])),
                early=draw(st.booleans()), mods=draw(st.lists(st.sampled_from(
        ['none', 'keep', 'set:8', 'set:x']), min_size=1, max_size=3)))


def partial(case, ctx):
    """as_version() leaves documents alone, also when the version is incomplete"""
    rows = [['Dataset', 'data'], ['Version', case['value']]] + [['Version.' + k, v] for k, v in case['parts'].items()]
    if case.get('second') is not None:
        # Another version, which as_version() also leaves alone
        other = [['Version', case['second']], ['Version.Patch', '3']]
        rows = [['Section', 'Notes']] + other + [['Section', 'Root']] + rows if case['early'] else rows + other
    doc = obs.make(rows)
    tree, csv = obs.doc_tree(doc), doc.as_csv()
    ids = [id(t) for t in doc.all_terms]
    for mod in case['mods']:
        n1 = doc.as_version(arg(mod))
        n2 = doc.as_version(arg(mod))
        same(n2, n1, 'as_version, called twice')
        if mod == 'none':
            same(n1, 'data', 'name without a version')
        if case.get('second') is None and mod == 'set:8' and not {'Major', 'Minor', 'Patch'} & set(case['parts']) and 'Build' not in case['parts']:
            same(n1, 'data-8', 'name with a version')
        same(obs.doc_tree(doc), tree, 'the document, after as_version(%r)' % mod)
        same(doc.as_csv(), csv, 'CSV of the document, after as_version(%r)' % mod)
        same([id(t) for t in doc.all_terms], ids, 'the terms of the document')

    # update_name() makes the same names, and completes the version
    if case.get('second') is not None:
        return bool(case['parts'])
    given = {k: v for k, v in case['parts'].items() if v}
    sem = bool({'Major', 'Minor', 'Patch'} & set(case['parts']))
    for mod in case['mods']:
        n1 = doc.as_version(arg(mod))
        doc.update_name(mod_version=arg(mod), create_term=True)
        same(doc.get_value('Root.Name'), n1, 'the name, after update_name(%r)' % mod)
        v = doc['Root'].find_first('Root.Version')
        if mod == 'none' or mod == 'keep' and not sem and not case['value'] and not given:
            continue
        if mod.startswith('set:') and sem:
            given['Patch'] = mod[4:]
        if sem:
            ps = [v.get_value(k) for k in ('Major', 'Minor', 'Patch')]
            check(all(p is not None for p in ps), 'parts of the version {}', ps)
            ps += [v.get_value('Build')] if v.find_first('Build') else []
            same(str(v.value), '.'.join(str(p) for p in ps), 'text of the version')
            for k, p in given.items():
                same(v.get_value(k), p, 'part ' + k)
        elif mod.startswith('set:'):
            same(v.value, mod[4:], 'the version')
    return bool(case['parts'])


CHECKS = [
    Check('versions', cases(), versions, quick=2000,
          rule='documents with no, plain, semantic or non-numeric versions, and up to five requests (+n, -n, set, none, '
               'keep), first with as_version, then with update_name, against a model of the version; non-trivial: there '
               'is a version'),
    Check('partial', partial_cases(), partial, quick=500,
          rule='semantic versions with missing or blank parts: as_version is repeatable and changes nothing; '
               'non-trivial: some part'),
]
