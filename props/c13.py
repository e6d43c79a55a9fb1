"""C13: names and identifiers"""
import re
import unicodedata
import uuid

from hypothesis import strategies as st

from metatab import MetatabDoc
from metatab.util import slugify

from vlib import gen, model, obs
from vlib.core import Check, check, same

PARTS = ['Origin', 'Dataset', 'Time', 'Space', 'Grain', 'Variant']

text = gen.weighted((gen.values(), 3), (st.sampled_from(['example.com', 'US', '2017', 'My Data Set', 'a-b-c', 'x_y',
                                                         'County', 'Été 2001', '1/2', '2010-2015', '   ', '0', '--', '?']), 4),
                    (st.text(max_size=8), 1))


def ref_slug(v):
    """Lower case ASCII letters, digits, underscores and dots; dashes for runs of spaces and dashes"""
    v = unicodedata.normalize('NFKD', v)
    v = ''.join(c for c in v if ord(c) < 128).strip().lower()
    out = ''
    for c in v:
        if c.isalnum() or c in '_.':
            out += c
        elif c == '-' or c in ' \t\n\r\f\v\x1c\x1d\x1e\x1f':
            if not out.endswith('-'):
                out += '-'
    return out


def slug(case, ctx):
    s = slugify(case)
    same(s, ref_slug(case), 'slugify(%r)' % case)
    check(re.fullmatch(r'[a-z0-9_.\-]*', s), 'slug {!r} of {!r}', s, case)
    same(slugify(s), s, 'slugify of a slug')
    check('--' not in s, 'slug {!r}', s)
    return s != case


@st.composite
def cases(draw):
    parts = {p: draw(text) for p in PARTS if draw(st.integers(0, 2))}
    if draw(st.integers(0, 3)) and not parts.get('Dataset', '').strip():
        parts['Dataset'] = draw(st.sampled_from(['data', 'My Data', 'x-y', '1']))
    version = draw(st.sampled_from([None, None, 'plain', 'plain', 'semver', 'build']))
    return dict(parts=parts, order=draw(st.permutations(PARTS)),
                version=version, numbers=[draw(st.sampled_from(['0', '1', '2', '10', '3'])) for _ in range(4)],
                plain=draw(st.sampled_from(['1', '0.1', 'v2', '2017-01', '1.2.3', 'beta one'])),
                name=draw(st.sampled_from([None, '', 'old-name', 'Some Name', 'é-1'])),
                identifier=draw(st.sampled_from([None, '', ' ', 'my-id', 'My Id #7', 'http://example.com/É', '0b4f1d9e-1d5f-4a5d-8a7c-7ad5a4b2a111'])),
                other=draw(st.booleans()), early=draw(st.integers(0, 3)) == 0,
                also=draw(st.lists(st.sampled_from(['Name', 'Identifier', 'Dataset', 'Description']), max_size=3, unique=True)),
                lower=draw(st.booleans()),
                force=draw(st.booleans()), create=draw(st.booleans()), report=draw(st.booleans()))


def make(case):
    rows = []
    c = str.lower if case['lower'] else str
    for p in case['order']:
        if p in case['parts']:
            rows.append([c(p), case['parts'][p]])
    if case['name'] is not None:
        rows.append([c('Name'), case['name']])
    if case['identifier'] is not None:
        rows.append([c('Identifier'), case['identifier']])
    if case['version'] == 'plain':
        rows.append(['Version', case['plain']])
    elif case['version']:
        rows.append(['Version', ''])
        for k, n in zip(['Major', 'Minor', 'Patch', 'Build'][:3 if case['version'] == 'semver' else 4], case['numbers']):
            rows.append(['Version.' + k, n])
    if case['other']:
        # Terms of other sections and children with the same names do not count
        rows.insert(0, ['Title', 'x'])
        rows.insert(1, ['Title.Origin', 'wrong'])
        rows += [['Section', 'Resources'], ['Datafile', 'http://example.com'], ['Datafile.Name', 'wrong'],
                 ['Datafile.Time', 'wrong'], ['Datafile.Version', '77'], ['.Space', 'wrong'], ['Origin', 'wrong2'],
                 ['Time', 'wrong3'], ['Space', 'wrong4'], ['Grain', 'wrong5'], ['Variant', 'wrong6'], ['Version', '88'],
                 ['Version.Major', '9'], ['Version.Patch', '9']]
        rows += [[n, 'wrong7'] for n in case['also']]
    if case['early'] and case['also']:
        # ... even if they come first
        rows = [['Section', 'Notes']] + [[n, 'wrong8'] for n in case['also']] + [['Section', 'Root']] + rows
    return rows


def version(case):
    if case['version'] is None:
        return None
    if case['version'] == 'plain':
        return case['plain']
    return '.'.join(case['numbers'][:3 if case['version'] == 'semver' else 4])


def identity(case, ver):
    parts = [case['parts'].get(p) for p in PARTS] + [ver]
    return '-'.join(ref_slug(p.strip().replace('-', '_')) for p in parts if p and p.strip())


def without(doc, *names):
    return [[s, [t for t in ts if s != 'Root' or t[0] not in names]] for s, ts in obs.doc_tree(doc)]


def update(case, ctx):
    doc = obs.make(make(case))
    before = without(doc, 'name', 'identifier', 'version')
    old_name = case['name'] or None
    has_dataset = bool(case['parts'].get('Dataset', '').strip())
    ver = version(case)

    # Making an identifier changes nothing else, and happens once
    rest = without(doc, 'identifier')
    doc.ensure_identifier()
    ident = doc.find_first_value('Root.Identifier', section='Root')
    if (case['identifier'] or '').strip():
        same(ident, case['identifier'], 'the identifier')
    else:
        same(str(uuid.UUID(ident)), ident, 'a new identifier')
    doc.ensure_identifier()
    same([t.value for t in doc.find('Root.Identifier', section='Root')], [ident], 'the identifiers')
    same(without(doc, 'identifier'), rest, 'the rest of the document')

    kw = dict(force=case['force'], create_term=case['create'], report_unchanged=case['report'])
    updates = doc.update_name(**kw)
    check(isinstance(updates, list) and all(isinstance(u, str) for u in updates), 'updates are {!r}', updates)
    names = [t.value for t in doc['Root'].find('Root.Name')]
    if case['name'] is None and not case['create']:
        same(names, [], 'names, without a name term')
        same(len(updates), 1, 'reasons')
        new = None
    else:
        if has_dataset:
            new = identity(case, ver)
        elif old_name:
            new = old_name
        else:
            new = ident
        same(names, [new], 'the name')
        if not new:
            pass  # Whether a blank name is new is not specified
        elif new == (old_name or '') and has_dataset and not case['force'] and not case['report']:
            same(updates, [], 'updates, with nothing to report')
        elif has_dataset:
            same(updates, ['Changed Name' if new != (old_name or '') or case['force'] else 'Name did not change'], 'updates')

    same(without(doc, 'name', 'identifier', 'version'), before, 'the rest of the document')
    same([t.value for t in doc.find('Root.Identifier', section='Root')], [ident], 'the identifiers, after an update of the name')
    if has_dataset and new is not None and case['version']:
        same(doc.find_first_value('Root.Version', section='Root'), ver, 'the version')

    # Updating again changes nothing
    tree = obs.doc_tree(doc)
    again = doc.update_name(report_unchanged=False, create_term=case['create'])
    same(obs.doc_tree(doc), tree, 'the document, after another update')
    if new and has_dataset:
        same(again, [], 'updates, the second time')
        ctx.label('name from parts')

    # The name does not depend on the order of the terms, or on being written and read
    if new is not None and has_dataset:
        d2 = obs.make(make(dict(case, order=sorted(case['order']))))
        d2.update_name(create_term=True)
        same(d2.get_value('Root.Name', section='Root'), new, 'the name, with terms in another order')
        d3 = obs.make(obs.parse_csv(doc.as_csv()))
        d3.update_name()
        same(d3.get_value('Root.Name', section='Root'), new, 'the name, after writing and reading')
    return len([p for p in case['parts'].values() if p.strip()]) + bool(case['version']) > 1


def cleanse(case, ctx):
    doc = obs.make(make(case))
    before = without(doc, 'name', 'identifier', 'version')
    doc.cleanse()
    tree = obs.doc_tree(doc)
    # As the identifier, the version and the name would have been updated
    twin = obs.make(make(case))
    twin.ensure_identifier()
    ident = doc.get_value('Root.Identifier', section='Root')
    twin.find_first('Root.Identifier', section='Root').value = ident
    twin.update_name()
    same(doc.get_value('Root.Name', section='Root'), twin.get_value('Root.Name', section='Root'), 'the name, of a cleansed document')
    check(doc.get_value('Root.Identifier', section='Root'), 'no identifier')
    same(without(doc, 'name', 'identifier', 'version'), before, 'the rest of the document')
    doc.cleanse()
    same(obs.doc_tree(doc), tree, 'the document, cleansed twice')
    return True


CHECKS = [
    Check('update-name', cases(), update, quick=2500,
          rule='documents with generated values, in any order, for the terms that make a name, with and without name, '
               'identifier and (semantic) version, and with the same names in other sections and children; against a '
               'model of the name; non-trivial: at least two parts'),
    Check('cleanse', cases(), cleanse, quick=500, rule='the same documents, cleansed twice'),
    Check('slugify', st.one_of(st.text(max_size=20), gen.values(), text), slug, quick=2000,
          rule='any text; non-trivial: the slug differs from the text'),
]
