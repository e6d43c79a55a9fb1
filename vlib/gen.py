"""Hypothesis strategies for Metatab names, values, documents and rows. Everything generated is JSON."""
from hypothesis import strategies as st

# Names that mean something to the parser or to a term, and so cannot be used as plain names
RESERVED = {'root', 'section', 'header', 'include', 'declare', 'value', '@value', 'declareterm', 'declaresection',
            'declarevalueset', 'synonym', 'term'}

REAL_NAMES = ['Title', 'Description', 'Name', 'Identifier', 'Dataset', 'Origin', 'Time', 'Space', 'Grain', 'Variant',
              'Version', 'Major', 'Minor', 'Patch', 'Build', 'Datafile', 'Table', 'Column', 'Datatype', 'Altname',
              'Url', 'Email', 'Organization', 'Wrangler', 'Creator', 'Note', 'Schema', 'Reference', 'Documentation',
              'Valuetype', 'Width', 'Startline', 'Headerlines', 'Encoding', 'Resource', 'Author', 'Type', 'Id']

ODD_NAMES = ['a', 'B', 'x1', '1x', 'two words', 'with-dash', 'under_score', 'UPPER', 'camelCase', 'Éte', 'naïve',
             "it's", 'a/b', 'per%', 'q?', 'star*x', 'rootx', 'xroot', 'rootroot', 'sectional', 'includes', 'header2',
             'n_0', 'C#', 'a#b', 'Row', 'Col', 'Parent', 'Children', 'Args', 'Doc', 'Rows', 'Find', 'Props', 'Terms', 'get']


def _ok(n):
    return n.lower() not in RESERVED


def names(pool=None, extra=True):
    """Term and property names"""
    s = [st.sampled_from([n for n in REAL_NAMES if _ok(n)]), st.sampled_from(ODD_NAMES)]
    if extra:
        s.append(st.builds(lambda a, b: a + b, st.sampled_from('abcXYZ'),
                           st.text('abcdefgXYZ0123456789_-', max_size=6)).filter(_ok))
    return st.one_of(*s)


# A small pool, so that names repeat a lot
FEW = ['Alpha', 'beta', 'Gamma', 'delta', 'Name', 'Title', 'Column', 'Table']
few_names = st.sampled_from(FEW)

SECTION_NAMES = ['Contacts', 'Resources', 'Schema', 'References', 'Documentation', 'Bibliography', 'my section',
                 'Notes 2', 'UPPER', 'lower', 'x', 'Data-Dict', 'Éte', 'Datafiles']
section_names = st.one_of(st.sampled_from(SECTION_NAMES),
                          st.builds(lambda a, b: a + b, st.sampled_from('KLMklm'), st.text('abXY01 _-', max_size=5))
                          .map(str.strip).filter(_ok))

TRICKY = ['0', '1', '-1', '1.0', 'None', 'none', 'False', 'True', 'null', 'nan', '00', '#', '# not a comment', '#tag',
          'a,b', '"', '""', 'say "hi"', "it's", 'a|b', '|', '||', '\\|', 'a\\|b', 'a:b', ':', 'http://example.com/a?b=c#d',
          'Section: Foo', 'Title: x', '==== Foo', '====', '.', '..', '.child', 'a.b', 'Root', 'root', 'root.x', '*', '*.*',
          '@value', '{}', '{0}', '%s', '%', '$', '\\', '\\n', 'a\\', 'é', 'naïve café', '日本語', '\U0001F600', 'ß', 'İ',
          'a\tb', '  inner  space ', 'x' * 300, '<a href="x">', '=1+1', '+1', '-', '--', '_', "'", '`', ';', 'a;b',
          '2017-01-01', '1e5', '0x10', '1,000', 'Yes', '[1]', '("a",)', 'a  b', 'Include', 'Declare', '/abs/path',
          'file:README.md', 'e\u0301', '\u00a0x\u00a0y', 'ﬁ', '\u200b',
          '//x', '//', ':x', '::', 'N/A', 'n/a', 'Name', '\\\\', '|a', 'a|', 's3://b/k', '-', '?', 'x' * 40 + ' y', '====', '= x']

MULTILINE = ['a\nb', 'line one\n\nline three', 'a\n# b', 'x\n"y", z', 'a\n,b']
BREAKS = ['a\x0bb', 'a\x0cb', 'a\x85b', 'a\u2028b', 'a\x1cb']  # For str.splitlines(), but not for files
RETURNS = ['a\r\nb', 'a\rb', 'x\r\n\r\ny', '"a"\r\n,b']

ALPHABET = 'abcXYZ019 .,:;|#"\'\\/-_=*@%&?!()[]{}<>+~^$`\té日ß'


def _strip_ok(v):
    return bool(v.strip())


def values(multiline=False, backslash_end=True):
    """Non-blank, stripped values"""
    s = [st.sampled_from(TRICKY), st.text(ALPHABET, min_size=1, max_size=12),
         st.sampled_from(['v', 'w', 'foo', 'bar', '10', 'a', 'b'])]
    if multiline:
        s.append(st.sampled_from(MULTILINE))
        s.append(st.text(ALPHABET + '\n', min_size=1, max_size=12))
    if multiline in ('breaks', 'returns'):
        s.append(st.sampled_from(BREAKS))
    if multiline == 'returns':
        s.append(st.sampled_from(RETURNS))
    r = st.one_of(*s).map(str.strip).filter(_strip_ok)
    return r


few_values = st.sampled_from(['v', 'w', '1', '2', 'foo', 'Bar', '0'])


def weighted(*pairs):
    """one_of with weights"""
    out = []
    for s, w in pairs:
        out.extend([s] * w)
    return st.one_of(*out)


@st.composite
def recase(draw, name_strategy):
    n = draw(name_strategy)
    return draw(st.sampled_from([n, n, n.lower(), n.upper(), n.title()]))


def upper_ok(n):
    """True if the name survives changes of case"""
    return n.lower() == n.upper().lower() == n.title().lower()
