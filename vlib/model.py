"""Reference model of the Metatab format: what a sequence of rows means, written independently of the code under
test. Names are lower case, values are stripped strings or None."""


class ModelParserError(Exception):
    def __init__(self, first, row=None):
        super().__init__(first)
        self.row = row


class T:
    """A term"""
    __slots__ = ('name', 'value', 'children', 'row', 'parent', 'section', 'col', 'vname', 'args')

    def __init__(self, name, value, row=None, parent=None, col=1):
        self.name, self.value, self.row, self.parent, self.col = name, value, row, parent, col
        self.children = []
        self.section = None
        self.vname = None
        self.args = []

    def __repr__(self):
        return repr(self.tree())

    def tree(self):
        return [self.name, self.value, [c.tree() for c in self.children]]

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def find(self, name):
        return [c for c in self.children if c.name == name]


class S:
    """A section"""

    def __init__(self, name, cols=()):
        self.name = name
        self.cols = list(cols)
        self.header = []
        self.value_name = None
        self.terms = []

    @property
    def columns(self):
        return self.header or self.cols


class Doc:
    def __init__(self):
        self.sections = {'root': S('Root')}
        self.all = []  # Root level terms, in the order they were added

    def tree(self):
        return [[s.name, [t.tree() for t in s.terms]] for s in self.sections.values()]

    def walk(self):
        for s in self.sections.values():
            for t in s.terms:
                yield from t.walk()


def clean(v):
    if v is None:
        return None
    v = str(v).strip()
    return v or None


def is_number(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


def interpret(rows, doc=None):
    """Build a document from rows, for documents with no Include, no Declare and no declared sections"""
    doc = doc or Doc()
    section = doc.sections['root']
    by_name = {}      # The most recent term row of each name
    current = None    # The last term row that is not an elided child

    for n, row in enumerate(rows, 1):
        first = str(row[0]).strip() if row and row[0] is not None else ''
        if not first or first.startswith('#'):
            continue
        value = clean(row[1]) if len(row) > 1 else None
        cells = [clean(c) for c in row[2:]]

        if first.count('.') > 1 or not first.split('.')[-1].strip():
            raise ModelParserError(first, n)

        if '.' in first:
            p, name = [e.strip().lower() for e in first.split('.')]
        else:
            p, name = 'root', first.lower()

        if name == 'root' and p == 'root' or name in ('section', 'root') and p == '' and current is None:
            raise ModelParserError(first, n)

        if p == 'root' and name in ('section', 'include', 'declare') and value is None:
            raise ModelParserError(first, n)

        if p == 'root' and name == 'section':
            key = value.lower()
            if key not in doc.sections:
                doc.sections[key] = S(value, [c or '' for c in cells])
            elif any(cells):
                doc.sections[key].cols = [c or '' for c in cells]
                doc.sections[key].header = []
                doc.sections[key].value_name = None
            section = doc.sections[key]
            current = None
            continue

        if p == 'root' and name == 'header':
            section.header = [c or '' for c in cells]
            section.value_name = value.lower() if value else None
            continue

        if p == '':
            t = T(name, value, n, current)
            t.vname = section.value_name
            t.section = section
            if current is None:
                section.terms.append(t)
                doc.all.append(t)
            else:
                current.children.append(t)
        else:
            parent = None
            if p != 'root':
                if p not in by_name:
                    raise ModelParserError(first, n)
                parent = by_name[p]
            t = T(name, value, n, parent)
            t.vname = section.value_name
            t.section = section
            t.args = cells
            by_name[name] = t
            current = t
            if parent is None:
                section.terms.append(t)
                doc.all.append(t)
            else:
                parent.children.append(t)

        # The cells in the property columns are children of the last term row
        for i, cell in enumerate(cells):
            if cell is None:
                continue
            cname = section.columns[i].lower() if i < len(section.columns) and section.columns[i] else str(i)
            owner = current
            c = T(cname, cell, n, owner, i + 2)
            c.vname = section.value_name
            c.section = section
            if owner is None:
                # An elided row before any term of a section
                section.terms.append(c)
                doc.all.append(c)
            else:
                owner.children.append(c)
    return doc


def norm_term(tree):
    """Normal form of a term tree: children grouped by name, blank terminal children dropped. A child is only
    ordered relative to other children with the same name."""
    name, value, children = tree
    groups = {}
    for c in children:
        nc = norm_term(c)
        if nc[1] is None and not nc[2]:
            continue
        groups.setdefault(nc[0], []).append(nc)
    return [name, value, sorted(groups.items())]


def norm_doc(tree):
    """Normal form of a document; the order of sections and of the terms in them is significant. Documents that are
    read always start with the Root section, so its position is not"""
    return [[name, [norm_term(t) for t in terms]] for name, terms in sorted(tree, key=lambda e: e[0].lower() != 'root')]


# -- Documents from a nested spec --------------------------------------------------------------------------

def spec_tree(spec):
    """The tree of a spec document: [[section, columns, [term, ...]], ...], with term = [name, value, [term, ...]].
    Sections with names that differ only in case are the same section."""
    doc = {'root': ['Root', []]}
    for name, cols, terms in spec:
        s = doc.setdefault(name.lower(), [name, []])
        s[1].extend(lower_tree(t) for t in terms)
    return list(doc.values())


def lower_tree(t):
    return [t[0].lower(), t[1], [lower_tree(c) for c in t[2]]]


def spec_rows(spec, in_columns=True):
    """Rows for a spec document. Terminal children, the only ones with their name, are written in the column of
    their name, when the section has one"""
    for name, cols, terms in spec:
        if name.lower() != 'root' or cols:
            yield ['Section', name] + list(cols)
        for t in terms:
            yield from term_rows(t, None, cols if in_columns else [])


def term_rows(t, parent, cols):
    name, value, children = t
    cells = {}
    rest = []
    lcols = [c.lower() for c in cols]
    counts = {}
    for c in children:
        counts[c[0].lower()] = counts.get(c[0].lower(), 0) + 1
    for c in children:
        if c[0].lower() in lcols and not c[2] and counts[c[0].lower()] == 1 and c[1] is not None:
            cells[c[0].lower()] = c[1]
        else:
            rest.append(c)
    row = [(parent + '.' if parent else '') + name, value or '']
    row += [cells.get(c, '') for c in lcols]
    while len(row) > 2 and row[-1] == '':
        row.pop()
    yield row
    for c in rest:
        yield from term_rows(c, name, cols)
