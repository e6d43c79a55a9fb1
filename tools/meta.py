#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, for the properties that have a check in props/"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'property-based testing (Hypothesis): '


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note)


PROPS = [
    P('C01', 'Rows build exactly the term tree that they describe',
      'Reading any sequence of rows gives the document with exactly the sections, terms, values and nesting that the rows '
      'describe, in row order, and nothing else: a name alone is a root level term, Parent.Child is a child of the most '
      'recent term row named Parent, .Child is a child of the last term row that was not itself written that way, a '
      'Section row opens or returns to a section, names are compared without case, names and values are stripped, and '
      'blank and comment rows are skipped. Terms keep the number of the row they came from, and the links between '
      'document, section, parent and child agree with each other. A Parent.Child row without any previous Parent is '
      'refused with a ParserError instead of being dropped or attached elsewhere.',
      ['inputs'], 'all row sequences of root terms, qualified and elided children, Section, Header, comment and blank rows',
      'The tests read a handful of fixed example files and compare a few values; nesting, re-opened sections, name reuse and case mixing are unbounded combinations.',
      ['metatab/parser.py', 'metatab/terms.py', 'metatab/doc.py'],
      [('TermParser.__iter__', 'metatab/parser.py'), ('TermParser.generate_terms', 'metatab/parser.py'), ('MetatabDoc.load_terms', 'metatab/doc.py')],
      ['MetatabDoc(...), iteration over sections, Term.children, doc.terms, doc.all_terms'],
      'generated row sequences against an independent reference interpreter',
      'Every generated row sequence is compared, tree by tree, with a reference interpreter in vlib/model.py; sampling, not proof.'),
    P('C02', 'Cells in property columns are properties of the term of their row',
      'In a row of a term or child, the cell under a column that the Section row (or a later Header row) names is a property '
      'of that row\'s term with the name of the column, for any number and order of columns; a cell under a column with no '
      'name, or beyond the named ones, is a property named by its zero based column number, and blank cells are no property. '
      'The result is the same as writing each property as its own child row, and the property dictionaries (props, arg_props, '
      'all_props) and property access agree with it. Re-opening a section without naming columns keeps its columns; naming '
      'columns replaces them.',
      ['inputs'], 'all column lists, cell lists, Section/Header sequences',
      'Tests use sections with a few fixed columns and never permute, re-open, widen beyond ten or leave blank columns.',
      ['metatab/parser.py', 'metatab/terms.py'],
      [('TermParser.__iter__ parameter map', 'metatab/parser.py'), ('Term.props / arg_props / all_props', 'metatab/terms.py')],
      ['Term.children, props, arg_props, all_props, term[name]'],
      'metamorphic (columns vs. explicit rows, column permutation) and model oracles',
      'Four spellings of each generated table are compared with the expected properties.'),
    P('C03', 'Writing a document as CSV and reading it back loses nothing',
      'For every document, read from rows or built with the API, with or without declared value names, in which no term is nested under a term of its own name, '
      'the CSV text that it writes reads back as the same document: the same sections in the same order with the same '
      'columns, the same terms with the same values in the same order, and the same children at every depth, where '
      'children that share a name keep their order. Values may hold any text, including quotes, commas, newlines and '
      'non-ASCII characters; only blank children without children may be lost. Writing changes nothing in the document, and, '
      'when there are no such blank children, writing what was read back gives the same text again.',
      ['inputs', 'programs'], 'all documents, from rows and from the API',
      'Tests round trip a few example documents that have no repeated children, deep nesting or unusual values.',
      ['metatab/doc.py', 'metatab/terms.py', 'metatab/parser.py'],
      [('MetatabDoc.rows / as_csv', 'metatab/doc.py'), ('SectionTerm.rows, Term.rows, SectionTerm._args', 'metatab/terms.py')],
      ['doc.as_csv()'],
      'round trip over generated documents',
      'Round trip and idempotence on generated documents, with an independent model of the content.'),
    P('C04', 'Writing a document as Lines and reading it back loses nothing',
      'For every document whose values are single lines and in which no term is nested under a term of its own name, the '
      'Lines text that it writes (for the whole document, or section by section) reads back as the same document, with the '
      'same sections, columns, terms, values and children, including values with pipes, colons, backslashes, hashes or '
      'leading equal signs; only blank children without children may be lost. Lines and CSV of a document hold the same content.',
      ['inputs', 'programs'], 'all documents with single line values',
      'Tests compare Lines output for fixed examples; separators inside values and repeated children are never generated.',
      ['metatab/terms.py', 'metatab/doc.py', 'metatab/rowgen.py'],
      [('SectionTerm.lines, as_lines', 'metatab/terms.py'), ('TextRowGenerator', 'metatab/rowgen.py')],
      ['doc.as_lines(), section.as_lines()'],
      'round trip over generated documents',
      'Round trip on generated documents, and differential comparison with the CSV form.'),
    P('C05', 'The same rows make the same document from any source',
      'The same content gives the same sections, terms, values and row numbers, whatever it is read from: a list or iterator '
      'of rows, rows loaded into a document with load_rows, a CSV file by relative or absolute path, by file: or metatab+file: URL or by URL '
      'object, a package directory or ZIP package that holds metadata.csv, and Lines text from a string, path, handle or URL. Lines text means '
      'the same as rows: "Name: value | cell | cell", with any indentation, comment and blank lines skipped, \\| for a '
      'literal pipe and "==== Name" for a section. Documents read from a file know the directory they came from, and '
      'loading more rows adds to the document.',
      ['inputs', 'configurations'], 'all row sequences, in all forms of source',
      'Tests open a few example files, each in one form.',
      ['metatab/rowgen.py', 'metatab/doc.py', 'metatab/appurl.py', 'metatab/parser.py'],
      [('MetatabDoc.__init__, load_rows', 'metatab/doc.py'), ('TextRowGenerator', 'metatab/rowgen.py'), ('MetatabUrl', 'metatab/appurl.py')],
      ['MetatabDoc(ref) for all forms of ref, doc.load_rows'],
      'differential testing between source forms, with a reference interpreter',
      '23 forms of source for rows and 6 for Lines text are compared with the model; web URLs and spreadsheets are out of reach offline.'),
    P('C06', 'Conversion to dicts follows the declared types and value names',
      'as_dict() of a document, section or term holds every term and property exactly once, under its lower case name: a '
      'term without children is its value; a term with children is a dict of them, with its value under the term value '
      'name that is declared for it (or that the Header row of its section gives), or under @value if there is none or '
      'replace_value_names is False; repeated names follow the declared child property type: any (a value, or a list if '
      'there are several), scalar (the last one), sequence (always a list), sconcat and bconcat (values joined with a space '
      'or with nothing); the result does not depend on how the document was made (rows, Lines, CSV, columns, elided '
      'rows, API, Declare row or decl argument), and converting changes nothing. Likewise, flatten() lists every leaf of a nested '
      'structure once, with its path, in order.',
      ['inputs', 'configurations'], 'all documents and declarations of types and value names',
      'Tests compare the dicts of two or three example files; combinations of declared types, repetition, nesting and origin are unbounded.',
      ['metatab/terms.py', 'metatab/doc.py', 'metatab/util.py'],
      [('Term._convert_to_dict', 'metatab/terms.py'), ('MetatabDoc.as_dict', 'metatab/doc.py'), ('flatten', 'metatab/util.py')],
      ['doc.as_dict(), section.as_dict(), term.as_dict(), metatab.util.flatten'],
      'generated documents and declarations, made in 9 ways, against a model of the conversion',
      'Independent model of the conversion in vlib/decl.py; concatenated terms have no children in the domain.'),
    P('C07', 'Declarations apply to every term that they declare',
      'Whether declarations come from a Declare row (by path, or by the name of a file beside the document, with or without '
      'extension) or from the decl argument, each declared root term and child gets its declared value name, child property '
      'type and section, however it is written and with names compared without case; synonyms are replaced by the term they '
      'stand for; a term that inherits from another gets declarations for the children of its base, and is found by the '
      'name of its base; and sections without columns of their own use the declared ones, also in the rest of a document after a Declare row. Where declarations of '
      'the same term or section disagree, the last one holds. Terms of the declaration document are never part of the '
      'document. A declaration that cannot be found, that refers to an undeclared section, or that inherits without a '
      'section, is an error.',
      ['inputs', 'configurations'], 'all declarations and documents that use them',
      'Tests use the one published declaration and check a few of its terms.',
      ['metatab/parser.py', 'metatab/doc.py', 'metatab/resolver.py'],
      [('TermParser.manage_declare_terms, add_declared_term, inherited_children, synonyms', 'metatab/parser.py'),
       ('MetatabDoc.load_declarations', 'metatab/doc.py')],
      ['Term.term_value_name, child_property_type, valid, doc.decl_terms, doc.decl_sections, doc.find'],
      'generated declarations and documents, loaded in 6 ways, against a model of the declarations',
      'Model of sections, synonyms, two levels of inheritance; value sets are not covered.'),
    P('C08', 'Include puts the rows of a document in place of the Include row',
      'A document with Include rows has the same terms, values, sections and nesting as if the rows of each included file '
      'were written in place of the Include row, at any depth of includes and for paths relative to the file that '
      'includes them; after the Include, the section that was open before it, with its columns, is open again, and terms have the number of the row in their own file. An include '
      'of a file that does not exist, or of a file that is already being included, is an IncludeError and never a document with '
      'missing rows or an endless loop.',
      ['inputs', 'histories'], 'all trees of up to six CSV files in several directories',
      'The include test needs the network, and uses one fixed chain of files.',
      ['metatab/parser.py', 'metatab/resolver.py'],
      [('TermParser.generate_terms', 'metatab/parser.py'), ('TermParser.find_include_doc', 'metatab/parser.py')],
      ['MetatabDoc(path)'],
      'generated trees of files, against the reference interpreter on the expanded rows',
      'CSV files on the local file system only.'),
    P('C09', 'find returns exactly the terms that match',
      'find, find_first, find_value(s), get and the find methods of sections and terms return exactly the terms that match '
      'the query, each once for each name asked for, in document order, and nothing that was not asked for: the query may be a name, Parent.Child, '
      'a * in either place, or a list or tuple of these, without regard to case, limited to a section or list or tuple of sections, to a '
      'value, and to properties; find_first returns the first of them, or None (or the default). If terms are declared to '
      'inherit, the name of a base term also finds the terms derived from it; finding changes nothing.',
      ['inputs'], 'all documents and queries',
      'Tests run a few queries on two example documents.',
      ['metatab/doc.py', 'metatab/terms.py'],
      [('MetatabDoc.find, find_first, find_first_value', 'metatab/doc.py'), ('SectionTerm.find, Term.find, Term.term_is', 'metatab/terms.py')],
      ['doc.find*, section.find*, section.get_term, term.find*, term_is'],
      'generated documents and queries, against brute force over the reference model',
      'For base terms with derived terms the order of what is found is not compared.'),
    P('C10', 'Every history of edits leaves a consistent document with just those edits',
      'After any sequence of edits with the API (new_term, get_or_new_term, set_terms, new_child, get_or_new_child, setting '
      'and deleting properties and values, adding, getting and deleting sections, moving terms to other sections, removing terms and children, deleting terms by name, '
      'cleaning a section, adding and removing columns, loading rows, writing and reading back) the document holds '
      'exactly the terms that the edits say, in order, and everything else is unchanged. Section and term names are '
      'compared without case. After every step each term has one parent, section and document, which list it once; what was '
      'removed cannot be found, and everything that is there can be found and written.',
      ['histories', 'programs'], 'all histories of 26 kinds of edit on empty and parsed documents',
      'Tests make one or two edits; the bookkeeping in the document, the sections and the terms can only diverge over histories.',
      ['metatab/doc.py', 'metatab/terms.py'],
      [('MetatabDoc.add_term, remove_term, new_section, get_or_new_section, __delitem__', 'metatab/doc.py'),
       ('SectionTerm.new_term, get_or_new_term, set_terms, remove_term, __delitem__; Term.new_child, get_or_new_child, remove_child, __setitem__', 'metatab/terms.py')],
      ['iteration over the document, doc.terms, find, as_csv, as_lines'],
      'model-based generation of edit histories, compared with a model after every edit',
      'Histories of up to 14 (and 54) edits with invariant checks after each.'),
    P('C11', 'All ways to read and set a property agree, without regard to case',
      'For any term, each property can be read by item, get, get_value, find_first, attribute, in, props and all_props, with '
      'the name in any case, and all of these give the same property: the first one with that name (the last one in the '
      'dictionaries); a missing property is a KeyError, AttributeError, None or the given default. The value can be read '
      'and set as value, @value or by its declared value name. Setting a property by item, get_or_new_child, or attribute '
      '(for the columns of the section) changes that property only, or creates it if it is missing; setting it to None '
      'removes the first one with that name; other attributes never become properties.',
      ['inputs', 'histories'], 'all terms, properties and short sequences of changes',
      'Tests read a few properties of one term.',
      ['metatab/terms.py'],
      [('Term.__getitem__, __setitem__, get, get_value, __getattr__, __setattr__, __contains__, props, all_props', 'metatab/terms.py')],
      ['the accessors of Term'],
      'generated terms and changes; every accessor is compared with a model after each change',
      'Names that are attributes of the Term class are read by item only.'),
    P('C12', 'Sorting sections and terms only changes their order',
      'sort_sections() puts the named sections first, in the order given and without regard to case, and keeps the other '
      'sections in their order; sort_by_term() orders the terms of a section by their qualified name, or by a list of '
      'names first and then by qualified name, where terms that sort the same keep their order. Sorting loses, adds or changes '
      'nothing, names that are not there are ignored, and the sorted document writes and reads back in its new order.',
      ['inputs', 'histories'], 'all documents and orders',
      'No test sorts more than one fixed document.',
      ['metatab/doc.py', 'metatab/terms.py'],
      [('MetatabDoc.sort_sections', 'metatab/doc.py'), ('SectionTerm.sort_by_term', 'metatab/terms.py')],
      ['iteration over the document and its sections, as_csv'],
      'generated documents and orders, against a stable sort of the model',
      'Up to four sorts of a document, written and read back.'),
    P('C13', 'The name of a document is made from its identity terms, and only from them',
      'update_name() sets Root.Name to the slugs of Origin, Dataset, Time, Space, Grain, Variant and Version of the Root '
      'section, in that order and joined with dashes, leaving out blank ones; with no Dataset it keeps an existing name, and '
      'uses the identifier for a blank one; it creates a Name term only if asked to. It reports the change or, if asked to, '
      'that there was none, doing it again changes nothing, and an identifier (a UUID) is made only if there is none; '
      'terms of other sections, children, and the order of the terms make no difference, and nothing else in the document '
      'changes. Every slug has only lower case letters, digits, dots, dashes and underscores, and is its own slug.',
      ['inputs'], 'all values and orders of the identity terms',
      'Tests update the names of two fixed documents.',
      ['metatab/doc.py', 'metatab/util.py'],
      [('MetatabDoc.update_name, _generate_identity_name, ensure_identifier, cleanse', 'metatab/doc.py'), ('slugify', 'metatab/util.py')],
      ['doc.update_name(), Root.Name, Root.Identifier, slugify'],
      'generated identity terms, against a model of the name',
      'Independent reference for slugs and names.'),
    P('C14', 'Versions: as_version changes nothing, update_name changes just the version',
      'For plain and semantic (Major, Minor, Patch and Build) versions: as_version() gives the name with the version kept '
      '(False), left out (None), set to a text, or raised or lowered by a number (+, -, +n, -n; for a semantic version this '
      'is the patch), and leaves the document exactly as it was; update_name() with the same request stores the new version '
      'and its parts, and makes the same name. Version arithmetic on a version that is not a number is a MetatabError and '
      'changes nothing. The text of a semantic version is its parts joined with dots.',
      ['inputs', 'histories'], 'all versions and sequences of requests',
      'Tests run a few requests on one document, in one order.',
      ['metatab/doc.py'],
      [('MetatabDoc.as_version, update_version, update_name, _generate_identity_name', 'metatab/doc.py')],
      ['doc.as_version(), doc.update_version(), doc.update_name(), Root.Version'],
      'generated versions and request sequences, against a model of the version',
      'Complete semantic versions for the arithmetic; incomplete ones only for purity.'),
    P('C15', 'Writing a file writes the whole document, to that file only',
      'write(), write_csv() and write_lines() to a path, URL or the document\'s own file leave a file that holds exactly '
      'as_csv() or as_lines() of the document, with its identifier and updated name, whatever was in the file before, and '
      'that reads back as the document; no other file changes, and writing again gives the same file. A wrong extension or a web URL is '
      'refused without changing any file or the document, and a write that fails raises an error.',
      ['inputs', 'histories', 'fault_sequences'], 'all documents, files and sequences of writes and edits',
      'Tests write one document to one new file.',
      ['metatab/doc.py'],
      [('MetatabDoc.write, write_csv, write_lines, _write, cleanse', 'metatab/doc.py')],
      ['files in a scratch directory, doc.as_csv(), doc.as_lines()'],
      'generated sequences of writes, edits and reads, with the whole directory compared before and after each',
      'Local files; faults are missing directories and directories in place of files.'),
    P('C16', 'Cleaning the schema and changing columns never lose content',
      'clean_unused_schema_terms() removes only the blank properties of table columns, and makes the columns of the Schema '
      'section the properties that its table columns use; add_arg() and remove_arg() add or remove one column name, '
      'without regard to case, once. After any of these, every term, property and value of the document is as it was, the other sections '
      'keep their columns, and the document still writes and reads back the same.',
      ['inputs', 'histories'], 'all schemas and sequences of column changes',
      'No test has a schema with unused, missing or blank columns.',
      ['metatab/doc.py', 'metatab/terms.py'],
      [('MetatabDoc.clean_unused_schema_terms', 'metatab/doc.py'), ('SectionTerm.add_arg, remove_arg', 'metatab/terms.py')],
      ['section.args, doc tree, as_csv'],
      'generated schemas and column changes, with the content compared before and after',
      'Content invariants with round trips.'),
    P('C17', 'A datapackage has every Datafile with its table, and nothing else',
      'convert_to_datapackage() gives the root terms (and those of an Identity section, which replace root terms of the same name), a name (the identifier if there is '
      'no Name; no name is a ConversionError), and one resource for each Datafile whose name or Table property names '
      'a table of the schema, in order, with its path, name and that table\'s columns, in order, as fields with name, '
      'title, description and type (str, text and unicode are string, int is integer, float is number, others are unchanged). The '
      'result does not depend on whether properties are in columns or child rows, in CSV, Lines or the API, and the document '
      'does not change. A document without a Schema is refused.',
      ['inputs', 'configurations'], 'all documents with resources and schemas',
      'The only test converts one document and prints it.',
      ['metatab/datapackage.py'],
      [('convert_to_datapackage, convert_schema', 'metatab/datapackage.py')],
      ['convert_to_datapackage(doc)'],
      'generated resources and schemas, made in 6 ways, against a model of the datapackage',
      'Datafiles have a name and tables have a column, in the domain.'),
    P('C18', 'Terms get the class that is registered for them',
      'Every term that is read or made with the API has the class that was last registered for its qualified name, without '
      'regard to case, given as a class or dotted name, or else the one for the term it is declared to inherit from, or '
      'else Term; after unregistering it is as before. This holds for root terms and children, for any history '
      'of registrations, and a term of a registered class reads, writes and nests like any other.',
      ['histories', 'inputs'], 'all histories of registrations and documents',
      'One test registers one class for one parse.',
      ['metatab/parser.py', 'metatab/doc.py', 'metatab/terms.py'],
      [('TermParser.register_term_class, unregister_term_class, get_term_class', 'metatab/parser.py'), ('MetatabDoc.get_term_class', 'metatab/doc.py')],
      ['type(term), doc.get_term_class'],
      'generated histories of registrations and documents, against a model of the registry',
      'Terms in property columns and elided rows are outside the domain.'),
    P('C19', 'The metatab program prints and writes what the API gives',
      'metatab with a file, package directory or nothing (metadata.csv) prints the document as CSV, Lines, JSON or YAML, '
      'lists its terms, or finds a value, and the output holds exactly what the API gives for that document; with -W it '
      'writes that to the file of the same name with the extension of the format, and no other. Printing changes '
      'no file. -C creates a file from a template and never overwrites one; -d prints the declarations; a file that does not '
      'exist is an error.',
      ['inputs', 'configurations'], 'all documents and combinations of flags',
      'There are no tests of the program.',
      ['metatab/cli.py', 'metatab/doc.py', 'metatab/util.py'],
      [('metatab, dump_resource, create', 'metatab/cli.py'), ('make_metatab_file', 'metatab/util.py')],
      ['standard output, exit code and files of metatab.cli.metatab()'],
      'differential testing of the program against the API on generated documents',
      'Runs in process and in a scratch directory; directories are compared before and after.'),
    P('C20', 'A Metatab URL means one file, and keeps meaning it',
      'A reference with the metatab protocol names the file with a known extension (csv, txt, ipynb, zip, xlsx), or else '
      'metadata.csv in that package directory; ZIP packages have metadata.csv as their target and spreadsheets meta. '
      'Path, scheme, host, query, resource and target file and format agree with that for relative, absolute, file, web and S3 references, '
      'also after printing and parsing the URL, cloning it, and getting the resource; join_target() names files beside '
      'the metadata or in the ZIP; the document that is read from a URL is in the file it names, and a URL without a file does not exist.',
      ['inputs'], 'all references',
      'Tests parse a handful of URLs.',
      ['metatab/appurl.py'],
      [('MetatabUrl', 'metatab/appurl.py')],
      ['parse_app_url(ref, proto="metatab") and its properties, MetatabUrl.doc'],
      'generated references, against a model of the resolution, and metamorphic relations between forms',
      'Web references are parsed, never opened.'),
    P('C21', 'Reading is pure and documents do not affect each other',
      'Reading, finding, converting and serializing a document never change it, its input rows or its declarations, and give '
      'the same answer each time; documents made from the same rows, files or declarations share no state: edits of one are never '
      'seen in another, or in documents made later, in any order or interleaving, also when two documents are parsed at '
      'the same time in two threads.',
      ['histories', 'schedules'], 'all sequences of reads and edits over several documents',
      'Tests make one document at a time.',
      ['metatab/doc.py', 'metatab/parser.py', 'metatab/terms.py'],
      [('MetatabDoc, TermParser state, caches of super_terms', 'metatab/parser.py')],
      ['all public reads, documents made from the same source'],
      'generated histories over several documents, with complete state comparison, and generated schedules',
      'State is what the public interface shows.'),
    P('C22', 'A YAML file makes the document that it describes',
      'A YAML mapping read as a document has a term for each key, for each element of a list, and for each nested mapping '
      'with children for its keys, at any depth; a mapping holds the value of its term under its declared value name or '
      '@value. Each root term is in the section that is declared for it, or in Root, in the order of the file, and the document '
      'converts to the same dict, under the declarations named by the declare key (or metatab-latest).',
      ['inputs'], 'all mappings of terms, with declarations',
      'There is no test for YAML.',
      ['metatab/rowgen.py'],
      [('YamlMetatabSource', 'metatab/rowgen.py')],
      ['MetatabDoc("x.yaml")'],
      'generated YAML documents, against the term tree they were made from',
      'Names are unique in a path; six standard sections.'),
    P('C23', 'Numbers and dates as values mean the same as their text',
      'A document with integers (zero, too), floats, dates or True as values, from typed rows or from the API (new_term, new_child, '
      'set by item or as value), has the same terms, properties, CSV, Lines and (as text) dicts as the one with the text of '
      'those values, and reads back as that; numbers as names of terms, sections and columns mean their text, too, and cleaning the '
      'schema keeps them.',
      ['inputs'], 'all documents with typed values',
      'Tests have text values only.',
      ['metatab/terms.py', 'metatab/doc.py', 'metatab/parser.py'],
      [('Term.__init__, new_child, _convert_to_dict, SectionTerm.lines', 'metatab/terms.py')],
      ['as_csv, as_lines, as_dict, props'],
      'metamorphic: each document against the same document with text values',
      'Lists, mappings and False are not values.'),
    P('C24', 'Malformed input is refused with an error, and all other input is read',
      'Any rows of text, numbers and None, any Lines or CSV text, and any declarations, either make a document that can be '
      'searched, converted and written, or are refused with a MetatabError; reading never ends with some other exception, and never '
      'skips what it cannot read. A ParserError that names the row refuses just these rows: names with more than one dot or with '
      'nothing after the dot, the reserved name Root, Section, Include and Declare without a value, a Section with an elided parent at the root level, and '
      'Parent.Child without a previous Parent. Declarations with such names, or without a name, are a DeclarationError.',
      ['inputs'], 'all row sequences, texts and declarations',
      'Tests read well formed files, and one with a bad declaration.',
      ['metatab/parser.py', 'metatab/rowgen.py', 'metatab/exc.py'],
      [('TermParser.generate_terms, validate_row, add_declared_term', 'metatab/parser.py'), ('TextRowGenerator', 'metatab/rowgen.py')],
      ['MetatabDoc(...), load_rows and the exceptions they raise'],
      'fuzzing with malformed rows and token sequences, against the reference interpreter',
      'Text that is valid Unicode, without NUL; children named Section, and declarations of Root, are outside the domain.'),
    P('C25', 'Documents, includes and declarations on the web mean what local ones mean',
      'A document that is read by http URL, as a CSV file, by metatab+http URL as a package directory, a ZIP package, or a CSV or Lines file, '
      'or by URL object, has exactly the sections, terms, values and row numbers that the same rows have in memory. An '
      'Include row with an absolute http URL, in a local or web document, at any depth and in any section, puts the rows of that document in its place; a '
      'declaration by http URL, in a Declare row or the decl argument, does what the same declaration in a file does. '
      'Includes and declarations that the server does not have, and loops of includes, are an IncludeError. A document from the web cannot be '
      'written without a path or to a web URL, which is refused with a MetatabError and changes nothing, but it can be written to a file.',
      ['inputs', 'configurations'], 'all documents, trees of includes and declarations, by all forms of web URL',
      'Tests that use the web need a network and fixed sites, and read one document each.',
      ['metatab/parser.py', 'metatab/appurl.py', 'metatab/doc.py'],
      [('TermParser.find_include_doc, find_declare_doc', 'metatab/parser.py'), ('MetatabUrl.get_resource, get_target', 'metatab/appurl.py'), ('MetatabDoc._write_path', 'metatab/doc.py')],
      ['MetatabDoc(url), Include and Declare rows, doc.write*'],
      'generated documents on a loopback web server, against the same documents from memory and files',
      'A web server on the loopback interface; relative includes in web documents are outside the domain (they are looked for in the download cache).'),
    P('C26', 'Helpers for files copy, digest and find exactly what is there',
      'util.md5_file gives the MD5 digest of the whole content of a file of any size, and None if there is no such file. util.copytree '
      'copies every file and directory, with its content, into the target, without changing the source or '
      'what else the target has. util.walk_up yields the directory and then each of its parents up to the root, with exactly '
      'their directories and files. util.make_dir_structure and ensure_dir make the directories that are missing, keep '
      'what there is, and refuse (make_dir_structure, with an IOError) a file in the place of a directory.',
      ['inputs'], 'all files and directory trees',
      'No test uses them.',
      ['metatab/util.py'],
      [('md5_file, copytree, walk_up, make_dir_structure, ensure_dir', 'metatab/util.py')],
      ['the results, and the scratch directory'],
      'generated directory trees and files, compared with the generated content',
      'All in a scratch directory; files up to four blocks.'),
]


def main():
    done = [p for p in PROPS if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in done:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3 run.py --self-test', checks=[
        dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
             thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
             evidence_file='evidence/%s.json' % p['id'], technique=TECH + p['technique'], level='exploration',
             level_note=p['note']) for p in done],
        not_applicable=[],
        notes='No hooks are needed: all checks use the public interface of /repo\'s working tree. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    for p in done:
        assert len(p['title']) <= 80, p['title']
        print(p['id'], len(p['statement'].split('. ')), p['title'])


main()
