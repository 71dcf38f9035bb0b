"""Writes properties.jsonl (run by hand after editing)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)


p('C01', 'Term names are normalised and matched exactly, whatever their case',
  'A term name is split at its dot into a parent name and a record name with surrounding whitespace removed; without a dot the parent is the root, and with an empty parent it is the elided parent. '
  'Normalised and joined names keep exactly those two parts. A term matches a name pattern, or a list of patterns, exactly when each part of some pattern is equal to the part of the term ignoring case or is the wildcard *, an unqualified pattern meaning a child of the root.',
  ['inputs'], 'every name with at most one dot and every pattern or list of patterns',
  'The tests compare names from a few example files; names are arbitrary Unicode text, and a slip in splitting, stripping or case folding shows only for some of them.',
  ['metatab/terms.py'],
  [('name splitting', 'metatab/terms.py Term.split_term, split_term_lower, normalize_term'), ('joined names', 'metatab/terms.py Term.join, join_lc, record_term_lc, parent_term_lc'),
   ('pattern match', 'metatab/terms.py Term.term_is')], observe=['Term.term_is', 'Term.join', 'Term.normalize_term'])

p('C02', 'Every line of a line-format text becomes exactly the right row',
  'Reading a line-format text yields one row for each line that is neither blank nor a comment, in order: the term name before the first colon, then one cell for each part of the rest of the line between unescaped pipes, surrounding whitespace aside; a line without a colon is a row of one cell. '
  'Colons after the first one and escaped pipes are kept as text, and a line that starts with four or more equal signs is a Section row for the text after them. The text may be given as a string, an open file or a path, and reading it again gives the same rows.',
  ['inputs'], 'every text in the line format, given as text, as lines or in a file',
  'The tests read two fixed files; text is unbounded and the separators, escapes, comments and blank lines interact.',
  ['metatab/rowgen.py'], [('line splitting', 'metatab/rowgen.py TextRowGenerator.__iter__'), ('text loading', 'metatab/rowgen.py TextRowGenerator.__init__, path')],
  observe=['rows from TextRowGenerator'])

p('C03', 'Parsing turns rows into exactly the terms, values and children they describe',
  'Parsing rows creates one term per row with a name, in row order and in the section it appears in, with the value of the row; each non-empty further cell becomes a child named by the column of the section at that position, nothing else becomes one, and repeated sections with the same name are one section. '
  'A row with a qualified name becomes a child of the latest preceding term with the parent name, a row with an elided parent belongs to the latest term whose name was not elided, and comment, section, header and blank rows create no terms in the result. '
  'A row refers only to terms of its own document, whichever documents were parsed before.',
  ['inputs'], 'every sequence of rows: sections with or without columns, headers, ragged rows, blank cells, qualified and elided names',
  'The tests parse example files and compare a handful of counts; the parser carries state from row to row, so errors depend on sequences of rows.',
  ['metatab/parser.py', 'metatab/doc.py', 'metatab/terms.py'],
  [('row to term', 'metatab/parser.py TermParser.__iter__, generate_terms'), ('parent tracking', 'metatab/parser.py TermParser last_term_map'), ('loading', 'metatab/doc.py MetatabDoc.load_terms')],
  observe=['terms, children, sections of a document'])

p('C04', 'Searches return exactly the matching terms, in document order',
  'Searching a document or a section by name pattern, list of patterns, value, section or section list and property values returns exactly the terms that satisfy all the given criteria, in document order and for a list pattern by pattern; finding the first gives the first of these or nothing, and finding the first value gives its value. '
  'Searching the children of a term by name and value likewise returns exactly its matching children in order. Searching changes nothing, and a search in a section that does not exist finds nothing.',
  ['inputs', 'histories'], 'every document, pattern, value, section filter and property filter',
  'The tests search a few fixed documents for terms known to be there; they do not check that nothing else is returned or every combination of filters.',
  ['metatab/doc.py', 'metatab/terms.py'],
  [('document search', 'metatab/doc.py MetatabDoc.find, find_first, find_first_value, get'), ('section search', 'metatab/terms.py SectionTerm.find, find_first'), ('child search', 'metatab/terms.py Term.find, find_first')],
  observe=['results of searches'])

p('C05', 'Reading a property gives the last value written; a write changes nothing else',
  'After a property of a term is set, by item or by attribute and in any case, reading it by item, by attribute or by value gives that value; after it is removed it is absent, and setting or reading one property never changes another property or another term. '
  'A property is found by its name ignoring case, an absent property is reported as absent (a missing item, a default, or no value), and testing for one agrees with reading it. '
  'The list of properties of a term holds exactly the values of its children and of its own value name.',
  ['inputs', 'histories'], 'every term and every sequence of reads, writes and removals of its properties',
  'The tests set and read a couple of properties once; the guarantee is about sequences of operations, arbitrary names and the terms that were not touched.',
  ['metatab/terms.py'],
  [('item access', 'metatab/terms.py Term.__getitem__, __setitem__, __delitem__, __contains__'), ('attribute access', 'metatab/terms.py Term.__getattr__, __setattr__'),
   ('property lists', 'metatab/terms.py Term.props, all_props, get, get_value, get_or_new_child, remove_child')], observe=['property values of terms'])

p('C06', 'Every term of a document is in exactly one section after any sequence of edits',
  'After any sequence of creating, adding, moving and removing terms and sections, every top-level term of the document is in exactly one section, its own, exactly once, and every term in a section is a term of the document. '
  'Removing a term or a section removes exactly the terms named, creating a term adds exactly that term and its properties at the end of its section, and get-or-create finds the existing term when there is one. '
  'No edit touches another document.',
  ['histories', 'inputs'], 'every sequence of edit operations on every document',
  'The tests add a few terms to one document; membership is kept in two places that only stay consistent if every operation updates both.',
  ['metatab/doc.py', 'metatab/terms.py'],
  [('document list', 'metatab/doc.py MetatabDoc.add_term, remove_term, add_section'), ('section list', 'metatab/terms.py SectionTerm.add_term, new_term, get_or_new_term, set_terms, remove_term, clean, __delitem__'),
   ('moving', 'metatab/terms.py SectionTerm.move_term, Term.set_ownership')], [('terms', 'the terms of the document in order', 'MetatabDoc.terms'), ('sections', 'sections by lower case name', 'MetatabDoc.sections')],
  ['terms of a document and of its sections'])

p('C07', 'Sections are unique by name ignoring case and keep their order and columns',
  'A section is found, tested for, and fetched-or-created by its name in any case, and there is never more than one section for a name; looking up an absent section is an error and looking one up never creates it. '
  'Sections are listed in the order they were created until they are sorted, and sorting by a list of names puts the named sections first in that order without losing, adding or changing any. '
  'Deleting a section removes it and its terms only, and adding or removing a column changes only that column, ignoring case, and never duplicates one.',
  ['histories', 'inputs'], 'every sequence of section operations on every document',
  'The tests look up a few sections of example files in the case in which they were written.',
  ['metatab/doc.py', 'metatab/terms.py'],
  [('section map', 'metatab/doc.py MetatabDoc.get_section, get_or_new_section, new_section, __contains__, __getitem__, __delitem__, sort_sections, __iter__'),
   ('columns', 'metatab/terms.py SectionTerm.add_arg, remove_arg, args, property_names')], observe=['sections of a document'])

p('C08', 'Conversion to plain data is complete and follows the declared property types',
  'Converting a document, section or term to plain data includes the value of every term under its lower case record name, and nothing else. '
  'Terms declared as sequences become lists in document order, declared scalars keep the last value, concatenated text properties are joined in order, and otherwise one term gives a single value and several with the same name give a list; a term with both a value and children carries its value under its declared value name. '
  'Conversion does not change the document, and converting again gives an equal result.',
  ['inputs'], 'every document under every declaration of property types',
  'The tests compare the conversion of fixed files with stored JSON; the rules depend on combinations of declared types, repetition and nesting.',
  ['metatab/terms.py', 'metatab/doc.py'],
  [('term conversion', 'metatab/terms.py Term.as_dict, _convert_to_dict'), ('document conversion', 'metatab/doc.py MetatabDoc.as_dict; metatab/terms.py SectionTerm.as_dict, RootSectionTerm.as_dict')],
  observe=['the result of as_dict'])

p('C09', 'Writing a document and reading it back loses and invents nothing',
  'Writing a document as rows, as CSV text or as line-format text and reading the result gives the same sections in the same order with the same columns (the line format has none for the root section), and the same terms in the same order with the same names, values, properties and children, the order of the properties of one term and properties without a value aside. '
  'This holds for documents as read and after edits. Writing does not change the document, and writing again gives the same text.',
  ['inputs', 'histories'], 'every document built by reading or editing, in all three formats',
  'The tests write documents but do not read them back and compare, and the losses depend on column sets, repeated properties, nesting and special characters.',
  ['metatab/doc.py', 'metatab/terms.py', 'metatab/rowgen.py'],
  [('rows', 'metatab/terms.py Term.rows, SectionTerm.rows, RootSectionTerm.rows, _args; metatab/doc.py MetatabDoc.rows, as_csv'), ('lines', 'metatab/doc.py MetatabDoc.lines, as_lines; metatab/terms.py SectionTerm.lines')],
  observe=['rows, CSV text and lines of a document, and what they parse to'])

p('C10', 'Identity names and versions are built from exactly the identity terms',
  'The generated name of a document is made of the origin, dataset, time, space, grain, variant and version that the root section has, in that order, each reduced to a slug with blank and absent parts left out; updating the name sets it to that when the root section has a dataset, and otherwise keeps a name that is there and fills an empty one with the identifier. '
  'The version is its major, minor, patch and build parts joined by dots when it has them and otherwise its value; a name for a shifted, other or no version is the name with exactly that version, and computing one leaves the document unchanged. '
  'A slug has only ASCII lower case letters, digits, underscores, periods and single hyphens, and the slug of a slug is itself.',
  ['inputs'], 'every combination of present, blank and absent identity terms, versions, version shifts and text',
  'The tests build a handful of names from one file; combinations of parts and version shifts are many.',
  ['metatab/doc.py', 'metatab/util.py'],
  [('names', 'metatab/doc.py MetatabDoc._generate_identity_name, update_name, as_version'), ('versions', 'metatab/doc.py MetatabDoc._has_semver, update_version'), ('slugs', 'metatab/util.py slugify')],
  observe=['names and versions of a document'])

p('C11', 'Declarations decide names, types, sections and columns exactly as declared',
  'Terms of a document get the value name and property type declared for them, and only for them; sections without columns of their own get the declared columns when they are made after the declaration, synonyms stand for the declared name, and a term that inherits gets the declared children of what it inherits from and is found by searches for it. '
  'A term whose name has a registered class is made with that class. Declarations come from the declaration files that a document names in Declare rows or is created with, apply in order with later ones winning, and never leak into documents that do not name them.',
  ['inputs', 'histories'], 'every declaration file, document, and order of loading documents',
  'The tests load one declaration set; inheritance, redeclaration, synonyms and isolation between documents are not varied.',
  ['metatab/parser.py', 'metatab/doc.py', 'metatab/terms.py'],
  [('declaration parsing', 'metatab/parser.py TermParser.install_declare_terms, manage_declare_terms, add_declared_term, add_declared_section, synonyms, declare_dict'), ('inheritance', 'metatab/parser.py TermParser.inherited_children, super_terms'),
   ('classes', 'metatab/parser.py TermParser.get_term_class, register_term_class'), ('columns and derived names', 'metatab/doc.py MetatabDoc.section_args, derived_terms, super_terms')],
  observe=['value names, types, columns and classes of terms'])

p('C12', 'Written files hold exactly the document, and wrong targets are refused untouched',
  'Writing a document to a CSV or text file creates a file that reads back as the document with the name and identifier that writing sets, whatever the file held before, and touches no other file. '
  'Writing to a target that is not a local file, or whose extension is not that of the format, is refused with no file created or changed. '
  'The create command never changes a file that exists, and creates one that reads as a valid document when it does not.',
  ['inputs', 'histories', 'configurations'], 'every document, target name and prior content of the target',
  'The tests write to one path; wrong extensions, existing files and sequences of writes are not tried.',
  ['metatab/doc.py', 'metatab/cli.py'],
  [('target guard', 'metatab/doc.py MetatabDoc._write_path, write, write_csv, write_lines'), ('creation', 'metatab/cli.py new_metatab_file, make_metatab_file')],
  observe=['files of a directory before and after'])

p('C13', 'Included files are spliced in place and failures are reported as include errors',
  'A document that includes files has the terms of each included file at the place of the include, resolved relative to the file that includes it, to any depth and however often. '
  'A missing file, or a file that includes itself directly or through others, is reported as an include error that names it, never as another exception, an endless load or silent loss. '
  'Declaration files are found beside the document, by path, with or without extension, and the section and columns in force at an include are in force again after it.',
  ['inputs', 'fault_sequences'], 'every tree of files including one another, with missing files and loops',
  'The tests include one file that exists; nesting, repetition, loops and missing files in combination are not covered.',
  ['metatab/parser.py', 'metatab/resolver.py', 'metatab/exc.py', 'metatab/doc.py'],
  [('include handling', 'metatab/parser.py TermParser.generate_terms, find_include_doc, find_declare_doc'), ('errors', 'metatab/exc.py; metatab/parser.py errors_as_dict'), ('resolution', 'metatab/resolver.py WebResolver.get_row_generator')],
  observe=['terms and errors of the loaded document'])

p('C14', 'A datapackage holds every data file with exactly its own schema',
  'For a document with the standard declarations, converting it to a datapackage gives the root properties of the document and one resource for each data file that has a table, in order, with its name, its path, and one field for each column of the table with its name (or else of the table it refers to), in order, with its name, mapped type, title and description. '
  'The package name is the name of the document or else its identifier, and absent titles and descriptions are left out. '
  'A document with neither, without a schema, or with a table without columns is refused with a conversion error, and conversion does not change the document.',
  ['inputs'], 'every document with any set of tables, columns and data files',
  'No test converts a document; the output depends on combinations of present and absent properties.',
  ['metatab/datapackage.py'], [('conversion', 'metatab/datapackage.py convert_to_datapackage')], observe=['the result of convert_to_datapackage'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
