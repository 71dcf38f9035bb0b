bug('C01-parent-substring', 'C01', (T, "elif v_r == '*' and v_p == self.parent_term_lc:", "elif v_r == '*' and v_p in self.parent_term_lc:"),
    'a pattern Parent.* whose parent name is part of another parent name', 'the wildcard pattern matches terms of other parents',
    '''
t = Term('Subtable.Column', 'x')
assert not t.term_is('Table.*')
assert not Term('Datatable.Column', 'x').term_is('Data.*')
assert Term('Table.Column', 'x').term_is('table.*')
''')
bug('C01-trailing-space', 'C01', (T, "parent_term, record_term = parent_term.strip(), record_term.strip()", "parent_term, record_term = parent_term.strip(), record_term.lstrip()"),
    'a qualified term name with trailing whitespace', 'the record name keeps trailing whitespace and does not match',
    '''
assert Term.split_term('Table.Column ') == ('Table', 'Column')
assert Term('Table.Column ', 'x').term_is('Table.Column')
''')
bug('C02-rule-anywhere', 'C02', (G, "if row.startswith('===='):", "if '====' in row:"),
    'a value with a run of four equal signs', 'the row becomes a Section row',
    '''
assert [list(r) for r in TextRowGenerator('Title: a ==== b\\nName: x\\n')] == [['Title', 'a ==== b'], ['Name', 'x']]
''')
bug('C02-unescape-once', 'C02', (G, "e.replace('\\|','|') for e", "e.replace('\\|','|',1) for e"),
    'two escaped pipes in one cell', 'the second escaped pipe keeps its backslash',
    '''
assert [list(r) for r in TextRowGenerator('Title: a \\\\| b \\\\| c\\nName: x\\n')][0] == ['Title', 'a | b | c']
''')
bug('C03-parent-across-sections', 'C03', (P, "                    last_parent_term = self.root.record_term\n", "                    pass\n"),
    'a section row followed at once by a row with an elided parent or arguments', 'the row becomes a child of a term of the previous section',
    '''
d = mk(['Section', 'A'], ['Foo', '1'], ['Section', 'B'], ['.Bar', '2'])
assert not d['A'].terms[0].children, d['A'].terms[0].children
''')
bug('C03-blank-column', 'C03', (P, "return [p.lower() if p else i for i, p in enumerate(t.args)]", "return [p.lower() for p in t.args if p]"),
    'a section row with a blank column before a named one', 'cells get the name of another column',
    '''
d = mk(['Section', 'A', 'One', '', 'Three'], ['Foo', 'v', '1', '', '3'])
assert d['A'].terms[0].props == {'one': '1', 'three': '3'}, d['A'].terms[0].props
''')
bug('C04-root-prefix', 'C04', (D, "if term.startswith('root.'):\n                term_gen", "if term.startswith('root'):\n                term_gen"),
    'a search for the children of a term whose name starts with root', 'the children are not found',
    '''
d = mk(['Section', 'A'], ['Rootstock', '1'], ['Rootstock.Kind', 'x'])
assert [t.value for t in d.find('Rootstock.Kind')] == ['x']
''')
bug('C04-falsy-value', 'C04', (D, "and (value is False or value == t.value)", "and (not value or value == t.value)"),
    'a search for terms without a value', 'terms with any value are returned',
    '''
d = mk(['Section', 'A'], ['Foo', ''], ['Foo', 'x'])
assert [t.value for t in d.find('Root.Foo', value=None)] == [None]
''')
bug('C05-falsy-child-value', 'C05', (T, "            if value is not False:\n                c.value = value\n", "            if value:\n                c.value = value\n"),
    'an existing property is set to an empty text', 'the property keeps its old value',
    '''
d = mk(['Section', 'A'], ['Foo', 'v'], ['Foo.Bar', 'old'])
t = d['A'].terms[0]
t.get_or_new_child('Bar', '')
assert t['bar'].value == '', t['bar'].value
''')
bug('C05-value-name-case', 'C05', (T, "        if item.lower() == self.term_value_name.lower():\n            return self\n", "        if item == self.term_value_name.lower():\n            return self\n"),
    'a term read by its value name in another case', 'the value is not found by its name',
    '''
d = mk(['Section', 'A'], ['Header', 'Label'], ['Foo', 'v'])
t = d['A'].terms[0]
assert t['label'].value == 'v' and t['Label'].value == 'v' and t.get_value('LABEL') == 'v'
''')
bug('C06-clean-skips', 'C06', (T, "        terms = list(self)\n\n        for t in terms:\n            self.doc.remove_term(t)", "        for t in self.terms:\n            self.doc.remove_term(t)"),
    'cleaning a section with two or more terms', 'every second term stays',
    '''
d = mk(['Section', 'A'], ['Foo', '1'], ['Foo', '2'], ['Foo', '3'])
d['A'].clean()
assert not list(d['A']) and not d.terms
''')
bug('C06-grandchildren', 'C06', (T, "            t.doc = self.doc\n            t.set_ownership()", "            t.doc = self.doc"),
    'moving a term with grandchildren to another section', 'the grandchildren stay in the old section',
    '''
d = mk(['Section', 'A'], ['Foo', '1'], ['Foo.Bar', '2'], ['Bar.Baz', '3'], ['Section', 'B'])
t = d['A'].terms[0]
d['B'].add_term(t)
assert t.children[0].children[0].section.name == 'B'
''')
bug('C07-sort-rest', 'C07', (D, "for k in self.sections.keys() if k not in order_lc)", "for k in sorted(self.sections.keys()) if k not in order_lc)"),
    'sorting by a list that leaves out two sections not in alphabetical order', 'the other sections change their order',
    '''
d = mk(['Section', 'Zeta'], ['Section', 'Alpha'], ['Section', 'Mid'])
d.sort_sections(['Mid'])
assert [s.name for s in d] == ['Mid', 'Root', 'Zeta', 'Alpha'], [s.name for s in d]
''')
bug('C07-remove-arg-prefix', 'C07', (T, "            if arg_.lower() == arg.lower():\n                self.args.remove(arg_)", "            if arg_.lower() == arg.lower().strip('s'):\n                self.args.remove(arg_)"),
    'removing a column whose name ends with s', 'another column is removed, or none',
    '''
d = mk(['Section', 'A', 'Unit', 'Units', 'Name'])
d['A'].remove_arg('Units')
assert d['A'].args == ['Unit', 'Name'], d['A'].args
''')
bug('C08-value-name-case', 'C08', (T, "                    d[term.term_value_name.lower()] = term.value\n                else", "                    d.setdefault(term.term_value_name.lower(), term.value)\n                else"),
    'a term with a value and a child with the name of its value name', 'the value of the term is lost',
    '''
d = mk(['Section', 'A'], ['Header', 'Label'], ['Foo', 'v'], ['Foo.Label', 'w'])
assert d['A'].terms[0].as_dict()['label'] == 'v', d['A'].terms[0].as_dict()
''')
bug('C08-not-restored', 'C08', (T, "        self.children = old_children\n\n        return d", "        return d"),
    'converting a section and looking at it again', 'conversion leaves the terms as children of the section',
    '''
d = mk(['Section', 'A'], ['Foo', 'v'])
d['A'].as_dict()
assert d['A'].children == []
''')
bug('C09-csv-quotes', 'C09', (D, "        w = csv.writer(s)\n", "        w = csv.writer(s, doublequote=False, escapechar='\\\\')\n"),
    'a value with double quotes, written as CSV', 'the value has backslashes when read back',
    '''
import csv, io
d = mk(['Section', 'A'], ['Foo', 'say "hi", all'])
e = MetatabDoc(MetatabRowGenerator(list(csv.reader(io.StringIO(d.as_csv())))))
assert e['A'].terms[0].value == 'say "hi", all', e['A'].terms[0].value
''')
bug('C09-header-columns', 'C09', (T, "children = list(zip(self.property_names, value[1:]))", "children = list(zip(self.args, value[1:]))"),
    'a section with its own columns and a header row with others, written as lines', 'properties get the names of the wrong columns',
    '''
d = mk(['Section', 'A', 'One', 'Two'], ['Header', '', 'Alpha', 'Beta'], ['Foo', 'v', '1', '2'])
e = MetatabDoc(TextRowGenerator(d.as_lines() + '\\n'))
assert e['A'].terms[0].props == {'alpha': '1', 'beta': '2'}, e['A'].terms[0].props
''')
bug('C10-shift-default', 'C10', (D, "mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 1))", "mv = str(int(mv) - int(mod_version[1:] if mod_version[1:] else 0))"),
    'a version shifted back by a bare minus sign', 'the name has the unchanged version',
    '''
d = mk(['Dataset', 'foo'], ['Version', '5'])
assert d.as_version('-') == 'foo-4', d.as_version('-')
''')
bug('C10-slug-runs', 'C10', (U, "value = re.sub(r'[-\\s]+', '-', value)", "value = re.sub(r'[-\\s]', '-', value)"),
    'text with two separators in a row', 'the slug has two hyphens in a row',
    '''
from metatab.util import slugify
assert slugify('a - b') == 'a-b', slugify('a - b')
''')
bug('C11-inherit-prefix', 'C11', (P, "if st_name.lower().startswith(ih_r.lower() + '.'):", "if st_name.lower().startswith(ih_r.lower()) and '.' in st_name and not st_name.lower().startswith('root.'):"),
    'a term that inherits from a term whose name is the start of the name of another', 'it also gets the children of the other term',
    '''
p = os.path.join(tmp, 'd.csv')
open(p, 'w').write("""Section,DeclaredSections
DeclareSection,Schema
Section,DeclaredTerms,TermValueName,Section,InheritsFrom
DeclareTerm,Root.Table,,Schema,
DeclareTerm,Table.Column,,Schema,
DeclareTerm,Root.Tablet,,Schema,
DeclareTerm,Tablet.Pill,,Schema,
DeclareTerm,Root.Sub,,Schema,Root.Table
""")
d = mk(['Declare', p])
assert 'sub.column' in d.decl_terms and 'sub.pill' not in d.decl_terms
''')
bug('C11-register-case', 'C11', (P, "        cls.term_classes[term_name.lower()] = class_or_name", "        cls.term_classes[term_name] = class_or_name"),
    'a term class registered under a name with capitals', 'terms are not made with the registered class',
    '''
class S(Term): pass
TermParser.register_term_class('Root.Foo', S)
assert isinstance(mk(['Foo', 'x']).terms[0], S)
''')
bug('C12-overwrites-empty', 'C12', [(C, "    if not exists(mt_file):\n", "    from os.path import getsize\n    if not exists(mt_file) or not getsize(mt_file):\n")],
    'creating a document where an empty file exists', 'the existing file is overwritten',
    '''
from metatab.cli import new_metatab_file
p = os.path.join(tmp, 'x.csv')
open(p, 'w').close()
assert new_metatab_file(p, None) is False
assert open(p).read() == ''
''')
bug('C12-extension-case', 'C12', (D, "        if path.suffix != '.csv':", "        if not path.name.lower().endswith('csv'):"),
    'a CSV written to a name that ends with csv but has another extension', 'the file is written',
    '''
d = mk(['Title', 'x'], ['Name', 'y'])
from metatab import MetatabError
for n in ('a.CSV', 'mycsv'):
    try:
        d.write_csv(os.path.join(tmp, n))
        assert False, n
    except MetatabError:
        pass
    assert not os.path.exists(os.path.join(tmp, n))
''')
bug('C13-section-after-include', 'C13', (P, "                        if last_section:\n                            yield last_section  # Re-assert the last section\n", "                        if last_section and last_section is not root:\n                            yield last_section  # Re-assert the last section\n"),
    'an include in the root section of a file that starts a section', 'rows after the include fall into the section of the included file',
    '''
open(os.path.join(tmp, 'a.csv'), 'w').write('Title,x\\nInclude,b.csv\\nName,y\\n')
open(os.path.join(tmp, 'b.csv'), 'w').write('Section,Schema\\nTable,t\\n')
d = MetatabDoc(os.path.join(tmp, 'a.csv'))
assert d['Root'].find_first_value('Root.Name') == 'y'
''')
bug('C13-decl-extension', 'C13', (P, "            for fn in (join(d, name), join(d, name + '.csv')):", "            for fn in (join(d, name),):"),
    'a declaration named without its extension beside the document', 'the declaration is reported as missing',
    '''
open(os.path.join(tmp, 'a.csv'), 'w').write('Declare,mydecl\\nTitle,x\\n')
open(os.path.join(tmp, 'mydecl.csv'), 'w').write('Section,DeclaredSections\\nDeclareSection,Stuff,Aaa\\n')
d = MetatabDoc(os.path.join(tmp, 'a.csv'))
assert d.decl_sections['stuff']['args'] == ['Aaa']
''')
bug('C14-unknown-type', 'C14', (DP, "d['type'] = type_map.get(c.get('datatype'), c.get('datatype'))", "d['type'] = type_map.get(c.get('datatype'), 'string' if c.get('datatype') else None)"),
    'a column with a type that has no mapping', 'the type is replaced',
    '''
from metatab.datapackage import convert_to_datapackage
d = mk(['Declare', 'metatab-latest'], ['Name', 'n'], ['Section', 'Resources', 'Name'], ['Datafile', 'http://x', 't'], ['Section', 'Schema', 'Datatype'], ['Table', 't'], ['Table.Column', 'c', 'date'])
assert convert_to_datapackage(d)['resources'][0]['schema']['fields'][0]['type'] == 'date'
''')
bug('C14-table-first', 'C14', (DP, "columns = table_schemas[r['name']] if r.get('name', '<none>') in table_schemas else table_schemas[\n                r['table']]",
    "columns = table_schemas[r['table']] if r.get('table', '<none>') in table_schemas else table_schemas[\n                r['name']]"),
    'a data file with the name of one table that refers to another', 'the fields are those of the wrong table',
    '''
from metatab.datapackage import convert_to_datapackage
d = mk(['Declare', 'metatab-latest'], ['Name', 'n'], ['Section', 'Resources', 'Name', 'Table'], ['Datafile', 'http://x', 't', 'u'], ['Section', 'Schema', 'Datatype'], ['Table', 't'], ['Table.Column', 'c', 'int'],
       ['Table', 'u'], ['Table.Column', 'd', 'int'])
assert convert_to_datapackage(d)['resources'][0]['schema']['fields'][0]['name'] == 'c'
''')
