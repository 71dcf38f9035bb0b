"""Which functions of /repo are under which contract, for which property."""
from pyvc.verify import *
from specs.models import MODELS, INVS

TTerm = TObj('Term', exact=True)
TSection = TObj('SectionTerm')
TDoc = TObj('MetatabDoc')
# Types of the fields of the objects the contracts speak about (assumed as data structure invariants)
FIELDS = {
    ('Term', 'parent_term'): TStr, ('Term', 'record_term'): TStr, ('Term', 'value'): TScalar, ('Term', 'parent'): TOr(TNone, TObj('Term')),
    ('Term', 'children'): TList(TTerm), ('Term', '_term'): TStr, ('Term', '_section'): TOr(TNone, TSection), ('Term', 'doc'): TOr(TNone, TDoc),
    ('Term', 'term_value_name'): TStr, ('Term', 'args'): TList(TStr), ('Term', 'child_property_type'): TStr,
    ('Term', '_orig_term'): TOr(TNone, TStr), ('Term', '_doc'): TOr(TNone, TDoc), ('Term', 'file_name'): TOptStr, ('Term', 'file_type'): TScalar, ('Term', 'row'): TScalar,
    ('Term', 'col'): TScalar, ('Term', 'valid'): TScalar, ('Term', 'options'): TList(TStr), ('Term', '_Term__initialised'): TBool,
    ('SectionTerm', 'value'): TStr, ('SectionTerm', 'terms'): TList(TTerm), ('SectionTerm', 'header_args'): TList(TStr), ('SectionTerm', 'doc'): TDoc,
    ('SectionTerm', 'default_term_value_name'): TStr,
    ('MetatabDoc', 'terms'): TList(TTerm), ('MetatabDoc', 'sections'): TDict(TSection), ('MetatabDoc', 'decl_terms'): TDict(TDict(TStr)),
    ('TextRowGenerator', '_text_lines'): TList(TStr),
    ('Path', 'text'): TStr, ('Rows', 'text'): TStr, ('Url', 'text'): TStr, ('File', 'text'): TStr, ('World', 'files'): TDict(TStr), ('World', 'uuids'): TInt, ('MetatabDoc', '_ref'): TOr(TNone, TStr, TObj('Url')),
    ('TermParser', 'term_classes'): TDict(TAny), ('TermParser', '_declared_terms'): TDict(TDict(TStr)), ('TermParser', '_doc'): TDoc, ('TermParser', 'resolver'): TObj('WebResolver'), ('TermParser', '_param_map'): TList(TOr(TStr, TInt)),
    ('TermParser', 'root'): TObj('RootSectionTerm', exact=True),
    ('MetatabDoc', 'decl_sections'): TDict(TDict(TList(TStr))), ('MetatabDoc', 'super_terms'): TDict(TStr), ('MetatabDoc', 'derived_terms'): TDict(TList(TStr)),
}
TData = TKind('none', 'bool', 'int', 'str', 'list', 'dict')
TSec = TOr(TNone, TStr, TList(TStr))
EXT_EXC = {}
# Specification functions kept as symbols in proofs (their definition is used only where a contract unfolds them); rec: recursive
FIND = ['terms', 'sections', 'value@SectionTerm', 'children', '_section', 'parent_term', 'record_term']
ROWS = ['terms', 'children', 'record_term', 'parent', 'parent_term', '_section', 'doc', 'decl_terms', 'value', 'header_args', 'args']
SYMBOLS = {
    'names:is_match': dict(reads=[], result=TBool, params={'parent': TStr, 'record': TStr, 'v': TStr}, props=['C01']),
    'search:desc': dict(reads=['children'], result=TList(TTerm), params={'self': TTerm}, rec=True, props=['C04']),
    'search:child': dict(reads=['children', 'record_term'], result=TOr(TNone, TTerm), params={'self': TTerm, 'name': TStr}, ensures='search:en_child', props=['C04', 'C05']),
    'data:conv': dict(reads=['children', 'record_term', 'child_property_type', 'value', 'term_value_name'], result=TData, params={'term': TObj('Term'), 'replace_value_names': TBool}, rec=True, raises=['TypeError'], props=['C08']),
    'props:columns': dict(reads=['header_args', 'args'], result=TList(TStr), params={'s': TSection}, props=['C05', 'C07']),
    'rows:rows': dict(reads=['children', 'record_term', 'parent', 'parent_term', '_section', 'doc', 'decl_terms', 'value'], result=TList(TTup(TStr, TOr(TScalar, TDict(TScalar)))), params={'self': TTerm}, rec=True, raises=['AssertionError', 'AttributeError'], props=['C09']),
    'rows:cells': dict(reads=['doc', 'decl_terms', 'header_args', 'args'], result=TTup(TStr, TList(TScalar), TDict(TScalar)), params={'self': TSection, 'term': TStr, 'd': TDict(TScalar)}, props=['C09']),
    'rows:section_rows': dict(reads=ROWS, result=TList(TTup(TStr, TOr(TScalar, TList(TScalar)))), params={'self': TSection}, raises=['AssertionError', 'AttributeError'], props=['C09']),
    'rows:section_lines': dict(reads=ROWS, result=TList(TTup(TStr, TScalar)), params={'self': TSection}, raises=['IndexError', 'AssertionError', 'AttributeError'], props=['C09']),
    'rows:doc_lines': dict(reads=ROWS + ['sections'], result=TList(TTup(TStr, TScalar)), params={'self': TDoc}, raises=['IndexError', 'AssertionError', 'AttributeError'], props=['C09']),
    'search:sp_all_terms': dict(reads=['sections', 'value@SectionTerm', 'terms', 'children'], result=TList(TObj('Term')), params={'self': TDoc}, props=['C04']),
    'search:named': dict(reads=FIND, result=TList(TObj('Term')), params={'self': TDoc, 'pattern': TStr, 'section': TSec}, props=['C04']),
    'search:scan': dict(reads=FIND + ['value'], result=TList(TObj('Term')), params={'self': TDoc, 'pattern': TStr, 'value': TScalar, 'section': TSec}, inline={2: False}, props=['C04']),
    'search:owned': dict(reads=FIND, result=TBool, params={'self': TDoc}, props=['C04']),
    'search:all_named': dict(reads=FIND + ['derived_terms'], result=TList(TObj('Term')), params={'self': TDoc, 'term': TOr(TStr, TList(TStr)), 'section': TSec}, props=['C04']),
    'search:first_named': dict(reads=FIND + ['derived_terms'], result=TOr(TNone, TObj('Term')), params={'self': TDoc, 'term': TOr(TStr, TList(TStr)), 'section': TSec}, props=['C04']),
    'search:first_value': dict(reads=FIND + ['derived_terms', 'value'], result=TScalar, params={'self': TDoc, 'term': TOr(TStr, TList(TStr)), 'section': TSec}, props=['C04']),
    'search:found': dict(reads=FIND + ['value', 'derived_terms'], result=TList(TObj('Term')), params={'self': TDoc, 'term': TOr(TStr, TList(TStr)), 'value': TScalar, 'section': TSec}, inline={2: False}, props=['C04']),
    'rows:doc_rows': dict(reads=ROWS + ['sections'], result=TList(TList(TScalar)), params={'self': TDoc}, raises=['AssertionError', 'AttributeError'], props=['C09']),
    'parse:synonyms': dict(reads=['_declared_terms'], result=TDict(TStr), params={'self': TObj('TermParser')}, props=['C03', 'C11']),
    'identity:slug': dict(reads=[], result=TStr, params={'value': TStr}, props=['C10']),
}
MERGED = ['identity:or_zero', 'identity:joined']
SPECS = ['names', 'search', 'props', 'sections', 'edits', 'writes', 'data', 'lines', 'rows', 'identity', 'stubs', 'files', 'package', 'parse', 'include']

T = 'metatab.terms:Term.'
D = 'metatab.doc:MetatabDoc.'
S = 'metatab.terms:SectionTerm.'
CONTRACTS = [
    Contract(T + 'split_term', 'names:sp_split', {'term': TStr}, props=['C01']),
    Contract(T + 'split_term_lower', 'names:sp_split_lower', {'term': TStr}, props=['C01']),
    Contract(T + 'normalize_term', 'names:sp_normalize', {'term': TStr}, props=['C01']),
    Contract(T + 'join', 'names:sp_join', props=['C01']),
    Contract(T + 'join_lc', 'names:sp_join_lc', props=['C01']),
    Contract(T + 'record_term_lc', 'names:sp_record_lc', props=['C01']),
    Contract(T + 'parent_term_lc', 'names:sp_parent_lc', props=['C01']),
    Contract(T + 'term_is', 'names:sp_term_is', {'v': TStr}, props=['C01'], unfold=['names:is_match']),
    Contract(T + 'term_is', 'names:sp_term_is', {'v': TList(TStr)}, props=['C01'], variant='list'),
    Contract(T + 'term.setter', 'names:sp_set_term', {'v': TStr}, props=['C01']),
    Contract(T + 'find', 'search:sp_find', {'term': TStr, 'value': TScalar}, props=['C04']),
    Contract(T + 'find_first', 'search:sp_find_first', {'term': TStr, 'value': TScalar}, props=['C04', 'C05'], unfold=['search:child']),
    Contract(T + 'find_first_value', 'search:sp_find_first_value', {'term': TStr}, props=['C04', 'C05']),
    Contract(T + 'descendents', 'search:desc', props=['C04']),
    Contract(D + 'all_terms', 'search:sp_all_terms', props=['C04']),
    Contract(D + 'find', 'search:sp_scan', {'term': TStr, 'value': TScalar, 'section': TSec, '_expand_derived': TConst(False)},
             requires='search:rq_scan', props=['C04'], variant='one', unfold=['search:scan', 'search:named', 'search:owned']),
    Contract(D + 'find', 'search:sp_doc_find', {'term': TStr, 'value': TScalar, 'section': TSec, '_expand_derived': TConst(True)},
             requires='search:rq_found', props=['C04'], unfold=['search:found', 'search:all_named', 'search:scan', 'search:named', 'search:owned']),
    Contract(D + 'find', 'search:sp_doc_find', {'term': TList(TStr), 'value': TScalar, 'section': TSec, '_expand_derived': TConst(True)},
             requires='search:rq_found', props=['C04'], variant='list', unfold=['search:found', 'search:all_named', 'search:scan']),
] + [Contract(D + 'find', 'search:sp_doc_find_props', {'term': ty, 'value': TScalar, 'section': TSec, '**': TDict(TScalar)},
             requires=['search:rq_found', 'search:rq_terms', 'search:rq_plain'], props=['C04'], variant=var) for ty, var in ((TStr, 'props'), (TList(TStr), 'props_list'))
] + [Contract(D + n, 'search:sp_doc_' + n, dict(p, term=TOr(TStr, TList(TStr))), requires='search:rq_found', props=['C04'], unfold=['search:first_named', 'search:found'] if n == 'find_first' else ['search:first_value']) for n, p in (
    ('find_first', {'value': TScalar, 'section': TSec}), ('find_first_value', {'value': TScalar, 'section': TSec}), ('get', {'default': TScalar}), ('get_value', {'default': TScalar, 'section': TSec}))
] + [Contract(S + n, 'search:sp_sec_' + m, {'term': TOr(TStr, TList(TStr)), 'value': TScalar}, requires='search:rq_sfound', props=['C04']) for n, m in (
    ('find', 'find'), ('find_first', 'find_first'), ('get_term', 'find_first'), ('find_first_value', 'find_first_value'))
]
CONTRACTS += [
    Contract(T + '__getitem__', 'props:sp_getitem', {'self': TTerm, 'item': TStr}, props=['C05']),
    Contract(T + 'get', 'props:sp_get', {'self': TTerm, 'item': TStr, 'default': TScalar}, props=['C05']),
    Contract(T + 'get_value', 'props:sp_get_value', {'self': TTerm, 'item': TStr, 'default': TScalar}, props=['C05', 'C04']),
    Contract(T + '__getattr__', 'props:sp_getattr', {'self': TTerm, 'item': TStr}, props=['C05']),
    Contract(T + '__contains__', 'props:sp_contains', {'self': TTerm, 'item': TStr}, props=['C05']),
    Contract(T + 'props', 'props:sp_props', {'self': TTerm}, props=['C05']),
    Contract(T + 'property_names', 'props:sp_property_names', {'self': TTerm}, props=['C05', 'C07']),
    Contract(S + 'property_names', 'props:sp_section_property_names', props=['C05', 'C07'], unfold=['props:columns']),
    Contract(T + 'arg_props', 'props:sp_arg_props', {'self': TTerm}, requires='props:rq_section', props=['C05', 'C14']),
    Contract(T + 'all_props', 'props:sp_all_props', {'self': TTerm}, requires='props:rq_section', props=['C05', 'C14']),
]
CONTRACTS += [
    Contract(D + 'section_args', 'sections:sp_section_args', {'section_name': TStr}, props=['C07', 'C11']),
    Contract(D + 'get_section', 'sections:sp_get_section', {'name': TStr, 'default': TOr(TConst(False), TNone, TSection)}, props=['C07']),
    Contract(D + '__getitem__', 'sections:sp_getitem', {'item': TStr}, props=['C07']),
    Contract(D + '__contains__', 'sections:sp_contains', {'item': TStr}, props=['C07']),
    Contract(D + '__iter__', 'sections:sp_iter', props=['C07']),
    Contract(D + 'add_section', 'sections:sp_add_section', {'s': TSection}, props=['C07', 'C06']),
    Contract(D + 'get_or_new_section', 'sections:sp_get_or_new_section', {'name': TStr, 'params': TOr(TNone, TList(TStr))}, props=['C07']),
    Contract(D + 'new_section', 'sections:sp_new_section', {'name': TStr, 'params': TOr(TNone, TList(TStr))}, props=['C07']),
    Contract(D + 'sort_sections', 'sections:sp_sort_sections', {'order': TList(TStr)}, props=['C07']),
    Contract(D + '__delitem__', 'sections:sp_delitem', {'item': TStr}, props=['C07', 'C06'], partial=True),
    Contract(S + 'add_arg', 'sections:sp_add_arg', {'arg': TStr, 'prepend': TBool}, props=['C07']),
    Contract(S + 'remove_arg', 'sections:sp_remove_arg', {'arg': TStr}, props=['C07']),
    Contract(T + '__init__', 'sections:sp_init', {'self': TObj('Term'), 'term': TStr, 'value': TScalar, 'term_args': TOr(TConst(False), TNone, TList(TStr)), 'row': TOr(TNone, TInt),
             'col': TOr(TNone, TInt), 'file_name': TOptStr, 'file_type': TOptStr, 'parent': TOr(TNone, TTerm), 'doc': TOr(TNone, TDoc), 'section': TOr(TNone, TSection)}, requires=['sections:rq_name', 'sections:rq_new'], props=['C03', 'C05', 'C06']),
] + [
    Contract(S + '__init__', 'sections:sp_section_init', {'term': ty, 'value': TStr, 'term_args': TOr(TConst(False), TNone, TList(TStr)), 'row': TOr(TNone, TInt),
             'col': TOr(TNone, TInt), 'file_name': TOptStr, 'file_type': TOptStr, 'doc': TDoc}, props=['C03', 'C07'], variant=v) for ty, v in ((TNone, None), (TConst('root.section'), 'parsed'))
] + [
    Contract('metatab.terms:RootSectionTerm.__init__', 'sections:sp_root_init', {'file_name': TOptStr, 'file_type': TOptStr, 'doc': TDoc}, props=['C03', 'C07']),
    Contract(T + 'section.setter', 'sections:sp_set_section', {'v': TOr(TNone, TSection)}, props=['C06']),
]
CONTRACTS += [
    Contract(S + 'remove_term', 'edits:sp_sec_take', {'term': TTerm, 'remove_from_doc': TConst(False)}, props=['C06'], variant='only'),
    Contract(S + 'remove_term', 'edits:sp_sec_remove_term', {'term': TTerm, 'remove_from_doc': TConst(True)}, requires=['edits:rq_sec_doc', 'edits:rq_sec_section'], props=['C06']),
    Contract(D + 'remove_term', 'edits:sp_remove_term', {'t': TTerm}, requires=['edits:rq_in_doc', 'edits:rq_in_section'], props=['C06']),
    Contract(T + 'remove_child', 'edits:sp_remove_child', {'self': TTerm, 'child': TTerm}, requires=['edits:rq_child_doc', 'edits:rq_child_section'], props=['C06', 'C05']),
]
CONTRACTS += [
    Contract('metatab.parser:TermParser.register_term_class', 'writes:sp_register', {'term_name': TStr, 'class_or_name': TAny}, props=['C11']),
    Contract('metatab.parser:TermParser.unregister_term_class', 'writes:sp_unregister', {'term_name': TStr}, props=['C11']),
    Contract(D + 'register_term_class', 'writes:sp_register', {'term_name': TStr, 'class_or_name': TAny}, props=['C11']),
    Contract(D + 'get_term_class', 'writes:term_class', {'term_name': TStr}, props=['C11']),
]
CONTRACTS += [
    Contract(T + 'add_child', 'writes:sp_add_child', {'self': TTerm, 'child': TTerm}, props=['C05', 'C06'], unfold=['names:is_match']),
    Contract(T + 'new_child', 'writes:sp_new_child', {'self': TTerm, 'term': TStr, 'value': TOptStr}, requires=['writes:rq_declared', 'writes:rq_plain'], props=['C05', 'C06'], unfold=['names:is_match']),
    Contract(T + 'get_or_new_child', 'writes:sp_get_or_new_child', {'self': TTerm, 'term': TStr, 'value': TScalar}, requires=['writes:rq_declared', 'writes:rq_plain'], props=['C05', 'C06'], unfold=['names:is_match', 'search:child']),
]
CONTRACTS += [
    Contract(T + '__setitem__', 'writes:sp_setitem', {'self': TTerm, 'item': TStr, 'value': TScalar}, requires=['writes:rq_declared', 'writes:rq_set_name', 'writes:rq_set_value',
             'writes:rq_set_doc', 'writes:rq_set_section'], props=['C05', 'C06'], unfold=['names:is_match', 'search:child']),
]
CONTRACTS += [
    Contract(D + 'add_term', 'writes:sp_doc_add_only', {'t': TTerm, 'add_section': TConst(False)}, props=['C06', 'C11'], variant='only'),
    Contract(S + 'add_term', 'writes:sp_sec_add_term', {'t': TTerm}, props=['C06']),
    Contract(S + 'move_term', 'writes:sp_sec_add_term', {'t': TTerm}, props=['C06']),
    Contract(S + 'new_term', 'writes:sp_new_term', {'term': TStr, 'value': TScalar}, requires=['writes:rq_top'], props=['C06', 'C07']),
    Contract(D + 'add_term', 'writes:sp_doc_add_term', {'t': TTerm, 'add_section': TConst(True)}, props=['C06', 'C11']),
]
CONTRACTS += [
    Contract(T + '_convert_to_dict', 'data:conv', {'term': TObj('Term'), 'replace_value_names': TBool}, props=["C08"], inv=["record names are lower case"]),
]
LOWER = ['record names are lower case']
CONTRACTS += [
    Contract(T + 'as_dict', 'data:sp_as_dict', {'self': TObj('Term'), 'replace_value_names': TBool}, props=['C08'], inv=LOWER),
    Contract(S + 'as_dict', 'data:sp_section_as_dict', {'replace_value_names': TBool}, props=['C08'], inv=LOWER, partial=True),
]
CONTRACTS += [
    Contract('metatab.terms:RootSectionTerm.as_dict', 'data:sp_root_as_dict', {'replace_value_names': TBool}, props=['C08'], inv=LOWER, partial=True),
    Contract(D + 'as_dict', 'data:sp_doc_as_dict', {'replace_value_names': TBool}, props=['C08'], inv=LOWER, partial=True),
]
CONTRACTS += [
    Contract('metatab.rowgen:TextRowGenerator.__iter__', 'lines:sp_rows', props=['C02']),
]
TRows = TList(TTup(TStr, TOr(TScalar, TDict(TScalar))))
CONTRACTS += [
    Contract(T + 'qualified_term', 'rows:sp_qualified', {'self': TTerm}, props=['C09']),
    Contract(T + 'rows', 'rows:rows', {'self': TTerm}, props=['C09']),
    Contract(S + '_args', 'rows:sp_args', {'term': TStr, 'd': TDict(TScalar)}, props=['C09'], unfold=['rows:cells']),
    Contract(S + 'rows', 'rows:section_rows', props=['C09']),
    Contract(D + 'rows', 'rows:doc_rows', props=['C09'], unfold=['rows:doc_rows']),
    Contract(S + 'lines', 'rows:section_lines', props=['C09']),
    Contract(S + 'as_lines', 'rows:sp_section_as_lines', props=['C09']),
    Contract(D + 'lines', 'rows:doc_lines', props=['C09']),
    Contract(D + 'as_lines', 'rows:sp_as_lines', props=['C09']),
]
CONTRACTS += [
    Contract('metatab.util:slugify', 'identity:sp_slugify', {'value': TScalar}, props=['C10'], unfold=['identity:slug']),
    Contract(D + '_has_semver', 'identity:sp_has_semver', requires=['identity:rq_root', 'identity:rq_plain', 'identity:rq_version'], props=['C10']),
    Contract(D + 'update_version', 'identity:sp_update_version', requires=['identity:rq_root', 'identity:rq_plain', 'identity:rq_version'], props=['C10']),
] + [
    Contract(D + '_generate_identity_name', 'identity:sp_name', {'mod_version': ty}, raises=case == 'unversioned', props=['C10'], variant=case + n,
             requires=['identity:rq_root', 'identity:rq_plain', 'identity:rq_version', 'identity:rq_names', 'identity:rq_parts', 'identity:rq_' + case] + more + (['identity:rq_text_' + case] if n in ('_up', '_down') and case != 'unversioned' else []))
    for case in ('unversioned', 'whole', 'semver') for n, ty, more in (('', TConst(False), []), ('_none', TNone, []), ('_new', TStr, ['identity:rq_new']), ('_up', TStr, ['identity:rq_up']), ('_down', TStr, ['identity:rq_down']))
] + [
    Contract(D + 'as_version', 'identity:sp_as_version', {'ver': ty}, raises=case == 'unversioned', props=['C10'], variant=case + n,
             requires=['identity:rq_root', 'identity:rq_plain', 'identity:rq_version', 'identity:rq_names', 'identity:rq_parts', 'identity:rq_' + case] + more
             + (['identity:rq_text_' + case] if n in ('_up', '_down') and case != 'unversioned' else []))
    for case in ('unversioned', 'whole', 'semver') for n, ty, more in (('_none', TNone, []), ('_new', TStr, ['identity:rq_as_new']), ('_up', TStr, ['identity:rq_as_up']), ('_down', TStr, ['identity:rq_as_down'])) if case != 'semver' or n == '_none'
] + [
    Contract(D + 'ensure_identifier', 'identity:sp_ensure_identifier', requires=['identity:rq_root', 'identity:rq_identifier'], props=['C10', 'C12'], replay=False),
    Contract(D + 'update_name', 'identity:sp_update_name', {'force': TBool, 'create_term': TBool, 'report_unchanged': TBool, 'mod_version': TConst(False)}, result=False, variant='no_dataset',
             requires=['identity:rq_root', 'identity:rq_identifier', 'identity:rq_update', 'identity:rq_names', 'identity:rq_no_dataset'], props=['C10']),
] + [
    Contract(D + 'update_name', 'identity:sp_update_name', {'force': TBool, 'create_term': TBool, 'report_unchanged': TBool, 'mod_version': TConst(False)}, result=False, variant=case,
             requires=['identity:rq_root', 'identity:rq_identifier', 'identity:rq_update', 'identity:rq_dataset', 'identity:rq_plain', 'identity:rq_version', 'identity:rq_names', 'identity:rq_parts',
                       'identity:rq_' + case], props=['C10']) for case in ('unversioned', 'whole')
] + [
    Contract('metatab.cli:new_metatab_file', 'files:sp_new_file', {'mt_file': TStr, 'template': TOptStr}, requires='files:rq_new_file', props=['C12'], replay=False),
    Contract('metatab.datapackage:convert_to_datapackage.mkdict', 'package:sp_field', {'c': TOr(TDict(TOptStr), TStr)}, props=['C14'], replay=False),
    Contract(D + 'as_csv', 'files:sp_as_csv', props=['C09', 'C12']),
    Contract(D + '_write_path', 'files:sp_write_path', {'path': TOr(TNone, TStr, TObj('Path'))}, requires='files:rq_ref', props=['C12'], replay=False),
    Contract(D + '_write', 'files:sp_write', {'content': TStr, 'path': TObj('Path'), 'ext': TNone}, props=['C12'], replay=False),
    Contract(D + 'write_csv', 'files:sp_write_csv', {'path': TOr(TNone, TStr, TObj('Path'))}, requires='files:rq_ref', props=['C12'], replay=False),
    Contract(D + 'write_lines', 'files:sp_write_lines', {'path': TOr(TNone, TStr, TObj('Path'))}, requires='files:rq_ref', props=['C12'], replay=False),
    Contract(D + 'write', 'files:sp_write_any', {'path': TOr(TNone, TStr, TObj('Path'))}, requires=['files:rq_ref', 'files:rq_again'], props=['C12'], replay=False),
]
CONTRACTS += [
    Contract('metatab.parser:TermParser.get_term_class', 'parse:term_class', {'term_name': TStr}, props=['C11', 'C03']),
]
STEP = {'t': TTerm, 'last_parent_term': TStr, 'last_term_map': TDict(TObj('Term')), 'default_term_value_name': TStr, 'last_section': TSection}
CONTRACTS += [
    Contract('metatab.parser:TermParser.synonyms', 'parse:synonyms', props=['C03', 'C11'], unfold=['parse:synonyms']),
] + [
    Contract('metatab.parser:TermParser.__iter__@loop', 'parse:sp_term', STEP, requires=['parse:rq_' + r for r in rq], props=['C03'], replay=False, variant=v, unfold=['names:is_match']) for v, rq in (
        ('header', ['named', 'row', 'header']), ('top', ['named', 'row', 'no_header', 'top']), ('child', ['named', 'row', 'child']), ('elided', ['named', 'row', 'elided']), ('cell', ['cell']), ('synonym', ['stands', 'row']))
] + [
    Contract('metatab.parser:TermParser.__iter__@loop', 'parse:sp_' + v, dict(STEP, t=ty), requires=['parse:rq_own', 'parse:rq_' + v], props=['C03', 'C07', 'C13'], replay=False, variant=v, unfold=['names:is_match'])
    for v, ty in (('section', TSection), ('root', TObj('RootSectionTerm', exact=True)))
]
ROW = {'row': TList(TStr), 'line_n': TInt, 'ref_path': TStr, 'file_type': TOptStr, 'root': TSection, 'included_from': TList(TStr), 'last_section': TSection}
CONTRACTS += [
    Contract('metatab.parser:TermParser.generate_terms@loop', 'parse:sp_' + sp, ROW, requires=['parse:rq_' + r for r in rq], props=['C03'], replay=False, variant=v, unfold=['names:is_match', 'identity:slug']) for v, sp, rq in (
        ('blank', 'row', ['blank']), ('row', 'row', ['plain_row', 'no_cells']), ('header', 'row', ['header_row']), ('section', 'section_row', ['section_row', 'section_class', 'sections']))
] + [
    Contract('metatab.parser:TermParser.generate_terms@loop', 'parse:sp_cell', {'col': TInt, 'value': TStr, 't': TTerm, 'ref_path': TStr, 'file_type': TOptStr, 'line_n': TInt},
             requires=['parse:rq_cell_name'], props=['C03'], replay=False, variant='cell', unfold=['names:is_match', 'identity:slug']),
]
CONTRACTS += [
    Contract('metatab.parser:TermParser.find_include_doc', 'include:sp_find_include', {'d': TStr, 'name': TStr}, props=['C13'], replay=False),
    Contract('metatab.util:declaration_path', 'include:sp_declaration_path', {'name': TStr}, props=['C13'], replay=False),
    Contract('metatab.parser:TermParser.find_declare_doc', 'include:sp_find_declare', {'d': TStr, 'name': TStr}, requires='include:rq_path', props=['C13', 'C11'], replay=False),
] + [
    Contract('metatab.parser:TermParser.generate_terms@loop', 'include:spliced', ROW, requires=['include:rq_' + v] + rq, props=['C13'], replay=False, variant=v, unfold=['names:is_match', 'identity:slug'])
    for v, rq in (('include', []), ('declare', ['include:rq_paths']))
]
LEMMAS = [     # (name, spec function, parameter types, properties)
    ('match_by_parts', 'names:lm_match', {'self': TObj('Term'), 'v': TStr}, ['C01']),
    ('match_ignores_case', 'names:lm_match_case', {'self': TObj('Term'), 'v': TStr}, ['C01']),
    ('normal_idempotent', 'names:lm_normal_idempotent', {'term': TStr}, ['C01']),
    ('join_split', 'names:lm_join_split', {'self': TObj('Term')}, ['C01']),
    ('add_term', 'writes:lm_added', {'self': TSection, 't': TTerm}, ['C06']),
    ('remove_term', 'writes:lm_removed', {'self': TDoc, 't': TTerm}, ['C06']),
    ('remove_frame', 'writes:lm_remove_frame', {'self': TDoc, 't': TTerm, 'u': TTerm}, ['C06']),
    ('found_version', 'identity:lm_version', {'self': TDoc}, ['C10']),
    ('slug_chars', 'identity:lm_slug_chars', {'value': TStr}, ['C10']),
    ('slug_of_slug', 'identity:lm_slug_slug', {'value': TStr}, ['C10']),
    ('set_then_get', 'writes:lm_set_get', {'self': TTerm, 'item': TStr, 'value': TScalar, 'name': TStr}, ['C05']),
    ('set_frame', 'writes:lm_set_other', {'self': TTerm, 'item': TStr, 'value': TScalar, 'other': TStr}, ['C05']),
]

# What a proof of the property rests on besides the code of the functions under contract
COMMON_TRUST = [
    'pyvc: the symbolic executor and verification condition generator of /verif/pyvc, z3 4.x and cvc5 1.1.2',
    'field types of specs/registry.py hold for every object (data structure invariant, assumed at entry)',
    'Python semantics as modelled: mathematical integers, strings as code point sequences, str.lower/strip/split axiomatised in pyvc/strs.py (lower is idempotent and '
    'distributes over concatenation, which excludes the context sensitive U+03A3)',
    'termination and resource exhaustion are not proved',
]
CLASSES = 'a class found by name behaves as the plain term class does (behavioural subtyping of registered classes), and importing a class by its name has no other effect'
OWN = 'Term.set_ownership: gives the descendents of a term its document and section and changes nothing else (assumed)'
PATHS = 'pathlib, os.path, application URLs and open files behave as specs/stubs.py and specs/models.py say (files are a map from path to text)'
NESTED = 'the rows of an included file come from the recursive call: a function of the file, the state and the files it is included from, or one of its failures (its own contract, assumed at the call)'
TRUST = {
    'C03': [CLASSES, OWN, 'the cache of TermParser.super_terms is never stale (it is cleared whenever a declaration is read)', 'entries of declared terms are text, value sets aside',
            'the loops around the contracted loop bodies: enumerate over the rows, in order; what a generator yields is consumed as it is yielded'],
    'C05': [CLASSES, OWN], 'C06': [CLASSES, OWN],
    'C09': ['csv.writer writes rows to the text that csv_text stands for, which csv.reader reads back (assumed)'],
    'C10': ['uuid4 gives a fresh text that is not empty', 'unicodedata and the regular expressions of slugify as modelled in pyvc/strs.py'],
    'C11': [CLASSES, 'the cache of TermParser.super_terms is never stale (it is cleared whenever a declaration is read)'],
    'C12': [PATHS, 'MetatabDoc.cleanse is a function of the state, changes no file, and does nothing the second time (assumed)', 'the templates of the create command are documents of their own'],
    'C13': [PATHS, NESTED, CLASSES, 'rowgenerators.get_generator either gives the rows of its address or raises OSError, GenerateError, RowGeneratorError or another error'],
}
LEVEL = {'C01': 'proof', 'C02': 'proof', 'C03': 'proof', 'C04': 'proof', 'C05': 'proof', 'C06': 'proof', 'C07': 'proof', 'C08': 'proof', 'C10': 'proof', 'C13': 'proof'}
BOUNDED = {'C01': 'lists of patterns, names with padding in patterns; searched on the real code',
           'C02': 'text given as an open file or a path, reading twice; searched on the real code',
           'C03': 'rows are proved one step at a time (the body of each parsing loop); the composition of the steps, rows of more than two cells as a whole (their cells are proved one by one), and the section row of the root are searched on the real code',
           'C04': 'searches by property values among sections, names with two dots, terms in no section; searched on the real code',
           'C05': 'attribute assignment (__setattr__) and deletion, sequences of operations; searched on the real code',
           'C06': 'sequences of edits over several documents, clean and sort of sections, ownership of nested children; searched on the real code',
           'C07': 'sequences of section operations; searched on the real code',
           'C08': 'integer-like names, values of unusual types; searched on the real code',
           'C09': 'the reading half of the round trip; searched on the real code',
           'C10': 'shifted versions of documents with version parts in as_version, versions that are not text under shifts; searched on the real code',
           'C11': 'the declaration parser; searched on the real code',
           'C12': 'reading back what was written, the command line; searched on the real code',
           'C13': 'includes of any depth as a whole (each include row is proved, the files below it by induction on the recursive call), declarations that are applied; searched on the real code',
           'C14': 'the conversion itself; searched on the real code'}
