#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

p('P01', 'Schema upgrades never destroy or silently misrepresent stored data',
  'For every pair of accepted configurations, ort-sqldiff either refuses with a message and a failing exit (dropped or renumbered enumeration or bitfield items, dropped columns or tables without -d, changed type, null, rowid, reference or action) or prints a script that upgrades the old database to one with every table, column, foreign key and unique index of the new configuration. Without -d no printed statement drops a table; dropped columns are only ever noted in a comment; values of existing rows are unchanged.',
  ['inputs', 'configurations'], 'every pair of accepted old and new configurations, with and without -d',
  'The repository tests a few dozen hand-written pairs and compares text; the guarantee is over all pairs and all combinations of simultaneous changes.',
  ['lang-sql.c', 'sqldiff.c', 'diff.c'], [('incompatibility checks', 'lang-sql.c gen_check_fields, gen_check_enms, gen_check_bitfs, gen_check_strcts'), ('script emission', 'lang-sql.c ort_lang_diff_sql, gen_diff_field_new'), ('difference queue', 'diff.c')],
  ['standard output and exit status of ort-sqldiff', 'the database after sqlite3 ran the script'])
p('P02', 'The SQL schema declares exactly the configured tables and constraints',
  'For every accepted configuration, the output of ort-sql is valid SQLite that creates exactly one table per structure, with exactly one column per stored field in order, of the right affinity, NOT NULL unless the field is null or the row identifier, PRIMARY KEY exactly for the row identifier. There is a FOREIGN KEY with the configured delete and update actions exactly for each reference, and a unique index exactly for each unique field and each multi-field unique statement.',
  ['inputs', 'configurations'], 'every accepted configuration', 'Tests compare a handful of fixed outputs; a schema error that needs a particular combination of field type, reference, action and constraint is not reached.',
  ['lang-sql.c', 'sql.c'], [('table generation', 'lang-sql.c gen_struct, gen_field, gen_fkeys, gen_unique, gen_unique_field')], ['standard output of ort-sql'])
p('P03', 'The difference of two configurations is complete and exact',
  'For every pair of accepted configurations, ort-diff reports an object as added, removed or changed if and only if it was, and reports the attribute that changed. It exits 0 with no change listed exactly when the configurations are equivalent and 1 when they differ; objects are matched by name whatever their order.',
  ['inputs', 'configurations'], 'every pair of accepted configurations', 'Each test samples one difference; missing or spurious differences for other attribute combinations are not exercised.',
  ['diff.c', 'writer-diff.c', 'maindiff.c'], [('comparison', 'diff.c ort_diff and the ort_diff_* functions'), ('report', 'writer-diff.c')], ['standard output and exit status of ort-diff'])
p('P04', 'The audit of a role lists exactly what that role can do',
  'For every accepted configuration with roles and every declared role, ort-audit and ort-audit-json list exactly the operations the role may invoke (assigned to it or to an ancestor, or to all) and mark exactly those exportable fields the role may export. Nothing granted is left out and nothing denied is listed.',
  ['inputs', 'configurations'], 'every accepted configuration and every role in it', 'The quantifier is over all role forests and all assignments of roles to operations; tests hold a few fixed trees.',
  ['audit.c', 'mainaudit.c', 'audit-json.c'], [('permission by ancestry', 'audit.c rolemap_has'), ('collection', 'audit.c audit_operation_* , ort_audit')], ['standard output of ort-audit and ort-audit-json'])
p('P05', 'Generated code lets a role invoke only the operations it was given',
  'In the generated C and Node.js interfaces, an operation can run in a role if and only if that role, one of its ancestors, or all was assigned to the operation; every other role, including default and none unless assigned, is refused. Role changes are accepted only from default, into none, or to the same role or an ancestor (other than all) of the current role.',
  ['inputs', 'configurations', 'histories'], 'every accepted configuration with roles, every role and operation, and every sequence of role changes', 'Generated code is not executed by the test suite (sqlbox and better-sqlite3 are absent); text samples cannot show that no role is missed or over-granted.',
  ['lang-c-source.c', 'lang-nodejs.c', 'lang.c'], [('statement grants', 'lang-c-source.c gen_role_stmt, gen_role_stmt_all, gen_roles, gen_role_hier'), ('role cases', 'lang-c-source.c gen_func_rolecases and lang-nodejs.c gen_role, gen_roles')], ['generated C source and TypeScript'])
p('P06', 'Fields that must not be exported never appear in exported data',
  'No generated exporter (C JSON output, Node.js export) writes a password field, a field marked noexport, or a field whose noexport roles cover the role under which the object was obtained; every other field is exported under its own name. This also holds through nested structures.',
  ['inputs', 'configurations'], 'every accepted configuration, field and role', 'The tests inspect no generated exporter for role-dependent export; the condition ranges over all field flags, types and role assignments.',
  ['lang-c-source.c', 'lang-nodejs.c', 'linker_resolve.c'], [('C exporter', 'lang-c-source.c gen_field_json_out / gen_json_out'), ('Node exporter', 'lang-nodejs.c gen_reset / export'), ('noexport map resolution', 'linker_resolve.c resolve_struct_rolemap_post')], ['generated exporters'])
p('P07', 'Generated validators accept exactly the values the configuration allows',
  'For every accepted configuration, the generated C and Node.js validators accept a value of a field if and only if it has the field type and satisfies every limit of the field with the configured operator and operand, and is one of the items for an enumeration. Limits keep their exact configured values.',
  ['inputs', 'configurations'], 'every field type, set of limits and value', 'Validator output is only compared for a few limits; boundary values and operator/type combinations are unbounded.',
  ['lang-c-source.c', 'lang-nodejs.c', 'parser_field.c'], [('C validators', 'lang-c-source.c gen_valids and helpers'), ('Node validators', 'lang-nodejs.c'), ('limit parsing', 'parser_field.c parse_validate')], ['generated validators'])
p('P08', 'Documentation text cannot escape the comment it is put into',
  'Whatever text a configuration gives as documentation, every generated file (C header and source, SQL, JavaScript/TypeScript, Rust) contains it only inside comments: stripping comments leaves the same program as when the documentation is removed. No documentation makes a generated file malformed.',
  ['inputs'], 'every documentation string', 'The set of strings is infinite; tests use benign sentences.',
  ['lang.c', 'lang-c-header.c', 'lang-c-source.c', 'lang-javascript.c', 'lang-nodejs.c', 'lang-rust.c', 'lang-sql.c'], [('comment writer', 'lang.c print_comment, gen_comment, gen_commentv')], ['every generated file'])
p('P09', 'Configured strings and numbers reach every output with their exact value',
  'Default strings, labels and numeric defaults or limits written into SQL, JSON, JavaScript, XLIFF and the canonical configuration denote, in that language, exactly the configured value. No character of a string can end its literal, start an escape or add content.',
  ['inputs'], 'every string and number a configuration may contain', 'Escaping must hold for all strings; tests contain a few.',
  ['lang-sql.c', 'lang-json.c', 'lang-javascript.c', 'lang-xliff.c', 'writer.c'], [('literal writers', 'lang-sql.c gen_literal; lang-json.c gen_string; lang-javascript.c gen_label_text; lang-xliff.c xprint; writer.c')], ['standard output of ort-sqldiff, ort-json, ort-javascript, ort-xliff, ort'])
p('P10', 'The JSON form of a configuration is valid and faithful',
  'For every accepted configuration, the output of ort-json is valid JSON that contains every role, enumeration, bitfield, structure, field, operation and their attributes and nothing else: names, types, flags, references with the fields they resolve to, limits, defaults, operators, ordering, role maps, and source positions.',
  ['inputs', 'configurations'], 'every accepted configuration', 'Only a few fixed configurations are compared.',
  ['lang-json.c', 'json.c', 'linker_resolve.c'], [('serialiser', 'lang-json.c')], ['standard output of ort-json'])
p('P11', 'Configurations breaking a documented rule are rejected, others accepted',
  'A configuration that violates a rule of ort(5) (unknown or circular reference, duplicate or reserved name, reference to a non-unique field or of another type, operator or modifier unsuited to the field type, search on a nullable structure, a role given twice to one operation, duplicate unique statement, and the like) is rejected with an error naming its position and a failing exit. One that violates none is accepted.',
  ['inputs', 'configurations'], 'every configuration text', 'Tests hold one or two negative examples per rule; order, position and interaction of statements vary without bound.',
  ['linker.c', 'linker_resolve.c', 'parser_struct.c', 'parser_field.c', 'parser_roles.c'], [('semantic checks', 'linker.c check_*'), ('resolution', 'linker_resolve.c'), ('parse-time checks', 'parser*.c')], ['exit status and messages of ort'])
p('P13', 'Structures are emitted after every structure they embed',
  'For every accepted configuration the linked structures are ordered so that each one follows all structures it contains, directly or through others, and a configuration whose structures contain themselves, directly or indirectly, is rejected. Generated headers therefore always declare a structure before it is embedded.',
  ['inputs', 'configurations'], 'every structure graph', 'Ordering errors appear only for particular graph shapes and declaration orders.',
  ['linker.c', 'linker_resolve.c'], [('ordering', 'linker.c annotate, parse_cmp'), ('cycle check', 'linker.c check_recursive')], ['ort-c-header, ort-json, ort-sql'])
p('P14', 'Role statements apply to exactly the operations and roles they name',
  'For every accepted configuration, the roles attached to each operation and to each field export are exactly those named by the roles statements covering it: directly by name, by all, or by an unnamed noexport for every field of its structure only. Statement order makes no difference, and no role leaks to another operation, field or structure.',
  ['inputs', 'configurations'], 'every combination and order of roles statements', 'Merging of role maps depends on statement order and overlap; tests have few.',
  ['linker_resolve.c', 'linker.c', 'parser_struct.c'], [('role map resolution', 'linker_resolve.c resolve_struct_rolemap, resolve_struct_rolemap_post, rolemap merging'), ('assignment', 'parser_struct.c rolemap_assign')], ['rolemap members of ort-json'])
p('P15', 'Enumeration and bitfield items keep distinct, stable numbers',
  'Items with an explicit number keep it; items without are numbered consecutively in order from one above the greatest explicit number (from zero if that is negative or absent); no two items of one enumeration or bitfield share a number. All outputs (C, JSON, Node.js, JavaScript, Rust, canonical form) use the same number, and bitfield masks are two to the power of the index.',
  ['inputs', 'configurations'], 'every list of items, explicit and automatic in any order', 'Collisions and overflow depend on the values and their order.',
  ['parser_enum.c', 'parser_bitfield.c', 'lang-c-header.c', 'lang-json.c', 'lang-nodejs.c', 'lang-javascript.c', 'lang-rust.c'], [('automatic numbering', 'parser_enum.c parse_enum_data'), ('bit indices', 'parser_bitfield.c')], ['ort-json, ort-c-header, ort-nodejs'])
p('P16', 'Table aliases in generated queries are unique and unambiguous',
  'For every accepted configuration each nested structure reachable from a structure is given an alias made of lower-case letters that is distinct from every other alias of that structure and from every structure name, so no query refers to an ambiguous or missing table. This holds however many structures are nested.',
  ['inputs', 'configurations'], 'every structure graph, including ones needing thousands of aliases', 'Alias exhaustion and carry only occur beyond 26 or 676 nested structures.',
  ['linker_aliases.c', 'lang.c'], [('alias generation', 'linker_aliases.c linker_aliases_create and helpers')], ['generated SQL statements'])
p('P18', 'A tool succeeds only if its whole output was written',
  'For every input, each tool exits 0 only if it wrote its complete output; when the input is rejected, an option or file is bad, memory runs out or any write fails, it prints a message and exits with failure. Warnings alone never make it fail.',
  ['inputs', 'fault_sequences'], 'every input and every point at which a write can fail', 'No test injects a write failure.',
  ['main.c', 'sql.c', 'sqldiff.c', 'json.c', 'csource.c', 'cheader.c', 'cmanpage.c', 'nodejs.c', 'javascript.c', 'rust.c', 'xliff.c', 'maindiff.c', 'mainaudit.c', 'audit-json.c', 'lang.c', 'lang-sql.c'], [('checked writes', 'all lang-*.c functions return zero on failure'), ('exit status', 'main functions')], ['exit status and standard error of every tool'])
p('P19', 'No input makes the parsers crash, corrupt memory or loop',
  'For every sequence of bytes given as a configuration (or as an XLIFF file), the parsers terminate, accept or report an error with a valid position, and never read or write outside an object, use freed memory, fail an assertion or overflow a signed integer.',
  ['inputs'], 'every byte sequence', 'Tests hold well-formed and mildly malformed files only.',
  ['parser.c', 'parser_field.c', 'parser_struct.c', 'parser_enum.c', 'parser_bitfield.c', 'parser_roles.c', 'linker.c', 'linker_resolve.c', 'config.c', 'lang-xliff.c'], [('lexer', 'parser.c parse_next, buf_push'), ('release', 'config.c')], ['exit status of every tool'])
p('P20', 'Writing and re-reading a configuration gives the same configuration',
  'For every accepted configuration, the canonical form printed by ort is accepted and describes the same configuration: same names, types, attributes, documentation, labels, operations, roles and order-relevant information. Printing it again gives the same text.',
  ['inputs', 'configurations'], 'every accepted configuration', 'Round trip over the whole language; tests compare fixed pairs.',
  ['writer.c', 'parser.c'], [('canonical writer', 'writer.c ort_write_file')], ['standard output of ort'])
p('P21', 'Every generated statement binds exactly its parameters, in order',
  'For every accepted configuration and every generated operation, the generated function (C and Node.js) takes one argument per value the SQL statement needs and binds them in the order of the placeholders of that statement, each of the matching type; unary and password-equality conditions take none in SQL. The statement text itself is valid for the configured schema and selects the configured condition, ordering and limits.',
  ['inputs', 'configurations'], 'every accepted configuration and operation', 'Generated statements are never executed by the tests; mismatches depend on the mix of operators, passwords and nulls.',
  ['lang.c', 'lang-c-source.c', 'lang-nodejs.c'], [('statement text', 'lang.c gen_sql_stmts and helpers'), ('parameter binding', 'lang-c-source.c gen_query, gen_update, gen_insert; lang-nodejs.c')], ['generated SQL statements and functions'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
