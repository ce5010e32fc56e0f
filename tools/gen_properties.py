#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so ids and wording stay in step)."""
import json, os
P = []
SP='src/toron/space.py'; DS='src/toron/data_service.py'; RE='src/toron/dal1/repositories.py'
CO='src/toron/dal1/data_connector.py'; SC='src/toron/dal1/schema.py'; MI='src/toron/dal1/migrations.py'
LM='src/toron/dal1/label_manager.py'; DM='src/toron/data_models.py'; GR='src/toron/graph.py'
MA='src/toron/mapper.py'; RD='src/toron/reader.py'; SE='src/toron/selectors.py'; UT='src/toron/_utils.py'
CM='src/toron/cli/common.py'; MN='src/toron/cli/main.py'; MP='src/toron/cli/command_mapping.py'
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Every data-changing operation on a space is all-or-nothing',
  'An operation that changes the data stored in a space either applies all of its changes or none of them: if it raises an error (or is interrupted) at any point, the stored data is exactly what it was before the call. All the changes an operation makes become durable together, at one commit, and an error is never followed by a commit of partial work.',
  ['inputs', 'fault_sequences', 'crash_points'], 'every public operation, every input, every point at which a statement or callback inside it can fail',
  'Tests check a few rollbacks; an error can be raised at any of the hundreds of statements and input rows of an operation.',
  [SP, CO, LM], [('_managed_transaction', SP), ('transaction_begin/commit/rollback', CO), ('mutating DataSpace methods', SP), ('legacy_rename_labels, legacy_drop_labels', LM)],
  [('transaction', 'whether the connection is inside BEGIN..COMMIT', CO)])
p('C02', 'Connections, cursors and temporary files are released on every exit',
  'Every database connection, cursor, file handle and temporary file that an operation opens is released exactly when the operation ends, however it ends: normal return, error, or a result iterator abandoned half-way. Temporary cache files are removed when the object owning them goes away.',
  ['inputs', 'fault_sequences', 'histories'], 'all operations and all exits, including abandoned generators',
  'Leaks are invisible to assertions on results, and the failing exits are rarely sampled.',
  [SP, CO, RD, MA, CM], [('_managed_connection, _managed_cursor', SP), ('acquire/release_connection', CO), ('NodeReader temporary database', RD), ('closing(...) idiom', CO)])
p('C03', 'Saving a space to a file is atomic and (by default) durable',
  'Saving never leaves a half-written destination: the destination path is only ever changed by one atomic replacement with a complete temporary file written in the same directory, after write permission was checked. With the default settings the data is flushed to storage before the replacement and the directory after it, and when saving fails the temporary file is removed and the error is raised.',
  ['crash_points', 'fault_sequences', 'configurations'], 'every crash or failure point during a save, either fsync setting, every SQLite version branch',
  'Tests save to a healthy disk and compare the result; they cannot cut the power between two calls.',
  [CO], [('save_to_file', CO), ('best_effort_fsync', CO), ('os.replace', CO)])
p('C04', 'A space bound read-only never changes its file',
  'A space bound in read-only mode opens its file read-only for every connection it ever makes, never creates or upgrades the file, and refuses a file that would need an upgrade. Binding for writing is refused without write permission or, unless creation was asked for, when the file is missing.',
  ['inputs', 'histories', 'configurations'], 'every connection made during the life of a bound space, all modes, old and new files',
  'Each later operation opens its own connection; tests sample one or two of them.',
  [SP, CO, MI, 'src/toron/data_access.py'], [('bind_file', SP), ('DataConnector.bind_file', CO), ('acquire_connection', CO), ('apply_migrations', MI)],
  [('access mode', 'mode requested when the file was bound', CO)])
p('C05', 'Reading a space never changes it',
  'Operations that only report on a space (listing, selecting, disaggregating, translating, describing and exporting, and reading properties) never insert, update or delete stored data or alter the stored tables.',
  ['inputs', 'histories'], 'every query operation with every argument',
  'Tests compare query results, not the whole database before and after for every query and argument.',
  [SP, GR, RD, RE, DS], [('select_* and property methods', SP), ('__call__, _disaggregate', SP), ('translate', GR), ('get/find/filter methods', RE)])
p('C06', 'Command line: backup precedes change, and read-only commands stay read-only',
  'Every command-line command that changes a space file performs the requested backup of that file before making its first change. Commands that only report open the file read-only and change nothing.',
  ['inputs', 'crash_points', 'configurations'], 'every command and option combination',
  'Tests exercise a handful of command lines and do not order the backup against the first write.',
  ['src/toron/cli/command_*.py', CM, MN], [('process_backup_option', CM), ('cli_bind_file', CM), ('command functions', 'src/toron/cli/')])
p('C07', 'The index fingerprint always describes the current index records',
  'Whenever an operation that adds, removes or merges index records completes, the stored index fingerprint has been recomputed from all index ids, in ascending order, as they are after the change. No other operation alters the fingerprint.',
  ['inputs', 'histories'], 'every operation and sequence of operations, every row outcome',
  'A stale fingerprint only shows later, when a link is judged current or outdated; tests check it for a few inputs.',
  [SP, DS, UT], [('refresh_index_hash_property', DS), ('insert_index, update_index, delete_index', SP), ('SequenceHash', UT)],
  [('index_hash', 'fingerprint of the sorted index ids', 'property table')])
p('C08', 'Partition structure and granularity follow every index or partition change',
  'Whenever an operation that changes index records, label values, label columns or partition definitions completes, the stored structure has one entry per structure set of the current partition definitions and every granularity value has been recomputed from the index as it is after the change.',
  ['inputs', 'histories'], 'every mutating operation, every outcome of its rows',
  'Stale granularity silently changes which partition is treated as finest; tests look at it after a few operations.',
  [SP, DS], [('refresh_structure_granularity', DS), ('rebuild_structure_table', DS), ('refresh_or_rebuild_structure_granularity', DS)],
  [('structure records', 'bits and granularity per structure set', 'label_structure table')])
p('C09', 'A weight group is marked complete only while every index record has a weight',
  'After any operation that adds, deletes or merges index records or weights, each affected weight group is marked complete only if every index record other than the undefined record has a weight in it; a group that became complete through the operation is marked so.',
  ['inputs', 'histories'], 'all operations that change index records or weights, every outcome per row',
  'The flag is derived state maintained by hand at a dozen sites; tests cover some operations in some orders.',
  [SP, RE], [('weight_group_is_complete', RE), ('insert_index, update_index, delete_index, insert_weights, update_weights, delete_weights', SP)],
  [('is_complete', 'derived completeness flag', 'weight_group table')])
p('C10', 'Link status (source fingerprint, completeness) follows every mapping change',
  'After any operation that adds, deletes or merges mappings or index records, every affected link carries the fingerprint of the source index ids it now maps, in ascending order, and is marked locally complete only if every local index record is mapped.',
  ['inputs', 'histories'], 'all operations that change mappings or index records',
  'Derived state maintained by hand at many sites; a stale value only matters in a later translation.',
  [SP, RE, MA], [('insert_mappings, insert_mappings2, update_mappings, delete_mappings', SP), ('delete_index, insert_index, update_index', SP), ('mapping_is_complete, find_distinct_other_index_ids', RE)],
  [('other_index_hash, is_locally_complete', 'derived link status', 'link table')])
p('C11', 'Mapping proportions are recomputed after every mapping change',
  'After any operation that adds, changes or removes mappings of a link, the proportions of every affected source record have been recomputed from the mapping values as they are after the change, so they again share out the whole of that record.',
  ['inputs', 'histories'], 'all operations that change mapping values',
  'Proportions drive every translation; tests check them after a few edits.',
  [SP, DM, DS], [('refresh_proportions', DM), ('mapping operations', SP), ('delete_index_record', DS)],
  [('proportion', 'share of a source record given to an index record', 'mapping table')])
p('C12', 'Deleting a record leaves no orphaned weights, mappings or quantities',
  'Deleting an index record, weight group, link, location or attribute group also removes every weight, mapping or quantity that refers to it, on every kind of space (new, loaded, cached or bound). References to a missing record are rejected.',
  ['inputs', 'configurations', 'histories'], 'every deletion, every way a space can be opened, every stored dependent',
  'Tests mostly use freshly created in-memory spaces; enforcement depends on per-connection settings.',
  [SC, CO, DS, RE], [('ON DELETE CASCADE foreign keys', SC), ('PRAGMA foreign_keys', CO), ('delete_index_record', DS)])
p('C13', 'The undefined record is permanent and index ids are never reused',
  'Every space always contains its undefined record, which cannot be edited, deleted or given a weight, and nothing maps undefined to undefined. The id of a deleted index record is never given to another record.',
  ['inputs', 'histories'], 'all operations, all histories of inserts and deletes, all ways of rebuilding the tables',
  'Tests try direct edits on a fresh space; the guard has to survive every table rebuild and upgrade.',
  [SC, RE, LM, MI], [('triggers on label_index', SC), ('AUTOINCREMENT on index_id', SC), ('weight CHECK constraint and add()', RE)])
p('C14', 'Label columns stay identical in index, locations and structure',
  'The label columns of index records, of quantity locations and of the partition structure are always the same columns in the same order: adding, renaming or removing a label column changes all three together.',
  ['inputs', 'histories'], 'every sequence of column operations',
  'Positional code all over the system pairs these columns; tests run a few column edits.',
  [LM, SC, MI], [('LabelManager.add_columns/rename_columns/drop_columns', LM), ('legacy_rename_labels, legacy_drop_labels', LM)])
p('C15', 'User-supplied names and values can never alter a database command',
  'Label names, attribute names, selectors, values and paths supplied by users reach the database only as bound parameters or as properly quoted identifiers, so a name containing spaces, keywords, quotes or punctuation works like any other and never changes what a command does.',
  ['inputs'], 'every string a user can supply as name or value',
  'The space of hostile or merely unusual names is unbounded; tests use mostly plain ones.',
  [RE, LM, SC, MI, RD, MA, 'src/toron/dal1/optimizations.py'], [('format_identifier', SC), ('parameter binding in execute()', RE)])
p('C16', 'Iterating over results is never disturbed by other queries in the operation',
  'While an operation is still reading the rows of one query, nothing it does in the meantime makes that reading lose, repeat or mix rows: no other query is issued through the same database cursor before the rows have been read or the reading has been given up.',
  ['inputs', 'histories'], 'every loop over stored rows, every number of rows',
  'With one row the fault is invisible; which loops overlap depends on the data.',
  [SP, DS, RE, DM, MA, RD], [('separate or auxiliary cursors', SP), ('eager list() fetches', SP), ('lazy repository iterators', RE)])
p('C17', 'Names are validated before they become labels or attributes',
  'No operation can create a label column or register an attribute whose name is reserved, already used as a label, or already used as an attribute; the conflict is reported before anything is changed.',
  ['inputs', 'histories'], 'every way to introduce a name, every existing set of names',
  'Tests try single conflicts through single entry points.',
  [SP, DS, LM], [('validate_new_index_columns', DS), ('set_registered_attributes', DS)])
p('C18', 'Partition definitions always cover the whole space with existing labels',
  'After any change to partition definitions or label columns, the stored definitions include the one made of all label columns, use only existing label names, and contain no definition that the others already generate; the whole-space definition cannot be dropped.',
  ['inputs', 'histories'], 'every sequence of partition and column operations',
  'The invariant spans several operations and their order.',
  [SP, DS, 'src/toron/partitions.py'], [('add_partition_definition(s), remove_partition_definition, rename_partition_definitions', DS), ('find_minimal_partition_generating_set', 'src/toron/partitions.py')],
  [('partition_definitions', 'stored list of label sets', 'property table')])
p('C19', 'Opening an older file upgrades it completely, or leaves it unchanged',
  'A file in any older supported format is upgraded step by step to the current format, keeping its records, in one transaction that is committed only after reference integrity was verified; on any error the file is unchanged. A file in an unsupported format is refused.',
  ['inputs', 'crash_points', 'fault_sequences', 'configurations'], 'every supported starting version, every failure point',
  'Tests upgrade a few sample files without failures.',
  [MI, SC, CO], [('apply_migrations', MI), ('verify_foreign_key_check', SC), ('version dispatch', MI)],
  [('toron_schema_version', 'format version stored in the file', 'property table')])
p('C20', 'Database protections lifted for an operation are always put back',
  'When an operation lifts database protections (constraints, triggers or reference checking), all of them are in force again when it completes, and reference checking is restored however it ends.',
  ['inputs', 'fault_sequences'], 'every operation that lifts protections, every exit',
  'A protection that is not restored changes nothing visible until a later invalid edit is accepted.',
  [LM, MI, SC], [('drop_schema_constraints / create_schema_constraints', SC), ('PRAGMA foreign_keys OFF/ON', MI)])
p('C21', 'Exported rows always line up with their header',
  'For every tabular result, each row has exactly as many fields as the header, in the same order (domain, labels, attributes, value), and rows are the same whether or not the header is requested.',
  ['inputs', 'configurations'], 'all spaces (with or without domain), all numbers of labels and attributes, header on or off',
  'Tests fix one shape of space; several exports never run without a header.',
  [SP, MA, RD, 'src/toron/cli'], [('select_* generators', SP), ('CSV writers', 'src/toron/cli/common.py')])
p('C22', 'No input row is dropped silently',
  'Every input row that a load, update or delete operation does not apply is counted by reason, and each such count is reported to the user as a warning or log message when the operation ends.',
  ['inputs'], 'every row and every reason for skipping it',
  'Each reason is a separate branch; tests cover common ones.',
  [SP, GR, MP], [('counter updates before continue', SP), ('warn_if_issues and applogger summaries', SP)])
p('C23', 'Conflict policies do exactly what their name says',
  'Where an operation accepts a conflict policy, abort raises an error and changes nothing, ignore keeps the existing value, replace stores the new value, sum stores the total, and any other policy name is rejected rather than treated as one of these.',
  ['inputs', 'configurations'], 'all policies, all conflicting rows',
  'The policy branches multiply with the kinds of conflict; tests cover a subset.',
  [SP, DM, MN], [('on_label_conflict, on_weight_conflict, on_conflict, on_existing', SP), ('add_or_resolve', DM)])
p('C24', 'Each stored field is written to and read from its own column',
  'For every kind of record, adding or updating it stores each field in the column meant for it and restricts the change to that record, and reading it back fills each field from that column; a missing record is reported rather than invented.',
  ['inputs'], 'all records and all field values',
  'Positional parameters can be swapped between fields whose sample values coincide.',
  [RE, DM, SC], [('repository add/get/update/delete', RE), ('record classes', DM), ('table definitions', SC)])
p('C25', 'The identity and format properties of a space never change',
  'The unique id, creation date and format version of a space are written only when the space is created or upgraded; no other operation can set or remove them, and a loaded or bound space reports the identity stored in its file.',
  ['inputs', 'histories'], 'all operations of the library and command line',
  'Absence of a write has to hold for every operation.',
  [SC, CO, SP, DS, MI], [('create_node_schema', SC), ('get_unique_id', SC), ('property writers', DS)],
  [('unique_id, created_date, toron_schema_version', 'identity properties', 'property table')])
p('C26', 'Translation never uses an outdated or incomplete link',
  'Data is translated only through links whose recorded source fingerprint equals that of the data; otherwise the translation is refused. A link chosen by its selectors must also be marked locally complete.',
  ['inputs', 'histories'], 'all pairs of spaces and all histories of changes on both sides',
  'Staleness arises from histories on two spaces.',
  [GR, DS, RD], [('translate', GR), ('make_get_link_id_func', DS)])
p('C27', 'Disaggregation only uses complete weight groups and loses no index record',
  'Quantities are disaggregated only with weight groups that are marked complete (a missing or incomplete default weight group is an error), and each matching index record receives exactly one share of each quantity; a quantity with no matching index record is an error, never dropped.',
  ['inputs', 'histories'], 'all quantities, weight groups and index records',
  'The share-out has several special cases that tests sample.',
  [SP, DS], [('_disaggregate', SP), ('disaggregate_value', DS)])
p('C28', 'Every selector operator is implemented and selector identity is consistent',
  'Every selector form the grammar accepts is evaluated by its own rule, selectors that compare equal have equal hashes, and a selector prints in a form that denotes the same operator.',
  ['inputs'], 'all selector expressions',
  'The expressions are unbounded and the grammar, the builder and the classes must agree.',
  [SE], [('grammar and transformer', SE), ('selector classes', SE)])
p('C29', 'Every command ends with a defined exit status and reports its errors',
  'Every command-line command has exactly one handler and ends with a defined exit status on every path; any error the library reports to the user ends in a message and a failure status, never in a success status.',
  ['inputs', 'fault_sequences', 'configurations'], 'all commands, all options, all library errors',
  'Every path of every command would have to be run.',
  [MN, 'src/toron/cli/command_*.py', CM], [('main dispatch', MN), ('ExitCode', CM)])
p('C30', 'Default link and default weight group stay unique and valid',
  'At most one link per source space is marked as default and at most one weight group is the default; making another one default or deleting the default updates or clears the earlier mark in the same operation.',
  ['inputs', 'histories'], 'all sequences of add, edit and drop operations',
  'Depends on the order of operations.',
  [SP, DS, SC], [('add_link, edit_link', SP), ('add_weight_group, drop_weight_group', SP), ('UNIQUE (is_default, other_unique_id)', SC)])
p('C31', 'Stored references to label names follow label renames and removals',
  'When a label column is renamed or removed, everything in the space that refers to labels by name (partition definitions and display order) is updated in the same operation, so no operation ever reports or uses a label name that no longer exists.',
  ['inputs', 'histories'], 'all rename and removal sequences',
  'Tests check the column itself; the other references surface in later calls.',
  [SP, DS, LM], [('rename_label_column, rename_index_columns, drop_index_columns', SP), ('rename_partition_definitions', DS), ('get_labels_in_display_order', DS)])
p('C32', 'Index codes and labels of imported rows are verified before they are used',
  'A row that identifies an index record by an id or index code is applied only after its labels or checksum were found to agree with that record; otherwise it is rejected or counted as skipped.',
  ['inputs'], 'all imported rows',
  'Needs every combination of id, labels and code per loader.',
  [SP, CM, MP, MA], [('label comparison in loaders', SP), ('index code checksum', CM)])

# ------------------------------------------------------------------
# properties stated for completeness that static analysis cannot decide
# ------------------------------------------------------------------
p('C40', 'Disaggregation preserves totals',
  'The parts into which a quantity is disaggregated always add up to the quantity, and with quantization each part is a whole number where possible while the total is unchanged.',
  ['inputs'], 'all quantities and weights', 'Floating point totals over unbounded inputs.',
  [DS, UT, SP], [('disaggregate_value', DS), ('quantize_values', UT)])
p('C41', 'Translation preserves totals',
  'Translating data through a complete link preserves the total of every attribute combination.',
  ['inputs', 'histories'], 'all data and links', 'Numeric totals over unbounded data.',
  [GR, DM], [('translate', GR), ('refresh_proportions', DM)])
p('C42', 'Granularity equals the entropy measure it is documented to be',
  'The granularity of a partition equals the documented entropy formula, and the optimized and the general computation agree.',
  ['inputs'], 'all index contents', 'Numerical equality of two algorithms.',
  [DS, 'src/toron/dal1/optimizations.py'], [('calculate_granularity', DS)])
p('C43', 'Save and load round-trip a space exactly',
  'A space saved and read back is equal to the original in every record and property.',
  ['inputs', 'histories'], 'all spaces', 'Equality of unbounded stored content.',
  [CO], [('save_to_file, read_from_file', CO)])
p('C44', 'The label matcher finds the best-matching records',
  'Automatic mapping matches each source record to exactly the index records its labels denote.',
  ['inputs'], 'all pairs of label sets', 'Depends on run-time label values.',
  [MA], [('Mapper.match_records', MA)])
p('C45', 'Concurrent processes see a bound file consistently',
  'Several processes bound to one file never corrupt it or see partial operations.',
  ['schedules'], 'all interleavings of processes', 'Interleavings are not sampled.',
  [CO], [('SQLite locking', CO)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
