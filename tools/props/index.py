prop('C01', 'An index is complete only once every record of its input is stored in it',
 'When an index is created, every record of the input is read up to the end, and every configured property of every record is stored with the position of that record, before the next record is taken. An index kept in a file or database is recorded as incomplete before its first record is stored, and as complete only after the last one was stored and written out; if the creation is interrupted or fails at any point, the index is never recorded as complete and the start fails.',
 'inputs crash_points fault_sequences', 'all inputs (including null, empty and array values), all points where the creation can fail or be interrupted',
 'The tests index three or four records which all succeed; a record or a value skipped on a rare branch, an error taken for the end of the input, or an index marked complete while data is still buffered only shows for specific records or after an interruption at a specific point.',
 ['pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/wildcard.go', 'pkg/index/map.go', 'pkg/index/sqlite/metadata.go', 'pkg/index/wildcard/metadata.go', 'pkg/index/wildcard/stream.go'],
 [('creation loops', 'createIndex of Sqlite, Fts5 and Wildcard, Map.reindex'), ('completed flag', 'Metadata.SetCompleted and Metadata.Save of both packages'), ('buffer of the index file', 'wildcard.Stream.Flush')],
 'path-sensitive typestate analysis over SSA of the index constructors (record, value, flush and completion events ordered on every path)',
 'Decides, on every path of every index constructor, that completion is recorded only at the end of the iteration, after a flush, that the incomplete state is recorded before the first insertion, and that each record and each property value reaches a storing statement. It does not decide that the search structures find what was stored, nor durability below the operating system.')
prop('C02', 'An index built from other data is refused',
 'A stored index is used without being rebuilt only if its description says that it was completed, by the same version of the format, from an input whose size and modification time (to the second) are exactly those of the index\'s input now; for a wildcard index, also that the file is one, with the same ignoreCase setting and number of properties. In every other case the start fails. The description recorded with an index holds the size and modification time that its own input file had before it was read.',
 'inputs histories', 'all contents of the description, all states of the input file, in all combinations',
 'The tests change one field of the description at a time; a comparison weakened to an ordering, or skipped when another one succeeds, is only visible for some combinations, and which input the facts come from is not visible with a mocked input.',
 ['pkg/index/sqlite/metadata.go', 'pkg/index/wildcard/metadata.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/wildcard.go', 'pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go'],
 [('validation', 'Metadata.AssertValid of both packages'), ('description', 'NewMetadata of both packages'), ('file facts', 'Size and ModTime of the inputs')],
 'path-sensitive analysis over SSA (every accepting path of the validation must hold an equality between each stored field and the same source of the current value; every start without creation must pass it)',
 'Decides that each accepting path compares each stored field by equality with the current value of the same origin, that a start without creation always passes the validation for the index\'s own input, and that the facts recorded are taken from that input before it is read. Settings which are not part of the description (sqlite and fts5 properties, collation, tokenizer) are not covered.')
