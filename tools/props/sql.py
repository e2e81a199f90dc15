prop('C09', 'Request and configuration values never become part of an SQL statement',
 'Whatever the values of a request, of a record or of the configuration, they cannot change what a statement sent to the database does: the values searched for or inserted are always bound apart from the text of the statement, the names which come from the configuration (index, properties, tokenizer) are always quoted as identifiers with their quotes doubled, and the collations are restricted to the supported ones.',
 'inputs configurations', 'all values of the requests, records and configurations, including quotes, comments and control characters',
 'The tests use plain names and values; an injection only shows with a value made for the way the statement happens to be built.',
 ['pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/sqlite/metadata.go', 'pkg/index/sqlite/sanitize.go', 'pkg/index/sqlite_config.go'],
 [('statements', 'every call of Exec, Query, QueryRow and Prepare'), ('quoting', 'sqlite.SanitizeIdentifier'), ('collations', 'SqlitePropertyConfig.Validate')],
 'interprocedural backward data-dependence (taint) analysis over SSA from the text of each statement to its origins',
 'Decides that every origin of the text of every statement is a constant, a number, the result of a verified quoting function, or a configuration value which its validation restricts to constants. It does not decide the meaning of the full-text query language, which is documented to be open to the requests.')
