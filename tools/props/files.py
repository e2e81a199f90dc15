prop('C20', 'Input files and existing indexes are never overwritten',
 'The server only reads the files around it: inputs, certificates and the configuration are opened for reading, and no file is removed, renamed or modified. The only files it writes are those of its indexes, at the place given by their configuration, and only when nothing exists there: a file or a database table which already exists is loaded or refused, never emptied, updated, dropped or created again, even when it is invalid, outdated or empty. Searches never write.',
 'histories', 'all configurations, all states of the file system and of the databases at the start, and all sequences of requests',
 'The tests start with an empty folder, or with a valid index; that nothing else is ever written or replaced, whatever is found at the start, is a statement about all the code.',
 ['pkg/index/wildcard.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/sqlite/metadata.go', 'pkg/input'],
 [('wildcard index', 'NewWildcard, createIndex and loadIndex'), ('sqlite and fts5 indexes', 'HasMetadata, Metadata.Save and createIndex'), ('inputs', 'NewCsv, NewXml, NewJson and IterateAll')],
 'enumeration of all the file and SQL effects of the program, and path-sensitive analysis of the constructors of the indexes, on which every creating effect must be preceded by the absence of what it creates',
 'Every function which can change files and every SQL statement is found over the whole program; the ones which create must come, on every path, after the absence was observed for the same path, or for the tables of the index.')
