prop('C10', 'Files and database results are released on every path, including failures',
 'Whatever an operation opens to do its work (the results of a query, the file behind an iteration) is given back when it ends, however it ends, so that the server never runs out of them: a query gives its results back even when it fails half-way, and a search over an input releases the input once it is exhausted or has failed. Ending an iteration over an input releases its file wherever the iteration stopped, and closing a component closes every file, database, watcher and server it holds. A search that is abandoned before its end is out of scope.',
 'inputs fault_sequences', 'all requests, records, and failures of the inputs and of the database, in any number',
 'A leaked handle changes nothing in the result of a test; it only shows on the failing paths, after thousands of requests.',
 ['pkg/index/sqlite/positions.go', 'pkg/index/noop.go', 'pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go', 'pkg/index/wildcard.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/service/http.go'],
 [('database results', 'sqlite.ReadPositions'), ('iterations', 'Csv.IterateAll, Json.IterateAll, Xml.IterateAll'), ('closing', 'the Close method of the inputs, indexes and services')],
 'resource typestate analysis over SSA: every acquisition is followed on all the paths to a release, an owner, or a violation',
 'Decides on every path through the code (loops included, calls inlined) that an acquired handle is released or handed over, and that the end callbacks and Close methods reach the release of every handle they own. It does not decide when the release of an abandoned search happens, nor what a Close which fails half-way leaves open.')
