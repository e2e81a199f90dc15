prop('C08', 'A failed step is never reported as a success',
 'Whenever a step of an operation fails (reading or seeking a file, decoding or parsing a value, running a query, walking its results, writing an index, building an object from the configuration, closing a file that was written), the operation itself fails with an error instead of going on with missing, partial or default data. The only exceptions are the documented ones: the end of the file while iterating over the records, an index file that does not exist yet, a csv row with another number of columns (only warned about), and the failure to release something at the end of an operation (only logged).',
 'inputs fault_sequences', 'all failures of all fallible steps, on all paths of all functions',
 'The tests inject few failures; most error paths (a read failing halfway, a query failing while its rows are walked, an index page that cannot be written) cannot be provoked from a test, and a swallowed error looks like a smaller, valid result.',
 ['pkg/input', 'pkg/index', 'pkg/output', 'pkg/parser', 'pkg/service', 'pkg/config', 'pkg/util', 'cmd/main.go'],
 [('error returns of every function', 'all packages'), ('rows.Err', 'pkg/index/sqlite/positions.go'), ('end of the json stream', 'Json.IterateAll')],
 'path-sensitive typestate analysis of error values over SSA (each error-returning call opens an obligation discharged only by a nil test, an enumerated sentinel, or a non-nil error return)',
 'Decides, for every call site of the repository which returns an error, that on every path the error is known to be nil, is one of the enumerated non-failures, or makes the function fail. It does not decide which error text is given, nor failures which the libraries do not report.')
