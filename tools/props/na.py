# properties which this family cannot decide
prop('C30', 'An index lookup gives exactly the positions that reading every record would give',
 'For every input and every filter which an index accepts, the positions that the map, sqlite, fts5 or wildcard index gives are those of the records which an exhaustive comparison of every record would find: none is missing, none is given twice, none is extra.',
 'inputs histories', 'all inputs, all contents of an index, and all filters',
 'The tests look for a few values in a few records; whether the linked blocks of the wildcard tree, or the collations and tokenizers of sqlite, lose a record depends on the whole history of insertions.',
 ['pkg/index'], [('tree of the wildcard index', 'wildcard.TreeNode.AddSequence'), ('tables', 'Sqlite.createIndex, Fts5.createIndex')],
 None, None, na='Whether a lookup finds every occurrence is a functional property of linked structures kept in a file (the wildcard tree: splits, siblings and suffixes addressed by offsets computed at run time) and of the collation and tokenizers of sqlite, whose code is not in the repository. A static argument would need a shape analysis of a heap encoded in file offsets, or a model of sqlite; neither is in reach here. The parts which are decidable are claimed separately: every record is given to the index (C01), nothing is lost between what is written and what is read (C03), searches which cannot be answered are refused (C15), the filters are all applied (C16), the text is cut and folded the same way on both sides (C24).')
prop('C31', 'A completed index survives a crash of the machine',
 'After the power fails or the machine crashes at any point, an index file which is marked as complete contains everything that was stored in it.',
 'crash_points', 'all points of the writing of an index at which the machine can stop',
 'No test stops the machine.',
 ['pkg/index/wildcard.go', 'pkg/index/sqlite.go'], [('completion', 'Wildcard.createIndex, wildcard.Metadata.Save')],
 None, None, na='The order in which the operating system and the disk make writes durable is not in the source; rodb asks for no synchronisation (os.File.Sync) in the wildcard index and relies on the journal of sqlite elsewhere, and promises nothing in its documentation. What the source does decide, that the completion mark is written after everything else has been handed to the file, is C01.')
prop('C32', 'Parsing a value keeps it as it is in the file',
 'A text, number or boolean of an input comes out of its parser as the same text (decoded from its configured character set), the same number and the configured boolean: no digit, sign or character is lost or changed for any value of the documented syntax.',
 'inputs', 'all texts of the syntax of each parser, in all supported character sets',
 'The tests parse a few dozens of literals.',
 ['pkg/parser'], [('parsers', 'Integer.Parse, Float.Parse, Boolean.Parse, String.Parse, Json.Parse')],
 None, None, na='The result of strconv.ParseFloat, of the character set tables of golang.org/x/text and of encoding/json for every text is a numerical property of library code: no dataflow fact about the calls in rodb implies it, and executing them on samples would be testing. (Reading shows one limit: the json parser and the json input decode numbers as float64, so integers above 2^53 lose digits.) That a parser reports the failures of these libraries is C08, that it never panics is C14, and that it uses the whole text and its own settings is C13.')
prop('C33', 'The cost of a request depends on its page, not on the size of the input',
 'With the index that its filters need, a request reads a number of records bounded by its limit and offset and the relationships of the records it gives, however large the input is, and the memory of the process does not grow with the number of requests.',
 'inputs histories', 'all inputs, all requests, and all numbers of requests',
 'Tests use inputs of a few records, on which every algorithm is fast.',
 ['pkg/output', 'pkg/index'], [('lists', 'JsonArray.Handle'), ('lookups', 'Sqlite.GetRecordPositions, Wildcard.GetRecordPositions')],
 None, None, na='The cost of a lookup is that of the query plan chosen by sqlite and of the shape that the data gives to the tree of the wildcard index; bounding it needs amortised arguments over run-time sizes, outside of what a dataflow or type analysis concludes. That a list stops after its page is decided by C11, and that files and results are released by C10.')
prop('C34', 'The position and the columns of an input follow its format exactly',
 'The offsets computed while reading a CSV, XML or JSON file are those of the first byte of each record for every quoting, encoding, blank line and nesting the format allows, and the fields between two of them are those which the format defines.',
 'inputs', 'all files of the three formats',
 'The tests have a few files of each format.',
 ['pkg/input'], [('readers', 'Csv.IterateAll, Xml.IterateAll, Json.IterateAll')],
 None, None, na='The offsets come from the internal state of encoding/csv, encoding/json and github.com/antchfx/xmlquery, and their exactness depends on the buffering of these libraries for every byte sequence: a static argument would be a proof of these parsers. That rodb gives back to seek the very offset it took is C26, and that it takes each value from its own field or node, with the readers set up as configured, is C28.')
