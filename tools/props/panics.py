prop('C14', 'No request, input or accepted configuration makes the process panic or end',
 'Whatever the content of the inputs, the parameters, paths and bodies of the requests, and the configuration, no operation panics: positions of lists and parts of texts are only taken within their length; capacities asked for are bounded by something which exists; values whose type depends on the input or the configuration are only treated as a given type once they are known to be of it; what may be absent is only used once it is known to be there; and arrays and objects are never compared, nor used as keys. The process is ended by its start only, or by the change of an input which requires it.',
 'inputs configurations histories', 'all input files, requests and configurations, and all states of the components',
 'A panic needs one particular value (a short row, a missing property, a huge limit, an array where a text was expected), and the tests use a few regular ones.',
 ['pkg/input/record/path.go', 'pkg/input/json_record.go', 'pkg/input/xml_record.go', 'pkg/input/csv_record.go', 'pkg/input/csv.go', 'pkg/input/xml.go', 'pkg/index/map.go', 'pkg/index/noop.go', 'pkg/output/json_common.go', 'pkg/output/json_array.go', 'pkg/service/http.go', 'pkg/index/wildcard.go'],
 [('paths of properties', 'record GetSubValue'), ('rows of an input', 'NewCsvRow, NewXml'), ('filters', 'GetRecordPositions of each index'), ('relationships and limits', 'loadRelationships, JsonArray.Handle'), ('values of a record', 'compareValues and sort')],
 'path-sensitive value-range analysis (difference bounds over lengths, indexes and opaque values), nil and dynamic-type typestate, with obligations passed to the callers of the function which has them',
 'Accesses whose index is carried by a loop without a derivable bound, the arithmetic of the file of the wildcard index, and panics inside of libraries are not decided; the evidence counts the first.')
