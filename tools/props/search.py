prop('C15', 'An index refuses the searches it cannot answer, instead of answering them wrong',
 'A search is refused with an error by an index when it is made for another input than the one it was built from, when it has no filter at all, or when it filters on a property which this index does not index. It is never answered with records. (The index which is used when there is no other one, and reads all the records, accepts any input and filters.)',
 'inputs configurations', 'all searches: any input, any number of filters and any property, on each kind of index',
 'The tests try one unknown property per kind of index, alone; the combinations of known and unknown properties, inputs and kinds of indexes cannot be enumerated.',
 ['pkg/index/map.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/wildcard.go', 'pkg/index/map_config.go', 'pkg/index/sqlite_config.go', 'pkg/index/fts5_config.go', 'pkg/index/wildcard_config.go'],
 [('refusals', 'GetRecordPositions of each implementation of index.Index'), ('what is handled', 'DoesHandleProperty, DoesHandleInput of each implementation of index.Config')],
 'path-sensitive must-analysis over SSA of the tests passed before a search succeeds, with the loops over the filters required to be exhaustive',
 'Decides that every successful path of a search went through the comparison of the input, the presence of a filter, and the test of each filtered property, and that these tests accept exactly the configured names.')
prop('C16', 'A search returns only records which satisfy every one of its filters',
 'The filters of a search come from the parameters of a request, or from the conditions of a relationship. Each of them takes part in the search with its own value, whatever that value is, even empty or null, and none is dropped, changed or replaced by another one. Several filters are all required: a record is part of the result only when each index which was searched gave it; an optional parameter adds a filter if, and only if, it was given.',
 'inputs', 'all sets of filters and values, of any number and on any combination of indexes',
 'The tests make searches of one or two filters on chosen values; the combinations of filters, absent values and indexes cannot be enumerated.',
 ['pkg/output/json_common.go', 'pkg/output/json_array.go', 'pkg/output/json_object.go', 'pkg/input/record/join.go', 'pkg/index/noop.go', 'pkg/index/map.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/wildcard.go'],
 [('filters', 'JsonArray.getFiltersPerIndex, JsonObject.getRouteFiltersPerIndex, getRelationshipFiltersPerIndex'), ('searches', 'getFilteredRecordPositionsPerIndex, GetRecordPositions of each implementation of index.Index'), ('intersection', 'JoinPositionIterators')],
 'path-sensitive coverage analysis over SSA of the loops over the filters (each round must apply its filter or give up), with value-origin tracking of what is intersected',
 'Decides that each filter reaches the search and its result on every path, that all the partial results are intersected, and that the intersection compares each returned position with each of the other results. That the intersection also finds all the common positions, and the matching done by SQLite and FTS5 themselves, are outside of it.')
