prop('C17', 'The relationships of a record are all resolved, sorted, limited as configured',
 'Every record of an answer, at any level, has each of its configured relationships under its name, found in the input of the relationship with the values of the properties of the record itself. An array relationship is a list (empty when nothing matches) of all the matching records, or of the first ones up to its limit, which is applied after the sort; another relationship is its first record, or null. Each of the related records has its own nested relationships resolved in the same way.',
 'inputs configurations', 'all configurations of relationships (names, depth, sort, limit, array or not) and all contents of the inputs',
 'The tests use one small relationship with few records; the combinations of a sort and a limit, of names which collide and of depths cannot be enumerated.',
 ['pkg/output/json_common.go', 'pkg/output/json_object.go', 'pkg/output/json_array.go', 'pkg/output/relationship/config.go'],
 [('resolution', 'loadRelationships'), ('values of the parent', 'getRelationshipFiltersPerIndex'), ('records of an answer', 'getDataFromPosition, called by the Handle of each implementation of output.Output')],
 'path-sensitive typestate analysis over SSA of the current relationship (array, limit, sort, bound of the loops), and matching of the loops against the collections they must exhaust',
 'Decides, on every path of the resolution, that the records are all collected, sorted before any is left out, cut exactly at the limit, stored in the right shape, and that the nested and the outer calls are made for each record. The order given by the sort itself is C25; which records match is C15 and C16.')
