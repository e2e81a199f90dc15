prop('C11', 'A list returns exactly the page which was asked for, never above the maximum',
 'A list skips exactly as many matching records as the offset, then returns the following ones, one entry for each, until it has as many as the limit or there are no more. The limit is the requested one, or the default one when none is requested, and never above the configured maximum; a limit which is not a positive number and an offset which is negative or not a number are refused.',
 'inputs configurations', 'all values of the limit and of the offset, and all numbers of matching records',
 'The tests ask for a few small pages; the combinations of limit, offset, maximum and number of records cannot be enumerated.',
 ['pkg/output/json_array.go', 'pkg/output/json_array_config.go'],
 [('limit and offset', 'JsonArray.getLimit, JsonArray.getOffset'), ('page', 'JsonArray.Handle')],
 'path-sensitive value-range analysis of the limit and offset over SSA, and induction-variable analysis of the loops which take the positions',
 'Decides the origin and the bounds of the limit and of the offset on every path, and that the loops of a list take exactly as many positions as they say, in that order, leaving early only when there are none left or on a failure. The order of the positions themselves comes from the index.')
