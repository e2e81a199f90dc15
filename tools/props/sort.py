prop('C25', 'Sorted records are in the order of their criteria, each in its direction',
 'A sorted list holds the same records, in an order where the first criterion of the configuration for which two records differ decides, ascending unless it is configured as descending, and the next criteria only count when the records are equal for the previous ones. The values of a criterion are compared as they are: texts by their bytes, numbers by their value over their whole range, false before true. The order of records which are equal for all the criteria is not specified.',
 'inputs configurations', 'all lists of records, all values of the same kind, and all lists of criteria with their directions',
 'The tests sort three records by two criteria, and compare a few pairs of values; that the comparison is a total order over all the values, and for all the lists of criteria, cannot be sampled.',
 ['pkg/input/record/sort.go', 'pkg/input/record/sort_config.go', 'pkg/parser/parser.go'],
 [('comparison of two values', 'parser.Compare'), ('comparison of two records', 'recordListSorter.Less'), ('sort', 'List.Sort'), ('direction', 'SortConfig.IsAscending and SortConfig.Validate')],
 'path-sensitive analysis over SSA with an abstract domain of the possible relations (smaller, equal, greater) and directions, each remaining combination of which must give the expected answer on every path',
 'Decides that the comparison of two values answers what their relation is for each kind of value, that the criteria are applied in order and in their direction, and that the whole list is sorted and returned. NaN, which cannot be ordered, and values of different kinds, which are logged as errors, are outside of it.')
