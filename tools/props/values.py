prop('C28', 'Each property of a record has the value of its own place, from its own parser',
 'The value of a CSV column is the field at its place in the row, converted by the parser of that column; the value of an XML property is what its own xpath gives within the node of its parent, converted by its own parser (or given as it is, when the parser is of the kind of the result). A whole record gives every configured property, with the value that asking for it alone gives. A path is followed one part between dots at a time, and gives nothing, without an error, when an entry or an index does not exist.',
 'inputs configurations', 'all records, all configurations of the columns and properties, and all paths',
 'The tests read a few records with one or two columns or properties of each kind; the nestings, the paths into parsed values and the orders of columns cannot be enumerated.',
 ['pkg/input/csv.go', 'pkg/input/csv_record.go', 'pkg/input/xml_record.go', 'pkg/input/json_record.go', 'pkg/input/record/path.go'],
 [('CSV columns', 'CsvRecord.Get, CsvRecord.All, NewCsv'), ('XML properties', 'XmlRecord.Get, XmlRecord.All'), ('paths', 'JsonRecord.Get, record.GetSubValue')],
 'symbolic execution to normal forms of the terms over SSA, and provenance of each value returned by a record (which place, which parser, which part of the path)',
 'Decides, for every value that a record can return, where it comes from: the field or node it was read in, the parser it was given to, the name it is given under, and the part of the path followed at each step; also the settings of the CSV reader which decide what a field is. The results of the xpath, csv and json libraries for a given text are theirs; what each parser does with its text is C13 and C32.')
