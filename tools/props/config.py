prop('C12', 'A configuration is accepted only when everything it refers to exists and fits',
 'A configuration is refused, before anything starts, when it has an unknown key, when two definitions of the same kind (or two elements of a list which are known by their name) have the same name, when a definition has no name, when a name refers to an input, an index, a parser or an output which is not defined, or when a parameter or a relationship uses an index which does not handle its input or its property. This goes for each definition, and for each part of it, however deep.',
 'configurations', 'all configurations, with any number of definitions nested at any depth',
 'The tests validate one faulty field at a time in small definitions; the combinations of kinds, types and levels of nesting cannot be enumerated.',
 ['pkg/config/config.go', 'pkg/input/csv_config.go', 'pkg/input/xml_config.go', 'pkg/parser/split_config.go', 'pkg/service/http_config.go', 'pkg/output/json_array_config.go', 'pkg/output/json_object_config.go', 'pkg/output/parameter/config.go', 'pkg/output/relationship/config.go', 'pkg/index/map_config.go', 'pkg/index/sqlite_config.go', 'pkg/index/fts5_config.go', 'pkg/index/wildcard_config.go'],
 [('validation', 'Validate method of each structure of the configuration'), ('definitions', 'NewConfigFromYamlFile, NewConfigFromParsedConfig')],
 'path-sensitive must-analysis over SSA of each validation: lookups passed before it succeeds, and coverage of its nested parts by loops which go to their end',
 'Decides that no validation succeeds without having found each referenced name, validated each nested part and taken its refusal into account, and that no definition is lost or replaced while the file is read. What can only be known while reading the data (names of properties) is outside of it.')
