prop('C21', 'Every documented type and setting of the configuration can be used',
 'Each section, component type and setting which the documentation of the configuration describes is read from its documented key, into a definition of its own type and with the documented kind of value, and something else than its validation uses it; a definition of an unknown type is refused. The examples of the documentation and of the repository only contain settings which are accepted.',
 'configurations', 'all the documented settings of all the documented types',
 'The tests build most definitions directly, without reading them from a file, and none of them reads the documentation.',
 ['docs/schema', 'pkg/config', 'pkg/parser', 'pkg/input', 'pkg/index', 'pkg/output', 'pkg/service', 'examples'],
 [('reading of a definition by its type', 'the UnmarshalYAML method of each section'), ('creation of the components', 'NewFromConfig of each package'), ('keys', 'the structures of the configuration')],
 'the documented schema is compared to the types of the configuration; path-sensitive constant propagation through the decoding of each type; use analysis of the fields',
 'That a documented setting has the documented effect is the matter of the other properties.')
prop('C22', 'Defaults, required settings and allowed values are as documented',
 'A setting which is not given has the default value which the documentation states, and one which is given with an allowed value keeps it. A definition is refused when a required name, path, expression or list is missing, when a setting with a list of allowed values has another one, or when none of the addresses of a service is given. The default parsers and the default index exist with their documented content, unless the configuration replaces them.',
 'configurations', 'all definitions of each documented type',
 'The tests give most of the settings explicitly, and only try a few invalid values.',
 ['docs/schema', 'pkg/config/config.go', 'pkg/parser', 'pkg/input', 'pkg/index', 'pkg/output', 'pkg/service'],
 [('validation of the definitions', 'the Validate methods'), ('default definitions', 'NewConfigFromYamlFile'), ('optional settings', 'the accessors such as ShouldDieOnInputChange, IsAscending')],
 'path-sensitive constant propagation through the validation of each definition, for each documented default, requirement and allowed value, with the documentation as the oracle',
 'The name of a definition is covered by C12. A setting of a kind which is decided by another one (the parser of an xml property) has its default for the kind which it belongs to. The parameters of a jsonArray output may be left out.')
