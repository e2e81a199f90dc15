prop('C13', 'Each parser makes its value of the whole of its text and of its own settings',
 'An integer or a float is the number, in base 10 and on 64 bits, which is left once each of the ignored characters is removed, and then the decimal separator of the float taken as its decimal point. A boolean is true or false when the text is exactly one of its trueValues or falseValues, and refused only otherwise; a string is the whole text, decoded from its charset if it has one. A split gives all the parts of the text between its delimiters (a fixed text, or an expression), in their order, even empty, each converted by its configured parser; a json text is one whole document.',
 'inputs configurations', 'all texts, and all settings of the parsers',
 'The tests convert a few texts with one or two settings of each parser; the combinations of settings (an ignored character which is also the decimal point, characters of several bytes) are not tried.',
 ['pkg/parser/integer.go', 'pkg/parser/float.go', 'pkg/parser/boolean.go', 'pkg/parser/string.go', 'pkg/parser/json.go', 'pkg/parser/split.go', 'pkg/parser/split_config.go', 'pkg/util/utils.go'],
 [('numbers', 'Integer.Parse, Float.Parse, util.RemoveCharacters'), ('booleans', 'Boolean.Parse, util.IsInArray'), ('texts', 'String.Parse, Json.Parse, Split.Parse')],
 'path-sensitive dataflow over SSA with coverage of the loops over the settings, and a context-sensitive backward slice of the text which is converted',
 'Decides which operations stand between the text and the value, on which of the settings they depend, and that none of the parts or characters is skipped. A removal of characters which goes through a function literal or a builder is not decided (the evidence says so) and raises no alarm. The results of strconv, regexp, encoding/json and of the charset tables are theirs (C32).')
