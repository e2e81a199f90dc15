seed('c09-quoter-shortcut', 'C09', 'a property name with a double quote after a valid word',
 'Property names which look plain are not quoted by the database anymore, but the pattern is not anchored at the end: a property whose name has a double quote ends the identifier, and the rest of its name becomes part of the statement.',
 [('pkg/index/sqlite.go', '''	"reflect"
	"strings"
)
''', '''	"reflect"
	"regexp"
	"strings"
)

var plainPropertyName = regexp.MustCompile("^[a-zA-Z0-9_]+")
'''), ('pkg/index/sqlite.go', '''	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("property_%v", propertyName))
''', '''	// Avoids a round-trip to the database for each filter with the most common property names
	if plainPropertyName.MatchString(propertyName) {
		return `"property_` + propertyName + `"`, nil
	}

	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("property_%v", propertyName))
''')], 'pkg/index', JSON_REC + '''
func TestDemo(t *testing.T) {
	property := "a\\" BLOB, \\"property_b"
	in := demoInput(
		&demoRecord{0, map[string]interface{}{property: "x"}},
		&demoRecord{10, map[string]interface{}{property: "y"}},
	)
	index, err := NewSqlite(&SqliteConfig{
		Name: "demo", Dsn: ":memory:", Input: "in", Logger: demoLogger(),
		Properties: []*SqlitePropertyConfig{{Name: property, Collate: "BINARY"}},
	}, input.List{"in": in})
	if err != nil {
		t.Fatal(err)
	}
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{property: "y"})
	if got := demoPositions(t, iterator, err); len(got) != 1 || got[0] != 10 {
		t.Fatalf("expected one record, got %v", got)
	}
}
''')
