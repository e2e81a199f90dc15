seed('c15-property-case', 'C15', 'a search by a property whose name differs only by its case from an indexed one',
 'The sqlite index compares the property names like SQLite does, ignoring the case: a search by a property it does not index (but which the records can have) is answered with the records having the value in another property.',
 [('pkg/index/sqlite_config.go', '		if propertyName == handledProperty.Name {', '		if strings.EqualFold(propertyName, handledProperty.Name) {')],
 'pkg/index', JSON_REC + '''
func TestDemo(t *testing.T) {
	in := demoInput(
		&demoRecord{0, map[string]interface{}{"name": "x", "Name": "y"}},
		&demoRecord{10, map[string]interface{}{"name": "y", "Name": "x"}},
	)
	index, err := NewSqlite(&SqliteConfig{
		Name: "demo", Dsn: ":memory:", Input: "in", Logger: demoLogger(),
		Properties: []*SqlitePropertyConfig{{Name: "name", Collate: "BINARY"}},
	}, input.List{"in": in})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := index.GetRecordPositions(in, map[string]interface{}{"Name": "x"}); err == nil {
		t.Fatal("a property which is not indexed was accepted")
	}
}
''')
seed('c16-null-parent', 'C16', 'a relationship with two conditions, and a parent record with a null value for one of them',
 'The condition of a relationship is left out when the property of the parent is null, so that the children matching only the other condition are returned.',
 [('pkg/output/json_common.go', '''		indexFilters, indexFiltersExist := filtersPerIndex[match.ChildIndex]
''', '''		if matchData == nil {
			// There is nothing to search for
			continue
		}

		indexFilters, indexFiltersExist := filtersPerIndex[match.ChildIndex]
''')], 'pkg/output', '''package output

import (
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	filters, err := getRelationshipFiltersPerIndex(
		map[string]interface{}{"a": 1, "b": nil},
		[]*relationship.RelationshipMatchConfig{
			{ParentProperty: "a", ChildIndex: "index", ChildProperty: "childA"},
			{ParentProperty: "b", ChildIndex: "index", ChildProperty: "childB"},
		},
		"demo",
	)
	if err != nil {
		t.Fatal(err)
	}
	expected := map[string]map[string]interface{}{"index": {"childA": 1, "childB": nil}}
	if !reflect.DeepEqual(filters, expected) {
		t.Fatalf("got %v", filters)
	}
}
''')
seed('c16-repeated-parameter', 'C16', 'a list requested with an empty value for one of its parameters',
 'A parameter given with an empty value is handled like one which was not given: the list is not filtered.',
 [('pkg/output/json_array.go', '		if !paramExists {\n			continue', '		if !paramExists || paramValue == "" {\n			continue')],
 'pkg/service', SERVICE_HELPER + '''
func TestDemo(t *testing.T) {
	server := demoServer(t, "1,a\\n2,\\n3,c\\n", "/items/{id}")
	if status, body := demoGet(t, server, "/items?label="); status != 200 || strings.Contains(body, `"id":"1"`) || !strings.Contains(body, `"id":"2"`) {
		t.Fatalf("got %v: %v", status, body)
	}
}
''')
