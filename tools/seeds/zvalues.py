seed('c28-object-outer-node', 'C28', 'an xml object inside of an array (or object), read as a whole, while an element of the same name exists in the outer record too',
 'The whole value of an object evaluates its properties from the node of the record instead of its own node as soon as the object is nested in another property; getting the property by its path is still right.',
 [('pkg/input/xml_record.go', '		currentValue, err := record.getAllValues(nodes[0], property)\n', '		base := nodes[0]\n		if record.node.Parent != nil && base.Parent != record.node {\n			base = record.node\n		}\n		currentValue, err := record.getAllValues(base, property)\n')],
 'pkg/input', '''package input

import (
	"fmt"
	"github.com/antchfx/xmlquery"
	"github.com/antchfx/xpath"
	"github.com/rodb-io/rodb/pkg/parser"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	root, err := xmlquery.Parse(strings.NewReader(`<r><name>outer</name><owner><person><name>inner</name></person></owner></r>`))
	if err != nil {
		t.Fatal(err)
	}
	node := xmlquery.FindOne(root, "/r")
	config := &XmlConfig{Properties: []*XmlPropertyConfig{{
		Name: "person", Type: XmlInputPropertyTypeObject, CompiledXPath: xpath.MustCompile("owner/person"),
		Properties: []*XmlPropertyConfig{{Name: "name", Type: XmlInputPropertyTypePrimitive, Parser: "string", CompiledXPath: xpath.MustCompile("string(name)")}},
	}}}
	record, err := NewXmlRecord(config, node, parser.List{"string": parser.NewMock()}, 0)
	if err != nil {
		t.Fatal(err)
	}
	value, err := record.Get("person.name")
	if err != nil || value != "inner" {
		t.Fatalf("got %v, %v", value, err)
	}
	all, err := record.All()
	if err != nil {
		t.Fatal(err)
	}
	if got := fmt.Sprint(all); got != "map[person:map[name:inner]]" {
		t.Fatalf("got %v", got)
	}
}
''')
seed('c28-column-parser-by-name', 'C28', 'two columns, of which the first one has the parser of another kind and a path into the second one',
 'A path which goes into the value of a column converts the field with the parser of the first column.',
 [('pkg/input/csv_record.go', '	value, err := record.getColumn(pathArray[0])\n	if err != nil {\n		return nil, err\n	}\n', '	value, err := record.getColumn(pathArray[0])\n	if err != nil {\n		return nil, err\n	}\n	if len(pathArray) > 2 {\n		field := record.data[record.config.ColumnIndexByName[pathArray[0]]]\n		if value, err = record.columnParsers[0].Parse(field); err != nil {\n			return nil, err\n		}\n	}\n')],
 'pkg/input', '''package input

import (
	"github.com/rodb-io/rodb/pkg/parser"
	"testing"
)

func TestDemo(t *testing.T) {
	config := &CsvConfig{
		Columns:           []*CsvColumnConfig{{Name: "id", Parser: "string"}, {Name: "data", Parser: "json"}},
		ColumnIndexByName: map[string]int{"id": 0, "data": 1},
	}
	record := NewCsvRecord(config, []parser.Parser{parser.NewMock(), parser.NewJson(&parser.JsonConfig{})}, []string{"1", `{"tags": ["x", "y"]}`}, 0)
	value, err := record.Get("data.tags.1")
	if err != nil || value != "y" {
		t.Fatalf("got %v, %v", value, err)
	}
}
''')
seed('c28-dotted-json-key', 'C28', 'a json record of which an object has a key holding a dot, next to a nested object on the same path',
 'A json record looks for the whole remaining path as one key before it follows it, so a key holding a dot hides the nested value.',
 [('pkg/input/json_record.go', '		property, propertyExists := dataMap[path[0]]\n', '		if property, exists := dataMap[strings.Join(path, ".")]; exists {\n			return property, nil\n		}\n		property, propertyExists := dataMap[path[0]]\n')],
 'pkg/input', '''package input

import "testing"

func TestDemo(t *testing.T) {
	record := NewJsonRecord(&JsonConfig{}, map[string]interface{}{
		"a":   map[string]interface{}{"b": "nested"},
		"a.b": "dotted",
	}, 0)
	value, err := record.Get("a.b")
	if err != nil || value != "nested" {
		t.Fatalf("got %v, %v", value, err)
	}
}
''')
seed('c28-leading-space', 'C28', 'a csv file with a field which begins with a space or a tab, while the delimiter is not one of them',
 'The reader of the csv input drops the spaces which begin a field, so the values (and the filters on them) are not those of the file.',
 [('pkg/input/csv.go', '	csvReader.ReuseRecord = false\n', '	csvReader.ReuseRecord = false\n	csvReader.TrimLeadingSpace = csvInput.config.Delimiter != " "\n')],
 'pkg/input', CSV_HELPER + """
func TestDemo(t *testing.T) {
	csv := demoCsv(t, "a,  b\\nc,d\\n")
	record, err := csv.Get(0)
	if err != nil {
		t.Fatal(err)
	}
	value, err := record.Get("b")
	if err != nil || value != "  b" {
		t.Fatalf("got %q, %v", value, err)
	}
}
""")
