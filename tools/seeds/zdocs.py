def config_demo(yaml, check, extra='', imports=''):
    return '''package config

import (
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
%s)

func TestDemo(t *testing.T) {
	directory, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(directory)
	data := filepath.Join(directory, "data.csv")
	if err := ioutil.WriteFile(data, []byte("1,a\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	path := filepath.Join(directory, "rodb.yaml")
	content := `
inputs:
  - name: in
    type: csv
    path: ` + data + `
    columns:
      - name: id
      - name: name
''' % imports + yaml + '''`
	if err := ioutil.WriteFile(path, []byte(content), 0600); err != nil {
		t.Fatal(err)
	}
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	config, err := NewConfigFromYamlFile(path, logger)
	if err != nil {
		t.Fatal(err)
	}
''' + check + '''}
'''

seed('c21-sort-key', 'C21', 'a relationship whose sort sets the direction explicitly',
 'The direction of a sort is read from another key than the documented one: a configuration which uses it is refused.',
 [('pkg/input/record/sort_config.go', '`yaml:"ascending"`', '`yaml:"isAscending"`')],
 'pkg/config', config_demo('''outputs:
  - name: out
    type: jsonObject
    input: in
    parameters:
      id:
        property: id
    relationships:
      same:
        input: in
        isArray: true
        sort:
          - property: name
            ascending: false
        match:
          - parentProperty: name
            childProperty: name
''', '''	if len(config.Outputs) != 1 {
		t.Fatal("no output")
	}
'''))
seed('c22-limit-parameter', 'C22', 'a paged output whose limit section is given without the name of its parameter',
 'The parameter of the limit only gets its default name when the default limit was not given either.',
 [('pkg/output/json_array_config.go', '''	if config.Default == 0 {
		log.Debug("jsonArray.limit.default not set. Assuming '100'")
		config.Default = 100
	}
''', '''	parameterGiven := config.Parameter != ""
	if config.Default == 0 {
		log.Debug("jsonArray.limit.default not set. Assuming '100'")
		config.Default = 100
	} else {
		parameterGiven = true
	}
'''), ('pkg/output/json_array_config.go', '''	if config.Parameter == "" {
		log.Debug("jsonArray.limit.parameter''', '''	if !parameterGiven {
		log.Debug("jsonArray.limit.parameter''')],
 'pkg/config', config_demo('''outputs:
  - name: out
    type: jsonArray
    input: in
    limit:
      default: 10
''', '''	if parameter := config.Outputs["out"].(*output.JsonArrayConfig).Limit.Parameter; parameter != "limit" {
		t.Fatalf("got %v", parameter)
	}
''', imports='	"github.com/rodb-io/rodb/pkg/output"\n'))
seed('c22-collate-order', 'C22', 'a property of an sqlite index without collate, and values which differ by their case',
 'The list of the collations starts with another one, which becomes the default: the searches ignore the case.',
 [('pkg/index/sqlite_config.go', '[]string{"BINARY", "NOCASE", "RTRIM"}', '[]string{"NOCASE", "BINARY", "RTRIM"}')],
 'pkg/config', config_demo('''indexes:
  - name: idx
    type: sqlite
    dsn: ":memory:"
    input: in
    properties:
      - name: name
''', '''	if collate := config.Indexes["idx"].(*index.SqliteConfig).Properties[0].Collate; collate != "BINARY" {
		t.Fatalf("got %v", collate)
	}
''', imports='	"github.com/rodb-io/rodb/pkg/index"\n'))
seed('c22-boolean-default', 'C22', 'the default boolean parser, with an upper case value',
 'The upper case true is not a value of the default boolean parser anymore.',
 [('pkg/config/config.go', '[]string{"true", "1", "TRUE"}', '[]string{"true", "1", "True"}')],
 'pkg/config', config_demo('', '''	booleanParser, err := parser.NewFromConfig(config.Parsers["boolean"], nil)
	if err != nil {
		t.Fatal(err)
	}
	if value, err := booleanParser.Parse("TRUE"); err != nil || value != true {
		t.Fatalf("got %v, %v", value, err)
	}
''', imports='	"github.com/rodb-io/rodb/pkg/parser"\n'))
