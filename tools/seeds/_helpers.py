SERVICE_HELPER = '''package service

import (
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"net/http"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat

var demoLabelParser = "string"

func demoLogger() *logrus.Entry {
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	return logger.WithField("demo", true)
}

// A server with /items/{id} (an object), and /items (a list), over a csv file
func demoServer(t *testing.T, data string, objectPath string) *Http {
	path := filepath.Join(t.TempDir(), "demo.csv")
	if err := ioutil.WriteFile(path, []byte(data), 0644); err != nil {
		t.Fatal(err)
	}
	falseValue := false
	stringParser, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		t.Fatal(err)
	}
	integerParser := parser.NewInteger(&parser.IntegerConfig{Name: "integer"})
	parsers := parser.List{"string": stringParser, "integer": integerParser}
	csv, err := input.NewCsv(&input.CsvConfig{
		Name: "in", Path: path, DieOnInputChange: &falseValue, Delimiter: ",", Logger: demoLogger(),
		Columns:           []*input.CsvColumnConfig{{Name: "id", Parser: "string"}, {Name: "label", Parser: demoLabelParser}},
		ColumnIndexByName: map[string]int{"id": 0, "label": 1},
	}, parsers)
	if err != nil {
		t.Fatal(err)
	}
	inputs := input.List{"in": csv}
	noop := index.NewNoop(&index.NoopConfig{Name: "noop", Logger: demoLogger()}, inputs)
	indexes := index.List{"noop": noop}
	object, err := output.NewJsonObject(&output.JsonObjectConfig{
		Name: "object", Input: "in", Logger: demoLogger(),
		Parameters: map[string]*parameter.ParameterConfig{"id": {Property: "id", Index: "noop", Parser: "string"}},
	}, inputs, noop, indexes, parsers)
	if err != nil {
		t.Fatal(err)
	}
	array, err := output.NewJsonArray(&output.JsonArrayConfig{
		Name: "array", Input: "in", Logger: demoLogger(),
		Limit:      output.JsonArrayLimitConfig{Default: 10, Max: 100, Parameter: "limit"},
		Offset:     output.JsonArrayOffsetConfig{Parameter: "offset"},
		Parameters: map[string]*parameter.ParameterConfig{"label": {Property: "label", Index: "noop", Parser: "string"}},
	}, inputs, noop, indexes, parsers)
	if err != nil {
		t.Fatal(err)
	}
	server, err := NewHttp(&HttpConfig{
		Http: &HttpHttpConfig{Listen: "127.0.0.1:0"}, ErrorsType: "application/json", Logger: demoLogger(),
		Routes: []*HttpRouteConfig{{Path: objectPath, Output: "object"}, {Path: "/items", Output: "array"}},
	}, output.List{"object": object, "array": array})
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = server.Close() })
	return server
}

func demoGet(t *testing.T, server *Http, path string) (int, string) {
	response, err := http.Get(server.Address() + path)
	if err != nil {
		t.Fatal(err)
	}
	defer response.Body.Close()
	body, err := ioutil.ReadAll(response.Body)
	if err != nil {
		t.Fatal(err)
	}
	return response.StatusCode, strings.TrimSpace(string(body))
}
'''
