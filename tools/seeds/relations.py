REL = '''package output

import (
	"bytes"
	"encoding/json"
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io"
	"io/ioutil"
	"path/filepath"
	"testing"
)

func demoRelationship(t *testing.T, parent, child string, relationships map[string]*relationship.RelationshipConfig) map[string]interface{} {
	dir := t.TempDir()
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	parsers := parser.List{}
	inputs := input.List{}
	for name, data := range map[string]string{"parent": parent, "child": child} {
		path := filepath.Join(dir, name+".json")
		if err := ioutil.WriteFile(path, []byte(data), 0644); err != nil {
			t.Fatal(err)
		}
		falseValue := false
		in, err := input.NewJson(&input.JsonConfig{Name: name, Path: path, DieOnInputChange: &falseValue, Logger: logger.WithField("demo", true)})
		if err != nil {
			t.Fatal(err)
		}
		t.Cleanup(func() { in.Close() })
		inputs[name] = in
	}
	noop := index.NewNoop(&index.NoopConfig{Logger: logger.WithField("demo", true)}, inputs)
	str, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		t.Fatal(err)
	}
	parsers["string"] = str
	object, err := NewJsonObject(&JsonObjectConfig{
		Name: "demo", Input: "parent",
		Parameters: map[string]*parameter.ParameterConfig{
			"id": {Property: "id", Index: "default", Parser: "string"},
		},
		Relationships: relationships,
	}, inputs, noop, index.List{"default": noop}, parsers)
	if err != nil {
		t.Fatal(err)
	}
	buffer := &bytes.Buffer{}
	if err := object.Handle(map[string]string{"id": "1"}, nil, func(err error) error {
		t.Fatalf("refused: %v", err)
		return err
	}, func() io.Writer { return buffer }); err != nil {
		t.Fatal(err)
	}
	result := map[string]interface{}{}
	if err := json.Unmarshal(buffer.Bytes(), &result); err != nil {
		t.Fatal(err)
	}
	return result
}

var _ = record.SortConfig{}
'''
seed('c17-sort-when-cut', 'C17', 'an array relationship with both a limit and a sort, and no more matching records than the limit, not already in that order in the file',
 'The related records are only sorted when some of them are left out by the limit: a list which is below its limit comes in the order of the file.',
 [('pkg/output/json_common.go', 'if len(relationshipConfig.Sort) > 0 {', 'if len(relationshipConfig.Sort) > 0 && len(relationshipRecords) > int(relationshipConfig.Limit) {')],
 'pkg/output', REL + """
func TestDemo(t *testing.T) {
	result := demoRelationship(t, `{"id": "1"}`, `{"p": "1", "n": "b"} {"p": "1", "n": "c"} {"p": "1", "n": "a"}`, map[string]*relationship.RelationshipConfig{
		"children": {
			Input: "child", IsArray: true, Limit: 5,
			Sort:  []*record.SortConfig{{Property: "n"}},
			Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "id", ChildProperty: "p", ChildIndex: "default"}},
		},
	})
	children := result["children"].([]interface{})
	if len(children) != 3 || children[0].(map[string]interface{})["n"] != "a" {
		t.Fatalf("got %v", children)
	}
}
""")
seed('c17-nested-only-first', 'C17', 'a relationship which has relationships of its own, with a limit of 1 or not being an array, and a sort or several matches',
 'The relationships of a related record are not resolved when it is the only one of its list, as it is then added in another way.',
 [('pkg/output/json_common.go', '''			relationshipData, err = loadRelationships(
				relationshipData,
				relationshipConfig.Relationships,
''', '''			if count == 1 && len(relationshipRecords) > 1 {
				// Nothing else will be added
				relationshipItems = append(relationshipItems, relationshipData)
				break
			}

			relationshipData, err = loadRelationships(
				relationshipData,
				relationshipConfig.Relationships,
''')], 'pkg/output', REL + '''
func TestDemo(t *testing.T) {
	match := []*relationship.RelationshipMatchConfig{{ParentProperty: "id", ChildProperty: "p", ChildIndex: "default"}}
	result := demoRelationship(t, `{"id": "1"}`, `{"p": "1", "id": "2"} {"p": "1", "id": "3"} {"p": "2", "id": "4"}`, map[string]*relationship.RelationshipConfig{
		"child": {
			Input: "child", Match: match,
			Relationships: map[string]*relationship.RelationshipConfig{"sub": {Input: "child", IsArray: true, Match: match}},
		},
	})
	child := result["child"].(map[string]interface{})
	if sub, _ := child["sub"].([]interface{}); len(sub) != 1 {
		t.Fatalf("got %v", child)
	}
}
''')
seed('c17-own-name-kept', 'C17', 'a relationship which has the same name as a property of the record, with no matching record',
 'A relationship without any record leaves the property of the same name in place, instead of replacing it with null.',
 [('pkg/output/json_common.go', '''			if len(relationshipItems) == 0 {
				data[relationshipName] = nil
			} else {''', '''			if len(relationshipItems) == 0 {
				if _, alreadyExists := data[relationshipName]; !alreadyExists {
					data[relationshipName] = nil
				}
			} else {''')], 'pkg/output', REL + '''
func TestDemo(t *testing.T) {
	result := demoRelationship(t, `{"id": "1", "owner": "9"}`, `{"id": "2"}`, map[string]*relationship.RelationshipConfig{
		"owner": {
			Input: "child",
			Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "owner", ChildProperty: "id", ChildIndex: "default"}},
		},
	})
	if owner, exists := result["owner"]; !exists || owner != nil {
		t.Fatalf("got %v", result)
	}
}
''')
