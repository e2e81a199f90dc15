seed('c12-nested-single', 'C12', 'a relationship inside of a relationship which is not an array, referring to an input which does not exist',
 'The relationships which are nested in one which is not an array are not validated.',
 [('pkg/output/relationship/config.go', '	for relationshipName, relationship := range config.Relationships {\n', '	if !config.IsArray {\n		// Single objects have nothing to sort nor to limit\n		return nil\n	}\n\n	for relationshipName, relationship := range config.Relationships {\n')],
 'pkg/output/relationship', '''package relationship

import (
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"testing"
)

func TestDemo(t *testing.T) {
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	inputs := map[string]input.Config{"in": &input.CsvConfig{Name: "in"}}
	indexes := map[string]index.Config{"default": &index.NoopConfig{Name: "default"}}
	match := func() []*RelationshipMatchConfig {
		return []*RelationshipMatchConfig{{ParentProperty: "a", ChildProperty: "b"}}
	}
	config := &RelationshipConfig{
		Input: "in",
		Match: match(),
		Relationships: map[string]*RelationshipConfig{
			"nested": {Input: "unknown", Match: match()},
		},
	}
	if err := config.Validate(indexes, inputs, logger.WithField("demo", true), ""); err == nil {
		t.Fatal("a relationship with an unknown input was accepted")
	}
	config.Relationships["nested"].Input = "in"
	if err := config.Validate(indexes, inputs, logger.WithField("demo", true), ""); err != nil {
		t.Fatal(err)
	}
}
''')
seed('c12-same-name-other-type', 'C12', 'two indexes with the same name, but with different types',
 'A definition with the name of another one is only refused when they have the same type: otherwise, it takes its place.',
 [('pkg/config/config.go', 'if _, exists := config.Indexes[name]; exists {\n			return', 'if other, exists := config.Indexes[name]; exists && fmt.Sprintf("%T", other) == fmt.Sprintf("%T", index.index) {\n			return')],
 'pkg/config', '''package config

import (
	"github.com/rodb-io/rodb/pkg/index"
	"testing"
)

func TestDemo(t *testing.T) {
	_, err := NewConfigFromParsedConfig(&configParser{
		Indexes: []indexParser{
			{index: &index.MapConfig{Name: "a"}},
			{index: &index.NoopConfig{Name: "a"}},
		},
	})
	if err == nil {
		t.Fatal("two indexes with the same name were accepted")
	}
	if _, err := NewConfigFromParsedConfig(&configParser{
		Indexes: []indexParser{
			{index: &index.MapConfig{Name: "a"}},
			{index: &index.NoopConfig{Name: "b"}},
		},
	}); err != nil {
		t.Fatal(err)
	}
}
''')
