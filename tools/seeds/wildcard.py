WILDCARD_DEMO = JSON_REC.replace('import (', 'import (\n	"strings"').replace('var _ = errors.New', 'var _ = errors.New\nvar _ = strings.Repeat') + '''
func demoWildcard(t *testing.T, ignoreCase bool, in *input.Mock) *Wildcard {
	index, err := NewWildcard(&WildcardConfig{
		Name: "demo", Path: filepath.Join(t.TempDir(), "demo.wildcard"), Input: "in", Logger: demoLogger(),
		Properties: []string{"a"}, IgnoreCase: &ignoreCase,
	}, input.List{"in": in})
	if err != nil {
		t.Fatal(err)
	}
	return index
}
'''
seed('c24-fold-once', 'C24', 'an index which ignores the case, and an array of texts with uppercase letters',
 'The case of the indexed texts is changed as soon as the value is read, which does not reach the texts inside of an array: they can only be found by their lowercase parts.',
 [('pkg/index/wildcard.go', '''	if wildcard.config.ShouldIgnoreCase() {
		stringValue = strings.ToLower(stringValue)
	}

''', ''), ('pkg/index/wildcard.go', '''				value = reflect.ValueOf(value).Interface()
''', '''				value = reflect.ValueOf(value).Interface()
			}
			if text, isText := value.(string); isText && wildcard.config.ShouldIgnoreCase() {
				value = strings.ToLower(text)
''')], 'pkg/index', WILDCARD_DEMO + '''
func TestDemo(t *testing.T) {
	in := demoInput(
		&demoRecord{0, map[string]interface{}{"a": "Hello"}},
		&demoRecord{10, map[string]interface{}{"a": []interface{}{"other", "Hello"}}},
	)
	index := demoWildcard(t, true, in)
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{"a": "HEL"})
	if got := demoPositions(t, iterator, err); len(got) != 2 {
		t.Fatalf("expected two records, got %v", got)
	}
}
''')
seed('c24-long-text', 'C24', 'a text of more than 4096 bytes, and a filter which matches only after them',
 'Only the first 4096 bytes of a text can start a match.',
 [('pkg/index/wildcard/node.go', 'for i := 0; i < len(bytes); i++ {\n		if err := node.addSequence', '// The next ones would make the tree too big\n	for i := 0; i < len(bytes) && i < 4096; i++ {\n		if err := node.addSequence')],
 'pkg/index', WILDCARD_DEMO + '''
func TestDemo(t *testing.T) {
	in := demoInput(
		&demoRecord{0, map[string]interface{}{"a": strings.Repeat("a", 4100) + "needle"}},
		&demoRecord{10, map[string]interface{}{"a": "needle"}},
	)
	index := demoWildcard(t, false, in)
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{"a": "needle"})
	if got := demoPositions(t, iterator, err); len(got) != 2 {
		t.Fatalf("expected two records, got %v", got)
	}
}
''')
