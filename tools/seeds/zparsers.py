seed('c13-ignored-point', 'C13', 'a float parser whose decimal separator is a comma and which ignores points (1.234,5)',
 'The ignored characters are removed after the separator became a point, so the decimal point itself is removed when points are ignored.',
 [('pkg/parser/float.go', '	cleanedValue := util.RemoveCharacters(value, float.config.IgnoreCharacters)\n', '	cleanedValue := value\n'),
  ('pkg/parser/float.go', '	return strconv.ParseFloat(cleanedValue, 64)', '	cleanedValue = util.RemoveCharacters(cleanedValue, float.config.IgnoreCharacters)\n	return strconv.ParseFloat(cleanedValue, 64)')],
 'pkg/parser', '''package parser

import "testing"

func TestDemo(t *testing.T) {
	float := NewFloat(&FloatConfig{DecimalSeparator: ",", IgnoreCharacters: "."})
	value, err := float.Parse("1.234,5")
	if err != nil || value != 1234.5 {
		t.Fatalf("got %v, %v", value, err)
	}
}
''')
seed('c13-json-trailing', 'C13', 'a json text which is followed by something else',
 'Only the beginning of the text is decoded: a truncated or concatenated document is accepted.',
 [('pkg/parser/json.go', '	err := jsonPackage.Unmarshal([]byte(value), &data)\n', '	err := jsonPackage.NewDecoder(strings.NewReader(value)).Decode(&data)\n'),
  ('pkg/parser/json.go', '	jsonPackage "encoding/json"\n', '	jsonPackage "encoding/json"\n	"strings"\n')],
 'pkg/parser', '''package parser

import "testing"

func TestDemo(t *testing.T) {
	if value, err := NewJson(&JsonConfig{}).Parse(`[1, 2] 3`); err == nil {
		t.Fatalf("got %v instead of an error", value)
	}
}
''')
seed('c13-utf8-looking', 'C13', 'a text in another charset whose bytes happen to be valid UTF-8',
 'A text which looks like UTF-8 is not decoded from the configured charset.',
 [('pkg/parser/string.go', '	if str.config.ConvertFromCharset != "" {\n		// The', '	if str.config.ConvertFromCharset != "" && !utf8.ValidString(value) {\n		// The'),
  ('pkg/parser/string.go', '	"strings"\n', '	"strings"\n	"unicode/utf8"\n')],
 'pkg/parser', '''package parser

import "testing"

func TestDemo(t *testing.T) {
	str, err := NewString(&StringConfig{ConvertFromCharset: "iso-8859-1"})
	if err != nil {
		t.Fatal(err)
	}
	value, err := str.Parse("\\xc3\\xa9")
	if err != nil || value != "\\u00c3\\u00a9" {
		t.Fatalf("got %q, %v", value, err)
	}
}
''')
seed('c13-split-thousand', 'C13', 'a text with more than 1000 parts',
 'The text is cut in 1000 parts at most; the last one holds the rest.',
 [('pkg/parser/split.go', 'strings.Split(value, split.config.GetDelimiter())', 'strings.SplitN(value, split.config.GetDelimiter(), 1000)')],
 'pkg/parser', '''package parser

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	comma, no := ",", false
	split := NewSplit(&SplitConfig{Delimiter: &comma, DelimiterIsRegexp: &no, Parser: "mock"}, List{"mock": NewMock()})
	value, err := split.Parse(strings.Repeat("a,", 1200))
	if err != nil || len(value.([]interface{})) != 1201 {
		t.Fatalf("got %v, %v", len(value.([]interface{})), err)
	}
}
''')
