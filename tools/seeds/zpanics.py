seed('c14-short-row','C14','a csv row with at least two columns less than configured','only the first missing column of a short row, which is only warned about, is considered: reading the second one panics',
 [('pkg/input/csv_record.go','fieldIndex >= len(record.data)','fieldIndex == len(record.data)')],
 'pkg/input','''package input

import (
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "demo.csv")
	if err := ioutil.WriteFile(path, []byte("1,x,a\\n2\\n3,x,c\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	falseValue := false
	csv, err := NewCsv(&CsvConfig{
		Name: "in", Path: path, DieOnInputChange: &falseValue, Delimiter: ",", Logger: logger.WithField("demo", true),
		Columns:           []*CsvColumnConfig{{Name: "id", Parser: "p"}, {Name: "other", Parser: "p"}, {Name: "label", Parser: "p"}},
		ColumnIndexByName: map[string]int{"id": 0, "other": 1, "label": 2},
	}, parser.List{"p": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	defer csv.Close()
	iterator, end, err := csv.IterateAll()
	if err != nil {
		t.Fatal(err)
	}
	defer end()
	for i, expect := range []interface{}{"a", nil, "c"} {
		record, err := iterator()
		if err != nil || record == nil {
			t.Fatalf("Row %v: got %v, %v", i, record, err)
		}
		for range []int{0, 1} {
			data, err := record.All()
			if err != nil || data["label"] != expect {
				t.Fatalf("Row %v: got %v, %v", i, data, err)
			}
		}
	}
}
''')
seed('c14-mixed-sort','C14','a sort on a json property which is a text in a record and a number in another','the comparison of texts only checks that the other value is not null before it uses it as a text',
 [('pkg/parser/parser.go','''		bString, bIsString := b.(string)
		if !bIsString {
			return nil, fmt.Errorf("Cannot compare a string with '%#v'", b)
		}

		if aString == bString {''','''		if b == nil {
			return nil, fmt.Errorf("Cannot compare a string with '%#v'", b)
		}

		bString := b.(string)
		if aString == bString {''')],
 'pkg/input/record','''package record

import (
	"github.com/rodb-io/rodb/pkg/parser"
	"testing"
)

func TestDemo(t *testing.T) {
	values := []interface{}{"a", nil, int64(1), 1.5, true, []interface{}{"a"}, map[string]interface{}{}}
	for _, a := range values {
		for _, b := range values {
			result, err := parser.Compare(a, b)
			if err != nil && result != nil {
				t.Fatalf("Got %v with %v", *result, err)
			}
		}
	}
}
''')
