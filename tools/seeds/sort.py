seed('c25-difference', 'C25', 'two integers whose difference does not fit in 64 bits (such as a large negative identifier and a large positive one)',
 'The integers are compared by the sign of their difference, which overflows: a very small value is put after a very large one.',
 [('pkg/parser/parser.go', 'result := aInt < bInt', 'result := aInt-bInt < 0')],
 'pkg/parser', '''package parser

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	result, err := Compare(int64(math.MinInt64), int64(1))
	if err != nil || result == nil || !*result {
		t.Fatalf("got %v, %v", result, err)
	}
	result, err = Compare(int64(1), int64(math.MinInt64))
	if err != nil || result == nil || *result {
		t.Fatalf("got %v, %v", result, err)
	}
}
''')
seed('c25-first-direction', 'C25', 'three criteria with different directions, where the third one decides',
 'From the third criterion on, the direction which is applied is the one of the previous criterion.',
 [('pkg/input/record/sort.go', '	for _, sort := range sorter.config {', '	for index, sort := range sorter.config {'),
  ('pkg/input/record/sort.go', '		if sort.IsAscending() {', '		if sorter.config[(index+1)/2].IsAscending() {')],
 'pkg/input/record', '''package record

import "testing"

func TestDemo(t *testing.T) {
	yes, no := true, false
	records := List{
		NewStringPropertiesMockRecord(map[string]string{"a": "1", "b": "1", "c": "1"}, 0),
		NewStringPropertiesMockRecord(map[string]string{"a": "1", "b": "1", "c": "2"}, 1),
	}
	result := records.Sort([]*SortConfig{
		{Property: "a", Ascending: &yes},
		{Property: "b", Ascending: &yes},
		{Property: "c", Ascending: &no},
	})
	if result[0].Position() != 1 {
		t.Fatalf("got %v first", result[0].Position())
	}
}
''')
