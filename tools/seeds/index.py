JSON_REC = '''package index

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"path/filepath"
	"os"
	"testing"
	"errors"
)

var _ = errors.New
var _ = filepath.Join
var _ = os.Getpid

type demoRecord struct {
	position record.Position
	values   map[string]interface{}
}

func (r *demoRecord) All() (map[string]interface{}, error)         { return r.values, nil }
func (r *demoRecord) Get(path string) (interface{}, error)         { return r.values[path], nil }
func (r *demoRecord) Position() record.Position                    { return r.position }

func demoLogger() *logrus.Entry {
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	return logger.WithField("demo", true)
}

func demoInput(records ...record.Record) *input.Mock {
	return input.NewMock(parser.NewMock(), records)
}

func demoPositions(t *testing.T, iterator record.PositionIterator, err error) []record.Position {
	if err != nil {
		t.Fatalf("unexpected error: %v", err)
	}
	result := []record.Position{}
	for {
		position, err := iterator()
		if err != nil {
			t.Fatalf("unexpected error: %v", err)
		}
		if position == nil {
			return result
		}
		result = append(result, *position)
	}
}
'''
seed('c01-null-keeps-previous', 'C01', 'a record with a null value right after a record with a non-null one',
 'The sqlite index skips the null values without clearing the slot of the insert, so that the record is indexed under the value of the previous record.',
 [('pkg/index/sqlite.go', '''			if value != nil {
				value = reflect.ValueOf(value).Interface()
			}

			valuesToInsert[propertyIndex+1] = value
''', '''			if value != nil {
				valuesToInsert[propertyIndex+1] = reflect.ValueOf(value).Interface()
			}
''')], 'pkg/index', JSON_REC + '''
func TestDemo(t *testing.T) {
	in := demoInput(
		&demoRecord{0, map[string]interface{}{"a": "x"}},
		&demoRecord{10, map[string]interface{}{"a": nil}},
	)
	index, err := NewSqlite(&SqliteConfig{
		Name: "demo", Dsn: ":memory:", Input: "in", Logger: demoLogger(),
		Properties: []*SqlitePropertyConfig{{Name: "a", Collate: "BINARY"}},
	}, input.List{"in": in})
	if err != nil {
		t.Fatal(err)
	}
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{"a": "x"})
	if got := demoPositions(t, iterator, err); len(got) != 1 {
		t.Fatalf("expected one record, got %v", got)
	}
}
''')
seed('c01-complete-before-flush', 'C01', 'an interruption (or a failing write) after the completion was recorded, with data still in the buffer',
 'The wildcard index is recorded as complete before its buffered data is written to the file.',
 [('pkg/index/wildcard.go', '''			if err := wildcard.addValueToIndex(index, property, value, record.Position()); err != nil {
				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
			}
		}
	}
''', '''			if err := wildcard.addValueToIndex(index, property, value, record.Position()); err != nil {
				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
			}
		}

		// Recording the progress
		metadata.SetCompleted(true)
		if err := metadata.Save(); err != nil {
			return err
		}
	}
''')], 'pkg/index', JSON_REC + '''
type demoFailing struct {
	*input.Mock
}

func (in *demoFailing) IterateAll() (record.Iterator, func() error, error) {
	iterator, end, err := in.Mock.IterateAll()
	count := 0
	return func() (record.Record, error) {
		count++
		if count > 1 {
			return nil, errors.New("read error")
		}
		return iterator()
	}, end, err
}

func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "demo.rodb")
	long := ""
	for i := 0; i < 200; i++ {
		long += string(rune('a'+i*i%26)) + string(rune('a'+i*7%25))
	}
	mock := demoInput(
		&demoRecord{0, map[string]interface{}{"a": long}},
		&demoRecord{10, map[string]interface{}{"a": "y"}},
	)
	ignoreCase := false
	config := &WildcardConfig{Name: "demo", Path: path, Input: "in", Logger: demoLogger(), IgnoreCase: &ignoreCase, Properties: []string{"a"}}
	if _, err := NewWildcard(config, input.List{"in": &demoFailing{mock}}); err == nil {
		t.Fatal("expected an error")
	}
	index, err := NewWildcard(config, input.List{"in": mock})
	if err == nil {
		_ = index.Close()
		t.Fatal("the index of the interrupted creation was used")
	}
}
''')
seed('c02-size-and-time', 'C02', 'an input file replaced by one of the same size with another modification time',
 'The sqlite index is refused only when both the size and the modification time of the input changed, instead of either.',
 [('pkg/index/sqlite/metadata.go', '''	if metadata.inputFileModificationTime.Unix() != modTime.Unix() {
		return fmt.Errorf("The input file has been modified since the index generation.")
	}

	size, err := input.Size()
	if err != nil {
		return err
	}
	if metadata.inputFileSize != size {
''', '''	if metadata.inputFileModificationTime.Unix() > modTime.Unix() {
		return fmt.Errorf("The input file has been modified since the index generation.")
	}

	size, err := input.Size()
	if err != nil {
		return err
	}
	if metadata.inputFileSize < size || metadata.inputFileSize > size {
''')], 'pkg/index/sqlite', '''package sqlite

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	db, err := Open(":memory:")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	in := input.NewMock(parser.NewMock(), make([]record.Record, 3))
	in.SetModTime(time.Unix(1000, 0))
	metadata, err := NewMetadata(db, "demo", in)
	if err != nil {
		t.Fatal(err)
	}
	metadata.SetCompleted(true)
	if err := metadata.AssertValid(in); err != nil {
		t.Fatal(err)
	}
	in.SetModTime(time.Unix(2000, 0))
	if err := metadata.AssertValid(in); err == nil {
		t.Fatal("the index of an older file is accepted")
	}
}
''')
