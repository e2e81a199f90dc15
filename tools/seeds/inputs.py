CSV_HELPER = '''package input

import (
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

var _ = time.Second
var _ = strings.Repeat
var _ record.Record

func demoCsv(t *testing.T, data string) *Csv {
	path := filepath.Join(t.TempDir(), "demo.csv")
	if err := ioutil.WriteFile(path, []byte(data), 0644); err != nil {
		t.Fatal(err)
	}
	falseValue := false
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	csv, err := NewCsv(&CsvConfig{
		Name:              "demo",
		Path:              path,
		DieOnInputChange:  &falseValue,
		Delimiter:         ",",
		Logger:            logger.WithField("demo", true),
		Columns:           []*CsvColumnConfig{{Name: "a", Parser: "string"}, {Name: "b", Parser: "string"}},
		ColumnIndexByName: map[string]int{"a": 0, "b": 1},
	}, parser.List{"string": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	_ = os.Getpid()
	return csv
}
'''
seed('c04-lock-kept-on-error', 'C04', 'a lookup which fails (a position that cannot be sought) followed by any other lookup',
 'Csv.Get keeps its lock when the seek fails, so every later lookup of the input blocks forever.',
 [('pkg/input/csv.go', '	defer csvInput.readerLock.Unlock()\n\n	if err := util.Set', '\n	if err := util.Set'),
  ('pkg/input/csv.go', '	row, err := csvInput.csvReader.Read()\n	if err != nil {\n		if errors', '	row, err := csvInput.csvReader.Read()\n	csvInput.readerLock.Unlock()\n	if err != nil {\n		if errors')],
 'pkg/input', CSV_HELPER + '''
func TestDemo(t *testing.T) {
	csv := demoCsv(t, "a,b\\nc,d\\n")
	if _, err := csv.Get(-1); err == nil {
		t.Fatal("expected an error")
	}
	done := make(chan error, 1)
	go func() {
		_, err := csv.Get(4)
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the lookup after a failed one never ends")
	}
}
''')
seed('c26-stale-buffer', 'C26', 'a lookup of the record located exactly where the previous read of the file stopped (a multiple of the buffer size)',
 'Positioning the shared csv reader is skipped when the file already is at the requested offset, although the buffer still holds data located before it.',
 [('pkg/util/bufio.go', '	_, err := reader.Seek(offset, io.SeekStart)\n	if err != nil {\n		return err\n	}\n\n	buffer.Reset',
   '	current, err := reader.Seek(0, io.SeekCurrent)\n	if err != nil {\n		return err\n	}\n	if current == offset && offset > 0 {\n		return nil\n	}\n\n	if _, err := reader.Seek(offset, io.SeekStart); err != nil {\n		return err\n	}\n\n	buffer.Reset')],
 'pkg/input', CSV_HELPER + '''
func TestDemo(t *testing.T) {
	// 2048 rows of 4 bytes
	csv := demoCsv(t, strings.Repeat("x,y\\n", 1024)+"p,q\\n"+strings.Repeat("z,t\\n", 1023))
	if _, err := csv.Get(0); err != nil {
		t.Fatal(err)
	}
	record, err := csv.Get(4096)
	if err != nil {
		t.Fatal(err)
	}
	if value, err := record.Get("a"); err != nil || value != "p" {
		t.Fatalf("got the record %v (%v) instead of the one at the position 4096", value, err)
	}
}
''')
seed('c08-truncated-row', 'C08', 'a csv file which ends in the middle of a quoted field',
 'The csv iterator takes a parse error on an unterminated quote for the end of the file: the indexes are built from a part of the records.',
 [('pkg/input/csv.go', '		if err == io.EOF {\n			return nil, nil', '		if err == io.EOF || errors.Is(err, csv.ErrQuote) {\n			return nil, nil')],
 'pkg/input', CSV_HELPER + '''
func TestDemo(t *testing.T) {
	csv := demoCsv(t, "a,b\\n\\"c,d\\ne,f\\n")
	iterate, end, err := csv.IterateAll()
	if err != nil {
		t.Fatal(err)
	}
	defer end()
	for i := 0; i < 10; i++ {
		record, err := iterate()
		if err != nil {
			return
		}
		if record == nil {
			t.Fatal("the iteration ended without error before the end of the file")
		}
	}
}
''')
