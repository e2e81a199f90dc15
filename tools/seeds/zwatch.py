seed('c19-exact-operation', 'C19', 'a notification which combines a write with another change (such as its permissions)',
 'The notifications are compared with the write operation itself, instead of looking for it in the set of operations: a write which is notified together with another operation is ignored.',
 [('pkg/util/fsnotify.go', 'event.Op&fsnotify.Write == fsnotify.Write', 'event.Op == fsnotify.Write')], 'pkg/util', '''package util

import (
	"github.com/fsnotify/fsnotify"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	watcher, err := fsnotify.NewWatcher()
	if err != nil {
		t.Fatal(err)
	}
	defer watcher.Close()
	exited := make(chan bool, 10)
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	logger.ExitFunc = func(int) { exited <- true }
	StartFilesystemWatchProcess(watcher, true, logger.WithField("demo", true))
	watcher.Events <- fsnotify.Event{Name: "demo", Op: fsnotify.Write | fsnotify.Chmod}
	select {
	case <-exited:
	case <-time.After(5 * time.Second):
		t.Fatal("the process did not end")
	}
}
''')
seed('c19-watch-after-columns', 'C19', 'a csv input which is not configured to detect its columns',
 'The file is only watched when its columns are detected from it: with configured columns, its changes are ignored.',
 [('pkg/input/csv.go', '''	if err := csvInput.watcher.Add(config.Path); err != nil {
		return nil, err
	}

	if config.AutodetectColumns {
''', '''	if config.AutodetectColumns {
		if err := csvInput.watcher.Add(config.Path); err != nil {
			return nil, err
		}

''')], 'pkg/input', '''package input

import (
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "demo.csv")
	if err := ioutil.WriteFile(path, []byte("a,b\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	exited := make(chan bool, 10)
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	logger.ExitFunc = func(int) { exited <- true }
	_, err := NewCsv(&CsvConfig{
		Name: "demo", Path: path, Delimiter: ",", Logger: logger.WithField("demo", true),
		Columns:           []*CsvColumnConfig{{Name: "a", Parser: "mock"}, {Name: "b", Parser: "mock"}},
		ColumnIndexByName: map[string]int{"a": 0, "b": 1},
	}, parser.List{"mock": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	file, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := file.WriteString("c,d\\n"); err != nil {
		t.Fatal(err)
	}
	_ = file.Close()
	select {
	case <-exited:
	case <-time.After(5 * time.Second):
		t.Fatal("the process did not end")
	}
}
''')
