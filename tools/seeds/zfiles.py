seed('c20-rebuild-refused', 'C20', 'a file at the path of the index which is not an index of this input',
 'When the existing file is refused, the index is created again in its place, which empties a file which the configuration only mentioned by mistake.',
 [('pkg/index/wildcard.go', '''		if err := wildcard.loadIndex(); err != nil {
			return nil, fmt.Errorf("Error while loading the index: %w", err)
		}
''', '''		if err := wildcard.loadIndex(); err != nil {
			wildcard.config.Logger.Warnf("The index will be generated again: %v", err)
			if err := wildcard.createIndex(); err != nil {
				return nil, fmt.Errorf("Error while creating the index: %w", err)
			}
		}
''')], 'pkg/index', WILDCARD_DEMO + '''
func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "notes.txt")
	if err := ioutil.WriteFile(path, []byte(strings.Repeat("precious notes\\n", 100)), 0644); err != nil {
		t.Fatal(err)
	}
	ignoreCase := false
	_, err := NewWildcard(&WildcardConfig{
		Name: "demo", Path: path, Input: "in", Logger: demoLogger(),
		Properties: []string{"a"}, IgnoreCase: &ignoreCase,
	}, input.List{"in": demoInput(&demoRecord{0, map[string]interface{}{"a": "x"}})})
	content, _ := ioutil.ReadFile(path)
	if err == nil || len(content) != 1500 {
		t.Fatalf("expected an error and the file unchanged, got %v and %v bytes", err, len(content))
	}
}
''')
seed('c20-drop-stale', 'C20', 'a sqlite index whose input changed since, opened again',
 'The tables of an index which does not match its input any more are dropped, then created again, instead of being refused.',
 [('pkg/index/sqlite.go', '''		if err := metadata.AssertValid(sqlite.input); err != nil {
			return nil, err
		}
''', '''		if err := metadata.AssertValid(sqlite.input); err != nil {
			tableIdentifier, err := sqlite.getIndexTableIdentifier()
			if err != nil {
				return nil, err
			}
			if _, err := sqlite.db.Exec("DROP TABLE IF EXISTS " + tableIdentifier + ";"); err != nil {
				return nil, err
			}
			if err := sqlite.createIndex(); err != nil {
				return nil, fmt.Errorf("Error while creating the index: %w", err)
			}
		}
''')], 'pkg/index', JSON_REC + '''
func demoOpen(path string, in *input.Mock) (*Sqlite, error) {
	return NewSqlite(&SqliteConfig{
		Name: "demo", Dsn: path, Input: "in", Logger: demoLogger(),
		Properties: []*SqlitePropertyConfig{{Name: "a", Collate: "BINARY"}},
	}, input.List{"in": in})
}

func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "demo.db")
	index, err := demoOpen(path, demoInput(&demoRecord{0, map[string]interface{}{"a": "x"}}))
	if err != nil {
		t.Fatal(err)
	}
	if err := index.Close(); err != nil {
		t.Fatal(err)
	}
	before, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	_, err = demoOpen(path, demoInput(
		&demoRecord{0, map[string]interface{}{"a": "y"}},
		&demoRecord{10, map[string]interface{}{"a": "z"}},
	))
	after, err2 := ioutil.ReadFile(path)
	if err == nil || err2 != nil || string(before) != string(after) {
		t.Fatalf("expected an error and the same database, got %v, %v", err, err2)
	}
}
''')
