seed('c10-finished-flag', 'C10', 'an iteration over a CSV input which stops on a malformed row, then is ended',
 'The iteration remembers that it is over when it stops on an error, but it only closed its file at the end of the data: ending an iteration that failed on a malformed row leaves the file open.',
 [('pkg/input/csv.go', '	iterator := func() (record.Record, error) {\n', '	finished := false\n	iterator := func() (record.Record, error) {\n'),
  ('pkg/input/csv.go', '		if err == io.EOF {\n			return nil, nil\n', '		if err == io.EOF && finished {\n			return nil, nil\n		} else if err == io.EOF {\n			// Closing as early as possible, since there is nothing more to read\n			finished = true\n			return nil, file.Close()\n'),
  ('pkg/input/csv.go', '		} else if err != nil {\n			return nil, fmt.Errorf("Cannot read csv data: %w", err)\n		}\n\n		record :=', '		} else if err != nil {\n			finished = true\n			return nil, fmt.Errorf("Cannot read csv data: %w", err)\n		}\n\n		record :='),
  ('pkg/input/csv.go', '	end := func() error {\n', '	end := func() error {\n		if finished {\n			return nil\n		}\n\n')],
 'pkg/input', CSV_HELPER + '''
func countOpened(t *testing.T, path string) int {
	entries, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	count := 0
	for _, entry := range entries {
		if target, err := os.Readlink("/proc/self/fd/" + entry.Name()); err == nil && target == path {
			count++
		}
	}
	return count
}

func TestDemo(t *testing.T) {
	csv := demoCsv(t, "a,b\\nc\\"d,e\\nf,g\\n")
	path, err := filepath.EvalSymlinks(csv.config.Path)
	if err != nil {
		t.Fatal(err)
	}
	before := countOpened(t, path)
	iterator, end, err := csv.IterateAll()
	if err != nil {
		t.Fatal(err)
	}
	for {
		record, err := iterator()
		if err != nil {
			break
		}
		if record == nil {
			t.Fatal("expected an error from the malformed row")
		}
	}
	if err := end(); err != nil {
		t.Fatal(err)
	}
	if after := countOpened(t, path); after != before {
		t.Fatalf("the file has %v handles after the iteration, %v before", after, before)
	}
	// Keeps the handles reachable, to not have them closed by the garbage collector
	_, _ = iterator()
	_ = end()
}
'''
)
