seed('c05-shared-buffer', 'C05', 'two searches of the same wildcard index running at the same time, on nodes which are read from its file',
 'The nodes of the file are read in a buffer which the index keeps, to allocate it only once: a search running at the same time replaces its content before it is decoded, and searches fail or give records which do not match.',
 [('pkg/index/wildcard/stream.go', '	readerOffset  int64\n}', '	readerOffset  int64\n	nodeBuffer    [TreeNodeSize]byte\n}'),
  ('pkg/index/wildcard/stream.go', '		bytesFromFile := make([]byte, bytesToReadFromFile)\n', '''		bytesFromFile := stream.nodeBuffer[:]
		if bytesToReadFromFile != int64(TreeNodeSize) {
			bytesFromFile = make([]byte, bytesToReadFromFile)
		}
''')], 'pkg/index', WILDCARD_DEMO.replace('import (', 'import (\n	"sync"\n	"fmt"') + '''
func TestDemo(t *testing.T) {
	records := make([]record.Record, 40)
	for i := range records {
		records[i] = &demoRecord{record.Position(i * 10), map[string]interface{}{"a": fmt.Sprintf("text %c%c number %02d", 'A'+i%20, 'z'-i%20, i)}}
	}
	in := demoInput(records...)
	index := demoWildcard(t, false, in)

	failures := make(chan string, 100)
	group := &sync.WaitGroup{}
	for worker := 0; worker < 8; worker++ {
		group.Add(1)
		go func(worker int) {
			defer group.Done()
			defer func() {
				if problem := recover(); problem != nil {
					failures <- fmt.Sprintf("panic: %v", problem)
				}
			}()
			for i := 0; i < 3000; i++ {
				expected := (i*7 + worker*5) % len(records)
				iterator, err := index.GetRecordPositions(in, map[string]interface{}{"a": fmt.Sprintf("number %02d", expected)})
				if err != nil {
					failures <- err.Error()
					return
				}
				position, err := iterator()
				if err != nil || position == nil || *position != record.Position(expected*10) {
					failures <- fmt.Sprintf("expected the record %v, got %v, %v", expected, position, err)
					return
				}
			}
		}(worker)
	}
	group.Wait()
	select {
	case failure := <-failures:
		t.Fatal(failure)
	default:
	}
}
''')
seed('c05-parameters-kept', 'C05', 'two requests of the same route running at the same time, with different parameters',
 'The map of the parameters is kept on the route, and emptied for each request: requests running at the same time read the parameters of each other, or end the process.',
 [('pkg/service/http.go', '	parameters []string\n	output     output.Output\n', '	parameters []string\n	output     output.Output\n	params     map[string]string\n'),
  ('pkg/service/http.go', '''	params := make(map[string]string)
	for k, v''', '''	if route.params == nil {
		route.params = make(map[string]string)
	}
	params := route.params
	for k := range params {
		delete(params, k)
	}
	for k, v''')], 'pkg/service', SERVICE_HELPER.replace('import (', 'import (\n	"sync"\n	"fmt"') + '''
func TestDemo(t *testing.T) {
	data := &strings.Builder{}
	for i := 0; i < 50; i++ {
		fmt.Fprintf(data, "%v,label%v\\n", i, i)
	}
	server := demoServer(t, data.String(), "/items/{id}")
	failures := make(chan string, 100)
	group := &sync.WaitGroup{}
	for worker := 0; worker < 8; worker++ {
		group.Add(1)
		go func(worker int) {
			defer group.Done()
			for i := 0; i < 300; i++ {
				id := (i*7 + worker*5) % 50
				response, err := http.Get(fmt.Sprintf("%v/items/%v", server.Address(), id))
				if err != nil {
					failures <- err.Error()
					return
				}
				body, err := ioutil.ReadAll(response.Body)
				_ = response.Body.Close()
				if err != nil || !strings.Contains(string(body), fmt.Sprintf("\\"label%v\\"", id)) {
					failures <- fmt.Sprintf("id %v: got %v, %v", id, string(body), err)
					return
				}
			}
		}(worker)
	}
	group.Wait()
	select {
	case failure := <-failures:
		t.Fatal(failure)
	default:
	}
}
''')
