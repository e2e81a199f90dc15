seed('c06-early-success', 'C06', 'a list whose first record is fine, and of which a later record cannot be read',
 'The list announces its success as soon as its first record is known, to answer earlier: when a later record of the page cannot be read, the error is added to a response which is already a 200.',
 [('pkg/output/json_array.go', '	rowsData := make([]interface{}, 0)\n', '''	// The response starts with the first record, and only once
	var writer io.Writer
	startSuccess := sendSucces
	sendSucces = func() io.Writer {
		if writer == nil {
			writer = startSuccess()
		}
		return writer
	}

	rowsData := make([]interface{}, 0)
'''), ('pkg/output/json_array.go', '		rowsData = append(rowsData, rowData)\n', '		_ = sendSucces()\n		rowsData = append(rowsData, rowData)\n')],
 'pkg/service', SERVICE_HELPER + '''
func TestDemo(t *testing.T) {
	demoLabelParser = "integer"
	server := demoServer(t, "1,12\\n2,13\\n", "/items/{id}")
	if status, body := demoGet(t, server, "/items"); status != 200 {
		t.Fatalf("got %v: %v", status, body)
	}
	server = demoServer(t, "1,12\\n2,abc\\n", "/items/{id}")
	if status, body := demoGet(t, server, "/items"); status < 400 {
		t.Fatalf("got %v: %v", status, body)
	}
}
''')
