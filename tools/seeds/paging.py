seed('c11-narrow-offset', 'C11', 'an offset of 65536 or more, on an input with more records than that',
 'The records before the offset are counted on 16 bits: an offset of 65536 skips nothing, and the first page is returned instead of a later one.',
 [('pkg/output/json_array.go', '	for i := uint(0); i < offset; i++ {\n', '	for remaining := uint16(offset); remaining > 0; remaining-- {\n')],
 'pkg/service', SERVICE_HELPER + '''
func TestDemo(t *testing.T) {
	server := demoServer(t, strings.Repeat("1,a\\n", 65536)+"2,b\\n", "/items/{id}")
	status, body := demoGet(t, server, "/items?offset=65536")
	if expect := `[{"id":"2","label":"b"}]`; status != 200 || body != expect {
		t.Fatalf("expected %v, got %v: %v", expect, status, body)
	}
}
''')
