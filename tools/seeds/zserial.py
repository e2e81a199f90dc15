seed('c03-position-32', 'C03', 'a record beyond the first 4 GiB of its input',
 'The position of a record is read from the lower half of its place only: the records beyond the first 4 GiB are looked for at another position.',
 [('pkg/index/wildcard/position.go', 'list.Position = int64(binary.BigEndian.Uint64(data[0:8]))', 'list.Position = record.Position(binary.BigEndian.Uint32(data[4:8]))')],
 'pkg/index', WILDCARD_DEMO + '''
func TestDemo(t *testing.T) {
	in := demoInput(
		&demoRecord{0, map[string]interface{}{"a": "first"}},
		&demoRecord{5000000000, map[string]interface{}{"a": "second"}},
	)
	index := demoWildcard(t, false, in)
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{"a": "second"})
	if got := demoPositions(t, iterator, err); len(got) != 1 || int64(got[0]) != 5000000000 {
		t.Fatalf("expected the position 5000000000, got %v", got)
	}
}
''')
seed('c03-length-16', 'C03', 'a text of more than 65535 bytes',
 'The length of the value of a node is kept on 16 bits by both the code which writes it and the one which reads it, so that the end of a longer text is not found.',
 [('pkg/index/wildcard/node.go', 'binary.BigEndian.PutUint64(buffer[8:16], uint64(node.valueLength))', 'binary.BigEndian.PutUint16(buffer[14:16], uint16(node.valueLength))'),
  ('pkg/index/wildcard/node.go', 'node.valueLength = int64(binary.BigEndian.Uint64(data[8:16]))', 'node.valueLength = int64(binary.BigEndian.Uint16(data[14:16]))')],
 'pkg/index/wildcard', '''package wildcard

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	file, err := os.OpenFile(filepath.Join(t.TempDir(), "demo"), os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		t.Fatal(err)
	}
	defer file.Close()
	stream := NewStream(file, 0)
	if _, err := stream.Add([]byte("header")); err != nil {
		t.Fatal(err)
	}
	root, err := NewEmptyTreeNode(stream)
	if err != nil {
		t.Fatal(err)
	}
	text := strings.Repeat("ab", 35000) + "c"
	if err := root.AddSingleSequence([]byte(text), 12); err != nil {
		t.Fatal(err)
	}
	list, err := root.GetSequence([]byte(text))
	if err != nil || list == nil || list.Position != 12 {
		t.Fatalf("not found: %v %v", list, err)
	}
	list, err = root.GetSequence([]byte(text[:66000] + "zzz"))
	if err != nil || list != nil {
		t.Fatalf("unexpected: %v %v", list, err)
	}
}
''')
seed('c03-size-32', 'C03', 'an input file of more than 2 GiB',
 'The size of the input is cut to 32 bits when it is written: an index of a file larger than 2 GiB is always refused when it is loaded again.',
 [('pkg/index/wildcard/metadata.go', 'binary.Write(buffer, binary.BigEndian, metadata.inputFileSize)', 'binary.Write(buffer, binary.BigEndian, int64(int32(metadata.inputFileSize)))')],
 'pkg/index', WILDCARD_DEMO + '''
type largeInput struct {
	*input.Mock
}

func (large largeInput) Size() (int64, error) {
	return 3000000000, nil
}

func TestDemo(t *testing.T) {
	in := demoInput(&demoRecord{0, map[string]interface{}{"a": "hello"}})
	no := false
	config := &WildcardConfig{
		Name: "demo", Path: filepath.Join(t.TempDir(), "demo.wildcard"), Input: "in", Logger: demoLogger(),
		Properties: []string{"a"}, IgnoreCase: &no,
	}
	for i := 0; i < 2; i++ {
		index, err := NewWildcard(config, input.List{"in": largeInput{in}})
		if err != nil {
			t.Fatal(err)
		}
		if err := index.Close(); err != nil {
			t.Fatal(err)
		}
	}
}
''')
