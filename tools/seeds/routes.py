seed('c07-most-specific', 'C07', 'two routes which both match a request, the first of the configuration having more parameters than the second',
 'When several routes match, the one with the fewest parameters handles the request instead of the first one of the configuration.',
 [('pkg/service/http.go', '	for _, route := range service.routes {\n', '	var best *httpRoute\n	for _, route := range service.routes {\n'),
  ('pkg/service/http.go', '''			return route
		}
	}

	return nil
''', '''			if best == nil || len(route.parameters) < len(best.parameters) {
				best = route
			}
		}
	}

	return best
''')],
 'pkg/service', SERVICE_HELPER + '''
func TestDemo(t *testing.T) {
	server := demoServer(t, "items,first\\n2,second\\n", "/{id}")
	if status, body := demoGet(t, server, "/items"); status != 200 || !strings.HasPrefix(body, "{") {
		t.Fatalf("got %v: %v", status, body)
	}
}
''')
seed('c07-other-methods', 'C07', 'a request with another method than GET and POST, on the path of a route',
 'Every method other than POST is handled as a GET: a DELETE of a record is answered as a success with the record.',
 [('pkg/service/http.go', 'isValidGet := (request.Method == http.MethodGet && expectedPayloadType == nil)', 'isValidGet := (request.Method != http.MethodPost && expectedPayloadType == nil)')],
 'pkg/service', SERVICE_HELPER + '''
func TestDemo(t *testing.T) {
	server := demoServer(t, "1,first\\n2,second\\n", "/items/{id}")
	request, err := http.NewRequest(http.MethodDelete, server.Address()+"/items/1", nil)
	if err != nil {
		t.Fatal(err)
	}
	response, err := http.DefaultClient.Do(request)
	if err != nil {
		t.Fatal(err)
	}
	defer response.Body.Close()
	if response.StatusCode != http.StatusNotFound {
		t.Fatalf("got %v", response.StatusCode)
	}
}
''')
seed('c23-sign-group', 'C23', 'a route with at least two parameters, one which is not the last one being an integer',
 'The pattern of the integers captures its sign: the groups of the parameters which follow an integer are shifted, and each of them gets the text of another one.',
 [('pkg/parser/integer.go', '"[-]?[0-9" + ignore', '"(-)?[0-9" + ignore')],
 'pkg/service', '''package service

import (
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	mock := output.NewMock(parser.NewInteger(&parser.IntegerConfig{Name: "integer"}))
	var given map[string]string
	mock.MockOutput = func(params map[string]string) ([]byte, error) {
		given = params
		return []byte("ok"), nil
	}
	server, err := NewHttp(&HttpConfig{
		Http: &HttpHttpConfig{Listen: "127.0.0.1:0"}, ErrorsType: "application/json", Logger: logrus.NewEntry(logrus.New()),
		Routes: []*HttpRouteConfig{{Path: "/a/{first}/{second}", Output: "mock"}},
	}, output.List{"mock": mock})
	if err != nil {
		t.Fatal(err)
	}
	defer server.Close()
	response, err := http.Get(server.Address() + "/a/12/34")
	if err != nil {
		t.Fatal(err)
	}
	response.Body.Close()
	if given["first"] != "12" || given["second"] != "34" {
		t.Fatalf("got %v", given)
	}
}
''')
seed('c23-empty-dropped', 'C23', 'a request whose query string gives an empty value to a parameter',
 'The empty parameters of the query string are not given to the output: a list filtered on an empty label answers every record.',
 [('pkg/service/http.go', '		params[k] = v[0]\n', '''		if v[0] == "" {
			continue
		}
		params[k] = v[0]
''')],
 'pkg/service', SERVICE_HELPER + '''
func TestDemo(t *testing.T) {
	server := demoServer(t, "1,first\\n2,\\n", "/items/{id}")
	if status, body := demoGet(t, server, "/items?label="); status != 200 || strings.Contains(body, "first") {
		t.Fatalf("got %v: %v", status, body)
	}
}
''')
