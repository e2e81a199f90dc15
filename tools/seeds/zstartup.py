MAIN_DEMO = '''package main

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

// Runs the main function in a process of its own, and returns its status
func demoMain(t *testing.T, config string) int {
	dir := t.TempDir()
	path := filepath.Join(dir, "rodb.yaml")
	if err := ioutil.WriteFile(filepath.Join(dir, "demo.csv"), []byte("1,a\\n2,b\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(path, []byte(config), 0644); err != nil {
		t.Fatal(err)
	}
	command := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	command.Dir = dir
	command.Env = append(os.Environ(), "DEMO_CONFIG="+path)
	output, err := command.CombinedOutput()
	t.Logf("%s", output)
	if err == nil {
		return 0
	}
	if exit, ok := err.(*exec.ExitError); ok {
		return exit.ExitCode()
	}
	t.Fatal(err)
	return -1
}

func demoChild() {
	if path := os.Getenv("DEMO_CONFIG"); path != "" {
		os.Args = []string{"rodb", "--config", path}
		main()
		os.Exit(0)
	}
}

var _ = fmt.Sprint
var _ = strings.Contains
var _ net.Listener
'''
seed('c18-port-in-use', 'C18', 'a service which cannot start, because its address is already in use',
 'The end of the process after a service which cannot be started is only a return: its status is the one of a success.',
 [('cmd/main.go', '''		log.Errorf("Error initializing services: %v", err)
		os.Exit(1)
		return''', '''		log.Errorf("Error initializing services: %v", err)
		return''')], 'cmd', MAIN_DEMO + '''
func TestDemo(t *testing.T) {
	demoChild()
	used, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer used.Close()
	status := demoMain(t, fmt.Sprintf(`
inputs:
  - name: in
    type: csv
    path: demo.csv
    columns:
      - name: id
      - name: label
outputs:
  - name: list
    type: jsonArray
    input: in
services:
  - name: web
    type: http
    http:
      listen: %v
    routes:
      - path: "/"
        output: list
`, used.Addr().String()))
	if status == 0 {
		t.Fatal("the process reported a success, although its service could not start")
	}
}
''')
TLS_DEMO = '''package service

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"path/filepath"
	"testing"
	"time"
)

func demoCertificate(t *testing.T) (string, string) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	template := &x509.Certificate{
		SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1")},
	}
	der, err := x509.CreateCertificate(rand.Reader, template, template, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	keyDer, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		t.Fatal(err)
	}
	dir := t.TempDir()
	certificate, private := filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
	_ = ioutil.WriteFile(certificate, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644)
	_ = ioutil.WriteFile(private, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: keyDer}), 0600)
	return certificate, private
}

func demoLogger() *logrus.Entry {
	logger := logrus.New()
	logger.SetOutput(ioutil.Discard)
	return logger.WithField("demo", true)
}

func demoBoth(t *testing.T, certificate string, private string, handle func(params map[string]string) ([]byte, error)) *Http {
	mock := output.NewMock(parser.NewMock())
	mock.MockOutput = handle
	server, err := NewHttp(&HttpConfig{
		Http:       &HttpHttpConfig{Listen: "127.0.0.1:0"},
		Https:      &HttpHttpsConfig{Listen: "127.0.0.1:0", CertificatePath: certificate, PrivateKeyPath: private},
		ErrorsType: "application/json", Logger: demoLogger(),
		Routes: []*HttpRouteConfig{{Path: "/slow", Output: "mock"}},
	}, output.List{"mock": mock})
	if err != nil {
		t.Fatal(err)
	}
	return server
}

var demoClient = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}
'''
seed('c27-https-failure', 'C27', 'a service with both an http and an https address, whose https server fails',
 'The error of the https server is only looked at when there is no http server: a service with both is reported as successful although one of its servers failed.',
 [('pkg/service/http.go', 'service.config.Https != nil && service.lastHttpsError != http.ErrServerClosed', 'service.config.Http == nil && service.lastHttpsError != http.ErrServerClosed')], 'pkg/service', TLS_DEMO + '''
func TestDemo(t *testing.T) {
	server := demoBoth(t, "/nonexistent/cert.pem", "/nonexistent/key.pem", func(map[string]string) ([]byte, error) { return nil, nil })
	time.Sleep(200 * time.Millisecond)
	if err := server.Close(); err == nil {
		t.Fatal("the failure of the https server was not reported")
	}
}
''')
seed('c27-https-interrupted', 'C27', 'a request which is still running over https when the server is closed',
 'The https server is closed at once, without waiting for its running requests, which are cut.',
 [('pkg/service/http.go', 'service.httpsServer.Shutdown(context.Background())', 'service.httpsServer.Close()')], 'pkg/service', TLS_DEMO + '''
func TestDemo(t *testing.T) {
	certificate, private := demoCertificate(t)
	started, finish := make(chan bool), make(chan bool)
	server := demoBoth(t, certificate, private, func(map[string]string) ([]byte, error) {
		close(started)
		<-finish
		return []byte("done"), nil
	})
	result := make(chan string, 1)
	go func() {
		response, err := demoClient.Get(server.Address() + "/slow")
		if err != nil {
			result <- err.Error()
			return
		}
		body, err := ioutil.ReadAll(response.Body)
		if err != nil {
			result <- err.Error()
			return
		}
		result <- string(body)
	}()
	<-started
	closed := make(chan bool)
	go func() {
		_ = server.Close()
		close(closed)
	}()
	time.Sleep(200 * time.Millisecond)
	close(finish)
	if got := <-result; got != "done" {
		t.Fatalf("the running request was not answered: %v", got)
	}
	<-closed
}
''')
seed('c27-one-count', 'C27', 'a service with both an http and an https address, whose http server ends first',
 'Only one of the two servers is counted: the service is not waited for until both have ended.',
 [('pkg/service/http.go', '''		service.waitGroup.Add(1)
		go func() {
			defer service.waitGroup.Done()
			service.lastHttpsError = service.httpsServer.ServeTLS(''', '''		if config.Http == nil {
			service.waitGroup.Add(1)
		}
		go func() {
			if config.Http == nil {
				defer service.waitGroup.Done()
			}
			service.lastHttpsError = service.httpsServer.ServeTLS(''')], 'pkg/service', TLS_DEMO + '''
func TestDemo(t *testing.T) {
	certificate, private := demoCertificate(t)
	server := demoBoth(t, certificate, private, func(map[string]string) ([]byte, error) { return nil, nil })
	time.Sleep(100 * time.Millisecond)
	waited := make(chan bool)
	go func() {
		_ = server.Wait()
		close(waited)
	}()
	_ = server.httpServer.Close()
	select {
	case <-waited:
		t.Fatal("the service was considered as ended although its https server was running")
	case <-time.After(300 * time.Millisecond):
	}
	_ = server.httpsServer.Close()
	<-waited
}
''')
seed('c18-broken-input', 'C18', 'a configuration with an index which cannot be created, such as one whose file is in a folder which does not exist',
 'An index which cannot be created does not stop the start: the server goes on without it.',
 [('pkg/index/index.go', '''		index, err := NewFromConfig(indexConfig, inputs)
		if err != nil {
			return nil, err
		}''', '''		index, err := NewFromConfig(indexConfig, inputs)
		if err != nil {
			continue
		}''')], 'cmd', MAIN_DEMO + '''
func TestDemo(t *testing.T) {
	demoChild()
	used, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer used.Close()
	// The index cannot be read: the server must say so, before anything of the services
	out := demoMainOutput(t, fmt.Sprintf(`
inputs:
  - name: in
    type: csv
    path: demo.csv
    columns:
      - name: id
      - name: label
indexes:
  - name: broken
    type: sqlite
    input: in
    dsn: "/nonexistent/folder/index.db"
    properties:
      - name: id
outputs:
  - name: list
    type: jsonArray
    input: in
services:
  - name: web
    type: http
    http:
      listen: %v
    routes:
      - path: "/"
        output: list
`, used.Addr().String()))
	if strings.Contains(out, "initializing services") {
		t.Fatal("the services were started although an index could not be created")
	}
}

func demoMainOutput(t *testing.T, config string) string {
	dir := t.TempDir()
	path := filepath.Join(dir, "rodb.yaml")
	_ = ioutil.WriteFile(filepath.Join(dir, "demo.csv"), []byte("1,a\\n2,b\\n"), 0644)
	_ = ioutil.WriteFile(path, []byte(config), 0644)
	command := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	command.Dir = dir
	command.Env = append(os.Environ(), "DEMO_CONFIG="+path)
	output, _ := command.CombinedOutput()
	t.Logf("%s", output)
	return string(output)
}
''')
