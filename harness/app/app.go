// Package app: the shard application (C35, C38).
package app

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/gin-gonic/gin"
	"recengine/internal/api/shard"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	_ "recengine/internal/zzverif/api" // its model of the validator
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

// The model of http.Server: ListenAndServe fails, or serves until the server
// is shut down; a request may be in progress, that takes a while.
type model struct {
	fail     bool      // to listen
	late     chan bool // a value: accepting fails
	up       chan bool // closed when listening
	down     chan bool // closed by Shutdown
	isDown   bool
	slow     bool // a request is in progress when serving
	duration time.Duration
	requests int  // in progress
	aborted  bool // requests were cut off
	addr     string
	handler  http.Handler
}

var st *model

//verif:subst (*net/http.Server).ListenAndServe
func listenAndServe(s *http.Server) error {
	v.Yield()
	if st.isDown {
		return http.ErrServerClosed
	}
	if st.fail {
		return errors.New("listen: address already in use")
	}
	st.addr, st.handler = s.Addr, s.Handler
	if st.slow {
		st.requests = 1
	}
	close(st.up)
	select {
	case <-st.late:
		return errors.New("accept: too many open files")
	case <-st.down:
		return http.ErrServerClosed
	}
}

//verif:subst (*net/http.Server).Shutdown
func shutdown(s *http.Server, ctx context.Context) error {
	v.Yield()
	if !st.isDown {
		st.isDown = true
		close(st.down)
	}
	if st.requests == 0 {
		return nil
	}
	v.Yield()
	if end, ok := ctx.Deadline(); !ok || st.duration <= time.Until(end) {
		if st.duration > time.Minute {
			select {} // waits for the request without a limit
		}
		st.requests = 0
		return nil
	}
	<-ctx.Done()
	return ctx.Err()
}

//verif:subst (*net/http.Server).Close
func closeServer(s *http.Server) error {
	v.Yield()
	if !st.isDown {
		st.isDown = true
		close(st.down)
	}
	st.aborted = st.requests > 0
	return nil
}

//verif:subst github.com/gin-gonic/gin.debugPrint
func debugPrint(format string, values ...any) {}

//verif:subst github.com/gin-gonic/gin.debugPrintRoute
func debugPrintRoute(method, path string, handlers any) {}

//verif:subst github.com/gin-gonic/gin.LoggerWithConfig
func logger(conf gin.LoggerConfig) gin.HandlerFunc { return func(c *gin.Context) {} }

//verif:subst github.com/gin-gonic/gin/internal/bytesconv.StringToBytes
func stringToBytes(s string) []byte { return []byte(s) }

//verif:subst github.com/gin-gonic/gin/internal/bytesconv.BytesToString
func bytesToString(b []byte) string { return string(b) }

//verif:subst log.Println
func logPrintln(args ...any) {}

//verif:subst log.Printf
func logPrintf(format string, args ...any) {}

type instance struct {
	host   string
	svc    *domain.NamespaceService
	app    *shard.Application
	port   int
	client net.Conn
	result chan error
}

// launch runs an application.
func launch(prepare func(m *model)) *instance { return launchAt("127.0.0.1", 8080, prepare) }

func launchAt(host string, port int, prepare func(m *model)) *instance {
	os.Chdir(v.TempDir())
	os.Setenv("REC_PATH", "")
	st = &model{late: make(chan bool, 1), up: make(chan bool), down: make(chan bool)}
	prepare(st)
	a := &instance{host: host, port: port, result: make(chan error, 1)}
	if v.Native() {
		gin.SetMode(gin.ReleaseMode)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		a.port = l.Addr().(*net.TCPAddr).Port
		if !st.fail {
			l.Close()
		}
	}
	a.svc = domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
	a.app = shard.NewApplication(&shard.ApplicationDto{
		Config: &shard.Config{Host: a.host, Port: a.port}, NsService: a.svc,
	})
	go func() { a.result <- a.app.Run() }()
	if v.Native() {
		time.Sleep(100 * time.Millisecond)
	}
	return a
}

// begin sends the first part of a request and, after a while, the rest.
func (a *instance) begin(d time.Duration) {
	if !v.Native() {
		return
	}
	c, err := net.Dial("tcp", "127.0.0.1:"+strconv.Itoa(a.port))
	if err != nil {
		panic(err)
	}
	a.client = c
	io.WriteString(c, "POST /api/v1/namespaces HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\n{")
	time.Sleep(100 * time.Millisecond)
	go func() {
		if d > 8*time.Second {
			d = 8 * time.Second
		}
		time.Sleep(d)
		io.WriteString(c, "}")
	}()
}

// served tells whether the request in progress got its answer.
func (a *instance) served() bool {
	if !v.Native() {
		return !st.aborted && st.requests == 0
	}
	b := make([]byte, 8)
	a.client.SetReadDeadline(time.Now().Add(time.Second))
	_, err := io.ReadFull(a.client, b)
	return err == nil && string(b) == "HTTP/1.1"
}

var signals = []int{int(syscall.SIGINT), int(syscall.SIGTERM)}

// C35_CannotListen: the address is in use.
func C35_CannotListen() {
	v.Preemptions(v.Bound("preemptions", 2, 4))
	a := launch(func(m *model) { m.fail = true })
	told := v.Choose("signal", 2) == 1
	if told && !v.DeliverSignal(signals[v.Choose("which", 2)]) {
		return // ends the process
	}
	err := <-a.result
	v.Assert(err != nil || told, "a failure to listen is reported")
}

// C35_Signal: a signal at any time.
func C35_Signal() {
	v.Preemptions(v.Bound("preemptions", 2, 4))
	v.Option("latetimers", 1)
	a := launch(func(m *model) {})
	if !v.DeliverSignal(signals[v.Choose("which", 2)]) {
		return // ends the process
	}
	if v.Choose("again", 2) == 1 {
		if !v.DeliverSignal(signals[v.Choose("which", 2)]) {
			return
		}
	}
	err := <-a.result
	v.Assert(err == nil, "a shutdown is no error")
	v.Assert(v.Native() || st.isDown, "the server is shut down")
}

// C35_Graceful: a request is in progress when the signal arrives.
func C35_Graceful() {
	v.Preemptions(v.Bound("preemptions", 2, 4))
	v.Option("latetimers", 1)
	d := time.Duration(v.I64("duration"))
	v.Assume(v.And(d >= 0, d <= time.Hour))
	a := launch(func(m *model) { m.slow, m.duration = true, d })
	if !v.Native() {
		<-st.up
		v.Settle()
	}
	a.begin(d)
	v.Assert(v.DeliverSignal(signals[v.Choose("which", 2)]), "a running application catches the signal")
	err := <-a.result
	v.Assert(v.Implies(d <= 4*time.Second, err == nil), "a request is waited for")
	v.Assert(v.Implies(d > time.Minute, err != nil), "a request is not waited for endlessly")
	if err == nil {
		v.Reach("served")
		v.Assert(a.served(), "a request in progress is answered")
	} else {
		v.Reach("gave up")
	}
}

// C35_StopsServing: the server fails while it serves.
func C35_StopsServing() {
	v.Preemptions(v.Bound("preemptions", 2, 4))
	v.Option("latetimers", 1)
	if v.Native() {
		return // cannot be provoked
	}
	a := launch(func(m *model) {})
	caught := false
	if v.Choose("signal", 2) == 1 {
		go func() {
			if !v.DeliverSignal(15) {
				v.Stop()
			}
			caught = true
		}()
	}
	st.late <- true
	err := <-a.result
	v.Assert(err != nil || caught, "a failure to serve is reported")
}

// C35_Timers: the shutdown may run out of time anywhere.
func C35_Timers() {
	v.Preemptions(v.Bound("preemptions", 1, 3))
	if v.Native() {
		return // cannot be provoked
	}
	a := launch(func(m *model) { m.slow = v.Choose("request", 2) == 1; m.duration = time.Second })
	if !v.DeliverSignal(15) {
		return
	}
	<-a.result
	v.Assert(st.isDown, "the server is shut down")
}

// ---- C38 ----

type response struct {
	header http.Header
	status int
	data   []byte
}

func (r *response) Header() http.Header  { return r.header }
func (r *response) WriteHeader(code int) { r.status = code }
func (r *response) Write(b []byte) (int, error) {
	r.data = append(r.data, b...)
	return len(b), nil
}

// get sends a GET request to the running application.
func (a *instance) get(path string) (int, []byte) { return a.send("GET", path, "", nil) }

// send sends a request to the running application; the path may be spelled in another way.
func (a *instance) send(method, path, raw string, data []byte) (int, []byte) {
	u := &url.URL{Path: path, RawPath: raw}
	if v.Native() {
		u.Scheme, u.Host = "http", "127.0.0.1:"+strconv.Itoa(a.port)
		req, err := http.NewRequest(method, u.String(), bytes.NewReader(data))
		if err != nil {
			return 0, nil
		}
		r, err := http.DefaultTransport.RoundTrip(req) // follows no redirections
		if err != nil {
			return 0, nil
		}
		defer r.Body.Close()
		b, _ := io.ReadAll(r.Body)
		return r.StatusCode, b
	}
	<-st.up
	r := &response{header: http.Header{}}
	st.handler.ServeHTTP(r, &http.Request{
		Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &body{data: data}, Host: "localhost", RequestURI: path,
	})
	return r.status, r.data
}

// C38_Serves: the application serves the registry of its service at the configured address.
func C38_Serves() {
	v.Preemptions(0)
	v.Option("latetimers", 1)
	a := launch(func(m *model) {})
	name, _ := valueobjects.ParseNamespaceName("a")
	limit := uint(v.U64("limit"))
	v.Assume(limit > 0)
	n := v.Choose("namespaces", 2)
	if n == 1 {
		_, err := a.svc.CreateNamespace(&domain.NamespaceCreateRequest{
			Name: name, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: limit, DislikeFactor: 0.5,
		})
		v.Assert(err == nil, "created")
	}
	status, data := a.get("/api/v1/namespaces")
	v.Assert(status == 200, "the API is served")
	var list []struct {
		Name string `json:"name"`
		Max  uint   `json:"maxSimilarProfiles"`
	}
	v.Assert(json.Unmarshal(data, &list) == nil, "a list")
	v.Assert(len(list) == n, "of the namespaces of the service")
	for _, x := range list {
		v.Assert(v.And(x.Name == "a", x.Max == limit), "with their settings")
	}
	v.Assert(v.Native() || st.addr == "127.0.0.1:8080", "at the configured address")
	v.DeliverSignal(15)
	v.Assert(<-a.result == nil, "stopped")
}

// C38_Through: what the API creates or changes is in the service and the other way round.
func C38_Through() {
	v.Preemptions(0)
	v.Option("latetimers", 1)
	a := launch(func(m *model) {})
	text := v.String("name", v.Choose("length", v.Bound("length", 2, 4))+1)
	v.Assume(v.And(text[0] >= 'a', text[0] <= 'z'))
	for i := 1; i < len(text); i++ {
		v.Assume(v.Or(v.And(text[i] >= 'a', text[i] <= 'z'), v.And(text[i] >= '0', text[i] <= '9')))
	}
	name, err := valueobjects.ParseNamespaceName(text)
	v.Assert(err == nil, "a valid name")
	limit := uint(v.U64("limit"))
	v.Assume(limit > 0)
	viaAPI := v.Choose("created through the API", 2) == 1
	req := map[string]any{"name": text, "type": "like", "maxSimilarProfiles": limit, "dislikeFactor": 0.5}
	data, err := json.Marshal(req)
	v.Assert(err == nil, "encoded")
	if viaAPI {
		status, _ := a.send("POST", "/api/v1/namespaces", "", data)
		v.Assert(status == 201, "created through the API")
	} else {
		_, err := a.svc.CreateNamespace(&domain.NamespaceCreateRequest{
			Name: name, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: limit, DislikeFactor: 0.5,
		})
		v.Assert(err == nil, "created through the service")
	}
	// any spelling of the name
	raw := ""
	if v.Choose("escaped", 2) == 1 {
		const hex = "0123456789ABCDEF"
		raw = "/api/v1/namespaces/" + string([]byte{'%', hex[text[0]>>4], hex[text[0]&15]}) + text[1:]
	}
	for change := 0; change < 2; change++ {
		ns := a.svc.GetNamespaceByName(name)
		v.Assert(ns != nil && len(a.svc.GetNamespaces()) == 1, "visible in the service")
		v.Assert(v.And(ns.GetMaxSimilarProfiles() == limit, ns.GetDislikeFactor() == 0.5), "with its settings")
		status, got := a.send("GET", "/api/v1/namespaces/"+text, raw, nil)
		v.Assert(status == 200, "visible through the API")
		var x struct {
			Name string `json:"name"`
			Max  uint   `json:"maxSimilarProfiles"`
		}
		v.Assert(json.Unmarshal(got, &x) == nil && x.Name == text && x.Max == limit, "with its settings")
		if change == 1 {
			break
		}
		limit = uint(v.U64("new limit"))
		v.Assume(limit > 0)
		if viaAPI { // now the other way
			_, err := a.svc.UpdateNamespace(name, &domain.NamespaceUpdateRequest{
				Name: name, MaxSimilarProfiles: limit, DislikeFactor: 0.5,
			})
			v.Assert(err == nil, "updated through the service")
		} else {
			req["maxSimilarProfiles"] = limit
			data, err := json.Marshal(req)
			v.Assert(err == nil, "encoded")
			status, _ := a.send("PUT", "/api/v1/namespaces/"+text, raw, data)
			v.Assert(status == 200, "updated through the API")
		}
	}
	v.DeliverSignal(15)
	v.Assert(<-a.result == nil, "stopped")
	v.Reach("done")
}

var outside = []string{
	"/", "/x", "/api", "/api/", "/api/v1", "/api/v1/", "/api/v1/x", "/api/v2/namespaces", "/namespaces", "/a",
	"/api/v1/namespacesx", "/api/v1/namespaces/a/b", "/api/v1/namespace/a", "/API/V1/NAMESPACES", "/index.html",
	"/x/api/v1/namespaces", "/debug/pprof/", "/metrics", "/namespaces.json", "/.env", "/api/v1/namespaces.json",
}

// C38_Outside: the application serves nothing but the API.
func C38_Outside() {
	v.Preemptions(0)
	v.Option("latetimers", 1)
	a := launch(func(m *model) {})
	name, _ := valueobjects.ParseNamespaceName("a")
	_, err := a.svc.CreateNamespace(&domain.NamespaceCreateRequest{
		Name: name, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 5, DislikeFactor: 0.5,
	})
	v.Assert(err == nil, "created")
	path := ""
	if k := v.Choose("path", len(outside)+1); k < len(outside) {
		path = outside[k]
	} else {
		path = "/" + v.String("path", v.Choose("length", v.Bound("path length", 3, 6))+1)
		for i := 1; i < len(path); i++ {
			v.Assume(v.And(path[i] > ' ', path[i] < 0x7f))
		}
	}
	method := []string{"GET", "POST", "PUT", "DELETE", "HEAD"}[v.Choose("method", 5)]
	status, _ := a.send(method, path, "", nil)
	v.Assert(status == 404, "paths outside the API answer 404")
	ns := a.svc.GetNamespaceByName(name)
	v.Assert(len(a.svc.GetNamespaces()) == 1 && ns != nil && ns.GetMaxSimilarProfiles() == 5, "and change nothing")
	v.DeliverSignal(15)
	v.Assert(<-a.result == nil, "stopped")
	v.Reach("done")
}

// C38_Address: the application listens at the configured address only.
func C38_Address() {
	v.Preemptions(0)
	v.Option("latetimers", 1)
	hosts := []string{"127.0.0.1", "localhost", "", "0.0.0.0", "::1"}
	host := hosts[v.Choose("host", len(hosts))]
	if v.Native() && host == "::1" {
		return // not available everywhere
	}
	a := launchAt(host, v.Int("port", 0, 65535), func(m *model) {})
	if v.Native() {
		l, err := net.Listen("tcp", "127.0.0.2:"+strconv.Itoa(a.port))
		if err == nil {
			l.Close()
		}
		v.Assert((err == nil) == (host == "127.0.0.1" || host == "localhost"), "at the configured address")
	} else {
		<-st.up
		v.Assert(st.addr == host+":"+strconv.Itoa(a.port), "at the configured address")
	}
	v.DeliverSignal(15)
	v.Assert(<-a.result == nil, "stopped")
}

var _ = world.Files

// Expect prepares the server model for the next run of the program.
func Expect(busy bool) {
	st = &model{fail: busy, late: make(chan bool, 1), up: make(chan bool), down: make(chan bool)}
}

// Up is closed when the server listens.
func Up() <-chan bool { return st.up }

// Addr is where the server listens.
func Addr() string { return st.addr }

type body struct {
	data []byte
	at   int
}

func (c *body) Read(b []byte) (int, error) {
	if c.at == len(c.data) {
		return 0, io.EOF
	}
	n := copy(b, c.data[c.at:])
	c.at += n
	return n, nil
}

func (c *body) Close() error { return nil }

// Send has the model server handle a request.
func Send(method, path string, data []byte) (int, []byte) {
	r := &response{header: http.Header{}}
	st.handler.ServeHTTP(r, &http.Request{
		Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &body{data: data}, Host: "localhost", RequestURI: path,
	})
	return r.status, r.data
}
