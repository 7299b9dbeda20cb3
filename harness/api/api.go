// Package api: the REST API (C33).
package api

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"net/url"
	"os"

	"github.com/gin-gonic/gin"
	"recengine/internal/api/shard/endpoints"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

type rec struct {
	name   string
	max    uint
	factor float32
}

type server struct {
	svc    *domain.NamespaceService
	engine *gin.Engine
}

func start() *server {
	os.Chdir(v.TempDir())
	os.Setenv("REC_PATH", "")
	if v.Native() {
		gin.SetMode(gin.ReleaseMode)
	}
	s := &server{svc: domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())}
	s.engine = gin.New()
	endpoints.NewNamespaceEndpoint(s.svc).RegisterRoutes(s.engine)
	return s
}

// answer is what a client gets.
type answer struct {
	header http.Header
	status int
	heads  int
	data   []byte
}

func (a *answer) Header() http.Header { return a.header }

func (a *answer) WriteHeader(code int) {
	a.heads++
	if a.status == 0 {
		a.status = code
	}
}

func (a *answer) Write(b []byte) (int, error) {
	if a.status == 0 {
		a.status = 200
	}
	a.data = append(a.data, b...)
	return len(b), nil
}

type content struct {
	data []byte
	at   int
}

func (c *content) Read(b []byte) (int, error) {
	if c.at == len(c.data) {
		return 0, io.EOF
	}
	n := copy(b, c.data[c.at:])
	c.at += n
	return n, nil
}

func (c *content) Close() error { return nil }

// request sends a request and returns its answer.
func (s *server) request(method, path string, body []byte) *answer {
	req := &http.Request{
		Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &content{data: body}, Host: "localhost", RequestURI: path,
	}
	a := &answer{header: http.Header{}}
	s.engine.ServeHTTP(a, req)
	v.Assert(a.heads == 1, "a request is answered exactly once")
	return a
}

type namespace struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Max  uint   `json:"maxSimilarProfiles"`
}

func (a *answer) is(r rec, what string) {
	var got namespace
	v.Assert(json.Unmarshal(a.data, &got) == nil, what+": a namespace")
	v.Assert(got.Name == r.name, what+": name")
	v.Assert(got.Type == "like", what+": type")
	v.Assert(got.Max == r.max, what+": limit")
}

func (a *answer) isError(what string) {
	var got map[string]any
	v.Assert(json.Unmarshal(a.data, &got) == nil, what+": an object")
	_, m := got["message"]
	_, e := got["error"]
	v.Assert(m || e, what+": tells the error")
}

func find(rs []rec, name string) int {
	for i, r := range rs {
		if r.name == name {
			return i
		}
	}
	return -1
}

func (s *server) add(rs []rec, name string) []rec {
	n, err := valueobjects.ParseNamespaceName(name)
	v.Assert(err == nil, "the name is valid")
	r := rec{name, uint(v.U64("limit of " + name)), v.F32("factor of " + name)}
	v.Assume(v.And(r.max > 0, r.factor >= 0, r.factor <= 1))
	_, err = s.svc.CreateNamespace(&domain.NamespaceCreateRequest{
		Name: n, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: r.max, DislikeFactor: r.factor,
	})
	v.Assert(err == nil, "created")
	return append(rs, r)
}

func (s *server) holds(rs []rec, what string) {
	list := s.svc.GetNamespaces()
	v.Assert(len(list) == len(rs), what+": number of namespaces")
	for _, r := range rs {
		name, _ := valueobjects.ParseNamespaceName(r.name)
		ns := s.svc.GetNamespaceByName(name)
		v.Assert(ns != nil, what+": there")
		v.Assert(ns.GetMaxSimilarProfiles() == r.max, what+": limit")
		v.Assert(ns.GetDislikeFactor() == r.factor, what+": dislike factor")
	}
}

const base = "/api/v1/namespaces"

// C33_Get: any name in the URL.
func C33_Get() {
	s := start()
	var rs []rec
	for _, n := range []string{"a", "b", "ab"} {
		if v.Choose("registered", 2) == 1 {
			rs = s.add(rs, n)
		}
	}
	name := v.String("name", v.Choose("length", 2)+1)
	ok := letter(name[0])
	for i := 0; i < len(name); i++ {
		v.Assume(name[i] != '/')
		if i > 0 {
			ok = v.And(ok, v.Or(letter(name[i]), between(name[i], '0', '9'), name[i] == '_', name[i] == '-'))
		}
	}
	a := s.request("GET", base+"/"+name, nil)
	v.Obs("get", a.status)
	if i := find(rs, name); i >= 0 {
		v.Assert(a.status == 200, "a registered namespace is found")
		a.is(rs[i], "get")
		v.Reach("found")
	} else {
		v.Assert(v.Implies(ok, a.status == 404), "an unknown name is not found")
		v.Assert(v.Implies(!ok, a.status == 400), "a malformed name is a bad request")
		a.isError("get")
		v.Reach("not found")
	}
	s.holds(rs, "registry")
}

func letter(c byte) bool { return v.Or(between(c, 'a', 'z'), between(c, 'A', 'Z')) }

func lowerName(s string) bool {
	if len(s) == 0 {
		return false
	}
	ok := between(s[0], 'a', 'z')
	for i := 1; i < len(s); i++ {
		ok = v.And(ok, v.Or(between(s[i], 'a', 'z'), between(s[i], '0', '9')))
	}
	return ok
}

// ascii is any text of n ASCII characters.
func ascii(name string, n int) string {
	s := v.String(name, n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] < 0x80)
	}
	return s
}

// body is a request body: what it asks for, and whether it is acceptable.
type body struct {
	rec
	data     []byte
	ok, open bool // open: both answers are fine
}

// settings is the body of a POST or PUT.
func settings(post bool, names []string, size int) body {
	m := map[string]any{}
	b := body{ok: true}
	switch k := v.Choose("name", len(names)+2); {
	case k < len(names):
		b.name = names[k]
		m["name"] = b.name
	case k == len(names):
		b.name = ascii("new name", v.Choose("length of the new name", size+1))
		m["name"] = b.name
		b.ok = lowerName(b.name)
	default:
		b.ok = false
	}
	if post {
		if k := v.Choose("type", 4); k < 3 {
			m["type"] = []string{"like", "", "likes"}[k]
			b.ok = v.And(b.ok, k == 0)
		} else {
			b.ok = false
		}
	}
	b.max = 1000
	if v.Choose("limit", 2) == 1 {
		x := uint(v.U64("new limit"))
		m["maxSimilarProfiles"] = x
		b.max = uint(v.IteU64(x == 0, 1000, uint64(x)))
	}
	switch v.Choose("factor", 2) {
	case 1:
		b.factor = v.F32("new factor")
		v.Assume(b.factor-b.factor == 0)
		m["dislikeFactor"] = b.factor
		b.ok = v.And(b.ok, b.factor >= 0, b.factor <= 1)
		b.open = b.factor == 0
	case 0:
		b.open = true
	}
	if v.Choose("more", 2) == 1 {
		m["more"] = "x"
	}
	data, err := json.Marshal(m)
	v.Assert(err == nil, "encoded")
	b.data = data
	return b
}

// malformed bodies.
var malformed = []string{
	"", " ", "{", "}", "[]", "[{}]", "null", "1", `"a"`, "{}", `{"name":"c"}`,
	`{"name":"c","type":"like","maxSimilarProfiles":1,"dislikeFactor":0.5`,
	`{"name":1,"type":"like","maxSimilarProfiles":1,"dislikeFactor":0.5}`,
	`{"name":"c","type":2,"maxSimilarProfiles":1,"dislikeFactor":2}`,
	`{"name":"c","type":"like","maxSimilarProfiles":-1,"dislikeFactor":0.5}`,
	`{"name":"c","type":"like","maxSimilarProfiles":1.5,"dislikeFactor":0.5}`,
	`{"name":"c","type":"like","maxSimilarProfiles":"1","dislikeFactor":0.5}`,
	`{"name":"c","type":"like","maxSimilarProfiles":1,"dislikeFactor":"0.5"}`,
	`{"name":"c","type":"like","maxSimilarProfiles":1,"dislikeFactor":1e99}`,
	`{"name":"../c","type":"like","maxSimilarProfiles":1,"dislikeFactor":0.5}`,
	`{"name":["c"],"type":"like","maxSimilarProfiles":1,"dislikeFactor":0.5}`,
}

func (s *server) some(names ...string) []rec {
	var rs []rec
	for _, n := range names {
		if v.Choose("registered", 2) == 1 {
			rs = s.add(rs, n)
		}
	}
	return rs
}

// post sends a POST and returns the records afterwards.
func (s *server) post(rs []rec, b body) []rec {
	a := s.request("POST", base, b.data)
	v.Obs("post", a.status)
	v.Assert(a.status == 201 || a.status == 400, "POST answers 201 or 400")
	free := find(rs, b.name) < 0
	if a.status == 201 {
		v.Reach("created")
		v.Assert(free, "a name is registered only once")
		v.Assert(b.ok, "only valid requests are accepted")
		a.is(b.rec, "post")
		rs = append(append([]rec{}, rs...), b.rec)
	} else {
		v.Reach("refused")
		v.Assert(v.Or(!b.ok, b.open, !free), "a valid request is accepted")
		a.isError("post")
	}
	s.holds(rs, "registry")
	return rs
}

// put sends a PUT to a valid name and returns the records afterwards.
func (s *server) put(rs []rec, name string, b body) []rec {
	a := s.request("PUT", base+"/"+name, b.data)
	v.Obs("put", a.status)
	i := find(rs, name)
	if i < 0 {
		v.Assert(a.status == 404, "an unknown name is not found")
		a.isError("put")
		s.holds(rs, "registry")
		return rs
	}
	free := b.name == name || find(rs, b.name) < 0
	if a.status == 200 {
		v.Reach("updated")
		v.Assert(free, "a name is registered only once")
		v.Assert(b.ok, "only valid requests are accepted")
		a.is(b.rec, "put")
		rs = append([]rec{}, rs...)
		rs[i] = b.rec
	} else {
		v.Reach("refused")
		v.Assert(a.status >= 400 && a.status < 500, "a refused update is an error")
		v.Assert(v.Or(!b.ok, b.open, !free), "a valid request is accepted")
		a.isError("put")
	}
	s.holds(rs, "registry")
	return rs
}

// list reads the collection.
func (s *server) list(rs []rec) {
	a := s.request("GET", base, nil)
	v.Obs("list", a.status)
	v.Assert(a.status == 200, "the collection is there")
	var got []namespace
	v.Assert(json.Unmarshal(a.data, &got) == nil && got != nil, "a list of namespaces")
	v.Assert(len(got) == len(rs), "every namespace is listed once")
	seen := map[string]bool{}
	for _, g := range got {
		i := find(rs, g.Name)
		v.Assert(i >= 0 && !seen[g.Name], "a registered namespace is listed once")
		seen[g.Name] = true
		v.Assert(v.And(g.Type == "like", g.Max == rs[i].max), "with its settings")
	}
	s.holds(rs, "registry")
}

// C33_Post: any body.
func C33_Post() {
	s := start()
	rs := s.some("a", "b")
	s.list(s.post(rs, settings(true, []string{"a", "b"}, v.Bound("name length", 3, 6))))
}

// C33_Put: any body, to any of the registered or an unknown name.
func C33_Put() {
	s := start()
	rs := s.some("a", "b")
	name := []string{"a", "b", "c"}[v.Choose("target", 3)]
	rs = s.put(rs, name, settings(false, []string{"a", "b"}, v.Bound("name length", 3, 6)))
	s.list(rs)
}

// C33_BadName: a malformed name in the URL of a PUT.
func C33_BadName() {
	s := start()
	rs := s.some("a")
	name := v.String("name", v.Choose("length", v.Bound("name length in the URL", 3, 5))+1)
	ok := letter(name[0])
	for i := 0; i < len(name); i++ {
		v.Assume(name[i] != '/')
		if i > 0 {
			ok = v.And(ok, v.Or(letter(name[i]), between(name[i], '0', '9'), name[i] == '_', name[i] == '-'))
		}
	}
	v.Assume(!ok)
	a := s.request("PUT", base+"/"+name, []byte(`{"name":"c","maxSimilarProfiles":1,"dislikeFactor":0.5}`))
	v.Obs("put", a.status)
	v.Assert(a.status == 400, "a malformed name is a bad request")
	a.isError("put")
	s.list(rs)
}

// C33_Malformed: bodies that are not what they should be.
func C33_Malformed() {
	s := start()
	rs := s.some("a", "c")
	data := []byte(malformed[v.Choose("body", len(malformed))])
	method, path := "POST", base
	if v.Choose("method", 2) == 1 {
		method, path = "PUT", base+"/a"
		v.Assume(find(rs, "a") >= 0)
	}
	a := s.request(method, path, data)
	v.Obs("answer", a.status)
	v.Assert(a.status == 400, "a malformed body is a bad request")
	a.isError("malformed")
	s.list(rs)
}

// C33_History: requests after one another.
func C33_History() {
	s := start()
	names := []string{"a", "b"}
	var rs []rec
	n := v.Bound("requests", 3, 4)
	for i := 0; i < n; i++ {
		r := rec{names[v.Choose("name", 2)], uint(v.U64("limit")), v.F32("factor")}
		v.Assume(v.And(r.max > 0, r.factor > 0, r.factor <= 1))
		// what is left out must not be made up for by earlier requests
		send := func() body {
			fields := map[string]any{
				"name": r.name, "type": "like", "maxSimilarProfiles": r.max, "dislikeFactor": r.factor,
			}
			ok := true
			switch v.Choose("left out", 3) {
			case 1:
				delete(fields, "maxSimilarProfiles")
				r.max = 1000
			case 2:
				delete(fields, "dislikeFactor")
				ok = false
			}
			data, _ := json.Marshal(fields)
			return body{rec: r, data: data, ok: ok}
		}
		switch v.Choose("request", 4) {
		case 0:
			rs = s.post(rs, send())
		case 1:
			rs = s.put(rs, names[v.Choose("target", 2)], send())
		case 2:
			name := names[v.Choose("target", 2)]
			a := s.request("GET", base+"/"+name, nil)
			if i := find(rs, name); i >= 0 {
				v.Assert(a.status == 200, "a registered namespace is found")
				a.is(rs[i], "get")
			} else {
				v.Assert(a.status == 404, "an unknown name is not found")
			}
		default:
			s.list(rs)
		}
	}
	s.list(rs)
}

// C33_Many: more namespaces than a page.
func C33_Many() {
	v.MaxSteps(200_000_000)
	s := start()
	var rs []rec
	n := v.Bound("namespaces", 130, 260)
	for i := 0; i < n; i++ {
		name := "n" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		if i < n-2 {
			pn, err := valueobjects.ParseNamespaceName(name)
			v.Assert(err == nil, "the name is valid")
			r := rec{name, uint(i + 1), 0.5}
			_, err = s.svc.CreateNamespace(&domain.NamespaceCreateRequest{
				Name: pn, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: r.max, DislikeFactor: r.factor,
			})
			v.Assert(err == nil, "created")
			rs = append(rs, r)
			continue
		}
		r := rec{name, uint(v.U64("limit")), 0.5}
		v.Assume(r.max > 0)
		data, _ := json.Marshal(map[string]any{"name": name, "type": "like", "maxSimilarProfiles": r.max, "dislikeFactor": 0.5})
		rs = s.post(rs, body{rec: r, data: data, ok: true})
	}
	s.list(rs)
	i := []int{0, n / 2, n - 1}[v.Choose("which", 3)]
	a := s.request("GET", base+"/"+rs[i].name, nil)
	v.Assert(a.status == 200, "a registered namespace is found")
	a.is(rs[i], "get")
	v.Reach("done")
}

// C33_Unsaved: the registry cannot be saved.
func C33_Unsaved() {
	s := start()
	rs := s.add(nil, "a")
	data := []byte(`{"name":"b","type":"like","maxSimilarProfiles":1,"dislikeFactor":0.5}`)
	method, path := "POST", base
	if v.Choose("method", 2) == 1 {
		method, path = "PUT", base+"/a"
	}
	world.LimitFiles(v.Choose("space", v.Bound("space", 4, 30)))
	a := s.request(method, path, data)
	world.LimitFiles(-1)
	v.Assert(a.status >= 400, "a failed save is an error")
	a.isError("unsaved")
	s.list(rs)
}

// C33_Together: concurrent requests.
func C33_Together() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	s := start()
	rs := s.add(nil, "a")
	x := uint(v.U64("limit"))
	v.Assume(x > 0)
	v.RaceDetect()
	put := func(n string) []byte {
		data, _ := json.Marshal(map[string]any{"name": n, "type": "like", "maxSimilarProfiles": x, "dislikeFactor": 0.5})
		return data
	}
	kinds := []struct {
		method, path string
		data         []byte
	}{
		{"POST", base, put("b")}, {"PUT", base + "/a", put("b")}, {"PUT", base + "/a", put("a")}, {"PUT", base + "/b", put("c")},
		{"GET", base + "/a", nil}, {"GET", base + "/b", nil}, {"GET", base, nil},
	}
	i := v.Choose("first", len(kinds))
	j := i + v.Choose("second", len(kinds)-i)
	var as [2]*answer
	done := make(chan bool, 2)
	for n, k := range []int{i, j} {
		n, k := n, kinds[k]
		go func() {
			as[n] = s.request(k.method, k.path, k.data)
			done <- true
		}()
	}
	<-done
	<-done
	created := 0
	for n, k := range []int{i, j} {
		st := as[n].status
		if k < 2 && st < 300 {
			created++
		}
		switch k {
		case 0:
			v.Assert(st == 201 || st == 400, "POST answers 201 or 400")
		case 6:
			v.Assert(st == 200, "the collection is there")
		default:
			v.Assert(st == 200 || st == 400 || st == 404, "an update or a read is answered")
		}
	}
	v.Assert(created <= 1, "a name is registered only once")
	list := s.svc.GetNamespaces()
	want := len(rs)
	for n, k := range []int{i, j} {
		if k == 0 && as[n].status == 201 {
			want++
		}
	}
	v.Assert(len(list) == want, "number of namespaces")
	seen := map[string]bool{}
	for _, ns := range list {
		v.Assert(!seen[ns.GetName().Value()], "a name is registered only once")
		seen[ns.GetName().Value()] = true
	}
}
