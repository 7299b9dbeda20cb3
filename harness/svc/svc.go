// Package svc: the namespace service (C30, C31, C32, C37).
package svc

import (
	"context"
	"encoding/json"
	"os"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

// rec is what the registry should hold about one namespace.
type rec struct {
	name   string
	max    uint
	factor float32
}

func (r rec) limit() uint {
	if r.max == 0 {
		return 1000
	}
	return r.max
}

const (
	create = iota
	update
	remove
)

// op is a request.
type op struct {
	kind    int
	target  string // of update and remove
	r       rec
	badType bool
}

func parse(s string) valueobjects.NamespaceName {
	name, err := valueobjects.ParseNamespaceName(s)
	v.Assert(err == nil, "the name is valid")
	return name
}

func service() *domain.NamespaceService {
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

// inDir starts a service in a data directory.
func inDir(sub string) *domain.NamespaceService {
	os.Chdir(v.TempDir())
	os.Setenv("REC_PATH", sub)
	return service()
}

func find(rs []rec, name string) int {
	for i, r := range rs {
		if r.name == name {
			return i
		}
	}
	return -1
}

// must tells whether a request has to fail.
func (o op) mustFail(rs []rec) bool {
	switch o.kind {
	case create:
		return o.badType || find(rs, o.r.name) >= 0
	case update:
		return find(rs, o.target) < 0 || o.target != o.r.name && find(rs, o.r.name) >= 0
	}
	return find(rs, o.target) < 0
}

func (o op) apply(rs []rec) []rec {
	out := append([]rec{}, rs...)
	switch o.kind {
	case create:
		return append(out, o.r)
	case update:
		out[find(rs, o.target)] = o.r
		return out
	}
	i := find(rs, o.target)
	return append(out[:i], out[i+1:]...)
}

// do sends a request to the service.
func (o op) do(s *domain.NamespaceService) (domain.Namespace, error) {
	switch o.kind {
	case create:
		t := valueobjects.MakeLikeNamespaceType()
		if o.badType {
			t = valueobjects.NamespaceType{}
		}
		return s.CreateNamespace(&domain.NamespaceCreateRequest{
			Name: parse(o.r.name), Type: t, MaxSimilarProfiles: o.r.max, DislikeFactor: o.r.factor,
		})
	case update:
		return s.UpdateNamespace(parse(o.target), &domain.NamespaceUpdateRequest{
			Name: parse(o.r.name), MaxSimilarProfiles: o.r.max, DislikeFactor: o.r.factor,
		})
	}
	return nil, s.DeleteNamespace(parse(o.target))
}

// holds asserts that a namespace has the settings of a record.
func holds(ns domain.Namespace, r rec, what string) {
	v.Assert(ns != nil, what+": there")
	v.Assert(ns.GetName().Value() == r.name, what+": name")
	v.Assert(ns.GetType().Value() == "like", what+": type")
	v.Assert(ns.GetMaxSimilarProfiles() == r.limit(), what+": limit")
	v.Assert(ns.GetDislikeFactor() == r.factor, what+": dislike factor")
}

// same asserts that the registry holds exactly the records.
func same(s *domain.NamespaceService, rs []rec, names []string, what string) {
	list := s.GetNamespaces()
	v.Assert(len(list) == len(rs), what+": number of namespaces")
	for _, ns := range list {
		v.Assert(find(rs, ns.GetName().Value()) >= 0, what+": a registered name")
	}
	for _, name := range names {
		ns := s.GetNamespaceByName(parse(name))
		i := find(rs, name)
		if i < 0 {
			v.Assert(ns == nil, what+": no namespace of that name")
			continue
		}
		holds(ns, rs[i], what)
		n := 0
		for _, x := range list {
			if x == ns {
				n++
			}
		}
		v.Assert(n == 1, what+": listed once")
	}
}

// arbitrary is any request.
func arbitrary(names []string) op {
	o := op{kind: v.Choose("request", 3)}
	if o.kind != create {
		o.target = names[v.Choose("target", len(names))]
	}
	if o.kind != remove {
		o.r = rec{names[v.Choose("name", len(names))], uint(v.U64("limit")), v.F32("dislike factor")}
		v.Assume(v.And(o.r.factor >= 0, o.r.factor <= 1))
	}
	return o
}

// ---- C30 ----

// C30_Requests: any sequence of requests.
func C30_Requests() {
	s := inDir("")
	names := []string{"a", "A", "b"}
	var rs []rec
	steps := v.Bound("requests", 3, 4)
	n := v.Choose("requests", steps) + 1
	for i := 0; i < n; i++ {
		o := arbitrary(names)
		if o.kind == create && v.Choose("type", 2) == 1 {
			o.badType = true
		}
		ns, err := o.do(s)
		v.Obs("request", o.kind, err == nil)
		if o.mustFail(rs) {
			v.Reach("refused")
			v.Assert(err != nil, "a request that cannot be satisfied fails")
		} else {
			v.Reach("accepted")
			v.Assert(err == nil, "a request that can be satisfied succeeds")
			rs = o.apply(rs)
			if o.kind != remove {
				holds(ns, o.r, "returned namespace")
				v.Assert(s.GetNamespaceByName(parse(o.r.name)) == ns, "the returned namespace is the registered one")
			}
		}
		same(s, rs, names, "registry")
	}
}

// C30_Settings: settings of any value, also those that cannot be saved.
func C30_Settings() {
	s := inDir("")
	names := []string{"a", "b"}
	var rs []rec
	for i := 0; i < 2; i++ {
		o := op{kind: create, r: rec{names[i], uint(v.U64("limit")), v.F32("dislike factor")}}
		if i == 1 && len(rs) == 1 && v.Choose("update", 2) == 1 {
			o.kind, o.target = update, "a"
		}
		ns, err := o.do(s)
		if err != nil {
			v.Reach("refused")
			v.Assert(o.r.factor != o.r.factor || o.r.factor-o.r.factor != 0, "a finite factor is accepted")
		} else {
			v.Assert(ns != nil, "the namespace is returned")
			rs = o.apply(rs)
		}
		list := s.GetNamespaces()
		v.Assert(len(list) == len(rs), "number of namespaces")
		for _, r := range rs {
			ns := s.GetNamespaceByName(parse(r.name))
			v.Assert(ns != nil, "registered")
			v.Assert(ns.GetMaxSimilarProfiles() == r.limit(), "limit")
			f := ns.GetDislikeFactor()
			v.Assert(v.Or(f == r.factor, v.And(f != f, r.factor != r.factor)), "dislike factor")
		}
	}
}

// C30_Copies: what the service returned earlier does not change the registry.
func C30_Copies() {
	s := inDir("")
	names := []string{"a", "b", "c", "d"}
	var rs []rec
	for _, n := range names[:3] {
		o := op{kind: create, r: rec{n, uint(v.U64("limit")), 0.5}}
		_, err := o.do(s)
		v.Assert(err == nil, "created")
		rs = o.apply(rs)
	}
	list := s.GetNamespaces()
	kept := append([]domain.Namespace{}, list...)
	o := arbitrary(names)
	if _, err := o.do(s); err == nil {
		rs = o.apply(rs)
	}
	for i := range list {
		v.Assert(list[i] == kept[i], "a list returned earlier stays as it was")
	}
	if v.Choose("write", 2) == 1 {
		list[v.Choose("which", 3)] = nil
	}
	same(s, rs, names, "registry")
}

// digits is a decimal number.
func digits(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return digits(i/10) + string(rune('0'+i%10))
}

// crowd registers n namespaces, renames some, deletes some, and returns what is left.
func crowd(s *domain.NamespaceService, n int) ([]rec, []string) {
	var rs []rec
	var names []string
	do := func(o op, ok bool) {
		_, err := o.do(s)
		v.Assert((err == nil) == ok, "a request succeeds exactly if it can be satisfied")
		if ok {
			rs = o.apply(rs)
		}
	}
	x := uint(v.U64("limit"))
	for i := 0; i < n; i++ {
		name := "n" + digits(i)
		names = append(names, name)
		r := rec{name, uint(i), float32(i%5) / 4}
		if i == n/2 {
			r.max = x
		}
		do(op{kind: create, r: r}, true)
	}
	at := []int{0, 1, n / 2, n - 2, n - 1}[v.Choose("at", 5)]
	switch v.Choose("change", 4) {
	case 0:
		do(op{kind: remove, target: names[at]}, true)
		do(op{kind: remove, target: names[at]}, false)
	case 1:
		do(op{kind: update, target: names[at], r: rec{"other", x, 1}}, true)
		do(op{kind: update, target: names[at], r: rec{"other", x, 1}}, false)
		names = append(names, "other")
	case 2:
		do(op{kind: update, target: names[at], r: rec{names[n/3], 1, 1}}, at == n/3)
		do(op{kind: create, r: rec{names[at], 1, 1}}, false)
	case 3:
		do(op{kind: remove, target: names[at]}, true)
		do(op{kind: remove, target: names[n/3]}, at != n/3)
		do(op{kind: create, r: rec{names[at], x, 1}}, true)
	}
	return rs, append(names, "n", "n"+digits(n))
}

// C30_Many: more namespaces than any small limit.
func C30_Many() {
	v.MaxSteps(200_000_000)
	s := inDir("")
	rs, names := crowd(s, v.Bound("namespaces", 130, 300))
	same(s, rs, names, "registry")
	v.Reach("done")
}

// C32_Many: the registry file holds them all.
func C32_Many() {
	v.MaxSteps(200_000_000)
	s := inDir("")
	rs, _ := crowd(s, v.Bound("namespaces", 130, 300))
	saved(v.TempDir()+"/namespaces.json", len(rs))
	v.Reach("done")
}

// C37_Many: they all survive a restart.
func C37_Many() {
	v.MaxSteps(200_000_000)
	s := inDir("")
	rs, names := crowd(s, v.Bound("namespaces", 130, 300))
	t := service()
	v.Assert(t.LoadNamespaces() == nil, "the registry loads")
	same(t, rs, names, "after a restart")
	v.Reach("done")
}

// ---- C31 ----

// call is a concurrent request and its outcome.
type call struct {
	op
	read int // 1: get, 2: list, 3: save
	ok   bool
	n    int
}

func (c *call) run(s *domain.NamespaceService) {
	switch c.read {
	case 1:
		ns := s.GetNamespaceByName(parse(c.target))
		c.ok = ns != nil
		if ns != nil {
			ns.GetName()
			ns.GetMaxSimilarProfiles()
			ns.GetDislikeFactor()
		}
	case 2:
		list := s.GetNamespaces()
		c.n = len(list)
		for _, ns := range list {
			ns.GetName()
			ns.GetMaxSimilarProfiles()
		}
	case 3:
		c.ok = s.SaveNamespaces() == nil
	default:
		_, err := c.do(s)
		c.ok = err == nil
	}
}

func limit() uint {
	n := uint(v.U64("limit"))
	v.Assume(n > 0)
	return n
}

func calls() []call {
	a, b := limit(), limit()
	cr := func(n string) call { return call{op: op{kind: create, r: rec{n, a, 0.25}}} }
	up := func(t, n string) call { return call{op: op{kind: update, target: t, r: rec{n, b, 0.5}}} }
	rm := func(t string) call { return call{op: op{kind: remove, target: t}} }
	return []call{
		cr("b"), cr("c"), up("a", "b"), rm("a"), rm("b"), up("b", "c"), up("a", "a"),
		{op: op{target: "b"}, read: 1}, {op: op{target: "a"}, read: 1}, {read: 2}, {read: 3},
	}
}

// explains tells whether executing the calls in the given order yields their outcomes.
func explains(cs []*call, order []int, rs []rec) ([]rec, bool) {
	for _, i := range order {
		c := cs[i]
		switch c.read {
		case 1:
			if c.ok != (find(rs, c.target) >= 0) {
				return nil, false
			}
		case 2:
			if c.n != len(rs) {
				return nil, false
			}
		case 3:
			if !c.ok {
				return nil, false
			}
		default:
			if c.ok == c.mustFail(rs) {
				return nil, false
			}
			if c.ok {
				rs = c.apply(rs)
			}
		}
	}
	return rs, true
}

func orders(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, o := range orders(n - 1) {
		for k := 0; k <= len(o); k++ {
			x := append(append(append([]int{}, o[:k]...), n-1), o[k:]...)
			out = append(out, x)
		}
	}
	return out
}

// matches tells whether the registry holds exactly the records.
func matches(list []domain.Namespace, rs []rec) bool {
	if len(list) != len(rs) {
		return false
	}
	seen := map[string]bool{}
	equal := true
	for _, ns := range list {
		i := find(rs, ns.GetName().Value())
		if i < 0 || seen[rs[i].name] {
			return false
		}
		seen[rs[i].name] = true
		equal = v.And(equal, v.And(ns.GetMaxSimilarProfiles() == rs[i].max, ns.GetDislikeFactor() == rs[i].factor))
	}
	return equal
}

// C31_Pairs: concurrent requests.
func C31_Pairs() {
	v.Preemptions(v.Bound("preemptions", 2, 3))
	concurrent(2)
}

// C31_Triples: three concurrent requests.
func C31_Triples() {
	v.Preemptions(v.Bound("preemptions of three", 0, 1))
	concurrent(3)
}

func concurrent(n int) {
	s := inDir("")
	first := op{kind: create, r: rec{"a", limit(), 1}}
	_, err := first.do(s)
	v.Assert(err == nil, "created")
	start := first.apply(nil)
	v.RaceDetect()
	all := calls()
	var cs []*call
	k := 0
	for i := 0; i < n; i++ {
		k += v.Choose("request", len(all)-k)
		c := all[k]
		cs = append(cs, &c)
	}
	done := make(chan bool, n)
	for _, c := range cs {
		c := c
		go func() {
			c.run(s)
			done <- true
		}()
	}
	for range cs {
		<-done
	}
	list := s.GetNamespaces()
	for i, x := range list {
		for _, y := range list[i+1:] {
			v.Assert(x.GetName() != y.GetName(), "no two namespaces share a name")
		}
	}
	found := false
	for _, o := range orders(n) {
		if rs, ok := explains(cs, o, start); ok {
			found = v.Or(found, matches(list, rs))
		}
	}
	v.Assert(found, "the outcome is that of some order of the requests")
	// what was saved last is the registry
	t := service()
	v.Assert(t.LoadNamespaces() == nil, "the saved registry loads")
	var rs []rec
	for _, ns := range list {
		rs = append(rs, rec{ns.GetName().Value(), ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()})
	}
	v.Assert(matches(t.GetNamespaces(), rs), "the saved registry is the current one")
}

// ---- C32 ----

// waiting is a request to a namespace, that ends only when the namespace stops.
type waiting struct{ ended chan error }

func ask(ns domain.Namespace) *waiting {
	w := &waiting{make(chan error, 1)}
	x, ok := ns.(interface{ Like(user, item uint64) error })
	v.Assert(ok, "a like namespace")
	go func() { w.ended <- x.Like(1, 2) }()
	return w
}

func dirs() (env, dir string) {
	env = []string{"", "data", "data/", v.TempDir() + "/data", v.TempDir() + "/data/"}[v.Choose("REC_PATH", 5)]
	if env == "" {
		return env, v.TempDir() + "/"
	}
	return env, v.TempDir() + "/data/"
}

// saved asserts that the registry file has one record per namespace.
func saved(path string, n int) {
	data, err := os.ReadFile(path)
	v.Assert(err == nil, "the registry file is in the data directory")
	i, err := os.Stat(path)
	v.Assert(err == nil && i.Mode()&0600 == 0600, "the registry file can be used again")
	var rs []struct{}
	v.Assert(json.Unmarshal(data, &rs) == nil, "the registry file is a list of records")
	v.Assert(len(rs) == n, "one record per namespace")
}

// C32_Save: a save may fail at any point of a history.
func C32_Save() {
	v.Preemptions(0)
	os.Mkdir(v.TempDir()+"/data", 0755)
	env, dir := dirs()
	s := inDir(env)
	path := dir + "namespaces.json"
	names := []string{"a", "b"}
	var rs []rec
	steps := v.Bound("requests", 2, 3)
	for i := 0; i < steps; i++ {
		o := arbitrary(names)
		if o.mustFail(rs) {
			_, err := o.do(s)
			v.Assert(err != nil, "a request that cannot be satisfied fails")
			continue
		}
		var w *waiting
		if o.kind == remove {
			w = ask(s.GetNamespaceByName(parse(o.target)))
		}
		before, rerr := os.ReadFile(path)
		fault := 0
		if rerr == nil {
			fault = v.Choose("fault", 3)
		}
		switch fault {
		case 1: // no space
			world.LimitFiles(v.Choose("space", v.Bound("space", 3, 12)))
		case 2: // no directory
			v.Assert(os.Rename(dir, v.TempDir()+"/away") == nil || env == "", "away")
			if env == "" {
				fault = 0
			}
		}
		ns, err := o.do(s)
		world.LimitFiles(-1)
		if fault == 2 {
			v.Assert(os.Rename(v.TempDir()+"/away", dir) == nil, "back")
		}
		v.Obs("request", o.kind, err == nil)
		if fault == 0 {
			v.Assert(err == nil, "a request that can be satisfied succeeds")
		} else if fault == 2 {
			v.Assert(err != nil, "a failed save is reported")
		}
		if err != nil {
			v.Reach("failed")
			same(s, rs, names, "after a failed save")
			after, aerr := os.ReadFile(path)
			v.Assert(aerr == nil && v.EqBytes(after, before), "a failed save leaves the saved registry alone")
			if w != nil {
				v.Assert(v.Settle() == 1, "a namespace whose deletion failed keeps running")
			}
			ns, err = o.do(s)
			v.Assert(err == nil, "the request can be repeated")
		}
		rs = o.apply(rs)
		if o.kind != remove {
			holds(ns, o.r, "returned namespace")
		}
		same(s, rs, names, "after a save")
		saved(path, len(rs))
		if w != nil {
			v.Assert((<-w.ended) != nil, "a deleted namespace stops")
		}
		v.Assert(v.Settle() == 0, "nothing is left running")
	}
	v.Assert(world.OpenFiles() == 0, "no file is left open")
	v.Reach("done")
}

// C32_Populated: a save fails while several namespaces are registered.
func C32_Populated() {
	v.Preemptions(0)
	s := inDir("")
	path := v.TempDir() + "/namespaces.json"
	all := []string{"a", "b", "c", "d"}
	var rs []rec
	for _, n := range all[:3] {
		o := op{kind: create, r: rec{n, uint(v.U64("limit")), 0.5}}
		_, err := o.do(s)
		v.Assert(err == nil, "created")
		rs = o.apply(rs)
	}
	o := arbitrary(all)
	if o.mustFail(rs) {
		v.Stop()
	}
	before, rerr := os.ReadFile(path)
	v.Assert(rerr == nil, "the registry file is in the data directory")
	for i := v.Choose("failures", 2); i >= 0; i-- {
		world.LimitFiles(v.Choose("space", 2))
		_, err := o.do(s)
		world.LimitFiles(-1)
		v.Assert(err != nil, "a failed save is reported")
		same(s, rs, all, "after a failed save")
		after, aerr := os.ReadFile(path)
		v.Assert(aerr == nil && v.EqBytes(after, before), "a failed save leaves the saved registry alone")
	}
	_, err := o.do(s)
	v.Assert(err == nil, "the request can be repeated")
	rs = o.apply(rs)
	same(s, rs, all, "after a save")
	saved(path, len(rs))
	t := service()
	v.Assert(t.LoadNamespaces() == nil, "the registry loads")
	same(t, rs, all, "after a restart")
	v.Assert(v.Settle() == 0, "nothing is left running")
	v.Reach("done")
}

// C32_First: the first save fails.
func C32_First() {
	v.Preemptions(0)
	os.Mkdir(v.TempDir()+"/data", 0755)
	env, dir := dirs()
	path := dir + "namespaces.json"
	fault := v.Choose("fault", 2)
	if fault == 0 {
		v.Assert(os.MkdirAll(path+"/x", 0755) == nil, "blocked")
	} else {
		os.Remove(v.TempDir() + "/data")
		if env == "" {
			v.Stop()
		}
	}
	s := inDir(env)
	o := op{kind: create, r: rec{"a", uint(v.U64("limit")), 0.5}}
	_, err := o.do(s)
	v.Assert(err != nil, "a failed save is reported")
	same(s, nil, []string{"a", "b"}, "after a failed save")
	if fault == 0 {
		v.Assert(os.RemoveAll(path) == nil, "unblocked")
	} else {
		v.Assert(os.Mkdir(v.TempDir()+"/data", 0755) == nil, "the data directory is there")
	}
	_, err = o.do(s)
	v.Assert(err == nil, "the request can be repeated")
	same(s, o.apply(nil), []string{"a", "b"}, "after a save")
	saved(path, 1)
	for _, f := range world.Files() {
		v.Assert(f == path || len(f) > len(dir) && f[:len(dir)] == dir, "files are written in the data directory only")
	}
}

// ---- C37 ----

// C37_Restart: a new service on the same directory holds the same namespaces.
func C37_Restart() {
	os.Mkdir(v.TempDir()+"/data", 0755)
	env, _ := dirs()
	s := inDir(env)
	names := []string{"a", "b", "Long_name-0123456789"}
	var rs []rec
	steps := v.Bound("requests", 3, 3)
	any := false
	for i := 0; i < steps; i++ {
		o := arbitrary(names)
		if o.mustFail(rs) {
			v.Assume(v.Thorough()) // only requests that succeed change anything
		}
		if _, err := o.do(s); err == nil {
			rs = o.apply(rs)
			any = true
		}
	}
	if !any {
		return
	}
	t := service()
	err := t.LoadNamespaces()
	v.Obs("load", err == nil, len(t.GetNamespaces()))
	v.Assert(err == nil, "the registry loads")
	same(t, rs, names, "after a restart")
	// and goes on from there
	o := op{kind: create, r: rec{"z", uint(v.U64("limit")), 1}}
	_, err = o.do(t)
	v.Assert(err == nil, "requests are accepted after a restart")
	rs = o.apply(rs)
	u := service()
	v.Assert(u.LoadNamespaces() == nil, "the registry loads again")
	same(u, rs, append(names, "z"), "after another restart")
	v.Reach("done")
}

// C37_FailedSave: a save that fails half-way does not lose what was saved before.
func C37_FailedSave() {
	s := inDir("")
	names := []string{"a", "b"}
	first := op{kind: create, r: rec{"a", uint(v.U64("limit")), 0.5}}
	_, err := first.do(s)
	v.Assert(err == nil, "created")
	rs := first.apply(nil)
	o := arbitrary(names)
	world.LimitFiles(v.Choose("space", v.Bound("space", 30, 60)))
	_, err = o.do(s)
	world.LimitFiles(-1)
	if err == nil {
		rs = o.apply(rs)
		v.Reach("saved")
	} else {
		v.Reach("failed")
	}
	t := service()
	v.Assert(t.LoadNamespaces() == nil, "the registry loads")
	same(t, rs, names, "after a restart")
}

// C37_Crash: a process that dies while it saves leaves the registry as it was
// before or after the request.
func C37_Crash() {
	names := []string{"a", "b", "c"}
	var rs []rec
	n := v.Choose("registered", 3)
	for i := 0; i < n; i++ {
		rs = append(rs, rec{names[i], uint(v.U64("limit")), 0.5})
	}
	o := arbitrary(names)
	bad := o.mustFail(rs)
	var s *domain.NamespaceService
	world.Dying(func(dir string) {
		os.Setenv("REC_PATH", dir)
		s = service()
		for _, r := range rs {
			_, err := op{kind: create, r: r}.do(s)
			v.Assert(err == nil, "created")
		}
		if n == 0 {
			v.Assert(s.SaveNamespaces() == nil, "saved")
		}
	}, func(dir string) {
		o.do(s)
	}, func(dir string, died bool) {
		os.Setenv("REC_PATH", dir)
		t := service()
		v.Assert(t.LoadNamespaces() == nil, "the registry loads")
		now := rs
		if !bad && (!died || changed(t, rs)) {
			now = o.apply(rs)
			v.Reach("as after the request")
		} else if !bad {
			v.Reach("as before the request")
		}
		same(t, now, names, "after a crash")
		// what the dead process left behind is in nobody's way
		o2 := op{kind: create, r: rec{"d", 3, 1}}
		_, err := o2.do(t)
		v.Assert(err == nil, "the next request is saved")
		u := service()
		v.Assert(u.LoadNamespaces() == nil, "the registry loads")
		same(u, o2.apply(now), append(names, "d"), "after another restart")
	})
}

// changed tells whether the registry is not the given one.
func changed(s *domain.NamespaceService, rs []rec) bool {
	list := s.GetNamespaces()
	if len(list) != len(rs) {
		return true
	}
	for _, ns := range list {
		i := find(rs, ns.GetName().Value())
		if i < 0 || ns.GetMaxSimilarProfiles() != rs[i].limit() || ns.GetDislikeFactor() != rs[i].factor {
			return true
		}
	}
	return false
}

// C37_Malformed: a missing or malformed registry is an error.
func C37_Malformed() {
	s := inDir("")
	path := v.TempDir() + "/namespaces.json"
	texts := []string{
		"", " ", "[", "]", "{}", "1", `"a"`, "[1]", `["a"]`, `[[]]`, "[{}]", "[{]", "\x00", "[{}", "nul",
		`[{"name":"../x","type":"like","maxSimilarProfiles":1,"dislikeFactor":1}]`,
		`[{"name":"a b","type":"like"}]`, `[{"name":"","type":"like"}]`, `[{"name":1,"type":"like"}]`,
		`[{"name":"a","type":"other"}]`, `[{"name":"a","type":""}]`, `[{"name":"a","type":"like","maxSimilarProfiles":-1}]`,
		`[{"name":"a","type":"like"},{"name":"a","type":"like"}]`, `[{"name":"a","type":"like"}] x`,
		`[{"name":"a","type":"like"},{"name":"b/c","type":"like"}]`,
		`[{"name":"a","type":"like"},{"name":"b","type":"like"},{"name":"a","type":"like"}]`,
		`[{"name":"b","type":"like"},{"name":"a","type":"like"},{"name":"c","type":"like"},{"name":"a","type":"like"}]`,
		`[{"name":"a","type":"like"},{"name":"b","type":"like"},{"name":"c","type":"like"},{"name":"a","type":"like"}]`,
		`[{"name":"c","type":"like"},{"name":"b","type":"like"},{"name":"a","type":"like"},{"name":"b","type":"likes"}]`,
	}
	k := v.Choose("kind", len(texts)+3)
	switch {
	case k < len(texts):
		v.Assert(os.WriteFile(path, []byte(texts[k]), 0644) == nil, "written")
	case k == len(texts): // missing
	case k == len(texts)+1:
		v.Assert(os.Mkdir(path, 0755) == nil, "blocked")
	default: // cut short
		for _, n := range []string{"a", "b"} {
			o := op{kind: create, r: rec{n, 5, 0.5}}
			_, err := o.do(s)
			v.Assert(err == nil, "created")
		}
		data, err := os.ReadFile(path)
		v.Assert(err == nil && len(data) > 2, "saved")
		n := len(data)
		for n > 0 && (data[n-1] == '\n' || data[n-1] == ' ') {
			n--
		}
		v.Assert(os.WriteFile(path, data[:v.Choose("left", n)], 0644) == nil, "written")
		s = service()
	}
	err := s.LoadNamespaces()
	v.Obs("load", err == nil)
	v.Assert(err != nil, "a missing or malformed registry is an error")
	v.Assert(len(s.GetNamespaces()) == 0, "the registry stays empty")
	v.Assert(s.GetNamespaceByName(parse("a")) == nil, "nothing is found in it")
	if k == len(texts)+1 {
		v.Assert(os.Remove(path) == nil, "unblocked")
	}
	o := op{kind: create, r: rec{"a", uint(v.U64("limit")), 0.5}}
	_, err = o.do(s)
	v.Assert(err == nil, "requests are accepted")
	t := service()
	v.Assert(t.LoadNamespaces() == nil, "the registry loads")
	same(t, o.apply(nil), []string{"a", "b"}, "after a restart")
	v.Reach("done")
}

// C37_Start: starting the service with a loaded registry does not end the process.
func C37_Start() {
	v.Preemptions(0)
	s := inDir("")
	o := op{kind: create, r: rec{"a", 5, 0.5}}
	_, err := o.do(s)
	v.Assert(err == nil, "created")
	t := service()
	v.Assert(t.LoadNamespaces() == nil, "the registry loads")
	ctx, cancel := context.WithCancel(context.Background())
	t.Start(ctx)
	same(t, o.apply(nil), []string{"a"}, "after the start")
	cancel()
	v.Assert(v.Settle() == 0, "nothing is left running")
}
