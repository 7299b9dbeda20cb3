// Package ns: the like storage's action processing (C27) and the namespace
// worker (C28, C29).
package ns

import (
	"context"
	"errors"
	"io"
	"os"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

// ---- C27 ----

// ask is a request as it arrives at the like storage.
type ask struct {
	kind  int
	act   domain.Action
	prof  chan *domain.Profile
	sims  chan *[]domain.SimilarProfile
	items chan *[]domain.RecItem
}

func newAsk() *ask {
	return askFor(v.Int("type", -1, v.Bound("largest type", 9, 20)), v.U64("user"), v.U64("item"))
}

func askFor(kind int, user, item uint64) *ask {
	a := &ask{kind: kind}
	a.act = domain.Action{ActionType: a.kind, Error: make(chan error)}
	switch a.kind {
	case domain.ActionDeleteProfile:
		a.act.Payload = domain.DeleteProfilePayload{UserID: user}
	case domain.ActionGetProfile:
		a.prof = make(chan *domain.Profile)
		a.act.Payload = domain.GetProfilePayload{UserID: user, Profile: a.prof}
	case domain.ActionGetSimilarProfiles:
		a.sims = make(chan *[]domain.SimilarProfile)
		a.act.Payload = domain.GetSimilarProfilesPayload{UserID: user, Profiles: a.sims}
	case domain.ActionRecommendItems:
		a.items = make(chan *[]domain.RecItem)
		a.act.Payload = domain.RecommendItemsPayload{UserID: user, Items: a.items}
	case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
		a.act.Payload = domain.LikePayload{UserID: user, ItemID: item}
	}
	return a
}

// wait receives the answer: the error channel for the requests without a result.
func (a *ask) wait() (err error, data bool) {
	switch a.kind {
	case domain.ActionGetProfile:
		select {
		case err = <-a.act.Error:
		case <-a.prof:
			data = true
		}
	case domain.ActionGetSimilarProfiles:
		select {
		case err = <-a.act.Error:
		case x := <-a.sims:
			data = x != nil
		}
	case domain.ActionRecommendItems:
		select {
		case err = <-a.act.Error:
		case x := <-a.items:
			data = x != nil
		}
	default:
		err = <-a.act.Error
	}
	return
}

func (a *ask) check(err error, data bool) {
	switch a.kind {
	case domain.ActionStop: // never handed over
	case domain.ActionDeleteProfile, domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
		v.Reach("error channel")
		v.Assert(err == nil, "a known action is not answered with an error")
	case domain.ActionGetProfile, domain.ActionGetSimilarProfiles, domain.ActionRecommendItems:
		v.Reach("result channel")
		v.Assert(err == nil && data, "a known action is answered with a result")
	default:
		v.Reach("unknown")
		v.Assert(err != nil, "an unknown action is answered with an error")
	}
}

// C27_Batch: one requester takes the answers in the order of the actions.
func C27_Batch() {
	n := v.Choose("actions", v.Bound("actions", 3, 4)+1)
	st := recdb.NewLikeStorage()
	var asks []*ask
	var acts []domain.Action
	for i := 0; i < n; i++ {
		var a *ask
		if i > 0 && v.Choose("repeated", 2) == 1 {
			a = asks[i-1] // asks the same again
		} else {
			a = newAsk()
		}
		asks = append(asks, a)
		acts = append(acts, a.act)
	}
	answered := 0
	done := make(chan bool, 1)
	go func() {
		for _, a := range asks {
			a.check(a.wait())
			answered++
		}
		done <- true
	}()
	err := st.ProcessActions(acts)
	v.Assert(err == nil, "processing succeeds")
	<-done
	v.Assert(answered == n, "every action is answered")
	v.Assert(v.Settle() == 0, "nothing is left running")
	v.Assert(st.Close() == nil, "closes")
	v.Reach("done")
}

// C27_Waiters: every requester waits on its own.
func C27_Waiters() {
	n := v.Choose("actions", v.Bound("actions", 2, 3)) + 1
	st := recdb.NewLikeStorage()
	var acts []domain.Action
	answers := make(chan int, n)
	for i := 0; i < n; i++ {
		a := newAsk()
		acts = append(acts, a.act)
		go func() {
			a.check(a.wait())
			answers <- 1
		}()
	}
	v.Assert(st.ProcessActions(acts) == nil, "processing succeeds")
	for i := 0; i < n; i++ {
		<-answers
	}
	v.Assert(v.Settle() == 0, "nothing is left running")
}

// C27_Large: batches longer than any queue.
func C27_Large() {
	n := []int{50, 101, 130, 300}[v.Choose("actions", v.Bound("sizes", 3, 4))]
	v.Option("oneschedule", 1+v.Choose("schedule", v.Bound("schedules", 3, 3)))
	v.Preemptions(0)
	st := recdb.NewLikeStorage()
	var asks []*ask
	var acts []domain.Action
	for i := 0; i < n; i++ {
		a := askFor(i%9, uint64(i), uint64(i))
		if i == n-2 {
			a = newAsk()
		}
		if i%40 == 7 {
			a = asks[i-1]
		}
		asks = append(asks, a)
		acts = append(acts, a.act)
	}
	answered := 0
	done := make(chan bool, 1)
	if v.Choose("waiters", 2) == 1 {
		got := make(chan int)
		for _, a := range asks {
			a := a
			go func() {
				a.check(a.wait())
				got <- 1
			}()
		}
		go func() {
			for range asks {
				answered += <-got
			}
			done <- true
		}()
	} else {
		go func() {
			for _, a := range asks {
				a.check(a.wait())
				answered++
			}
			done <- true
		}()
	}
	v.Assert(st.ProcessActions(acts) == nil, "processing succeeds")
	<-done
	v.Assert(answered == n, "every action is answered")
	v.Assert(v.Settle() == 0, "nothing is left running")
	v.Reach("done")
}

// ---- C28 ----

// store stands for the delta and index storages and the like storage's file.
type store struct {
	closes, late int
	fails        bool // processing returns an error, after the answers
	like         domain.LikeStorage
	file         domain.RandomAccessFile
}

func (s *store) use() {
	if s.closes > 0 {
		s.late++
	}
}

func (s *store) Close() error {
	s.closes++
	if s.file != nil {
		return s.file.Close()
	}
	return nil
}
func (s *store) ProcessActions(a []domain.Action) error {
	s.use()
	err := s.like.ProcessActions(a)
	if s.fails {
		return errors.New("model: processing failed")
	}
	return err
}
func (s *store) Flush() error           { s.use(); return nil }
func (s *store) GetUserCount() int      { s.use(); return 0 }
func (s *store) GetTotalItemCount() int { s.use(); return 0 }
func (s *store) GetFileSize() uint64    { s.use(); return 0 }
func (s *store) Get(user, item uint64) (domain.DeltaOp, bool) {
	s.use()
	return 0, false
}
func (s *store) Add(op domain.DeltaOp, user, item uint64) { s.use() }

type idxStore struct{ store }

func (s *idxStore) Get(id uint64) (uint64, bool)  { s.use(); return 0, false }
func (s *idxStore) Put(id uint64, i uint64) error { s.use(); return nil }
func (s *idxStore) Remove(id uint64) error        { s.use(); return nil }

// factories hand out the stores.
type factories struct {
	delta, like *store
	index       *idxStore
}

type (
	fileRWS = io.ReadWriteSeeker
	fileC   = io.Closer
)

// both is a file given in two parts.
type both struct {
	io.ReadWriteSeeker
	io.Closer
}

func (b both) Truncate(int64) error { return errors.New("not needed") }

type deltaF struct{ *factories }

func (f deltaF) Recover(file domain.RandomAccessFile) error { return nil }
func (f deltaF) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	f.delta.file = file
	return f.delta, nil
}
func (f deltaF) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.Open(file)
}

type indexF struct{ *factories }

func (f indexF) OpenFile(path string) (domain.IndexStorage, error) {
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	f.index.file = file
	return f.index, nil
}
func (f indexF) Open(file fileRWS, closer fileC) (domain.IndexStorage, error) {
	f.index.file = both{file, closer}
	return f.index, nil
}

type likeF struct{ *factories }

func (f likeF) Recover(file domain.RandomAccessFile) error { return nil }
func (f likeF) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	v.Assert(d == domain.DeltaStorage(f.delta) && i == domain.IndexStorage(f.index), "the like storage gets its namespace's storages")
	f.like.file = file
	f.like.like = recdb.NewLikeStorage()
	return f.like, nil
}
func (f likeF) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, i)
}

// namespace is what a user of a like namespace sees.
type namespace interface {
	domain.Namespace
	DeleteProfile(user uint64) error
	GetProfile(user uint64) (*domain.Profile, error)
	Like(user uint64, item uint64) error
	Dislike(user uint64, item uint64) error
	DeleteItem(user uint64, item uint64) error
	GetSimilarProfiles(user uint64) (*[]domain.SimilarProfile, error)
	RecommendItems(user uint64) (*[]domain.RecItem, error)
}

func parse(s string) valueobjects.NamespaceName {
	name, err := valueobjects.ParseNamespaceName(s)
	v.Assert(err == nil, "the name is valid")
	return name
}

func (f *factories) make(name, base string) namespace {
	return domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name: parse(name), MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: base,
		DeltaStorageFactory: deltaF{f}, LikeStorageFactory: likeF{f}, IndexStorageFactory: indexF{f},
	})
}

// request issues one request and returns its error.
func request(ns namespace, kind int) error {
	switch kind {
	case 0:
		return ns.Like(v.U64("user"), v.U64("item"))
	case 1:
		_, err := ns.GetProfile(v.U64("user"))
		return err
	case 2:
		x, err := ns.GetSimilarProfiles(v.U64("user"))
		v.Assert(err != nil || x != nil, "similar profiles or an error")
		return err
	case 3:
		x, err := ns.RecommendItems(v.U64("user"))
		v.Assert(err != nil || x != nil, "recommendations or an error")
		return err
	case 4:
		return ns.Dislike(v.U64("user"), v.U64("item"))
	case 5:
		return ns.DeleteItem(v.U64("user"), v.U64("item"))
	}
	return ns.DeleteProfile(v.U64("user"))
}

// world28 is a started namespace.
type world28 struct {
	*factories
	ns     namespace
	cancel context.CancelFunc
}

func started() world28 {
	os.Chdir(v.TempDir())
	f := &factories{delta: &store{}, like: &store{}, index: &idxStore{}}
	ctx, cancel := context.WithCancel(context.Background())
	ns := f.make("some", v.TempDir()+"/")
	v.Assert(ns.Start(ctx) == nil, "starts")
	return world28{f, ns, cancel}
}

// end stops the namespace in one of the possible ways.
func (w world28) end(way int) {
	switch way {
	case 0:
		w.ns.Stop()
	case 1:
		w.cancel()
	case 2:
		w.ns.Stop()
		w.ns.Stop()
	case 3:
		w.cancel()
		w.ns.Stop()
	}
}

func (w world28) ended() {
	v.Assert(v.Settle() == 0, "the worker ends")
	v.Assert(w.like.closes == 1, "the like storage is closed once")
	v.Assert(w.delta.closes == 1, "the delta storage is closed once")
	v.Assert(w.index.closes == 1, "the index storage is closed once")
	v.Assert(w.like.late+w.delta.late+w.index.late == 0, "closed storages are not used")
	v.Assert(world.OpenFiles() == 0, "the files are closed")
}

// C28_Before: requests made while nothing ends the namespace are answered by the storage.
func C28_Before() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	w := started()
	n := v.Choose("requests", v.Bound("requests", 2, 3)) + 1
	errs := make(chan error, n)
	last := 0
	for i := 0; i < n; i++ {
		kind := (last + 3) % 7
		if i == 0 || v.Thorough() {
			kind = v.Choose("kind", 7)
		}
		last = kind
		go func() { errs <- request(w.ns, kind) }()
	}
	for i := 0; i < n; i++ {
		v.Assert((<-errs) == nil, "answered by the storage")
	}
	w.end(v.Choose("way", 4))
	w.ended()
	w.cancel()
	v.Assert(request(w.ns, last) != nil, "an ended namespace answers with an error")
	w.ended()
	v.Reach("done")
}

// C28_Fails: the storage answers its requests, and reports an error.
func C28_Fails() {
	v.Preemptions(v.Bound("preemptions", 0, 1))
	w := started()
	w.like.fails = true
	n := v.Bound("requests", 3, 4)
	last := v.Choose("kind", 7)
	for i := 0; i < n; i++ {
		v.Assert(request(w.ns, (last+i)%7) == nil, "answered by the storage")
		if i == 1 && v.Choose("recovered", 2) == 1 {
			w.like.fails = false
		}
	}
	w.end(v.Choose("way", 4))
	w.ended()
	w.cancel()
	v.Assert(request(w.ns, last) != nil, "an ended namespace answers with an error")
	v.Reach("done")
}

// C28_During: requests race with the end.
func C28_During() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	w := started()
	n := v.Bound("concurrent requests", 2, 2)
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		kind := i
		if i == 0 {
			kind = v.Choose("kind", 7)
		}
		go func() { errs <- request(w.ns, kind) }()
	}
	w.end(v.Choose("way", 4))
	for i := 0; i < n; i++ {
		if err := <-errs; err != nil {
			v.Reach("stopped first")
		} else {
			v.Reach("answered first")
		}
	}
	w.ended()
	w.cancel()
}

// C28_Settings: the name and the settings are changed meanwhile.
func C28_Settings() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	w := started()
	v.RaceDetect()
	kind, change := v.Choose("kind", v.Bound("kinds", 2, 7)), v.Choose("change", 4)
	limit, factor := uint(v.U64("limit")), v.F32("factor")
	done := make(chan bool, 2)
	go func() {
		request(w.ns, kind)
		done <- true
	}()
	go func() {
		switch change {
		case 0:
			v.Assert((<-w.ns.Rename(parse("other"))) == nil, "renamed")
		case 1:
			w.ns.SetMaxSimilarProfiles(limit)
		case 2:
			w.ns.SetDislikeFactor(factor)
		case 3:
			v.Assert(w.ns.GetName() == parse("some") && w.ns.GetMaxSimilarProfiles() == 10 && w.ns.GetDislikeFactor() == 0.5,
				"the settings are the ones given")
		}
		done <- true
	}()
	w.end(v.Choose("way", 2))
	<-done
	<-done
	w.ended()
	w.cancel()
	switch change {
	case 0:
		v.Assert(w.ns.GetName() == parse("other"), "the name is the one given")
	case 1:
		v.Assert(w.ns.GetMaxSimilarProfiles() == uint(v.IteU64(limit == 0, 1000, uint64(limit))), "the limit is the one given")
	case 2:
		x := w.ns.GetDislikeFactor()
		v.Assert(v.Or(x == factor, factor != factor), "the factor is the one given")
	}
	v.Assert(request(w.ns, kind) != nil, "an ended namespace answers with an error")
	v.Reach("done")
}

// C28_Many: more requests than the queue holds, in a few schedules.
func C28_Many() {
	v.Preemptions(0)
	v.MaxSteps(50_000_000)
	v.Option("oneschedule", 1+v.Choose("schedule", 3))
	w := started()
	n := []int{99, 105, 130, 230}[v.Choose("requests", v.Bound("sizes", 3, 4))]
	way := v.Choose("way", 4)
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		kind := i % 7
		go func() { errs <- request(w.ns, kind) }()
	}
	when := v.Choose("end", 4)
	first := []int{0, 0, 20, n}[when]
	if when == 1 {
		v.Yield()
	}
	for i := 0; i < first; i++ {
		v.Assert((<-errs) == nil, "answered by the storage")
	}
	w.end(way)
	for i := first; i < n; i++ {
		<-errs
	}
	v.Reach("answered")
	w.ended()
	w.cancel()
	for i := 0; i < n; i++ {
		v.Assert(request(w.ns, i%7) != nil, "an ended namespace answers with an error")
	}
	w.ended()
	v.Reach("done")
}

// ---- C29 ----

// like29 stands for the factory of profile storages, that may fail.
type like29 struct {
	broken bool
	held   []byte // what the file handed over holds
	after  func(domain.DeltaStorage, domain.IndexStorage)
}

type likeFile struct {
	domain.LikeStorage
	file domain.RandomAccessFile
}

func (l *likeFile) Close() error { return l.file.Close() }

func (l *like29) Recover(file domain.RandomAccessFile) error { return nil }
func (l *like29) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	data, err := io.ReadAll(file)
	v.Assert(err == nil, "the profile file is open")
	l.held = data
	if l.broken {
		return nil, errors.New("model: no profile storage")
	}
	if l.after != nil {
		l.after(d, i)
	}
	return &likeFile{recdb.NewLikeStorage(), file}, nil
}
func (l *like29) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return l.Open(file, d, i)
}

// place is a data directory, an existing one or not.
func place() (base string, ok bool) {
	os.Chdir(v.TempDir())
	sub := v.TempDir() + "/data"
	v.Assert(os.Mkdir(sub, 0755) == nil, "the data directory is there")
	switch v.Choose("base path", 4) {
	case 0:
		return sub + "/", true
	case 1:
		return "data/", true
	case 2:
		return "", true
	}
	return v.TempDir() + "/missing/", false
}

func real(dir string) string {
	if dir == "" {
		return v.TempDir() + "/"
	}
	if dir[0] != '/' {
		return v.TempDir() + "/" + dir
	}
	return dir
}

var names = []string{"a", "Some_name-9", "index"}

// brokenIndex is a file a crash may leave: cut short while it was created, or still in use.
func brokenIndex() []byte {
	h := world.Cat([]byte("RECIDX"), []byte{1, 1}, world.U32(0))
	if v.Choose("cut short", 2) == 1 {
		return h[:1+v.Choose("left", len(h)-1)]
	}
	tail := v.Bytes("index tail", v.Choose("entry bytes", 2)*v.Bound("entry bytes", 20, 40))
	return world.Cat(h[:8], v.Bytes("announced", 4), tail)
}

// C29_Start: every step of the start may fail.
func C29_Start() {
	v.Preemptions(0)
	base, baseOk := place()
	name := names[v.Choose("name", len(names))]
	dir := real(base)
	good := baseOk
	profiles := v.Bytes("profiles", 2)
	held := []byte(nil)
	prep := func(ext string, normal ...[]byte) {
		if !baseOk {
			return
		}
		path := dir + name + ext
		switch k := v.Choose("file"+ext, len(normal)+2); k {
		case 0: // missing
		case 1:
			v.Assert(os.Mkdir(path, 0755) == nil, "blocked")
			good = false
		default:
			v.Assert(os.WriteFile(path, normal[k-2], 0644) == nil, "exists")
			if ext == ".recdb" {
				held = profiles
			}
		}
	}
	deltaClean := world.Cat([]byte("RECDELTA"), []byte{1, 0}, world.U32(0))
	deltaLocked := world.Cat([]byte("RECDELTA"), []byte{1, 1}, v.Bytes("delta count", 4))
	prep(".delta", deltaClean, deltaLocked)
	indexClean := world.Cat([]byte("RECIDX"), []byte{1, 0}, world.U32(1), v.Bytes("entry", 16))
	prep(".index", indexClean, brokenIndex())
	prep(".recdb", profiles)
	lf := &like29{broken: v.Choose("profile storage", 2) == 1}
	before := world.Files()
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name: parse(name), BasePath: base, DeltaStorageFactory: delta.NewStorageFactory(),
		LikeStorageFactory: lf, IndexStorageFactory: index.NewStorageFactory(),
	})
	ctx, cancel := context.WithCancel(context.Background())
	err := ns.Start(ctx)
	v.Obs("start", err == nil)
	v.Assert((err == nil) == (good && !lf.broken), "starts exactly if every step succeeds")
	v.Assert(v.EqBytes(lf.held, held) || !good, "the profile storage gets what the file holds")
	wanted := []string{dir + name + ".delta", dir + name + ".index", dir + name + ".recdb"}
	for _, p := range world.Files() {
		v.Assert(world.Has(before, p) || world.Has(wanted, p), "only the namespace's own files are created")
	}
	if err != nil {
		v.Reach("failed")
		v.Assert(v.Settle() == 0, "nothing runs after a failed start")
		v.Assert(world.OpenFiles() == 0, "a failed start leaves no file open")
		cancel()
		return
	}
	v.Reach("started")
	for _, p := range wanted {
		v.Assert(world.Has(world.Files(), p), "the namespace's files are in the data directory")
		if !world.Has(before, p) {
			i, serr := os.Stat(p)
			v.Assert(serr == nil && i.Mode()&0600 == 0600, "the files can be opened again")
		}
	}
	v.Assert(world.OpenFiles() > 0, "the files are in use")
	v.Assert(ns.Like(v.U64("user"), v.U64("item")) == nil, "the namespace works")
	ns.Stop()
	v.Assert(v.Settle() == 0, "the worker ends")
	v.Assert(world.OpenFiles() == 0, "the files are closed")
	cancel()
	after, rerr := os.ReadFile(dir + name + ".recdb")
	v.Assert(rerr == nil && v.EqBytes(after, held), "the profiles are kept")
}

// delta29 and index29 wrap the real factories and fail as told.
type delta29 struct {
	domain.DeltaStorageFactory
	broken bool
}

func (f delta29) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.OpenMaybeRecover(file)
}
func (f delta29) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if f.broken {
		return nil, errors.New("model: no delta storage")
	}
	return f.DeltaStorageFactory.OpenMaybeRecover(file)
}

type index29 struct {
	domain.IndexStorageFactory
	calls    int
	outcomes []int
	left     []int64 // size of the file in each call
}

func (f *index29) Open(file fileRWS, closer fileC) (domain.IndexStorage, error) {
	how := 0
	if f.calls < len(f.outcomes) {
		how = f.outcomes[f.calls]
	}
	f.calls++
	size, err := file.Seek(0, io.SeekEnd)
	v.Assert(err == nil, "an open file is handed over")
	file.Seek(0, io.SeekStart)
	f.left = append(f.left, size)
	switch how {
	case 1:
		closer.Close()
		return nil, domain.NewCorruptedFileError()
	case 2:
		return nil, errors.New("model: no index storage")
	}
	return f.IndexStorageFactory.Open(file, closer)
}
func (f *index29) OpenFile(path string) (domain.IndexStorage, error) {
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	return f.Open(file, file)
}

// C29_Steps: every storage may fail to open, the index also after it was reset.
func C29_Steps() {
	v.Preemptions(0)
	os.Chdir(v.TempDir())
	dir := v.TempDir() + "/"
	id := v.U64("id")
	data := world.Cat([]byte("RECIDX"), []byte{1, 0}, world.U32(1), world.U64(id), world.U64(7))
	v.Assert(os.WriteFile(dir+"a.index", data, 0644) == nil, "exists")
	df := delta29{delta.NewStorageFactory(), v.Choose("delta", 2) == 1}
	xf := &index29{IndexStorageFactory: index.NewStorageFactory(), outcomes: []int{v.Choose("index", 3), v.Choose("index again", 3)}}
	kept := true
	lf := &like29{broken: v.Choose("profile storage", 2) == 1, after: func(_ domain.DeltaStorage, i domain.IndexStorage) {
		_, kept = i.Get(id)
	}}
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name: parse("a"), BasePath: dir, DeltaStorageFactory: df, LikeStorageFactory: lf, IndexStorageFactory: xf,
	})
	ctx, cancel := context.WithCancel(context.Background())
	err := ns.Start(ctx)
	first, second := xf.outcomes[0], xf.outcomes[1]
	reset := first == 1
	good := !df.broken && !lf.broken && (first == 0 || reset && second == 0)
	v.Assert((err == nil) == good, "starts exactly if every step succeeds")
	if err == nil {
		v.Reach("started")
		v.Assert(kept == !reset, "a broken index is emptied, an intact one is kept")
		ns.Stop()
	} else {
		v.Reach("failed")
	}
	if reset && xf.calls > 1 {
		v.Assert(xf.left[1] == 0, "a broken index is emptied")
		v.Reach("reset")
	}
	v.Assert(v.Settle() == 0, "nothing runs any more")
	v.Assert(world.OpenFiles() == 0, "every file opened is closed")
	if first == 2 {
		after, rerr := os.ReadFile(dir + "a.index")
		v.Assert(rerr == nil && v.EqBytes(after, data), "an index that cannot be opened for another reason is left alone")
		v.Reach("other failure")
	}
	cancel()
}

// C29_Garbage: files that are not what they should be.
func C29_Garbage() {
	v.Preemptions(0)
	os.Chdir(v.TempDir())
	dir := v.TempDir() + "/"
	which := v.Choose("file", 2)
	ext, n := ".delta", v.Choose("size", v.Bound("file size", 35, 52)+1)
	if which == 1 {
		ext = ".index"
	}
	data := v.Bytes("contents", n)
	v.Assert(os.WriteFile(dir+"a"+ext, data, 0644) == nil, "exists")
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name: parse("a"), BasePath: dir, DeltaStorageFactory: delta.NewStorageFactory(),
		LikeStorageFactory: &like29{}, IndexStorageFactory: index.NewStorageFactory(),
	})
	ctx, cancel := context.WithCancel(context.Background())
	err := ns.Start(ctx)
	v.Obs("start", err == nil)
	if which == 1 {
		if n >= 6 && !v.EqBytes(data[:6], []byte("RECIDX")) {
			v.Assert(err != nil, "a file of another kind is not taken for an index")
			after, rerr := os.ReadFile(dir + "a" + ext)
			v.Assert(rerr == nil && v.EqBytes(after, data), "a file of another kind is left alone")
		}
		if n >= 12 && v.And(v.EqBytes(data[:6], []byte("RECIDX")), data[7] != 0) {
			v.Reach("broken index")
			v.Assert(err == nil, "a broken index does not prevent the start")
		}
	}
	if err != nil {
		v.Reach("failed")
		v.Assert(v.Settle() == 0, "nothing runs after a failed start")
		v.Assert(world.OpenFiles() == 0, "a failed start leaves no file open")
	} else {
		v.Reach("started")
		ns.Stop()
		v.Assert(v.Settle() == 0, "the worker ends")
		v.Assert(world.OpenFiles() == 0, "the files are closed")
	}
	cancel()
}

// C29_Reset: a broken index becomes an empty one, and an intact one is kept.
func C29_Reset() {
	v.Preemptions(0)
	os.Chdir(v.TempDir())
	dir := v.TempDir() + "/"
	id, idx := v.U64("id"), v.U64("index")
	intact := v.Choose("broken", 2) == 0
	if intact {
		data := world.Cat([]byte("RECIDX"), []byte{1, 0}, world.U32(1), world.U64(id), world.U64(idx))
		v.Assert(os.WriteFile(dir+"a.index", data, 0644) == nil, "exists")
	} else {
		v.Assert(os.WriteFile(dir+"a.index", brokenIndex(), 0644) == nil, "exists")
	}
	put := v.U64("new id")
	for session := 0; session < 2; session++ {
		lf := &like29{after: func(d domain.DeltaStorage, i domain.IndexStorage) {
			q := v.U64("query")
			x, ok := i.Get(q)
			v.Obs("get", x, ok)
			switch {
			case session == 1:
				v.Assert(ok == v.Or(q == put, v.And(intact, q == id)), "what was put is there next time")
			case intact:
				v.Assert(v.And(ok == (q == id), v.Implies(ok, x == idx)), "an intact index is kept")
			default:
				v.Assert(!ok, "a reset index is empty")
			}
			v.Assert(i.Put(put, 7) == nil, "put")
		}}
		ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
			Name: parse("a"), BasePath: dir, DeltaStorageFactory: delta.NewStorageFactory(),
			LikeStorageFactory: lf, IndexStorageFactory: index.NewStorageFactory(),
		})
		ctx, cancel := context.WithCancel(context.Background())
		v.Assert(ns.Start(ctx) == nil, "a broken index does not prevent the start")
		ns.Stop()
		v.Assert(v.Settle() == 0, "the worker ends")
		v.Assert(world.OpenFiles() == 0, "the files are closed")
		cancel()
	}
	v.Reach("done")
}

// C29_Crash: a process that dies while a namespace starts, works or stops does
// not prevent the next start, and what was stored is there or was not yet stored.
func C29_Crash() {
	v.Preemptions(0)
	const kept, added = 5, 6
	fresh := v.Choose("new namespace", 2) == 1
	flush := v.Choose("flushed", 2) == 1
	user, item, item2 := v.U64("user"), v.U64("item"), v.U64("item")
	v.Assume(item != item2)
	id, id2 := v.U64("id"), v.U64("id")
	v.Assume(id != id2)
	session := func(dir string, use func(domain.DeltaStorage, domain.IndexStorage)) error {
		used := false
		ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
			Name: parse("a"), BasePath: dir, DeltaStorageFactory: delta.NewStorageFactory(),
			LikeStorageFactory: &like29{after: func(d domain.DeltaStorage, i domain.IndexStorage) {
				used = true
				use(d, i)
			}}, IndexStorageFactory: index.NewStorageFactory(),
		})
		ctx, cancel := context.WithCancel(context.Background())
		err := ns.Start(ctx)
		if err == nil {
			v.Assert(used, "the storages are used")
			ns.Stop()
		}
		v.Assert(v.Settle() == 0, "nothing runs any more")
		cancel()
		return err
	}
	var flushed bool
	world.Dying(func(dir string) {
		flushed = false
		if fresh {
			return
		}
		err := session(dir, func(d domain.DeltaStorage, i domain.IndexStorage) {
			d.Add(domain.DeltaOpAdd, user, item)
			v.Assert(i.Put(id, kept) == nil, "put")
		})
		v.Assert(err == nil, "the first session starts")
	}, func(dir string) {
		session(dir, func(d domain.DeltaStorage, i domain.IndexStorage) {
			d.Add(domain.DeltaOpAdd, user, item2)
			if flush {
				flushed = d.Flush() == nil
			}
			i.Put(id2, added)
		})
	}, func(dir string, died bool) {
		err := session(dir, func(d domain.DeltaStorage, i domain.IndexStorage) {
			op, ok := d.Get(user, item)
			v.Assert(ok == !fresh && v.Implies(ok, op == domain.DeltaOpAdd), "what was stored is still there")
			op, ok = d.Get(user, item2)
			v.Assert(v.Implies(ok, op == domain.DeltaOpAdd), "an operation is as it was added")
			if flushed && v.Native() && died {
				flushed = false // the files may be from before the flush
			}
			v.Assert(ok || died && !flushed, "a flushed operation is there")
			x, ok := i.Get(id)
			y, ok2 := i.Get(id2)
			v.Assert(v.And(v.Implies(ok, x == kept), v.Implies(ok2, y == added)), "an index is as it was put")
			v.Assert(!ok || !fresh, "no index is invented")
			v.Assert(v.Or(died, v.And(ok == !fresh, ok2)), "the index is complete after a proper stop")
			v.Assert(fresh || !ok2 || ok, "the index is the old one, the new one or empty")
			if died && !ok && !ok2 && !fresh {
				v.Reach("reset")
			}
			v.Assert(i.Put(9, 9) == nil && d.GetUserCount() <= 1, "the storages work")
		})
		v.Assert(err == nil, "the namespace starts after a crash")
		v.Assert(world.OpenFiles() == 0, "the files are closed")
		if died {
			v.Reach("died")
		} else {
			v.Reach("stopped")
		}
	})
}

// C29_Service: namespaces made by the service use the configured data directory.
func C29_Service() {
	v.Preemptions(0)
	os.Chdir(v.TempDir())
	sub := v.TempDir() + "/data"
	v.Assert(os.Mkdir(sub, 0755) == nil, "the data directory is there")
	env := []string{"", sub, sub + "/", "data", "data/"}[v.Choose("REC_PATH", 5)]
	os.Setenv("REC_PATH", env)
	dir := sub + "/"
	if env == "" {
		dir = v.TempDir() + "/"
	}
	s := domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
	name := names[v.Choose("name", len(names))]
	ns, err := s.CreateNamespace(&domain.NamespaceCreateRequest{
		Name: parse(name), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 1, DislikeFactor: 1,
	})
	v.Assert(err == nil, "created")
	ctx, cancel := context.WithCancel(context.Background())
	err = ns.Start(ctx) // there is no profile storage in this version
	v.Obs("start", err == nil)
	for _, p := range world.Files() {
		v.Assert(p == dir+"namespaces.json" || p == dir+name+".delta" || p == dir+name+".index" || p == dir+name+".recdb",
			"only files in the data directory are created")
	}
	v.Assert(world.Has(world.Files(), dir+name+".delta"), "the namespace's files are in the data directory")
	if err == nil {
		ns.Stop()
	}
	v.Assert(v.Settle() == 0, "nothing runs any more")
	v.Assert(world.OpenFiles() == 0, "no file is left open")
	cancel()
}
