package ns

import (
	"context"
	"errors"
	"os"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

// ---- C41 ----

// got is a request as the like storage received it.
type got struct {
	kind       int
	user, item uint64
}

// scripted is a like storage that notes what it is asked and answers as told.
type scripted struct {
	domain.LikeStorage
	store  *store
	busy   bool
	seen   []got
	fails  bool // processing reports an error, after the answers
	answer func(g got) (value uint64, ok bool)
}

const refused = "model: refused"

func (s *scripted) Close() error { return s.store.Close() }

func (s *scripted) ProcessActions(actions []domain.Action) error {
	v.Assert(!s.busy, "one goroutine at a time uses the storage")
	s.busy = true
	v.Assert(len(actions) > 0, "there is something to do")
	for _, a := range actions {
		g := got{kind: a.ActionType}
		switch p := a.Payload.(type) {
		case domain.DeleteProfilePayload:
			v.Assert(g.kind == domain.ActionDeleteProfile, "the payload of the type")
			g.user = p.UserID
		case domain.GetProfilePayload:
			v.Assert(g.kind == domain.ActionGetProfile, "the payload of the type")
			g.user = p.UserID
		case domain.LikePayload:
			v.Assert(g.kind == domain.ActionLike || g.kind == domain.ActionDislike || g.kind == domain.ActionDeleteItem,
				"the payload of the type")
			g.user, g.item = p.UserID, p.ItemID
		case domain.GetSimilarProfilesPayload:
			v.Assert(g.kind == domain.ActionGetSimilarProfiles, "the payload of the type")
			g.user = p.UserID
		case domain.RecommendItemsPayload:
			v.Assert(g.kind == domain.ActionRecommendItems, "the payload of the type")
			g.user = p.UserID
		default:
			v.Fail("a payload of a known type")
		}
		s.seen = append(s.seen, g)
		x, ok := s.answer(g)
		if !ok {
			a.Error <- errors.New(refused)
			continue
		}
		switch p := a.Payload.(type) {
		case domain.GetProfilePayload:
			p.Profile <- profileOf(x)
		case domain.GetSimilarProfilesPayload:
			p.Profiles <- &[]domain.SimilarProfile{{Profile: profileOf(x), Similarity: 2}, {Profile: profileOf(x + 1), Similarity: 1}}
		case domain.RecommendItemsPayload:
			p.Items <- &[]domain.RecItem{{ItemID: x, Relevance: 2}, {ItemID: x + 1, Relevance: 1}}
		default:
			a.Error <- nil
		}
	}
	s.busy = false
	if s.fails {
		return errors.New("model: processing failed")
	}
	return nil
}

// profileOf is the answer x; 0 stands for no profile.
func profileOf(x uint64) *domain.Profile {
	if x == 0 {
		return nil
	}
	return &domain.Profile{UserID: x, Likes: []uint64{x + 1}, Dislikes: []uint64{x + 2, x + 3}}
}

func isProfile(p *domain.Profile, x uint64) bool {
	if x == 0 {
		return p == nil
	}
	return p != nil && len(p.Likes) == 1 && len(p.Dislikes) == 2 &&
		v.And(p.UserID == x, p.Likes[0] == x+1, p.Dislikes[0] == x+2, p.Dislikes[1] == x+3)
}

// send issues the request and checks its answer.
func send(ns namespace, g got, x uint64, ok bool) {
	var err error
	switch g.kind {
	case domain.ActionDeleteProfile:
		err = ns.DeleteProfile(g.user)
	case domain.ActionGetProfile:
		var p *domain.Profile
		p, err = ns.GetProfile(g.user)
		v.Assert(!ok || isProfile(p, x), "the storage's profile")
	case domain.ActionLike:
		err = ns.Like(g.user, g.item)
	case domain.ActionDislike:
		err = ns.Dislike(g.user, g.item)
	case domain.ActionDeleteItem:
		err = ns.DeleteItem(g.user, g.item)
	case domain.ActionGetSimilarProfiles:
		var ps *[]domain.SimilarProfile
		ps, err = ns.GetSimilarProfiles(g.user)
		if ok {
			v.Assert(ps != nil && len(*ps) == 2, "the storage's similar profiles")
			a, b := (*ps)[0], (*ps)[1]
			v.Assert(isProfile(a.Profile, x) && isProfile(b.Profile, x+1), "the storage's similar profiles")
			v.Assert(a.Similarity == 2 && b.Similarity == 1, "the storage's similarities")
		}
	case domain.ActionRecommendItems:
		var is *[]domain.RecItem
		is, err = ns.RecommendItems(g.user)
		if ok {
			v.Assert(is != nil && len(*is) == 2, "the storage's items")
			a, b := (*is)[0], (*is)[1]
			v.Assert(v.And(a.ItemID == x, b.ItemID == x+1), "the storage's items")
			v.Assert(a.Relevance == 2 && b.Relevance == 1, "their relevance")
		}
	}
	if ok {
		v.Assert(err == nil, "no error unless the storage reports one")
	} else {
		v.Assert(err != nil && strings.Contains(err.Error(), refused), "the storage's error")
	}
}

type likeS struct {
	*factories
	s *scripted
}

func (f likeS) Recover(file domain.RandomAccessFile) error { return nil }
func (f likeS) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	f.like.file = file
	return f.s, nil
}
func (f likeS) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, i)
}

func scriptedNamespace(answer func(g got) (uint64, bool)) (world28, *scripted) {
	os.Chdir(v.TempDir())
	f := &factories{delta: &store{}, like: &store{}, index: &idxStore{}}
	s := &scripted{LikeStorage: recdb.NewLikeStorage(), store: f.like, answer: answer}
	ctx, cancel := context.WithCancel(context.Background())
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name: parse("some"), MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: v.TempDir() + "/",
		DeltaStorageFactory: deltaF{f}, LikeStorageFactory: likeS{f, s}, IndexStorageFactory: indexF{f},
	})
	v.Assert(ns.Start(ctx) == nil, "starts")
	return world28{f, ns, cancel}, s
}

func anyRequest() got {
	g := got{kind: domain.ActionDeleteProfile + v.Choose("type", 7), user: v.U64("user")}
	switch g.kind {
	case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
		g.item = v.U64("item")
	}
	return g
}

func (g got) is(h got) bool {
	return v.And(g.kind == h.kind, g.user == h.user, g.item == h.item)
}

// C41_Sequence: one client, any requests and answers.
func C41_Sequence() {
	v.Preemptions(0)
	var x uint64
	var ok bool
	w, s := scriptedNamespace(func(got) (uint64, bool) { return x, ok })
	n := v.Bound("requests", 2, 3)
	for i := 0; i < n; i++ {
		g := anyRequest()
		ok = v.Choose("answer", 2) == 0
		s.fails = !ok && v.Choose("reported", 2) == 1
		x = 0
		if ok && g.kind >= domain.ActionGetProfile && v.Choose("nothing", 2) == 0 {
			x = v.U64("answer")
			v.Assume(x > 0 && x < 1<<63)
		}
		send(w.ns, g, x, ok)
		v.Assert(len(s.seen) == i+1, "every request reaches the storage once")
		v.Assert(s.seen[i].is(g), "as it was made")
		v.Reach("answered")
	}
	w.end(v.Choose("way", 2))
	w.ended()
	w.cancel()
	v.Assert(len(s.seen) == n, "nothing else reaches the storage")
}

// C41_Clients: concurrent clients with a few requests each.
func C41_Clients() {
	const clients = 2
	each := v.Choose("each", 2) + 1
	if each == 1 {
		v.Preemptions(v.Bound("preemptions of one request each", 1, 2))
	} else {
		v.Preemptions(v.Bound("preemptions of several requests each", 0, 1))
	}
	// the answer depends on the user; client k has the users 10*k...
	w, s := scriptedNamespace(func(g got) (uint64, bool) { return g.user + 100, g.user%2 == 0 })
	v.RaceDetect()
	first := v.Choose("type", 7)
	other := v.Choose("type", v.Bound("other types", 2, 7))
	done := make(chan bool, clients)
	asked := make([][]got, clients)
	for k := 0; k < clients; k++ {
		for i := 0; i < each; i++ {
			g := got{kind: domain.ActionDeleteProfile + (first+k*other*2+i*3)%7, user: uint64(10*k + i)}
			switch g.kind {
			case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
				g.item = uint64(1000 + 10*k + i)
			}
			asked[k] = append(asked[k], g)
		}
	}
	for k := 0; k < clients; k++ {
		k := k
		go func() {
			for _, g := range asked[k] {
				send(w.ns, g, g.user+100, g.user%2 == 0)
			}
			done <- true
		}()
	}
	for k := 0; k < clients; k++ {
		<-done
	}
	s.all(asked)
	w.end(0)
	w.ended()
	w.cancel()
}

// all asserts that the storage got every client's requests once, in the client's order.
func (s *scripted) all(asked [][]got) {
	next := make([]int, len(asked))
	for _, g := range s.seen {
		k := int(g.user / 10)
		v.Assert(k < len(asked) && next[k] < len(asked[k]), "nothing else reaches the storage")
		v.Assert(asked[k][next[k]] == g, "as it was made, in the order of the client")
		next[k]++
	}
	for k := range asked {
		v.Assert(next[k] == len(asked[k]), "every request reaches the storage once")
	}
	v.Reach("done")
}

// C41_Same: concurrent requests for the same user and item.
func C41_Same() {
	v.Preemptions(v.Bound("preemptions of one request each", 1, 2))
	n := v.Choose("clients", 2) + 2
	if n == 3 {
		v.Preemptions(v.Bound("preemptions of three clients", 0, 1))
	}
	w, s := scriptedNamespace(func(g got) (uint64, bool) { return 100 + uint64(g.kind), g.kind != domain.ActionDeleteItem })
	user, item := v.U64("user"), v.U64("item")
	var asked []got
	kind := 0
	for i := 0; i < n; i++ {
		kind += v.Choose("type", 7-kind)
		g := got{kind: domain.ActionDeleteProfile + kind, user: user}
		switch g.kind {
		case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
			g.item = item
		}
		asked = append(asked, g)
	}
	done := make(chan bool, n)
	for _, g := range asked {
		g := g
		go func() {
			send(w.ns, g, 100+uint64(g.kind), g.kind != domain.ActionDeleteItem)
			done <- true
		}()
	}
	for range asked {
		<-done
	}
	v.Assert(len(s.seen) == n, "every request reaches the storage once")
	for _, g := range asked {
		wanted, there := 0, 0
		for i := range asked {
			if asked[i].kind == g.kind {
				wanted++
			}
			if s.seen[i].kind == g.kind {
				there++
				v.Assert(s.seen[i].is(g), "as it was made")
			}
		}
		v.Assert(wanted == there, "every request reaches the storage once")
	}
	w.end(0)
	w.ended()
	w.cancel()
	v.Reach("done")
}

// C41_Many: more requests at a time than the queue holds, in a few schedules.
func C41_Many() {
	v.Preemptions(0)
	v.MaxSteps(50_000_000)
	v.Option("oneschedule", 1+v.Choose("schedule", v.Bound("schedules", 2, 3)))
	w, s := scriptedNamespace(func(g got) (uint64, bool) { return g.user + 10000, g.user%3 != 0 })
	n := []int{40, 99, 101, 130, 230, 420}[v.Choose("requests", v.Bound("sizes", 4, 6))]
	done := make(chan bool, n)
	var asked [][]got
	for k := 0; k < n; k++ {
		var gs []got
		for i := 0; i < 2; i++ {
			g := got{kind: domain.ActionDeleteProfile + (k+i*4)%7, user: uint64(10*k + i)}
			switch g.kind {
			case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
				g.item = uint64(k)
			}
			gs = append(gs, g)
		}
		asked = append(asked, gs)
		go func() {
			for _, g := range gs {
				send(w.ns, g, g.user+10000, g.user%3 != 0)
			}
			done <- true
		}()
	}
	for k := 0; k < n; k++ {
		<-done
	}
	s.all(asked)
	w.end(v.Choose("way", 2))
	w.ended()
	w.cancel()
}

var _ = world.OpenFiles
