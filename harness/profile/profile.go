// Package profile: profiles of liked and disliked items (C22) and their similarity (C23).
package profile

import (
	"recengine/internal/domain"
	"recengine/internal/zzverif/v"
)

func item64() uint64 { return v.U64("item") }

// item8 keeps the solver's arithmetic on distances small.
func item8() uint64 { return uint64(v.U8("item")) }

func set(mk func() uint64, n int) []uint64 {
	a := make([]uint64, n)
	for i := range a {
		a[i] = mk()
		if i > 0 {
			v.Assume(a[i-1] < a[i])
		}
	}
	return a
}

// profile returns an arbitrary valid profile with nl likes and nd dislikes.
func profile(mk func() uint64, nl, nd int) *domain.Profile {
	p := domain.NewProfile(v.U64("user"))
	p.Likes = set(mk, nl)
	p.Dislikes = set(mk, nd)
	for _, a := range p.Likes {
		for _, b := range p.Dislikes {
			v.Assume(a != b)
		}
	}
	return p
}

func has(a []uint64, x uint64) bool {
	r := false
	for _, e := range a {
		r = v.Or(r, e == x)
	}
	return r
}

func status(p *domain.Profile, x uint64) int {
	return v.IteInt(has(p.Likes, x), domain.ItemLiked, v.IteInt(has(p.Dislikes, x), domain.ItemDisliked, domain.ItemUnknown))
}

func valid(p *domain.Profile) {
	ok := true
	for i := 1; i < len(p.Likes); i++ {
		ok = v.And(ok, p.Likes[i-1] < p.Likes[i])
	}
	for i := 1; i < len(p.Dislikes); i++ {
		ok = v.And(ok, p.Dislikes[i-1] < p.Dislikes[i])
	}
	v.Assert(ok, "likes and dislikes are strictly ascending")
	ok = true
	for _, a := range p.Likes {
		for _, b := range p.Dislikes {
			ok = v.And(ok, a != b)
		}
	}
	v.Assert(ok, "no item is both liked and disliked")
}

// apply performs operation op on x and returns the status the item q has afterwards, given its old one.
func apply(p *domain.Profile, op int, x, q uint64, old int) int {
	switch op {
	case 0:
		p.Like(x)
		return v.IteInt(q == x, domain.ItemLiked, old)
	case 1:
		p.Dislike(x)
		return v.IteInt(q == x, domain.ItemDisliked, old)
	case 2:
		p.Unlike(x)
		return v.IteInt(v.And(q == x, old == domain.ItemLiked), domain.ItemUnknown, old)
	case 3:
		p.Undislike(x)
		return v.IteInt(v.And(q == x, old == domain.ItemDisliked), domain.ItemUnknown, old)
	}
	p.RemoveItem(x)
	return v.IteInt(q == x, domain.ItemUnknown, old)
}

// step: one operation from an arbitrary valid profile. As the result is valid again, this
// covers histories of any length as long as the lists stay within the bound.
func step(mk func() uint64, max int) {
	nl := v.Choose("likes", max+1)
	nd := v.Choose("dislikes", max+1)
	p := profile(mk, nl, nd)
	op := v.Choose("op", 5)
	x, q := mk(), mk()
	user := p.UserID
	before := status(p, q)
	want := apply(p, op, x, q, before)
	valid(p)
	v.Assert(p.UserID == user, "user id unchanged")
	v.Assert(status(p, q) == want, "the lists reflect the last action")
	got := p.QualifyItem(q)
	v.Obs("got", got, p.Likes, p.Dislikes)
	v.Assert(got == want, "query answers according to the last action")
	v.Reach("done")
}

func C22_Step8()  { step(item8, v.Bound("items per list", 3, 5)) }
func C22_Step64() { step(item64, v.Bound("items per list", 2, 3)) }

// Histories from a new profile.
func C22_History() {
	p := domain.NewProfile(v.U64("user"))
	q := item8()
	want := domain.ItemUnknown
	n := v.Bound("steps", 3, 4)
	for i := 0; i < n; i++ {
		want = apply(p, v.Choose("op", 5), item8(), q, want)
	}
	valid(p)
	got := p.QualifyItem(q)
	v.Obs("got", got)
	v.Assert(got == want, "query answers according to the last action")
	v.Reach("done")
}

// Long lists from a new profile, then an arbitrary operation.
func C22_Grow() {
	max := v.Bound("items", 16, 40)
	p := domain.NewProfile(v.U64("user"))
	order := v.Choose("order", 4)
	for i := 0; i < max; i++ {
		x := uint64(i) * 5
		switch like := (i%2 == 0) == (order%2 == 0); {
		case order >= 2 && like == (i < max/2):
			p.Like(10*uint64(max) - x)
		case like:
			p.Like(x)
		default:
			p.Dislike(x)
		}
	}
	valid(p)
	v.Assert(len(p.Likes)+len(p.Dislikes) == max, "all the items are there")
	op := v.Choose("op", 5)
	x, q := item8(), item8()
	want := apply(p, op, x, q, status(p, q))
	valid(p)
	v.Assert(status(p, q) == want, "the lists reflect the last action")
	v.Reach("done")
}

// Long concrete lists, then two arbitrary operations near an arbitrary place.
func C22_Long() {
	n := []int{127, 128, 129, 256, 257, 1025, 4100}[v.Choose("items", v.Bound("lengths", 6, 7))]
	p := domain.NewProfile(v.U64("user"))
	for i := 0; i < n; i++ {
		p.Likes = append(p.Likes, uint64(i)*16+8)
		p.Dislikes = append(p.Dislikes, uint64(i)*16+13)
	}
	at := []int{0, n / 2, n - 1}[v.Choose("place", 3)]
	near := func() uint64 {
		x := v.U64("item")
		v.Assume(v.And(x >= uint64(at)*16, x <= uint64(at)*16+24))
		return x
	}
	x, q := near(), near()
	near2 := func(a []uint64) []uint64 { // the elements that can be equal to x or q
		lo, hi := at-2, at+4
		if lo < 0 {
			lo = 0
		}
		if hi > len(a) {
			hi = len(a)
		}
		return a[lo:hi]
	}
	status := func(p *domain.Profile, x uint64) int {
		return status(&domain.Profile{Likes: near2(p.Likes), Dislikes: near2(p.Dislikes)}, x)
	}
	q2 := []uint64{13, uint64(n)*16 - 8, uint64(n)*8 + 8}[v.Choose("far", v.Bound("far items", 1, 3))]
	old, old2 := status(p, q), p.QualifyItem(q2)
	op := v.Choose("op", 5)
	want := apply(p, op, x, q, old)
	v.Assume(q2 != x)
	v.Assert(v.And(ascending(p.Likes), ascending(p.Dislikes)), "likes and dislikes are strictly ascending")
	v.Assert(status(p, q) == want, "the lists reflect the last action")
	v.Assert(p.QualifyItem(q2) == old2, "other items are unaffected")
	d := len(p.Likes) + len(p.Dislikes) - 2*n
	v.Assert(d >= -1 && d <= 1, "one item more or less")
	v.Assert(p.QualifyItem(q) == want, "query answers according to the last action")
	v.Reach("done")
}

func ascending(a []uint64) bool {
	ok := true
	for i := 1; i < len(a); i++ {
		ok = v.And(ok, a[i-1] < a[i])
	}
	return ok
}

func inter(a, b []uint64) int {
	n := 0
	for _, x := range a {
		if has(b, x) {
			n++
		}
	}
	return n
}

func clone(a []uint64) []uint64 { return append([]uint64(nil), a...) }

func factor() float32 {
	v.Option("forkftoint", 1) // the truncated weights have few values: fork over them
	f := v.F32("factor")
	v.Assume(v.And(f >= 0, f <= 1))
	return f
}

func C23_Similarity() {
	max := v.Bound("items per list", 2, 3)
	p := profile(item64, v.Choose("l1", max+1), v.Choose("d1", max+1))
	q := profile(item64, v.Choose("l2", max+1), v.Choose("d2", max+1))
	pl, pd, ql, qd := clone(p.Likes), clone(p.Dislikes), clone(q.Likes), clone(q.Dislikes)
	f := factor()
	s := p.ComputeSimilarity(*q, f)
	v.Assert(s == s, "similarity is not NaN")
	v.Assert(v.And(s >= 0, s <= 100), "similarity is between 0 and 100")
	v.Assert(v.And(v.EqU64s(p.Likes, pl), v.EqU64s(p.Dislikes, pd), v.EqU64s(q.Likes, ql), v.EqU64s(q.Dislikes, qd)), "profiles are not changed")
	r := q.ComputeSimilarity(*p, f)
	v.Assert(s == r, "similarity is symmetric")
	cl, cd := inter(pl, ql), inter(pd, qd)
	if cl == 0 && cd == 0 {
		v.Assert(s == 0, "nothing in common: 0")
		v.Reach("disjoint")
	} else {
		v.Reach("common")
	}
	if v.And(v.EqU64s(pl, ql), v.EqU64s(pd, qd)) && len(pl) > 0 {
		v.Assert(s == 100, "identical profiles: 100")
		v.Reach("identical")
	}
	v.Obs("sim", s)
}

// Between the extremes the factor moves the result between the two Jaccard similarities.
func C23_Between() {
	max := v.Bound("items per list", 2, 2)
	p := profile(item64, v.Choose("l1", max+1), v.Choose("d1", max+1))
	q := profile(item64, v.Choose("l2", max+1), v.Choose("d2", max+1))
	f := float32(0)
	if v.Choose("factor", 2) == 1 {
		f = factor()
	}
	between(p, q, f)
}

func jaccard(a, b []uint64) float64 {
	c := inter(a, b)
	u := len(a) + len(b) - c
	if u == 0 {
		return 0
	}
	return 100 * float64(v.Concrete(c)) / float64(v.Concrete(u))
}

func between(p, q *domain.Profile, f float32) {
	s := float64(p.ComputeSimilarity(*q, f))
	l, d := jaccard(p.Likes, q.Likes), jaccard(p.Dislikes, q.Dislikes)
	if f == 0 {
		v.Assert(v.And(s-l < 0.01, l-s < 0.01), "factor 0: dislikes do not count")
		v.Reach("zero")
		return
	}
	lo, hi := l, d
	if d < l {
		lo, hi = d, l
	}
	v.Assert(v.And(s > lo-0.01, s < hi+0.01), "between the similarities of likes and of dislikes")
	v.Reach("between")
}

// Long lists, with an arbitrary factor.
func C23_Large() {
	n := []int{20, 130, 300, 70000}[v.Choose("items", 4)]
	v.MaxSteps(400_000_000)
	shift := 1
	if n < 1000 {
		shift = []int{0, 1, 19, n - 1, n}[v.Choose("shift", 5)]
	}
	mk := func(n int, from int) []uint64 {
		a := make([]uint64, n)
		for i := range a {
			a[i] = uint64(from+i) * 3
		}
		return a
	}
	p, q := domain.NewProfile(1), domain.NewProfile(2)
	p.Likes, q.Likes = mk(n, 10), mk(n, 10+shift)
	p.Dislikes, q.Dislikes = mk(n/4, n*3), mk(n/3, n*3+shift/5)
	if v.Choose("swap", 2) == 1 {
		p.Likes, p.Dislikes, q.Likes, q.Dislikes = p.Dislikes, p.Likes, q.Dislikes, q.Likes
	}
	f := []float32{0, 0.25, 0.7, 1}[v.Choose("factor", 4)]
	if n == 20 && f == 0.7 {
		f = factor()
		v.Assume(v.And(f > 0, f < 1))
	}
	s := p.ComputeSimilarity(*q, f)
	r := q.ComputeSimilarity(*p, f)
	v.Assert(s == r, "similarity is symmetric")
	v.Assert(v.And(s >= 0, s <= 100), "similarity is between 0 and 100")
	cl, ul := overlap(p.Likes, q.Likes)
	cd, ud := overlap(p.Dislikes, q.Dislikes)
	v.Assert(v.Or(cl+cd > 0, s == 0), "nothing in common: 0")
	v.Assert(v.Or(cl+cd < ul+ud, s == 100), "identical profiles: 100")
	l, d := 100*float64(cl)/float64(ul), 100*float64(cd)/float64(ud)
	g, lo, hi := float64(s), l, d
	if d < l {
		lo, hi = d, l
	}
	switch f {
	case 0:
		lo, hi = l, l
	case 1:
		lo = 100 * float64(cl+cd) / float64(ul+ud)
		hi = lo
	}
	v.Assert(v.And(g > lo-0.01, g < hi+0.01), "the similarity lies where the factor puts it")
	v.Reach("done")
}

// overlap counts the common items and those of the union of two ascending lists.
func overlap(a, b []uint64) (c, u int) {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			c++
			i++
			j++
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return c, len(a) + len(b) - c
}

// With factor 1: weighted Jaccard, against exact integer arithmetic.
func C23_FactorOne() {
	max := v.Bound("items per list", 2, 3)
	p := profile(item64, v.Choose("l1", max+1), v.Choose("d1", max+1))
	q := profile(item64, v.Choose("l2", max+1), v.Choose("d2", max+1))
	s := p.ComputeSimilarity(*q, 1)
	v.Obs("sim", s)
	cl, cd := inter(p.Likes, q.Likes), inter(p.Dislikes, q.Dislikes)
	ul, ud := len(p.Likes)+len(q.Likes)-cl, len(p.Dislikes)+len(q.Dislikes)-cd
	// mean of the two Jaccard similarities weighted with the union sizes = (cl+cd)/(ul+ud)
	if ul+ud == 0 {
		v.Assert(s == 0, "empty profiles: 0")
		return
	}
	want := 100 * float64(cl+cd) / float64(ul+ud)
	d := float64(s) - want
	v.Assert(d < 0.01 && d > -0.01, "factor 1: 100 times the weighted mean of the Jaccard similarities")
	v.Reach("done")
}
