package recdb

import (
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

func hasItem(a []uint64, x uint64) bool {
	r := false
	for _, e := range a {
		r = v.Or(r, e == x)
	}
	return r
}

func state(likes, dislikes []uint64, x uint64) int {
	return v.IteInt(hasItem(likes, x), domain.ItemLiked, v.IteInt(hasItem(dislikes, x), domain.ItemDisliked, domain.ItemUnknown))
}

func small(n int) []uint64 {
	l := make([]uint64, n)
	for i := range l {
		l[i] = uint64(v.U8("item"))
	}
	return l
}

// C22_Read: a profile that was read from a file is a profile like any other: steps
// applied to it after the read affect the items they name and no others.
func C22_Read() {
	max := v.Bound("items per list", 2, 2)
	// small items keep the solver's arithmetic on distances small
	p := &domain.Profile{UserID: v.U64("user"), Likes: small(v.Choose("likes", max+1)), Dislikes: small(v.Choose("dislikes", max+1))}
	ok := true
	for i := 1; i < len(p.Likes); i++ {
		ok = v.And(ok, p.Likes[i-1] < p.Likes[i])
	}
	for i := 1; i < len(p.Dislikes); i++ {
		ok = v.And(ok, p.Dislikes[i-1] < p.Dislikes[i])
	}
	for _, a := range p.Likes {
		ok = v.And(ok, !hasItem(p.Dislikes, a))
	}
	v.Assume(ok)
	capacity := uint32(need(p) + 3)
	f := world.NewFile(encode(capacity, 0, p))
	var e recdb.Entry
	_, err := proto().ReadEntry(&e, f)
	v.Assert(err == nil, "reads")
	r, isLike := e.Data.(*domain.Profile)
	v.Assert(isLike, "a like profile")
	q := uint64(v.U8("query"))
	want := state(p.Likes, p.Dislikes, q)
	for i := 0; i < v.Bound("steps", 1, 2); i++ {
		x := uint64(v.U8("item"))
		switch v.Choose("op", 5) {
		case 0:
			r.Like(x)
			want = v.IteInt(q == x, domain.ItemLiked, want)
		case 1:
			r.Dislike(x)
			want = v.IteInt(q == x, domain.ItemDisliked, want)
		case 2:
			r.Unlike(x)
			want = v.IteInt(v.And(q == x, want == domain.ItemLiked), domain.ItemUnknown, want)
		case 3:
			r.Undislike(x)
			want = v.IteInt(v.And(q == x, want == domain.ItemDisliked), domain.ItemUnknown, want)
		case 4:
			r.RemoveItem(x)
			want = v.IteInt(q == x, domain.ItemUnknown, want)
		}
		v.Assert(state(r.Likes, r.Dislikes, q) == want, "the lists of a profile read from a file reflect the last action")
		v.Assert(r.QualifyItem(q) == want, "a profile read from a file answers according to the last action")
	}
	v.Reach("done")
}
