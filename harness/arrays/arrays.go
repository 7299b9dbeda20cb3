// Package arrays: sorted-array helpers (C24).
package arrays

import (
	"recengine/internal/helpers"
	"recengine/internal/zzverif/v"
)

// The helpers are generic. They are checked at uint64 (the instance the code uses) for short
// arrays and at uint8, where the solver reaches longer ones.
type elem interface{ uint8 | uint64 | int8 }

func u8() uint8   { return v.U8("a") }
func u64() uint64 { return v.U64("a") }

// num is a signed number; distances of two of them fit the type.
func num() int8 {
	x := int8(v.U8("a"))
	v.Assume(v.And(x >= -64, x < 64))
	return x
}

// sorted returns an arbitrary ascending array of n elements with spare capacity.
func sorted[T elem](mk func() T, n, spare int) []T {
	a := make([]T, n, n+spare)
	for i := range a {
		a[i] = mk()
		if i > 0 {
			v.Assume(a[i-1] <= a[i])
		}
	}
	return a
}

func contains[T elem](a []T, x T) bool {
	r := false
	for _, e := range a {
		r = v.Or(r, e == x)
	}
	return r
}

func same[T elem](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = v.And(r, a[i] == b[i])
	}
	return r
}

func ascending[T elem](a []T) bool {
	r := true
	for i := 1; i < len(a); i++ {
		r = v.And(r, a[i-1] <= a[i])
	}
	return r
}

func clone[T elem](a []T) []T { return append([]T(nil), a...) }

// sameWith: b equals a with x inserted once at some position.
func sameWith[T elem](b, a []T, x T) bool {
	if len(b) != len(a)+1 {
		return false
	}
	any := false
	for p := 0; p <= len(a); p++ {
		all := b[p] == x
		for i := range a {
			j := i
			if i >= p {
				j = i + 1
			}
			all = v.And(all, b[j] == a[i])
		}
		any = v.Or(any, all)
	}
	return any
}

// closer: |p-x| <= |q-x| without relying on subtraction order.
func closer[T elem](p, q, x T) bool {
	// compare distances by cases to keep the terms simple
	pl, ql := p <= x, q <= x
	return v.Or(
		v.And(pl, ql, q <= p),
		v.And(!pl, !ql, p <= q),
		v.And(pl, !ql, x-p <= q-x),
		v.And(!pl, ql, p-x <= x-q),
	)
}

func binaryIndexOf[T elem](mk func() T, max int) {
	n := v.Choose("n", max+1)
	a := sorted(mk, n, 0)
	old := clone(a)
	x := mk()
	i := helpers.BinaryIndexOf(a, x)
	v.Obs("idx", i)
	if i < 0 {
		v.Assert(i == -1, "not-found result is -1")
		v.Assert(!contains(a, x), "binary search misses a present element")
		v.Reach("absent")
	} else {
		v.Assert(i < n, "index in range")
		v.Assert(a[i] == x, "binary search returns the index of another element")
		v.Reach("present")
	}
	v.Assert(same(a, old), "search leaves the array alone")
}

func C24_BinaryIndexOfInt() { binaryIndexOf(num, v.Bound("elements", 6, 10)) }
func C24_BinaryIndexOf64()  { binaryIndexOf(u64, v.Bound("elements", 9, 16)) }

// C24_IndexOf: the first occurrence in any array, sorted or not.
func C24_IndexOf() {
	n := v.Choose("n", v.Bound("elements", 8, 14)+1)
	a := make([]uint64, n)
	for i := range a {
		a[i] = v.U64("a")
	}
	old := clone(a)
	x := v.U64("x")
	i := helpers.IndexOf(a, x)
	v.Obs("idx", i)
	if i < 0 {
		v.Assert(i == -1, "not-found result is -1")
		v.Assert(!contains(a, x), "linear search misses a present element")
		v.Reach("absent")
	} else {
		v.Assert(i < n, "index in range")
		v.Assert(v.And(a[i] == x, !contains(a[:i], x)), "linear search returns the first occurrence")
		v.Reach("present")
	}
	v.Assert(same(a, old), "search leaves the array alone")
}

// C24_Deviation: the distance of two numbers.
func C24_Deviation() {
	a, b := v.U64("a"), v.U64("b")
	d := helpers.Deviation(a, b)
	v.Assert(v.Or(v.And(a <= b, a+d == b), v.And(b <= a, b+d == a)), "the distance of two numbers")
}

func closest[T elem](mk func() T, max int) {
	n := v.Choose("n", max+1)
	a := sorted(mk, n, 0)
	old := clone(a)
	x := mk()
	i := helpers.BinaryIndexOfClosest(a, x)
	v.Obs("idx", i)
	if n == 0 {
		v.Assert(i == -1, "closest of an empty array")
		v.Reach("empty")
		return
	}
	v.Assert(i >= 0 && i < n, "closest index in range")
	ok := true
	for _, e := range a {
		ok = v.And(ok, closer(a[i], e, x))
	}
	v.Assert(ok, "closest element is at minimal distance")
	v.Assert(same(a, old), "search leaves the array alone")
	v.Reach("found")
}

func C24_Closest64()  { closest(u64, v.Bound("elements", 3, 5)) }
func C24_ClosestInt() { closest(num, v.Bound("elements", 4, 7)) }
func C24_Closest8()   { closest(u8, v.Bound("elements", 6, 10)) }

func insert[T elem](mk func() T, max int) {
	n := v.Choose("n", max+1)
	a := sorted(mk, n, v.Choose("spare", 2))
	old := clone(a)
	x := mk()
	b := helpers.InsertSavingOrder(a, x)
	v.Obs("b", b)
	v.Assert(ascending(b), "insert keeps the array ascending")
	v.Assert(sameWith(b, old, x), "insert adds exactly the value")
	v.Reach("done")
}

func C24_Insert64()  { insert(u64, v.Bound("elements", 3, 5)) }
func C24_InsertInt() { insert(num, v.Bound("elements", 4, 7)) }
func C24_Insert8()   { insert(u8, v.Bound("elements", 6, 8)) }

func put[T elem](mk func() T, max int) {
	n := v.Choose("n", max+1)
	a := sorted(mk, n, v.Choose("spare", 2))
	old := clone(a)
	x := mk()
	b := helpers.PutSavingOrder(a, x)
	v.Obs("b", b)
	v.Assert(ascending(b), "put keeps the array ascending")
	had := contains(old, x)
	if len(b) == len(old) {
		v.Assert(had, "put dropped a new value")
		v.Assert(same(b, old), "put of a present value changes nothing")
		v.Reach("present")
	} else {
		v.Assert(!had, "put duplicated a present value")
		v.Assert(sameWith(b, old, x), "put adds exactly the value")
		v.Reach("new")
	}
}

func C24_Put64()  { put(u64, v.Bound("elements", 3, 5)) }
func C24_PutInt() { put(num, v.Bound("elements", 4, 7)) }
func C24_Put8()   { put(u8, v.Bound("elements", 6, 8)) }

// C24_InsertAt: inserting at an index.
func C24_InsertAt() {
	n := v.Choose("n", v.Bound("elements", 6, 9)+1)
	a := make([]uint64, n, n+v.Choose("spare", 3))
	for i := range a {
		a[i] = v.U64("a")
	}
	old := clone(a)
	i := v.Concrete(v.Int("i", 0, n))
	x := v.U64("x")
	b := helpers.Insert(a, i, x)
	v.Obs("b", b)
	want := append(append(clone(old[:i]), x), old[i:]...)
	v.Assert(same(b, want), "inserting adds exactly the value at the index")
	v.Reach("done")
}

func C24_RemoveSavingOrder() {
	n := 1 + v.Choose("n", v.Bound("elements", 6, 9))
	a := sorted(u64, n, v.Choose("spare", 2))
	old := clone(a)
	i := v.Concrete(v.Int("i", 0, n-1))
	b := helpers.RemoveSavingOrder(a, i)
	v.Obs("b", b)
	want := append(clone(old[:i]), old[i+1:]...)
	v.Assert(same(b, want), "ordered removal deletes exactly the chosen element")
	v.Reach("done")
}

func C24_Remove() {
	n := 1 + v.Choose("n", v.Bound("elements", 6, 9))
	a := make([]uint64, n)
	for i := range a {
		a[i] = v.U64("a")
	}
	old := clone(a)
	i := v.Concrete(v.Int("i", 0, n-1))
	b := helpers.Remove(a, i)
	v.Obs("b", b)
	v.Assert(len(b) == n-1, "unordered removal shortens by one")
	// multiset equality, judged at an arbitrary value
	x := v.U64("x")
	c1, c2 := 0, 0
	for _, e := range old {
		c1 = v.IteInt(e == x, c1+1, c1)
	}
	c1 = v.IteInt(old[i] == x, c1-1, c1)
	for _, e := range b {
		c2 = v.IteInt(e == x, c2+1, c2)
	}
	v.Assert(c1 == c2, "unordered removal deletes exactly the chosen element")
	v.Reach("done")
}

// long returns a concrete ascending array, with repetitions, and a value near one of its elements.
func long() ([]uint64, uint64) {
	n := []int{127, 128, 129, 256, 257, 1000}[v.Choose("n", v.Bound("lengths", 5, 6))]
	a := make([]uint64, n, n+v.Choose("spare", 2))
	shape := v.Choose("shape", 2)
	for i := range a {
		a[i] = uint64(i) * 16
		if shape == 1 {
			a[i] = uint64(i/3) * 48 // each three times
		}
		if i >= n/2 {
			a[i] += 1 << 63
		}
	}
	at := a[[]int{0, 1, n/2 - 1, n / 2, n - 2, n - 1}[v.Choose("near", 6)]]
	x := v.U64("x")
	v.Assume(v.And(x-at+20 <= 50))
	return a, x
}

func C24_LongSearch() {
	a, x := long()
	n := len(a)
	i := helpers.BinaryIndexOf(a, x)
	if i < 0 {
		v.Assert(i == -1 && !contains(a, x), "binary search misses a present element")
		v.Reach("absent")
	} else {
		v.Assert(i < n && a[i] == x, "binary search returns the index of another element")
		v.Reach("present")
	}
	j := helpers.BinaryIndexOfClosest(a, x)
	v.Assert(j >= 0 && j < n, "closest index in range")
	lo, hi := j, j // the next different elements decide, as the array is ascending
	for lo > 0 && a[lo] == a[j] {
		lo--
	}
	for hi < n-1 && a[hi] == a[j] {
		hi++
	}
	v.Assert(v.And(closer(a[j], a[lo], x), closer(a[j], a[hi], x)), "closest element is at minimal distance")
}

func C24_LongChange() {
	a, x := long()
	old := clone(a)
	var b []uint64
	had := contains(old, x)
	if v.Choose("put", 2) == 1 {
		b = helpers.PutSavingOrder(a, x)
		if len(b) == len(old) {
			v.Assert(had && same(b, old), "put of a present value changes nothing")
			v.Reach("present")
			return
		}
		v.Assert(!had, "put duplicated a present value")
	} else {
		b = helpers.InsertSavingOrder(a, x)
	}
	v.Assert(len(b) == len(old)+1, "one more element")
	v.Assert(ascending(b), "insert keeps the array ascending")
	// where the new element went
	p := 0
	for p < len(old) && b[p] == old[p] {
		p++
	}
	v.Assert(b[p] == x && same(b[p+1:], old[p:]), "insert adds exactly the value")
	i := []int{0, 1, len(b) / 2, len(b) - 2, len(b) - 1}[v.Choose("remove", 5)]
	want := append(clone(b[:i]), b[i+1:]...)
	v.Assert(same(helpers.RemoveSavingOrder(b, i), want), "ordered removal deletes exactly the chosen element")
	v.Reach("changed")
}
