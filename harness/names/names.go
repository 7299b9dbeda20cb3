// Package names: namespace names and types (C34).
package names

import (
	"recengine/internal/domain/valueobjects"
	"recengine/internal/zzverif/v"
)

func letter(c byte) bool { return v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')) }

func rest(c byte) bool {
	return v.Or(letter(c), v.And(c >= '0', c <= '9'), c == '_', c == '-')
}

// C34_Name: exactly the safe names are accepted, and unchanged.
func C34_Name() {
	n := v.Choose("length", v.Bound("name length", 32, 200)+1)
	s := v.String("name", n)
	want := n > 0
	if n > 0 {
		want = letter(s[0])
		for i := 1; i < n; i++ {
			want = v.And(want, rest(s[i]))
		}
	}
	name, err := valueobjects.ParseNamespaceName(s)
	v.Obs("name", err == nil)
	v.Assert((err == nil) == want, "a name is accepted exactly if it is a letter followed by letters, digits, _ and -")
	if err == nil {
		v.Reach("accepted")
		v.Assert(name.Value() == s, "an accepted name is unchanged")
		again, err := valueobjects.ParseNamespaceName(name.Value())
		v.Assert(err == nil && again == name, "names are equal exactly if their texts are")
	} else {
		v.Reach("refused")
	}
}

// C34_Long: long names, arbitrary in a few places.
func C34_Long() {
	n := []int{63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000}[v.Choose("length", 12)]
	b := make([]byte, n)
	for i := range b {
		b[i] = "aZ0_-q9X"[i%8]
	}
	at := []int{0, 1, n / 2, n - 2, n - 1}[v.Choose("at", 5)]
	b[at] = v.U8("character")
	b[n-1] = v.U8("last")
	want := v.And(letter(b[0]), rest(b[at]), rest(b[n-1]))
	name, err := valueobjects.ParseNamespaceName(string(b))
	v.Assert((err == nil) == want, "a name is accepted exactly if it is a letter followed by letters, digits, _ and -")
	if err == nil {
		v.Reach("accepted")
		v.Assert(name.Value() == string(b), "an accepted name is unchanged")
	} else {
		v.Reach("refused")
	}
}

// C34_Equal: names compare by their text.
func C34_Equal() {
	n, k := v.Choose("length", 4)+1, v.Choose("other length", 4)+1
	s, t := v.String("name", n), v.String("other", k)
	a, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		return
	}
	b, err := valueobjects.ParseNamespaceName(t)
	if err != nil {
		return
	}
	v.Assert((a == b) == (s == t), "two names are equal exactly if their texts are")
}

// C34_Type: only the like type is accepted.
func C34_Type() {
	n := v.Choose("length", v.Bound("type length", 16, 64)+1)
	s := v.String("type", n)
	t, err := valueobjects.ParseNamespaceType(s)
	v.Assert((err == nil) == (s == "like"), "a type is accepted exactly if it is the like type")
	if err == nil {
		v.Reach("accepted")
		v.Assert(t.Value() == s, "an accepted type is unchanged")
		v.Assert(t == valueobjects.MakeLikeNamespaceType(), "the parsed type is the like type")
	}
}
