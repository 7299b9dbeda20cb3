package api

import (
	"encoding/json"
	"strings"

	"recengine/internal/zzverif/v"
)

// refusal is the answer to a body that is refused for its fields.
type refusal struct {
	Error  string `json:"error"`
	Errors []struct {
		Field   string `json:"field"`
		Message string `json:"message"`
	} `json:"errors"`
}

// named counts how often the field is named, in any spelling of its case.
func (r refusal) named(field string) int {
	n := 0
	for _, e := range r.Errors {
		if strings.EqualFold(e.Field, field) {
			n++
		}
	}
	return n
}

// C42_Fields: a body with fields of the right types, some of which are at fault.
func C42_Fields() {
	s := start()
	rs := s.add(nil, "a")
	post := v.Choose("method", 2) == 0
	m := map[string]any{}
	name := ""
	switch k := v.Choose("name", 8); k {
	case 0: // missing
	case 7:
		name = ascii("name", v.Choose("length", v.Bound("length", 2, 3))+1)
		m["name"] = name
	default:
		name = []string{"", "a", "b", "B", "b-c", "1b"}[k-1]
		m["name"] = name
	}
	nameBad, digit := len(name) == 0, false
	if len(name) > 0 {
		digit = between(name[0], '0', '9')
		for i := 0; i < len(name); i++ {
			nameBad = v.Or(nameBad, !v.Or(between(name[i], 'a', 'z'), between(name[i], '0', '9')))
		}
	}
	typeBad := false
	if post {
		k := v.Choose("type", 4)
		if k < 3 {
			m["type"] = []string{"like", "", "likes"}[k]
		}
		typeBad = k > 0
	}
	if v.Choose("limit", 2) == 1 {
		m["maxSimilarProfiles"] = v.U64("limit")
	}
	factorBad, factorOpen := false, true
	if v.Choose("factor", 2) == 1 {
		f := v.F32("factor")
		v.Assume(v.And(f-f == 0, f != 0))
		m["dislikeFactor"] = f
		factorBad, factorOpen = v.Or(f < 0, f > 1), false
	}
	data, err := json.Marshal(m)
	v.Assert(err == nil, "encoded")
	method, path := "PUT", base+"/a"
	if post {
		method, path = "POST", base
	}
	a := s.request(method, path, data)
	v.Obs("answer", a.status)
	if v.And(!nameBad, !digit, !typeBad, !factorBad) {
		v.Reach("nothing at fault")
		if a.status == 400 && !(post && name == "a") {
			var r refusal
			v.Assert(factorOpen, "nothing is at fault")
			v.Assert(json.Unmarshal(a.data, &r) == nil && len(r.Errors) == r.named("dislikeFactor"), "nothing else is at fault")
		}
		return
	}
	v.Assert(a.status == 400, "a bad request")
	var r refusal
	v.Assert(json.Unmarshal(a.data, &r) == nil, "an object")
	v.Assert(r.Error == "validation", "the kind of error")
	others := v.Or(nameBad, typeBad, factorBad)
	n := r.named("name")
	v.Assert(n <= 1 && v.Implies(nameBad, n == 1), "a name at fault is named")
	v.Assert(v.Implies(n == 1, v.Or(nameBad, digit)), "a good name is not named")
	v.Assert(v.Implies(v.And(digit, !others, !factorOpen), n == 1), "a name that starts with a digit is named")
	t := r.named("type")
	v.Assert(t <= 1 && v.Implies(typeBad, t == 1) && v.Implies(t == 1, typeBad), "the type is named if it is at fault")
	f := r.named("dislikeFactor")
	v.Assert(f <= 1 && v.Implies(factorBad, f == 1), "a factor at fault is named")
	v.Assert(v.Implies(f == 1, v.Or(factorBad, factorOpen)), "a good factor is not named")
	v.Assert(len(r.Errors) == n+t+f, "no other field is named")
	for _, e := range r.Errors {
		v.Assert(e.Message != "", "with a message")
	}
	s.holds(rs, "registry")
	v.Reach("refused")
}
