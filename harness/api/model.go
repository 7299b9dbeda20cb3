package api

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/go-playground/validator/v10"
	"recengine/internal/zzverif/v"
)

// The model of the validator behind gin's ShouldBind functions: it interprets
// the "binding" tags of the structs. Everything else of gin is executed.

type fieldErr struct {
	validator.FieldError
	field, tag, param string
}

func (e *fieldErr) Field() string       { return e.field }
func (e *fieldErr) StructField() string { return e.field }
func (e *fieldErr) Tag() string         { return e.tag }
func (e *fieldErr) ActualTag() string   { return e.tag }
func (e *fieldErr) Param() string       { return e.param }
func (e *fieldErr) Error() string {
	return "Field validation for '" + e.field + "' failed on the '" + e.tag + "' tag"
}

func deref(x any) (any, bool) {
	switch p := x.(type) {
	case *string:
		if p == nil {
			return nil, true
		}
		return *p, true
	case *uint:
		if p == nil {
			return nil, true
		}
		return *p, true
	case *int:
		if p == nil {
			return nil, true
		}
		return *p, true
	case *float32:
		if p == nil {
			return nil, true
		}
		return *p, true
	case *float64:
		if p == nil {
			return nil, true
		}
		return *p, true
	}
	return x, false
}

func isZero(x any, ptr bool) bool {
	if x == nil {
		return true
	}
	if ptr {
		return false
	}
	switch y := x.(type) {
	case string:
		return y == ""
	case bool:
		return !y
	case uint:
		return y == 0
	case uint8:
		return y == 0
	case uint16:
		return y == 0
	case uint32:
		return y == 0
	case uint64:
		return y == 0
	case int:
		return y == 0
	case int32:
		return y == 0
	case int64:
		return y == 0
	case float32:
		return y == 0
	case float64:
		return y == 0
	}
	v.Unsupported("validation of " + v.TypeName(x))
	return false
}

// atLeast tells whether x >= p, x > p.
func compare(x any, param string) (ge, gt bool) {
	switch y := x.(type) {
	case uint:
		p := unsigned(param)
		return uint64(y) >= p, uint64(y) > p
	case uint16:
		p := unsigned(param)
		return uint64(y) >= p, uint64(y) > p
	case uint32:
		p := unsigned(param)
		return uint64(y) >= p, uint64(y) > p
	case uint64:
		p := unsigned(param)
		return y >= p, y > p
	case int:
		p := signed(param)
		return int64(y) >= p, int64(y) > p
	case int32:
		p := signed(param)
		return int64(y) >= p, int64(y) > p
	case int64:
		p := signed(param)
		return y >= p, y > p
	case float32:
		p := float(param)
		return float64(y) >= p, float64(y) > p
	case float64:
		p := float(param)
		return y >= p, y > p
	case string: // ASCII
		p := signed(param)
		return int64(len(y)) >= p, int64(len(y)) > p
	}
	v.Unsupported("comparison of " + v.TypeName(x))
	return false, false
}

func unsigned(s string) uint64 {
	n, err := strconv.ParseUint(s, 0, 64)
	if err != nil {
		panic(err.Error())
	}
	return n
}

func signed(s string) int64 {
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		panic(err.Error())
	}
	return n
}

func float(s string) float64 {
	n, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err.Error())
	}
	return n
}

// every tells whether s is not empty and f holds for all of its bytes.
func every(s string, f func(c byte) bool) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, f(s[i]))
	}
	return v.And(ok, len(s) > 0)
}

func between(c, lo, hi byte) bool { return v.And(c >= lo, c <= hi) }

func passes(x any, tag, param string) bool {
	switch tag {
	case "min", "gte":
		ge, _ := compare(x, param)
		return ge
	case "gt":
		_, gt := compare(x, param)
		return gt
	case "max", "lte":
		_, gt := compare(x, param)
		ge, _ := compare(x, param)
		return v.Or(!gt && ge, !ge && x == x)
	case "lt":
		ge, _ := compare(x, param)
		return !ge
	case "oneof":
		s, ok := x.(string)
		if !ok {
			break
		}
		is := false
		for _, p := range strings.Fields(param) {
			is = v.Or(is, s == p)
		}
		return is
	}
	s, ok := x.(string)
	if !ok {
		v.Unsupported("tag " + tag + " of " + v.TypeName(x))
	}
	upper := func(c byte) bool { return between(c, 'A', 'Z') }
	lower := func(c byte) bool { return between(c, 'a', 'z') }
	digit := func(c byte) bool { return between(c, '0', '9') }
	switch tag {
	case "lowercase":
		return every(s, func(c byte) bool { return !upper(c) })
	case "uppercase":
		return every(s, func(c byte) bool { return !lower(c) })
	case "alphanum":
		return every(s, func(c byte) bool { return v.Or(upper(c), lower(c), digit(c)) })
	case "alpha":
		return every(s, func(c byte) bool { return v.Or(upper(c), lower(c)) })
	case "numeric", "number":
		return every(s, digit)
	case "ascii":
		return true
	}
	v.Unsupported("tag " + tag)
	return false
}

//verif:subst (*github.com/gin-gonic/gin/binding.defaultValidator).ValidateStruct
func validateStruct(_ any, obj any) error {
	if obj == nil {
		return nil
	}
	errs := validateFields(obj, nil)
	if len(errs) == 0 {
		return nil
	}
	return errs
}

func validateFields(obj any, errs validator.ValidationErrors) validator.ValidationErrors {
	for _, f := range v.Fields(obj) {
		tags := reflect.StructTag(f.Tag).Get("binding")
		if tags == "-" || f.Hidden {
			continue
		}
		if f.Struct {
			if !strings.Contains(tags, "structonly") {
				errs = validateFields(f.Value, errs)
			}
			continue
		}
		if tags == "" {
			continue
		}
		x, ptr := deref(f.Value)
		zero := isZero(x, ptr)
		for _, t := range strings.Split(tags, ",") {
			tag, param, _ := strings.Cut(t, "=")
			if tag == "omitempty" {
				if zero {
					break
				}
				continue
			}
			ok := !zero
			if tag != "required" {
				ok = x != nil && passes(x, tag, param)
			}
			if !ok {
				errs = append(errs, &fieldErr{field: f.Name, tag: tag, param: param})
				break
			}
		}
	}
	return errs
}

//verif:subst github.com/gin-gonic/gin.debugPrint
func debugPrint(format string, values ...any) {}

//verif:subst github.com/gin-gonic/gin.debugPrintRoute
func debugPrintRoute(method, path string, handlers any) {}

//verif:subst github.com/gin-gonic/gin/internal/bytesconv.StringToBytes
func stringToBytes(s string) []byte { return []byte(s) }

//verif:subst github.com/gin-gonic/gin/internal/bytesconv.BytesToString
func bytesToString(b []byte) string { return string(b) }
