package main

// encoding/binary, regexp and encoding/json over symbolic values.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"math"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
)

func init() {
	reg("encoding/binary.Write", func(fr *frame, a []value) value { return fr.m.binaryWrite(fr, a) })
	reg("encoding/binary.Read", func(fr *frame, a []value) value { return fr.m.binaryRead(fr, a) })
	reg("encoding/binary.Size", func(fr *frame, a []value) value {
		v := a[0].(iface)
		n, ok := fr.m.binSize(v, true)
		if !ok {
			return i64(-1)
		}
		return i64(int64(n))
	})
	reg("encoding/binary.Append", func(fr *frame, a []value) value {
		m := fr.m
		v := a[2].(iface)
		if _, ok := m.binSize(v, true); !ok {
			return tuple{[]value(nil), m.mkError("binary.Append: some values are not fixed-sized in type " + v.t.String())}
		}
		var out []value
		m.binEncode(v.t, v.v, m.bigEndian(a[1].(iface)), &out)
		return tuple{m.appendSlice(types.Typ[types.Uint8], a[0].([]value), out), iface{}}
	})
	rx := func(fr *frame, a []value) value {
		p := new(value)
		s, ok := a[0].(string)
		if !ok {
			fr.m.unsupported("regexp from symbolic pattern")
		}
		pr, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return tuple{(*value)(nil), fr.m.mkError("error parsing regexp: " + err.Error())}
		}
		prog, err := syntax.Compile(pr.Simplify())
		if err != nil {
			return tuple{(*value)(nil), fr.m.mkError(err.Error())}
		}
		*p = opaque{"regexp", &rxData{s, prog}}
		return tuple{p, iface{}}
	}
	reg("regexp.Compile regexp.CompilePOSIX", rx)
	reg("regexp.MustCompile", func(fr *frame, a []value) value {
		t := rx(fr, a).(tuple)
		if t[1].(iface).t != nil {
			fr.m.goPanic(iface{types.Typ[types.String], "regexp: Compile failed"})
		}
		return t[0]
	})
	reg("(*regexp.Regexp).MatchString", func(fr *frame, a []value) value {
		p := fr.m.ptr(a[0])
		return fr.m.rxMatch((*p).(opaque).data.(*rxData), strBytes(a[1]))
	})
	reg("(*regexp.Regexp).Match", func(fr *frame, a []value) value {
		p := fr.m.ptr(a[0])
		var b []*Term
		for _, x := range a[1].([]value) {
			b = append(b, x.(*Term))
		}
		return fr.m.rxMatch((*p).(opaque).data.(*rxData), b)
	})
	// the other methods work on known text only
	rxc := func(fr *frame, a []value) (*regexp.Regexp, string) {
		p := fr.m.ptr(a[0])
		re := regexp.MustCompile((*p).(opaque).data.(*rxData).src)
		return re, fr.m.concString(a[1])
	}
	strs := func(l []string) value {
		if l == nil {
			return []value(nil)
		}
		r := make([]value, len(l))
		for i, s := range l {
			r[i] = s
		}
		return r
	}
	ints := func(l []int) value {
		if l == nil {
			return []value(nil)
		}
		r := make([]value, len(l))
		for i, x := range l {
			r[i] = i64(int64(x))
		}
		return r
	}
	reg("(*regexp.Regexp).ReplaceAllString", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return re.ReplaceAllString(s, fr.m.concString(a[2]))
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return re.ReplaceAllLiteralString(s, fr.m.concString(a[2]))
	})
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return re.ReplaceAllStringFunc(s, func(x string) string {
			return fr.m.concString(fr.m.callValue(fr, a[2], []value{x}))
		})
	})
	reg("(*regexp.Regexp).FindString", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return re.FindString(s)
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return strs(re.FindStringSubmatch(s))
	})
	reg("(*regexp.Regexp).FindAllString", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return strs(re.FindAllString(s, int(int64(fr.m.concretize(a[2].(*Term), "regexp count")))))
	})
	reg("(*regexp.Regexp).FindStringIndex", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return ints(re.FindStringIndex(s))
	})
	reg("(*regexp.Regexp).FindStringSubmatchIndex", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return ints(re.FindStringSubmatchIndex(s))
	})
	reg("(*regexp.Regexp).Split", func(fr *frame, a []value) value {
		re, s := rxc(fr, a)
		return strs(re.Split(s, int(int64(fr.m.concretize(a[2].(*Term), "regexp count")))))
	})
	reg("(*regexp.Regexp).String", func(fr *frame, a []value) value {
		p := fr.m.ptr(a[0])
		return (*p).(opaque).data.(*rxData).src
	})
	reg("regexp.MatchString", func(fr *frame, a []value) value {
		t := rx(fr, a[:1]).(tuple)
		if t[1].(iface).t != nil {
			return tuple{tFalse, t[1]}
		}
		return tuple{fr.m.rxMatch((*t[0].(*value)).(opaque).data.(*rxData), strBytes(a[1])), iface{}}
	})
	reg("encoding/json.Marshal", func(fr *frame, a []value) value {
		var sb strings.Builder
		if e := fr.m.jsonEnc(fr, a[0].(iface), &sb, 0); e.t != nil {
			return tuple{[]value(nil), e}
		}
		return tuple{fr.m.strToBytes(sb.String()), iface{}}
	})
	reg("encoding/json.MarshalIndent", func(fr *frame, a []value) value {
		var sb strings.Builder
		if e := fr.m.jsonEnc(fr, a[0].(iface), &sb, 0); e.t != nil {
			return tuple{[]value(nil), e}
		}
		return tuple{fr.m.strToBytes(jsonIndent(sb.String(), fr.m.concString(a[1]), fr.m.concString(a[2]))), iface{}}
	})
	reg("encoding/json.Unmarshal", func(fr *frame, a []value) value {
		m := fr.m
		s := m.concString(m.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], a[0]))
		dst := a[1].(iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			return m.mkError("json: Unmarshal(non-pointer)")
		}
		var x any
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			return m.mkError("invalid character (json syntax): " + err.Error())
		}
		if strings.TrimSpace(s[d.InputOffset():]) != "" {
			return m.mkError("invalid character after top-level value")
		}
		return m.jsonDec(fr, x, pt.Elem(), dst.v.(*value))
	})
	reg("(*encoding/json.Encoder).Encode", func(fr *frame, a []value) value {
		m := fr.m
		var sb strings.Builder
		if e := m.jsonEnc(fr, a[1].(iface), &sb, 0); e.t != nil {
			return e
		}
		text := sb.String()
		prefix := m.concString(m.fieldOf(a[0].(*value), "encoding/json", "Encoder", "indentPrefix"))
		indent := m.concString(m.fieldOf(a[0].(*value), "encoding/json", "Encoder", "indentValue"))
		if prefix != "" || indent != "" {
			text = jsonIndent(text, prefix, indent)
		}
		w := m.fieldOf(a[0].(*value), "encoding/json", "Encoder", "w").(iface)
		r, ok := m.callMethod(fr, w, "Write", m.strToBytes(text+"\n"))
		if !ok {
			m.unsupported("json.Encoder without a writer")
		}
		return r.(tuple)[1]
	})
	reg("encoding/json.NewDecoder", func(fr *frame, a []value) value {
		p := new(value)
		*p = opaque{"json.Decoder", &jsonDecoder{r: a[0].(iface)}}
		return p
	})
	reg("(*encoding/json.Decoder).UseNumber", func(fr *frame, a []value) value {
		fr.m.unsupported("options of json.Decoder")
		return nil
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(fr *frame, a []value) value {
		(*a[0].(*value)).(opaque).data.(*jsonDecoder).strict = true
		return nil
	})
	decRest := func(fr *frame, a []value) (*jsonDecoder, iface) {
		m := fr.m
		dec := (*a[0].(*value)).(opaque).data.(*jsonDecoder)
		if !dec.used {
			dec.used = true
			all := m.callInfo(fr, m.prog.info(m.prog.funcByName("io", "ReadAll")), []value{dec.r}, nil).(tuple)
			dec.rest = m.concString(m.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], all[0]))
			dec.err = all[1].(iface)
		}
		if dec.err.t != nil {
			return dec, dec.err
		}
		return dec, iface{}
	}
	reg("(*encoding/json.Decoder).More", func(fr *frame, a []value) value {
		dec, _ := decRest(fr, a)
		r := strings.TrimSpace(dec.rest)
		return Bool(r != "" && r[0] != ']' && r[0] != '}')
	})
	reg("(*encoding/json.Decoder).Decode", func(fr *frame, a []value) value {
		m := fr.m
		dec, e := decRest(fr, a)
		if e.t != nil {
			return e
		}
		s := dec.rest
		dst := a[1].(iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			return m.mkError("json: Unmarshal(non-pointer)")
		}
		if strings.TrimSpace(s) == "" {
			return m.globalVar("io", "EOF")
		}
		var x any
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			if err == io.ErrUnexpectedEOF {
				dec.err = m.globalVar("io", "ErrUnexpectedEOF").(iface)
			} else {
				dec.err = m.mkError("invalid character (json syntax): " + err.Error())
			}
			return dec.err
		}
		dec.rest = s[d.InputOffset():]
		m.jsonStrict = dec.strict
		defer func() { m.jsonStrict = false }()
		return m.jsonDec(fr, x, pt.Elem(), dst.v.(*value))
	})
	reg("encoding/json.Valid", func(fr *frame, a []value) value {
		m := fr.m
		s := m.concString(m.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], a[0]))
		return Bool(json.Valid([]byte(s)))
	})
}

// ---------- encoding/binary ----------

func (m *Machine) bigEndian(o iface) bool {
	if o.t == nil {
		m.nilDeref()
	}
	s := o.t.String()
	switch {
	case strings.HasSuffix(s, "binary.bigEndian"):
		return true
	case strings.HasSuffix(s, "binary.littleEndian"):
		return false
	case strings.HasSuffix(s, "binary.nativeEndian"):
		return false
	}
	m.unsupported("byte order %s", s)
	return false
}

func (m *Machine) binTypeSize(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true
		case types.Int64, types.Uint64, types.Float64:
			return 8, true
		}
		return 0, false
	case *types.Array:
		n, ok := m.binTypeSize(u.Elem())
		return n * int(u.Len()), ok
	case *types.Struct:
		t := 0
		for i := 0; i < u.NumFields(); i++ {
			n, ok := m.binTypeSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			t += n
		}
		return t, true
	}
	return 0, false
}

func (m *Machine) binSize(v iface, deref bool) (int, bool) {
	if v.t == nil {
		return 0, false
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok && deref {
		if s, ok := p.Elem().Underlying().(*types.Slice); ok {
			pv := v.v.(*value)
			if pv == nil {
				return 0, false
			}
			n, ok := m.binTypeSize(s.Elem())
			return n * len((*pv).([]value)), ok
		}
		return m.binTypeSize(p.Elem())
	}
	if s, ok := v.t.Underlying().(*types.Slice); ok {
		n, ok := m.binTypeSize(s.Elem())
		return n * len(v.v.([]value)), ok
	}
	return m.binTypeSize(v.t)
}

func (m *Machine) binEncode(t types.Type, v value, big bool, out *[]value) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := m.ptr(v)
		m.binEncode(u.Elem(), *p, big, out)
	case *types.Slice:
		for _, e := range v.([]value) {
			m.binEncode(u.Elem(), e, big, out)
		}
	case *types.Array:
		for _, e := range v.(array) {
			m.binEncode(u.Elem(), e, big, out)
		}
	case *types.Struct:
		for i, e := range v.(structure) {
			if u.Field(i).Name() == "_" {
				e = zero(u.Field(i).Type())
			}
			m.binEncode(u.Field(i).Type(), e, big, out)
		}
	case *types.Basic:
		x := v.(*Term)
		switch {
		case x.w == 0:
			x = m.tt.Ite(x, BV(8, 1), BV(8, 0))
		case x.w == FP32:
			x = intrinsics["math.Float32bits"](&frame{m: m}, []value{x}).(*Term)
		case x.w == FP64:
			x = intrinsics["math.Float64bits"](&frame{m: m}, []value{x}).(*Term)
		}
		n := int(x.w) / 8
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			*out = append(*out, m.tt.Extract(x, uint8(k*8+7), uint8(k*8)))
		}
	}
}

func (m *Machine) binDecode(t types.Type, b []*Term, big bool) (value, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i], b = m.binDecode(u.Elem(), b, big)
		}
		return a, b
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i], b = m.binDecode(u.Field(i).Type(), b, big)
			if u.Field(i).Name() == "_" {
				s[i] = zero(u.Field(i).Type())
			}
		}
		return s, b
	}
	n, _ := m.binTypeSize(t)
	var r *Term
	for i := 0; i < n; i++ {
		k := i
		if !big {
			k = n - 1 - i
		}
		if r == nil {
			r = b[k]
		} else {
			r = m.tt.Concat(r, b[k])
		}
	}
	w := width(t)
	if w == 0 {
		return m.tt.Not(m.tt.Eq(r, BV(8, 0))), b[n:]
	}
	if w == FP32 || w == FP64 {
		return m.tt.FromBits(r), b[n:]
	}
	return r, b[n:]
}

func (m *Machine) binaryWrite(fr *frame, a []value) value {
	w, order, v := a[0].(iface), a[1].(iface), a[2].(iface)
	if v.t == nil {
		m.unsupported("binary.Write(nil)")
	}
	if _, ok := m.binSize(v, true); !ok {
		return m.mkError("binary.Write: some values are not fixed-sized in type " + v.t.String())
	}
	var out []value
	m.binEncode(v.t, v.v, m.bigEndian(order), &out)
	if out == nil {
		out = []value{}
	}
	m.steps += len(out)
	if w.t == nil {
		m.nilDeref()
	}
	r, ok := m.callMethod(fr, w, "Write", out)
	if !ok {
		m.unsupported("Write on %v", w.t)
	}
	return r.(tuple)[1]
}

func (m *Machine) binaryRead(fr *frame, a []value) value {
	r, order, v := a[0].(iface), a[1].(iface), a[2].(iface)
	if v.t == nil {
		return m.mkError("binary.Read: invalid type nil")
	}
	_, isPtr := v.t.Underlying().(*types.Pointer)
	_, isSlice := v.t.Underlying().(*types.Slice)
	n, ok := m.binSize(v, true)
	if !ok || (!isPtr && !isSlice) {
		return m.mkError("binary.Read: invalid type " + v.t.String())
	}
	rf := m.prog.funcByName("io", "ReadFull")
	buf := makeSlice(types.Typ[types.Uint8], n, n)
	res := m.callInfo(fr, m.prog.info(rf), []value{r, buf}, nil).(tuple)
	if res[1].(iface).t != nil {
		return res[1]
	}
	m.steps += n
	b := make([]*Term, n)
	for i := range b {
		b[i] = buf[i].(*Term)
	}
	big := m.bigEndian(order)
	if isPtr {
		et := v.t.Underlying().(*types.Pointer).Elem()
		p := m.ptr(v.v)
		if st, ok := et.Underlying().(*types.Slice); ok {
			s := (*p).([]value)
			for i := range s {
				var x value
				x, b = m.binDecode(st.Elem(), b, big)
				assign(&s[i], x)
			}
			return iface{}
		}
		x, _ := m.binDecode(et, b, big)
		m.store(p, x, isFlat(et), et)
		return iface{}
	}
	et := v.t.Underlying().(*types.Slice).Elem()
	s := v.v.([]value)
	for i := range s {
		var x value
		x, b = m.binDecode(et, b, big)
		m.store(&s[i], x, isFlat(et), et)
	}
	return iface{}
}

// ---------- regexp ----------

type rxData struct {
	src  string
	prog *syntax.Prog
}

// rxMatch simulates the NFA on symbolic bytes, decoding UTF-8 as the regexp
// package does. The result is one term; the path is not split.
func (m *Machine) rxMatch(d *rxData, b []*Term) *Term {
	tt := m.tt
	n := len(b)
	prog := d.prog
	rng := func(x *Term, lo, hi uint64) *Term {
		return tt.And(tt.Ule(BV(x.w, lo), x), tt.Ule(x, BV(x.w, hi)))
	}
	// does any instruction accept a rune beyond ASCII?
	wide := false
	for i := range prog.Inst {
		switch in := &prog.Inst[i]; in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			wide = true
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				if in.Rune[0] >= 0x80 || syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					wide = true
				}
			} else if in.Rune[len(in.Rune)-1] >= 0x80 {
				wide = true
			}
		}
	}
	type alt struct {
		w    int
		cond *Term
		r    *Term // 32 bit rune
	}
	bits := func(x *Term, hi uint8) *Term { return tt.ZExt(tt.Extract(x, hi, 0), 32) }
	shl := func(x *Term, k uint64) *Term { return tt.bin(OShl, x, BV(32, k)) }
	or := func(x, y *Term) *Term { return tt.bin(OBOr, x, y) }
	runes := func(i int) []alt {
		c := b[i]
		ascii := tt.Ult(c, BV(8, 0x80))
		as := []alt{{1, ascii, tt.ZExt(c, 32)}}
		if !wide {
			return as
		}
		cont := func(k int) *Term { return rng(b[i+k], 0x80, 0xbf) }
		valid := ascii
		if i+1 < n {
			ok := tt.And(rng(c, 0xc2, 0xdf), cont(1))
			as = append(as, alt{2, ok, or(shl(bits(c, 4), 6), bits(b[i+1], 5))})
			valid = tt.Or(valid, ok)
		}
		if i+2 < n {
			ok := tt.And(tt.And(rng(c, 0xe0, 0xef), cont(1)), cont(2))
			ok = tt.And(ok, tt.Not(tt.And(tt.Eq(c, BV(8, 0xe0)), tt.Ult(b[i+1], BV(8, 0xa0)))))
			ok = tt.And(ok, tt.Not(tt.And(tt.Eq(c, BV(8, 0xed)), tt.Ult(BV(8, 0x9f), b[i+1]))))
			as = append(as, alt{3, ok, or(or(shl(bits(c, 3), 12), shl(bits(b[i+1], 5), 6)), bits(b[i+2], 5))})
			valid = tt.Or(valid, ok)
		}
		if i+3 < n {
			ok := tt.And(tt.And(rng(c, 0xf0, 0xf4), cont(1)), tt.And(cont(2), cont(3)))
			ok = tt.And(ok, tt.Not(tt.And(tt.Eq(c, BV(8, 0xf0)), tt.Ult(b[i+1], BV(8, 0x90)))))
			ok = tt.And(ok, tt.Not(tt.And(tt.Eq(c, BV(8, 0xf4)), tt.Ult(BV(8, 0x8f), b[i+1]))))
			as = append(as, alt{4, ok, or(or(shl(bits(c, 2), 18), shl(bits(b[i+1], 5), 12)),
				or(shl(bits(b[i+2], 5), 6), bits(b[i+3], 5)))})
			valid = tt.Or(valid, ok)
		}
		return append(as, alt{1, tt.Not(valid), BV(32, 0xfffd)})
	}
	matched := tFalse
	isWord := func(i int) *Term {
		if i < 0 || i >= n {
			return tFalse
		}
		r := b[i]
		return tt.Or(tt.Or(rng(r, 'a', 'z'), rng(r, 'A', 'Z')), tt.Or(rng(r, '0', '9'), tt.Eq(r, BV(8, '_'))))
	}
	empty := func(op syntax.EmptyOp, pos int) *Term {
		c := tTrue
		if op&syntax.EmptyBeginText != 0 {
			c = tt.And(c, Bool(pos == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			c = tt.And(c, Bool(pos == n))
		}
		if op&syntax.EmptyBeginLine != 0 && pos != 0 {
			c = tt.And(c, tt.Eq(b[pos-1], BV(8, '\n')))
		}
		if op&syntax.EmptyEndLine != 0 && pos != n {
			c = tt.And(c, tt.Eq(b[pos], BV(8, '\n')))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			x, y := isWord(pos-1), isWord(pos)
			wb := tt.Or(tt.And(x, tt.Not(y)), tt.And(tt.Not(x), y))
			if op&syntax.EmptyWordBoundary != 0 {
				c = tt.And(c, wb)
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				c = tt.And(c, tt.Not(wb))
			}
		}
		return c
	}
	sets := make([][]*Term, n+1)
	for i := range sets {
		sets[i] = make([]*Term, len(prog.Inst))
	}
	var add func(pc uint32, cond *Term, pos int, onstack map[uint32]bool)
	add = func(pc uint32, cond *Term, pos int, onstack map[uint32]bool) {
		if cond == tFalse || onstack[pc] {
			return
		}
		onstack[pc] = true
		defer delete(onstack, pc)
		in := prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out, cond, pos, onstack)
			add(in.Arg, cond, pos, onstack)
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out, cond, pos, onstack)
		case syntax.InstEmptyWidth:
			add(in.Out, tt.And(cond, empty(syntax.EmptyOp(in.Arg), pos)), pos, onstack)
		case syntax.InstMatch:
			matched = tt.Or(matched, cond)
		case syntax.InstFail:
		default:
			if sets[pos][pc] == nil {
				sets[pos][pc] = cond
			} else {
				sets[pos][pc] = tt.Or(sets[pos][pc], cond)
			}
		}
	}
	// boundary[i]: a rune begins at i (for an ASCII-only program every position
	// where something can match is one)
	boundary := make([]*Term, n+5)
	for i := range boundary {
		boundary[i] = Bool(!wide || i == 0)
	}
	for pos := 0; pos <= n; pos++ {
		add(uint32(prog.Start), boundary[pos], pos, map[uint32]bool{})
		if pos == n {
			break
		}
		as := runes(pos)
		if wide {
			for _, a := range as {
				boundary[pos+a.w] = tt.Or(boundary[pos+a.w], tt.And(boundary[pos], a.cond))
			}
		}
		for pc, c := range sets[pos] {
			if c == nil {
				continue
			}
			in := prog.Inst[pc]
			for _, a := range as {
				step := tt.And(a.cond, m.runeMatch(&in, a.r))
				add(in.Out, tt.And(c, step), pos+a.w, map[uint32]bool{})
			}
		}
	}
	return matched
}

func (m *Machine) runeMatch(in *syntax.Inst, r *Term) *Term {
	tt := m.tt
	switch in.Op {
	case syntax.InstRuneAny:
		return tTrue
	case syntax.InstRuneAnyNotNL:
		return tt.Not(tt.Eq(r, BV(32, '\n')))
	}
	if r.isConst() {
		return Bool(in.MatchRune(rune(r.val)))
	}
	rs := in.Rune
	if len(rs) == 1 { // one rune, possibly with its case variants
		res := tt.Eq(r, BV(32, uint64(rs[0])))
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for c := unicode.SimpleFold(rs[0]); c != rs[0]; c = unicode.SimpleFold(c) {
				res = tt.Or(res, tt.Eq(r, BV(32, uint64(c))))
			}
		}
		return res
	}
	res := tFalse
	for i := 0; i+1 < len(rs); i += 2 {
		res = tt.Or(res, tt.And(tt.Ule(BV(32, uint64(rs[i])), r), tt.Ule(r, BV(32, uint64(rs[i+1])))))
	}
	return res
}

// ---------- encoding/json ----------

// jsonDecoder is a json.Decoder; it reads the whole input at the first use.
type jsonDecoder struct {
	r      iface
	used   bool
	strict bool
	rest   string
	err    iface
}

func (m *Machine) jsonEnc(fr *frame, v iface, sb *strings.Builder, depth int) iface {
	if depth > 30 {
		m.unsupported("json depth")
	}
	if v.t == nil {
		sb.WriteString("null")
		return iface{}
	}
	if fn := m.prog.methodByName(v.t, "MarshalJSON"); fn != nil {
		if p, ok := v.v.(*value); ok && p == nil {
			sb.WriteString("null")
			return iface{}
		}
		r := m.callInfo(fr, m.prog.info(fn), []value{v.v}, nil).(tuple)
		if e := r[1].(iface); e.t != nil {
			return e
		}
		sb.WriteString(m.concString(m.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], r[0])))
		return iface{}
	}
	if fn := m.prog.methodByName(v.t, "MarshalText"); fn != nil {
		r := m.callInfo(fr, m.prog.info(fn), []value{v.v}, nil).(tuple)
		if e := r[1].(iface); e.t != nil {
			return e
		}
		b, _ := json.Marshal(m.concString(m.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], r[0])))
		sb.Write(b)
		return iface{}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if s, ok := v.v.(*symStr); ok {
				// ASCII text is decoded to what was encoded
				ascii := tTrue
				sym := false
				for _, b := range strBytes(s) {
					sym = sym || !b.isConst()
					ascii = m.tt.And(ascii, m.tt.Ult(b, BV(8, 0x80)))
				}
				if sym {
					if !m.branch(ascii) {
						m.unsupported("json of symbolic text beyond ASCII")
					}
					sb.WriteString(m.jsonSym(s, v.t))
					return iface{}
				}
			}
			b, _ := json.Marshal(m.concString(v.v))
			sb.Write(b)
		case u.Info()&types.IsBoolean != 0:
			sb.WriteString(strconv.FormatBool(m.branch(v.v.(*Term))))
		case u.Info()&types.IsInteger != 0:
			t := v.v.(*Term)
			if !t.isConst() {
				sb.WriteString(m.jsonSym(t, v.t))
				return iface{}
			}
			x := m.concretize(t, "json int")
			if isSigned(v.t) {
				sb.WriteString(strconv.FormatInt(sx(x, t.w), 10))
			} else {
				sb.WriteString(strconv.FormatUint(x, 10))
			}
		case u.Info()&types.IsFloat != 0:
			t := v.v.(*Term)
			if !t.isConst() {
				if m.branch(m.tt.FIsNaN(m.tt.FBin(OFSub, t, t))) {
					return m.mkError("json: unsupported value")
				}
				sb.WriteString(m.jsonSym(t, v.t))
				return iface{}
			}
			if t.w == FP32 {
				b, err := json.Marshal(math.Float32frombits(uint32(t.val)))
				if err != nil {
					return m.mkError("json: unsupported value")
				}
				sb.Write(b)
			} else {
				b, err := json.Marshal(math.Float64frombits(t.val))
				if err != nil {
					return m.mkError("json: unsupported value")
				}
				sb.Write(b)
			}
		default:
			m.unsupported("json of %v", v.t)
		}
	case *types.Pointer:
		p := v.v.(*value)
		if p == nil {
			sb.WriteString("null")
			return iface{}
		}
		return m.jsonEnc(fr, iface{u.Elem(), *p}, sb, depth+1)
	case *types.Interface:
		return m.jsonEnc(fr, v.v.(iface), sb, depth+1)
	case *types.Struct:
		sb.WriteByte('{')
		first := true
		if e := m.jsonFields(fr, u, v.v.(structure), sb, &first, depth); e.t != nil {
			return e
		}
		sb.WriteByte('}')
	case *types.Slice:
		s := v.v.([]value)
		if s == nil {
			sb.WriteString("null")
			return iface{}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			m.unsupported("json of []byte")
		}
		sb.WriteByte('[')
		for i, e := range s {
			if i > 0 {
				sb.WriteByte(',')
			}
			if er := m.jsonEnc(fr, m.asIface(u.Elem(), e), sb, depth+1); er.t != nil {
				return er
			}
		}
		sb.WriteByte(']')
	case *types.Array:
		sb.WriteByte('[')
		for i, e := range v.v.(array) {
			if i > 0 {
				sb.WriteByte(',')
			}
			if er := m.jsonEnc(fr, m.asIface(u.Elem(), e), sb, depth+1); er.t != nil {
				return er
			}
		}
		sb.WriteByte(']')
	case *types.Map:
		mp := v.v.(*smap)
		if mp == nil {
			sb.WriteString("null")
			return iface{}
		}
		kv := map[string]value{}
		for _, e := range mp.entries {
			if isString(u.Key()) {
				kv[m.concString(e.key)] = e.val
			} else {
				t := e.key.(*Term)
				kv[fmt.Sprint(m.concretize(t, "json key"))] = e.val
			}
		}
		sb.WriteByte('{')
		for i, k := range sortedKeys(kv) {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(k)
			sb.Write(b)
			sb.WriteByte(':')
			if er := m.jsonEnc(fr, m.asIface(u.Elem(), kv[k]), sb, depth+1); er.t != nil {
				return er
			}
		}
		sb.WriteByte('}')
	default:
		return m.mkError("json: unsupported type: " + v.t.String())
	}
	return iface{}
}

func (m *Machine) concFloat(t *Term) *Term {
	if t.op == OFromBits {
		v := m.concretize(t.a, "float")
		return &Term{op: OConst, w: t.w, val: v}
	}
	bits := intrinsics["math.Float32bits"](&frame{m: m}, []value{t}).(*Term)
	return &Term{op: OConst, w: t.w, val: m.concretize(bits, "float")}
}

func (m *Machine) asIface(t types.Type, v value) iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(iface)
	}
	return iface{t, v}
}

type jsonField struct {
	name      string
	omitempty bool
	asString  bool
	omitzero  bool
	skip      bool
}

func jsonTag(u *types.Struct, i int) jsonField {
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	f := jsonField{name: u.Field(i).Name()}
	if tag == "-" {
		f.skip = true
	}
	parts := strings.Split(tag, ",")
	if parts[0] != "" {
		f.name = parts[0]
	}
	for _, o := range parts[1:] {
		switch o {
		case "omitempty":
			f.omitempty = true
		case "string":
			f.asString = true
		case "omitzero":
			f.omitzero = true
		}
	}
	if !u.Field(i).Exported() {
		f.skip = true
	}
	return f
}

func (m *Machine) jsonFields(fr *frame, u *types.Struct, s structure, sb *strings.Builder, first *bool, depth int) iface {
	for i := range s {
		f := jsonTag(u, i)
		ft := u.Field(i).Type()
		if u.Field(i).Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
			et, ev := ft, s[i]
			if p, ok := et.Underlying().(*types.Pointer); ok {
				pv := ev.(*value)
				if pv == nil {
					continue
				}
				et, ev = p.Elem(), *pv
			}
			if es, ok := et.Underlying().(*types.Struct); ok {
				if e := m.jsonFields(fr, es, ev.(structure), sb, first, depth); e.t != nil {
					return e
				}
				continue
			}
		}
		if f.skip {
			continue
		}
		if f.asString || f.omitzero {
			m.unsupported("json option string or omitzero")
		}
		if f.omitempty && m.jsonEmpty(ft, s[i]) {
			continue
		}
		if !*first {
			sb.WriteByte(',')
		}
		*first = false
		b, _ := json.Marshal(f.name)
		sb.Write(b)
		sb.WriteByte(':')
		if e := m.jsonEnc(fr, m.asIface(ft, s[i]), sb, depth+1); e.t != nil {
			return e
		}
	}
	return iface{}
}

func (m *Machine) jsonEmpty(t types.Type, v value) bool {
	switch x := v.(type) {
	case *Term:
		if isFloat(t) {
			return m.branch(m.tt.FCmp(OFEq, x, &Term{op: OConst, w: x.w}))
		}
		if x.w == 0 {
			return !m.branch(x)
		}
		return m.branch(m.tt.Eq(x, BV(x.w, 0)))
	case string, *symStr:
		return strLen(x) == 0
	case []value:
		return len(x) == 0
	case *smap:
		return x == nil || x.n == 0
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	}
	return false
}

func jsonIndent(text, prefix, indent string) string {
	var out bytes.Buffer
	if json.Indent(&out, []byte(text), prefix, indent) != nil {
		return text
	}
	return out.String()
}

// jsonSym is the placeholder of a symbolic number or text in a JSON text.
func (m *Machine) jsonSym(t value, ty types.Type) string {
	m.jsonSyms = append(m.jsonSyms, iface{ty, t})
	return fmt.Sprintf("\"\\u0001sym%d\"", len(m.jsonSyms)-1)
}

// jsonTarget is the field of the struct (or of one embedded in it) that a member of the name k is decoded into.
func (m *Machine) jsonTarget(u *types.Struct, s structure, k string) (types.Type, *value) {
	var ft types.Type
	var fp *value
	for i := 0; i < u.NumFields(); i++ {
		f := jsonTag(u, i)
		if f.skip || u.Field(i).Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
			continue
		}
		if f.name == k {
			ft, fp = u.Field(i).Type(), &s[i]
			break
		}
		if strings.EqualFold(f.name, k) && fp == nil {
			ft, fp = u.Field(i).Type(), &s[i]
		}
	}
	if fp != nil {
		return ft, fp
	}
	for i := 0; i < u.NumFields(); i++ {
		if !u.Field(i).Embedded() || reflect.StructTag(u.Tag(i)).Get("json") != "" {
			continue
		}
		et := u.Field(i).Type()
		if p, ok := et.Underlying().(*types.Pointer); ok {
			es, ok := p.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			q := s[i].(*value)
			if q == nil {
				q = new(value)
				*q = zero(p.Elem())
			}
			if t, x := m.jsonTarget(es, (*q).(structure), k); x != nil {
				s[i] = q
				return t, x
			}
			continue
		}
		if es, ok := et.Underlying().(*types.Struct); ok {
			if t, x := m.jsonTarget(es, s[i].(structure), k); x != nil {
				return t, x
			}
		}
	}
	return nil, nil
}

func (m *Machine) jsonDecSym(s iface, t types.Type, dst *value) bool {
	b, ok := t.Underlying().(*types.Basic)
	if str, isStr := s.v.(*symStr); isStr {
		if i, isI := t.Underlying().(*types.Interface); isI && i.NumMethods() == 0 {
			*dst = iface{types.Typ[types.String], str}
			return true
		}
		if !ok || b.Info()&types.IsString == 0 {
			return false
		}
		*dst = str
		return true
	}
	if !ok {
		if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			m.unsupported("json of a symbolic number into an interface")
		}
		return false
	}
	x := s.v.(*Term)
	switch {
	case b.Info()&types.IsFloat != 0:
		if !isFloat(s.t) || width(s.t) != width(t) {
			m.unsupported("json of %v into %v", s.t, t)
		}
		*dst = x
	case b.Info()&types.IsInteger != 0:
		if isFloat(s.t) {
			m.unsupported("json of %v into %v", s.t, t)
		}
		w1, w2, s1, s2 := x.w, uint8(width(t)), isSigned(s.t), isSigned(t)
		y := m.ext(x, 64, s1)
		if s1 != s2 && w1 >= w2 || s1 && !s2 || s1 == s2 && w2 < w1 {
			z := m.tt.Extract(y, w2-1, 0)
			fit := m.tt.Eq(m.ext(z, 64, s2), y)
			if s1 != s2 {
				fit = m.tt.And(fit, m.tt.Not(m.tt.Slt(y, BV(64, 0))))
			}
			if !m.branch(fit) {
				return false
			}
			*dst = z
			return true
		}
		if w2 < 64 {
			*dst = m.tt.Extract(y, w2-1, 0)
		} else {
			*dst = y
		}
	default:
		return false
	}
	return true
}

func (m *Machine) jsonDec(fr *frame, x any, t types.Type, dst *value) iface {
	bad := func() iface { return m.mkError("json: cannot unmarshal value into Go value of type " + t.String()) }
	if s, ok := x.(string); ok && strings.HasPrefix(s, "\x01sym") {
		k, _ := strconv.Atoi(s[4:])
		if p, ok := t.Underlying().(*types.Pointer); ok {
			q := (*dst).(*value)
			if q == nil {
				q = new(value)
				*q = zero(p.Elem())
				*dst = q
			}
			return m.jsonDec(fr, x, p.Elem(), q)
		}
		if !m.jsonDecSym(m.jsonSyms[k], t, dst) {
			return bad()
		}
		return iface{}
	}
	if x == nil {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			assign(dst, zero(t))
		}
		return iface{}
	}
	if fn := m.prog.methodByName(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		b, _ := json.Marshal(x)
		return m.callInfo(fr, m.prog.info(fn), []value{dst, m.strToBytes(string(b))}, nil).(iface)
	}
	if s, ok := x.(string); ok {
		if fn := m.prog.methodByName(types.NewPointer(t), "UnmarshalText"); fn != nil {
			return m.callInfo(fr, m.prog.info(fn), []value{dst, m.strToBytes(s)}, nil).(iface)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := x.(string)
			if !ok {
				return bad()
			}
			*dst = s
		case u.Info()&types.IsBoolean != 0:
			b, ok := x.(bool)
			if !ok {
				return bad()
			}
			*dst = Bool(b)
		case u.Info()&types.IsInteger != 0:
			n, ok := x.(json.Number)
			if !ok {
				return bad()
			}
			w := width(t)
			if isSigned(t) {
				v, err := strconv.ParseInt(n.String(), 10, int(w))
				if err != nil {
					return bad()
				}
				*dst = BV(w, uint64(v))
			} else {
				v, err := strconv.ParseUint(n.String(), 10, int(w))
				if err != nil {
					return bad()
				}
				*dst = BV(w, v)
			}
		case u.Info()&types.IsFloat != 0:
			n, ok := x.(json.Number)
			if !ok {
				return bad()
			}
			bits := 64
			if width(t) == FP32 {
				bits = 32
			}
			v, err := strconv.ParseFloat(n.String(), bits)
			if err != nil {
				return bad()
			}
			*dst = mkfp(width(t), v)
		}
	case *types.Pointer:
		p := (*dst).(*value)
		if p == nil {
			p = new(value)
			*p = zero(u.Elem())
			*dst = p
		}
		return m.jsonDec(fr, x, u.Elem(), p)
	case *types.Slice:
		l, ok := x.([]any)
		if !ok {
			return bad()
		}
		s := makeSlice(u.Elem(), len(l), len(l))
		*dst = s
		var first iface
		for i := range l {
			if e := m.jsonDec(fr, l[i], u.Elem(), &s[i]); e.t != nil && first.t == nil {
				first = e
			}
		}
		return first
	case *types.Array:
		l, ok := x.([]any)
		if !ok {
			return bad()
		}
		a := (*dst).(array)
		for i := range a {
			if i < len(l) {
				if e := m.jsonDec(fr, l[i], u.Elem(), &a[i]); e.t != nil {
					return e
				}
			} else {
				assign(&a[i], zero(u.Elem()))
			}
		}
	case *types.Struct:
		o, ok := x.(map[string]any)
		if !ok {
			return bad()
		}
		s := (*dst).(structure)
		var first iface
		for _, k := range sortedKeys(o) {
			ft, fp := m.jsonTarget(u, s, k)
			if fp == nil {
				if m.jsonStrict {
					return m.mkError("json: unknown field \"" + k + "\"")
				}
				continue
			}
			if e := m.jsonDec(fr, o[k], ft, fp); e.t != nil && first.t == nil {
				first = e
			}
		}
		return first
	case *types.Map:
		o, ok := x.(map[string]any)
		if !ok || !isString(u.Key()) {
			return bad()
		}
		mp, _ := (*dst).(*smap)
		if mp == nil {
			mp = newMap(u.Key())
			*dst = mp
		}
		for _, k := range sortedKeys(o) {
			c := new(value)
			*c = zero(u.Elem())
			if e := m.jsonDec(fr, o[k], u.Elem(), c); e.t != nil {
				return e
			}
			m.mapSet(mp, k, *c)
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			return bad()
		}
		switch y := x.(type) {
		case string:
			*dst = iface{types.Typ[types.String], y}
		case bool:
			*dst = iface{types.Typ[types.Bool], Bool(y)}
		case json.Number:
			f, _ := y.Float64()
			*dst = iface{types.Typ[types.Float64], FPc64(f)}
		case []any:
			at := types.NewInterfaceType(nil, nil)
			s := makeSlice(at, len(y), len(y))
			for i := range y {
				m.jsonDec(fr, y[i], at, &s[i])
			}
			*dst = iface{types.NewSlice(at), s}
		case map[string]any:
			at := types.NewInterfaceType(nil, nil)
			mp := newMap(types.Typ[types.String])
			for _, k := range sortedKeys(y) {
				c := new(value)
				*c = iface{}
				m.jsonDec(fr, y[k], at, c)
				m.mapSet(mp, k, *c)
			}
			*dst = iface{types.NewMap(types.Typ[types.String], at), mp}
		}
	default:
		return bad()
	}
	return iface{}
}

// fieldOf reads a field of a struct of the standard library by its name.
func (m *Machine) fieldOf(p *value, pkg, typ, field string) value {
	st := m.prog.pkgs[pkg].Pkg.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return (*p).(structure)[i]
		}
	}
	m.unsupported("no field %s.%s.%s", pkg, typ, field)
	return nil
}

// globalVar is the value of a package-level variable.
func (m *Machine) globalVar(pkg, name string) value {
	return *m.global(m.prog.pkgs[pkg].Var(name))
}
