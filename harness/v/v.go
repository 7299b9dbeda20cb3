// Package v is the interface between the harnesses and the two ways they are
// executed: symbolically by gosmt (which replaces every function below by a
// primitive of its own) and natively, with the values of one solver model,
// when a counterexample or a sample path is replayed against the real code.
package v

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type choice struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type script struct {
	Fn      string   `json:"fn"`
	Tier    string   `json:"tier"`
	Choices []choice `json:"choices"`
}

var (
	mu       sync.Mutex
	sc       script
	queues   = map[string][]uint64{}
	obs      []string
	maxAlloc uint64
	allocAt  uint64
	tmp      string
	baseG    int
	jitter   *rand.Rand
)

// Main runs the harness named in the script given by VERIF_SCRIPT.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_SCRIPT"))
	if err != nil {
		fmt.Println("VERIF-ERROR", err)
		os.Exit(98)
	}
	if err := json.Unmarshal(b, &sc); err != nil {
		fmt.Println("VERIF-ERROR", err)
		os.Exit(98)
	}
	for _, c := range sc.Choices {
		queues[c.N] = append(queues[c.N], c.V)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_ATTEMPT"), 10, 64)
	jitter = rand.New(rand.NewSource(seed + 1))
	f := fns[sc.Fn]
	if f == nil {
		fmt.Println("VERIF-ERROR no harness", sc.Fn)
		os.Exit(98)
	}
	baseG = runtime.NumGoroutine()
	f()
	Done()
}

// Done prints what was observed and ends the process.
func Done() {
	mu.Lock()
	defer mu.Unlock()
	checkAlloc()
	finish("VERIF-DONE")
}

func checkAlloc() {
	if maxAlloc > 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.TotalAlloc-allocAt > maxAlloc+(1<<20) {
			finish("VERIF-VIOLATION allocated " + fmt.Sprint(ms.TotalAlloc-allocAt) + " bytes")
		}
	}
}

func finish(last string) {
	for _, o := range obs {
		fmt.Println("OBS " + o)
	}
	fmt.Println(last)
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	if strings.HasPrefix(last, "VERIF-VIOLATION") {
		os.Exit(97)
	}
	os.Exit(0)
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	q := queues[name]
	if len(q) == 0 {
		return 0
	}
	queues[name] = q[1:]
	return q[0]
}

// ---- arbitrary values ----

func U64(name string) uint64  { return next(name) }
func I64(name string) int64   { return int64(next(name)) }
func U32(name string) uint32  { return uint32(next(name)) }
func U16(name string) uint16  { return uint16(next(name)) }
func U8(name string) uint8    { return uint8(next(name)) }
func Bool(name string) bool   { return next(name)&1 != 0 }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name))) }

// Int is an arbitrary value of [lo,hi].
func Int(name string, lo, hi int) int {
	x := int(int64(next(name)))
	if x < lo || x > hi {
		fmt.Println("VERIF-INFEASIBLE")
		os.Exit(96)
	}
	return x
}

// Choose forks into n cases.
func Choose(name string, n int) int { return int(next(name)) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Concrete forks over all feasible values of x.
func Concrete(x int) int { return x }

// ---- judgement ----

func Assume(c bool) {
	if !c {
		mu.Lock()
		fmt.Println("VERIF-INFEASIBLE")
		os.Exit(96)
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	mu.Lock()
	finish("VERIF-VIOLATION " + msg)
}

// Known asserts c; a failure recorded under id in the known findings is reported as such.
func Known(id string, c bool, msg string) { Assert(c, msg) }

// Stop ends the path successfully.
func Stop() { Done() }

func Reach(label string) {}

// Obs records values compared between symbolic and native execution.
func Obs(label string, vals ...any) {
	parts := []string{label}
	for _, x := range vals {
		parts = append(parts, show(x))
	}
	mu.Lock()
	obs = append(obs, strings.Join(parts, " "))
	mu.Unlock()
}

func show(x any) string {
	switch x := x.(type) {
	case nil:
		return "nil"
	case error:
		return "err"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case float32:
		return fmt.Sprintf("%x", math.Float32bits(x))
	}
	r := reflect.ValueOf(x)
	switch r.Kind() {
	case reflect.String:
		return strconv.Quote(r.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.Slice:
		s := make([]string, r.Len())
		for i := range s {
			s[i] = show(r.Index(i).Interface())
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return "?"
}

// ---- terms without path splitting ----

func And(cs ...bool) bool {
	r := true
	for _, c := range cs {
		r = r && c
	}
	return r
}

func Or(cs ...bool) bool {
	r := false
	for _, c := range cs {
		r = r || c
	}
	return r
}

func Implies(a, b bool) bool { return !a || b }

func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func IteU32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}

func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteBool(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool { return string(a) == string(b) }

func EqU64s(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- bounds and modes ----

// Bound is a bound of the exploration: q in the quick tier, t in the thorough one.
func Bound(name string, q, t int) int {
	if sc.Tier == "thorough" {
		return t
	}
	return q
}

func Thorough() bool { return sc.Tier == "thorough" }
func Native() bool   { return true }

// MaxAlloc makes a single allocation beyond n bytes a violation.
func MaxAlloc(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	mu.Lock()
	checkAlloc()
	maxAlloc, allocAt = uint64(n), ms.TotalAlloc
	mu.Unlock()
}

// MaxSteps bounds the instructions executed from here on.
func MaxSteps(n int) {}

// Preemptions bounds the context switches at points where a goroutine could go on.
func Preemptions(n int) {}

// MapOrder: maps up to n entries are iterated in every order.
func MapOrder(n int) {}

// RaceDetect turns on the happens-before race detector.
func RaceDetect() {}

func Option(name string, x int) {}

// ---- concurrency ----

// Yield is a scheduling point.
func Yield() {
	mu.Lock()
	k := jitter.Intn(8)
	mu.Unlock()
	switch {
	case k < 3:
	case k < 6:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(k) * 300 * time.Microsecond)
	}
}

// Abandon ends every other goroutine, signal handler and timer, as the end of
// their process does. Natively they have a process of their own.
func Abandon() {}

// Settle waits until no other goroutine can run and returns how many still exist.
func Settle() int {
	n := 0
	for i := 0; i < 60; i++ {
		time.Sleep(5 * time.Millisecond)
		n = Alive()
		if n == 0 {
			break
		}
	}
	return n
}

// Alive counts the other goroutines.
func Alive() int { return runtime.NumGoroutine() - baseG }

// FireTimers lets every pending timer expire.
func FireTimers() { time.Sleep(20 * time.Millisecond) }

// DeliverSignal sends a signal to the process; false: it is not caught and ends the process.
func DeliverSignal(sig int) bool {
	syscall.Kill(syscall.Getpid(), syscall.Signal(sig))
	time.Sleep(20 * time.Millisecond)
	return true
}

// ---- reflection ----

func StructTag(x any, field, key string) string {
	t := reflect.TypeOf(x)
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	f, ok := t.FieldByName(field)
	if !ok {
		return ""
	}
	return f.Tag.Get(key)
}

// Field is a field of a struct.
type Field struct {
	Name, Tag string
	Value     any
	Hidden    bool // not exported and not embedded
	Struct    bool // a struct or a pointer to one
}

// Fields lists the fields of the struct x or *x.
func Fields(x any) []Field {
	r := reflect.ValueOf(x)
	if r.Kind() == reflect.Pointer {
		r = r.Elem()
	}
	if r.Kind() != reflect.Struct {
		return nil
	}
	var out []Field
	for i := 0; i < r.NumField(); i++ {
		f := r.Type().Field(i)
		fd := Field{Name: f.Name, Tag: string(f.Tag), Hidden: !f.IsExported() && !f.Anonymous}
		if x := r.Field(i); f.IsExported() {
			fd.Value = x.Interface()
			fd.Struct = x.Kind() == reflect.Struct || x.Kind() == reflect.Pointer && x.Elem().Kind() == reflect.Struct
		}
		out = append(out, fd)
	}
	return out
}

// Unsupported gives up: the harness does not model what is needed.
func Unsupported(msg string) { panic("unsupported: " + msg) }

func TypeName(x any) string {
	if x == nil {
		return "nil"
	}
	return reflect.TypeOf(x).String()
}

// TempDir is a scratch directory (a model directory under symbolic execution).
func TempDir() string {
	if tmp == "" {
		d, err := os.MkdirTemp("", "verif-")
		if err != nil {
			panic(err)
		}
		tmp, _ = filepath.Abs(d)
	}
	return tmp
}

func Log(args ...any) {
	if os.Getenv("VERIF_LOG") != "" {
		fmt.Fprintln(os.Stderr, args...)
	}
}
