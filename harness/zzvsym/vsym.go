// Package vsym is the vocabulary of the verification harnesses. Under the
// symbolic engine every function here is an intrinsic; compiled natively it
// reads the inputs of a recorded counterexample (or path sample) so that the
// same harness can be replayed against the real code.
package vsym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Input struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Val  string   `json:"val"`
	Bs   []uint64 `json:"bs"`
}

type Case struct {
	Harness string   `json:"harness"`
	Inputs  []Input  `json:"inputs"`
	Obs     []string `json:"obs"`
	Repeat  int      `json:"repeat"`
}

type File struct {
	Tier  string `json:"tier"`
	Cases []Case `json:"cases"`
}

type CaseResult struct {
	Outcome string   `json:"outcome"` // ok, assert, panic, diverged, mismatch
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

type divergence struct{ msg string }
type assertFail struct{ msg string }

var (
	mu       sync.Mutex
	cur      *Case
	pos      int
	obs      []string
	tier     = "quick"
	registry = map[string]func(){}
	failed   string
)

func Register(name string, f func()) { registry[name] = f }

func next(name string, kinds ...string) *Input {
	mu.Lock()
	defer mu.Unlock()
	if cur == nil || pos >= len(cur.Inputs) {
		panic(divergence{"no recorded input for " + name})
	}
	in := &cur.Inputs[pos]
	pos++
	if in.Name != name {
		panic(divergence{"expected input " + in.Name + ", asked for " + name})
	}
	return in
}

func geti(name string) int64 {
	in := next(name)
	v, err := strconv.ParseInt(in.Val, 10, 64)
	if err != nil {
		u, err2 := strconv.ParseUint(in.Val, 10, 64)
		if err2 != nil {
			panic(divergence{err.Error()})
		}
		return int64(u)
	}
	return v
}

func Int(name string) int                       { return int(geti(name)) }
func Int64(name string) int64                   { return geti(name) }
func Int32(name string) int32                   { return int32(geti(name)) }
func Int16(name string) int16                   { return int16(geti(name)) }
func Rune(name string) rune                     { return rune(geti(name)) }
func Uint64(name string) uint64                 { return uint64(geti(name)) }
func Byte(name string) byte                     { return byte(geti(name)) }
func Bool(name string) bool                     { return geti(name) != 0 }
func IntRange(name string, lo, hi int) int      { return int(geti(name)) }
func Int64Range(name string, lo, hi int64) int64 { return geti(name) }
func Float64(name string) float64 {
	in := next(name)
	u, err := strconv.ParseUint(in.Val, 10, 64)
	if err != nil {
		panic(divergence{err.Error()})
	}
	return math.Float64frombits(u)
}
func Choice(name string, n int) int { return int(geti(name)) }
func Bytes(name string, n int) []byte {
	in := next(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in.Bs[i])
	}
	return b
}
func String(name string, n int) string { return string(Bytes(name, n)) }
func Pick(name string, opts ...string) string {
	return opts[geti(name)]
}

func Assume(c bool) {
	if !c {
		panic(divergence{"assumption does not hold"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		if failed == "" {
			failed = msg
		}
		mu.Unlock()
		panic(assertFail{msg})
	}
}
func Fail(msg string)     { Assert(false, msg) }
func Reach(label string)  {}
func Symbolic() bool      { return false }
func MapOrder(n int)      {}
func MapOrderAll(n int)   {}
func Preempt(n int)       {}
func Timers(n int)        {}
func Simulate()           {}
func FreezeClock()        {}
func Slow()               {}
func MaxSteps(n int)      {}
func SetClock(unix int64) {}
func Concrete(v int) int  { return v }
func Tier() string        { return tier }
func Bound(name string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

func Observe(label string, v interface{}) {
	mu.Lock()
	obs = append(obs, label+"="+render(reflect.ValueOf(v)))
	mu.Unlock()
}

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int64:
		return fmt.Sprint(uint64(v.Int()))
	case reflect.Int8:
		return fmt.Sprint(uint8(v.Int()))
	case reflect.Int16:
		return fmt.Sprint(uint16(v.Int()))
	case reflect.Int32:
		return fmt.Sprint(uint32(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float64, reflect.Float32:
		return fmt.Sprintf("f%v", v.Float())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice, reflect.Array:
		parts := make([]string, v.Len())
		for i := range parts {
			parts[i] = render(v.Index(i))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		parts := make([]string, v.NumField())
		for i := range parts {
			parts[i] = render(v.Field(i))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.Interface:
		return render(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "ptr"
	}
	return "?"
}

func sameObs(a, b string) bool {
	if a == b {
		return true
	}
	// "*" stands for text the engine does not model
	if strings.HasSuffix(a, "=*") {
		return true
	}
	return false
}

func runCase(c *Case) (res CaseResult) {
	mu.Lock()
	cur, pos, obs, failed = c, 0, nil, ""
	mu.Unlock()
	f := registry[c.Harness]
	if f == nil {
		return CaseResult{Outcome: "diverged", Msg: "unknown harness " + c.Harness}
	}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case divergence:
				res = CaseResult{Outcome: "diverged", Msg: r.msg}
			case assertFail:
				res = CaseResult{Outcome: "assert", Msg: r.msg}
			default:
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				res = CaseResult{Outcome: "panic", Msg: fmt.Sprintf("%v\n%s", r, buf)}
			}
		}
	}()
	f()
	res = CaseResult{Outcome: "ok", Obs: obs}
	if failed != "" {
		return CaseResult{Outcome: "assert", Msg: failed}
	}
	if c.Obs != nil {
		if len(c.Obs) != len(obs) {
			res.Outcome, res.Msg = "mismatch", fmt.Sprintf("%d observations, engine has %d", len(obs), len(c.Obs))
		} else {
			for i := range obs {
				if !sameObs(c.Obs[i], obs[i]) {
					res.Outcome, res.Msg = "mismatch", "engine "+c.Obs[i]+" native "+obs[i]
					break
				}
			}
		}
	}
	return res
}

// Main replays the cases in $VSYM_CASES and writes results to $VSYM_RESULTS.
func Main() {
	b, err := os.ReadFile(os.Getenv("VSYM_CASES"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f File
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if f.Tier != "" {
		tier = f.Tier
	}
	var out []CaseResult
	for i := range f.Cases {
		c := &f.Cases[i]
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var r CaseResult
		deadline := time.Now().Add(20 * time.Second)
		for k := 0; k < n; k++ {
			r = runCase(c)
			if r.Outcome != "ok" || (k > 0 && time.Now().After(deadline)) {
				break
			}
		}
		out = append(out, r)
	}
	b, _ = json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(os.Getenv("VSYM_RESULTS"), b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}
