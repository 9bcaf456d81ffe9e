// Package nd is the interface between harnesses and the symbolic engine: the
// engine intercepts these functions; the bodies below replay recorded values
// when a harness is run natively.
package nd

import "fmt"

type assumeFailed struct{}

var (
	draws []int64
	pos   int
	fails []string
	obs   [][]byte
	tier  int
	drift bool
)

func next() int64 { return nextOr(0) }

// nextOr returns d where the recorded inputs end.
func nextOr(d int64) int64 {
	if pos >= len(draws) {
		drift = true
		return d
	}
	d = draws[pos]
	pos++
	return d
}

// Byte is an arbitrary byte in [lo, hi].
func Byte(lo, hi byte) byte { return byte(nextOr(int64(lo))) }

// ByteOf is an arbitrary byte of the set.
func ByteOf(set string) byte { return byte(nextOr(int64(set[0]))) }

// Int is an arbitrary integer in [lo, hi] (at most 256 values).
func Int(lo, hi int) int { return int(nextOr(int64(lo))) }

// Bool is an arbitrary boolean.
func Bool() bool { return next() != 0 }

// OneOf is an arbitrary element of opts.
func OneOf(opts ...string) string {
	i := next()
	if i < 0 || int(i) >= len(opts) {
		drift = true
		return ""
	}
	return opts[i]
}

// Choice is an arbitrary integer in [0, n), explored by cases.
func Choice(n int) int { return int(next()) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fails = append(fails, msg)
	}
}

// Cover marks a reachability witness.
func Cover(label string) {}

// Observe records a value compared between engine and native execution.
func Observe(s string) { obs = append(obs, []byte(s)) }

// MapOrder selects the map iteration order used from now on (engine only).
func MapOrder(mode int) {}

// Reinit runs the initialisation of the package under test again, under a map
// iteration order (engine only).
func Reinit(mode int) {}

// Freeze starts, and Unfreeze ends, monitoring of writes to memory that existed
// before; Writes counts them (engine only).
func Freeze()     {}
func Unfreeze()   {}
func Writes() int { return 0 }

// Depth is how deep calls went since the last call of Depth (engine only).
func Depth() int { return 0 }

// Tier is 0 for the quick and 1 for the thorough exploration.
func Tier() int { return tier }

// Symbolic reports whether the engine is executing the harness.
func Symbolic() bool { return false }

// Result of a native run.
type Result struct {
	Outcome string   `json:"outcome"` // ok, assert, panic, assume, drift
	Msg     string   `json:"msg"`
	Obs     [][]byte `json:"obs"`
}

// Run executes a harness natively on recorded values.
func Run(f func(), d []int64, t int) (r Result) {
	draws, pos, fails, obs, tier, drift = d, 0, nil, nil, t, false
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(assumeFailed); ok {
				r = Result{Outcome: "assume"}
			} else {
				r = Result{Outcome: "panic", Msg: fmt.Sprint(e)}
			}
			if len(fails) > 0 {
				r = Result{Outcome: "assert", Msg: fails[0]}
			}
		}
		r.Obs = obs
		if drift && r.Outcome == "ok" {
			r.Outcome = "drift"
		}
	}()
	f()
	if len(fails) > 0 {
		return Result{Outcome: "assert", Msg: fails[0]}
	}
	return Result{Outcome: "ok"}
}
