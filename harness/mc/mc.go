// Package mc is the exploration framework: it enumerates a bounded space
// completely, in parallel processes, evaluates every item of it, and reports
// states, transitions and traces, or the first violations found.
package mc

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

// Item is one replayable element of the explored space.
type Item struct {
	Kind string   `json:"kind"`
	F    []string `json:"fields"`
}

// Key identifies an item.
func (i Item) Key() string {
	b, _ := json.Marshal(i)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func (i Item) String() string {
	s := i.Kind
	for _, f := range i.F {
		s += fmt.Sprintf(" %q", f)
	}
	return s
}

// Out is the outcome of an item.
type Out struct {
	Diff   string   // difference with the expected behaviour ("" if none)
	Skip   bool     // outside the space (the model does not terminate in budget)
	States []uint64 // states observed (hashes)
	Steps  int      // transitions taken
	Traces int      // traces replayed on the implementation
}

// Check decides a property.
type Check struct {
	ID     string
	Space  string // description of the explored space
	Assume []string
	Enum   func(e *Env)
	Eval   map[string]func(f []string) Out
}

var Checks = map[string]*Check{}

func Register(c *Check) { Checks[c.ID] = c }

// Env is the environment of an enumeration.
type Env struct {
	Thorough bool
	shard, n int
	i        int
	upto     int
	stop     time.Time
	c        *Check
	res      *shardResult
	states   map[uint64]struct{}
	slot     *slot
	phase    *Phase
}

type Phase struct {
	Name  string `json:"name"`
	Items int    `json:"items"`
	Skip  int    `json:"skipped"`
	Ms    int64  `json:"ms"`

	since time.Time
}

type Violation struct {
	Item  Item   `json:"item"`
	Diff  string `json:"diff"`
	Index int    `json:"index"`
	Shard int    `json:"shard"`
	N     int    `json:"shards"`
	Fails int    `json:"failed_of_5"`
	How   string `json:"reproduced"`
	Prop  string `json:"property"`
}

type shardResult struct {
	Phases     []*Phase    `json:"phases"`
	Items      int         `json:"items"`
	Steps      int         `json:"steps"`
	Traces     int         `json:"traces"`
	Complete   bool        `json:"complete"`
	Samples    []string    `json:"samples"`
	Violations []Violation `json:"violations"`
}

type stopEnum struct{}

// Pick chooses a bound by tier.
func (e *Env) Pick(quick, thorough int) int {
	if e.Thorough {
		return thorough
	}
	return quick
}

// Phase starts a named part of the space.
func (e *Env) Phase(name string) {
	e.endPhase()
	defer func() { e.phase.since = time.Now() }()
	for _, p := range e.res.Phases {
		if p.Name == name {
			e.phase = p
			return
		}
	}
	e.phase = &Phase{Name: name}
	e.res.Phases = append(e.res.Phases, e.phase)
}

func (e *Env) endPhase() {
	if e.phase != nil {
		e.phase.Ms += time.Since(e.phase.since).Milliseconds()
	}
}

// Mine advances the enumeration by one item and tells whether the item belongs
// to this shard (so that its construction can be skipped otherwise).
func (e *Env) Mine() bool {
	e.i++
	return e.i%e.n == e.shard
}

// Emit evaluates one item of the space.
func (e *Env) Emit(kind string, f ...string) {
	if e.Mine() {
		e.Do(kind, f...)
	}
}

const maxViolations = 4

// Do evaluates an item of this shard.
func (e *Env) Do(kind string, f ...string) {
	if e.upto > 0 && e.i > e.upto {
		panic(stopEnum{})
	}
	if e.res.Items&15 == 0 && time.Now().After(e.stop) {
		e.res.Complete = false
		panic(stopEnum{})
	}
	ev := e.c.Eval[kind]
	if ev == nil {
		panic("no evaluator for " + kind)
	}
	e.slot.set(e.i, kind, f)
	if e.upto > 0 && e.i == e.upto {
		// Replaying: the item that hung, if it hangs again.
		t := time.AfterFunc(aloneLimit, func() {
			fmt.Println("fatal error: no answer within", aloneLimit)
			os.Exit(3)
		})
		defer t.Stop()
	}
	o := ev(f)
	if o.Skip {
		e.phase.Skip++
		return
	}
	e.phase.Items++
	e.res.Items++
	e.res.Steps += o.Steps
	e.res.Traces += o.Traces
	for _, s := range o.States {
		e.states[s] = struct{}{}
	}
	if n := e.phase.Items; n == 1 || n == 100 {
		if len(e.res.Samples) < 40 {
			e.res.Samples = append(e.res.Samples, e.phase.Name+": "+Item{kind, f}.String())
		}
	}
	if o.Diff != "" {
		v := Violation{Item: Item{kind, append([]string{}, f...)}, Diff: o.Diff, Index: e.i, Shard: e.shard, N: e.n, Fails: 1, Prop: e.c.ID}
		for k := 0; k < 4; k++ {
			e.slot.set(e.i, kind, f)
			if ev(f).Diff != "" {
				v.Fails++
			}
		}
		e.res.Violations = append(e.res.Violations, v)
		if e.upto == 0 {
			e.slot.violation(v)
		}
		if len(e.res.Violations) >= maxViolations && e.upto == 0 && !unlimited {
			e.res.Complete = false
			panic(stopEnum{})
		}
	}
}

// Hash of a state (stable across processes).
func Hash(parts ...string) uint64 {
	const p = 1099511628211
	h := uint64(14695981039346656037)
	for _, s := range parts {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * p
		}
		h = (h ^ 0xff) * p
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// Lines splits a text into its non-empty trimmed lines.
func Lines(s string) (out []string) {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return
}
