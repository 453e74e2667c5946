// Package engine is a small explicit-state / stateless model checking engine. A scenario is a
// deterministic function whose only source of nondeterminism is Ctx.Choose. Explore enumerates, in
// depth first order, every sequence of choices, so every execution of the scenario within its bounds
// is visited exactly once. There is no sampling anywhere.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation describes an execution that violates the property.
type Violation struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels,omitempty"`
	Message  string   `json:"message"`
	Known    string   `json:"known,omitempty"`
}

// ScenarioStats contains the coverage of a scenario.
type ScenarioStats struct {
	Name        string `json:"name"`
	Executions  int    `json:"executions"`
	Transitions int    `json:"transitions"`
	States      int    `json:"states"`
	Exhaustive  bool   `json:"exhaustive"`
	Bounds      string `json:"bounds,omitempty"`
}

// Report accumulates the result of checking one property.
type Report struct {
	Property string
	Tier     string

	mu         sync.Mutex
	start      time.Time
	deadline   time.Time
	scenarios  map[string]*ScenarioStats
	order      []string
	states     map[string]map[uint64]struct{}
	violations []Violation
	samples    []string
	outcomes   map[uint64]struct{}
	evals      int

	Shard, Shards int

	// OnHang, if set, is called when an execution doesn't terminate or uses an unbounded amount of
	// memory. It should write the results and exit the process.
	OnHang func()
	began  atomic.Int64
	doing  atomic.Pointer[Ctx]
}

// Limits of one execution. They are orders of magnitude larger than what the executions need.
const (
	HangLimit   = 150 * time.Second
	MemoryLimit = 6 << 30
)

// Watch starts the goroutine that detects executions that don't terminate.
func (r *Report) Watch() {
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(250 * time.Millisecond)
			metrics.Read(sample)
			began := r.began.Load()
			if began == 0 {
				continue
			}
			elapsed := time.Since(time.Unix(0, began))
			memory := sample[0].Value.Uint64()
			if elapsed < HangLimit && memory < MemoryLimit {
				continue
			}
			text := fmt.Sprintf("execution doesn't terminate: running for %s, using %d MiB", elapsed.Round(time.Second), memory>>20)
			scenario := "watchdog"
			if c := r.doing.Load(); c != nil {
				scenario = c.scenario
				text += fmt.Sprintf(" (choices %v)", c.prefix)
			}
			r.AddViolation(scenario, "%s", text)
			if r.OnHang != nil {
				r.OnHang()
			}
			os.Exit(2)
		}
	}()
}

// Part is the serialised form of a report, used to combine the results of several processes.
type Part struct {
	Scenarios  []*ScenarioStats `json:"scenarios"`
	Violations []Violation      `json:"violations"`
	Samples    []string         `json:"samples"`
	Outcomes   []uint64         `json:"outcomes"`
	Evals      int              `json:"evals"`
	Exhaustive bool             `json:"exhaustive"`
}

// MaxViolations is the number of violations after which exploration stops.
const MaxViolations = 200

// NewReport creates a report.
func NewReport(property, tier string) *Report {
	r := &Report{
		Property:  property,
		Tier:      tier,
		start:     time.Now(),
		scenarios: map[string]*ScenarioStats{},
		states:    map[string]map[uint64]struct{}{},
		outcomes:  map[uint64]struct{}{},
		Shards:    1,
	}
	limit := 660 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	if text := os.Getenv("VERIF_DEADLINE"); text != "" {
		n, err := strconv.Atoi(text)
		if err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(limit)
	return r
}

// Thorough returns true if the thorough tier was requested.
func (r *Report) Thorough() bool {
	return r.Tier == "thorough"
}

// Ctx is the context of one execution.
type Ctx struct {
	report   *Report
	scenario string
	prefix   []int
	limits   []int
	labels   []string
	pos      int
	steps    int
	index    int
	skipped  bool
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	evals    int
}

type stop struct {
	skip    bool
	message string
	known   string
}

// Choose returns a number between 0 and n-1. All of them will be explored.
func (c *Ctx) Choose(label string, n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("choice '%s' without alternatives", label))
	}
	if c.pos == len(c.prefix) {
		c.prefix = append(c.prefix, 0)
		c.limits = append(c.limits, n)
		c.labels = append(c.labels, label)
	} else {
		c.limits[c.pos] = n
		c.labels[c.pos] = label
	}
	v := c.prefix[c.pos]
	if v >= n {
		panic(fmt.Sprintf("choice '%s' isn't deterministic", label))
	}
	c.pos++
	c.steps++
	return v
}

// Pick chooses one of the given values.
func Pick[T any](c *Ctx, label string, values []T) T {
	return values[c.Choose(label, len(values))]
}

// Flag chooses a boolean.
func (c *Ctx) Flag(label string) bool {
	return c.Choose(label, 2) == 1
}

// Commit should be called when all the choices of an execution have been made and before doing any
// real work. It discards executions that belong to other shards.
func (c *Ctx) Commit() {
	if c.report.Shards > 1 && c.index%c.report.Shards != c.report.Shard {
		panic(stop{skip: true})
	}
}

// Partition is the alternative to Commit for executions whose choices depend on what they do: it
// discards the executions that belong to other shards according to the given key, which should depend
// only on the scenario and on the choices made before.
func (c *Ctx) Partition(key int) {
	if c.report.Shards > 1 && key%c.report.Shards != c.report.Shard {
		panic(stop{skip: true})
	}
}

// Skip abandons this execution because the combination of choices isn't meaningful.
func (c *Ctx) Skip() {
	panic(stop{skip: true})
}

// Step counts transitions of the system under test.
func (c *Ctx) Step(n int) {
	c.steps += n
}

// State records an abstract state that has been visited.
func (c *Ctx) State(s string) {
	c.states[hash(s)] = struct{}{}
}

// Outcome records an observed outcome; used to show that the exploration isn't vacuous.
func (c *Ctx) Outcome(s string) {
	c.outcomes[hash(c.scenario+"|"+s)] = struct{}{}
}

// Eval counts evaluations of the property.
func (c *Ctx) Eval(n int) {
	c.evals += n
}

// Fail ends the execution reporting a violation.
func (c *Ctx) Fail(format string, args ...any) {
	panic(stop{message: fmt.Sprintf(format, args...)})
}

// Known ends the execution reporting a violation that carries an identifier that can be matched with
// the list of known findings.
func (c *Ctx) Known(id string, format string, args ...any) {
	panic(stop{message: fmt.Sprintf(format, args...), known: id})
}

// Check fails if the condition isn't true.
func (c *Ctx) Check(ok bool, format string, args ...any) {
	c.evals++
	if !ok {
		c.Fail(format, args...)
	}
}

// Equal fails if the texts are different.
func (c *Ctx) Equal(what string, got, want any) {
	c.evals++
	switch g := got.(type) {
	case string:
		if w, ok := want.(string); ok && g == w {
			return
		}
	case bool:
		if w, ok := want.(bool); ok && g == w {
			return
		}
	case int:
		if w, ok := want.(int); ok && g == w {
			return
		}
	}
	g := fmt.Sprintf("%#v", got)
	w := fmt.Sprintf("%#v", want)
	if g != w {
		c.Fail("%s: got %s but expected %s", what, g, w)
	}
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Explore enumerates all the executions of the scenario.
func (r *Report) Explore(name string, bounds string, f func(c *Ctx)) {
	stats := &ScenarioStats{Name: name, Bounds: bounds, Exhaustive: true}
	states := map[uint64]struct{}{}
	outcomes := map[uint64]struct{}{}
	evals := 0
	var violations []Violation
	var sample []string
	c := &Ctx{report: r, scenario: name}
	var prefix, limits []int
	var labels []string
	seen := map[string]bool{}
	index := 0
	nodes := 0
	for {
		// Number of choices that are shared with the previous execution, so that each node of
		// the tree of choices is counted only once:
		fresh := 0
		if len(prefix) > 0 {
			fresh = len(prefix) - 1
		}
		c = &Ctx{
			report: r, scenario: name, prefix: prefix, limits: limits, labels: labels,
			states: states, outcomes: outcomes, index: index,
		}
		message, known, failed, skipped := r.runOne(c, f)
		index++
		if !skipped {
			stats.Executions++
			stats.Transitions += c.steps
			if c.pos > fresh {
				nodes += c.pos - fresh
			}
			nodes++
			evals += c.evals
			if stats.Executions == 1 || stats.Executions == 1000 {
				sample = append(sample, fmt.Sprintf("%s %s", name, describe(c)))
			}
		}
		if failed && known != "" && seen[known] {
			failed = false
		}
		if failed {
			seen[known] = true
			violations = append(violations, Violation{
				Scenario: name,
				Choices:  append([]int{}, c.prefix[:c.pos]...),
				Labels:   append([]string{}, c.labels[:c.pos]...),
				Message:  message,
				Known:    known,
			})
			unknown := 0
			for _, v := range violations {
				if v.Known == "" {
					unknown++
				}
			}
			if unknown >= 5 || len(violations) >= MaxViolations {
				stats.Exhaustive = false
				break
			}
		}

		// Backtrack:
		prefix = c.prefix[:c.pos]
		limits = c.limits[:c.pos]
		labels = c.labels[:c.pos]
		for len(prefix) > 0 && prefix[len(prefix)-1]+1 >= limits[len(prefix)-1] {
			prefix = prefix[:len(prefix)-1]
			limits = limits[:len(limits)-1]
			labels = labels[:len(labels)-1]
		}
		if len(prefix) == 0 {
			break
		}
		prefix[len(prefix)-1]++

		if time.Now().After(r.deadline) {
			stats.Exhaustive = false
			break
		}
	}
	stats.States = len(states)
	if stats.States == 0 {
		stats.States = nodes
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.scenarios[name] = stats
	r.order = append(r.order, name)
	r.violations = append(r.violations, violations...)
	r.samples = append(r.samples, sample...)
	r.evals += evals
	for k := range outcomes {
		r.outcomes[k] = struct{}{}
	}
}

func describe(c *Ctx) string {
	var parts []string
	for i := 0; i < c.pos; i++ {
		parts = append(parts, fmt.Sprintf("%s=%d", c.labels[i], c.prefix[i]))
	}
	return strings.Join(parts, " ")
}

func (r *Report) runOne(c *Ctx, f func(c *Ctx)) (message, known string, failed, skipped bool) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				skipped = s.skip
				if !s.skip {
					failed = true
					message = s.message
					known = s.known
				}
				return
			}
			if e, ok := x.(runtime.Error); ok {
				failed = true
				message = fmt.Sprintf("panic: %v\n%s", e, trim(debug.Stack()))
				return
			}
			failed = true
			message = fmt.Sprintf("panic: %v\n%s", x, trim(debug.Stack()))
		}
	}()
	r.doing.Store(c)
	r.began.Store(time.Now().UnixNano())
	defer r.began.Store(0)
	f(c)
	return
}

func trim(stack []byte) string {
	s := string(stack)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Parallel runs the given functions in parallel.
func (r *Report) Parallel(fs ...func()) {
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f()
		}()
	}
	wg.Wait()
}

// AddViolation adds a violation that wasn't found by the explorer.
func (r *Report) AddViolation(scenario, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violations = append(r.violations, Violation{
		Scenario: scenario,
		Message:  fmt.Sprintf(format, args...),
	})
}

// Violations returns the violations found so far.
func (r *Report) Violations() []Violation {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]Violation{}, r.violations...)
}

// Part returns the serialisable form of the report.
func (r *Report) Part() *Part {
	p := &Part{Violations: r.violations, Samples: r.samples, Evals: r.evals, Exhaustive: true}
	for _, name := range r.order {
		p.Scenarios = append(p.Scenarios, r.scenarios[name])
		if !r.scenarios[name].Exhaustive {
			p.Exhaustive = false
		}
	}
	for k := range r.outcomes {
		p.Outcomes = append(p.Outcomes, k)
	}
	return p
}

// Merge adds the results of other process.
func (r *Report) Merge(p *Part) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range p.Scenarios {
		old := r.scenarios[s.Name]
		if old == nil {
			copied := *s
			r.scenarios[s.Name] = &copied
			r.order = append(r.order, s.Name)
			continue
		}
		old.Executions += s.Executions
		old.Transitions += s.Transitions
		old.States += s.States
		old.Exhaustive = old.Exhaustive && s.Exhaustive
	}
	r.violations = append(r.violations, p.Violations...)
	r.samples = append(r.samples, p.Samples...)
	r.evals += p.Evals
	for _, k := range p.Outcomes {
		r.outcomes[k] = struct{}{}
	}
}

// Finding is one entry of the file of known findings.
type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

// Finish writes the evidence, prints the result and returns the exit code.
func (r *Report) Finish(root string, level, rule string, assumptions []string) int {
	sort.Strings(r.order)
	var findings []Finding
	if data, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		_ = json.Unmarshal(data, &findings)
	}
	listed := map[string]Finding{}
	for _, f := range findings {
		if f.Property == r.Property && f.Status == "known" {
			listed[f.ID] = f
		}
	}
	var unknown []Violation
	seen := map[string]bool{}
	for _, v := range r.violations {
		if v.Known != "" {
			if f, ok := listed[v.Known]; ok {
				if !seen[v.Known] {
					seen[v.Known] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, f.What)
				}
				continue
			}
		}
		unknown = append(unknown, v)
	}
	executions, transitions, states := 0, 0, 0
	exhaustive := true
	var scenarios []*ScenarioStats
	for _, name := range r.order {
		s := r.scenarios[name]
		scenarios = append(scenarios, s)
		executions += s.Executions
		transitions += s.Transitions
		states += s.States
		exhaustive = exhaustive && s.Exhaustive
	}
	if len(r.samples) > 12 {
		r.samples = r.samples[:12]
	}
	if len(r.samples) == 0 {
		r.samples = []string{"none"}
	}
	evals := r.evals
	evidence := map[string]any{
		"property": r.Property,
		"tier":     r.Tier,
		"seed":     seed(),
		"level":    level,
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   transitions,
			"traces_validated_against_impl": executions,
			"property_evaluations":          evals,
			"distinct_nontrivial":           len(r.outcomes),
			"rule":                          rule,
			"exhaustive":                    exhaustive,
			"samples":                       r.samples,
			"scenarios":                     scenarios,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(unknown),
	}
	dir := filepath.Join(root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(evidence, "", "  ")
	_ = os.WriteFile(filepath.Join(dir, r.Property+".json"), append(data, '\n'), 0o644)
	fmt.Printf("%s tier=%s scenarios=%d executions=%d transitions=%d states=%d evaluations=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		r.Property, r.Tier, len(scenarios), executions, transitions, states, evals, len(r.outcomes),
		exhaustive, time.Since(r.start).Seconds())
	if len(unknown) > 0 {
		replay := filepath.Join(dir, fmt.Sprintf("%s.replay.json", r.Property))
		data, _ := json.MarshalIndent(unknown, "", "  ")
		_ = os.WriteFile(replay, append(data, '\n'), 0o644)
		for i, v := range unknown {
			if i >= 3 {
				fmt.Printf("... and %d more\n", len(unknown)-i)
				break
			}
			m := v.Message
			if len(m) > 900 {
				m = m[:900] + "..."
			}
			fmt.Printf("violation in scenario '%s' choices=%v: %s\n", v.Scenario, v.Choices, m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, replay)
		return 1
	}
	return 0
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}
