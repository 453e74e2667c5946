// Command mc decides the properties listed in /verif/properties.jsonl by exhaustive exploration of
// bounded spaces, executing the real code of /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"verif/lib/engine"
)

// Property describes how a property is decided.
type Property struct {
	// Run explores the spaces of the property.
	Run func(env *Env, r *engine.Report)

	// Sharded indicates that the exploration should be distributed in several processes.
	Sharded bool

	// Prepare is executed once, before the shards are started.
	Prepare func(env *Env, r *engine.Report)

	Rule        string
	Assumptions []string
}

var properties = map[string]*Property{}

// Env contains the environment of the checks.
type Env struct {
	Root string // Directory of the verification framework
	Repo string // Directory of the code under test
	Work string // Scratch directory shared by all the processes of the check
	Tmp  string // Scratch directory of this process
	Tier string

	counter int
	mu      sync.Mutex
}

// Dir creates a new scratch directory.
func (e *Env) Dir() string {
	e.mu.Lock()
	e.counter++
	dir := filepath.Join(e.Tmp, fmt.Sprintf("d%d", e.counter))
	e.mu.Unlock()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	return dir
}

func main() {
	var property, tier, work, shard, part string
	flag.StringVar(&property, "property", "", "identifier of the property")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&work, "work", "", "scratch directory")
	flag.StringVar(&shard, "shard", "", "shard, like 1/8")
	flag.StringVar(&part, "part", "", "file where the shard writes its results")
	flag.Parse()
	p := properties[property]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property '%s'\n", property)
		os.Exit(2)
	}
	env := &Env{Root: os.Getenv("VERIF_ROOT"), Repo: os.Getenv("VERIF_REPO"), Work: work, Tier: tier}
	if env.Root == "" {
		env.Root = "/verif"
	}
	if env.Repo == "" {
		env.Repo = "/repo"
	}
	r := engine.NewReport(property, tier)
	if shard != "" {
		fmt.Sscanf(shard, "%d/%d", &r.Shard, &r.Shards)
	}
	env.Tmp = filepath.Join(work, fmt.Sprintf("tmp%d", r.Shard))
	if err := os.MkdirAll(env.Tmp, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	finish := func() {
		if shard == "" {
			os.Exit(r.Finish(env.Root, "model_checking", p.Rule, p.Assumptions))
		}
		data, err := json.Marshal(r.Part())
		if err == nil {
			err = os.WriteFile(part, data, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	r.OnHang = finish
	r.Watch()
	switch {
	case shard != "":
		run(p, env, r)
	case p.Sharded:
		if p.Prepare != nil {
			guard(r, "prepare", func() { p.Prepare(env, r) })
		}
		if len(r.Violations()) == 0 {
			shards(p, env, r)
		}
	default:
		run(p, env, r)
	}
	finish()
}

func run(p *Property, env *Env, r *engine.Report) {
	guard(r, "run", func() { p.Run(env, r) })
}

func guard(r *engine.Report, name string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4000)
			n := runtime.Stack(buf, false)
			r.AddViolation(name, "panic: %v\n%s", x, buf[:n])
		}
	}()
	f()
}

func shards(p *Property, env *Env, r *engine.Report) {
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			part := filepath.Join(env.Work, fmt.Sprintf("part%d.json", i))
			cmd := exec.Command(os.Args[0], "-property", r.Property, "-tier", r.Tier, "-work", env.Work,
				"-shard", fmt.Sprintf("%d/%d", i, n), "-part", part)
			out, err := cmd.CombinedOutput()
			var result engine.Part
			if err == nil {
				var data []byte
				data, err = os.ReadFile(part)
				if err == nil {
					err = json.Unmarshal(data, &result)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				text := string(out)
				if len(text) > 3000 {
					text = text[:1500] + "\n...\n" + text[len(text)-1500:]
				}
				r.AddViolation("process", "process of shard %d failed: %v\n%s", i, err, strings.TrimSpace(text))
				return
			}
			r.Merge(&result)
		}()
	}
	wg.Wait()
}
