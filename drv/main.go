// Command driver decides the properties of the generated code. It is compiled together with the code
// generated from the reference models, inside a scratch module.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"verif/lib/engine"
)

// Property describes how a property is decided.
type Property struct {
	Run         func(r *engine.Report)
	Rule        string
	Assumptions []string
}

var properties = map[string]*Property{}

func main() {
	var property, tier, work, shard, part string
	flag.StringVar(&property, "property", "", "identifier of the property")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&work, "work", "", "scratch directory")
	flag.StringVar(&shard, "shard", "", "shard, like 1/8")
	flag.StringVar(&part, "part", "", "file where the shard writes its results")
	flag.Parse()
	debug.SetGCPercent(400)
	p := properties[property]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property '%s'\n", property)
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	r := engine.NewReport(property, tier)
	if shard != "" {
		fmt.Sscanf(shard, "%d/%d", &r.Shard, &r.Shards)
	}
	finish := func() {
		if shard == "" {
			os.Exit(r.Finish(root, "model_checking", p.Rule, p.Assumptions))
		}
		data, err := json.Marshal(r.Part())
		if err == nil {
			err = os.WriteFile(part, data, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	r.OnHang = finish
	r.Watch()
	if shard != "" {
		guard(r, "run", func() { p.Run(r) })
	} else {
		shards(r, work)
	}
	finish()
}

func guard(r *engine.Report, name string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4000)
			n := runtime.Stack(buf, false)
			r.AddViolation(name, "panic: %v\n%s", x, buf[:n])
		}
	}()
	f()
}

func shards(r *engine.Report, work string) {
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			part := filepath.Join(work, fmt.Sprintf("part%d.json", i))
			cmd := exec.Command(os.Args[0], "-property", r.Property, "-tier", r.Tier, "-work", work,
				"-shard", fmt.Sprintf("%d/%d", i, n), "-part", part)
			out, err := cmd.CombinedOutput()
			var result engine.Part
			if err == nil {
				var data []byte
				data, err = os.ReadFile(part)
				if err == nil {
					err = json.Unmarshal(data, &result)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				text := string(out)
				if len(text) > 3000 {
					text = text[:1500] + "\n...\n" + text[len(text)-1500:]
				}
				r.AddViolation("process", "process of shard %d failed: %v\n%s", i, err, strings.TrimSpace(text))
				return
			}
			r.Merge(&result)
		}()
	}
	wg.Wait()

	// Results obtained before running the driver:
	data, err := os.ReadFile(filepath.Join(work, "before.json"))
	if err == nil {
		var result engine.Part
		err = json.Unmarshal(data, &result)
		if err == nil {
			r.Merge(&result)
		}
	}
	if err != nil && !os.IsNotExist(err) {
		r.AddViolation("process", "can't read the previous results: %v", err)
	}
}
