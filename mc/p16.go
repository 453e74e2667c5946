package main

import (
	"fmt"
	"os"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// tooMany checks that types with too many attributes are rejected by the generator of Go code.
func tooMany(env *Env, r *engine.Report) {
	counts := []int{0, 1, 2, 3, 4, 5, 10, 64, 65, 192}
	if r.Thorough() {
		counts = nil
		for i := 0; i < 70; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 126, 127, 128, 129, 192, 193, 256)
	}
	r.Explore("too many attributes", fmt.Sprintf("structs and classes with as many attributes as supported plus %v: rejected except for zero", counts), func(c *engine.Ctx) {
		kind := engine.Pick(c, "kind", []TypeKind{Struct, Class})
		extra := engine.Pick(c, "extra", counts)
		position := c.Choose("position", 2)
		c.Commit()
		limit := 64
		if kind == Class {
			limit = 61
		}
		list := []*Type{models.Wide(kind, limit+extra), models.Wide(kind, 1)}
		if position == 1 {
			list[0], list[1] = list[1], list[0]
		}
		model := env.Dir()
		defer os.RemoveAll(model)
		writeFiles(model, Files(models.WideModel(list...).Files()))
		dir := env.Module()
		defer os.RemoveAll(dir)
		code, out := env.Tool(dir, "generate", "go", "--model", model, "--base", Base, "--output", dir)
		if extra == 0 {
			c.Check(code == 0, "%d attributes are rejected: %s", limit, toolLog(out))
		} else {
			c.Check(code > 0, "%s with %d attributes isn't rejected, exit code is %d", KindNames[kind], limit+extra, code)
		}
		c.Outcome(fmt.Sprint(kind, extra, code))
	})
}
