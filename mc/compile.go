package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	. "verif/lib/spec"
)

// Unit is a set of versions whose generated code should compile. The first version is the only one of
// its service. The other ones are in other services, named `unita`, `unitb`, etc plus the number of
// the unit.
type Unit struct {
	Label string
	V     *Version
	More  []func(number string) *Service
}

// Compile generates the code of all the units, each in a different service, and compiles them. It returns
// the problems indexed by unit, and a general problem.
func (e *Env) Compile(units []*Unit) (problems map[int]string, general string) {
	problems = map[int]string{}
	m := &Model{}
	for i, u := range units {
		number := fmt.Sprintf("%04d", i)
		if u.V != nil {
			m.Services = append(m.Services, &Service{Name: N("unit" + number), Versions: []*Version{u.V}})
		}
		for _, f := range u.More {
			m.Services = append(m.Services, f(number))
		}
	}
	m.Link()
	dir, problem := e.GenerateGo(Files(m.Files()))
	defer os.RemoveAll(dir)
	if problem != "" {
		return nil, problem
	}
	code, out := e.run(dir, nil, 800*time.Second, "go", "build", "-gcflags=-e -N -l", "./...")
	if code == 0 {
		return
	}
	// Errors are grouped by package:
	header := regexp.MustCompile(`^# example.com/gen/unit[a-z]*(\d+)`)
	current := -1
	lines := map[int][]string{}
	for _, line := range strings.Split(out, "\n") {
		if m := header.FindStringSubmatch(line); m != nil {
			current, _ = strconv.Atoi(m[1])
			continue
		}
		if strings.TrimSpace(line) != "" {
			lines[current] = append(lines[current], line)
		}
	}
	for i, l := range lines {
		sort.Strings(l)
		if len(l) > 8 {
			l = l[:8]
		}
		problems[i] = strings.Join(l, "\n")
	}
	if text, ok := problems[-1]; ok || len(problems) == 0 {
		general = "compilation failed: " + text + tail(out, 500)
	}
	return
}

// BuildPackages generates and compiles the code of a model.
func (e *Env) BuildPackages(m *Model) (dir, problem string) {
	dir, problem = e.GenerateGo(Files(m.Files()))
	if problem != "" {
		return
	}
	code, out := e.run(dir, nil, 800*time.Second, "go", "build", "-gcflags=-e -N -l", "./...")
	if code != 0 {
		problem = "generated code doesn't compile: " + tail(out, 2000)
	}
	return
}
