package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// hasCycle checks if there is a cycle of locators reachable from the root, using the classic depth
// first search with colors.
func hasCycle(v *Version) bool {
	const (
		white = iota
		grey
		black
	)
	color := map[string]int{}
	var visit func(name string) bool
	visit = func(name string) bool {
		switch color[name] {
		case grey:
			return true
		case black:
			return false
		}
		color[name] = grey
		for _, l := range v.Resource(name).Locators {
			if visit(l.Target) {
				return true
			}
		}
		color[name] = black
		return false
	}
	return v.Root() != nil && visit("root")
}

// allPaths calculates all the sequences of locators that start in the root.
func allPaths(v *Version) []string {
	var result []string
	var visit func(prefix string, r *Resource)
	visit = func(prefix string, r *Resource) {
		for _, l := range r.Locators {
			path := fmt.Sprintf("%s/%s.%s", prefix, r.Name, l.Name)
			result = append(result, path)
			visit(path, v.Resource(l.Target))
		}
	}
	visit("", v.Root())
	sort.Strings(result)
	return result
}

func graphVersion(n int, edges func(from, to int) int) *Version {
	v := &Version{}
	name := func(i int) string {
		if i == 0 {
			return "root"
		}
		return "node_" + nth(i)
	}
	for i := 0; i < n; i++ {
		r := &Resource{Name: N(name(i))}
		for j := 0; j < n; j++ {
			for k := 0; k < edges(i, j); k++ {
				r.Locators = append(r.Locators, mkLoc(fmt.Sprintf("to_%s_%s", nth(j), []string{"one", "two"}[k]), name(j), k == 1))
			}
		}
		v.Resources = append(v.Resources, r)
	}
	return v
}

// checkGraph compares the decision of the reader, and the paths, with the reference.
func checkGraph(env *Env, c *engine.Ctx, m *Model) {
	files := Files(m.Files())
	res := env.Read(files)
	cyclic := false
	for _, s := range m.Services {
		for _, v := range s.Versions {
			cyclic = cyclic || hasCycle(v)
		}
	}
	c.Eval(1)
	switch {
	case res.Panic != "":
		c.Fail("panic: %s\n%s", res.Panic, showFiles(files))
	case cyclic && res.Err == nil:
		c.Fail("cyclic model should be rejected\n%s", showFiles(files))
	case cyclic && !strings.Contains(res.Log, "loop"):
		c.Fail("cyclic model rejected without mentioning the loop: %s\n%s", res.Log, showFiles(files))
	case !cyclic && !res.OK():
		c.Fail("model without cycles should be accepted but it was %s\n%s", res, showFiles(files))
	}
	if cyclic {
		c.Outcome("cycle")
		return
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			var got []string
			version := res.Model.FindService(names.ParseUsingSeparator(s.Name.String(), "_")).FindVersion(names.ParseUsingSeparator(v.Name.String(), "_"))
			if version == nil {
				c.Fail("version %s not found\n%s", v.Key(), showFiles(files))
			}
			for _, path := range version.Paths() {
				text := ""
				for _, l := range path {
					text += fmt.Sprintf("/%s.%s", l.Owner().Name(), l.Name())
				}
				got = append(got, text)
			}
			sort.Strings(got)
			c.Eval(1)
			if d := Diff(got, allPaths(v)); d != "" {
				c.Fail("paths of %s: %s\n%s", v.Key(), d, showFiles(files))
			}
			c.Outcome(strings.Join(got, " "))
		}
	}
}

func init() {
	properties["P07"] = &Property{
		Sharded: true,
		Rule:    "one execution per directed graph of resources; the decision is compared with a depth first search with colors and the paths with a direct enumeration; outcomes are the distinct sets of paths, plus the cyclic graphs",
		Assumptions: []string{
			"graphs with more resources than the bound behave like the explored ones",
		},
		Run: func(env *Env, r *engine.Report) {
			r.Explore("all graphs", "all the directed graphs (with self loops and unreachable parts) of four resources", func(c *engine.Ctx) {
				var edges [4][4]int
				for i := range edges {
					for j := range edges[i] {
						edges[i][j] = c.Choose(fmt.Sprintf("%d-%d", i, j), 2)
					}
				}
				c.Commit()
				checkGraph(env, c, mkModel("my_service", "v1", graphVersion(4, func(i, j int) int { return edges[i][j] })))
			})
			r.Explore("multigraphs", "all the directed graphs of three resources (quick: without locators of the first two to themselves) with up to two locators, one of them variable, between each pair", func(c *engine.Ctx) {
				var edges [3][3]int
				for i := range edges {
					for j := range edges[i] {
						if i == j && i < 2 && !r.Thorough() {
							continue
						}
						edges[i][j] = c.Choose(fmt.Sprintf("%d-%d", i, j), 3)
					}
				}
				c.Commit()
				checkGraph(env, c, mkModel("my_service", "v1", graphVersion(3, func(i, j int) int { return edges[i][j] })))
			})
			n := 5
			if r.Thorough() {
				n = 6
			}
			r.Explore("deep graphs", fmt.Sprintf("all the acyclic graphs of %d ordered resources with no or one additional backward locator", n), func(c *engine.Ctx) {
				edges := make([][]int, n)
				var back [][2]int
				for i := range edges {
					edges[i] = make([]int, n)
					for j := 0; j <= i; j++ {
						back = append(back, [2]int{i, j})
					}
				}
				k := c.Choose("back", len(back)+1)
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						edges[i][j] = c.Choose(fmt.Sprintf("%d-%d", i, j), 2)
					}
				}
				c.Commit()
				if k > 0 {
					edges[back[k-1][0]][back[k-1][1]] = 1
				}
				checkGraph(env, c, mkModel("my_service", "v1", graphVersion(n, func(i, j int) int { return edges[i][j] })))
			})
			r.Explore("chains", "chains of up to 40 resources, with fixed or variable locators, with and without a locator from the last one (or from the one before) to each of them, declared in direct and reverse order", func(c *engine.Ctx) {
				n := engine.Pick(c, "length", []int{6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 26, 33, 40})
				from := n - 1 - c.Choose("from", 2)
				to := c.Choose("to", n+1)
				reverse := c.Flag("reverse")
				skip := c.Flag("skip")
				c.Commit()
				v := graphVersion(n, func(i, j int) int {
					switch {
					case j == i+1, i == from && j == to:
						return 1
					case skip && i == n/2 && j == i+2:
						return 2
					}
					return 0
				})
				if reverse {
					slices.Reverse(v.Resources)
				}
				checkGraph(env, c, mkModel("my_service", "v1", v))
			})
			r.Explore("stars", "up to 40 resources, all of them targets of the root, with and without a locator from each of them to itself, to the root or to the next one", func(c *engine.Ctx) {
				n := engine.Pick(c, "size", []int{6, 9, 12, 13, 17, 27, 40})
				from := 1 + c.Choose("from", n-1)
				kind := c.Choose("kind", 4)
				c.Commit()
				checkGraph(env, c, mkModel("my_service", "v1", graphVersion(n, func(i, j int) int {
					switch {
					case i == 0 && j > 0:
						return 1
					case i == from && (kind == 1 && j == i || kind == 2 && j == 0 || kind == 3 && j == i+1):
						return 1
					}
					return 0
				})))
			})
			r.Explore("several versions", "all the graphs of two resources in two versions of the same or of different services", func(c *engine.Ctx) {
				same := c.Flag("same service")
				var vs []*Version
				for k := 0; k < 2; k++ {
					var edges [2][2]int
					for i := range edges {
						for j := range edges[i] {
							edges[i][j] = c.Choose(fmt.Sprintf("%d-%d", i, j), 2)
						}
					}
					v := graphVersion(2, func(i, j int) int { return edges[i][j] })
					v.Name = N("v1")
					vs = append(vs, v)
				}
				c.Commit()
				m := &Model{}
				if same {
					vs[1].Name = N("v2")
					m.Services = []*Service{{Name: N("alpha"), Versions: vs}}
				} else {
					m.Services = []*Service{{Name: N("alpha"), Versions: vs[:1]}, {Name: N("beta"), Versions: vs[1:]}}
				}
				checkGraph(env, c, m.Link())
			})
		},
	}
}
