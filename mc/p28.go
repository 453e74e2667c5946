package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// mdSection is a section of a page. The title of the rows is the first cell, and the text the last one.
type mdSection struct {
	level int
	title string
	text  []string
	rows  [][2]string
}

// parsePage splits a page in sections.
func parsePage(text string) []*mdSection {
	var list []*mdSection
	var current *mdSection
	header := 0
	for _, line := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(line, "#"):
			level := len(line) - len(strings.TrimLeft(line, "#"))
			current = &mdSection{level: level, title: strings.TrimSpace(line[level:])}
			list = append(list, current)
			header = 0
		case current == nil:
			if strings.TrimSpace(line) != "" {
				current = &mdSection{text: []string{line}}
				list = append(list, current)
			}
		case strings.HasPrefix(line, "|"):
			// The first two lines of a table are the header:
			header++
			if header > 2 {
				cells := strings.Split(strings.Trim(strings.TrimSpace(line), "|"), "|")
				current.rows = append(current.rows, [2]string{strings.TrimSpace(cells[0]), strings.TrimSpace(cells[len(cells)-1])})
			}
		default:
			current.text = append(current.text, line)
		}
	}
	return list
}

// lines returns the description of the page: sections qualified with the titles of the containing ones, the
// text of each of them, and the rows of the tables.
func pageLines(sections []*mdSection) []string {
	var lines []string
	path := []string{}
	for _, s := range sections {
		// Sections inside the page can have any level:
		for len(path) > 0 && s.level <= strings.Count(path[len(path)-1], "#") {
			path = path[:len(path)-1]
		}
		path = append(path, strings.Repeat("#", s.level)+" "+s.title)
		where := ""
		for _, x := range path {
			where += "/" + strings.TrimLeft(x, "# ")
		}
		lines = append(lines, fmt.Sprintf("%s: %q", where, normalize(strings.Join(s.text, "\n"))))
		for _, r := range s.rows {
			lines = append(lines, fmt.Sprintf("%s table %s: %q", where, r[0], normalize(r[1])))
		}
	}
	sort.Strings(lines)
	return lines
}

// normalize removes the blank lines at the beginning and at the end, and the spaces at the end of lines.
func normalize(text string) string {
	var lines []string
	for _, line := range strings.Split(text, "\n") {
		lines = append(lines, strings.TrimRight(line, " \t"))
	}
	return strings.Trim(strings.Join(lines, "\n"), "\n")
}

// summary is the first sentence, in one line.
func summary(doc string) string {
	if i := strings.Index(doc, "."); i >= 0 {
		doc = doc[:i+1]
	}
	return strings.ReplaceAll(doc, "\n", " ")
}

func tagged(n Name) string { return "`" + n.Snake() + "`" }

// pages calculates the expected description of the pages of the version.
func pages(v *Version) map[string][]string {
	result := map[string][]string{}
	section := func(doc string, path ...string) string {
		return fmt.Sprintf("/%s: %q", strings.Join(path, "/"), normalize(doc))
	}
	row := func(doc, name string, path ...string) string {
		return fmt.Sprintf("/%s table %s: %q", strings.Join(path, "/"), name, normalize(summary(doc)))
	}
	for _, r := range v.Resources {
		title := r.Name.Public()
		lines := []string{section(r.Doc, title)}
		for _, m := range r.Methods {
			name := m.Name.Public()
			lines = append(lines, row(m.Doc, name, title))
			sub := name + " - " + m.Verb()
			lines = append(lines, section(m.Doc, title, sub))
			for _, p := range m.Params {
				lines = append(lines, row(p.Doc, tagged(p.Name), title, sub), section(p.Doc, title, sub, p.Name.Public()))
			}
		}
		sort.Strings(lines)
		result[r.Name.Snake()+"_resource.md"] = lines
	}
	for _, t := range v.Types {
		title := t.Name.Public()
		lines := []string{section(t.Doc, title)}
		for _, x := range t.Values {
			lines = append(lines, row(x.Doc, tagged(x.Name), title), section(x.Doc, title, tagged(x.Name)))
		}
		for _, a := range t.Attrs {
			lines = append(lines, row(a.Doc, tagged(a.Name), title), section(a.Doc, title, tagged(a.Name)))
		}
		sort.Strings(lines)
		result[t.Name.Snake()+"_type.md"] = lines
	}
	return result
}

var mdLink = regexp.MustCompile(`\[([^\]]*)\]\(([^)]*)\)`)

func checkDocs(c *engine.Ctx, m *Model, files Files) {
	want := map[string][]string{}
	classes := map[string]bool{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for name, lines := range pages(v) {
				want[name] = lines
			}
			for _, t := range v.Types {
				if t.Kind == Class {
					classes[t.Name.Snake()+"_type.md"] = true
				}
			}
		}
	}
	names := []string{"index.md"}
	for name := range want {
		names = append(names, name)
	}
	sort.Strings(names)
	c.Check(sameLines(files.names(), names), "names of the files aren't correct: %s", Diff(files.names(), names))
	for _, name := range names[:] {
		if name == "index.md" {
			continue
		}
		got := pageLines(parsePage(files[name]))
		if classes[name] {
			var found int
			got, found = withoutPredefined(got)
			expected := 0
			if len(got) > 1 {
				expected = 3
			}
			c.Check(found == expected, "page '%s' of class has %d rows for the predefined attributes instead of %d", name, found, expected)
		}
		c.Check(sameLines(got, want[name]), "page '%s' isn't correct: %s", name, Diff(got, want[name]))
	}

	// The index should have exactly one link for each page:
	var links, expected []string
	for _, x := range mdLink.FindAllStringSubmatch(files["index.md"], -1) {
		links = append(links, x[1]+" "+x[2])
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, r := range v.Resources {
				expected = append(expected, r.Name.Public()+" "+r.Name.Snake()+"_resource.md")
			}
			for _, t := range v.Types {
				expected = append(expected, t.Name.Public()+" "+t.Name.Snake()+"_type.md")
			}
		}
	}
	sort.Strings(links)
	sort.Strings(expected)
	c.Check(sameLines(links, expected), "links of the index aren't correct: %s", Diff(links, expected))
	c.Outcome(fmt.Sprint(want))
}

// withoutPredefined removes from the description of a page of a class the rows of the predefined attributes.
func withoutPredefined(lines []string) (r []string, removed int) {
	for _, line := range lines {
		if !strings.Contains(line, " table `kind`:") && !strings.Contains(line, " table `id`:") && !strings.Contains(line, " table `href`:") {
			r = append(r, line)
		} else {
			removed++
		}
	}
	return
}

// resourceDocs builds a model with a resource with documentation in all the places.
func resourceDocs(c *engine.Ctx) *Model {
	doc := func(what string) string { return docTexts[c.Choose(what, len(docTexts))] }
	r := &Resource{Name: N("my_DNS_things"), Doc: doc("resource")}
	count := c.Choose("methods", 3)
	for i := 0; i < count; i++ {
		m := &Method{Name: N([]string{"update", "do_it_API"}[i]), Doc: doc("method")}
		if i == 0 {
			m.Params = append(m.Params, &Param{Name: N("body"), Type: P("big_thing"), In: true, Out: true, Doc: doc("body")})
		}
		if c.Flag("parameter") {
			m.Params = append(m.Params, &Param{Name: N("external_ID"), Type: P("String"), In: true, Doc: doc("parameter")})
		}
		r.Methods = append(r.Methods, m)
	}
	v := withResources(common(), r)
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

func init() {
	properties["P28"] = &Property{
		Sharded: true,
		Prepare: buildTool,
		Rule:    "one execution per model; the generator runs on the model as read by the real reader, and each generated page is parsed to extract its sections, with their titles and texts, and the names and summaries of its tables, that are compared with the ones calculated from the model by the reference, as well as the links of the index; outcomes are distinct sets of pages",
		Assumptions: []string{
			"names of types and resources are different in all the versions, because pages of all of them go to the same directory",
			"documentation texts have no lines that start with `#`, `|` or a tab",
			"columns of tables other than the first and the last one aren't checked",
		},
		Run: func(env *Env, r *engine.Report) {
			check := func(c *engine.Ctx, m *Model) {
				c.Commit()
				files, problem := env.generateFor("docs", m)
				c.Check(problem == "", "%s", problem)
				checkDocs(c, m, files)
			}
			elems := []string{"Integer", "hue", "big_thing"}
			r.Explore("attributes", fmt.Sprintf("attributes of types %v, all the shapes, annotations and documentation texts, in structs and classes", elems), func(c *engine.Ctx) {
				check(c, typesModel(c, elems, 1))
			})
			pair := []string{"Integer"}
			if env.Tier == "thorough" {
				pair = elems
			}
			r.Explore("pairs of attributes", fmt.Sprintf("pairs of attributes of types %v, all the shapes, annotations and documentation texts, in structs and classes", pair), func(c *engine.Ctx) {
				check(c, typesModel(c, pair, 2))
			})
			r.Explore("enums", "up to three values, all the annotations and documentation texts", func(c *engine.Ctx) {
				check(c, enumModel(c))
			})
			r.Explore("resources", "up to two methods with up to two parameters, all the documentation texts in all the places", func(c *engine.Ctx) {
				check(c, resourceDocs(c))
			})
			r.Explore("methods", "all the kinds of methods, all the subsets of four optional parameters, three positions, with and without documentation", func(c *engine.Ctx) {
				check(c, methodModel(c))
			})
			r.Explore("large models", largeBounds, func(c *engine.Ctx) {
				check(c, largeModel(c, r.Thorough()))
			})
			r.Explore("reference model", "the model used by the checks of the generated code, each of its versions, generated inside the process and with the command line tool", func(c *engine.Ctx) {
				m := models.Main()
				i := c.Choose("service", len(m.Services))
				j := c.Choose("version", len(m.Services[i].Versions))
				m.Services = m.Services[i : i+1]
				m.Services[0].Versions = m.Services[0].Versions[j : j+1]
				m.Link()
				tool := c.Flag("tool")
				if !tool {
					check(c, m)
					return
				}
				c.Commit()
				files, problem := env.toolFiles("docs", m)
				c.Check(problem == "", "%s", problem)
				checkDocs(c, m, files)
			})
		},
	}
}
