package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	"verif/lib/engine"
	. "verif/lib/spec"
)

func nameWords(n *names.Name) []string {
	var r []string
	for _, w := range n.Words() {
		r = append(r, w.String())
	}
	return r
}

func init() {
	properties["P08"] = &Property{
		Rule: "one execution per sequence of words, text, set of names or order of insertion; outcomes are the distinct lists of words",
		Assumptions: []string{
			"identifiers are ASCII, as the grammar requires; two consecutive initialisms, or an initialism followed by a one letter word or by a two letter word that ends in `s`, can't be distinguished in camel case and are out of scope",
		},
		Run: func(env *Env, r *engine.Report) {
			depth := 5
			if r.Thorough() {
				depth = 6
			}
			words := []string{"ab", "abc", "pools", "x", "ID", "CPU", "IDs", "CPUs", "X509", "ss"}
			r.Explore("words", fmt.Sprintf("all the sequences of up to %d words taken from %v that can be represented in camel case", depth, words), func(c *engine.Ctx) {
				var name Name
				for len(name) < depth {
					options := []string{""}
					for _, w := range words {
						last := ""
						if len(name) > 0 {
							last = name[len(name)-1]
						}
						switch {
						case Initialism(last) && !strings.HasSuffix(last, "s") && (Initialism(w) || w == "x" || w == "ss"):
							continue // Can't be distinguished
						case last == "x":
							continue // One letter words only at the end
						}
						options = append(options, w)
					}
					if len(name) == 0 {
						options = options[1:]
					}
					w := engine.Pick(c, "word", options)
					if w == "" {
						break
					}
					name = append(name, w)
				}
				text := name.Public()
				got := names.ParseUsingCase(text)
				c.Equal("words of "+text, nameWords(got), []string(name))
				for i, w := range got.Words() {
					c.Equal("initialism "+text, w.Initialism(), Initialism(name[i]))
				}
				c.Equal("camel of "+text, got.Camel(), text)
				c.Equal("text of "+text, got.Text(), text)
				c.Equal("snake of "+text, got.Snake(), name.Snake())
				c.Equal("string of "+text, got.String(), name.String())
				c.Equal("upper of "+text, got.UpperJoined("-"), strings.ToUpper(strings.Join(name, "-")))
				c.Equal("lower of "+text, got.LowerJoined(""), strings.ToLower(strings.Join(name, "")))
				again := names.ParseUsingSeparator(got.Snake(), "_")
				c.Equal("snake again "+text, again.Snake(), name.Snake())
				c.Equal("snake words "+text, len(again.Words()), len(name))
				c.Check(got.Equals(names.ParseUsingCase(text)), "name %s isn't equal to itself", text)
				c.Equal("compare "+text, names.Compare(got, names.ParseUsingCase(text)), 0)
				c.Outcome(name.String())
			})
			r.Explore("long names", "names of up to 40 words of up to 60 characters, all of them plain or with an initialism, maybe plural, of up to 20 characters in any position", func(c *engine.Ctx) {
				n := 1 + c.Choose("words", 40)
				length := engine.Pick(c, "length", []int{3, 4, 10, 33, 60})
				kind := c.Choose("initialism", 4)
				at := c.Choose("position", n)
				if kind == 0 && at > 0 {
					c.Skip()
				}
				c.Commit()
				var name Name
				for i := 0; i < n; i++ {
					w := strings.Repeat("xyz", 20)[:length-2] + nth(i)[1:]
					if i == at {
						switch kind {
						case 1:
							w = "ID"
						case 2:
							w = strings.Repeat("XYZW", 5)
						case 3:
							w = strings.Repeat("XYZW", 5)[:length%20+2] + "s"
						}
					}
					name = append(name, w)
				}
				text := name.Public()
				got := names.ParseUsingCase(text)
				c.Equal("words of "+text, nameWords(got), []string(name))
				c.Equal("camel of "+text, got.Camel(), text)
				c.Equal("snake of "+text, got.Snake(), name.Snake())
				c.Equal("string of "+text, got.String(), name.String())
				c.Equal("upper of "+text, got.UpperJoined("-"), strings.ToUpper(strings.Join(name, "-")))
				c.Equal("lower of "+text, got.LowerJoined(""), strings.ToLower(strings.Join(name, "")))
				c.Equal("words of snake", len(names.ParseUsingSeparator(got.Snake(), "_").Words()), n)
				// Changing the last word changes the comparison:
				other := append(append(Name{}, name[:n-1]...), "zzz")
				x := names.ParseUsingCase(other.Public())
				c.Equal("equality", got.Equals(x), false)
				c.Equal("comparison", names.Compare(got, x) < 0, CompareNames(name, other) < 0)
				c.Equal("reverse comparison", names.Compare(x, got) < 0, CompareNames(other, name) < 0)
				c.Outcome(fmt.Sprint(n, length, kind, at))
			})
			alphabet := []byte("Abs1")
			size := 8
			if r.Thorough() {
				alphabet = []byte("ABbs1_")
			}
			r.Explore("texts", fmt.Sprintf("all the texts of up to %d characters of the alphabet %q", size, alphabet), func(c *engine.Ctx) {
				var text []byte
				for len(text) < size {
					i := c.Choose("char", len(alphabet)+1)
					if i == 0 {
						break
					}
					text = append(text, alphabet[i-1])
				}
				if len(text) == 0 {
					c.Skip()
				}
				got := names.ParseUsingCase(string(text))
				list := nameWords(got)
				c.Check(strings.EqualFold(strings.Join(list, ""), string(text)), "words %v of '%s' don't have the same characters", list, text)
				for i, w := range got.Words() {
					if w.String() == "" {
						c.Fail("empty word in %v of '%s'", list, text)
					}
					if !w.Initialism() && w.String() != strings.ToLower(w.String()) {
						c.Fail("word %d in %v of '%s' isn't lower case", i, list, text)
					}
				}
				c.Equal("text", got.Text(), string(text))
				c.Outcome(strings.Join(list, "_"))
			})
			r.Explore("separators", "all the sequences of up to four words, maybe empty, with three separators", func(c *engine.Ctx) {
				sep := engine.Pick(c, "separator", []string{"_", "-", "::"})
				n := c.Choose("count", 4) + 1
				var list []string
				for i := 0; i < n; i++ {
					list = append(list, engine.Pick(c, "word", []string{"", "a", "bc", "D"}))
				}
				text := strings.Join(list, sep)
				got := names.ParseUsingSeparator(text, sep)
				c.Equal("words of "+text, nameWords(got), list)
				c.Equal("text of "+text, got.Text(), text)
			})
			// Names used to check the order:
			var pool []Name
			vocabulary := []string{"a", "ab", "b", "ID", "list"}
			for _, x := range vocabulary {
				pool = append(pool, Name{x})
				for _, y := range vocabulary {
					pool = append(pool, Name{x, y})
				}
			}
			pool = append(pool, Name{"a", "a", "a"}, Name{"a", "a", "b"}, Name{"b", "list", "a"})
			build := func(n Name) *names.Name {
				var ws []*names.Word
				for _, w := range n {
					if Initialism(w) {
						ws = append(ws, names.NewInitialism(w))
					} else {
						ws = append(ws, names.NewWord(w))
					}
				}
				return names.NewName(ws...)
			}
			sign := func(n int) int {
				switch {
				case n < 0:
					return -1
				case n > 0:
					return 1
				}
				return 0
			}
			r.Explore("total order", fmt.Sprintf("all the triples of %d names", len(pool)), func(c *engine.Ctx) {
				a, b, d := engine.Pick(c, "a", pool), engine.Pick(c, "b", pool), engine.Pick(c, "c", pool)
				x, y, z := build(a), build(b), build(d)
				xy, yz, xz := names.Compare(x, y), names.Compare(y, z), names.Compare(x, z)
				c.Check(sign(xy) == -sign(names.Compare(y, x)), "comparison of %s and %s isn't antisymmetric", a, b)
				c.Check(!(xy <= 0 && yz <= 0) || xz <= 0, "comparison of %s, %s and %s isn't transitive", a, b, d)
				c.Check((xy == 0) == x.Equals(y), "comparison of %s and %s isn't consistent with equality", a, b)
				c.Check(x.Equals(y) == (a.String() == b.String()), "equality of %s and %s", a, b)
				c.Check(names.Names{x, y}.Less(0, 1) == (xy < 0), "less of %s and %s isn't consistent with comparison", a, b)
				c.Check(x.Equals(y) == y.Equals(x), "equality of %s and %s isn't symmetric", a, b)
				c.Check(!x.Equals(nil), "name equals nil")
				c.Equal("order", sign(xy), sign(CompareNames(a, b)))
				cat := names.Cat(x, y, z)
				c.Equal("cat", nameWords(cat), append(append(append([]string{}, a...), b...), d...))
				c.Check(x.Equals(build(a)) && y.Equals(build(b)) && z.Equals(build(d)), "cat modifies the names")
				one := x.Append(y.Words()...)
				two := x.Append(z.Words()...)
				three := x.Insert(z.Words()...)
				c.Equal("append", nameWords(one), append(append([]string{}, a...), b...))
				c.Equal("append", nameWords(two), append(append([]string{}, a...), d...))
				c.Equal("insert", nameWords(three), append(append([]string{}, d...), a...))
				c.Check(x.Equals(build(a)), "append modifies the name")
			})
			count := 6
			if r.Thorough() {
				count = 8
			}
			sorted := []Name{N("ID"), N("a"), N("a_a"), N("a_b"), N("ab"), N("b"), N("b_list"), N("c")}[:count]
			sorting := func(c *engine.Ctx, sorted []Name, perm []int) {
				m := concepts.NewModel()
				s := concepts.NewService()
				s.SetName(build(N("svc")))
				m.AddService(s)
				v := concepts.NewVersion()
				v.SetName(build(N("v1")))
				s.AddVersion(v)
				t := concepts.NewType()
				res := concepts.NewResource()
				meth := concepts.NewMethod()
				for _, i := range perm {
					name := build(sorted[i])
					a := concepts.NewAttribute()
					a.SetName(name)
					t.AddAttribute(a)
					e := concepts.NewEnumValue()
					e.SetName(name)
					t.AddValue(e)
					x := concepts.NewMethod()
					x.SetName(name)
					res.AddMethod(x)
					l := concepts.NewLocator()
					l.SetName(name)
					res.AddLocator(l)
					p := concepts.NewParameter()
					p.SetName(name)
					meth.AddParameter(p)
					typ := concepts.NewType()
					typ.SetName(build(append(N("zz"), sorted[i]...)))
					v.AddType(typ)
					rs := concepts.NewResource()
					rs.SetName(name)
					v.AddResource(rs)
					er := concepts.NewError()
					er.SetName(name)
					v.AddError(er)
					sv := concepts.NewService()
					sv.SetName(build(append(N("zz"), sorted[i]...)))
					m.AddService(sv)
					vr := concepts.NewVersion()
					vr.SetName(build(append(N("zz"), sorted[i]...)))
					s.AddVersion(vr)
				}
				check := func(what, prefix string, got []string, sortable bool) {
					var list []string
					for _, x := range got {
						if prefix == "" || strings.HasPrefix(x, prefix) {
							list = append(list, strings.TrimPrefix(x, prefix))
						}
					}
					var want []string
					for _, n := range sorted {
						want = append(want, n.String())
					}
					if !sortable {
						sort.Strings(list)
						sort.Strings(want)
					}
					c.Equal("order of "+what, list, want)
				}
				var l []string
				for _, x := range t.Attributes() {
					l = append(l, x.Name().String())
				}
				check("attributes", "", l, true)
				l = nil
				for _, x := range t.Values() {
					l = append(l, x.Name().String())
				}
				check("values", "", l, true)
				l = nil
				for _, x := range res.Methods() {
					l = append(l, x.Name().String())
				}
				check("methods", "", l, true)
				l = nil
				for _, x := range res.Locators() {
					l = append(l, x.Name().String())
				}
				check("locators", "", l, true)
				l = nil
				for _, x := range meth.Parameters() {
					l = append(l, x.Name().String())
				}
				check("parameters", "", l, true)
				l = nil
				for _, x := range v.Types() {
					l = append(l, x.Name().String())
				}
				check("types", "zz_", l, true)
				l = nil
				for _, x := range v.Resources() {
					l = append(l, x.Name().String())
				}
				check("resources", "", l, true)
				l = nil
				for _, x := range v.Errors() {
					l = append(l, x.Name().String())
				}
				check("errors", "", l, true)
				l = nil
				for _, x := range m.Services() {
					l = append(l, x.Name().String())
				}
				check("services", "zz_", l, true)
				l = nil
				for _, x := range s.Versions() {
					l = append(l, x.Name().String())
				}
				check("versions", "zz_", l, true)
				for _, n := range sorted {
					c.Check(t.FindAttribute(build(n)) != nil && t.FindAttribute(build(n)).Name().String() == n.String(), "attribute %s not found", n)
					c.Check(v.FindResource(build(n)) != nil && v.FindResource(build(n)).Name().String() == n.String(), "resource %s not found", n)
					c.Check(v.FindError(build(n)) != nil && v.FindError(build(n)).Name().String() == n.String(), "error %s not found", n)
					c.Check(res.FindMethod(build(n)) != nil && res.FindMethod(build(n)).Name().String() == n.String(), "method %s not found", n)
					c.Check(meth.GetParameter(build(n)) != nil && meth.GetParameter(build(n)).Name().String() == n.String(), "parameter %s not found", n)
				}
			}
			r.Explore("sorting", fmt.Sprintf("all the orders of insertion of %d names in every kind of concept", count), func(c *engine.Ctx) {
				perm := Perm(c, "next", count)
				c.Commit()
				sorting(c, sorted, perm)
			})
			r.Explore("sorting many", "all the rotations, in both directions, of up to 60 names with one, two or three words, in every kind of concept", func(c *engine.Ctx) {
				n := engine.Pick(c, "size", []int{9, 12, 13, 17, 33, 60})
				k := c.Choose("rotation", n)
				reverse := c.Flag("reverse")
				c.Commit()
				var many []Name
				var perm []int
				for i := 0; i < n; i++ {
					many = append(many, [][]string{{nth(i)}, {nth(i - i%4), nth(i)}, {nth(i - i%4), "a", nth(i)}}[(i%4)%3])
					perm = append(perm, (i+k)%n)
				}
				if reverse {
					slices.Reverse(perm)
				}
				sort.SliceStable(many, func(i, j int) bool { return CompareNames(many[i], many[j]) < 0 })
				sorting(c, many, perm)
				c.Outcome(fmt.Sprint(n, k, reverse))
			})
		},
	}
}
