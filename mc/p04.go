package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// grammarText contains every production of the grammar.
const grammarText = `@first @second ( ) @third ( a = 1 b = true c = "x" )
enum Color { @one Red value Blue }
@json ( name = "leaf" )
class Leaf { Name String @json ( name = "x" ) attribute Size Integer link Owner Leaf Many [ ] Leaf ByName [ String ] Color }
struct Node { Leaf Leaf link Leaves [ ] Leaf }
resource Root { @http ( name = "y" ) method Act { in X String = "d" @one parameter in out Y Integer = 7 Z Boolean = false }
Get { out Body Leaf } locator Nodes { target Nodes variable ID } @two locator Others { target Nodes } }
@x resource Nodes { method List { in out Page Integer = 1 out Items [ ] Node } }
@y error NotFound { code 404 } error Other { }
`

// refNames are the names that may appear in the mutated models.
func refNames() map[string]Name {
	result := map[string]Name{}
	for _, text := range strings.Fields("color red blue leaf name size owner many by_name node leaves root act x y z get body nodes ID others list page items not_found other String Integer Boolean Long Float Date Interface total add update delete search post request response async_update async_delete holder child foo total page size") {
		n := N(text)
		if IsBuiltin(text) {
			result[text] = Name{strings.ToLower(text)}
			continue
		}
		result[n.Public()] = n
	}
	return result
}

// refAccepts decides if the reference implementation accepts the text, and the expected model.
func refAccepts(text string) (want []string, syntax, bad string) {
	v := &Version{}
	literals, unknown, err := refParse(v, refNames(), text)
	if err != nil {
		return nil, err.Error(), ""
	}
	if unknown {
		return nil, "", "unknown"
	}
	m := mkModel("my_service", "v1", v)
	semantic := append(literals, refCheck(v)...)
	if len(semantic) > 0 {
		return nil, "", strings.Join(semantic, ", ")
	}
	return m.Dump(), "", ""
}

func init() {
	properties["P04"] = &Property{
		Sharded: true,
		Rule:    "one execution per mutated file; the decision of the reader (accepted with which model, or rejected) is compared with an independent scanner, parser and set of semantic rules; outcomes are the distinct reasons of rejection and accepted models",
		Assumptions: []string{
			"texts that differ from a correct file in more places than the bound behave like the explored ones",
		},
		Run: func(env *Env, r *engine.Report) {
			file := "my_service/v1/all.model"
			check := func(c *engine.Ctx, text string) {
				want, syntax, bad := refAccepts(text)
				res := env.Read(Files{file: text})
				c.Eval(1)
				switch {
				case res.Panic != "":
					c.Fail("panic: %s\n%s", res.Panic, text)
				case syntax != "" && res.Err == nil:
					c.Fail("incorrect syntax (%s) should be rejected but it was accepted:\n%s", syntax, text)
				case bad == "unknown":
					// The syntax is correct, and the semantic depends on names that aren't
					// in the list of known names.
				case bad != "" && res.Err == nil:
					c.Fail("incorrect model (%s) should be rejected but it was accepted:\n%s", bad, text)
				case syntax == "" && bad == "":
					if !res.OK() {
						c.Fail("correct model should be accepted but it was %s\n%s", res, text)
					}
					if d := Diff(withoutDocs(Dump(res.Model)), want); d != "" {
						c.Fail("model isn't what was declared: %s\n%s", d, text)
					}
				}
				c.Outcome(syntax + "|" + bad + "|" + strings.Join(want, ";"))
			}
			join := func(tokens []string) string { return strings.Join(tokens, " ") + "\n" }
			tokens := Tokens(grammarText)
			alphabet := append(append([]string{}, refKeywords...), "@", "{", "}", "[", "]", "(", ")", "=",
				"Foo", "Leaf", "String", "7", `"s"`, "`r`", "#", ";", ",", ".", `"`, "`", "/*", "99999999999999999999")
			comments := []string{"/* x */", "// y\n"}

			r.Explore("deletions and truncations", fmt.Sprintf("each of the %d tokens deleted, duplicated, swapped with the next; all prefixes and suffixes; pairs of deletions", len(tokens)), func(c *engine.Ctx) {
				i := c.Choose("position", len(tokens))
				kind := c.Choose("mutation", 5)
				var list []string
				switch kind {
				case 0:
					list = append(append(list, tokens[:i]...), tokens[i+1:]...)
				case 1:
					list = append(append(append(list, tokens[:i]...), tokens[i]), tokens[i:]...)
				case 2:
					if i+1 == len(tokens) {
						c.Skip()
					}
					list = append(list, tokens...)
					list[i], list[i+1] = list[i+1], list[i]
				case 3:
					list = tokens[:i]
				case 4:
					list = tokens[i:]
				}
				c.Commit()
				check(c, join(list))
			})
			r.Explore("pairs of deletions", "all the pairs of tokens deleted (quick: at distance up to 8)", func(c *engine.Ctx) {
				i := c.Choose("first", len(tokens)-1)
				n := len(tokens) - i - 1
				if !r.Thorough() && n > 8 {
					n = 8
				}
				j := i + 1 + c.Choose("second", n)
				c.Commit()
				var list []string
				list = append(append(append(list, tokens[:i]...), tokens[i+1:j]...), tokens[j+1:]...)
				check(c, join(list))
			})
			r.Explore("insertions and replacements", fmt.Sprintf("each of %d tokens inserted at, or replacing, each of the %d positions", len(alphabet), len(tokens)), func(c *engine.Ctx) {
				i := c.Choose("position", len(tokens)+1)
				replace := c.Flag("replace")
				token := engine.Pick(c, "token", alphabet)
				if replace && i == len(tokens) {
					c.Skip()
				}
				c.Commit()
				list := append(append([]string{}, tokens[:i]...), token)
				if replace {
					i++
				}
				list = append(list, tokens[i:]...)
				check(c, join(list))
			})
			r.Explore("comments", "comments inserted at each position change nothing", func(c *engine.Ctx) {
				i := c.Choose("position", len(tokens)+1)
				comment := engine.Pick(c, "comment", comments)
				c.Commit()
				list := append(append(append([]string{}, tokens[:i]...), comment), tokens[i:]...)
				check(c, join(list))
			})
			r.Explore("characters", "the text truncated at each character, and each character deleted or replaced", func(c *engine.Ctx) {
				i := c.Choose("position", len(grammarText))
				kind := c.Choose("mutation", 6)
				c.Commit()
				text := grammarText
				switch kind {
				case 0:
					text = text[:i]
				case 1:
					text = text[:i] + text[i+1:]
				default:
					text = text[:i] + []string{"#", "\"", "9", "\n"}[kind-2] + text[i+1:]
				}
				check(c, text)
			})
			sequences := []string{"enum", "struct", "resource", "error", "method", "link", "in", "code", "@", "{", "}", "[", "]", "(", ")", "=", "Foo", "7", `"s"`, "true", "#"}
			contexts := []string{"%s", "struct Leaf { %s }", "enum Color { %s }", "resource Child { %s }", "resource Child { Act { %s } }", "error Other { %s }", "resource Child { locator X { %s } }", "@foo %s"}
			r.Explore("sequences", fmt.Sprintf("all the sequences of up to 2 (quick) or 3 (thorough) of %d tokens in %d contexts", len(sequences), len(contexts)), func(c *engine.Ctx) {
				context := engine.Pick(c, "context", contexts)
				limit := 3
				if r.Thorough() {
					limit = 4
				}
				n := c.Choose("length", limit)
				var list []string
				for i := 0; i < n; i++ {
					list = append(list, engine.Pick(c, "token", sequences))
				}
				c.Commit()
				check(c, "resource Root { } "+fmt.Sprintf(context, strings.Join(list, " ")))
			})
			r.Explore("position of the error", "a file with an error is rejected wherever it is: first or last file, other version or other service", func(c *engine.Ctx) {
				where := c.Choose("where", 5)
				bad := engine.Pick(c, "error", []string{"struct", "}", "#", "struct Foo {", "\"", "resource Root { } x", "enum Foo { Red } { }"})
				c.Commit()
				files := Files(orderModel().Files())
				files["my_service/v2/a.model"] = "resource Root { }"
				files["other/v1/a.model"] = "resource Root { }"
				switch where {
				case 0:
					files["my_service/v1/a.model"] = bad
				case 1:
					files["my_service/v1/z.model"] = bad
				case 2:
					files["my_service/v2/b.model"] = bad
				case 3:
					files["other/v1/b.model"] = bad
				case 4:
					files["a_first/v1/b.model"] = bad
					files["a_first/v1/a.model"] = "resource Root { }"
				}
				res := env.Read(files)
				c.Check(res.Panic == "" && res.Err != nil, "file with error '%s' should be rejected but it was %s", bad, res)
				c.Outcome(bad)
			})
			r.Explore("bad inputs", "inputs that don't exist or aren't directories are rejected, and unreadable files never crash", func(c *engine.Ctx) {
				kind := c.Choose("kind", 3)
				c.Commit()
				base := env.Dir()
				defer os.RemoveAll(base)
				writeFiles(base, Files{"good/my_service/v1/a.model": "resource Root { }", "file": "resource Root { }"})
				dirs := []string{filepath.Join(base, "good")}
				switch kind {
				case 0:
					dirs = append(dirs, filepath.Join(base, "missing"))
				case 1:
					dirs = append([]string{filepath.Join(base, "missing")}, dirs...)
				case 2:
					dirs = append(dirs, filepath.Join(base, "file"))
				}
				res := readDir(dirs...)
				c.Check(res.Panic == "" && res.Err != nil, "should be rejected but it was %s", res)
				c.Outcome(fmt.Sprint(kind))
			})
		},
	}
}
