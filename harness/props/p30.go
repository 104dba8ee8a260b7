package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclparse"
)

func init() {
	register(&mon.Prop{
		ID: "P30",
		Rule: "histories of loads from memory and from a scratch directory in either syntax, by two registries, of present, missing, unreadable, changing and malformed files, with everything that can be asked in between; " +
			"after each step the registry is compared with a model and each first load with the syntax's own parser; distinct = history of outcomes",
		Assumptions: []string{"files handed over with AddFile take the place of what was registered", "files that can't be read are not registered"},
		Quick:       30000,
		Thorough:    400000,
		Require:     []string{"first load", "loaded again", "failed load", "retry after failure", "malformed", "changed on disk", "handed over", "own loader", "sources", "diagnostics written", "other syntax again"},
		Run:         runP30,
	})
}

// diagText describes diagnostics in full.
func diagText(diags hcl.Diagnostics) string {
	var out []string
	for _, d := range diags {
		out = append(out, fmt.Sprintf("%d %s | %s | %v %v", d.Severity, d.Summary, d.Detail, d.Subject, d.Context))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type regEntry struct {
	file *hcl.File
	src  []byte // nil: handed over without bytes
	json bool
}

func runP30(c *mon.Case) {
	dir, err := os.MkdirTemp("", "hclmon-p30-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	g := &gen.G{R: c.Rand, Env: gen.NewEnv(c.Rand), Hostile: 100}
	source := func() []byte {
		var s string
		switch c.Intn(6) {
		case 0, 1:
			s = gen.ValidConfig(g)
		case 2:
			s = gen.JSONText(c.Rand, gen.JSONDoc(c.Rand, 2))
		case 3:
			s = c.Pick("", "{}", "[]", "null", "a = ", "a = 1\na = 2\n", "{\"a\":1,\"a\":2}", "\ufeffa = 1", "{", "1", "\xff")
		case 4:
			s = gen.Soup(c.Rand)
		default:
			s = gen.JSONSoup(c.Rand)
		}
		return []byte(s)
	}
	names := []string{"a.hcl", "b.json", "A.hcl", "sub/a.hcl", "c", "sub/../a.hcl", "./b.json", "missing", "adir", "loop", "bad\x00name"}
	os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	os.Mkdir(filepath.Join(dir, "adir"), 0o755)
	os.Symlink("loop", filepath.Join(dir, "loop"))
	disk := map[string][]byte{}
	write := func(n string) {
		disk[n] = source()
		c.Input("on disk: "+n, string(disk[n]))
		if err := os.WriteFile(filepath.Join(dir, n), disk[n], 0o644); err != nil {
			panic(err)
		}
	}
	for _, n := range names[:5] {
		if c.Chance(3, 4) {
			write(n)
		}
	}

	parsers := []*hclparse.Parser{hclparse.NewParser(), hclparse.NewParser()}
	models := []map[string]regEntry{{}, {}}
	failed := map[string]bool{}
	var hist []string
	checkPanic(c, "using the registry", func() {
		for n := c.Size(12, 40); n > 0; n-- {
			k := 0
			if c.Chance(1, 4) {
				k = 1
			}
			p, model := parsers[k], models[k]
			base := names[c.Intn(len(names))]
			name := dir + "/" + base
			have, ok := model[name]
			step := ""
			load := func(js bool, fromDisk bool, src []byte, file *hcl.File, diags hcl.Diagnostics) {
				if ok {
					if file != have.file {
						c.Failf("loading %s again gives another file", base)
					}
					if len(diags) != 0 {
						c.Failf("loading %s again reports %s", base, diagStr(diags))
					}
					c.Event("loaded again")
					if js != have.json {
						c.Event("other syntax again")
					}
					step += " again"
					return
				}
				if src == nil {
					if file != nil || !diags.HasErrors() {
						c.Failf("%s can't be read, but loading it gives %v, %s", base, file, diagStr(diags))
					}
					failed[name] = true
					c.Event("failed load")
					step += " failed"
					return
				}
				if failed[name] {
					c.Event("retry after failure")
				}
				var want *hcl.File
				var wdiags hcl.Diagnostics
				cp := append([]byte(nil), src...)
				if js {
					want, wdiags = json.Parse(cp, name)
				} else {
					want, wdiags = hclsyntax.ParseConfig(cp, name, hcl.Pos{Line: 1, Column: 1})
				}
				if a, b := diagText(diags), diagText(wdiags); a != b {
					c.Failf("loading %s reports\n%s\nparsing reports\n%s", base, a, b)
				}
				if file == nil || file.Body == nil {
					c.Failf("loading %s gives %v", base, file)
				}
				if !bytes.Equal(file.Bytes, src) {
					c.Failf("the file from loading %s has the source %s, should be %s", base, q(string(file.Bytes)), q(string(src)))
				}
				sameBodies(c, file.Body, want.Body, base)
				if wdiags.HasErrors() {
					c.Event("malformed")
				}
				c.Event("first load")
				model[name] = regEntry{file, append([]byte{}, src...), js}
				step += " first"
			}
			switch op := c.Intn(11); op {
			case 0, 1, 2:
				src := source()
				js := c.Bool()
				step = fmt.Sprintf("parse %s json=%v", base, js)
				c.Input(step, string(src))
				if js {
					f, diags := p.ParseJSON(src, name)
					load(js, false, src, f, diags)
				} else {
					f, diags := p.ParseHCL(src, name)
					load(js, false, src, f, diags)
				}
			case 3, 4, 5, 6:
				js := c.Bool()
				step = fmt.Sprintf("load %s json=%v", base, js)
				if js {
					f, diags := p.ParseJSONFile(name)
					load(js, true, disk[filepath.Clean(base)], f, diags)
				} else {
					f, diags := p.ParseHCLFile(name)
					load(js, true, disk[filepath.Clean(base)], f, diags)
				}
			case 10:
				// the JSON package's own loader has no registry
				step = "own loader " + base
				f, diags := json.ParseFile(name)
				if src, ok := disk[filepath.Clean(base)]; !ok {
					if f != nil || !diags.HasErrors() {
						c.Failf("%s can't be read, but loading it gives %v, %s", base, f, diagStr(diags))
					}
				} else {
					want, wdiags := json.Parse(append([]byte(nil), src...), name)
					if a, b := diagText(diags), diagText(wdiags); a != b || f == nil || !bytes.Equal(f.Bytes, src) {
						c.Failf("loading %s reports\n%s\nparsing reports\n%s", base, a, b)
					}
					sameBodies(c, f.Body, want.Body, base)
					c.Event("own loader")
				}
			case 7:
				base = names[c.Intn(5)]
				name = filepath.Join(dir, base)
				if _, ok := disk[base]; ok && c.Chance(1, 3) {
					delete(disk, base)
					os.Remove(name)
					step = "remove " + base
				} else {
					write(base)
					step = "write " + base
				}
				c.Event("changed on disk")
			case 8:
				src := source()
				f := &hcl.File{Bytes: src, Body: hcl.EmptyBody()}
				if c.Bool() {
					f, _ = hclsyntax.ParseConfig(src, name, hcl.Pos{Line: 1, Column: 1})
				}
				p.AddFile(name, f)
				model[name] = regEntry{f, append([]byte{}, src...), false}
				step = "add " + base
				c.Event("handed over")
			default:
				step = "ask"
				var diags hcl.Diagnostics
				for n := range model {
					diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "x", Subject: &hcl.Range{Filename: n, Start: hcl.Pos{Line: 1, Column: 1}, End: hcl.Pos{Line: 1, Column: 2, Byte: 1}}})
				}
				diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "x", Subject: &hcl.Range{Filename: name}})
				var buf bytes.Buffer
				if err := hcl.NewDiagnosticTextWriter(&buf, p.Files(), 78, false).WriteDiagnostics(diags); err != nil {
					c.Failf("writing diagnostics: %s", err)
				}
				c.Event("diagnostics written")
				// what is handed out is the caller's
				for k := range p.Sources() {
					m := p.Sources()
					delete(m, k)
					break
				}
			}
			hist = append(hist, step)
			for i, p := range parsers {
				checkRegistry(c, p, models[i], hist)
			}
		}
	})
	c.Sig(strings.Join(hist, "; "))
	c.Sample(strings.Join(hist, "; "))
}

func checkRegistry(c *mon.Case, p *hclparse.Parser, model map[string]regEntry, hist []string) {
	files, sources := p.Files(), p.Sources()
	if len(files) != len(model) || len(sources) != len(model) {
		c.Failf("%d files and %d sources are registered, should be %d, after %q", len(files), len(sources), len(model), hist)
	}
	for n, e := range model {
		if files[n] != e.file {
			c.Failf("%s is registered as another file than the one loaded, after %q", n, hist)
		}
		if !bytes.Equal(sources[n], e.src) {
			c.Failf("source of %s is registered as %s, what was parsed is %s, after %q", n, q(string(sources[n])), q(string(e.src)), hist)
		}
		c.Event("sources")
	}
}

// sameBodies compares what two bodies give as bare attributes.
func sameBodies(c *mon.Case, a, b hcl.Body, what string) {
	as, adiags := a.JustAttributes()
	bs, bdiags := b.JustAttributes()
	if x, y := diagText(adiags), diagText(bdiags); x != y || len(as) != len(bs) {
		c.Failf("%s: loading gives %d attributes, %s; parsing gives %d attributes, %s", what, len(as), x, len(bs), y)
	}
	for n, attr := range bs {
		if as[n] == nil || attrKey(as[n]) != attrKey(attr) {
			c.Failf("%s: attribute %s differs between loading and parsing", what, n)
		}
	}
}
