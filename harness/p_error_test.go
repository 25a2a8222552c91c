package harness

import (
	"fmt"
	"path"
	"strings"
	"testing"

	old "yamlold.example"
)

func init() {
	extraChecks["nothing"] = func(c *Case, a *Assert, rs []*Result) error { // no output at all
		if g := keysOf(below(rs[a.Run].FS, a.Dir)); len(g) > 0 {
			return fmt.Errorf("refused, but %q was written", g)
		}
		if strings.TrimSpace(rs[a.Run].Stdout) != "" {
			return fmt.Errorf("refused, but stdout has %q", clip(rs[a.Run].Stdout))
		}
		return nil
	}
	extraChecks["speaks"] = func(c *Case, a *Assert, rs []*Result) error { // errors come with a message
		if r := rs[a.Run]; r.Code != 0 && strings.TrimSpace(r.Stderr) == "" {
			return fmt.Errorf("failed without saying anything on stderr")
		}
		return nil
	}
	extraChecks["readable"] = func(c *Case, a *Assert, rs []*Result) error { // outputs are YAML
		for k, t := range below(rs[a.Run].FS, a.Dir) {
			if _, err := ParseRaw(t); err != nil {
				return fmt.Errorf("output %s is not valid YAML: %w\n%s", k, err, clip(t))
			}
		}
		return nil
	}
}

// texts no YAML reader accepts
var broken = []string{
	"[1, 2\n", "{a: 1\n", "a: b: c\n", "\"unterminated\n", "'unterminated\n", "k: *nowhere\n", "a: 1\n\tb: 2\n", "- a\nb: 1\n",
	"a: 1\n  b: 2\n", "k: [a, b}\n", "a: \"\\q\"\n", "k: @x\n", "k: `x\n", "? a\n- b\n", "k: |3x\n  t\n", "%YAML 9.9\n---\na: 1\n", "k: !<unclosed\n", "a:\n  - b\n c\n",
}

// oldReads is true when the program's parser can read every document.
func oldReads(src string) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			panic(discard{"the parser panics"})
		}
	}()
	d := old.NewDecoder(strings.NewReader(src))
	for i := 0; i < 1000; i++ {
		var n old.Node
		if err := d.Decode(&n); err != nil {
			return err.Error() == "EOF"
		}
	}
	return true
}

func (g *G) brokenText() string {
	for {
		s := pick(g, broken, "broken text")
		if _, err := ParseRaw(s); err == nil || oldReads(s) {
			panic(HarnessError{fmt.Errorf("%q is valid", s)})
		}
		return s
	}
}

// errScene is a small valid scene.
func (g *G) errScene() (*Scene, *Case, []string) {
	nf := g.n(1, 6, "files")
	ss, es := g.srcs(nf, 3, func() *N { return g.mapDoc(VOpt{Depth: 2, Width: 3, Plain: true, NoEmpty: true}) })
	s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
	for i, x := range ss {
		st := copyDocs(x.Docs)
		for k := g.n(0, 2, "overlays"); k > 0; k-- {
			if o := g.drawOverlay(pick(g, []string{"merge", "replace", "delete"}, "action"), st, 20); o != nil {
				es[i].Overlays = append(es[i].Overlays, o)
				_ = applyAll(o, st, "")
			}
		}
	}
	return s, nil, []string{"-i", "i.yaml"}
}

// faults of the command line
var badArgs = [][]string{
	{"--no-such-flag"}, {"-Z"}, {"-S", "zap"}, {"-S", "normal,zap"}, {"--output-style=zap"}, {"-I", "abc"}, {"-I", "-3"}, {"--indent-level=2x"}, {"-v=zap"}, {"--log-level=9z"},
	{"-q", "a["}, {"-q", "a[?("}, {"-q", "x['b"}, {"-q", "b[zz]"}, {"-q", "kind", "-x", "[1"}, {"-q", "kind", "-x", "{a: 1"}, {"-q", "kind", "-x", "'open"}, {"-q", "kind", "-x", "1", "-a", "zap"}, {"--action=zapp"},
	{"extra-argument"}, {"-q", "kind", "-x", "&x [*x]"}, {"-s=maybe"}, {"--remove-comments=perhaps"}, {"-p"}, {"--config", "no-such.yaml"}, {"-f", "no-such.yaml"}, {"-p", "no-such.yaml"},
	{"--config=/w/in"}, {"-q", "kind", "-x", "*nowhere"}, {"--default-on-missing-action", "merge"}, {"--default-on-missing-action=injct"},
}

// faults in an overlay, as flow text
var badOverlays = []string{
	"{query: a, value: 1, action: zap}", "{query: a, value: 1, action: [merge]}", "{query: \"a[\", value: 1}", "{query: \"a[?(\", value: 1}", "{query: [a, \"b[zz]\"], value: 1}", "{query: {a: b}, value: 1}",
	"{query: a, value: 1, documentIndex: x}", "{query: a, value: 1, documentIndex: [0, x]}", "{query: a, value: 1, documentQuery: {conditions: []}}", "{query: a, value: 1, documentQuery: [{conditions: [{query: \"[\"}]}]}",
	"{query: a, value: &self [*self]}", "{query: a, value: &self {k: {l: *self}}}", "{query: a, value: 1, onMissing: {action: inject, injectPath: \"b[\"}}", "{query: a, value: 1, onMissing: inject}", "{query: none, value: 1, onMissing: {action: injct}}", "{query: kind, value: 1, onMissing: {action: merge}}", "{query: a, name: {a: b}, value: 1}",
	"not an overlay", "[a]", "{query: a, value: 1, documentQuery: [x]}", "{query: a, value: 1, action: \"\"}",
}

var badTemplates = []string{
	"{{ .a", "{{ nosuch .a }}", "{{ fail \"no\" }}", "{{ index .b 3 }}", "{{ .a.b.c }}", "{{ template \"x\" . }}", "{{ end }}", "{{ if .a }}", "{{ range .a }}{{ end", "{{ \"open }}", "{{ $undefined }}",
	"\n[ {{ .a }}", "{{ \"[\" }} : {{ \"{\" }}", "{{ else }}", "{{ fromJson \"{\" | mustToJson | fail }}",
}

// C18: what cannot be done is refused, with a message and without a crash.
func TestC18(t *testing.T) {
	check(t, "C18", func(g *G) *Case {
		switch g.weighted("mode", 62, 23, 15) {
		case 1:
			return g.mutatedInstructions()
		case 2:
			return g.mutatedBytes()
		}
		s, _, args := g.errScene()
		args = append(args, "-o", "{R}"+outAbs)
		i := g.n(0, len(s.Srcs)-1, "file")
		src, ent := s.Srcs[i], s.Instr.Files[i]
		nothing, mention := true, ""
		full := false
		edit := func(c *Case) {}
		what := ""
		toText := func(f func(txt string) string) func(c *Case) {
			return func(c *Case) { c.Files["w/cwd/i.yaml"] = f(c.Files["w/cwd/i.yaml"]) }
		}
		switch g.weighted("fault", 18, 8, 8, 5, 14, 8, 6, 10, 8, 5, 14, 10, 8) {
		case 0:
			what, mention = "unreadable input", path.Base(src.Path)
			bad := g.brokenText()
			edit = func(c *Case) {
				p := strings.TrimPrefix(src.Path, "/")
				if g.yes(70, "later document") {
					c.Files[p] += "---\n" + bad
					if oldReads(c.Files[p]) {
						panic(discard{"readable behind a text in another encoding"})
					}
				} else {
					c.Files[p] = "---\n" + bad
				}
			}
		case 1:
			what, mention = "missing input", path.Base(src.Path)
			edit = func(c *Case) { delete(c.Files, strings.TrimPrefix(src.Path, "/")) }
		case 2:
			what = "broken link in a directory"
			mention = "gone.yaml"
			s.Instr.Files = append(s.Instr.Files, &Entry{Path: "{R}/w/linkdir"})
			edit = func(c *Case) {
				c.Files["w/linkdir/a.yaml"] = "a: 1\n"
				c.Links = map[string]string{"w/linkdir/gone.yaml": "nowhere.yaml"}
			}
		case 3:
			what = "directory to a file"
			s.Instr.Files = append(s.Instr.Files, &Entry{Path: "{R}/w/somedir", OutputPath: pick(g, []string{"x.yaml", "deep/x.yml", "x.txt"}, "outputPath")})
			edit = func(c *Case) { c.Files["w/somedir/a.yaml"] = "a: 1\n" }
		case 4:
			what = "invalid overlay"
			bad := pick(g, badOverlays, "bad overlay")
			at := g.n(0, 2, "level")
			edit = toText(func(txt string) string {
				mark := "query: zz-mark"
				_ = mark
				return txt
			})
			m := s.Instr.Node()
			ph := &N{Kind: "v", Tag: "!!str", Val: "zz-bad-overlay"}
			e := m.Get("yamlFiles").Items[i]
			add := func(m *N, key string) {
				l := m.Get(key)
				if l == nil {
					l = &N{Kind: "s"}
					m.Set(key, l)
				}
				k := g.n(0, len(l.Items), "position")
				l.Items = append(l.Items[:k:k], append([]*N{ph}, l.Items[k:]...)...)
			}
			switch at {
			case 0:
				add(e, "overlays")
			case 1:
				add(m, "commonOverlays")
			default:
				d := Map("path", 0)
				add(d, "overlays")
				if ds := e.Get("documents"); ds != nil {
					ds.Items = append(ds.Items, d)
				} else {
					e.Set("documents", Seq(d))
				}
			}
			txt := strings.Replace("---\n"+Emit(m, 2), "zz-bad-overlay", bad, 1)
			edit = func(c *Case) { c.Files["w/cwd/i.yaml"] = txt }
		case 5:
			what = "instructions of another shape"
			txt := pick(g, []string{
				"yamlFiles: {path: x}\n", "yamlFiles: text\n", "yamlFiles: [text]\n", "commonOverlays: {query: a}\nyamlFiles: []\n", "text\n", "- a\n- b\n", "1\n",
				"yamlFiles:\n  - path: [a]\n", "yamlFiles:\n  - path: {R}" + src.Path + "\n    overlays: {query: a}\n", "yamlFiles:\n  - path: {R}" + src.Path + "\n    documents: [{path: zero}]\n",
				"yamlFiles:\n  - path: {R}" + src.Path + "\n    documents: {path: 0}\n", "yamlFiles:\n  - path: {R}" + src.Path + "\n    outputPath: [x]\n", "yamlFiles:\n  - path: {R}" + src.Path + "\n    overlays: text\n",
			}, "shape")
			edit = func(c *Case) { c.Files["w/cwd/i.yaml"] = txt }
		case 6:
			what = "unreadable instructions"
			how := g.n(0, 2, "how")
			bad := g.brokenText()
			edit = func(c *Case) {
				switch how {
				case 0:
					delete(c.Files, "w/cwd/i.yaml")
				case 1:
					c.Files["w/cwd/i.yaml"] = bad
				default:
					c.Files["w/cwd/i.yaml"] += "zz-more:\n" + indentBy(bad)
				}
			}
			if how == 2 && !brokenAs("a: 1\nzz-more:\n"+indentBy(bad)) {
				panic(discard{"valid below a key"})
			}
		case 7:
			what = "template"
			bad := pick(g, badTemplates, "bad template")
			front := g.yes(50, "in front")
			args = append(args, "-f", "v.yaml")
			edit = func(c *Case) {
				c.Files["w/cwd/v.yaml"] = "a: text\nb: 2\n"
				txt := strings.ReplaceAll(c.Files["w/cwd/i.yaml"], "{{", "{ {")
				if front {
					c.Files["w/cwd/i.yaml"] = bad + "\n" + txt
				} else {
					c.Files["w/cwd/i.yaml"] = txt + "zz-more: " + bad + "\n"
				}
			}
		case 8:
			what = "values"
			k := g.n(1, 3, "values files")
			at := g.n(0, k-1, "bad values file")
			bad := g.brokenText()
			gone := g.yes(30, "missing values file")
			for j := 0; j < k; j++ {
				args = append(args, "-f", fmt.Sprintf("v%d.yaml", j))
			}
			edit = func(c *Case) {
				for j := 0; j < k; j++ {
					c.Files[fmt.Sprintf("w/cwd/v%d.yaml", j)] = "a: 1\n"
				}
				p := fmt.Sprintf("w/cwd/v%d.yaml", at)
				if gone {
					delete(c.Files, p)
				} else {
					c.Files[p] = bad
				}
			}
		case 9:
			what = "configuration file"
			bad := pick(g, []string{"outputStyle: [normal\n", "a: b: c\n", "\"x\n", "indentLevel: -1\n", "logLevel: zap\n"}, "configuration")
			args = append(args, "--config", "c.yaml")
			edit = func(c *Case) { c.Files["w/cwd/c.yaml"] = bad }
		case 10:
			what = "command line"
			more := pick(g, badArgs, "bad arguments")
			if g.yes(50, "first") {
				args = append(append([]string{}, more...), args...)
				if more[0] == "-p" && len(more) == 1 {
					args = append(args, "-p")
				}
			} else {
				args = append(args, more...)
			}
		case 11:
			what, nothing = "overlay that cannot be applied", false
			mention = path.Base(src.Path)
			bad := pick(g, []*Overlay{
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-map"}}}}, Action: "combine", Value: S("x")},
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-text"}}}}, Action: "combine", Value: Map("k", "v")},
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-int"}}}}, Action: "combine", Value: S("many")},
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-float"}}}}, Action: "combine", Value: S("x")},
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-null"}}}}, Action: "combine", Value: S("x")},
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "rec", Name: "zz-bool"}}}}, Action: "combine", Value: S("perhaps")},
				{Name: "bad", Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-none"}, {T: "wild"}}}}, Action: "merge", Value: S("x"), OnMissing: "inject", InjectPath: []Q{{Segs: []Seg{{T: "child", Name: "b"}, {T: "wild"}}}}},
			}, "bad overlay")
			d := src.Docs[len(src.Docs)-1]
			for _, p := range Map("zz-map", Map("a", 1), "zz-text", "t", "zz-int", 4, "zz-float", &N{Kind: "v", Tag: "!!float", Val: "1.5"}, "zz-null", Null(), "zz-bool", true).Pairs {
				d.Pairs = append(d.Pairs, p)
			}
			d.Style = ""
			src.Text = g.file(src.Docs)
			bad.DocIndex = []int{len(src.Docs) - 1}
			// nothing may remove the keys before
			ent.Overlays = append([]*Overlay{bad}, ent.Overlays...)
			if g.yes(20, "quiet") {
				args = append(args, "-v=critical")
				mention = ""
			}
		default:
			what, nothing = "output that cannot be written", false
			names := map[string]string{}
			for _, x := range s.Srcs {
				names[x.Path] = x.Path
			}
			var paths []string
			for _, x := range s.Srcs {
				paths = append(paths, x.Path)
			}
			name := outNames(paths)[src.Path]
			if w, err := s.expected(); err != nil || len(w[name]) == 0 {
				panic(discard{"no output"})
			}
			switch how := g.n(0, 3, "how"); how {
			case 0:
				edit = func(c *Case) { c.Files["w/cwd/out"] = "a file\n" }
			case 1:
				edit = func(c *Case) { c.Dirs = append(c.Dirs, "w/cwd/out/"+name) }
			case 2:
				edit = func(c *Case) { c.Links = map[string]string{"w/cwd/out/" + name: path.Base(name)} }
			default:
				args = append(args, "-s")
				full = true
			}
		}
		c := s.newCase()
		edit(c)
		c.Runs = []Run{{Args: args, Full: full}}
		c.Asserts = []Assert{{Kind: "fails"}}
		if nothing {
			c.Asserts = append(c.Asserts, Assert{Kind: "nothing", Dir: outAbs})
		}
		if mention != "" {
			c.Asserts = append(c.Asserts, Assert{Kind: "stderr", Text: mention})
		}
		if what == "overlay that cannot be applied" {
			var paths []string
			for _, x := range s.Srcs {
				paths = append(paths, x.Path)
			}
			c.Asserts = append(c.Asserts, Assert{Kind: "absent", Path: outAbs + "/" + outNames(paths)[src.Path]})
		}
		c.Asserts = append(c.Asserts, Assert{Kind: "confined", List: []string{"w/cwd/out"}})
		c.label(what)
		c.NonTrivial = true
		return c
	})
}

func indentBy(s string) string {
	return "  " + strings.ReplaceAll(strings.TrimSuffix(s, "\n"), "\n", "\n  ") + "\n"
}

func brokenAs(s string) bool {
	_, err := ParseRaw(s)
	return err != nil && !oldReads(s)
}

// mutatedInstructions replaces parts of valid instructions by other YAML.
func (g *G) mutatedInstructions() *Case {
	s, _, args := g.errScene()
	in := s.Instr
	// some of everything
	st := copyDocs(s.Srcs[0].Docs)
	in.Files[0].Documents = []*DocEntry{{Path: 0, Overlays: []*Overlay{g.orderOverlay(false, 12)}}}
	in.Common = append(in.Common, g.orderOverlay(false, 12), &Overlay{
		Name: "c", Query: []Q{g.missing(s.Srcs[0].Docs[0], 2)}, Value: g.overlayValue(1), Action: "merge", OnMissing: "inject",
		DocQuery: [][]Cond{{g.condition(st[0])}}, DocIndex: []int{0, 1},
		InjectPath: []Q{g.missing(s.Srcs[0].Docs[0], 1)},
	})
	m := in.Node()
	for k := g.n(1, 3, "mutations"); k > 0; k-- {
		g.mutate(m)
	}
	txt := "---\n" + Emit(m, 2)
	if _, err := ParseRaw(txt); err != nil {
		panic(discard{"not YAML"})
	}
	c := s.newCase()
	c.Files["w/cwd/i.yaml"] = txt
	c.Runs = []Run{{Args: append(args, "-o", "{R}"+outAbs)}}
	c.Asserts = []Assert{{Kind: "nocrash"}, {Kind: "speaks"}, {Kind: "readable", Dir: outAbs}}
	c.label("mutated instructions")
	c.NonTrivial = true
	return c
}

func (g *G) mutate(m *N) {
	type place struct {
		set func(*N)
		del func()
		n   *N
	}
	var ps []place
	var rec func(n *N)
	rec = func(n *N) {
		for i := range n.Pairs {
			i := i
			ps = append(ps, place{func(x *N) { n.Pairs[i].V = x }, func() { n.Pairs = append(n.Pairs[:i:i], n.Pairs[i+1:]...) }, n.Pairs[i].V})
			rec(n.Pairs[i].V)
		}
		for i := range n.Items {
			i := i
			ps = append(ps, place{func(x *N) { n.Items[i] = x }, func() { n.Items = append(n.Items[:i:i], n.Items[i+1:]...) }, n.Items[i]})
			rec(n.Items[i])
		}
	}
	rec(m)
	if len(ps) == 0 {
		return
	}
	p := pick(g, ps, "place")
	switch g.weighted("mutation", 20, 12, 10, 10, 8, 8, 8, 12, 6, 6) {
	case 0:
		p.set(Null())
	case 1:
		p.set(&N{Kind: "v", Tag: "!!null", Val: ""})
	case 2:
		p.set(Seq())
	case 3:
		p.set(&N{Kind: "m"})
	case 4:
		p.set(Seq(p.n.Copy()))
	case 5:
		p.set(I(g.n(-2, 3, "number")))
	case 6:
		p.set(S(""))
	case 7:
		p.del()
	case 8:
		p.set(S(pick(g, []string{"$", "..", "*", "$..*", "a[0]", "[*]", "a~", "~", "inject", "merge", "delete", "combine", "replace", "%v", "$..a", "a.b.c", "[0]", "[-1]", "[::2]", "[?(@)]", "a[?(@.b==1)]", "()"}, "text")))
	default:
		q := pick(g, ps, "from")
		p.set(q.n.Copy())
	}
}

// mutatedBytes damages one of the files; whatever it means then, yot must not
// crash.
func (g *G) mutatedBytes() *Case {
	s, _, args := g.errScene()
	c := s.newCase()
	var names []string
	c.Files["w/cwd/v.yaml"] = "a: 1\nb: [x, {c: d}]\n"
	values := g.yes(30, "with values")
	for _, k := range sortedKeys(c.Files) {
		if k != "w/cwd/v.yaml" || values {
			names = append(names, k)
		}
	}
	f := pick(g, names, "damaged file")
	b := []byte(c.Files[f])
	for k := g.n(1, 4, "damages"); k > 0; k-- {
		if len(b) == 0 {
			break
		}
		i := g.n(0, len(b)-1, "offset")
		j := i + g.n(1, 12, "length")
		if j > len(b) {
			j = len(b)
		}
		ins := pick(g, []string{"\x00", "\xff", "\xef\xbb\xbf", "\n", "\t", " ", ":", ": ", "- ", "*", "&", "&a ", "*a", "!", "!!", "!!int ", "!!binary ", "|", ">", "|\n", "'", "\"", "[", "]", "{", "}", ",", "#", " #", "?", "? ", "%", "---\n", "...\n", "<<: ", "\r", "\u0085", "\u2028", "~", "null", "{{", "}}", "%v", "@", "`", "\\"}, "inserted")
		switch g.n(0, 3, "damage") {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1:
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 2:
			b = append(b[:i:i], append([]byte(ins), b[j:]...)...)
		default:
			b = append(b[:j:j], b[i:]...)
		}
	}
	c.Files[f] = string(b)
	oldReads(string(b))
	run := Run{Args: append(args, "-o", "{R}"+outAbs)}
	if values {
		run.Args = append(run.Args, "-f", "v.yaml")
	}
	c.Runs = []Run{run}
	c.Asserts = []Assert{{Kind: "nocrash"}, {Kind: "speaks"}}
	c.label("damaged files")
	c.NonTrivial = true
	return c
}
