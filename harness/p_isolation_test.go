package harness

import (
	"fmt"
	"strings"
	"testing"
)

// anyOverlay draws an overlay of any kind, markers and comments included, that
// is only compared with itself.
func (g *G) anyOverlay(ds []*Doc) *Overlay {
	act := pick(g, []string{"merge", "merge", "replace", "delete", "combine"}, "action")
	o := g.drawOverlay(act, ds, 35)
	if o == nil {
		return nil
	}
	if o.Value != nil {
		noFlow(o.Value)
		g.lineNotes(o.Value, 25)
		if act == "merge" && g.yes(35, "markers") {
			o.Value.Walk(func(v *N) {
				if v.Kind == "v" && v.Tag == "!!str" && !strings.Contains(v.Val, "\n") && g.yes(60, "marker") {
					v.Val = pick(g, []string{"%v-x", "x%vy%v", "%k/%v", "%v{s/a/b/g}", "%l"}, "marked")
					v.Style = "dq"
					if g.yes(30, "marked comment") {
						v.Line = "# was %v %l"
					}
				}
			})
			if o.Value.Kind == "m" && g.yes(30, "marker key") {
				o.Value.Pairs[0].K = &N{Kind: "v", Tag: "!!str", Val: pick(g, []string{"%k", "%k.x", "p-%k"}, "markedKey"), Style: "dq"}
			}
		}
	}
	if g.yes(25, "missing") {
		o.Query = []Q{g.missing(pick(g, ds, "doc").orEmpty(), 3)}
		o.OnMissing = pick(g, []string{"inject", "", "ignore", "default"}, "onMissing")
		if g.yes(30, "injectPath") {
			o.InjectPath = []Q{g.missing(pick(g, ds, "doc").orEmpty(), 3)}
			o.Query = []Q{{Segs: []Seg{{T: "rec", Name: g.id("none")}}}}
		}
	}
	if g.yes(20, "documentQuery") {
		o.DocQuery = [][]Cond{{g.condition(pick(g, ds, "like"))}}
	}
	if g.yes(15, "documentIndex") {
		o.DocIndex = []int{g.n(0, 2, "docIndex")}
	}
	return o
}

// C10: files are processed independently, whatever the schedule.
func TestC10(t *testing.T) {
	check(t, "C10", func(g *G) *Case {
		nf := g.n(2, 6, "files")
		if g.yes(6, "many") {
			nf = g.n(12, 30, "many files")
			if g.yes(12, "very many") {
				nf = g.n(60, 150, "very many files")
			}
		}
		c := &Case{Files: map[string]string{}}
		in := &Instr{}
		var all []*Doc
		states := make([][]*Doc, nf)
		base := VOpt{Depth: 3, Width: 3, Plain: g.yes(30, "plain")}
		proto := g.mapping(base, 1)
		for i := 0; i < nf; i++ {
			var docs []*N
			for k := 1 + g.weighted("docs", 70, 20, 10); k > 0; k-- {
				d := proto.Copy()
				if g.yes(60, "own content") {
					d.Set(g.id("own"), g.value(base))
				}
				if g.yes(25, "drop") && len(d.Pairs) > 1 {
					d.Pairs = d.Pairs[1:]
				}
				noFlow(d)
				if g.yes(30, "comments") {
					g.notes(d, 20)
				}
				docs = append(docs, d)
			}
			p := fmt.Sprintf("w/in/d%d/f%d.yaml", i%3, i)
			c.Files[p] = g.file(docs)
			states[i] = copyDocs(docs)
			all = append(all, states[i]...)
			in.Files = append(in.Files, &Entry{Name: g.id("n"), Path: "{R}/" + p, OutputPath: fmt.Sprintf("o%d.yaml", i)})
		}
		for k := g.n(1, 4, "common"); k > 0; k-- {
			if o := g.anyOverlay(all); o != nil {
				in.Common = append(in.Common, o)
			}
		}
		for i, e := range in.Files {
			if i >= 6 {
				break
			}
			for k := g.n(0, 2, "overlays"); k > 0; k-- {
				if o := g.anyOverlay(states[i]); o != nil {
					e.Overlays = append(e.Overlays, o)
				}
			}
		}
		if len(in.Common) == 0 {
			panic(discard{"no common overlay"})
		}
		env := map[string]string{}
		if g.yes(40, "inject by default") {
			env["YOT_DEFAULT_ON_MISSING_ACTION"] = "inject"
		}
		if g.yes(25, "more settings") {
			env["YOT_INDENT_LEVEL"] = "4"
		}
		file := func(name string, es []*Entry) {
			x := &Instr{Common: in.Common, Files: es}
			txt := x.Text()
			selfCheck([]*N{x.Node()}, txt)
			c.Files["w/cwd/"+name] = txt
		}
		procs := func(p string) map[string]string {
			e := map[string]string{"GOMAXPROCS": p}
			for k, v := range env {
				e[k] = v
			}
			return e
		}
		file("all.yaml", in.Files)
		out := func(i int) string { return fmt.Sprintf("/w/cwd/out%d", i) }
		run := func(name, p, bin string) int {
			i := len(c.Runs)
			c.Runs = append(c.Runs, Run{Args: []string{"-i", name, "-o", "{R}" + out(i)}, Env: procs(p), Bin: bin})
			return i
		}
		run("all.yaml", pick(g, []string{"8", "2", "1"}, "GOMAXPROCS"), "")
		// the same entries in another order
		perm := append([]*Entry{}, in.Files...)
		for i := len(perm) - 1; i > 0; i-- {
			j := g.n(0, i, "swap")
			perm[i], perm[j] = perm[j], perm[i]
		}
		file("perm.yaml", perm)
		run("perm.yaml", pick(g, []string{"4", "1", "8"}, "GOMAXPROCS"), "")
		run("all.yaml", "8", "")
		same := []int{1, 2}
		if g.yes(50, "race detector") {
			same = append(same, run("all.yaml", "4", "race"))
			c.Asserts = append(c.Asserts, Assert{Kind: "norace", Run: len(c.Runs) - 1})
			c.label("under the race detector")
		}
		// every file on its own
		alone := len(c.Runs)
		k := nf
		if k > 6 {
			k = 6
		}
		var names []string
		for i := 0; i < k; i++ {
			n := fmt.Sprintf("one%d.yaml", i)
			file(n, in.Files[i:i+1])
			names = append(names, fmt.Sprintf("o%d.yaml", i))
			run(n, "2", "")
		}
		c.Asserts = append(c.Asserts, Assert{Kind: "isolated", Run: 0, List: names, Run2: alone, Path: fmt.Sprint(nf)})
		for _, i := range same {
			c.Asserts = append(c.Asserts, Assert{Kind: "samecode", Run: 0, Run2: i})
			c.Asserts = append(c.Asserts, Assert{Kind: "sameoutok", Run: i, Dir: out(i), Run2: 0, Dir2: out(0)})
		}
		for i := range c.Runs {
			c.Asserts = append(c.Asserts, Assert{Kind: "nocrash", Run: i})
		}
		touched := 0
		for i := range states {
			hit := false
			for _, d := range states[i] {
				for _, o := range in.Common {
					hit = hit || len(FindAll(o.Query, d.Root)) > 0
				}
			}
			if hit {
				touched++
			}
		}
		c.NonTrivial = touched >= 2
		c.labelIf(touched >= 2, "common overlay reaches several files")
		c.labelIf(nf >= 12, "twelve or more files")
		c.labelIf(len(in.Common) >= 3, "three or more common overlays")
		c.labelIf(env["YOT_DEFAULT_ON_MISSING_ACTION"] != "", "inject by default")
		return c
	})
}

func init() {
	// "isolated": run 0's outputs are those of the files' own runs; it fails
	// exactly when one of them does
	extraChecks["isolated"] = func(c *Case, a *Assert, rs []*Result) error {
		var nf int
		fmt.Sscan(a.Path, &nf)
		failed := false
		for i := range a.List {
			failed = failed || rs[a.Run2+i].Code != 0
		}
		all := rs[a.Run]
		if failed {
			if all.Code == 0 {
				return fmt.Errorf("succeeds, though a file fails on its own")
			}
			return nil
		}
		if all.Code != 0 {
			if len(a.List) < nf {
				return nil // one of the files not run on their own may fail
			}
			return fmt.Errorf("exit status %d, though every file succeeds on its own", all.Code)
		}
		for i, n := range a.List {
			one, ok1 := rs[a.Run2+i].FS[fmt.Sprintf("/w/cwd/out%d/%s", a.Run2+i, n)]
			got, ok2 := all.FS[fmt.Sprintf("/w/cwd/out%d/%s", a.Run, n)]
			if ok1 != ok2 || one != got {
				return fmt.Errorf("%s differs from processing that file alone\n--- alone (%v)\n%s\n--- together (%v)\n%s", n, ok1, clip(one), ok2, clip(got))
			}
		}
		return nil
	}
	extraChecks["sameoutok"] = func(c *Case, a *Assert, rs []*Result) error {
		if rs[a.Run].Code != 0 || rs[a.Run2].Code != 0 {
			return nil
		}
		return sameMap(below(rs[a.Run].FS, a.Dir), below(rs[a.Run2].FS, a.Dir2))
	}
}
