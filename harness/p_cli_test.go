package harness

import (
	"strings"
	"testing"
)

// adhocArgs gives an overlay on the command line.
func (g *G) adhocArgs(o *Overlay) (args []string) {
	var parts [][]string
	for _, q := range o.Query {
		s := q.String()
		parts = append(parts, pick(g, [][]string{{"-q", s}, {"--query", s}, {"--query=" + s}}, "query flag"))
	}
	act := o.Action
	if act == "" && g.yes(50, "spell out merge") {
		act = "merge"
	}
	if act != "" {
		if g.yes(20, "upper case") {
			act = strings.ToUpper(act)
		}
		parts = append(parts, pick(g, [][]string{{"-a", act}, {"--action", act}, {"--action=" + act}}, "action flag"))
	}
	if o.Value != nil {
		v := strings.TrimSpace(flowText(o.Value.Copy()))
		if g.yes(30, "block value") {
			v = Emit(o.Value, 2)
			if g.yes(50, "no newline") && !strings.HasSuffix(v, "\n\n") {
				v = strings.TrimSuffix(v, "\n")
			}
		}
		if v != "" {
			selfCheck([]*N{o.Value}, v)
		}
		if len(o.Value.Pairs) == 2 && o.Value.Pairs[0].K.Val == "al-1" {
			v = "{al-1: &x " + flowText(o.Value.Pairs[0].V) + ", al-2: *x }"
			if g.yes(50, "merge key") && o.Value.Pairs[0].V.Kind == "v" {
				v = "al-1: &x_1 " + flowText(o.Value.Pairs[0].V) + "\nal-2: *x_1\n"
			}
			selfCheck([]*N{o.Value}, v)
		}
		parts = append(parts, pick(g, [][]string{{"-x", v}, {"--value", v}, {"--value=" + v}}, "value flag"))
	}
	// queries keep their order
	for i := len(parts) - 1; i > len(o.Query); i-- {
		j := g.n(len(o.Query), i, "swap")
		parts[i], parts[j] = parts[j], parts[i]
	}
	for _, p := range parts {
		args = append(args, p...)
	}
	return args
}

// C20: overlays, files and instructions given on the command line.
func TestC20(t *testing.T) {
	check(t, "C20", func(g *G) *Case {
		doc := func() *N {
			if g.yes(25, "records") {
				return g.recordDoc()
			}
			return g.anyDoc()
		}
		mode := pick(g, []string{"path only", "path only", "stdin", "stdin", "with instructions", "with instructions", "with instructions and path", "instructions from stdin", "stdin with instructions", "listed path", "listed path", "directory"}, "mode")
		nf := 1
		switch mode {
		case "with instructions", "instructions from stdin", "listed path", "directory":
			nf = 1 + g.weighted("files", 60, 30, 10)
		case "with instructions and path", "stdin with instructions":
			nf = g.n(2, 3, "files")
		}
		ss, es := g.srcs(nf, 3, doc)
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		c0 := &Case{}
		c0.label(mode)
		c0.NonTrivial = mode == "listed path" || mode == "directory"
		states := make([][]*Doc, nf)
		var all []*Doc
		for i, x := range ss {
			states[i] = copyDocs(x.Docs)
			all = append(all, states[i]...)
		}
		listed := nf // files in the instructions
		if mode == "directory" {
			listed = g.n(0, nf, "listed")
			there := false
			for i, x := range ss {
				there = there || strings.HasPrefix(x.Path, "/w/in/")
				if !strings.HasPrefix(x.Path, "/w/in/") && i >= listed {
					panic(discard{"not in the directory"})
				}
			}
			if !there {
				panic(discard{"no such directory"})
			}
		} else if !strings.Contains(mode, "instructions") && mode != "listed path" {
			listed = 0
		} else if mode == "with instructions and path" || mode == "stdin with instructions" {
			listed = nf - 1
		}
		draw := func(act string, ds []*Doc) *Overlay {
			o := g.drawOverlay(act, ds, 35)
			for k := 0; k < 6 && o == nil; k++ {
				o = g.drawOverlay(pick(g, []string{"merge", "replace"}, "action"), ds, 35)
			}
			if o == nil {
				return nil
			}
			if o.Value != nil && (o.Action == "merge" || o.Action == "replace") && g.yes(15, "aliases in the value") {
				v := g.overlayValue(g.n(0, 2, "valueDepth"))
				if v.Kind != "v" || v.Tag != "!!null" {
					o.Value = Map("al-1", v, "al-2", v.Copy())
					c0.label("aliases in a value")
				}
			}
			if o.Value != nil {
				// nothing and null are written differently
				o.Value.Walk(func(n *N) {
					if n.Kind == "v" && n.Tag == "!!null" && n.Val == "" {
						n.Val = "null"
					}
				})
			}
			if applyAll(o, ds, "ignore") != nil {
				panic(discard{"rejected"})
			}
			return o
		}
		if listed > 0 && g.yes(50, "common") {
			if o := draw(pick(g, []string{"merge", "replace"}, "action"), all); o != nil {
				s.Instr.Common = append(s.Instr.Common, o)
			}
		}
		if g.yes(85, "overlay") {
			s.AdHoc = draw(pick(g, []string{"merge", "merge", "replace", "delete", "combine"}, "action"), all)
		}
		for f := 0; f < listed; f++ {
			if g.yes(50, "own overlay") {
				if o := draw(pick(g, []string{"merge", "replace", "delete"}, "action"), states[f]); o != nil {
					es[f].Overlays = append(es[f].Overlays, o)
				}
			}
		}
		var args []string
		if s.AdHoc != nil {
			c0.NonTrivial = true
			c0.label("overlay: " + s.AdHoc.Action)
			c0.labelIf(len(s.AdHoc.Query) > 1, "several queries")
			args = g.adhocArgs(s.AdHoc)
		}
		// the same as instructions
		var paths []string
		for _, x := range ss {
			paths = append(paths, x.Path)
		}
		full := *s.Instr
		if s.AdHoc != nil {
			o := *s.AdHoc
			o.Name = "n"
			full.Common = append(append([]*Overlay{}, s.Instr.Common...), &o)
		}
		c := (&Scene{Srcs: ss, Instr: &full}).newCase()
		c.Labels, c.NonTrivial = c0.Labels, c0.NonTrivial
		docLabels(c, ss)
		c.Files["w/cwd/full.yaml"] = c.Files["w/cwd/i.yaml"]
		part := Instr{Common: s.Instr.Common, Files: es[:listed]}
		c.Files["w/cwd/i.yaml"] = part.Text()
		names := outNames(paths)
		run := Run{Args: args, Env: map[string]string{}}
		last := ss[nf-1]
		named := "{R}" + last.Path
		switch mode {
		case "listed path":
			named = "{R}" + pick(g, ss, "named").Path
		case "directory":
			named = "{R}/w/in"
		}
		if strings.HasPrefix(named, "{R}/w/in") && g.yes(20, "spelling") {
			named = strings.Replace(named, "/w/in", pick(g, []string{"/w/./in", "/w//in", "/w/cwd/../in"}, "spelling"), 1)
		} else if g.yes(50, "relative path") {
			named = rel("/w/cwd", strings.TrimPrefix(named, "{R}"))
		}
		switch mode {
		case "path only", "listed path", "directory":
			run.Args = append(run.Args, pick(g, [][]string{{"-p", named}, {"--path", named}, {"--path=" + named}}, "path flag")...)
		case "stdin", "stdin with instructions":
			run.Stdin = last.Text
			run.Args = append(run.Args, pick(g, [][]string{{"-p", "-"}, {"--path=-"}}, "path flag")...)
		case "with instructions and path":
			run.Args = append(run.Args, "-p", named)
		case "instructions from stdin":
			run.Stdin = c.Files["w/cwd/i.yaml"]
			run.Args = append(run.Args, "-i", "-")
			delete(c.Files, "w/cwd/i.yaml")
		}
		if mode != "instructions from stdin" && listed > 0 {
			run.Args = append(run.Args, "-i", "i.yaml")
		}
		if strings.HasPrefix(mode, "stdin") {
			names = outNames(paths[:nf-1])
			names[last.Path] = "stdin.yaml"
		}
		run.Args = append(run.Args, "-o", "{R}"+outAbs)
		want := map[string][]string{}
		common := append([]*Overlay{}, full.Common...)
		for i, x := range ss {
			docs, err := Process(x.Docs, common, es[i].Overlays, nil, "ignore")
			if err != nil {
				panic(discard{"rejected"})
			}
			if len(docs) > 0 {
				want[names[x.Path]] = CanonAll(docs)
			}
		}
		c.Runs = []Run{run, {Args: []string{"-i", "full.yaml", "-o", "{R}" + outAbs}, Clean: true}}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "ok", Run: 1}, {Kind: "files", Dir: outAbs, Files: want}}
		if !strings.HasPrefix(mode, "stdin") {
			c.Asserts = append(c.Asserts, Assert{Kind: "sameout", Dir: outAbs, Dir2: outAbs, Run2: 1})
		}
		if mode == "listed path" || mode == "with instructions and path" {
			run.Args = append(append([]string{}, run.Args...), "-s")
			c.Runs = append(c.Runs, run)
			c.Asserts = append(c.Asserts, Assert{Kind: "ok", Run: 2}, Assert{Kind: "stdout", Run: 2, Files: want})
		}
		return c
	})
}
