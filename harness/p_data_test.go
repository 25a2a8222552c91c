package harness

import (
	"strconv"
	"testing"
)

// finish adds the run and the expectations every overlay scenario shares: the
// output directory holds exactly the documents the reference semantics gives.
func (s *Scene) finish(c *Case, args ...string) *Case {
	want, err := s.expected()
	c.Runs = append(c.Runs, Run{Args: append([]string{"-i", "i.yaml", "-o", "{R}" + outAbs}, args...)})
	if err != nil {
		c.Asserts = append(c.Asserts, Assert{Kind: "fails"})
		c.label("rejected")
		return c
	}
	c.Asserts = append(c.Asserts,
		Assert{Kind: "ok"},
		Assert{Kind: "files", Dir: outAbs, Files: want},
	)
	return c
}

func docLabels(c *Case, ss []*Src) {
	depth, docs, odd, multi := 0, 0, false, false
	for _, s := range ss {
		docs += len(s.Docs)
		if len(s.Docs) > 1 {
			multi = true
		}
		for _, d := range s.Docs {
			if k := d.Depth(); k > depth {
				depth = k
			}
			d.Walk(func(n *N) {
				if n.Kind == "v" && n.Tag == "!!str" && !plainOK(n.Val) {
					odd = true
				}
				if n.Kind == "s" && len(n.Items) >= 10 {
					c.label("sequence of ten or more")
				}
			})
		}
	}
	c.labelIf(depth >= 5, "nesting of five or more")
	c.labelIf(docs >= 3, "three or more documents")
	c.labelIf(multi, "multi-document file")
	c.labelIf(len(ss) > 1, "several files")
	c.labelIf(odd, "text that needs quoting")
}

// overlayScene is the scenario behind the action properties: files, then a
// sequence of overlays drawn against the evolving documents.
func overlayScene(g *G, action string, maxOverlays int, doc func() *N) (*Scene, *Case) {
	nf := 1 + g.weighted("files", 70, 22, 8)
	ss, es := g.srcs(nf, 3, doc)
	s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
	c := &Case{}
	states := make([][]*Doc, nf)
	var all []*Doc
	for i, x := range ss {
		states[i] = copyDocs(x.Docs)
		all = append(all, states[i]...)
	}
	draw := func(ds []*Doc, lst *[]*Overlay) {
		act := action
		if g.yes(15, "otherAction") {
			act = pick(g, []string{"merge", "replace", "delete"}, "action")
		}
		o := g.drawOverlay(act, ds, 35)
		if o == nil {
			return
		}
		c.mutationLabels(o, ds)
		if act == action {
			for _, d := range ds {
				if !d.Gone && len(FindAll(o.Query, d.Root)) > 0 {
					c.NonTrivial = true
				}
			}
		}
		*lst = append(*lst, o)
		if err := applyAll(o, ds, "ignore"); err != nil {
			return
		}
	}
	for i, k := 0, g.n(0, 2, "common"); i < k && nf > 1; i++ {
		draw(all, &s.Instr.Common)
	}
	for f := 0; f < nf; f++ {
		for i, k := 0, g.n(1, maxOverlays, "overlays"); i < k; i++ {
			draw(states[f], &es[f].Overlays)
		}
	}
	b := s.newCase()
	b.Labels, b.NonTrivial = c.Labels, c.NonTrivial
	docLabels(b, ss)
	return s, b
}

// C01: what no overlay selects comes out as it went in.
func TestC01(t *testing.T) {
	check(t, "C01", func(g *G) *Case {
		nf := 1 + g.weighted("files", 70, 20, 10)
		g.anySyntax = 40
		exotic := g.yes(20, "exotic")
		if exotic {
			g.anySyntax = 100
		}
		ss, es := g.srcs(nf, 4, func() *N {
			if exotic {
				o := g.docOpt()
				o.Exotic = true
				return g.doc(o)
			}
			if g.yes(65, "mapping root") {
				return g.mapDoc(g.docOpt())
			}
			return g.anyDoc()
		})
		// a marked spot in some documents for overlays to hit
		for _, x := range ss {
			hit := false
			for _, d := range x.Docs {
				if d.Kind == "m" && d.Style != "flow" && g.yes(40, "spot") {
					d.Pairs = append(d.Pairs, &P{S("zz-spot"), Map("old", S("v"))})
					hit = true
				}
			}
			if hit {
				x.Text = g.file(x.Docs)
			}
		}
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		spot := []Q{{Segs: []Seg{{T: "child", Name: "zz-spot"}}}}
		for i := range ss {
			for k := g.n(0, 2, "overlays"); k > 0; k-- {
				switch g.n(0, 4, "what") {
				case 0:
					es[i].Overlays = append(es[i].Overlays, &Overlay{Query: spot, Action: "merge", Value: Map("new", S("w"))})
				case 1:
					es[i].Overlays = append(es[i].Overlays, &Overlay{Query: spot, Action: "delete"})
				case 2:
					es[i].Overlays = append(es[i].Overlays, &Overlay{Query: spot, Action: "replace", Value: Seq(S("r"))})
				case 3:
					es[i].Overlays = append(es[i].Overlays, &Overlay{Query: []Q{{Segs: []Seg{{T: "child", Name: "no-such-key"}, {T: "wild"}}}}, Action: "replace", Value: S("r")})
				default:
					es[i].Overlays = append(es[i].Overlays, &Overlay{Query: []Q{{Segs: []Seg{{T: "rec", Name: "no-such-key"}}}}, Action: "delete"})
				}
			}
		}
		c := s.newCase()
		docLabels(c, ss)
		c.labelIf(exotic, "other tags and complex keys")
		for _, x := range ss {
			for _, d := range x.Docs {
				if d.Size() > 3 {
					c.NonTrivial = true
				}
			}
		}
		var args []string
		if g.yes(30, "indent") {
			args = append(args, "-I", strconv.Itoa(g.n(2, 9, "indentLevel")))
			c.label("other indentation")
		}
		return s.finish(c, args...)
	})
}

func docGen(g *G) func() *N {
	return g.anyDoc
}

// C02: merge.
func TestC02(t *testing.T) {
	check(t, "C02", func(g *G) *Case {
		s, c := overlayScene(g, "merge", 3, docGen(g))
		return s.finish(c)
	})
}

// C03: replace.
func TestC03(t *testing.T) {
	check(t, "C03", func(g *G) *Case {
		s, c := overlayScene(g, "replace", 3, docGen(g))
		return s.finish(c)
	})
}

// C04: delete.
func TestC04(t *testing.T) {
	check(t, "C04", func(g *G) *Case {
		s, c := overlayScene(g, "delete", 4, docGen(g))
		return s.finish(c)
	})
}

// C05: combine.
func TestC05(t *testing.T) {
	check(t, "C05", func(g *G) *Case {
		g.binary = g.yes(15, "binary")
		s, c := overlayScene(g, "combine", 3, docGen(g))
		return s.finish(c)
	})
}
