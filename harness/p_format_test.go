package harness

import (
	"strings"
	"testing"
)

// markedText draws a text with markers.
func (g *G) markedText(key bool) string {
	pats := []string{"%v", "pre-%v", "%v-post", "x%vy%vz", "%v%v", "%%v", "%v%", "100% %v", "%V %v", "%x%v", "a: %v # b", "%v{", "%v{}",
		"%v{s/a/b/g}", "%v{s/e/E/}", "pre/%v{s/[0-9]+/N/g}", "%v{y/abc/xyz/}", "%v{s/^/in-/}", "%v{s/$/-end/}-%v", "%v{s/a/b/g;s/b/cc/}", "%v{s|/|_|g}-%v{s/x/%y/g}", "%l", "%v|%l", "%v %h%f",
		"%v{s/a}-%v{s/e/E/g}%v{y/abc/xyz/}", "%v{s/e/E/g}-%v{s/a}"}
	if g.yes(12, "marked lines") {
		// texts of several lines
		pats = []string{"one %v\ntwo %v\n", "%v\n%v", "a\n\n%v{s/a/b/g}\nz\n", "first\n%l\n%v{s/e/E/}"}
	}
	if key {
		pats = append(pats, "%k", "%k=%v", "%k{s/a/b/g}:%v", "%v%k%v", "%k%l")
	}
	return pick(g, pats, "marked")
}

func (g *G) markedScalar(o *N, key bool) *N {
	n := &N{Kind: "v", Tag: "!!str", Val: g.markedText(key), Style: "dq"}
	if o != nil && (o.Tag == "!!int" || o.Tag == "!!float" || o.Tag == "!!bool") && g.yes(35, "forced type") {
		n.Tag, n.Val, n.Style = o.Tag, "%v", "tagged"
	}
	if g.yes(30, "unmarked") {
		n = S(g.word())
	}
	if g.yes(35, "comment") && !strings.Contains(n.Val, "\n") {
		n.Line = "# " + pick(g, []string{"was %v", "%l", "old:%l.", "%v and %v{s/a/b/g}", "plain", "%h%l%f", "%v{y/abc/xyz/}"}, "markedComment")
		if key && g.yes(40, "key in comment") {
			n.Line = "# " + pick(g, []string{"%k was %v", "+workload:%k:default=\"%v\":type=string"}, "keyComment")
		}
	}
	return n
}

// markedHead draws a comment above a key.
func (g *G) markedHead() string {
	if !g.yes(50, "head comment") {
		return ""
	}
	return "# " + pick(g, []string{"was %v", "%k was %v", "%h", "%h, %k", "plain", "%l|%f|%h", "%k{s/a/b/g}", "%h{s/a/b/g}%l"}, "markedHead")
}

// markedValue draws a merge value for o.
func (g *G) markedValue(o *N, key bool, depth int) *N {
	switch {
	case o.Kind == "v":
		return g.markedScalar(o, key)
	case o.Kind == "s":
		s := Seq()
		for k := g.n(1, 2, "items"); k > 0; k-- {
			if g.yes(50, "plain item") {
				s.Items = append(s.Items, S(g.word()))
			} else {
				s.Items = append(s.Items, g.markedScalar(nil, false))
			}
		}
		for _, it := range s.Items {
			it.Line = ""
		}
		return s
	}
	m := &N{Kind: "m"}
	if g.yes(55, "all keys") {
		k := &N{Kind: "v", Tag: "!!str", Val: pick(g, []string{"%k", "app.io/%k", "%k-x", "%k{s/a/b/g}", "%k.%k", "%k-%v", "x/%k{y/abc/xyz/}-%v{s/e/E/g}"}, "markedKey"), Style: "dq"}
		k.Head = g.markedHead()
		m.Pairs = append(m.Pairs, &P{k, g.markedScalar(nil, true)})
		return m
	}
	for _, p := range o.Pairs {
		if depth > 0 && g.yes(45, "share") && !hasMarker(p.K.Val) {
			m.Pairs = append(m.Pairs, &P{p.K.Copy(), g.markedValue(p.V, true, depth-1)})
		}
	}
	if len(m.Pairs) == 0 || g.yes(25, "new key") {
		v := g.markedScalar(nil, true)
		v.Line = ""
		if v.Tag == "!!str" {
			m.Set(g.id("new"), v)
		}
	}
	for _, p := range m.Pairs {
		p.K.Head, p.K.Line, p.K.Foot = g.markedHead(), "", ""
	}
	return m
}

// C13: format markers.
func TestC13(t *testing.T) {
	check(t, "C13", func(g *G) *Case {
		g.bare = true
		notes := g.yes(50, "comments")
		ss, es := g.srcs(1+g.weighted("files", 80, 20), 2, func() *N {
			o := VOpt{Depth: 3, Width: 4, Plain: g.yes(40, "plain"), Markers: !notes, TextKeys: notes}
			d := g.mapDoc(o)
			if g.yes(50, "labels") {
				l := &N{Kind: "m"}
				for k := g.n(1, 4, "labels"); k > 0; k-- {
					l.Set(g.id(pick(g, keyPool, "label")), g.scalar(VOpt{Plain: g.yes(70, "plain label"), Markers: true}))
				}
				if d.Get("labels") == nil {
					d.Set("labels", l)
				}
			}
			noFlow(d)
			if notes {
				oneLine(d)
				g.notes(d, 25)
			}
			return d
		})
		if notes {
			for _, x := range ss {
				if !commentsFaithful(x.Docs, x.Text) {
					panic(discard{"the library reads these comments elsewhere"})
				}
			}
		}
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		c0 := &Case{}
		for f := range ss {
			ds := copyDocs(ss[f].Docs)
			for k := g.n(1, 3, "overlays"); k > 0; k-- {
				d := pick(g, ds, "doc")
				want := g.weighted("target", 45, 45, 10)
				q, ok := g.query(d.Root, 30, func(n *N) bool {
					switch want {
					case 0:
						return n.Kind == "v"
					case 1:
						return n.Kind == "m" && len(n.Pairs) > 0
					}
					return n.Kind == "s"
				})
				if !ok {
					continue
				}
				o := &Overlay{Name: g.id("n"), Action: pick(g, []string{"merge", "merge", ""}, "action"), Query: []Q{q}, Marked: true}
				if !o.safe(ds) {
					continue
				}
				res := FindAll(o.Query, d.Root)
				if len(res) == 0 {
					continue
				}
				o.Value = g.markedValue(res[0], false, 2)
				o.Value.Walk(func(v *N) {
					if !notes {
						v.Line = ""
						for _, p := range v.Pairs {
							p.K.Head = ""
						}
					}
				})
				if !o.Value.marked() {
					continue
				}
				for _, dd := range ds {
					for _, r := range FindAll(o.Query, dd.Root) {
						noNewlinesIn(o.Value, r)
					}
				}
				if err := applyAll(o, ds, "ignore"); err != nil {
					panic(discard{"rejected"})
				}
				es[f].Overlays = append(es[f].Overlays, o)
				c0.NonTrivial = true
				o.Value.Walk(func(v *N) {
					c0.labelIf(strings.Contains(v.Val, badCommand+"}"), "command sed rejects")
					c0.labelIf(strings.Contains(v.Val, "{"), "sed command")
					c0.labelIf(v.Style == "tagged", "forced type")
					c0.labelIf(hasMarker(v.Line), "markers in a comment")
					for _, p := range v.Pairs {
						c0.labelIf(hasMarker(p.K.Val), "marker key")
						c0.labelIf(hasMarker(p.K.Head), "markers above a key")
					}
				})
				c0.labelIf(res[0].Kind == "v" && hasMarker(res[0].Val), "original looks like a marker")
			}
		}
		c := s.newCase()
		c.Labels, c.NonTrivial = c0.Labels, c0.NonTrivial
		if !notes {
			return s.finish(c)
		}
		if !commentsFaithful([]*N{s.Instr.Node()}, s.Instr.Text()) {
			panic(discard{"the library reads the comments of the instructions elsewhere"})
		}
		want, _, err := s.wantComments()
		must(err)
		c.Runs = []Run{{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}}}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "comments", Dir: outAbs, Files: want}}
		c.label("with comments")
		return c
	})
}

// noNewlinesIn discards comments made from texts of several lines.
func noNewlinesIn(v, o *N) {
	marks := false
	v.Walk(func(x *N) { marks = marks || hasMarker(x.Line) })
	if marks {
		o.Walk(func(x *N) {
			if strings.Contains(x.Val, "\n") {
				panic(discard{"comment of several lines"})
			}
		})
	}
}
