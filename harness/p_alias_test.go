package harness

import (
	"fmt"
	"strings"
	"testing"
)

// tangle puts anchors and aliases into a document; it reports how many aliases
// there are.
func (g *G) tangle(root *N, again bool) int {
	type undo func()
	aliases := 0
	for k := 1 + g.weighted("aliases", 20, 30, 30, 20); k > 0; k-- {
		var nodes []*N
		root.Walk(func(n *N) {
			if n != root && n.Kind != "a" && !(n.Kind == "v" && n.Tag == "!!merge") {
				nodes = append(nodes, n)
			}
		})
		if len(nodes) == 0 {
			return aliases
		}
		x := pick(g, nodes, "anchored")
		if g.yes(60, "again") {
			// another alias of a node that has an anchor, or a collection
			var better []*N
			for _, n := range nodes {
				if n.Anchor != "" || n.Kind != "v" {
					better = append(better, n)
				}
			}
			if len(better) > 0 {
				x = pick(g, better, "anchored collection")
			}
		}
		// the places behind x
		before := true
		var spots []*N
		root.Walk(func(n *N) {
			if n == x {
				before = false
			}
			if !before {
				spots = append(spots, n)
			}
		})
		root.Walk(func(n *N) {
			if n != x && n.Kind == "m" && len(n.Pairs) > 0 && !inside(n, root, x) {
				spots = append(spots, n)
			}
		})
		// keys of the file are text, so the names of anchors never equal them
		had := x.Anchor
		if had == "" {
			x.Anchor = g.id("anchor")
			if again && g.yes(40, "reuse") {
				x.Anchor = "anchor"
			}
		}
		a := &N{Kind: "a", Val: x.Anchor, Target: x}
		var back undo
		s := pick(g, spots, "spot")
		switch {
		case s.Kind == "m" && x.Kind == "m" && g.yes(25, "merge key") && !hasMergeKey(s):
			p := &P{&N{Kind: "v", Tag: "!!merge", Val: "<<"}, a}
			s.Pairs = append(s.Pairs, p)
			back = func() { s.Pairs = s.Pairs[:len(s.Pairs)-1] }
		case s.Kind == "m" && x.Kind == "v" && x.Tag == "!!str" && x.Val != "" && x.Val != "<<" && s.Get(x.Val) == nil && g.yes(20, "key"):
			for _, p := range s.Pairs {
				if p.K.real().Val == x.Val {
					return aliases
				}
			}
			s.Pairs = append(s.Pairs, &P{a, S("below an alias")})
			back = func() { s.Pairs = s.Pairs[:len(s.Pairs)-1] }
		case s.Kind == "m":
			s.Pairs = append(s.Pairs, &P{S(g.id("al")), a})
			back = func() { s.Pairs = s.Pairs[:len(s.Pairs)-1] }
		case s.Kind == "s":
			s.Items = append(s.Items, a)
			back = func() { s.Items = s.Items[:len(s.Items)-1] }
		default:
			old := *s
			if s == x || s == root || s.Anchor != "" {
				x.Anchor = had
				continue
			}
			*s = *a
			a = s
			back = func() { *s = old }
		}
		if !tangleOK(root) {
			back()
			x.Anchor = had
			resolveAliases(root)
			continue
		}
		aliases++
	}
	return aliases
}

func hasMergeKey(m *N) bool {
	for _, p := range m.Pairs {
		if p.K.Tag == "!!merge" {
			return true
		}
	}
	return false
}

func inside(n, root, x *N) bool {
	in := false
	x.Walk(func(y *N) { in = in || y == n })
	return in
}

// tangleOK resolves the aliases of a document; it is false when one has no
// target or an anchored node has an alias to a part of itself.
func tangleOK(root *N) bool {
	resolveAliases(root)
	ok := true
	root.walkAll(func(n *N) {
		if n.Kind == "a" && n.Target == nil {
			ok = false
		}
	})
	if !ok {
		return false
	}
	root.walkAll(func(n *N) {
		if n.Anchor == "" || !ok {
			return
		}
		part := map[*N]bool{}
		n.walkAll(func(x *N) { part[x] = true })
		n.walkAll(func(x *N) {
			if x.Kind == "a" && part[x.Target] {
				ok = false
			}
		})
	})
	// keys may not become equal
	root.walkAll(func(n *N) {
		seen := map[string]bool{}
		for _, p := range n.Pairs {
			k := p.K.real()
			if k.Kind != "v" || seen[k.Val] {
				ok = false
			}
			seen[k.Val] = true
		}
	})
	return ok
}

// tangled finds the nodes an overlay should be aimed at.
func tangled(root *N) (touched map[*N]string) {
	touched = map[*N]string{}
	targets := map[*N]bool{}
	root.walkAll(func(n *N) {
		if n.Kind == "a" {
			touched[n] = "an alias"
			targets[n.Target] = true
		}
	})
	var rec func(n *N, under bool) bool
	rec = func(n *N, under bool) bool {
		holds := false
		if targets[n] {
			touched[n] = "an anchored node"
			holds, under = true, true
		} else if under && touched[n] == "" {
			touched[n] = "a part of an anchored node"
		}
		inner := false
		for _, p := range n.Pairs {
			inner = rec(p.V, under) || inner
		}
		for _, it := range n.Items {
			inner = rec(it, under) || inner
		}
		if inner && touched[n] == "" {
			touched[n] = "a parent of an anchored node"
		}
		return holds || inner
	}
	rec(root, false)
	return touched
}

// C22: anchors and aliases keep their meaning.
func TestC22(t *testing.T) {
	check(t, "C22", func(g *G) *Case {
		c := &Case{}
		nf := 1 + g.weighted("files", 80, 20)
		aliases := 0
		ss, es := g.srcs(nf, 2, func() *N {
			d := g.mapDoc(VOpt{Depth: g.n(2, 4, "depth"), Width: g.many(2, 4, 9, "width"), Plain: g.yes(60, "plain"), Styles: g.yes(40, "styles")})
			unflow := g.yes(70, "block style")
			d.walkAll(func(n *N) {
				if unflow && n.Kind != "v" {
					n.Style = ""
				}
				if n.Kind == "v" && n.Tag == "!!null" {
					n.Val = "null"
				}
			})
			aliases += g.tangle(d, g.yes(40, "names used again"))
			return d
		})
		if aliases == 0 {
			panic(discard{"no alias"})
		}
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		for i, x := range ss {
			states := copyDocs(x.Docs)
			var prev *Overlay
			for k := g.n(1, 5, "overlays"); k > 0; k-- {
				o := g.aliasOverlay(states, c)
				if o == nil {
					continue
				}
				if p := prev; p != nil && p.Value != nil && p.Value.Kind != "a" && o.Action != "delete" && o.Action != "combine" && g.yes(25, "same value") {
					if p.Value.Anchor == "" {
						p.Value.Anchor = g.id("val")
					}
					v := o.Value
					o.Value = &N{Kind: "a", Val: p.Value.Anchor, Target: p.Value}
					if !o.safe(states) {
						o.Value = v
					} else {
						c.label("overlay value given by an alias")
					}
				}
				prev = o
				es[i].Overlays = append(es[i].Overlays, o)
				if err := applyAll(o, states, ""); err == errRejected {
					break
				} else if err != nil {
					panic(discard{err.Error()})
				}
			}
		}
		b := s.newCase()
		b.Labels, b.NonTrivial = c.Labels, c.NonTrivial
		b.labelIf(aliases > 2, "three or more aliases")
		var args []string
		if g.yes(25, "style") {
			// the styles that keep what scalars are
			args = append(args, "-S", pick(g, []string{"normal", "flow", "tagged"}, "style"))
			if want, err := s.expected(); err == nil && strings.Contains(fmt.Sprint(want), "timestamp") {
				args[1] = "tagged" // the library quotes timestamps in flow collections
			}
		}
		if g.yes(20, "remove comments") {
			args = append(args, "--remove-comments")
			b.label("removing comments")
		}
		return s.finish(b, args...)
	})
}

func (g *G) aliasOverlay(ds []*Doc, c *Case) *Overlay {
	var live []*Doc
	for _, d := range ds {
		if !d.Gone {
			live = append(live, d)
		}
	}
	if len(live) == 0 {
		return nil
	}
	d := pick(g, live, "doc")
	touched := tangled(d.Root)
	kind := pick(g, []string{"an alias", "an anchored node", "a part of an anchored node", "a part of an anchored node", "a parent of an anchored node", "a parent of an anchored node", ""}, "target")
	action := pick(g, []string{"merge", "merge", "replace", "delete", "delete", "combine"}, "action")
	o := &Overlay{Name: pick(g, []string{"n", "n" + g.id("")}, "name"), Action: action}
	q, ok := g.query(d.Root, 20, func(n *N) bool {
		if action == "combine" {
			r := n.real()
			if r.Kind != "v" || r.Tag != "!!int" && r.Tag != "!!bool" && r.Tag != "!!str" {
				return false
			}
		}
		return kind == "" || touched[n] == kind
	})
	if !ok {
		return nil
	}
	o.Query = []Q{q}
	first := Null()
	if res := FindAll(o.Query, d.Root); len(res) > 0 {
		first = res[0].real()
	}
	switch action {
	case "replace":
		o.Value = g.overlayValue(g.n(0, 3, "valueDepth"))
	case "combine":
		switch first.Tag {
		case "!!int":
			o.Value = I(g.n(-5, 50, "addend"))
		case "!!bool":
			o.Value = B(g.yes(50, "operand"))
		default:
			o.Value = S(g.text(false))
		}
	case "merge":
		o.Value = g.related(first, g.n(0, 3, "valueDepth"))
		if first.Kind == "m" {
			for _, p := range first.Pairs {
				if p.K.Kind == "a" && g.yes(60, "alias key") && o.Value.Kind == "m" {
					k := p.K.Val // the name of the anchor is not the key
					if g.yes(60, "by text") {
						k = p.K.real().Val
					}
					if o.Value.Get(k) == nil && first.Get(k) == nil && k != "" && !hasMarker(k) {
						o.Value.Set(k, S("through the key"))
						c.label("merges with a key given by an alias")
					}
					break
				}
			}
		}
	}
	if o.Value != nil && o.Value.Kind != "v" && g.yes(50, "tangled value") && g.tangle(o.Value, g.yes(30, "names used again")) > 0 {
		c.label("aliases in the overlay value")
	}
	if g.yes(25, "condition") {
		var cq Q
		if cq, ok = g.query(d.Root, 0, func(n *N) bool { return n.Kind == "a" || n.Anchor != "" || kind == "" }); ok {
			o.DocQuery = [][]Cond{{{Query: []Q{cq}}}}
			v := cq.Find(d.Root)[0].flat()
			if g.yes(40, "other value") {
				v = g.perturb(v)
			}
			nulls := false
			v.walkAll(func(n *N) {
				nulls = nulls || n.Tag == "!!null" || n.Tag == "!!merge"
			})
			if !nulls {
				c.label("condition on an anchored node or an alias")
				if g.yes(40, "alias in the condition") {
					v.Anchor = g.id("cond")
					o.DocQuery = [][]Cond{
						{{Query: []Q{{Segs: []Seg{{T: "child", Name: "no-such-key"}}}}, Value: v}},
						{{Query: []Q{cq}, Value: &N{Kind: "a", Val: v.Anchor, Target: v}}},
					}
					c.label("condition given by an alias")
				} else {
					o.DocQuery[0][0].Value = v
				}
			}
		}
	}
	if !o.safe(ds) {
		return nil
	}
	for _, x := range ds {
		if x.Gone {
			continue
		}
		t := tangled(x.Root)
		for _, r := range FindAll(o.Query, x.Root) {
			if t[r] != "" {
				c.NonTrivial = true
				c.label(fmt.Sprintf("%s of %s", action, t[r]))
			}
		}
	}
	return o
}
