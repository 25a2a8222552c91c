package harness

import (
	"strings"
	"testing"
)

// keyQuery turns an exact query of a mapping entry into one of its key.
func (g *G) keyQuery(root *N) (Q, bool) {
	var cands []located
	for _, l := range locate(root) {
		if l.key {
			cands = append(cands, l)
		}
	}
	if len(cands) == 0 {
		return Q{}, false
	}
	l := pick(g, cands, "key of")
	q := g.exact(l)
	if g.yes(25, "all keys") && len(q.Segs) > 1 {
		q.Segs[len(q.Segs)-1] = Seg{T: "keys"}
	} else {
		q.Segs = append(q.Segs, Seg{T: "key"})
	}
	return q, true
}

// C06: an overlay changes the nodes its queries select and nothing else.
func TestC06(t *testing.T) {
	check(t, "C06", func(g *G) *Case {
		cased := g.yes(12, "keys that differ in case")
		ss, es := g.srcs(1, 3, func() *N {
			var d *N
			if g.yes(55, "recordDoc") {
				d = g.recordDoc()
			} else {
				d = g.anyDoc()
			}
			if cased {
				d.Walk(func(n *N) {
					for _, p := range n.Pairs {
						if u := strings.ToUpper(p.K.Val); bareName.MatchString(u) && n.Get(u) == nil && g.yes(30, "in upper case too") {
							n.Set(u, S(g.word()))
						}
					}
				})
			}
			return d
		})
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		c := &Case{}
		ds := copyDocs(ss[0].Docs)
		for k := g.n(1, 2, "overlays"); k > 0; k-- {
			o := &Overlay{Name: "o", Action: "replace", Value: S(g.id("HIT"))}
			del := g.yes(30, "delete")
			var live []*Doc
			for _, d := range ds {
				if !d.Gone {
					live = append(live, d)
				}
			}
			if len(live) == 0 {
				break
			}
			for i := 1 + g.weighted("queries", 55, 25, 15, 0, 0, 5); i > 0; i-- {
				d := pick(g, live, "doc")
				if g.yes(18, "key query") {
					if q, ok := g.keyQuery(d.Root); ok {
						last := q.Segs[len(q.Segs)-1]
						if last.T == "key" || del {
							o.Query = append(o.Query, q)
						}
					}
					continue
				}
				q, ok := g.query(d.Root, 75, nil)
				if !ok {
					continue
				}
				o.Query = append(o.Query, q)
				if last := len(q.Segs) - 1; cased && last >= 0 && q.Segs[last].T == "child" && g.yes(50, "in another case") {
					q.Segs = append([]Seg{}, q.Segs...)
					q.Segs[last].Name = strings.ToUpper(q.Segs[last].Name)
					o.Query = append(o.Query, q)
				}
			}
			if len(o.Query) == 0 {
				continue
			}
			if g.yes(20, "missing too") {
				o.Query = append(o.Query, g.missing(live[0].Root, 2))
			}
			o.QueryList = g.yes(20, "asList")
			if del {
				o.Action, o.Value = "delete", nil
			}
			// a key selected together with values could clash with its own value
			if hasKeyStep(o.Query) && len(o.Query) > 1 {
				o.Query = o.Query[:1]
			}
			if dupKeys(o, ds) {
				continue
			}
			c.mutationLabels(o, ds)
			for _, d := range ds {
				if !d.Gone && len(FindAll(o.Query, d.Root)) > 0 {
					c.NonTrivial = true
				}
			}
			es[0].Overlays = append(es[0].Overlays, o)
			_ = applyAll(o, ds, "ignore")
		}
		b := s.newCase()
		b.Labels, b.NonTrivial = c.Labels, c.NonTrivial
		docLabels(b, ss)
		return s.finish(b)
	})
}

func hasKeyStep(qs []Q) bool {
	for _, q := range qs {
		if len(q.Segs) > 0 && (q.Segs[len(q.Segs)-1].T == "key" || q.Segs[len(q.Segs)-1].T == "keys") {
			return true
		}
	}
	return false
}

// dupKeys is true when replacing keys would give a mapping the same key twice.
func dupKeys(o *Overlay, ds []*Doc) bool {
	if !hasKeyStep(o.Query) || o.Action == "delete" {
		return false
	}
	for _, d := range ds {
		if d.Gone {
			continue
		}
		keys := map[*N]bool{}
		for _, n := range FindAll(o.Query, d.Root) {
			keys[n] = true
		}
		bad := false
		d.Root.Walk(func(n *N) {
			k := 0
			for _, p := range n.Pairs {
				if keys[p.K] || p.K.Val == o.Value.Val {
					k++
				}
			}
			if k > 1 {
				bad = true
			}
		})
		if bad {
			return true
		}
	}
	return false
}
