package harness

import (
	"fmt"
	"strings"
	"testing"
)

// orderDoc has three places whose final content tells in which order overlays
// were applied to them.
func orderDoc(file, doc int) *N {
	return Map("id", fmt.Sprintf("f%dd%d", file, doc), "kind", []string{"A", "B"}[doc%2], "seq", Seq(S("start")), "str", "s", "last", "none")
}

// orderOverlay leaves a trace of its application.
func (g *G) orderOverlay(qualified bool, docs int) *Overlay {
	tag := g.id("t")
	o := &Overlay{Name: tag}
	switch g.weighted("trace", 50, 30, 20) {
	case 0:
		o.Query, o.Action, o.Value = []Q{{Segs: []Seg{{T: "child", Name: "seq"}}}}, "merge", Seq(S(tag))
	case 1:
		o.Query, o.Action, o.Value = []Q{{Segs: []Seg{{T: "child", Name: "str"}}}}, "combine", S("."+tag)
	default:
		o.Query, o.Action, o.Value = []Q{{Segs: []Seg{{T: "child", Name: "last"}}}}, "replace", S(tag)
	}
	if qualified {
		if g.yes(20, "index") {
			o.DocIndex = []int{}
			for k := g.many(1, 2, 6, "indices"); k > 0; k-- {
				o.DocIndex = append(o.DocIndex, g.many(0, 3, docs-1, "docIndex"))
			}
		}
		if g.yes(15, "docQuery") {
			o.DocQuery = [][]Cond{{{Query: []Q{{Segs: []Seg{{T: "child", Name: "kind"}}}}, Value: S(pick(g, []string{"A", "B"}, "kind"))}}}
		}
	}
	return o
}

// C07: which overlays reach which documents, and in which order.
func TestC07(t *testing.T) {
	check(t, "C07", func(g *G) *Case {
		nf := 1 + g.weighted("files", 25, 40, 35)
		var ss []*Src
		huge, maxDocs := 0, 12
		if g.yes(1, "huge") {
			if huge = 1 + g.n(0, 2, "huge what"); huge == 1 {
				maxDocs = g.n(200, 400, "huge docs")
			}
		}
		for i := 0; i < nf; i++ {
			x := &Src{Path: fmt.Sprintf("/w/in/%s/f%d.yaml", []string{"d1", "d2"}[g.n(0, 1, "dir")], i)}
			k := g.many(1, 4, 12, "docs")
			if huge == 1 && i == 0 {
				k = maxDocs
			}
			for j := 0; j < k; j++ {
				x.Docs = append(x.Docs, orderDoc(i, j))
			}
			x.Text = g.file(x.Docs)
			ss = append(ss, x)
		}
		in := &Instr{}
		few := func(lo, hi, far int, huge bool, what string) int {
			if huge {
				return g.n(80, 300, "huge "+what)
			}
			return g.many(lo, hi, far, what)
		}
		for k := few(0, 3, 9, huge == 2, "common"); k > 0; k-- {
			in.Common = append(in.Common, g.orderOverlay(true, maxDocs))
		}
		overlays := func(max int, q bool) (os []*Overlay) {
			for k := few(0, max, 9, huge == 3 && g.yes(30, "huge list"), "overlays"); k > 0; k-- {
				os = append(os, g.orderOverlay(q, maxDocs))
			}
			return os
		}
		// own and docs are the overlays each file gets, in order
		own := make([][]*Overlay, nf)
		docs := make([][]*DocEntry, nf)
		listed := make([]bool, nf)
		c0 := &Case{}
		c0.labelIf(huge > 0, "hundreds of documents or overlays")
		entry := func(p string, files []int) {
			e := &Entry{Path: p, Overlays: overlays(4, true)}
			for k := g.many(0, 3, 8, "documents"); k > 0; k-- {
				e.Documents = append(e.Documents, &DocEntry{Path: g.many(0, 4, maxDocs-1, "document"), Overlays: overlays(2, false)})
			}
			in.Files = append(in.Files, e)
			for _, f := range files {
				own[f] = append(own[f], e.Overlays...)
				docs[f] = append(docs[f], e.Documents...)
				c0.labelIf(listed[f], "file listed twice")
				listed[f] = true
			}
		}
		spell := func(p string) string {
			switch g.weighted("spelling", 60, 20, 10, 10) {
			case 1:
				return "../" + strings.TrimPrefix(p, "/w/")
			case 2:
				return "{R}/w/cwd/.." + strings.TrimPrefix(p, "/w")
			case 3:
				return "{R}" + strings.Replace(p, "/w/in/", "/w/./in//", 1)
			}
			return "{R}" + p
		}
		for i := range ss {
			if g.yes(85, "own entry") || nf == 1 {
				entry(spell(ss[i].Path), []int{i})
			}
		}
		for k := g.n(0, 2, "repeats"); k > 0; k-- {
			i := g.n(0, nf-1, "again")
			if listed[i] || g.yes(50, "late") {
				entry(spell(ss[i].Path), []int{i})
			}
		}
		for _, dir := range []string{"d1", "d2"} {
			var fs []int
			for i, x := range ss {
				if strings.HasPrefix(x.Path, "/w/in/"+dir+"/") {
					fs = append(fs, i)
				}
			}
			if len(fs) > 0 && g.yes(30, "directory") {
				entry(spell("/w/in/"+dir), fs)
				c0.label("directory entry")
			}
		}
		// put the entries in another order than they were drawn
		if len(in.Files) > 1 && g.yes(40, "rotate") {
			k := g.n(1, len(in.Files)-1, "by")
			in.Files = append(append([]*Entry{}, in.Files[k:]...), in.Files[:k]...)
			for f := range own {
				own[f], docs[f] = nil, nil
			}
			for _, e := range in.Files {
				for f, x := range ss {
					p := cleanSpell(e.Path)
					if p == x.Path || strings.HasPrefix(x.Path, p+"/") {
						own[f] = append(own[f], e.Overlays...)
						docs[f] = append(docs[f], e.Documents...)
					}
				}
			}
		}
		var args []string
		common := append([]*Overlay{}, in.Common...)
		if g.yes(35, "ad-hoc overlay") {
			o := g.orderOverlay(false, 12)
			common = append(common, o)
			args = append(args, "-q", o.Query[0].String(), "-a", o.Action, "-x", strings.TrimSpace(flowText(o.Value)))
			c0.label("overlay on the command line")
		}
		if g.yes(20, "ad-hoc path") {
			i := g.n(0, nf-1, "path")
			args = append(args, "-p", "{R}"+ss[i].Path)
			c0.label("path on the command line")
			listed[i] = true
		}
		var paths []string
		for i, x := range ss {
			if listed[i] {
				paths = append(paths, x.Path)
			}
		}
		if len(paths) == 0 {
			panic(discard{"no files"})
		}
		names := outNames(paths)
		s := &Scene{Srcs: ss, Instr: in}
		c := s.newCase()
		c.Labels = c0.Labels
		want := map[string][]string{}
		most := 0
		for i, x := range ss {
			if !listed[i] {
				continue
			}
			if k := len(common) + len(own[i]); k > most {
				most = k
			}
			out, err := Process(x.Docs, common, own[i], docs[i], "ignore")
			must(err)
			want[names[x.Path]] = CanonAll(out)
		}
		c.NonTrivial = most >= 3
		c.labelIf(nf > 1, "several files")
		c.labelIf(most >= 6, "six or more overlays on a file")
		for i := range docs {
			c.labelIf(len(docs[i]) > 0, "documents overlays")
		}
		c.Runs = []Run{{Args: append([]string{"-i", "i.yaml", "-o", "{R}" + outAbs}, args...)}}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "files", Dir: outAbs, Files: want}}
		return c
	})
}

// cleanSpell undoes the spellings of a path.
func cleanSpell(p string) string {
	p = strings.TrimPrefix(p, "{R}")
	if strings.HasPrefix(p, "../") {
		p = "/w/" + strings.TrimPrefix(p, "../")
	}
	p = strings.Replace(p, "/cwd/..", "", 1)
	return strings.Replace(p, "/./in//", "/in/", 1)
}

// C08: qualifiers decide which documents an overlay reaches.
func TestC08(t *testing.T) {
	check(t, "C08", func(g *G) *Case {
		mk := func() *N {
			o := VOpt{Depth: 3, Width: 3, Plain: g.yes(40, "plain")}
			d := g.mapping(o, 0)
			if d.Get("kind") == nil {
				d.Set("kind", S(pick(g, []string{"Deployment", "Service", "ConfigMap"}, "kind")))
			}
			if g.yes(50, "labels") && d.Get("labels") == nil {
				d.Set("labels", Map("app", pick(g, []string{"x", "y"}, "app"), "tier", g.n(0, 2, "tier")))
			}
			d.Set("zz-spot", S("old"))
			if g.yes(50, "several") {
				l := Seq()
				for k := g.n(1, 3, "severalOf"); k > 0; k-- {
					l.Items = append(l.Items, Map("img", pick(g, []string{"a", "a", "b"}, "img")))
				}
				d.Set("zz-many", l)
			}
			return d
		}
		nf := 1 + g.weighted("files", 70, 30)
		ss, es := g.srcs(nf, 4, mk)
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		var all []*Doc
		states := make([][]*Doc, nf)
		for i, x := range ss {
			states[i] = copyDocs(x.Docs)
			all = append(all, states[i]...)
		}
		hit, missed := false, false
		c0 := &Case{}
		draw := func(ds []*Doc) *Overlay {
			o := &Overlay{Name: g.id("n"), Query: []Q{{Segs: []Seg{{T: "child", Name: "zz-spot"}}}}}
			switch g.n(0, 3, "do") {
			case 0:
				o.Action, o.Value = "merge", Map(g.id("hit"), 1)
			case 1:
				o.Action, o.Value = "replace", S(g.id("hit"))
			case 2:
				o.Action, o.Value = "merge", S(g.id("hit"))
			default:
				// reaches what later conditions look at
				d := pick(g, ds, "doc")
				if q, ok := g.query(d.Root, 0, nil); ok && !d.Gone {
					o.Query, o.Action, o.Value = []Q{q}, "replace", S(g.word())
				} else {
					o.Action, o.Value = "replace", S("hit")
				}
			}
			if g.yes(80, "documentQuery") {
				k := g.many(1, 3, 7, "groups")
				many := k > 3 // all but the last fail
				for ; k > 0; k-- {
					var grp []Cond
					like := pick(g, ds, "like")
					j := g.many(1, 3, 7, "conditions")
					for holding := j > 3; j > 0; j-- {
						if holding && j > 1 {
							grp = append(grp, g.holding(like))
							continue
						}
						grp = append(grp, g.condition(like))
						if !holding {
							like = pick(g, ds, "like")
						}
					}
					if many && k > 1 {
						grp = append(grp, Cond{Query: []Q{{Segs: []Seg{{T: "child", Name: "kind"}}}}, Value: S("none")})
					}
					o.DocQuery = append(o.DocQuery, grp)
				}
				if g.yes(5, "no conditions") {
					grp := []Cond{}
					if g.yes(50, "empty group") {
						grp = nil
					}
					o.DocQuery[g.n(0, len(o.DocQuery)-1, "empty group at")] = grp
					c0.label("group without conditions")
				}
				c0.label("documentQuery")
				c0.labelIf(len(o.DocQuery) > 1, "several groups")
			}
			if g.yes(35, "documentIndex") {
				o.DocIndex = []int{}
				for k := g.many(0, 3, 7, "indices"); k > 0; k-- {
					o.DocIndex = append(o.DocIndex, g.many(0, 5, 13, "docIndex"))
				}
				c0.label("documentIndex")
			}
			for _, d := range ds {
				if o.qualifies(d) {
					hit = true
				} else {
					missed = true
				}
			}
			return o
		}
		apply := func(o *Overlay, dss ...[]*Doc) {
			for _, ds := range dss {
				for i, d := range ds {
					if o.indexOK(i) {
						_ = o.Apply(d, "ignore")
					}
				}
			}
		}
		if nf > 1 || g.yes(40, "common too") {
			for k := g.n(0, 2, "common"); k > 0; k-- {
				o := draw(all)
				s.Instr.Common = append(s.Instr.Common, o)
				apply(o, states...)
			}
		}
		for f := range ss {
			for k := g.n(1, 3, "overlays"); k > 0; k-- {
				o := draw(states[f])
				es[f].Overlays = append(es[f].Overlays, o)
				apply(o, states[f])
			}
		}
		c := s.newCase()
		c.Labels = c0.Labels
		c.NonTrivial = hit && missed
		c.labelIf(nf > 1, "several files")
		return s.finish(c)
	})
}

// holding draws a condition that holds for d.
func (g *G) holding(d *Doc) Cond {
	if !d.Gone {
		if q, ok := g.query(d.Root, 0, func(n *N) bool { return n.Kind == "v" && n.Tag != "!!null" }); ok {
			c := Cond{Query: []Q{q}}
			if r := FindAll(c.Query, d.Root); len(r) == 1 && g.yes(60, "with value") {
				c.Value = r[0].Copy()
				stripComments(c.Value)
			}
			return c
		}
	}
	return Cond{Query: []Q{{Segs: []Seg{{T: "child", Name: "kind"}}}}}
}

// condition draws a condition that often holds for documents like d.
func (g *G) condition(d *Doc) Cond {
	var ok func(*N) bool
	if d.Gone {
		return Cond{Query: []Q{{Segs: []Seg{{T: "child", Name: "kind"}}}}, Value: S("Service")}
	}
	if g.yes(40, "usual") {
		q := Q{Segs: []Seg{{T: "child", Name: "kind"}}}
		return Cond{Query: []Q{q}, Value: S(pick(g, []string{"Deployment", "Service", "ConfigMap"}, "kind"))}
	}
	if l := d.Root.Get("zz-many"); l != nil && g.yes(20, "all of them") {
		many := Seg{T: "child", Name: "zz-many"}
		img := Seg{T: "child", Name: "img"}
		q := Q{Segs: []Seg{many, {T: "wild", Form: pick(g, []string{"dot", "br"}, "form")}, img}}
		if g.yes(30, "below any") {
			q = Q{Segs: []Seg{{T: "rec", Name: "img"}}}
		}
		c := Cond{Query: []Q{q}, Value: S(pick(g, []string{"a", "a", "b"}, "img"))}
		if g.yes(20, "second query") {
			c.Query = append(c.Query, Q{Segs: []Seg{{T: "child", Name: "kind"}}})
		}
		if g.yes(30, "whole items") {
			c.Query[0].Segs = []Seg{many, {T: "wild", Form: "br"}}
			c.Value = Map("img", c.Value.Val)
		}
		return c
	}
	if g.yes(15, "absent") {
		return Cond{Query: []Q{g.missing(d.Root, 2)}}
	}
	if g.yes(35, "collection") {
		ok = func(n *N) bool { return n.Size() > 2 }
	}
	q, found := g.query(d.Root, 25, ok)
	if !found {
		return Cond{Query: []Q{{Segs: []Seg{{T: "child", Name: "kind"}}}}}
	}
	c := Cond{Query: []Q{q}}
	if g.yes(20, "second query") {
		if q2, ok := g.query(d.Root, 25, nil); ok {
			c.Query = append(c.Query, q2)
		}
	}
	res := FindAll(c.Query, d.Root)
	if g.yes(65, "with value") && len(res) > 0 {
		v := res[0].Copy()
		stripComments(v)
		switch g.weighted("value", 40, 32, 10, 13, 5) {
		case 1:
			v = g.perturb(v)
		case 2:
			v = g.scalar(VOpt{Plain: true})
		case 3:
			restyle(v)
		case 4:
			// what is there is mostly something else
			v = Null()
		}
		c.Value = v
	}
	return c
}

func restyle(n *N) {
	n.Walk(func(x *N) {
		switch {
		case x.Kind == "v" && x.Tag == "!!str":
			x.Style = "dq"
		case x.Kind != "v":
			x.Style = "flow"
		}
	})
}

// perturb changes one thing about v.
func (g *G) perturb(v *N) *N {
	v = v.Copy()
	switch v.Kind {
	case "m":
		k := len(v.Pairs)
		switch how := g.n(0, 4, "perturb"); {
		case how == 1 && k > 0:
			p := pick(g, v.Pairs, "pair")
			p.V = g.perturb(p.V)
		case how == 2 && k > 1:
			v.Pairs = v.Pairs[1:]
		case how == 3 && k > 1:
			v.Pairs = v.Pairs[:k-1]
		case how == 4 && k > 0:
			p := pick(g, v.Pairs, "pair")
			p.K = S(p.K.Val + "x")
		default:
			v.Set("zz-extra", I(1))
		}
	case "s":
		k := len(v.Items)
		switch how := g.n(0, 5, "perturb"); {
		case how == 1 && k > 0:
			i := g.n(0, k-1, "item")
			v.Items[i] = g.perturb(v.Items[i])
		case how == 2 && k > 1:
			v.Items = v.Items[1:]
		case how == 3 && k > 1:
			v.Items = v.Items[:k-1]
		case how == 4 && k > 1 && Canon(v.Items[0]) != Canon(v.Items[k-1]):
			v.Items[0], v.Items[k-1] = v.Items[k-1], v.Items[0]
		case how == 5 && k > 0:
			v.Items = append(v.Items, v.Items[k-1].Copy())
		default:
			v.Items = append(v.Items, S("extra"))
		}
	default:
		switch {
		case (v.Tag == "!!int" || v.Tag == "!!bool") && g.yes(50, "as text"):
			return &N{Kind: "v", Tag: "!!str", Val: v.Val, Style: "dq"}
		case v.Tag == "!!str":
			switch g.n(0, 3, "perturb") {
			case 1:
				return S(strings.ToUpper(v.Val) + " ")
			case 2:
				if len(v.Val) > 1 && v.Val[len(v.Val)-1] < 0x80 {
					return S(v.Val[:len(v.Val)-1])
				}
			}
			return S(v.Val + "x")
		}
		return S("x")
	}
	return v
}

// C09: what happens when a query finds nothing.
func TestC09(t *testing.T) {
	check(t, "C09", func(g *G) *Case {
		nf := 1 + g.weighted("files", 75, 25)
		o := g.docOpt()
		mk := func() *N {
			d := g.mapDoc(o)
			if g.yes(20, "null parent") {
				d.Style = ""
				d.Set("zz-null", Null())
			}
			d.Style = ""
			return d
		}
		ss, es := g.srcs(nf, 3, mk)
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}, Default: "ignore"}
		c0 := &Case{}
		var args []string
		var env map[string]string
		if g.yes(35, "default") {
			s.Default = pick(g, []string{"inject", "inject", "ignore"}, "action")
			switch g.n(0, 2, "given by") {
			case 0:
				args = append(args, "--default-on-missing-action", s.Default)
			case 1:
				args = append(args, "--default-on-missing-action="+s.Default)
			default:
				env = map[string]string{"YOT_DEFAULT_ON_MISSING_ACTION": s.Default}
			}
			c0.label("default action " + s.Default)
		}
		nontrivial := false
		states := make([][]*Doc, nf)
		var all []*Doc
		for i, x := range ss {
			states[i] = copyDocs(x.Docs)
			all = append(all, states[i]...)
		}
		draw := func(ds []*Doc) *Overlay {
			var live []*Doc
			for _, d := range ds {
				if !d.Gone && d.Root.Kind == "m" {
					live = append(live, d)
				}
			}
			if len(live) == 0 {
				return nil
			}
			ov := &Overlay{Name: g.id("n"), Action: pick(g, []string{"merge", "replace", "merge", "delete"}, "action")}
			ov.Value = g.overlayValue(g.n(0, 3, "valueDepth"))
			if ov.Action == "delete" && g.yes(50, "no value") {
				ov.Value = nil
			}
			ov.OnMissing = pick(g, []string{"inject", "inject", "inject", "ignore", "", "default"}, "onMissing")
			ov.Shout = g.weighted("spelling", 85, 8, 7)
			plain := func() Q {
				if g.yes(20, "below null") {
					return Q{Segs: []Seg{{T: "child", Name: "zz-null"}, {T: "child", Name: g.id("new")}}}
				}
				return g.missing(pick(g, live, "doc").Root, 4)
			}
			for i := 1 + g.weighted("queries", 62, 25, 10, 0, 0, 3); i > 0; i-- {
				switch g.weighted("query", 60, 25, 15) {
				case 0:
					ov.Query = append(ov.Query, plain())
				case 1: // cannot be built
					q := g.missing(pick(g, live, "doc").Root, 2)
					switch g.n(0, 3, "complex") {
					case 0:
						q = Q{Segs: []Seg{{T: "rec", Name: g.id("none")}}}
					case 1:
						q.Segs = append(q.Segs, Seg{T: "wild", Form: pick(g, []string{"dot", "br"}, "form")})
					case 2:
						q.Segs = append(q.Segs, Seg{T: "index", I: 0})
					default:
						q.Segs = append(q.Segs, Seg{T: "filter", Name: "name", Val: "none"})
					}
					ov.Query = append(ov.Query, q)
				default: // finds something in some document
					if q, ok := g.query(pick(g, live, "doc").Root, 20, nil); ok {
						ov.Query = append(ov.Query, q)
					} else {
						ov.Query = append(ov.Query, plain())
					}
				}
			}
			if g.yes(60, "injectPath") {
				for i := 1 + g.weighted("paths", 60, 25, 10, 0, 5); i > 0; i-- {
					if q, ok := g.existing(pick(g, live, "doc").Root); ok && g.yes(20, "existing") {
						ov.InjectPath = append(ov.InjectPath, q)
						c0.label("injectPath that exists")
						continue
					}
					ov.InjectPath = append(ov.InjectPath, plain())
				}
				ov.InjectList = g.yes(20, "asList")
			}
			if !ov.safe(ds) {
				return nil
			}
			for _, d := range live {
				ov.buildable(d)
				if len(FindAll(ov.Query, d.Root)) == 0 {
					nontrivial = true
					act := ov.OnMissing
					c0.labelIf(act == "default", "default action asked for")
					if act == "" || act == "default" {
						act = s.Default
					}
					c0.label("nothing found: " + ov.Action + " " + act)
					c0.labelIf(act == "inject" && !allInjectable(ov.Query) && len(ov.InjectPath) > 0, "injectPath used")
					c0.labelIf(act == "inject" && len(ov.InjectPath) > 1 || len(ov.Query) > 1, "several paths")
				} else {
					c0.label("something found")
				}
			}
			return ov
		}
		for f := 0; f < nf; f++ {
			for k := g.n(1, 3, "overlays"); k > 0; k-- {
				if ov := draw(states[f]); ov != nil {
					es[f].Overlays = append(es[f].Overlays, ov)
					_ = applyAll(ov, states[f], s.Default)
				}
			}
		}
		_ = all
		c := s.newCase()
		c.Labels, c.NonTrivial = c0.Labels, nontrivial
		docLabels(c, ss)
		s.finish(c, args...)
		c.Runs[0].Env = env
		return c
	})
}

// buildable discards an injection below something that is neither a mapping
// nor null: whether it may be overwritten is not specified.
func (o *Overlay) buildable(d *Doc) {
	act := o.OnMissing
	if act == "ignore" || o.Action == "delete" || len(FindAll(o.Query, d.Root)) > 0 {
		return
	}
	paths := o.InjectPath
	if allInjectable(o.Query) {
		paths = o.Query
	}
	var flat []Q
	for _, q := range paths {
		flat = append(flat, spread(q.Segs)...)
	}
	for i, q := range flat {
		cur := d.Root
		for _, s := range q.Segs {
			if cur.Kind != "m" && cur.Tag != "!!null" {
				panic(discard{"inject below a value"})
			}
			if cur = cur.Get(s.Name); cur == nil {
				break
			}
		}
		for j, p := range flat {
			if i != j && isPrefix(q.Segs, p.Segs) {
				panic(discard{"inject paths within each other"})
			}
		}
	}
}

// existing draws the path of an entry below mappings only.
func (g *G) existing(root *N) (Q, bool) {
	var q Q
	for cur := root; cur != nil && cur.Kind == "m" && len(cur.Pairs) > 0; {
		p := pick(g, cur.Pairs, "entry")
		if p.K.Kind != "v" || p.K.Tag != "!!str" {
			return q, false
		}
		q.Segs = append(q.Segs, Seg{T: "child", Name: p.K.Val})
		if cur = p.V; g.yes(50, "here") {
			break
		}
	}
	return q, len(q.Segs) > 0
}

// spread lists the single paths a path with several names stands for.
func spread(segs []Seg) []Q {
	if len(segs) == 0 {
		return []Q{{}}
	}
	var out []Q
	for _, name := range segs[0].names() {
		for _, q := range spread(segs[1:]) {
			out = append(out, Q{Segs: append([]Seg{{T: "child", Name: name}}, q.Segs...)})
		}
	}
	return out
}

func isPrefix(a, b []Seg) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name {
			return false
		}
	}
	return true
}
