package harness

import (
	"fmt"
	"strings"
	"testing"
)

// restated says what the instructions say in another way.
type restated struct {
	g    *G
	c    *Case
	docs map[*Entry][]*N
	def  string
}

func (r *restated) copyInstr(in *Instr) *Instr {
	x := &Instr{Common: append([]*Overlay{}, in.Common...)}
	for _, e := range in.Files {
		n := *e
		n.Overlays = append([]*Overlay{}, e.Overlays...)
		n.Documents = append([]*DocEntry{}, e.Documents...)
		x.Files = append(x.Files, &n)
		r.docs[&n] = r.docs[e]
	}
	return x
}

// common moves common overlays to the front of every entry.
func (r *restated) common(in *Instr) {
	if len(in.Common) == 0 {
		return
	}
	k := r.g.n(0, len(in.Common)-1, "kept common")
	seen := map[*N]bool{}
	for _, e := range in.Files {
		if !seen[r.docs[e][0]] {
			e.Overlays = append(append([]*Overlay{}, in.Common[k:]...), e.Overlays...)
		}
		seen[r.docs[e][0]] = true
	}
	in.Common = in.Common[:k]
	r.c.label("common overlays given for every file")
}

// divided lists a file twice, with a part of its overlays each time.
func (r *restated) divided(in *Instr) {
	i := r.g.n(0, len(in.Files)-1, "divided")
	e := in.Files[i]
	if len(e.Overlays)+len(e.Documents) == 0 {
		return
	}
	k, j := r.g.n(0, len(e.Overlays), "overlays kept"), r.g.n(0, len(e.Documents), "documents kept")
	more := &Entry{Path: e.Path, OutputPath: e.OutputPath, Overlays: e.Overlays[k:], Documents: e.Documents[j:]}
	if r.g.yes(50, "other spelling") {
		more.Path = strings.Replace(e.Path, "/w/in/", "/w//./in/../in/", 1)
	}
	e.Overlays, e.Documents = e.Overlays[:k:k], e.Documents[:j:j]
	r.docs[more] = r.docs[e]
	at := r.g.n(i+1, len(in.Files), "at")
	in.Files = append(in.Files[:at:at], append([]*Entry{more}, in.Files[at:]...)...)
	r.c.label("file listed twice")
}

// byIndex gives overlays of the documents key a documentIndex instead.
func (r *restated) byIndex(in *Instr) {
	for _, e := range in.Files {
		k := 0
		for _, f := range in.Files {
			if r.docs[f] != nil && len(r.docs[f]) > 0 && len(r.docs[e]) > 0 && r.docs[f][0] == r.docs[e][0] {
				k++
			}
		}
		if k > 1 || len(e.Documents) == 0 { // an entry of its own is needed for the order
			continue
		}
		for _, d := range e.Documents {
			for _, o := range d.Overlays {
				n := *o
				n.DocIndex = []int{d.Path}
				e.Overlays = append(e.Overlays, &n)
			}
		}
		e.Documents = nil
		r.c.label("documentIndex for a documents entry")
	}
}

// byDocument lists the overlays at the end of an entry under documents.
func (r *restated) byDocument(in *Instr) {
	for _, e := range in.Files {
		if k := len(e.Overlays); k > 0 && len(e.Documents) == 0 {
			twice := false
			for _, f := range in.Files {
				twice = twice || f != e && len(r.docs[f]) > 0 && len(r.docs[e]) > 0 && r.docs[f][0] == r.docs[e][0]
			}
			if twice {
				continue
			}
			at := r.g.n(0, k-1, "from")
			for _, o := range e.Overlays[at:] {
				for i := range r.docs[e] {
					if o.indexOK(i) {
						n := *o
						n.DocIndex = nil
						e.Documents = append(e.Documents, &DocEntry{Path: i, Overlays: []*Overlay{&n}})
					}
				}
			}
			e.Overlays = e.Overlays[:at:at]
			r.c.label("documents entries for overlays")
		}
	}
}

// each applies f to the overlays of every list.
func (r *restated) each(in *Instr, f func([]*Overlay) []*Overlay) {
	in.Common = f(in.Common)
	for _, e := range in.Files {
		e.Overlays = f(e.Overlays)
		for i, d := range e.Documents {
			e.Documents[i] = &DocEntry{Path: d.Path, Overlays: f(d.Overlays)}
		}
	}
}

// idle adds overlays that have nothing to do.
func (r *restated) idle(in *Instr) {
	g := r.g
	r.each(in, func(os []*Overlay) (out []*Overlay) {
		for i := 0; i <= len(os); i++ {
			if g.yes(35, "idle") {
				none := []Q{{Segs: []Seg{{T: "rec", Name: g.id("none")}}}}
				o := &Overlay{Query: none, Action: pick(g, []string{"merge", "replace", "delete", "combine"}, "action"), Value: g.overlayValue(1), OnMissing: "ignore"}
				switch g.n(0, 3, "why idle") {
				case 1:
					o.Query, o.DocQuery = []Q{{Root: true}}, [][]Cond{{{Query: none}}}
				case 2:
					o.Query, o.DocQuery = []Q{{Root: true}}, [][]Cond{{{Query: []Q{{Root: true}}, Value: S(g.id("none"))}}, {{Query: none, Value: S("x")}}}
				case 3:
					o.OnMissing = "inject"
					o.Query, o.InjectPath = none, nil
				}
				out = append(out, o)
				r.c.label("idle overlays")
			}
			if i < len(os) {
				out = append(out, os[i])
			}
		}
		return out
	})
}

// single gives every query an overlay of its own.
func (r *restated) single(in *Instr) {
	r.each(in, func(os []*Overlay) (out []*Overlay) {
		for _, o := range os {
			if len(o.Query) < 2 || o.Marked || o.OnMissing != "" || r.def == "inject" {
				out = append(out, o)
				continue
			}
			for _, q := range o.Query {
				n := *o
				n.Query = []Q{q}
				out = append(out, &n)
			}
			r.c.label("an overlay per query")
		}
		return out
	})
}

// explicit writes defaults out and conditions in another order.
func (r *restated) explicit(in *Instr) {
	g := r.g
	r.each(in, func(os []*Overlay) (out []*Overlay) {
		for _, o := range os {
			n := *o
			if n.Name = g.id("other"); g.yes(30, "no name") {
				n.Name = ""
			}
			if n.Action == "" {
				n.Action = "merge"
			} else if n.Action == "merge" && g.yes(30, "default action") {
				n.Action = ""
			}
			if n.OnMissing == "" && n.InjectPath == nil && g.yes(40, "onMissing") {
				if n.OnMissing = r.def; n.OnMissing == "" {
					n.OnMissing = "ignore"
				}
				if g.yes(30, "said to be the default") {
					n.OnMissing = "default"
				}
			}
			n.Shout = g.weighted("spelling", 60, 20, 20)
			n.QueryList, n.InjectList = g.yes(50, "list"), g.yes(50, "list")
			if n.DocIndex != nil && len(n.DocIndex) > 0 {
				n.DocIndex = append([]int{99, n.DocIndex[len(n.DocIndex)-1]}, n.DocIndex...)
			}
			if len(n.DocQuery) > 0 {
				var gs [][]Cond
				for _, grp := range n.DocQuery {
					var cs []Cond
					for i := range grp {
						cs = append(cs, grp[len(grp)-1-i])
					}
					if len(cs) > 0 && g.yes(30, "again") {
						cs = append(cs, cs[0])
					}
					gs = append([][]Cond{cs}, gs...)
				}
				if g.yes(30, "another group") {
					gs = append(gs, []Cond{{Query: []Q{{Segs: []Seg{{T: "rec", Name: g.id("none")}}}}}})
				}
				n.DocQuery = gs
			}
			out = append(out, &n)
		}
		return out
	})
	r.c.label("defaults and conditions spelled differently")
}

// shuffled permutes the keys of a rendered instructions file, other than those
// of values.
func (g *G) shuffled(n *N) {
	for i := len(n.Pairs) - 1; i > 0; i-- {
		j := g.n(0, i, "swap keys")
		n.Pairs[i], n.Pairs[j] = n.Pairs[j], n.Pairs[i]
	}
	for _, p := range n.Pairs {
		if p.K.Val != "value" {
			g.shuffled(p.V)
		}
	}
	for _, it := range n.Items {
		g.shuffled(it)
	}
}

// withNulls adds empty entries to the lists of rendered instructions, and keys
// without a value.
func (g *G) withNulls(n *N) {
	null := func() *N { return &N{Kind: "v", Tag: "!!null", Val: pick(g, []string{"", "null", "~"}, "null")} }
	for _, p := range n.Pairs {
		switch p.K.Val {
		case "value":
			continue
		case "commonOverlays", "yamlFiles", "overlays", "documents":
			at := g.n(0, len(p.V.Items), "null at")
			p.V.Items = append(p.V.Items[:at:at], append([]*N{null()}, p.V.Items[at:]...)...)
			for k := range []string{"overlays", "documents"} {
				k := []string{"overlays", "documents"}[k]
				for _, e := range p.V.Items {
					if p.K.Val == "yamlFiles" && e.Kind == "m" && e.Get(k) == nil && g.yes(30, "null list") {
						e.Set(k, null())
					}
				}
			}
		}
		g.withNulls(p.V)
	}
	for _, it := range n.Items {
		g.withNulls(it)
	}
}

// restate draws instructions equivalent to in.
func (r *restated) restate(in *Instr) *Instr {
	x := r.copyInstr(in)
	for k := r.g.n(1, 4, "changes"); k > 0; k-- {
		switch r.g.n(0, 6, "change") {
		case 0:
			r.common(x)
		case 1:
			r.divided(x)
		case 2:
			r.byIndex(x)
		case 3:
			r.byDocument(x)
		case 4:
			r.idle(x)
		case 5:
			r.single(x)
		default:
			r.explicit(x)
		}
	}
	return x
}

// sayAll draws files, and overlays of every kind for them.
func (g *G) sayAll(c *Case, def string, markers bool) (*Scene, []*Doc) {
	nf := 1 + g.weighted("files", 60, 30, 10)
	notes := g.yes(50, "comments")
	g.anySyntax = 35
	if notes {
		g.anySyntax = 0
	}
	ss, es := g.srcs(nf, 3, func() *N {
		d := g.anyDoc()
		if g.yes(40, "recordDoc") {
			d = g.recordDoc()
		}
		if notes {
			noFlow(d)
			oneLine(d)
			g.notes(d, 25)
		}
		if markers && !notes && g.yes(25, "aliases") && g.tangle(d, g.yes(30, "names used again")) > 0 {
			c.label("anchors and aliases")
		}
		return d
	})
	c.labelIf(notes, "comments")
	s := &Scene{Srcs: ss, Instr: &Instr{Files: es}, Default: def}
	var all []*Doc
	states := make([][]*Doc, nf)
	for i, x := range ss {
		states[i] = copyDocs(x.Docs)
		all = append(all, states[i]...)
	}
	apply := func(o *Overlay, at []int, dss ...[]*Doc) {
		for _, ds := range dss {
			for i, d := range ds {
				if at == nil && o.indexOK(i) || at != nil && at[0] == i {
					if len(FindAll(o.Query, d.orEmpty())) > 0 && o.qualifies(d) {
						c.NonTrivial = true
					}
					if o.Apply(d, def) != nil {
						panic(discard{"rejected"})
					}
				}
			}
		}
	}
	draw := func(ds []*Doc) *Overlay {
		o := g.anyOverlay(ds)
		if o == nil {
			return nil
		}
		for _, grp := range o.DocQuery {
			for i := range grp {
				if grp[i].Value != nil {
					grp[i].Value = grp[i].Value.flat()
				}
			}
		}
		if g.yes(12, "a query twice") {
			q := pick(g, o.Query, "which")
			q.Root = !q.Root || len(q.Segs) == 0
			o.Query = append(o.Query, q)
			c.label("a query twice")
		}
		for _, d := range ds {
			if !d.Gone {
				o.buildable(d)
			}
		}
		o.Marked = o.Value != nil && o.Value.marked()
		if o.Marked && !markers {
			return nil
		}
		if o.Marked {
			// what the markers make is not followed here
			o.Marked = false
			defer func() { o.Marked = true }()
		}
		return o
	}
	for k := g.n(0, 2, "common"); k > 0; k-- {
		if o := draw(all); o != nil {
			s.Instr.Common = append(s.Instr.Common, o)
			apply(o, nil, states...)
		}
	}
	for i, e := range es {
		for k := g.many(0, 3, 6, "overlays"); k > 0; k-- {
			if o := draw(states[i]); o != nil {
				e.Overlays = append(e.Overlays, o)
				apply(o, nil, states[i])
			}
		}
		for k := g.n(0, 2, "documents"); k > 0 && g.yes(50, "documents key"); k-- {
			if o := draw(states[i]); o != nil {
				o.DocIndex = nil
				d := &DocEntry{Path: g.n(0, len(states[i])-1, "document"), Overlays: []*Overlay{o}}
				e.Documents = append(e.Documents, d)
				apply(o, []int{d.Path}, states[i])
			}
		}
	}
	return s, all
}

// C24: instructions that say the same do the same.
func TestC24(t *testing.T) {
	check(t, "C24", func(g *G) *Case {
		c := &Case{Files: map[string]string{}}
		if g.yes(30, "in steps") {
			return g.inSteps(c)
		}
		def := ""
		env := map[string]string{}
		if g.yes(20, "inject by default") {
			def = "inject"
			env["YOT_DEFAULT_ON_MISSING_ACTION"] = def
		}
		s, _ := g.sayAll(c, def, true)
		r := &restated{g: g, c: c, docs: map[*Entry][]*N{}, def: def}
		for i, e := range s.Instr.Files {
			r.docs[e] = s.Srcs[i].Docs
		}
		x := r.restate(s.Instr)
		if a, b := s.meaning(s.Instr, r), s.meaning(x, r); a != b {
			panic(discard{"not the same"})
		}
		n := x.Node()
		if g.yes(30, "empty entries") {
			g.withNulls(n)
			c.label("empty entries")
		}
		if g.yes(50, "other order of keys") {
			g.shuffled(n)
			c.label("keys in another order")
		}
		b := s.newCase()
		b.Labels, b.NonTrivial = c.Labels, c.NonTrivial
		txt := "---\n" + Emit(n, 2+2*g.n(0, 1, "indent"))
		commented := false
		n.walkAll(func(v *N) { commented = commented || v.Line != "" || v.Tag == "!!null" && v.Val == "" })
		if !commented && g.yes(30, "flow") {
			txt = strings.TrimSpace(flowText(n)) + "\n"
			b.label("instructions on one line")
		}
		selfCheck([]*N{n}, txt)
		if !commentsFaithful([]*N{s.Instr.Node()}, b.Files["w/cwd/i.yaml"]) || !commentsFaithful([]*N{n}, txt) {
			panic(discard{"the library reads the comments of the instructions elsewhere"})
		}
		b.Files["w/cwd/j.yaml"] = txt
		docLabels(b, s.Srcs)
		var args []string
		if g.yes(30, "style") {
			args = append(args, "-S", pick(g, []string{"doubleQuoted", "singleQuoted", "flow", "literal", "folded", "tagged"}, "style"))
		}
		if g.yes(15, "remove comments") {
			args = append(args, "--remove-comments")
		}
		b.Runs = []Run{
			{Args: append([]string{"-i", "i.yaml", "-o", "{R}" + outAbs}, args...), Env: env},
			{Args: append([]string{"-i", "j.yaml", "-o", "{R}" + outAbs}, args...), Env: env, Clean: true},
		}
		b.Asserts = []Assert{{Kind: "nocrash"}, {Kind: "samecode", Run: 1}, {Kind: "sameoutok", Run: 1, Dir: outAbs, Dir2: outAbs}}
		return b
	})
}

// meaning is what the reference semantics makes of the instructions, markers aside.
func (s *Scene) meaning(in *Instr, r *restated) string {
	unmarked := func(os []*Overlay) (out []*Overlay) {
		for _, o := range os {
			n := *o
			n.Marked = false
			out = append(out, &n)
		}
		return out
	}
	var all []string
	for _, x := range s.Srcs {
		var own []*Overlay
		var docs []*DocEntry
		for _, e := range in.Files {
			if r.docs[e][0] == x.Docs[0] {
				own = append(own, unmarked(e.Overlays)...)
				for _, d := range e.Documents {
					docs = append(docs, &DocEntry{Path: d.Path, Overlays: unmarked(d.Overlays)})
				}
			}
		}
		out, err := Process(x.Docs, unmarked(in.Common), own, docs, s.Default)
		all = append(all, fmt.Sprint(CanonAll(out), err))
	}
	return strings.Join(all, "\n")
}

// inSteps applies the overlays in one run, and in two of which the second reads
// what the first wrote.
func (g *G) inSteps(c *Case) *Case {
	s, all := g.sayAll(c, "", false)
	for _, d := range all {
		if d.Gone {
			panic(discard{"a document is deleted"})
		}
	}
	first, second := &Instr{}, &Instr{}
	k := g.n(0, len(s.Instr.Common), "first of common")
	first.Common = s.Instr.Common[:k]
	names := outNames(paths(s.Srcs))
	for i, e := range s.Instr.Files {
		a := &Entry{Path: e.Path}
		b := &Entry{Path: "{R}/w/cwd/mid/" + names[s.Srcs[i].Path]}
		if k == len(s.Instr.Common) {
			j := g.n(0, len(e.Overlays), "first of a file")
			a.Overlays, b.Overlays = e.Overlays[:j], e.Overlays[j:]
		} else {
			b.Overlays = e.Overlays
		}
		b.Documents = e.Documents
		first.Files = append(first.Files, a)
		second.Files = append(second.Files, b)
	}
	second.Common = s.Instr.Common[k:]
	b := s.newCase()
	b.Labels, b.NonTrivial = c.Labels, c.NonTrivial
	for name, in := range map[string]*Instr{"a.yaml": first, "b.yaml": second} {
		txt := in.Text()
		selfCheck([]*N{in.Node()}, txt)
		b.Files["w/cwd/"+name] = txt
	}
	docLabels(b, s.Srcs)
	b.label("in two runs")
	b.Runs = []Run{
		{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}},
		{Args: []string{"-i", "a.yaml", "-o", "{R}/w/cwd/mid"}},
		{Args: []string{"-i", "b.yaml", "-o", "{R}/w/cwd/fin"}},
	}
	b.Asserts = []Assert{{Kind: "ok"}, {Kind: "ok", Run: 1}, {Kind: "ok", Run: 2}, {Kind: "samedata", Run: 2, Dir: "/w/cwd/fin", Dir2: outAbs}}
	return b
}

func paths(ss []*Src) (ps []string) {
	for _, x := range ss {
		ps = append(ps, x.Path)
	}
	return ps
}

func init() {
	// the files below Dir hold the data of those below Dir2 of run 2
	extraChecks["samedata"] = func(c *Case, a *Assert, rs []*Result) error {
		x, y := below(rs[a.Run].FS, a.Dir), below(rs[a.Run2].FS, a.Dir2)
		for _, k := range keysOf(y) {
			t, ok := x[k]
			if !ok {
				return fmt.Errorf("%s was not written", k)
			}
			p, err := ParseStream(t)
			if err != nil {
				return fmt.Errorf("%s is not valid: %w", k, err)
			}
			q, err := ParseStream(y[k])
			if err != nil {
				return fmt.Errorf("%s is not valid: %w", k, err)
			}
			if err := diffDocs(CanonAll(q), CanonAll(p)); err != nil {
				return fmt.Errorf("%s: %w\n--- in one run\n%s\n--- in steps\n%s", k, err, clip(y[k]), clip(t))
			}
		}
		if len(x) != len(y) {
			return fmt.Errorf("%d and %d files", len(x), len(y))
		}
		return nil
	}
}
