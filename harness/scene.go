package harness

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// Src is an input file of a case.
type Src struct {
	Path string // inside the sandbox, absolute
	Docs []*N
	Text string
}

// Scene is an overlay scenario: input files, instructions, expected documents.
type Scene struct {
	Srcs  []*Src
	Instr *Instr
	// AdHoc is an extra common overlay given on the command line.
	AdHoc   *Overlay
	Default string // default onMissing action
}

const outAbs = "/w/cwd/out"

// outNames is the documented output name of every input file: its path below
// the deepest directory all inputs share.
func outNames(paths []string) map[string]string {
	var common []string
	for i, p := range paths {
		parts := strings.Split(path.Dir(path.Clean(p)), "/")
		if i == 0 {
			common = parts
			continue
		}
		k := 0
		for k < len(common) && k < len(parts) && common[k] == parts[k] {
			k++
		}
		common = common[:k]
	}
	pre := strings.Join(common, "/") + "/"
	if pre == "//" {
		pre = "/"
	}
	m := map[string]string{}
	for _, p := range paths {
		m[p] = strings.TrimPrefix(path.Clean(p), pre)
	}
	return m
}

// expected runs the reference semantics over the scene.
func (s *Scene) expected() (map[string][]string, error) {
	want := map[string][]string{}
	var paths []string
	for _, x := range s.Srcs {
		paths = append(paths, x.Path)
	}
	names := outNames(paths)
	common := append([]*Overlay{}, s.Instr.Common...)
	if s.AdHoc != nil {
		common = append(common, s.AdHoc)
	}
	var failed error
	for i, x := range s.Srcs {
		e := s.Instr.Files[i]
		docs, err := Process(x.Docs, common, e.Overlays, e.Documents, s.Default)
		if err != nil {
			failed = err
			continue
		}
		if len(docs) > 0 {
			want[names[x.Path]] = CanonAll(docs)
		}
	}
	return want, failed
}

// newCase lays out the scene's files and instructions.
func (s *Scene) newCase() *Case {
	c := &Case{Files: map[string]string{}}
	for _, x := range s.Srcs {
		c.Files[strings.TrimPrefix(x.Path, "/")] = x.Text
	}
	txt := s.Instr.Text()
	selfCheck([]*N{s.Instr.Node()}, txt)
	c.Files["w/cwd/i.yaml"] = txt
	return c
}

// srcs draws input files below /w/in and their yamlFiles entries.
func (g *G) srcs(nf, nd int, doc func() *N) ([]*Src, []*Entry) {
	dirs := []string{"/w/in", "/w/in/sub", "/w/in/sub/deep", "/w/other"}
	var ss []*Src
	var es []*Entry
	for i := 0; i < nf; i++ {
		dir := "/w/in"
		if nf > 1 {
			dir = pick(g, dirs, "dir")
		}
		name := g.id("f") + ".yaml"
		x := &Src{Path: dir + "/" + name}
		k := 1
		if nd > 1 {
			k = g.many(1, nd, 14, "docs")
		}
		for j := 0; j < k; j++ {
			x.Docs = append(x.Docs, doc())
		}
		if g.n(0, 999, "bulk") >= 990 {
			g.bulk(x, nd > 1)
		}
		x.Text = g.file(x.Docs)
		p := x.Path
		if g.yes(30, "relative") {
			p = "../" + strings.TrimPrefix(p, "/w/")
		}
		ss = append(ss, x)
		es = append(es, &Entry{Path: "{R}" + p})
		if !strings.HasPrefix(p, "/") {
			es[i].Path = p
		}
	}
	return ss, es
}

// bulk makes a source far larger than usual.
func (g *G) bulk(x *Src, docs bool) {
	if docs && g.yes(40, "many documents") {
		for k := g.n(60, 300, "docs"); k > 0; k-- {
			x.Docs = append(x.Docs, Map("zz-n", k))
		}
		return
	}
	d := x.Docs[len(x.Docs)-1]
	if d.Kind != "m" || d.Style == "flow" {
		return
	}
	v := Seq()
	switch g.n(0, 3, "bulk of") {
	case 0:
		v = S(strings.Repeat(pick(g, []string{"long text, ", "0123456789abcdef", "é"}, "text"), g.n(3000, 9000, "times")) + ".")
	case 1:
		for k := g.n(200, 1500, "items"); k > 0; k-- {
			v.Items = append(v.Items, I(k))
		}
	case 2:
		v = Map()
		for k := g.n(200, 700, "pairs"); k > 0; k-- {
			v.Set(fmt.Sprintf("zz-%d", k), S("v"))
		}
	default:
		for k := g.n(40, 120, "levels"); k > 0; k-- {
			if k%2 == 0 {
				v = Map("zz-in", v)
			} else {
				v = Seq(v)
			}
		}
	}
	d.Set("zz-bulk", v)
}

// states are the documents of a scene while overlays are being drawn.
func copyDocs(docs []*N) []*Doc {
	var out []*Doc
	for _, d := range docs {
		out = append(out, &Doc{Root: d.Graph()})
	}
	return out
}

// safe is true when applying o to the documents is unambiguous: no node is
// matched twice and none inside another match, unless that cannot matter.
func (o *Overlay) safe(ds []*Doc) bool {
	for _, d := range ds {
		if d.Gone {
			continue
		}
		res := FindAll(o.Query, d.Root)
		if o.Action == "delete" || o.Action == "replace" {
			continue
		}
		if !disjoint(res) || entangled(res) {
			return false
		}
		if o.Action == "combine" && o.Value != nil {
			for _, r := range res {
				if combine(r.Copy(), o.value()) == errUnspecified {
					return false
				}
			}
		}
	}
	return true
}

// entangled is true when one of the nodes has an alias to another, or to a
// part of it.
func entangled(ns []*N) bool {
	at := map[*N]int{}
	for i, n := range ns {
		n.walkAll(func(x *N) { at[x] = i + 1 })
	}
	for i, n := range ns {
		bad := false
		n.walkAll(func(x *N) {
			if x.Kind == "a" {
				x.Target.walkAll(func(y *N) { bad = bad || at[y] != 0 && at[y] != i+1 })
			}
		})
		if bad {
			return true
		}
	}
	return false
}

func applyAll(o *Overlay, ds []*Doc, def string) error {
	for _, d := range ds {
		if err := o.Apply(d, def); err != nil {
			return err
		}
	}
	return nil
}

// drawOverlay draws one overlay with the given action that fits the current
// state of the documents, and applies it to them.  It returns nil when the
// documents offer no target.
func (g *G) drawOverlay(action string, ds []*Doc, widen int) *Overlay {
	var live []*Doc
	for _, d := range ds {
		if !d.Gone {
			live = append(live, d)
		}
	}
	if len(live) == 0 {
		return nil
	}
	d := pick(g, live, "doc")
	var ok func(*N) bool
	binary := g.binary && g.yes(30, "combine binary")
	if action == "combine" && !g.yes(6, "combine anything") {
		ok = func(n *N) bool {
			n = n.real()
			if binary {
				return n.Kind == "v" && n.Tag == "!!binary"
			}
			return n.Kind == "v" && (n.Tag == "!!int" || n.Tag == "!!bool" || n.Tag == "!!str")
		}
	}
	nq := 1
	if g.yes(20, "queries") {
		nq = g.many(2, 3, 7, "nq")
	}
	o := &Overlay{Action: action, Name: "n" + g.id("")}
	switch g.weighted("name", 50, 25, 25) {
	case 1:
		o.Name = ""
	case 2:
		o.Name = "n" // names need not differ
	}
	if action == "merge" && g.yes(25, "default action") && o.Name != "" {
		o.Action = ""
	}
	if nq == 1 && g.yes(20, "asList") {
		o.QueryList = true
	}
	for i := 0; i < nq; i++ {
		q, found := Q{}, false
		if action == "delete" && g.yes(12, "by key") {
			q, found = g.keyQuery(d.Root)
		}
		if !found {
			q, found = g.query(d.Root, widen, ok)
		}
		if !found {
			return nil
		}
		o.Query = append(o.Query, q)
	}
	if !o.safe(ds) {
		o.Query = o.Query[:1]
		if !o.safe(ds) {
			return nil
		}
	}
	res := FindAll(o.Query, d.Root)
	var first *N
	if len(res) > 0 {
		first = res[0].real()
	} else {
		first = Null()
	}
	switch action {
	case "delete":
		if g.yes(15, "deleteWithValue") {
			o.Value = S("ignored")
		}
	case "replace":
		o.Value = g.overlayValue(g.n(0, 3, "valueDepth"))
	case "combine":
		switch first.Tag {
		case "!!int":
			o.Value = &N{Kind: "v", Tag: "!!int", Val: pick(g, []string{"1", "0", "-3", "41", "100000", "4611686018427387904", "18446744073709551615", "0o17", "0x1F", "-0x10", "1_000", "010", "+7", "0b101"}, "addend")}
		case "!!bool":
			o.Value = B(g.yes(50, "operand"))
		default:
			o.Value = S(g.text(false))
		}
		switch {
		case g.yes(4, "combineCollection"):
			o.Value = g.mapping(VOpt{Width: 2}, 1)
		case first.Tag != "!!str" && g.yes(4, "combineText"):
			o.Value = S("not a number")
		}
		if !o.safe(ds) {
			return nil
		}
	default:
		o.Value = g.related(first, g.n(0, 3, "valueDepth"))
	}
	return o
}

// mutationLabels describes what an overlay met in the documents.
func (c *Case) mutationLabels(o *Overlay, ds []*Doc) {
	total := 0
	for _, d := range ds {
		if d.Gone {
			continue
		}
		k := len(FindAll(o.Query, d.Root))
		if k > total {
			total = k
		}
	}
	switch {
	case total == 0:
		c.label("no match")
	case total == 1:
		c.label("one match")
	case total < 10:
		c.label("several matches")
	default:
		c.label("ten or more matches")
	}
	c.labelIf(len(o.Query) > 1, "several queries")
	for _, q := range o.Query {
		for _, s := range q.Segs {
			if s.T != "child" && s.T != "index" {
				c.label("query " + s.T)
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
