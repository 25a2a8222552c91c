package harness

import (
	"fmt"
	"strings"
	"testing"

	old "yamlold.example"
)

// noteSrcs draws files whose comments the library attributes as intended.
func (g *G) noteSrcs(nf, nd, density int) ([]*Src, []*Entry) {
	return g.srcs(nf, nd, func() *N {
		o := VOpt{Depth: 3, Width: 4, TextKeys: g.yes(60, "text keys"), Plain: g.yes(60, "plain")}
		d := g.mapDoc(o)
		if g.yes(35, "records") {
			d = g.recordDoc()
		}
		noFlow(d)
		g.notes(d, density)
		return d
	})
}

func noFlow(n *N) {
	n.Walk(func(x *N) {
		if x.Kind != "v" {
			x.Style = ""
		}
	})
}

// wantComments is what every output file reads as, comments included.
func (s *Scene) wantComments() (map[string][]string, int, error) {
	want := map[string][]string{}
	var paths []string
	for _, x := range s.Srcs {
		paths = append(paths, x.Path)
	}
	names := outNames(paths)
	notes := 0
	for i, x := range s.Srcs {
		e := s.Instr.Files[i]
		docs, err := Process(x.Docs, s.Instr.Common, e.Overlays, e.Documents, "ignore")
		if err != nil {
			return nil, 0, err
		}
		if len(docs) == 0 {
			continue
		}
		w, ok := renderedC(docs)
		if !ok {
			panic(discard{"the library does not render these comments faithfully"})
		}
		for _, d := range w {
			notes += strings.Count(d, "(# ")
		}
		want[names[x.Path]] = w
	}
	return want, notes, nil
}

// commentOverlays draws overlays with line comments in their values.
func (g *G) commentOverlays(s *Scene, c *Case) {
	states := make([][]*Doc, len(s.Srcs))
	var all []*Doc
	for i, x := range s.Srcs {
		states[i] = copyDocs(x.Docs)
		all = append(all, states[i]...)
	}
	draw := func(ds []*Doc, lst *[]*Overlay) {
		act := pick(g, []string{"merge", "merge", "replace", "delete", "combine"}, "action")
		o := g.drawOverlay(act, ds, 25)
		if o == nil {
			return
		}
		if o.Value != nil {
			noFlow(o.Value)
			if o.Value.Kind != "v" && (act == "merge" || act == "replace") && g.yes(75, "comments of all kinds") {
				oneLine(o.Value)
				g.notes(o.Value, 20)
				o.Value.walkAll(func(n *N) { // format markers are another matter
					n.Head, n.Line, n.Foot = strings.ReplaceAll(n.Head, "%", "/"), strings.ReplaceAll(n.Line, "%", "/"), strings.ReplaceAll(n.Foot, "%", "/")
				})
				c.label("head and foot comments in a value")
			} else {
				g.lineNotes(o.Value, 30)
			}
		}
		if act == "merge" && g.yes(20, "inject") {
			o.Query = []Q{g.missing(pick(g, ds, "doc").orEmpty(), 3)}
			for _, d := range ds {
				if !d.Gone {
					(&Overlay{Query: o.Query, OnMissing: "inject"}).buildable(d)
				}
			}
			o.OnMissing = "inject"
			if o.Value.Kind != "v" {
				o.Value = S(g.word())
			}
			c.label("injected")
		}
		total := 0
		for _, d := range ds {
			if !d.Gone {
				total += len(FindAll(o.Query, d.Root))
			}
		}
		c.labelIf(total > 0, act+" applies")
		if o.Value != nil && total > 0 {
			o.Value.Walk(func(v *N) { c.labelIf(v.Line != "", "comment in a value") })
		}
		*lst = append(*lst, o)
		_ = applyAll(o, ds, "ignore")
	}
	for k := g.n(0, 1, "common"); k > 0 && len(s.Srcs) > 1; k-- {
		draw(all, &s.Instr.Common)
	}
	for f := range s.Srcs {
		for k := g.n(0, 3, "overlays"); k > 0; k-- {
			draw(states[f], &s.Instr.Files[f].Overlays)
		}
	}
}

func (d *Doc) orEmpty() *N {
	if d.Gone || d.Root == nil {
		return &N{Kind: "m"}
	}
	return d.Root
}

// sprinkle puts comments between and behind lines of a source that has no
// multi-line scalars.
func (g *G) sprinkle(src string, density int) string {
	var out []string
	for _, l := range strings.Split(strings.TrimSuffix(src, "\n"), "\n") {
		if g.yes(density, "above") {
			ind := len(l) - len(strings.TrimLeft(l, " "))
			if g.yes(30, "off") {
				ind = g.n(0, 8, "indent")
			}
			out = append(out, strings.Repeat(" ", ind)+"# above"+g.id("-"))
			if g.yes(30, "blank") {
				out = append(out, "")
			}
		}
		if g.yes(density, "behind") {
			l += " # behind" + g.id("-")
		}
		out = append(out, l)
		if g.yes(density/4, "gap") {
			out = append(out, "")
		}
	}
	if g.yes(density, "end") {
		out = append(out, "", "# end"+g.id("-"))
	}
	return strings.Join(out, "\n") + "\n"
}

// oneLine makes every scalar of a tree fit on a line and keeps its texts plain.
func oneLine(n *N) {
	n.Walk(func(x *N) {
		if x.Kind == "v" {
			x.Val = strings.ReplaceAll(x.Val, "\n", " ")
			x.Style = ""
		}
		for _, p := range x.Pairs {
			p.K.Val = strings.ReplaceAll(p.K.Val, "\n", " ")
		}
	})
}

// C11: comments.
func TestC11(t *testing.T) {
	check(t, "C11", func(g *G) *Case {
		if g.yes(30, "only preserve") {
			return g.preserved()
		}
		if g.yes(12, "behind collections") {
			return g.behindCollections()
		}
		nf := 1 + g.weighted("files", 75, 25)
		ss, es := g.noteSrcs(nf, 3, pick(g, []int{15, 30, 45}, "density"))
		for _, x := range ss {
			if !commentsFaithful(x.Docs, x.Text) {
				panic(discard{"the library reads these comments elsewhere"})
			}
		}
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		c0 := &Case{}
		g.commentOverlays(s, c0)
		c := s.newCase()
		if !commentsFaithful([]*N{s.Instr.Node()}, s.Instr.Text()) {
			panic(discard{"the library reads the comments of the instructions elsewhere"})
		}
		c.Labels = c0.Labels
		want, notes, err := s.wantComments()
		if err != nil {
			panic(discard{"rejected"})
		}
		c.NonTrivial = notes >= 2
		c.labelIf(notes >= 10, "ten or more comments")
		docLabels(c, ss)
		c.Runs = []Run{{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}}}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "comments", Dir: outAbs, Files: want}}
		return c
	})
}

// preserved: comments anywhere in an untouched file come out where reading and
// writing it with the library alone puts them.
func (g *G) preserved() *Case {
	var docs []*N
	for k := g.n(1, 3, "docs"); k > 0; k-- {
		d := g.mapDoc(VOpt{Depth: 4, Width: 4, Plain: g.yes(60, "plain"), TextKeys: true})
		noFlow(d)
		oneLine(d)
		docs = append(docs, d)
	}
	src := g.sprinkle(EmitStream(docs, 2, true), pick(g, []int{10, 25, 40}, "density"))
	selfCheck(docs, src)
	ys, err := fromOld(src)
	if err != nil {
		panic(discard{"the library does not read this"})
	}
	for _, y := range ys {
		plainOld(y)
	}
	text, err := renderOld(ys)
	if err != nil {
		panic(discard{"the library does not write this"})
	}
	want, err := canonCAll(text)
	if err != nil {
		panic(discard{"the library writes garbage"})
	}
	if back, err := ParseStream(text); err != nil || strings.Join(CanonAll(back), "\n") != strings.Join(CanonAll(docs), "\n") {
		panic(discard{"the library does not keep this data unquoted"})
	}
	c := &Case{Files: map[string]string{"w/in/a.yaml": src}}
	c.Files["w/cwd/i.yaml"] = "yamlFiles:\n  - path: ../in/a.yaml\n    overlays:\n      - {query: no-such-key, action: delete}\n      - {query: no-such-key.x, value: 1, action: replace}\n"
	c.Runs = []Run{{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}}}
	c.Asserts = []Assert{{Kind: "ok"}, {Kind: "comments", Dir: outAbs, Files: map[string][]string{"a.yaml": want}}}
	k := strings.Count(src, "# ")
	c.NonTrivial = k >= 2
	c.label("untouched file with comments anywhere")
	c.labelIf(k >= 10, "ten or more comments")
	return c
}

// behindCollections: comments behind collections, of sources and of overlay values, end up behind the key.
func (g *G) behindCollections() *Case {
	c := &Case{Files: map[string]string{}}
	c.label("comments behind collections")
	mk := func() string {
		if g.yes(50, "no comment") {
			return ""
		}
		return " # c" + g.id("-")
	}
	val := func() string {
		w := g.id("w")
		switch g.n(0, 4, "value") {
		case 0:
			return "{" + w + ": 1}"
		case 1:
			return "[" + w + "]"
		case 2:
			return "{" + w + ": {x: 1}, y" + w + ": [a, b]}"
		case 3:
			return "[[" + w + "], {a: b}]"
		}
		return w
	}
	want := map[string]string{}
	var keys []string
	src := ""
	for k := g.n(1, 5, "keys"); k > 0; k-- {
		key := g.id("k")
		keys = append(keys, key)
		want[key] = mk()
		src += key + ": " + val() + want[key] + "\n"
	}
	c.Files["w/in/a.yaml"] = src
	ins := "yamlFiles:\n  - path: ../in/a.yaml\n    overlays:\n"
	put := func(key string) (string, string) {
		v, cm := val(), mk()
		if want[key] == "" || cm != "" {
			c.NonTrivial = c.NonTrivial || want[key] != ""
			want[key] = cm
		}
		c.labelIf(cm != "" && v[0] == '{', "comment behind a mapping of a value")
		c.labelIf(cm != "" && v[0] == '[', "comment behind a list of a value")
		return v, cm
	}
	for k := g.n(1, 3, "overlays"); k > 0; k-- {
		if g.yes(30, "several keys") {
			ins += "      - query: $\n        value:\n"
			if g.yes(40, "new") {
				keys = append(keys, g.id("k"))
			}
			for i, key := range keys {
				if g.yes(50, "this key") || i == len(keys)-1 {
					v, cm := put(key)
					ins += "          " + key + ": " + v + cm + "\n"
				}
			}
			continue
		}
		key := pick(g, keys, "key")
		if _, ok := want[key]; !ok {
			continue
		}
		v, cm := put(key)
		ins += "      - query: " + key + "\n        value: " + v + cm + "\n        action: " + pick(g, []string{"merge", "replace"}, "action") + "\n"
	}
	c.Files["w/cwd/i.yaml"] = ins
	l := []string{}
	for _, k := range sortedKeys(want) {
		l = append(l, k, want[k])
	}
	c.Runs = []Run{{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}}}
	c.Asserts = []Assert{{Kind: "ok"}, {Kind: "behind", Dir: outAbs, Path: "a.yaml", List: l}}
	return c
}

// removing is a run with comment removal on.
func (g *G) removing(c *Case) Run {
	r := Run{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}}
	switch g.n(0, 3, "by") {
	case 0:
		r.Args = append(r.Args, "--remove-comments")
		c.label("by flag")
	case 1:
		r.Env = map[string]string{"YOT_REMOVE_COMMENTS": pick(g, []string{"true", "1", "TRUE"}, "value")}
		c.label("by environment")
	case 2:
		c.Files["w/cwd/yot.config"] = "removeComments: true\n"
		c.label("by configuration file")
	default:
		c.Files["w/cwd/yot.config"] = "removeComments: false\n"
		r.Args = append(r.Args, "--remove-comments=true")
		r.Env = map[string]string{"YOT_REMOVE_COMMENTS": "false"}
		c.label("by flag over environment and configuration file")
	}
	return r
}

func init() {
	// List are keys of the file Path and the comments on their lines
	extraChecks["behind"] = func(c *Case, a *Assert, rs []*Result) error {
		got := map[string]string{}
		txt := below(rs[a.Run].FS, a.Dir)[a.Path]
		for _, l := range strings.Split(txt, "\n") {
			if k, rest, ok := strings.Cut(l, ":"); ok && !strings.HasPrefix(l, " ") {
				_, cm, _ := strings.Cut(rest, "#")
				got[k] = strings.TrimSpace(cm)
			}
		}
		for i := 0; i < len(a.List); i += 2 {
			if w := strings.TrimPrefix(a.List[i+1], " # "); got[a.List[i]] != w {
				return fmt.Errorf("comment of %s: want %q, got %q\n%s", a.List[i], w, got[a.List[i]], clip(txt))
			}
		}
		return nil
	}
	// the files below Dir have no comments
	extraChecks["uncommented"] = func(c *Case, a *Assert, rs []*Result) error {
		for k, txt := range below(rs[a.Run].FS, a.Dir) {
			if at := commentText.FindStringIndex(txt); at != nil {
				return fmt.Errorf("%s still has the comment %q", k, clip(txt[at[0]:]))
			}
		}
		return nil
	}
}

// commentsInAnySyntax is a case with comments in block and flow collections, with anchors and aliases.
func (g *G) commentsInAnySyntax() *Case {
	p := &placer{g: g, b: &strings.Builder{}, density: pick(g, []int{15, 30, 50}, "density"), exotic: g.yes(60, "exotic")}
	nd := g.n(1, 3, "docs")
	for i := 0; i < nd; i++ {
		if i > 0 || g.yes(50, "marker") {
			p.b.WriteString("---\n")
		}
		p.anchors = nil
		if g.yes(20, "document head") {
			p.b.WriteString("# " + p.comment("d") + "\n\n")
		}
		p.entries(&spot{}, g.yes(60, "map"), "", 3, 4)
	}
	src := p.b.String()
	docs, err := ParseStream(src)
	if err != nil || len(docs) != nd {
		must(fmt.Errorf("generated source is not valid: %w\n%s", err, src))
	}
	if _, err := fromOld(src); err != nil {
		panic(discard{"the library does not read this"})
	}
	c := &Case{Files: map[string]string{"w/in/a.yaml": src}}
	in := &Instr{Files: []*Entry{{Path: "../in/a.yaml"}}}
	c.Files["w/cwd/i.yaml"] = in.Text()
	var want []string
	for _, d := range docs {
		want = append(want, Canon(d))
	}
	c.NonTrivial = commentText.MatchString(src)
	c.label("comments in any syntax")
	c.labelIf(p.exotic, "anchors and aliases")
	c.Runs = []Run{g.removing(c)}
	c.Asserts = []Assert{{Kind: "ok"}, {Kind: "files", Dir: outAbs, Files: map[string][]string{"a.yaml": want}}, {Kind: "uncommented", Dir: outAbs}}
	return c
}

// C12: removing comments.
func TestC12(t *testing.T) {
	check(t, "C12", func(g *G) *Case {
		if g.yes(25, "any syntax") {
			return g.commentsInAnySyntax()
		}
		nf := 1 + g.weighted("files", 75, 25)
		var ss []*Src
		var es []*Entry
		anywhere := g.yes(60, "comments anywhere")
		if anywhere {
			g.anySyntax = 0
		}
		ss, es = g.srcs(nf, 3, func() *N {
			d := g.mapDoc(VOpt{Depth: 4, Width: 4, Plain: g.yes(50, "plain"), TextKeys: g.yes(50, "text keys")})
			if g.yes(25, "records") {
				d = g.recordDoc()
			} else if g.yes(12, "list") {
				d = g.sequence(VOpt{Depth: 3, Width: 4, TextKeys: true}, 1)
			}
			noFlow(d)
			oneLine(d)
			if !anywhere {
				g.notes(d, 30)
			}
			return d
		})
		marks := 0
		for _, x := range ss {
			if anywhere {
				x.Text = g.sprinkle(x.Text, pick(g, []int{15, 35}, "density"))
				selfCheck(x.Docs, x.Text)
			}
			marks += strings.Count(x.Text, "# ")
			if _, err := fromOld(x.Text); err != nil {
				panic(discard{"the library does not read this"})
			}
			for _, d := range x.Docs {
				stripComments(d)
			}
		}
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		c0 := &Case{}
		g.commentOverlays(s, c0)
		c := s.newCase()
		if !commentsFaithful([]*N{s.Instr.Node()}, s.Instr.Text()) {
			panic(discard{"the library reads the comments of the instructions elsewhere"})
		}
		c.Labels = c0.Labels
		want, notes, err := s.wantComments()
		if err != nil {
			panic(discard{"rejected"})
		}
		c.NonTrivial = marks > 0
		c.labelIf(notes > 0, "comments of overlays stay")
		r := g.removing(c)
		if last := len(es) - 1; len(es[last].Overlays) == 0 && len(es[last].Documents) == 0 && g.yes(60, "by path") {
			s.Instr.Files = es[:last]
			c.Files["w/cwd/i.yaml"] = s.Instr.Text()
			r.Args = append(r.Args, "-p", "{R}"+ss[last].Path)
			c.label("file of the command line")
		}
		c.Runs = []Run{r}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "comments", Dir: outAbs, Files: want}}
		return c
	})
}

var _ = fmt.Sprint
var _ old.Node
