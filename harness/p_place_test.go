package harness

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	old "yamlold.example"
)

// spot is an entry of a mapping or an item of a list, with the comments
// written at it and the pieces of text that stand for it.
type spot struct {
	key  string // its own text; empty for items
	head []string
	line string
	foot string
	val  string // text of a scalar, or empty
	kids []*spot
	segs []Seg
	own  []string // tokens of its own line in the source order
	tied bool     // has an anchor or an alias in it
	gone bool     // deleted
	lost bool     // the value was replaced
	// loose: its line comment goes with the first nodes in it
	loose bool
}

// shift takes note that the item at segs was deleted.
func (s *spot) shift(segs []Seg) {
	last := len(segs) - 1
	for _, k := range s.kids {
		if len(k.segs) > last {
			same := k.segs[last].T == "index" && k.segs[last].I > segs[last].I
			for i := 0; i < last; i++ {
				same = same && k.segs[i].T == segs[i].T && k.segs[i].Name == segs[i].Name && k.segs[i].I == segs[i].I
			}
			if same {
				k.segs = append([]Seg{}, k.segs...)
				k.segs[last].I--
			}
		}
		k.shift(segs)
	}
}

// touched is whether the value, its first entry, the first one in that or so
// on was changed.
func (s *spot) touched() bool {
	for !s.gone && !s.lost {
		if len(s.kids) == 0 {
			return false
		}
		s = s.kids[0]
	}
	return true
}

type placer struct {
	g       *G
	b       *strings.Builder
	density int
	anchors []string
	n       int
	exotic  bool
	first   string // what stands before the first entry on its line
}

func (p *placer) id(s string) string { p.n++; return fmt.Sprintf("%s%d%s", s, p.n, s) }

func (p *placer) comment(s string) string {
	t := p.id(s)
	if p.g.yes(20, "words") {
		t += " " + pick(p.g, []string{"and: more", "- x", "[a, b]", "it's", "%"}, "commentText")
	}
	return t
}

// scalar writes a one-line scalar and returns its token.
func (p *placer) scalar() (text, token string) {
	t := p.id("v")
	switch p.g.weighted("scalar", 60, 10, 10, 10, 10) {
	case 1:
		return `"` + t + ` "`, t
	case 2:
		return "'" + t + "'", t
	case 3:
		p.n++
		t = fmt.Sprintf("7%04d7", p.n)
		return t, t
	case 4:
		return pick(p.g, []string{"null", "true", "~", `""`, "1.5"}, "word"), ""
	}
	return t, t
}

// flow writes a collection on one line.
func (p *placer) flow(depth int) (string, []string) {
	var parts, toks []string
	isMap := p.g.yes(50, "flowMap")
	for k := p.g.n(0, 3, "flowSize"); k > 0; k-- {
		var key string
		if isMap {
			key = p.id("k")
			toks = append(toks, key)
			key += ": "
		}
		if depth > 0 && p.g.yes(25, "nested") {
			s, ts := p.flow(depth - 1)
			parts, toks = append(parts, key+s), append(toks, ts...)
			continue
		}
		s, t := p.scalar()
		parts = append(parts, key+s)
		if t != "" {
			toks = append(toks, t)
		}
	}
	if isMap {
		return "{" + strings.Join(parts, ", ") + "}", toks
	}
	return "[" + strings.Join(parts, ", ") + "]", toks
}

// lines writes a flow collection on several lines, with comments in it.
func (p *placer) lines(e *spot, lead, ind, line string) {
	isMap := p.g.yes(50, "flowMap")
	open, shut := "[", "]"
	if isMap {
		open, shut = "{", "}"
	}
	p.b.WriteString(lead + " " + open + "\n")
	for k := p.g.n(1, 3, "flowSize"); k > 0; k-- {
		it := &spot{}
		e.kids = append(e.kids, it)
		if p.g.yes(p.density, "head") {
			it.head = append(it.head, p.comment("h"))
			p.b.WriteString(ind + "  # " + it.head[0] + "\n")
		}
		p.b.WriteString(ind + "  ")
		if isMap {
			it.key = p.id("k")
			it.own = append(it.own, it.key)
			p.b.WriteString(it.key + ": ")
		}
		s, t := p.scalar()
		if t != "" {
			it.own = append(it.own, t)
		}
		p.b.WriteString(s)
		if k > 1 {
			p.b.WriteString(",")
		}
		if p.g.yes(p.density, "line") {
			it.line = p.comment("l")
			p.b.WriteString(" # " + it.line)
		}
		p.b.WriteString("\n")
	}
	p.b.WriteString(ind + shut + line + "\n")
}

// entries writes the entries of a block collection.
func (p *placer) entries(parent *spot, isMap bool, ind string, depth, width int) {
	for k := p.g.n(1+depth/3, width, "width"); k > 0; k-- {
		e := &spot{}
		start := ind
		if p.first != "" {
			start, p.first = p.first, ""
		}
		for start == ind && p.g.yes(p.density, "head") && len(e.head) < 2 {
			e.head = append(e.head, p.comment("h"))
			p.b.WriteString(ind + "# " + e.head[len(e.head)-1] + "\n")
		}
		lead := start + "-"
		seg := Seg{T: "index", I: len(parent.kids)}
		if isMap {
			e.key = p.id("k")
			e.own = append(e.own, e.key)
			lead = start + e.key + ":"
			seg = Seg{T: "child", Name: e.key}
		}
		e.segs = append(append([]Seg{}, parent.segs...), seg)
		parent.kids = append(parent.kids, e)
		line := ""
		if p.g.yes(p.density, "line") {
			e.line = p.comment("l")
			line = " # " + e.line
		}
		props, defined := "", ""
		if p.exotic && p.g.yes(12, "anchor") {
			a := p.id("a")
			defined = a
			props, e.tied = " &"+a, true
		}
		kind := p.g.weighted("kind", 30, 25, 30, 5, 5)
		if depth <= 0 && kind == 2 || !isMap && kind == 3 {
			// the library loses comments at empty items
			kind = 0
		}
		if p.exotic && props == "" && len(p.anchors) > 0 && p.g.yes(10, "alias") {
			kind = 5
		}
		switch kind {
		case 0:
			s, t := p.scalar()
			if t != "" {
				e.own = append(e.own, t)
			}
			e.val = s
			p.b.WriteString(lead + props + " " + s + line + "\n")
		case 1:
			if p.g.yes(30, "several lines") {
				p.lines(e, lead+props, ind, line)
				break
			}
			s, ts := p.flow(1)
			e.own = append(e.own, ts...)
			p.b.WriteString(lead + props + " " + s + line + "\n")
		case 2:
			sub := ind + pick(p.g, []string{"  ", "  ", "    ", " "}, "ind")
			if !isMap && props == "" && p.g.yes(60, "compact") {
				// the first entry is on the line of the dash, so nothing goes between
				e.line = ""
				lead += strings.Repeat(" ", len(sub)-len(ind)-1)
				p.first = lead
				if len(sub)-len(ind) == 1 {
					sub += " "
					p.first += " "
				}
			} else {
				p.b.WriteString(lead + props + line + "\n")
			}
			p.entries(e, p.g.yes(60, "map"), sub, depth-1, width)
			// the library takes these for comments of the first node inside
			e.loose = !isMap || props != ""
			for _, k := range e.kids {
				e.tied = e.tied || k.tied
			}
		case 3:
			p.b.WriteString(lead + props + line + "\n")
		case 4:
			t := p.id("v")
			e.own = append(e.own, t)
			p.b.WriteString(lead + props + " " + pick(p.g, []string{"|", ">", "|-"}, "block") + line + "\n" + ind + "    " + t + "\n" + ind + "    more\n")
		default:
			e.tied = true
			p.b.WriteString(lead + " *" + pick(p.g, p.anchors, "anchorOf") + line + "\n")
		}
		if (isMap || kind < 2) && k > 1 && p.g.yes(p.density/3, "foot") {
			e.foot = p.comment("f")
			p.b.WriteString(ind + "# " + e.foot + "\n\n")
		}
		if defined != "" {
			p.anchors = append(p.anchors, defined)
		}
	}
}

// places lists for every comment that must still be there the last token in
// front of its entry and the first one behind it.
func places(docs []*spot) []string {
	var toks []string
	var open []struct {
		e      *spot
		at, to int
	}
	var rec func(e *spot)
	rec = func(e *spot) {
		if e.gone {
			return
		}
		at := len(toks)
		if e.lost {
			if e.key != "" {
				toks = append(toks, e.key)
			}
		} else {
			toks = append(toks, e.own...)
			for _, k := range e.kids {
				rec(k)
			}
		}
		open = append(open, struct {
			e      *spot
			at, to int
		}{e, at, len(toks)})
	}
	for _, d := range docs {
		rec(d)
	}
	var out []string
	for _, o := range open {
		prev, next := "", ""
		if o.at > 0 {
			prev = toks[o.at-1]
		}
		if o.to < len(toks) {
			next = toks[o.to]
		}
		cs := o.e.head
		if o.e.key == "" && len(o.e.kids) > 0 && o.e.kids[0].gone {
			// the library takes comments above documents and items for comments of the first entry
			cs = nil
		}
		if o.e.line != "" && !(o.e.loose && o.e.touched()) {
			cs = append(append([]string{}, cs...), o.e.line)
		}
		for _, c := range cs {
			out = append(out, c+"\x00"+prev+"\x00"+next)
		}
		if o.e.foot != "" {
			if o.to > 0 {
				prev = toks[o.to-1]
			}
			out = append(out, o.e.foot+"\x00"+prev+"\x00"+next)
		}
	}
	return out
}

// placed checks that every comment is between its neighbours.
func placed(text string, list []string) error {
	for _, l := range list {
		p := strings.Split(l, "\x00")
		at := strings.Index(text, p[0])
		if at < 0 {
			return fmt.Errorf("comment %q is lost", p[0])
		}
		if strings.Count(text, p[0]) > 1 {
			return fmt.Errorf("comment %q is there more than once", p[0])
		}
		bol := strings.LastIndexByte(text[:at], '\n') + 1
		if !commentText.MatchString(text[bol:at]) {
			return fmt.Errorf("comment %q is no comment any more", p[0])
		}
		if i := strings.Index(text, p[1]); p[1] != "" && i > at {
			return fmt.Errorf("comment %q moved in front of %q", p[0], p[1])
		}
		if i := strings.Index(text, p[2]); p[2] != "" && i >= 0 && i < at {
			return fmt.Errorf("comment %q moved behind %q", p[0], p[2])
		}
	}
	return nil
}

// readInPlace is whether the library finds all comments of a source where
// they were written.
func readInPlace(src string, list []string) bool {
	ys, err := fromOld(src)
	if err != nil {
		return false
	}
	ok := true
	var b strings.Builder
	var rec func(n *old.Node)
	rec = func(n *old.Node) {
		// a comment below an entry must not be one above the next
		ok = ok && !footText.MatchString(n.HeadComment)
		b.WriteString(n.HeadComment + "\n" + n.Value + " " + n.LineComment + "\n")
		for _, x := range n.Content {
			rec(x)
		}
		b.WriteString(n.FootComment + "\n")
	}
	for _, y := range ys {
		rec(y)
	}
	return ok && placed(b.String(), list) == nil
}

var footText = regexp.MustCompile(`\bf\d+f\b`)

var commentText = regexp.MustCompile(`(?m)(^|\s)#`)

func init() {
	extraChecks["placed"] = func(c *Case, a *Assert, rs []*Result) error {
		text, ok := rs[a.Run].FS[a.Path]
		if !ok {
			return fmt.Errorf("%s is missing", a.Path)
		}
		if err := placed(text, a.List); err != nil {
			return fmt.Errorf("%w\n%s", err, clip(text))
		}
		return nil
	}
}

// C23: comments stay at their entries, whatever the syntax and style.
func TestC23(t *testing.T) {
	check(t, "C23", func(g *G) *Case {
		p := &placer{g: g, b: &strings.Builder{}, density: pick(g, []int{15, 30, 50}, "density"), exotic: g.yes(35, "exotic")}
		var roots []*spot
		nd := g.n(1, 3, "docs")
		for i := 0; i < nd; i++ {
			if i > 0 || g.yes(50, "marker") {
				p.b.WriteString("---\n")
			}
			p.anchors = nil
			r := &spot{}
			if g.yes(20, "document head") {
				r.head = append(r.head, p.comment("d"))
				p.b.WriteString("# " + r.head[0] + "\n\n")
			}
			p.entries(r, i == 0 || g.yes(70, "map"), "", 3, 4)
			roots = append(roots, r)
		}
		src := p.b.String()
		docs, err := ParseStream(src)
		if err != nil || len(docs) != nd {
			must(fmt.Errorf("generated source is not valid: %w\n%s", err, src))
		}
		if !readInPlace(src, places(roots)) {
			panic(discard{"the library does not read all comments where they are"})
		}
		c := &Case{Files: map[string]string{"w/in/a.yaml": src}}
		ent := &Entry{Path: "../in/a.yaml"}
		for k := g.n(0, 3, "overlays"); k > 0; k-- {
			di := g.n(0, nd-1, "doc")
			var cands []*spot
			var rec func(e *spot)
			rec = func(e *spot) {
				if e.gone {
					return
				}
				if len(e.segs) > 0 && !e.tied { // parts of flow collections are no targets
					cands = append(cands, e)
				}
				if !e.lost {
					for _, k := range e.kids {
						rec(k)
					}
				}
			}
			rec(roots[di])
			if len(cands) == 0 {
				continue
			}
			e := pick(g, cands, "entry")
			segs := append([]Seg{}, e.segs...)
			o := &Overlay{Name: p.id("o"), Query: []Q{{Segs: segs}}, DocIndex: []int{di}}
			if segs[0].T == "index" {
				o.Query[0].Root = true
			}
			switch g.n(0, 4, "do") {
			case 0:
				o.Action = "delete"
				e.gone = true
				if e.key == "" {
					roots[di].shift(e.segs)
					c.label("deleted item")
				}
			case 1:
				o.Action, o.Value = "replace", g.newValue(p)
				e.lost = true
			case 2:
				if e.lost || e.val == "" {
					continue
				}
				o.Action, o.Value = "merge", S(p.id("n"))
				e.lost = true
			case 3:
				if e.lost || e.key == "" && e.val == "" {
					continue
				}
				switch {
				case e.val != "":
					// the comment of the scalar is one of the entry
					o.Action, o.Value = "merge", Map(p.id("k"), p.id("n"))
					e.lost = true
					c.label("mapping into a scalar")
				case len(e.kids) > 0 && e.kids[0].key == "" && !e.tied:
					o.Action, o.Value = "merge", Seq(S(p.id("n")), Map(p.id("k"), p.id("n")))
				default:
					continue
				}
			default:
				if e.lost || e.val != "" || len(e.kids) == 0 || e.kids[0].key == "" {
					continue
				}
				o.Action, o.Value = "merge", Map(p.id("k"), p.id("n"))
			}
			c.label("overlay: " + o.Action)
			ent.Overlays = append(ent.Overlays, o)
		}
		in := &Instr{Files: []*Entry{ent}}
		c.Files["w/cwd/i.yaml"] = in.Text()
		run := Run{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}, Env: map[string]string{}}
		var set, config []string
		if g.yes(60, "style") {
			set = g.styles()
			g.styleSetting(set, &run, c, &config)
		}
		if g.yes(30, "indent") {
			g.indentSetting(&run, c, &config)
		}
		if config != nil {
			c.Files["w/cwd/yot.config"] = strings.Join(config, "\n") + "\n"
		}
		kind, canon := styleData(set)
		out, err := Process(docs, nil, ent.Overlays, nil, "ignore")
		if err != nil {
			panic(discard{"rejected"})
		}
		var want []string
		for _, d := range out {
			want = append(want, canon(d))
		}
		ps := places(roots)
		for _, s := range set {
			c.label("style " + s)
		}
		c.labelIf(strings.Contains(src, "} #") || strings.Contains(src, "] #"), "comment behind a flow collection")
		c.labelIf(p.exotic, "anchors and aliases")
		c.labelIf(regexp.MustCompile(`[\[{]\n`).MatchString(src), "flow collection on several lines")
		c.labelIf(footText.MatchString(src), "comment below an entry")
		c.labelIf(strings.Contains(src, "# d"), "comment at the head of a document")
		c.NonTrivial = len(ps) >= 3
		c.Runs = []Run{run}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: kind, Dir: outAbs, Files: map[string][]string{"a.yaml": want}}, {Kind: "placed", Path: outAbs + "/a.yaml", List: ps}}
		return c
	})
}

// newValue draws a value whose texts are unique.
func (g *G) newValue(p *placer) *N {
	switch g.n(0, 4, "newValue") {
	case 0:
		return Map(p.id("k"), p.id("n"), p.id("k"), Seq(S(p.id("n"))))
	case 1:
		return Seq(S(p.id("n")), Map(p.id("k"), p.id("n")))
	case 2:
		n := Map(p.id("k"), p.id("n"))
		n.Style = "flow"
		return n
	case 3:
		return Null()
	}
	return S(p.id("n"))
}

// styleData is how to compare the data of an output in the styles.
func styleData(set []string) (string, func(*N) string) {
	typed, tagged, flow := true, false, false
	for _, x := range set {
		typed = typed && (x == "normal" || x == "flow")
		tagged, flow = tagged || x == "tagged", flow || x == "flow"
	}
	switch {
	case tagged, typed && !flow:
		return "files", Canon
	case typed:
		return "filesflow", canonFlow
	}
	return "filestext", CanonText
}
