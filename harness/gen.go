package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// G draws everything a case is made of from rapid.
type G struct {
	t     *rapid.T
	nodes int // nodes generated so far, a budget against huge cases
	ids   int

	wild      bool // some file is
	bare      bool // sources get no comments
	binary    bool // base64 texts in the documents
	anySyntax int  // of 100 files are written in arbitrary syntax
}

func newG(t *rapid.T) *G { return &G{t: t, anySyntax: 15} }

// n draws an integer, shrinking towards lo.
func (g *G) n(lo, hi int, what string) int { return rapid.IntRange(lo, hi).Draw(g.t, what) }

// many is like n, but sometimes goes far beyond hi.
func (g *G) many(lo, hi, far int, what string) int {
	if g.yes(6, "many") {
		return g.n(hi, far, what)
	}
	return g.n(lo, hi, what)
}

// yes is true in about p of 100 cases, shrinking towards false.
func (g *G) yes(p int, what string) bool {
	return rapid.IntRange(0, 99).Draw(g.t, what) >= 100-p
}

func pick[T any](g *G, xs []T, what string) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(g.t, what)]
}

// weighted draws an index with the given weights; the first shrinks best.
func (g *G) weighted(what string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	r := rapid.IntRange(0, sum-1).Draw(g.t, what)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return 0
}

// id makes a name no other part of the case has.
func (g *G) id(prefix string) string {
	g.ids++
	return fmt.Sprintf("%s%d", prefix, g.ids)
}

// ---- scalars ----

var words = []string{"alpha", "beta", "nginx", "my-app", "v1", "Deployment", "Service", "default", "x", "prod", "web site", "app.kubernetes.io/name", "a/b/c", "http://h:80/p?q=1"}

// texts that other types, indicators or the emitter's layout could swallow
var tricky = []string{
	"", " ", "true", "false", "True", "yes", "no", "on", "off", "y", "n", "null", "Null", "~", "0", "1", "-1", "007", "0o17", "0x1F", "1_000", "1e3", "1.0", ".5", "-.inf", ".nan",
	"2001-12-14", "2001-12-14T21:59:43Z", "12:30:45", "=", "<<", "-", "- a", "-a", "?", "? a", ":", ": a", "a:", "a: b", "a:b", "#", "# a", "a #b", "a#b", "&a", "*a", "!a", "!!str a", "%a", "%TAG", "@a", "`a`",
	"|", ">", "|-", "{", "}", "{a: 1}", "[", "]", "[a]", ",", "a, b", "'", "''", "it's", "\"", "\"a\"", "'a'", "\\", "a\\nb", "---", "--- a", "...", "a---",
	" lead", "trail ", "  two  spaces  ", "a\tb", "\ttab", "line1\nline2", "line1\nline2\n", "line1\n\nline3\n", "line1\n\n", "\nfirst empty", "  indented\nless", "a\n  b\n", "x\n# not a comment\ny\n", "a \nb", "\n", "\n\n",
	"é", "日本語", "😀", "a\u00a0b", "\u2028", "\u0007bell", "\u001b[0m", "\u0085", "ﬃ", "Ω≈ç", "\ufeffbom", "\u200bzw",
	"50%free", "%v", "%k%l%h%f", "100%", "{{ .x }}", "${VAR}", "$.a", "a\rb", "tab\tend\t",
	"one\u0085two", "a\u0085b\nc", "x\u2028y\nz\n", "a\u2029\n\nb", "&lt;b&gt; &amp; &#39;", "<a href='x'>&\"</a>", "a\n\tb\n", "a\n\n\n b\n\n",
}

var longs = []string{
	strings.TrimSpace(strings.Repeat("lorem ipsum ", 12)),
	strings.TrimSpace(strings.Repeat("word: #x ", 20)),
	strings.Repeat("x", 200),
	strings.TrimSpace(strings.Repeat("multi line text that goes on\n", 9)),
	strings.Repeat("日本語 ", 50) + "end",
	strings.Repeat("a b\n", 30),
	strings.Repeat("lorem ipsum ", 9) + "x\n  indented\n" + strings.Repeat("dolor ", 20) + "y\n\n\n",
	strings.Repeat("lorem ipsum ", 9) + "x\n\n\n" + strings.Repeat("dolor ", 20) + "y\n",
	strings.Repeat("é ", 60) + "\u0085z",
}

func (g *G) word() string { return pick(g, words, "word") }

// text draws a string; marker texts only when allowed.
func (g *G) text(markers bool) string {
	var s string
	switch g.weighted("textKind", 50, 35, 8, 7) {
	case 0:
		s = g.word()
	case 1:
		s = pick(g, tricky, "tricky")
	case 2:
		s = pick(g, longs, "long")
	default:
		s = rapid.StringOfN(rapid.RuneFrom([]rune("ab :#-'\"{}[],&*!|>%@`\\\n\tZ0.~é=?")), 1, 14, -1).Draw(g.t, "chars")
	}
	if !markers && hasMarker(s) {
		s = strings.ReplaceAll(s, "%", "pct")
	}
	return s
}

func hasMarker(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' && strings.IndexByte("vklhf", s[i+1]) >= 0 {
			return true
		}
	}
	return false
}

var ints = []string{"0", "1", "-1", "42", "8080", "-65536", "2147483648", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1000000", "4294967296", "1700000000123", "0x1F", "0o17", "1_000", "+7", "010", "0b101", "-0x10"}
var floats = []string{"1.5", "-0.25", "1e3", "6.02e+23", ".inf", "-.inf", ".nan", "1.0", "123456789.125", "0.1"}
var nulls = []string{"null", "~", "Null"}
var bools = []string{"true", "false", "True", "FALSE"}
var times = []string{"2001-12-14", "2001-12-14T21:59:43Z", "2001-12-14 21:59:43.10 -5"}

// VOpt says what values may look like.
type VOpt struct {
	Depth    int
	Width    int
	Plain    bool // only simple words and small integers
	Markers  bool // marker-like text may occur (never in overlay values)
	Styles   bool // quoting, literal and flow forms in the source
	NoEmpty  bool // no empty collections
	TextKeys bool // only simple keys
	Binary   bool // base64 texts
	Exotic   bool // tags of other kinds, collections as keys
}

var exoticTags = []string{"!x", "!!binary", "!Ref", "!a/b-c", "tag:example.com,2000:x"}

func (g *G) scalar(o VOpt) *N {
	g.nodes++
	if o.Plain {
		switch g.weighted("scalarKind", 6, 3, 1) {
		case 0:
			return S(g.word())
		case 1:
			return I(g.n(0, 99, "int"))
		default:
			return B(g.yes(50, "bool"))
		}
	}
	if o.Binary && g.yes(7, "binary") {
		return &N{Kind: "v", Tag: "!!binary", Val: pick(g, []string{"aGVsbG8=", "AAECAwQFBgcICQ==", "R0lGODlhDAAMAIQ="}, "base64")}
	}
	if o.Exotic && g.yes(6, "tagged") {
		switch t := pick(g, exoticTags, "tag"); t {
		case "!!binary":
			return &N{Kind: "v", Tag: t, Val: pick(g, []string{"aGVsbG8=", "AAECAwQFBgcICQ==", "R0lGODlhDAAMAIQ="}, "binary")}
		default:
			return &N{Kind: "v", Tag: t, Val: g.text(o.Markers)}
		}
	}
	switch g.weighted("scalarKind", 55, 14, 9, 8, 6, 3) {
	case 0:
		n := S(g.text(o.Markers))
		if o.Styles {
			n.Style = pick(g, []string{"", "sq", "dq", "lit"}, "style")
		}
		return n
	case 1:
		return &N{Kind: "v", Tag: "!!int", Val: pick(g, ints, "int")}
	case 2:
		return &N{Kind: "v", Tag: "!!bool", Val: pick(g, bools, "bool")}
	case 3:
		return &N{Kind: "v", Tag: "!!null", Val: pick(g, nulls, "null")}
	case 4:
		return &N{Kind: "v", Tag: "!!float", Val: pick(g, floats, "float")}
	default:
		return &N{Kind: "v", Tag: "!!timestamp", Val: pick(g, times, "time")}
	}
}

var keyPool = []string{"a", "b", "c", "name", "kind", "spec", "labels", "image", "ports", "x-y", "long_key_name"}
var oddKeys = []string{"app.kubernetes.io/name", "my key", "1", "true", "null", "a.b", "é", "日本", "k~", "it's", "say \"hi\"", "x:y", "a,b", "$", "*", "@", "-", "?", "#k", "", "back\\slash", "[0]", "{k}", "<", "y", "2001-12-14", "0x10", strings.Repeat("longkey", 20), "multi\nline"}

func (g *G) key(o VOpt) *N {
	if o.Plain || o.TextKeys || g.yes(78, "simpleKey") {
		return S(pick(g, keyPool, "key"))
	}
	k := S(pick(g, oddKeys, "oddKey"))
	if o.Markers && g.yes(12, "markerKey") {
		k = S(pick(g, []string{"50%free", "%v", "%k%l", "a%hb"}, "markerKey"))
	}
	if g.yes(15, "typedKey") {
		return &N{Kind: "v", Tag: "!!int", Val: pick(g, []string{"1", "2", "80"}, "intKey")}
	}
	if o.Styles {
		k.Style = pick(g, []string{"", "sq", "dq"}, "keyStyle")
	}
	return k
}

// mapping draws a mapping with distinct keys.
func (g *G) mapping(o VOpt, min int) *N {
	g.nodes++
	m := &N{Kind: "m"}
	w := o.Width
	if w == 0 {
		w = 4
	}
	k := g.n(min, w, "pairs")
	if g.nodes > 150 {
		k = min
	} else if g.nodes < 60 && g.yes(2, "manyPairs") {
		k = g.n(10, 30, "pairs+")
	}
	seen := map[string]bool{}
	for i := 0; i < k; i++ {
		key := g.key(o)
		if k := len(m.Pairs); k > 0 && g.yes(2, "lookalike") {
			key = S(g.lookalike(m.Pairs[k-1].K.Val))
		}
		for j := 0; seen[key.Val]; j++ {
			key = S(keyPool[(i+j)%len(keyPool)])
			if j >= len(keyPool) {
				key = S(fmt.Sprintf("k%d", i))
			}
		}
		seen[key.Val] = true
		v := g.value(o)
		if v.Tag == "!!null" && g.yes(30, "blank") {
			v.Val = ""
		}
		if o.Exotic && o.Depth > 0 && g.yes(5, "complexKey") {
			c := o
			c.Depth = 0
			c.Styles = false
			if key = g.mapping(c, 0); g.yes(50, "sequenceKey") {
				key = g.sequence(c, 0)
			}
			if seen[Canon(key)] {
				continue
			}
			seen[Canon(key)] = true
		}
		m.Pairs = append(m.Pairs, &P{key, v})
	}
	if o.Exotic && g.yes(6, "taggedMapping") {
		m.Tag = pick(g, []string{"!x", "!!set", "!Map"}, "mappingTag")
	}
	if o.Styles && g.yes(12, "flow") {
		m.Style = "flow"
	}
	return m
}

// lookalike is a text that is almost s.
func (g *G) lookalike(s string) string {
	switch g.n(0, 5, "lookalike") {
	case 1:
		return strings.ToUpper(s) + "A"
	case 2:
		return s + " "
	case 3:
		return " " + s
	case 4:
		return s + "x"
	case 5:
		if len(s) > 1 && s[len(s)-1] < 0x80 && s[len(s)-2] < 0x80 {
			return s[:len(s)-1]
		}
	}
	if u := strings.Title(s); u != s { //nolint
		return u
	}
	return s + "_"
}

func (g *G) sequence(o VOpt, min int) *N {
	g.nodes++
	s := &N{Kind: "s"}
	w := o.Width
	if w == 0 {
		w = 4
	}
	k := g.n(min, w, "items")
	if g.nodes > 150 {
		k = min
	} else if g.nodes < 60 && g.yes(4, "manyItems") {
		k = g.n(10, 24, "items+")
	}
	records := g.yes(40, "records") // a list of similar mappings
	for i := 0; i < k; i++ {
		if records && o.Depth > 1 {
			c := o
			c.Depth = o.Depth - 1
			it := g.mapping(c, 0)
			if it.Get("name") == nil && g.yes(80, "named") {
				it.Pairs = append([]*P{{S("name"), S(g.word())}}, it.Pairs...)
			}
			if o.NoEmpty && len(it.Pairs) == 0 {
				it.Set("name", S("x"))
			}
			s.Items = append(s.Items, it)
		} else {
			v := g.value(o)
			if v.Tag == "!!null" && g.yes(30, "blank") {
				v.Val = ""
			}
			s.Items = append(s.Items, v)
		}
	}
	if o.Exotic && g.yes(6, "taggedSequence") {
		s.Tag = pick(g, []string{"!x", "!!omap", "!Sub"}, "sequenceTag")
	}
	if o.Styles && g.yes(15, "flow") {
		s.Style = "flow"
	}
	return s
}

// value draws a value of at most o.Depth levels of collections.
func (g *G) value(o VOpt) *N {
	if o.Depth <= 0 {
		return g.scalar(o)
	}
	c := o
	c.Depth--
	min := 0
	if o.NoEmpty {
		min = 1
	}
	switch g.weighted("kind", 50, 28, 22) {
	case 0:
		return g.scalar(o)
	case 1:
		return g.mapping(c, min)
	default:
		return g.sequence(c, min)
	}
}

// doc draws the root of a document.
func (g *G) doc(o VOpt) *N {
	c := o
	c.Depth--
	switch g.weighted("rootKind", 84, 10, 4, 2) {
	case 0:
		return g.mapping(c, 1)
	case 1:
		return g.sequence(c, 1)
	case 3:
		// an empty document is a document
		if o.NoEmpty {
			return g.mapping(c, 1)
		}
		return &N{Kind: pick(g, []string{"m", "s"}, "emptyRoot")}
	default:
		return g.scalar(o)
	}
}

// mapDoc draws a document whose root is a mapping.
func (g *G) mapDoc(o VOpt) *N {
	c := o
	c.Depth--
	return g.mapping(c, 1)
}

// anyDoc draws a document, sometimes a deep or a wide one.
func (g *G) anyDoc() *N {
	o := g.docOpt()
	d := g.doc(o)
	switch g.weighted("build", 70, 15, 15) {
	case 1: // bury it
		for k := g.n(3, 9, "bury"); k > 0; k-- {
			if g.yes(30, "inList") {
				d = Seq(S(g.word()), d)
			} else {
				d = Map("x", g.word(), pick(g, keyPool, "key"), d)
			}
		}
	case 2: // a long list of similar records
		l := &N{Kind: "s"}
		for i, k := 0, g.n(9, 20, "long"); i < k; i++ {
			it := Map("name", g.word(), "id", i)
			if g.yes(30, "extra") {
				it.Set("spec", g.value(VOpt{Depth: 1, Width: 2, Markers: true}))
			}
			l.Items = append(l.Items, it)
		}
		if d.Kind == "m" && d.Get("list") == nil && d.Style != "flow" {
			d.Set("list", l)
		} else {
			d = Map("list", l, "was", d)
		}
	}
	return d
}

// recordDoc draws a document made of lists of records, nested once.
func (g *G) recordDoc() *N {
	d := Map("kind", g.word(), "name", g.word())
	for i, k := 0, g.n(1, 2, "lists"); i < k; i++ {
		l := &N{Kind: "s"}
		for j, m := 0, g.many(1, 6, 60, "records"); j < m; j++ {
			it := Map("name", g.word(), "id", g.n(0, 6, "id"))
			if g.yes(30, "more") {
				it.Set(pick(g, []string{"spec", "image", "labels"}, "key"), g.value(VOpt{Depth: 2, Width: 3, Markers: true}))
			}
			if g.yes(30, "sublist") {
				sub := &N{Kind: "s"}
				for x, y := 0, g.n(1, 3, "sub"); x < y; x++ {
					sub.Items = append(sub.Items, Map("name", g.word(), "port", g.n(0, 6, "port")))
				}
				it.Set("ports", sub)
			}
			l.Items = append(l.Items, it)
		}
		if i == 0 {
			d.Set("list", l)
		} else {
			d.Set("spec", Map("x", 1, "list", l, "name", "in"))
		}
	}
	return d
}

// docOpt draws how rich the documents of a case are.
func (g *G) docOpt() VOpt {
	o := VOpt{Depth: 4, Width: 4, Styles: true, Markers: true, Binary: g.binary}
	switch g.weighted("shape", 60, 15, 15, 10) {
	case 1:
		o.Plain = true
	case 2:
		o.Depth, o.Width = 9, 2
	case 3:
		o.Depth, o.Width = 2, 14
	}
	return o
}

var smallInt = regexp.MustCompile(`^(0|[1-9][0-9]{0,5})$`)

// ---- queries ----

// paths lists the exact path of every node of a document.
type located struct {
	n    *N
	segs []Seg
	key  bool // reached through a mapping key last
}

func locate(root *N) []located {
	var out []located
	var rec func(n *N, segs []Seg, key bool)
	rec = func(n *N, segs []Seg, key bool) {
		cp := append([]Seg{}, segs...)
		out = append(out, located{n, cp, key})
		for _, p := range n.Pairs {
			if queryable(p.K) {
				rec(p.V, append(append([]Seg{}, segs...), Seg{T: "child", Name: p.K.Val}), true)
			}
		}
		for i, it := range n.Items {
			rec(it, append(append([]Seg{}, segs...), Seg{T: "index", I: i}), false)
		}
	}
	rec(root, nil, false)
	return out
}

// queryable is true for keys the query language can spell.
func queryable(k *N) bool {
	if k.Kind != "v" {
		return false
	}
	if k.Val == "" {
		return false
	}
	for _, r := range k.Val {
		if r < 0x20 {
			return false
		}
	}
	return true
}

// exact turns a location into a query, drawing its spelling.
func (g *G) exact(l located) Q {
	q := Q{Root: g.yes(30, "rooted"), Segs: append([]Seg{}, l.segs...)}
	if len(q.Segs) == 0 {
		q.Root = true
	}
	for i := range q.Segs {
		if q.Segs[i].T == "child" {
			q.Segs[i].Form = pick(g, []string{"dot", "dot", "dot", "sq", "dq"}, "form")
		}
	}
	return q
}

// generalise widens some steps of an exact query.
func (g *G) generalise(root *N, q Q) Q {
	if len(q.Segs) == 0 {
		return q
	}
	segs := append([]Seg{}, q.Segs...)
	parent := func(i int) *N { // the node step i starts from
		r := find(root, q.Segs[:i])
		if len(r) == 0 {
			return nil
		}
		return r[0]
	}
	i := g.n(0, len(segs)-1, "step")
	if g.yes(50, "list step") {
		for j := range segs {
			if segs[(i+j)%len(segs)].T == "index" {
				i = (i + j) % len(segs)
				break
			}
		}
	}
	p := parent(i)
	inList := p != nil && segs[i].T == "index" && segs[i].I >= 0 && segs[i].I < len(p.Items)
	how := 0
	switch {
	case inList:
		how = pick(g, []int{0, 2, 3, 5, 6}, "widen")
	case segs[i].T == "child":
		how = pick(g, []int{0, 1, 4}, "widen")
	}
	switch how {
	case 0:
		segs[i] = Seg{T: "wild", Form: pick(g, []string{"dot", "br"}, "wildForm")}
	case 1: // recursive descent replaces everything up to a key
		if segs[i].T == "child" && dotName.MatchString(segs[i].Name) {
			segs = append([]Seg{{T: "rec", Name: segs[i].Name}}, segs[i+1:]...)
			if g.yes(40, "anchored") && i > 0 && q.Segs[0].T == "child" {
				segs = append([]Seg{q.Segs[0]}, segs...)
			}
		}
	case 2: // filter
		if inList {
			it := p.Items[segs[i].I]
			var cands []Seg
			for _, e := range it.Pairs {
				if dotName.MatchString(e.K.Val) && e.V.Kind == "v" {
					cands = append(cands, Seg{T: "filter", Name: e.K.Val})
					if e.V.Tag == "!!str" && dotName.MatchString(e.V.Val) {
						cands = append(cands, Seg{T: "filter", Name: e.K.Val, Val: e.V.Val})
					}
				}
			}
			if len(cands) > 0 {
				segs[i] = pick(g, cands, "filter")
			}
		}
	case 3:
		if inList {
			a := g.n(0, segs[i].I, "from")
			b := g.n(segs[i].I+1, len(p.Items)+1, "to")
			segs[i] = Seg{T: "slice", I: a, J: b}
		}
	case 4:
		if segs[i].T == "child" && p != nil && len(p.Pairs) > 1 {
			many := []string{segs[i].Name}
			for _, e := range p.Pairs {
				if e.K.Val != segs[i].Name && dotName.MatchString(e.K.Val) && g.yes(50, "also") {
					many = append(many, e.K.Val)
				}
			}
			if dotName.MatchString(many[0]) && len(many) > 1 {
				segs[i] = Seg{T: "children", Many: many}
			}
		}
	}
	switch {
	case how == 5 && inList: // other spellings of positions
		n, k := len(p.Items), segs[i].I
		forms := []string{fmt.Sprintf("%d:", k), fmt.Sprintf(":%d", k+1), fmt.Sprintf("%d:%d", k-n, n), fmt.Sprintf("%d:", k-n), fmt.Sprintf("%d::2", k), fmt.Sprintf("%d::3", k%3), "::1", ":"}
		if k < n-1 {
			forms = append(forms, fmt.Sprintf("%d:%d", k, k+1-n), ":-1")
		}
		if g.yes(30, "negative") {
			segs[i].I -= n
		} else {
			segs[i] = Seg{T: "range", Val: pick(g, forms, "range")}
		}
	case how == 6 && inList: // numeric comparison
		var cands []Seg
		for _, e := range p.Items[segs[i].I].Pairs {
			if !dotName.MatchString(e.K.Val) {
				continue
			}
			plain := true
			for _, it := range p.Items {
				v := it.Get(e.K.Val)
				if v != nil && (v.Kind != "v" || v.Tag != "!!int" || !smallInt.MatchString(v.Val)) {
					plain = false
				}
			}
			if plain {
				k, _ := strconv.Atoi(e.V.Val)
				for _, op := range []string{">", ">=", "<", "<=", "=="} {
					cands = append(cands, Seg{T: "cmp", Name: e.K.Val, Form: op, I: k + g.n(-1, 1, "delta")})
				}
			}
		}
		if len(cands) > 0 {
			segs[i] = pick(g, cands, "cmp")
		}
	}
	// the path library reads a filter below a recursive descent as a recursive
	// filter, with rules of its own
	rec := false
	for _, s := range segs {
		if (s.T == "filter" || s.T == "cmp") && rec {
			return q
		}
		rec = rec || s.T == "rec"
	}
	return Q{Root: q.Root || segs[0].T == "rec" && g.yes(50, "recRoot"), Segs: segs}
}

// query draws a query that finds something in root.
func (g *G) query(root *N, widen int, ok func(*N) bool) (Q, bool) {
	var cands []located
	for _, l := range locate(root) {
		if len(l.segs) > 0 && (ok == nil || ok(l.n)) {
			cands = append(cands, l)
		}
	}
	if len(cands) == 0 {
		return Q{}, false
	}
	if g.yes(40, "below a list") {
		var below []located
		for _, l := range cands {
			for _, s := range l.segs {
				if s.T == "index" {
					below = append(below, l)
					break
				}
			}
		}
		if len(below) > 0 {
			cands = below
		}
	}
	q := g.exact(pick(g, cands, "target"))
	for k := 0; k < 2 && g.yes(widen, "general"); k++ {
		q = g.generalise(root, q)
	}
	return q, true
}

// missing draws a dotted path that finds nothing in root; some of its prefix
// may exist.
func (g *G) missing(root *N, depth int) Q {
	var q Q
	q.Root = g.yes(30, "rooted")
	cur := root
	for len(q.Segs) < depth && cur != nil && cur.Kind == "m" && g.yes(55, "into") {
		var ms []*P
		for _, p := range cur.Pairs {
			if p.V.Kind == "m" && queryable(p.K) {
				ms = append(ms, p)
			}
		}
		if len(ms) == 0 {
			break
		}
		p := pick(g, ms, "prefix")
		q.Segs = append(q.Segs, Seg{T: "child", Name: p.K.Val, Form: pick(g, []string{"dot", "sq", "dq"}, "form")})
		cur = p.V
	}
	k := g.n(1, 3, "newSegs")
	for i := 0; i < k; i++ {
		name := g.id("new")
		if g.yes(25, "oddNew") {
			name = pick(g, []string{"app.io/n", "new key", "new-é", "new,x", "new:y", "50%new", "%k", "a%v{}", "%value"}, "newName") + g.id("")
			if g.yes(30, "around") {
				name = pick(g, []string{`a\b` + name, name + `\`, `\\` + name, "it's " + name, `"` + name + `"`, "'" + name + "'", " " + name, name + " ", `a\"` + name, "[" + name + "]", "a." + name, name + "*", "~" + name, "$" + name, "#" + name, "- " + name, "@" + name, `\'` + name, "!" + name, "&" + name, "a ," + name}, "around name")
				q.Segs = append(q.Segs, Seg{T: "child", Name: name, Form: pick(g, []string{"sq", "dq"}, "quotes")})
				continue
			}
		}
		q.Segs = append(q.Segs, Seg{T: "child", Name: name, Form: pick(g, []string{"dot", "dot", "sq", "dq"}, "form")})
	}
	return q
}

// overlayValue draws the value of an overlay: no format markers in it.
func (g *G) overlayValue(depth int) *N {
	return g.value(VOpt{Depth: depth, Width: 3, NoEmpty: true, Styles: true})
}

// related draws a value that overlaps with an existing one.
func (g *G) related(n *N, depth int) *N {
	n = n.real()
	o := VOpt{Depth: depth, Width: 3, NoEmpty: true}
	if depth <= 0 || n.Kind == "v" && !g.yes(15, "replaceScalar") {
		return g.scalar(o)
	}
	if n.Kind == "s" {
		return g.sequence(o, 1)
	}
	if n.Kind != "m" || g.yes(12, "otherKind") {
		return g.value(o)
	}
	m := &N{Kind: "m"}
	seen := map[string]bool{}
	for _, p := range n.Pairs {
		if p.K.Kind != "v" || p.K.Tag == "!!merge" || hasMarker(p.K.Val) || !g.yes(45, "share") {
			continue
		}
		seen[p.K.Val] = true
		m.Pairs = append(m.Pairs, &P{p.K.Copy(), g.related(p.V, depth-1)})
	}
	k := g.n(0, 2, "newKeys")
	for i := 0; i < k || len(m.Pairs) == 0; i++ {
		key := g.key(VOpt{})
		if len(n.Pairs) > 0 && g.yes(12, "lookalike") {
			if p := pick(g, n.Pairs, "like"); p.K.Kind == "v" {
				key = S(g.lookalike(p.K.Val))
			}
		}
		if seen[key.Val] || hasMarker(key.Val) || key.Tag != "!!str" {
			key = S(g.id("n"))
		}
		if n.Get(key.Val) != nil {
			key = S(g.id("n"))
		}
		seen[key.Val] = true
		m.Pairs = append(m.Pairs, &P{key, g.value(o)})
	}
	if len(m.Pairs) > 1 && g.yes(50, "rotate") {
		m.Pairs = append(m.Pairs[1:], m.Pairs[0])
	}
	stripComments(m)
	return m
}

func stripComments(n *N) {
	n.Head, n.Line, n.Foot = "", "", ""
	for _, p := range n.Pairs {
		stripComments(p.K)
		stripComments(p.V)
	}
	for _, it := range n.Items {
		stripComments(it)
	}
}

// file renders documents as source text, drawing indentation and the leading
// document marker, and checks the rendering against the oracle's parser.
func (g *G) file(docs []*N) string {
	if g.yes(g.anySyntax, "anySyntax") && tame(docs) {
		g.wild = true
		src := g.wildStream(docs)
		selfCheck(docs, src)
		return src
	}
	step := pick(g, []int{2, 2, 4, 3}, "srcIndent")
	src := EmitStream(docs, step, len(docs) > 1 || g.yes(50, "leading"))
	selfCheck(docs, src)
	return src
}
