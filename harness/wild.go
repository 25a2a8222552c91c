package harness

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf16"

	"gopkg.in/yaml.v3"
)

// A second emitter that writes the same trees in any syntax YAML has for them:
// scalars over several lines, escapes, folded blocks, explicit indentation,
// explicit and complex keys, tags, flow collections over several lines,
// directives, document ends, byte order marks and line ends of other systems.

type wild struct {
	g      *G
	tag    string // handle declared by a %TAG directive
	form   string // how the last collection was written: flow, block, or props and block
	parent int    // column of the collection a scalar is in, -1 at the root
}

// tame is true when the trees have no comments, which this emitter knows nothing about.
func tame(docs []*N) bool {
	ok := true
	for _, d := range docs {
		d.walkAll(func(n *N) {
			if n.Head != "" || n.Line != "" || n.Foot != "" {
				ok = false
			}
		})
	}
	return ok
}

// wildStream renders a file.
func (g *G) wildStream(docs []*N) string {
	w := &wild{g: g}
	var b strings.Builder
	for i, d := range docs {
		w.tag = ""
		dirs := false
		ended := i == 0
		if i > 0 && g.yes(25, "documentEnd") {
			b.WriteString("..." + pick(g, []string{"", " # end"}, "endComment") + "\n")
			ended = true
		}
		if ended && g.yes(15, "directive") {
			if g.yes(50, "yamlDirective") {
				b.WriteString("%YAML 1.1\n")
				dirs = true
			}
			if !dirs || g.yes(40, "tagDirective") {
				w.tag = pick(g, []string{"!e!", "!x-1!"}, "handle")
				b.WriteString("%TAG " + w.tag + " tag:yaml.org,2002:\n")
				dirs = true
			}
		}
		w.parent = -1
		ls := w.node(d, 0, rootCtx)
		blk := (d.Kind == "m" || d.Kind == "s") && w.form == "block"
		switch {
		case i > 0 || dirs || g.yes(40, "leading"):
			switch {
			case !blk && g.yes(50, "inline"):
				b.WriteString("--- ")
			default:
				b.WriteString("---" + pick(g, []string{"", " ", " # start"}, "afterMarker") + "\n")
			}
		}
		b.WriteString(strings.Join(ls, "\n") + "\n")
	}
	s := b.String()
	if g.yes(10, "end") {
		s += "...\n"
	} else if g.yes(10, "noFinalNewline") && !keepsNewlines(docs) {
		s = strings.TrimSuffix(s, "\n")
	}
	switch g.weighted("encoding", 84, 6, 6, 2, 2) {
	case 1:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 2:
		s = "\ufeff" + s
	case 3:
		s = utf16Of(s, false)
	case 4:
		s = utf16Of(s, true)
	}
	return s
}

func keepsNewlines(docs []*N) bool {
	for _, d := range docs {
		bad := false
		d.walkAll(func(n *N) { bad = bad || strings.Contains(n.Val, "\n") })
		if bad {
			return true
		}
	}
	return false
}

func utf16Of(s string, big bool) string {
	var b []byte
	for _, u := range append([]uint16{0xfeff}, utf16.Encode([]rune(s))...) {
		if big {
			b = append(b, byte(u>>8), byte(u))
		} else {
			b = append(b, byte(u), byte(u>>8))
		}
	}
	return string(b)
}

type ctx int

const (
	rootCtx    ctx = iota // a document
	valueCtx              // behind "key:"
	itemCtx               // behind "- ", "? " or ": ": compact collections allowed
	keyCtx                // an implicit key
	flowCtx               // inside a flow collection
	flowKeyCtx            // an implicit key inside a flow collection
)

// props are the anchor and tag in front of a node.
func (w *wild) props(n *N, tag string) string {
	var ps []string
	if n.Anchor != "" {
		ps = append(ps, "&"+n.Anchor)
	}
	if tag != "" {
		ps = append(ps, w.spellTag(tag))
	}
	if len(ps) == 2 && w.g.yes(30, "tagFirst") {
		ps[0], ps[1] = ps[1], ps[0]
	}
	if len(ps) == 0 {
		return ""
	}
	return strings.Join(ps, " ") + " "
}

func (w *wild) spellTag(tag string) string {
	if !strings.HasPrefix(tag, "!!") {
		return tagText(tag)
	}
	name := tag[2:]
	switch w.g.weighted("tagForm", 70, 15, 15) {
	case 1:
		return "!<tag:yaml.org,2002:" + name + ">"
	case 2:
		if w.tag != "" {
			return w.tag + name
		}
	}
	return tag
}

// node renders n; the first line is put at column ind by the caller, the other
// lines are complete.
func (w *wild) node(n *N, ind int, c ctx) []string {
	flow := c == flowCtx || c == flowKeyCtx
	switch n.Kind {
	case "a":
		return []string{"*" + n.Val + map[bool]string{true: " "}[flow || c == keyCtx]}
	case "v":
		return w.scalar(n, ind, c)
	}
	tag := n.Tag
	if tag == "" && w.g.yes(5, "explicitTag") {
		tag = map[string]string{"m": "!!map", "s": "!!seq"}[n.Kind]
	}
	empty := len(n.Pairs)+len(n.Items) == 0
	if flow || c == keyCtx || empty || n.Style == "flow" || w.g.yes(8, "toFlow") {
		ls := w.flow(n, ind, c == keyCtx || c == flowKeyCtx)
		ls[0] = w.props(n, tag) + ls[0]
		w.form = "flow"
		return ls
	}
	p := strings.TrimSuffix(w.props(n, tag), " ")
	var ls []string
	if n.Kind == "m" {
		for _, e := range n.Pairs {
			ls = append(ls, w.pair(e, ind)...)
		}
	} else {
		for _, it := range n.Items {
			ls = append(ls, w.dashed("-", it, ind)...)
		}
	}
	if p == "" {
		ls[0] = strings.TrimPrefix(ls[0], pad(ind))
		w.form = "block"
		return ls
	}
	w.form = "props"
	return append([]string{p}, ls...)
}

// dashed renders n behind an indicator; all lines are complete.
func (w *wild) dashed(mark string, n *N, ind int) []string {
	if blank(n) {
		return []string{pad(ind) + mark}
	}
	gap := pick(w.g, []int{1, 1, 1, 2, 3}, "gap")
	if c := n.Kind != "v" && n.Kind != "a"; c && w.g.yes(20, "ownLine") {
		k := ind + w.g.n(1, 4, "itemIndent")
		ls := w.node(n, k, valueCtx)
		ls[0] = pad(k) + ls[0]
		return append([]string{pad(ind) + mark}, ls...)
	}
	k := ind + len(mark) + gap
	w.parent = ind
	ls := w.node(n, k, itemCtx)
	ls[0] = pad(ind) + mark + pad(gap) + ls[0]
	return ls
}

// pair renders an entry of a block mapping; all lines are complete.
func (w *wild) pair(e *P, ind int) []string {
	complexKey := e.K.Kind == "m" || e.K.Kind == "s"
	if complexKey && !w.g.yes(30, "flowKey") || !complexKey && w.g.yes(6, "explicitKey") {
		ls := w.dashed("?", e.K, ind)
		if !blank(e.V) || w.g.yes(50, "explicitNull") {
			ls = append(ls, w.dashed(":", e.V, ind)...)
		}
		return ls
	}
	k := w.node(e.K, ind, keyCtx)[0]
	colon := pad(ind) + k + map[bool]string{true: " "}[w.g.yes(4, "spaceBeforeColon")] + ":"
	if blank(e.V) {
		return []string{colon}
	}
	coll := e.V.Kind == "m" || e.V.Kind == "s"
	step := w.g.n(1, 4, "step")
	if e.V.Kind == "s" && w.g.yes(35, "zeroIndent") {
		step = 0
	}
	if !coll {
		if step == 0 {
			step = 1
		}
		w.parent = ind
		ls := w.node(e.V, ind+step, valueCtx)
		if w.g.yes(5, "valueOnOwnLine") && e.V.Kind == "v" && !strings.HasPrefix(ls[0], "|") && !strings.HasPrefix(ls[0], ">") && len(ls) == 1 {
			return []string{colon, pad(ind+step) + ls[0]}
		}
		ls[0] = colon + pick(w.g, []string{" ", " ", " ", "  "}, "gap") + ls[0]
		return ls
	}
	ls := w.node(e.V, ind+step, valueCtx)
	if w.form == "block" {
		ls[0] = pad(ind+step) + ls[0]
		return append([]string{colon}, ls...)
	}
	if step == 0 && w.form == "flow" {
		// a flow collection has to be indented further than its key
		for i := range ls[1:] {
			ls[i+1] = " " + ls[i+1]
		}
	}
	ls[0] = colon + " " + ls[0]
	return ls
}

// flow renders a flow collection.
func (w *wild) flow(n *N, ind int, oneLine bool) []string {
	open, end := "{", "}"
	if n.Kind == "s" {
		open, end = "[", "]"
	}
	lines := []string{open}
	put := func(s string) { lines[len(lines)-1] += s }
	space := func() {
		if !oneLine && w.g.yes(12, "flowBreak") {
			lines = append(lines, pad(ind+w.g.n(1, 3, "flowIndent")))
			return
		}
		put(pick(w.g, []string{" ", "", "  "}, "flowSpace"))
	}
	putAll := func(ls []string) {
		put(ls[0])
		lines = append(lines, ls[1:]...)
	}
	c := flowCtx
	if oneLine {
		c = flowKeyCtx
	}
	entry := func(e *P, single bool) {
		if !oneLine && (e.K.Kind == "m" || e.K.Kind == "s" || w.g.yes(4, "explicitFlowKey") && !single) {
			if e.K.Kind == "v" || !single && w.g.yes(50, "explicitComplex") {
				put("? ")
			}
		}
		k := w.node(e.K, ind+1, flowKeyCtx)
		putAll(k)
		last := lines[len(lines)-1]
		tight := strings.HasSuffix(last, `"`) || strings.HasSuffix(last, "'") || strings.HasSuffix(last, "]") || strings.HasSuffix(last, "}")
		if blank(e.V) {
			if !single && w.g.yes(40, "lonelyKey") {
				return
			}
			put(": ")
			return
		}
		if tight && e.V.Kind != "a" && w.g.yes(30, "adjacent") {
			put(":")
		} else {
			put(": ")
		}
		putAll(w.node(e.V, ind+1, c))
	}
	k := len(n.Pairs) + len(n.Items)
	for i := 0; i < k; i++ {
		space()
		if n.Kind == "m" {
			entry(n.Pairs[i], false)
		} else {
			it := n.Items[i]
			if it.Kind == "m" && len(it.Pairs) == 1 && it.Anchor == "" && it.Tag == "" && !oneLine && w.g.yes(40, "singlePair") {
				entry(it.Pairs[0], true)
			} else if blank(it) {
				it.Val = "~"
				put("~")
			} else {
				putAll(w.node(it, ind+1, c))
			}
		}
		if i+1 < k || w.g.yes(15, "trailingComma") {
			put(",")
		}
	}
	space()
	put(end)
	return lines
}

var (
	bareRe = regexp.MustCompile(`^[A-Za-z0-9_./]+$`)
	foldRe = regexp.MustCompile(`[^\s] [^\s]`)
)

// scalar renders a scalar.
func (w *wild) scalar(n *N, ind int, c ctx) []string {
	g := w.g
	oneLine := c == keyCtx || c == flowKeyCtx
	flow := c == flowCtx || c == flowKeyCtx
	if n.Tag != "!!str" {
		p := yaml.Node{Kind: yaml.ScalarNode, Value: n.Val}
		if !strings.HasPrefix(n.Tag, "!!") || p.ShortTag() != n.Tag {
			pr := w.props(n, n.Tag)
			return []string{pr + w.double(n.Val, ind, true)[0]}
		}
		if n.Val == "" {
			if n.Anchor != "" {
				return []string{"&" + n.Anchor}
			}
			return []string{map[bool]string{false: "", true: "!!null"}[false]}
		}
		if n.Tag != "!!null" && g.yes(8, "explicitTag") {
			pr := w.props(n, n.Tag)
			return []string{pr + pick(g, []string{n.Val, `"` + n.Val + `"`, "'" + n.Val + "'"}, "taggedForm")}
		}
		if flow && strings.ContainsAny(n.Val, ": ") {
			return []string{w.props(n, n.Tag) + `"` + n.Val + `"`}
		}
		return []string{w.props(n, "") + n.Val}
	}
	tag := ""
	if g.yes(6, "explicitTag") {
		tag = "!!str"
	}
	pr := w.props(n, tag)
	with := func(ls []string) []string { ls[0] = pr + ls[0]; return ls }
	s := n.Val
	if tag != "" && bareRe.MatchString(s) && !strings.HasPrefix(s, "---") && !strings.HasPrefix(s, "...") {
		return []string{pr + s}
	}
	if tag == "" && g.yes(5, "nonSpecific") && plainOK(s) && bareRe.MatchString(s) && n.Anchor == "" {
		return []string{"! " + s}
	}
	for try := 0; try < 4; try++ {
		switch g.weighted("form", 30, 20, 20, 15, 15) {
		case 0: // plain
			if !plainLines(s, flow) {
				continue
			}
			if oneLine || !g.yes(50, "split") {
				if strings.Contains(s, "\n") {
					continue
				}
				return []string{pr + s}
			}
			return with(w.split(s, ind, "", "", c == rootCtx))
		case 1: // single quoted
			if !quoteLines(s) {
				continue
			}
			q := strings.ReplaceAll(s, "'", "''")
			if oneLine || !g.yes(40, "split") {
				if strings.Contains(s, "\n") {
					continue
				}
				return []string{pr + "'" + q + "'"}
			}
			return with(w.split(q, ind, "'", "'", c == rootCtx))
		case 2:
			return with(w.double(s, ind, oneLine))
		case 3: // literal
			if oneLine || flow || s == "" || strings.Trim(s, "\n") == "" || !blockText(s) {
				continue
			}
			return with(w.block('|', s, ind, c))
		case 4: // folded
			if oneLine || flow || s == "" || strings.Trim(s, "\n") == "" || !blockText(s) || !foldable(s) {
				continue
			}
			return with(w.block('>', s, ind, c))
		}
	}
	return with(w.double(s, ind, oneLine))
}

// plainLines is true when s can be a plain scalar, over several lines perhaps.
func plainLines(s string, flow bool) bool {
	t := strings.ReplaceAll(s, "\n", " ")
	if strings.HasPrefix(s, "\n") || strings.HasSuffix(s, "\n") || strings.Contains(s, " \n") || strings.Contains(s, "\n ") || strings.Contains(t, "\t") {
		return false
	}
	if !plainOK(t) {
		return false
	}
	return !flow || !strings.ContainsAny(s, ",[]{}:#%")
}

// quoteLines is true when s can be single quoted, over several lines perhaps.
func quoteLines(s string) bool {
	return squoteOK(strings.ReplaceAll(s, "\n", "")) && !strings.HasPrefix(s, "\n") && !strings.HasSuffix(s, "\n") &&
		!strings.Contains(s, " \n") && !strings.Contains(s, "\n ") && !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, " ")
}

// blockText is true when a block scalar can hold s.
func blockText(s string) bool {
	for _, r := range s {
		if r != '\n' && r != '\t' && (r < 0x20 || r == 0x7f || r > 0x7e && !unicode.IsPrint(r)) {
			return false
		}
	}
	return true
}

// foldable is true when the lines of s are plain text.
func foldable(s string) bool {
	if strings.HasPrefix(s, "\n") {
		return false
	}
	body := strings.TrimRight(s, "\n")
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") || strings.HasSuffix(l, " ") || strings.HasSuffix(l, "\t") || strings.HasSuffix(l, " ") {
			return false
		}
	}
	return true
}

// folds breaks s at some of its single spaces and doubles its newlines.
func (w *wild) folds(s string) []string {
	var lines []string
	cur := ""
	rs := []rune(s)
	for i, r := range rs {
		switch {
		case r == '\n':
			lines = append(lines, cur)
			if i == 0 || rs[i-1] != '\n' {
				lines = append(lines, "")
			}
			cur = ""
		case r == ' ' && i > 0 && i+1 < len(rs) && !unicode.IsSpace(rs[i-1]) && !unicode.IsSpace(rs[i+1]) && rs[i+1] != '#' && len(lines) < 40 && w.g.yes(20, "fold"):
			lines = append(lines, cur)
			cur = ""
		default:
			cur += string(r)
		}
	}
	return append(lines, cur)
}

// split writes a flow scalar over several lines.
func (w *wild) split(s string, ind int, open, end string, root bool) []string {
	ls := w.folds(open + s + end)
	if root {
		ind++ // keep "---" and "..." away from column 0
	}
	for i := 1; i < len(ls); i++ {
		if ls[i] != "" {
			ls[i] = pad(ind+1) + ls[i]
		}
	}
	return ls
}

var escapes = map[rune]string{0: "0", 7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r", 27: "e", '"': `"`, '\\': `\`, 0x85: "N", 0xa0: "_", 0x2028: "L", 0x2029: "P"}

// double writes a double-quoted scalar with escapes and line folds.
func (w *wild) double(s string, ind int, oneLine bool) []string {
	lines := []string{`"`}
	put := func(t string) { lines[len(lines)-1] += t }
	budget := 12
	some := func(p int, what string) bool {
		if budget <= 0 {
			return false
		}
		if w.g.yes(p, what) {
			budget--
			return true
		}
		return false
	}
	rs := []rune(s)
	if len(rs) > 60 {
		budget = 0
		if !oneLine && w.g.yes(50, "continued") {
			budget = 3
		}
	}
	for i, r := range rs {
		must := r < 0x20 || r == 0x7f || r == '"' || r == '\\' || r == 0x85 || r == 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || (r > 0x7f && !unicode.IsPrint(r))
		if !oneLine && i > 0 && some(4, "continue") {
			// an escaped line break; a space behind it has to be escaped
			put(`\`)
			lines = append(lines, pad(ind+1))
			if r == ' ' {
				put(`\`)
			}
			if r == ' ' || r == '\t' && !must {
				put(string(r))
				continue
			}
		}
		if !oneLine && r == ' ' && i > 0 && i+1 < len(rs) && !unicode.IsSpace(rs[i-1]) && !unicode.IsSpace(rs[i+1]) &&
			rs[i-1] != 0x85 && rs[i+1] != 0x85 && rs[i+1] != '#' && rs[i-1] > 0x20 && rs[i-1] < 0x7f && rs[i+1] > 0x20 && rs[i+1] < 0x7f && some(15, "fold") {
			lines = append(lines, pad(ind+1))
			continue
		}
		switch {
		case must || r != ' ' && some(3, "escape"):
			if e, ok := escapes[r]; ok && w.g.weighted("named", 80, 20) == 0 {
				put(`\` + e)
				continue
			}
			switch k := w.g.n(0, 2, "escapeForm"); {
			case k == 0 && r < 0x100:
				put(fmt.Sprintf(`\x%02X`, r))
			case k <= 1 && r < 0x10000:
				put(fmt.Sprintf(`\u%04x`, r))
			default:
				put(fmt.Sprintf(`\U%08X`, r))
			}
		default:
			put(string(r))
		}
	}
	put(`"`)
	return lines
}

// block writes a literal or folded scalar.
func (w *wild) block(mark rune, s string, ind int, c ctx) []string {
	body := strings.TrimRight(s, "\n")
	nl := len(s) - len(body)
	chomp := ""
	switch {
	case nl == 0:
		chomp = "-"
	case nl > 1:
		chomp = "+"
	}
	ls := strings.Split(body, "\n")
	if mark == '>' {
		ls = w.folds(body)
	}
	k := 1 + w.g.n(0, 3, "blockIndent")
	base := w.parent
	if base < 0 {
		base = 0
	}
	hint := ""
	for _, l := range ls {
		if l != "" {
			if strings.HasPrefix(strings.TrimLeft(l, "\n"), " ") || l[0] == '\t' {
				hint = fmt.Sprint(k)
			}
			break
		}
	}
	if w.g.yes(10, "hint") {
		hint = fmt.Sprint(k)
	}
	if w.g.yes(50, "chompFirst") {
		hint, chomp = chomp, hint
	}
	out := []string{string(mark) + hint + chomp}
	if !w.g.bare && w.g.yes(20, "blockComment") {
		out[0] += " # comment"
	}
	for _, l := range ls {
		if l == "" {
			out = append(out, "")
		} else {
			out = append(out, pad(base+k)+l)
		}
	}
	for i := 1; i < nl; i++ {
		out = append(out, "")
	}
	return out
}
