package harness

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"gopkg.in/yaml.v3"
)

// The emitter renders model trees as YAML source text.  It is deliberately not
// the emitter yot uses.

var plainRe = regexp.MustCompile(`^[A-Za-z_/.][A-Za-z0-9_./ :#%+=@-]*$`)

func plainOK(s string) bool {
	if !plainRe.MatchString(s) || strings.HasSuffix(s, " ") || strings.HasSuffix(s, ":") ||
		strings.Contains(s, ": ") || strings.Contains(s, " #") || strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...") {
		return false
	}
	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
	return n.ShortTag() == "!!str"
}

func dquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r == 0x85 || r == 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || (r > 0x7f && !unicode.IsPrint(r)):
			if r > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, r)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func squoteOK(s string) bool {
	for _, r := range s {
		if r < 0x20 || (r > 0x7e && !unicode.IsPrint(r)) {
			return false
		}
	}
	return !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, " ")
}

func litOK(s string) bool {
	if s == "" || !strings.Contains(s, "\n") || strings.HasPrefix(s, "\n") || strings.HasPrefix(s, " ") || strings.HasPrefix(s, "\t") {
		return false
	}
	for _, r := range s {
		if r != '\n' && (r < 0x20 || (r > 0x7e && !unicode.IsPrint(r))) {
			return false
		}
	}
	body := strings.TrimRight(s, "\n")
	for _, l := range strings.Split(body, "\n") {
		if strings.TrimSpace(l) == "" && l != "" {
			return false
		}
	}
	return true
}

// scalarText is the one-line form of a scalar.
func scalarText(n *N) string {
	pre := ""
	if n.Anchor != "" {
		pre = "&" + n.Anchor + " "
	}
	if n.Kind == "a" {
		return "*" + n.Val
	}
	switch n.Tag {
	case "!!str":
		switch n.Style {
		case "sq":
			if squoteOK(n.Val) {
				return pre + "'" + strings.ReplaceAll(n.Val, "'", "''") + "'"
			}
			return pre + dquote(n.Val)
		case "dq", "lit":
			return pre + dquote(n.Val)
		}
		if plainOK(n.Val) {
			return pre + n.Val
		}
		return pre + dquote(n.Val)
	case "!!null":
		if n.Val == "" {
			n.Val = "null"
		}
		return pre + n.Val
	}
	if strings.HasPrefix(n.Tag, "!!") {
		p := yaml.Node{Kind: yaml.ScalarNode, Value: n.Val}
		if n.Style == "tagged" || p.ShortTag() != n.Tag {
			return pre + n.Tag + " " + dquote(n.Val)
		}
		return pre + n.Val
	}
	return pre + tagText(n.Tag) + " " + dquote(n.Val)
}

func tagText(t string) string {
	if strings.HasPrefix(t, "!") {
		return t
	}
	return "!<" + t + ">"
}

func flowText(n *N) string {
	pre := ""
	if n.Anchor != "" {
		pre = "&" + n.Anchor + " "
	}
	switch n.Kind {
	case "m":
		var ps []string
		for _, p := range n.Pairs {
			if blank(p.V) {
				ps = append(ps, flowScalar(p.K)+": ")
				continue
			}
			ps = append(ps, flowScalar(p.K)+": "+flowText(p.V))
		}
		return pre + "{" + strings.Join(ps, ", ") + "}"
	case "s":
		var ps []string
		for _, p := range n.Items {
			ps = append(ps, flowText(p))
		}
		return pre + "[" + strings.Join(ps, ", ") + "]"
	}
	return flowScalar(n)
}

var flowPlain = regexp.MustCompile(`^[A-Za-z0-9_./+-]*$`)

func flowScalar(n *N) string {
	if n.Kind == "v" && n.Tag == "!!str" && n.Style == "" && !flowPlain.MatchString(n.Val) {
		c := *n
		c.Style = "dq"
		return scalarText(&c)
	}
	if n.Kind == "a" {
		return "*" + n.Val + " "
	}
	return scalarText(n)
}

func isBlock(n *N) bool {
	return n.Style != "flow" && (n.Kind == "m" && len(n.Pairs) > 0 || n.Kind == "s" && len(n.Items) > 0)
}

type emitter struct {
	lines []string
	step  int
}

func pad(n int) string { return strings.Repeat(" ", n) }

func comment(s string) string {
	if s == "" {
		return ""
	}
	return " " + s
}

// value appends the value of a "key:" or "-" prefix.
func (e *emitter) value(prefix string, v *N, ind int) {
	switch {
	case isBlock(v):
		if v.Kind == "m" && strings.HasSuffix(prefix, "-") && v.Anchor == "" && v.Pairs[0].K.Head == "" {
			// compact form: first key on the line of the dash
			sub := &emitter{step: e.step}
			sub.block(v, len(prefix)+1)
			sub.lines[0] = prefix + " " + strings.TrimLeft(sub.lines[0], " ")
			e.lines = append(e.lines, sub.lines...)
			return
		}
		a := ""
		if v.Anchor != "" {
			a = " &" + v.Anchor
		}
		e.lines = append(e.lines, prefix+a+comment(v.Line))
		e.block(v, ind+e.step)
	case v.Kind == "v" && v.Tag == "!!str" && v.Style == "lit" && litOK(v.Val):
		chomp := ""
		body := strings.TrimRight(v.Val, "\n")
		switch nl := len(v.Val) - len(body); {
		case nl == 0:
			chomp = "-"
		case nl > 1:
			chomp = "+"
		}
		a := ""
		if v.Anchor != "" {
			a = " &" + v.Anchor
		}
		e.lines = append(e.lines, prefix+a+" |"+chomp+comment(v.Line))
		for _, l := range strings.Split(body, "\n") {
			if l == "" {
				e.lines = append(e.lines, "")
			} else {
				e.lines = append(e.lines, pad(ind+e.step)+l)
			}
		}
		for i := len(body) + 1; i < len(v.Val); i++ {
			e.lines = append(e.lines, "")
		}
	case blank(v):
		e.lines = append(e.lines, prefix+comment(v.Line))
	default:
		e.lines = append(e.lines, prefix+" "+flowText2(v)+comment(v.Line))
	}
}

// blank is a null that is written as nothing
func blank(v *N) bool { return v.Kind == "v" && v.Tag == "!!null" && v.Val == "" && v.Anchor == "" }

func flowText2(v *N) string {
	if v.Kind == "v" || v.Kind == "a" {
		return scalarText(v)
	}
	return flowText(v)
}

func (e *emitter) head(s string, ind int) {
	if s == "" {
		return
	}
	for _, l := range strings.Split(s, "\n") {
		e.lines = append(e.lines, pad(ind)+l)
	}
}

func (e *emitter) block(n *N, ind int) {
	if n.Kind == "m" {
		for _, p := range n.Pairs {
			e.head(p.K.Head, ind)
			if p.K.Line != "" && isBlock(p.V) {
				e.lines = append(e.lines, pad(ind)+scalarText(p.K)+":"+comment(p.K.Line))
				e.block(p.V, ind+e.step)
				e.foot(p.K.Foot, ind)
				continue
			}
			e.value(pad(ind)+keyText(p.K)+":", p.V, ind)
			e.foot(p.K.Foot, ind)
		}
		return
	}
	for _, it := range n.Items {
		e.head(it.Head, ind)
		e.value(pad(ind)+"-", it, ind)
		e.foot(it.Foot, ind)
	}
}

// keyText is a key in front of its colon, which must not become part of the name of an alias.
func keyText(k *N) string {
	if k.Kind == "a" {
		return scalarText(k) + " "
	}
	return scalarText(k)
}

func (e *emitter) foot(s string, ind int) {
	if s == "" {
		return
	}
	e.head(s, ind)
	e.lines = append(e.lines, "")
}

// Emit renders one document body.
func Emit(n *N, step int) string {
	e := &emitter{step: step}
	switch {
	case isBlock(n):
		if n.Anchor != "" {
			panic("anchored root")
		}
		e.block(n, 0)
	default:
		e.lines = append(e.lines, flowText2(n)+comment(n.Line))
	}
	return strings.Join(e.lines, "\n") + "\n"
}

// EmitStream renders a multi-document file.
func EmitStream(docs []*N, step int, leading bool) string {
	var b strings.Builder
	for i, d := range docs {
		if i > 0 || leading {
			b.WriteString("---\n")
		}
		b.WriteString(Emit(d, step))
	}
	return b.String()
}

// selfCheck makes sure the oracle's own rendering of a tree parses back to it.
func selfCheck(docs []*N, src string) {
	fail := func(f string, a ...any) {
		if os.Getenv("VERIF_STRICT") != "" {
			panic("harness: " + fmt.Sprintf(f, a...))
		}
		panic(discard{"emitter"})
	}
	got, err := ParseStream(src)
	if err != nil {
		fail("emitter wrote unparsable YAML: %v\n%s", err, src)
	}
	var want []string
	for _, d := range docs {
		want = append(want, Canon(resolveAliases(d)))
	}
	g := CanonAll(got)
	if strings.Join(want, "\n") != strings.Join(g, "\n") {
		fail("emitter is wrong\n%s\nwant %s\ngot  %s", src, strings.Join(want, "\n     "), strings.Join(g, "\n     "))
	}
}

// discard is thrown by generators for cases the oracle cannot judge.
type discard struct{ why string }

// resolveAliases sets the Target of alias nodes by document order.
func resolveAliases(d *N) *N {
	anchors := map[string]*N{}
	d.walkAll(func(n *N) {
		if n.Kind == "a" {
			n.Target = anchors[n.Val]
		}
		if n.Anchor != "" {
			anchors[n.Anchor] = n
		}
	})
	return d
}

func quote(s string) string { return strconv.Quote(s) }
