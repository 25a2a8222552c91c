package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	old "yamlold.example"

	"gopkg.in/yaml.v3"
)

// Comments.  A comment belongs to a node: Head and Foot to a mapping key or a
// list item, Line to a scalar.  yot renders its tree with yaml.v3, whose known
// bugs with comments its documentation excepts; so the oracle renders the tree
// it expects with the same library, and judges only trees the library renders
// so that they are read back as they are.

// notes draws comments for the nodes of n; token makes each one unique.
func (g *G) notes(n *N, density int) {
	mk := func(what string) string {
		s := "# " + what + g.id("-")
		if g.yes(15, "words") {
			s += " " + pick(g, []string{"with words", "key: value", "- item", "it's \"quoted\"", "TODO(x): 100%", "# hash", "%v and %l", "ünïcode", "{{ x }}"}, "commentText")
		}
		return s
	}
	line := func(v *N) {
		if (v.Kind == "v" || v.Kind == "a") && g.yes(density, "line") {
			v.Line = mk("line")
		}
	}
	for i, p := range n.Pairs {
		if g.yes(density, "head") {
			p.K.Head = mk("head")
			if g.yes(20, "two lines") {
				p.K.Head += "\n" + mk("head")
			}
		}
		line(p.V)
		if isBlock(p.V) && p.V.Anchor == "" && g.yes(density/2, "key line") {
			p.K.Line = mk("key")
		}
		g.notes(p.V, density)
		if i > 0 && g.yes(density/3, "foot") {
			p.K.Foot = mk("foot")
		}
	}
	for _, it := range n.Items {
		if g.yes(density, "head") {
			it.Head = mk("head")
		}
		line(it)
		g.notes(it, density)
	}
}

// lineNotes draws line comments on the scalars of an overlay value.
func (g *G) lineNotes(n *N, density int) {
	n.Walk(func(v *N) {
		if v.Kind == "v" && !strings.Contains(v.Val, "\n") && g.yes(density, "overlay comment") {
			v.Line = "# new" + g.id("-")
		}
	})
}

// CanonC is Canon with the comments and where they belong.
func CanonC(n *yaml.Node) string {
	var b strings.Builder
	canonC(&b, n)
	return b.String()
}

func canonC(b *strings.Builder, n *yaml.Node) {
	c := ""
	for _, x := range []struct{ name, text string }{{"head", n.HeadComment}, {"line", n.LineComment}, {"foot", n.FootComment}} {
		if x.text != "" {
			c += fmt.Sprintf(" %s(%s)", x.name, strings.TrimSpace(x.text))
		}
	}
	switch n.Kind {
	case yaml.DocumentNode:
		b.WriteString("doc" + c + " ")
		for _, x := range n.Content {
			canonC(b, x)
		}
	case yaml.MappingNode:
		b.WriteString("{" + c)
		for i := 0; i+1 < len(n.Content); i += 2 {
			b.WriteString("\n ")
			canonC(b, n.Content[i])
			b.WriteString(": ")
			canonC(b, n.Content[i+1])
		}
		b.WriteString("}")
	case yaml.SequenceNode:
		b.WriteString("[" + c)
		for _, x := range n.Content {
			b.WriteString("\n - ")
			canonC(b, x)
		}
		b.WriteString("]")
	case yaml.AliasNode:
		b.WriteString("*" + n.Value + c)
	default:
		if n.ShortTag() == "!!null" {
			b.WriteString("null" + c)
			return
		}
		fmt.Fprintf(b, "%s %q%s", n.ShortTag(), n.Value, c)
	}
}

func canonCAll(src string) ([]string, error) {
	docs, err := ParseRaw(src)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range docs {
		out = append(out, CanonC(d))
	}
	return out, nil
}

// toOld builds the library tree of a model tree, comments included.
func toOld(n *N) *old.Node {
	y := &old.Node{HeadComment: n.Head, LineComment: n.Line, FootComment: n.Foot}
	switch n.Kind {
	case "m":
		y.Kind, y.Tag = old.MappingNode, "!!map"
		for _, p := range n.Pairs {
			y.Content = append(y.Content, toOld(p.K), toOld(p.V))
		}
	case "s":
		y.Kind, y.Tag = old.SequenceNode, "!!seq"
		for _, it := range n.Items {
			y.Content = append(y.Content, toOld(it))
		}
	default:
		y.Kind, y.Tag, y.Value = old.ScalarNode, n.Tag, n.Val
	}
	return y
}

// fromOld reads src with yot's own library.
func fromOld(src string) (docs []*old.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parser panic: %v", r)
		}
	}()
	dec := old.NewDecoder(strings.NewReader(src))
	for {
		y := new(old.Node)
		if err := dec.Decode(y); errors.Is(err, io.EOF) {
			return docs, nil
		} else if err != nil {
			return nil, err
		}
		docs = append(docs, y)
	}
}

// plainOld resets the styles of a tree and returns whether that is harmless
// for its texts as far as this oracle cares.
func plainOld(n *old.Node) {
	n.Style = 0
	for _, c := range n.Content {
		plainOld(c)
	}
}

func renderOld(docs []*old.Node) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("emitter panic: %v", r)
		}
	}()
	if len(docs) == 0 {
		return "", nil
	}
	var b bytes.Buffer
	b.WriteString("---\n")
	enc := old.NewEncoder(&b)
	enc.SetIndent(2)
	for _, d := range docs {
		if err := enc.Encode(d); err != nil {
			return "", err
		}
	}
	if err := enc.Close(); err != nil {
		return "", err
	}
	return b.String(), nil
}

// modelC renders a model tree the way canonC renders a parsed one.
func modelC(n *N) string {
	var b strings.Builder
	b.WriteString("doc ")
	modelCRec(&b, n)
	return b.String()
}

func modelCRec(b *strings.Builder, n *N) {
	c := ""
	for _, x := range []struct{ name, text string }{{"head", n.Head}, {"line", n.Line}, {"foot", n.Foot}} {
		if x.text != "" {
			c += fmt.Sprintf(" %s(%s)", x.name, strings.TrimSpace(x.text))
		}
	}
	switch n.Kind {
	case "m":
		b.WriteString("{" + c)
		for _, p := range n.Pairs {
			b.WriteString("\n ")
			modelCRec(b, p.K)
			b.WriteString(": ")
			modelCRec(b, p.V)
		}
		b.WriteString("}")
	case "s":
		b.WriteString("[" + c)
		for _, x := range n.Items {
			b.WriteString("\n - ")
			modelCRec(b, x)
		}
		b.WriteString("]")
	default:
		if n.Tag == "!!null" {
			b.WriteString("null" + c)
			return
		}
		fmt.Fprintf(b, "%s %q%s", n.Tag, n.Val, c)
	}
}

// commentsFaithful discards sources whose comments the library does not
// attribute to the nodes the model has them on.
func commentsFaithful(docs []*N, src string) bool {
	ys, err := fromOld(src)
	if err != nil || len(ys) != len(docs) {
		return false
	}
	for i, y := range ys {
		if oldC(y) != modelC(docs[i]) {
			return false
		}
	}
	return true
}

// oldC is canonC over the other library version's nodes.
func oldC(n *old.Node) string { return CanonC(toNew(n)) }

func toNew(n *old.Node) *yaml.Node {
	y := &yaml.Node{Kind: yaml.Kind(n.Kind), Tag: n.ShortTag(), Value: n.Value, HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment}
	if n.Kind != old.ScalarNode {
		y.Tag = ""
	}
	for _, c := range n.Content {
		y.Content = append(y.Content, toNew(c))
	}
	return y
}

// renderedC is what the output of the documents should read as, comments
// included; false when the library cannot render them faithfully.
func renderedC(docs []*N) ([]string, bool) {
	var ys []*old.Node
	for _, d := range docs {
		ys = append(ys, &old.Node{Kind: old.DocumentNode, Content: []*old.Node{toOld(d)}})
	}
	text, err := renderOld(ys)
	if err != nil {
		return nil, false
	}
	got, err := canonCAll(text)
	if err != nil || len(got) != len(docs) {
		return nil, false
	}
	for i, d := range docs {
		if got[i] != modelC(d) {
			return nil, false
		}
	}
	return got, true
}

func init() {
	// "comments": the files below Dir read as Files, comments included
	extraChecks["comments"] = func(c *Case, a *Assert, rs []*Result) error {
		got := below(rs[a.Run].FS, a.Dir)
		if w, g := sortedKeys(a.Files), keysOf(got); strings.Join(w, "\n") != strings.Join(g, "\n") {
			return fmt.Errorf("files below %s\nwant %q\ngot  %q", a.Dir, w, g)
		}
		for _, k := range sortedKeys(a.Files) {
			g, err := canonCAll(got[k])
			if err != nil {
				return fmt.Errorf("output %s is not valid YAML: %w\n%s", k, err, clip(got[k]))
			}
			if err := diffDocs(a.Files[k], g); err != nil {
				return fmt.Errorf("output %s: %w\n%s", k, err, clip(got[k]))
			}
		}
		return nil
	}
}
