package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"
)

// spellings of the output styles, as documented
var styleNames = map[string][]string{
	"normal":       {"normal", "n", "NORMAL"},
	"tagged":       {"tagged", "tag", "t", "TAGGED"},
	"doubleQuoted": {"doubleQuoted", "doubleQuote", "double", "dq", "DOUBLEQUOTED"},
	"singleQuoted": {"singleQuoted", "single", "sq", "singleQuote", "SINGLEQUOTED"},
	"literal":      {"literal", "l", "LITERAL"},
	"folded":       {"folded", "fold", "fo", "FOLDED"},
	"flow":         {"flow", "fl", "FLOW"},
}

func (g *G) styles() []string {
	var ss []string
	for k := 1 + g.weighted("styles", 50, 35, 15); k > 0; k-- {
		ss = append(ss, pick(g, []string{"normal", "tagged", "doubleQuoted", "singleQuoted", "literal", "folded", "flow"}, "style"))
	}
	return ss
}

// styleSetting selects the styles in one of the documented ways.
func (g *G) styleSetting(ss []string, r *Run, c *Case, config *[]string) {
	var names []string
	for _, s := range ss {
		names = append(names, pick(g, styleNames[s], "spelling"))
	}
	switch g.weighted("how", 40, 20, 20, 20) {
	case 0:
		for _, n := range names {
			r.Args = append(r.Args, pick(g, []string{"-S", "--output-style"}, "flag"), n)
		}
	case 1:
		r.Args = append(r.Args, "-S", strings.Join(names, ","))
	case 2:
		v := strings.Join(names, ",")
		if g.yes(50, "brackets") {
			v = "[" + v + "]"
		}
		r.Env["YOT_OUTPUT_STYLE"] = v
		c.label("style from the environment")
	default:
		if len(names) == 1 && g.yes(50, "scalar") {
			*config = append(*config, "outputStyle: "+names[0])
		} else {
			*config = append(*config, "outputStyle: ["+strings.Join(names, ", ")+"]")
		}
		c.label("style from the configuration file")
	}
}

func (g *G) indentSetting(r *Run, c *Case, config *[]string) int {
	i := g.n(2, 9, "indentLevel")
	v := strconv.Itoa(i)
	switch g.weighted("how", 40, 20, 20, 20) {
	case 0:
		r.Args = append(r.Args, "-I", v)
	case 1:
		r.Args = append(r.Args, "--indent-level="+v)
	case 2:
		r.Env["YOT_INDENT_LEVEL"] = v
	default:
		*config = append(*config, "indentLevel: "+v)
	}
	return i
}

var simpleWord = regexp.MustCompile(`^[a-z][a-zA-Z/]{4,30}$`)

// styled checks that every node of the output has the selected form.
func styled(n *yaml.Node, set map[string]bool, key bool) error {
	bad := func(what string) error {
		return fmt.Errorf("line %d: %s is not %s", n.Line, clip(n.Value+" ("+n.ShortTag()+")"), what)
	}
	if set["tagged"] && n.Kind != yaml.DocumentNode && n.Style&yaml.TaggedStyle == 0 {
		return bad("tagged")
	}
	switch n.Kind {
	case yaml.ScalarNode:
		simple := simpleWord.MatchString(n.Value) && n.Value != "false"
		switch {
		case set["doubleQuoted"]:
			if n.Style&yaml.DoubleQuotedStyle == 0 {
				return bad("double-quoted")
			}
		case set["singleQuoted"]:
			if n.Style&yaml.SingleQuotedStyle == 0 && (simple || n.Style&yaml.DoubleQuotedStyle == 0) {
				return bad("single-quoted")
			}
		case set["literal"] || set["folded"]:
			want := yaml.Style(yaml.LiteralStyle)
			if set["folded"] && set["literal"] {
				want |= yaml.FoldedStyle
			} else if set["folded"] {
				want = yaml.FoldedStyle
			}
			if simple && !key && !set["flow"] && n.Style&want == 0 {
				return bad("literal or folded")
			}
		default:
			if simple && n.Style&^yaml.TaggedStyle != 0 {
				return bad("plain")
			}
		}
	case yaml.MappingNode, yaml.SequenceNode:
		if len(n.Content) > 0 && (n.Style&yaml.FlowStyle != 0) != set["flow"] {
			if set["flow"] {
				return bad("in flow style")
			}
			return bad("in block style")
		}
	}
	for i, c := range n.Content {
		if err := styled(c, set, n.Kind == yaml.MappingNode && i%2 == 0); err != nil {
			return err
		}
	}
	return nil
}

// indented checks the indentation of nested block mappings, and of lists in
// them; inside lists the YAML library aligns items its own way.
func indented(n *yaml.Node, step int) error {
	switch n.Kind {
	case yaml.DocumentNode:
		for _, c := range n.Content {
			if err := indented(c, step); err != nil {
				return err
			}
		}
	case yaml.MappingNode:
		for i := 1; i < len(n.Content); i += 2 {
			v := n.Content[i]
			if len(v.Content) == 0 || v.Style&yaml.FlowStyle != 0 || n.Content[i-1].Line == v.Line || n.Content[i-1].Column != n.Column || (v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode) {
				continue
			}
			if v.Column-n.Column != step {
				return fmt.Errorf("line %d is indented by %d, want %d", v.Line, v.Column-n.Column, step)
			}
			if err := indented(v, step); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	extraChecks["style"] = func(c *Case, a *Assert, rs []*Result) error {
		set := map[string]bool{}
		for _, s := range a.List {
			set[s] = true
		}
		step, err := strconv.Atoi(a.Text)
		must(err)
		fs := below(rs[a.Run].FS, a.Dir)
		for _, p := range sortedKeys(fs) {
			docs, err := ParseRaw(fs[p])
			if err != nil {
				return err
			}
			for _, d := range docs {
				err := styled(d, set, false)
				if err == nil && !set["flow"] && !set["tagged"] {
					err = indented(d, step)
				}
				if err != nil {
					return fmt.Errorf("output %s: %w\n%s", p, err, clip(fs[p]))
				}
			}
		}
		return nil
	}
}

// C15: output styles and indentation.
func TestC15(t *testing.T) {
	check(t, "C15", func(g *G) *Case {
		ss, es := g.srcs(1+g.weighted("files", 80, 20), 3, func() *N {
			d := g.anyDoc()
			if g.yes(35, "nested") {
				d = Map("outer", Map("inner", d, "word", "something", "list", Seq(S("another"), Map("k", "thing"))))
			}
			if g.yes(60, "comments") {
				noFlow(d)
				g.notes(d, 25)
			}
			return d
		})
		s := &Scene{Srcs: ss, Instr: &Instr{Files: es}}
		for i := range ss {
			if g.yes(40, "overlay") {
				ds := copyDocs(ss[i].Docs)
				if o := g.drawOverlay(pick(g, []string{"merge", "replace"}, "action"), ds, 30); o != nil {
					if applyAll(o, ds, "ignore") == nil {
						es[i].Overlays = append(es[i].Overlays, o)
					}
				}
			}
		}
		c := s.newCase()
		docLabels(c, ss)
		run := Run{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}, Env: map[string]string{}}
		var config []string
		set := g.styles()
		g.styleSetting(set, &run, c, &config)
		step := 2
		if g.yes(60, "indent") {
			step = g.indentSetting(&run, c, &config)
			c.label("other indentation")
		}
		if config != nil {
			c.Files["w/cwd/yot.config"] = strings.Join(config, "\n") + "\n"
		}
		for _, x := range set {
			c.label("style " + x)
		}
		kind, canon := styleData(set)
		want := map[string][]string{}
		var paths []string
		for _, x := range ss {
			paths = append(paths, x.Path)
		}
		names := outNames(paths)
		for i, x := range ss {
			docs, err := Process(x.Docs, nil, es[i].Overlays, nil, "ignore")
			if err != nil {
				panic(discard{"rejected"})
			}
			for _, d := range docs {
				c.NonTrivial = c.NonTrivial || d.Size() > 3
				want[names[x.Path]] = append(want[names[x.Path]], canon(d))
			}
		}
		c.Runs = []Run{run}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: kind, Dir: outAbs, Files: want}, {Kind: "style", Dir: outAbs, List: set, Text: strconv.Itoa(step)}}
		return c
	})
}
