package harness

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

// tmpl turns a text into a template that renders to it.
type tmpl struct {
	g     *G
	root  *N // the values
	n     int
	path  []string
	forms map[string]bool
	bare  bool // uses no values
}

var (
	shortInt  = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,15})$`)
	ident     = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
	lowerText = regexp.MustCompile(`^[a-z][a-z0-9]*$`)
	splitList = regexp.MustCompile(`^[a-z0-9]+(-[a-z0-9]+)+$`)
)

// leaf stores v at a new place of the values and returns the expression for it.
func (t *tmpl) leaf(v *N) string {
	g := t.g
	t.n++
	path := []string{}
	for k := g.n(0, 2, "value depth"); k > 0; k-- {
		path = append(path, pick(g, []string{"site", "app", "Env", "with-dash", "x"}, "value parent"))
	}
	path = append(path, pick(g, []string{"v", "name", "img-tag", "Key", "k_"}, "value key")+strconv.Itoa(t.n))
	if g.yes(12, "number as key") {
		path[g.n(0, len(path)-1, "number at")] = strconv.Itoa(8000 + t.n)
		if len(path) > 1 && g.yes(60, "shared number") {
			path[0] = pick(g, []string{"80", "443"}, "port")
		}
		t.forms["number as key"] = true
	}
	at := t.root
	for _, p := range path[:len(path)-1] {
		next := at.Get(p)
		if next == nil {
			next = &N{Kind: "m"}
			at.Pairs = append(at.Pairs, &P{numberOrText(p), next})
		}
		at = next
	}
	at.Pairs = append(at.Pairs, &P{numberOrText(path[len(path)-1]), v})
	plain := true
	for _, p := range path {
		plain = plain && ident.MatchString(p)
	}
	if plain && g.yes(80, "dots") {
		return "." + strings.Join(path, ".")
	}
	e := "index ."
	if g.yes(50, "dollar") {
		e = "index $"
	}
	for _, p := range path {
		if numberOrText(p).Tag == "!!int" {
			e += " " + p
		} else {
			e += " " + strconv.Quote(p)
		}
	}
	return "(" + e + ")"
}

// numberOrText is a key of the values.
func numberOrText(s string) *N {
	n := S(s)
	if shortInt.MatchString(s) {
		n.Tag, n.Style = "!!int", ""
	}
	return n
}

// text is a value holding s.
func (t *tmpl) text(s string) *N {
	n := S(s)
	switch {
	case shortInt.MatchString(s) && t.g.yes(70, "number"):
		n.Tag = "!!int"
		if len(s) > 6 {
			t.forms["large number"] = true
		}
	case (s == "true" || s == "false") && t.g.yes(70, "bool"):
		n.Tag = "!!bool"
	case t.g.yes(40, "quoted"):
		n.Style = pick(t.g, []string{"dq", "sq", "lit"}, "value style")
	}
	return n
}

func raw(s string) string {
	if strings.ContainsAny(s, "`\n") {
		return strconv.Quote(s)
	}
	return "`" + s + "`"
}

// expr is an action that renders to s.
func (t *tmpl) expr(s string) string {
	g := t.g
	form := func(name, e string) string { t.forms[name] = true; return e }
	if t.bare {
		t.n++
		if lowerText.MatchString(s) && g.yes(50, "lower") {
			return form("lower", "{{ "+raw(strings.ToUpper(s))+" | lower }}")
		}
		return form("literal", pick(g, []string{"{{ ", "{{", "{{ `` }}{{ .nowhere | default "}, "open")+raw(s)+" }}")
	}
	opts := []func() string{
		func() string { return form("value", "{{ "+t.leaf(t.text(s))+" }}") },
		func() string { return form("value", "{{"+t.leaf(t.text(s))+"}}") },
		func() string { return form("literal", "{{ "+raw(s)+" }}") },
		func() string {
			return form("if", "{{ if "+t.leaf(B(true))+" }}{{ "+t.leaf(t.text(s))+" }}{{ else }}not this: [{{ end }}")
		},
		func() string {
			return form("if", "{{ if eq "+t.leaf(S("prod"))+" \"dev\" }}dropped{{ else if true }}{{ "+t.leaf(t.text(s))+" }}{{ end }}")
		},
		func() string {
			return form("missing value", "{{ .nowhere | default "+t.leaf(t.text(s))+" }}")
		},
		func() string {
			return form("variable", "{{ $v := "+t.leaf(t.text(s))+" }}{{/* note */}}{{ $v }}")
		},
		func() string {
			return form("with", "{{ with "+t.leaf(Map("in", t.text(s)))+" }}{{ .in }}{{ end }}")
		},
		func() string {
			rs := []rune(s)
			k := g.n(0, len(rs), "split")
			if strings.TrimSpace(string(rs[:k])) == "" || strings.TrimSpace(string(rs[k:])) == "" {
				return form("printf", "{{ printf \"%v\" "+t.leaf(t.text(s))+" }}")
			}
			return form("range", "{{ range "+t.leaf(Seq(S(string(rs[:k])), S(string(rs[k:]))))+" }}{{ . }}{{ end }}")
		},
		func() string {
			return form("base64", "{{ "+t.leaf(S(base64.StdEncoding.EncodeToString([]byte(s))))+" | b64dec }}")
		},
		func() string {
			return form("template", "{{ define \"t"+strconv.Itoa(t.n)+"\" }}{{ . }}{{ end }}{{ template \"t"+strconv.Itoa(t.n)+"\" "+t.leaf(t.text(s))+" }}")
		},
		func() string {
			return form("trimmed", "{{ "+t.leaf(t.text(s))+" -}}  \n\n  {{- /* joined */ -}}  {{ \"\" }}")
		},
		func() string {
			return form("ternary", "{{ ternary "+t.leaf(t.text(s))+" \"other\" "+t.leaf(B(true))+" }}")
		},
		func() string {
			return form("replace", "{{ "+t.leaf(t.text(s+"%%%"))+" | replace \"%%%\" \"\" }}")
		},
		func() string {
			return form("get", "{{ get "+t.leaf(Map("a b", t.text(s), "other", S("x")))+" \"a b\" }}")
		},
	}
	switch {
	case lowerText.MatchString(s):
		opts = append(opts, func() string { return form("lower", "{{ "+t.leaf(S(strings.ToUpper(s)))+" | lower }}") })
		opts = append(opts, func() string { return form("trimSuffix", "{{ trimSuffix \"-x\" "+t.leaf(S(s+"-x"))+" }}") })
	case splitList.MatchString(s):
		opts = append(opts, func() string {
			l := Seq()
			for _, p := range strings.Split(s, "-") {
				it := S(p)
				l.Items = append(l.Items, it)
			}
			return form("join", "{{ join \"-\" "+t.leaf(l)+" }}")
		})
	}
	if shortInt.MatchString(s) && len(s) < 9 {
		k, _ := strconv.Atoi(s)
		opts = append(opts, func() string { return form("add", fmt.Sprintf("{{ add %s 7 }}", t.leaf(N2(k-7)))) })
	}
	return opts[g.n(0, len(opts)-1, "template form")]()
}

// N2 is an integer node.
func N2(k int) *N { return &N{Kind: "v", Tag: "!!int", Val: strconv.Itoa(k)} }

var tokenRe = regexp.MustCompile(`\{R\}|[A-Za-z0-9_][A-Za-z0-9_./-]*|\{|[^\s{A-Za-z0-9_]+|\s+`)

// templated renders to s; it replaces some pieces of s by actions.
func (t *tmpl) templated(s string) string {
	g := t.g
	toks := tokenRe.FindAllString(s, -1)
	if strings.Join(toks, "") != s {
		panic("harness: tokens")
	}
	density := pick(g, []int{3, 8, 20}, "template density")
	b := ""
	write := func(x string) {
		if strings.HasSuffix(b, "{") && strings.HasPrefix(x, "{") {
			b = strings.TrimSuffix(b, "{") + "{{ `{` }}"
		}
		b += x
	}
	for i := 0; i < len(toks); i++ {
		if t.n < 40 && (g.yes(density, "template this") || len(toks[i]) > 6 && shortInt.MatchString(toks[i]) && g.yes(60, "template a number")) {
			k := g.weighted("tokens", 70, 10, 10, 5, 5)
			if i+k >= len(toks) {
				k = len(toks) - 1 - i
			}
			part := strings.Join(toks[i:i+k+1], "")
			if strings.TrimSpace(part) != "" && !strings.Contains(part, "{R}") {
				write(t.expr(part))
				i += k
				continue
			}
		}
		if g.yes(1, "dropped block") {
			write(pick(g, []string{"{{ if false }}\n]: {{ .a.b.c }}\n{{ end }}", "{{/* a note\n over lines */}}", "{{ with .nowhere }}{{ .x }}{{ end }}", "{{ range .nowhere }}x{{ end }}", "{{ $unused := 1 }}"}, "dropped"))
		}
		write(toks[i])
	}
	return b
}

// spread divides the values over files, later ones overriding earlier ones.
func (g *G) spread(root *N, k int) []*N {
	fs := make([]*N, k)
	for i := range fs {
		fs[i] = &N{Kind: "m"}
	}
	put := func(m, k, v *N) { m.Pairs = append(m.Pairs, &P{k.Copy(), v}) }
	var rec func(at *N, into []*N)
	rec = func(at *N, into []*N) {
		for _, p := range at.Pairs {
			last := g.n(0, k-1, "in file")
			if p.V.Kind == "m" {
				sub := make([]*N, k)
				for i := range sub {
					sub[i] = &N{Kind: "m"}
				}
				rec(p.V, sub)
				started := false
				for i := range sub {
					if len(sub[i].Pairs) > 0 {
						put(into[i], p.K, sub[i])
						started = true
					} else if !started && i < k-1 && g.yes(10, "other kind before") {
						put(into[i], p.K, pick(g, []*N{S("not a mapping"), Null(), Seq(S("a"))}, "before"))
					}
				}
				continue
			}
			put(into[last], p.K, p.V)
			for i := 0; i < last; i++ {
				if g.yes(25, "overridden") {
					was := pick(g, []*N{S("overridden"), N2(1), B(false), Null(), Map("was", 1)}, "overridden value").Copy()
					if p.V.Kind == "s" && was.Kind == "s" {
						continue
					}
					put(into[i], p.K, was)
				}
			}
		}
	}
	rec(root, fs)
	for i, f := range fs {
		if len(f.Pairs) == 0 && (i == 0 || k == 1) && g.yes(40, "holds nothing") {
			fs[i] = pick(g, []*N{Null(), {Kind: "m"}}, "nothing").Copy()
		} else if len(f.Pairs) == 0 {
			f.Set("unused"+strconv.Itoa(i), S("x"))
		}
		for j := len(f.Pairs) - 1; j > 0; j-- {
			o := g.n(0, j, "swap")
			f.Pairs[j], f.Pairs[o] = f.Pairs[o], f.Pairs[j]
		}
	}
	return fs
}

// C17: templated instructions.
func TestC17(t *testing.T) {
	check(t, "C17", func(g *G) *Case {
		s, c := overlayScene(g, pick(g, []string{"merge", "replace"}, "action"), 2, func() *N {
			d := g.mapDoc(g.docOpt())
			if g.yes(25, "braces in the input") {
				d.Set("zz-tpl", S(pick(g, []string{"{{ .site.v1 }}", "{{", "{{ if", "x}}", "{{- .a -}}", "{{ fail \"no\" }}"}, "braces")))
			}
			return d
		})
		for _, e := range s.Instr.Files {
			for _, o := range e.Overlays {
				if o.Action != "delete" && g.yes(20, "braces in a value") {
					o.Value = S(pick(g, []string{"{{ .site.v1 }}", "a {{ b", "{{ if", "}}", "{{ $x }}", "&lt;b&gt; &amp; <i>", "x < 1 && y > '2'", "<no value>", "&#34;x&#39; \\u003c"}, "braces"))
					o.Query = o.Query[:1]
					for _, x := range s.Srcs {
						if !o.safe(copyDocs(x.Docs)) {
							panic(discard{"ambiguous"})
						}
					}
					c.label("braces in an overlay value")
				}
				if o.Value != nil && g.yes(30, "large numbers") {
					large := func(n *N) {
						n.Tag, n.Val, n.Style = "!!int", pick(g, []string{"1000000", "4294967296", "1700000000123", "9007199254740993", "2147483648", "-1234567"}, "large number"), ""
					}
					o.Value.Walk(func(n *N) {
						if n.Kind == "v" && n.Tag != "!!binary" && (n.Tag == "!!int" || g.yes(25, "another")) {
							large(n)
						}
					})
				}
			}
		}
		want, err := s.expected()
		if err != nil {
			panic(discard{"rejected"})
		}
		b := s.newCase()
		b.Labels = c.Labels
		c = b
		for _, x := range s.Srcs {
			for _, d := range x.Docs {
				d.Walk(func(n *N) { c.labelIf(strings.Contains(n.Val, "{{"), "braces in the input") })
			}
		}
		static := c.Files["w/cwd/i.yaml"]
		if g.yes(30, "percent") {
			static += "# %v %k %l %h{s/a/b/} <no value> &lt;\n"
		}
		c.Files["w/cwd/i.yaml"] = static
		tm := &tmpl{g: g, root: &N{Kind: "m"}, forms: map[string]bool{}, bare: g.yes(10, "no values")}
		text := tm.templated(static)
		for f := range tm.forms {
			c.label("template form " + f)
		}
		c.NonTrivial = tm.n > 0
		at := pick(g, []string{"w/cwd/t.yaml", "w/cwd/t.yaml.tpl", "w/cwd/instructions", "w/cwd/x y.yaml"}, "template file")
		c.Files[at] = text
		run := Run{Args: []string{"-o", "{R}" + outAbs}, Env: map[string]string{}}
		i := []string{"-i", strings.TrimPrefix(at, "w/cwd/")}
		if g.yes(40, "absolute") {
			i[1] = "{R}/" + at
		}
		k := 1 + g.weighted("values files", 40, 33, 20, 0, 0, 7)
		for j, f := range g.spread(tm.root, k) {
			p := pick(g, []string{"w/cwd/values", "w/cwd/conf/site.yaml", "w/vals/v.yml", "w/cwd/base.values"}, "values file") + strconv.Itoa(j)
			txt := Emit(f, 2)
			if g.yes(15, "marker") {
				txt = "---\n" + txt
			}
			selfCheck([]*N{f}, txt)
			c.Files[p] = txt
			arg := "{R}/" + p
			if g.yes(60, "relative values") {
				arg = rel("/w/cwd", "/"+p)
			}
			run.Args = append(run.Args, pick(g, [][]string{{"-f", arg}, {"--values-file", arg}, {"--values-file=" + arg}}, "flag form")...)
		}
		c.labelIf(k > 1, "several values files")
		if g.yes(50, "instructions last") {
			run.Args = append(run.Args, i...)
		} else {
			run.Args = append(i, run.Args...)
		}
		plain := Run{Args: []string{"-i", "i.yaml", "-o", "{R}" + outAbs}, Clean: true}
		if strings.Contains(static, "{{") {
			c.label("braces in the instructions")
		}
		c.Runs = []Run{run, plain}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "ok", Run: 1},
			{Kind: "files", Dir: outAbs, Files: want}, {Kind: "files", Run: 1, Dir: outAbs, Files: want},
			{Kind: "sameout", Dir: outAbs, Dir2: outAbs, Run2: 1}}
		return c
	})
}
