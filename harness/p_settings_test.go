package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// settings, as documented
type setting struct {
	key, env string
	def      string
	values   []string
	flag     func(g *G, v string) []string
}

var settings = []setting{
	{"indentLevel", "YOT_INDENT_LEVEL", "2", []string{"2", "3", "4", "5", "6", "7", "8", "9"}, func(g *G, v string) []string {
		return pick(g, [][]string{{"-I", v}, {"-I" + v}, {"--indent-level", v}, {"--indent-level=" + v}}, "flag form")
	}},
	{"logLevel", "YOT_LOG_LEVEL", "warning", []string{"warning", "critical", "error", "notice", "info", "debug"}, func(g *G, v string) []string {
		if v == "debug" && g.yes(30, "bare") {
			return []string{"-v"}
		}
		return pick(g, [][]string{{"-v=" + v}, {"--log-level=" + v}, {"--log-level=" + strings.ToUpper(v)}}, "flag form")
	}},
	{"outputDirectory", "YOT_OUTPUT_DIRECTORY", "./output", []string{"out-a", "./out-b", "{R}/w/out-c", "out-d/e", "../out-e", "./output"}, func(g *G, v string) []string {
		return pick(g, [][]string{{"-o", v}, {"-o=" + v}, {"--output-directory", v}, {"--output-directory=" + v}}, "flag form")
	}},
	{"outputStyle", "YOT_OUTPUT_STYLE", "normal", []string{"normal", "tagged", "doubleQuoted", "singleQuoted", "flow", "literal", "tagged,flow"}, func(g *G, v string) []string {
		return pick(g, [][]string{{"-S", v}, {"--output-style=" + v}}, "flag form")
	}},
	{"removeComments", "YOT_REMOVE_COMMENTS", "false", []string{"true", "false"}, func(g *G, v string) []string {
		if v == "true" && g.yes(50, "bare") {
			return []string{"--remove-comments"}
		}
		return []string{"--remove-comments=" + v}
	}},
	{"stdout", "YOT_STDOUT", "false", []string{"true", "false"}, func(g *G, v string) []string {
		if v == "true" {
			return pick(g, [][]string{{"-s"}, {"--stdout"}, {"--stdout=true"}}, "flag form")
		}
		return pick(g, [][]string{{"-s=false"}, {"--stdout=false"}}, "flag form")
	}},
	{"defaultOnMissingAction", "YOT_DEFAULT_ON_MISSING_ACTION", "ignore", []string{"inject", "ignore"}, func(g *G, v string) []string {
		return pick(g, [][]string{{"--default-on-missing-action", v}, {"--default-on-missing-action=" + v}}, "flag form")
	}},
}

// configText renders a configuration file.
func (g *G) configText(vals map[string]string) string {
	var ls []string
	for _, s := range settings {
		v, ok := vals[s.key]
		if !ok {
			continue
		}
		switch {
		case s.key == "outputStyle" && g.yes(60, "list"):
			v = "[" + strings.ReplaceAll(v, ",", ", ") + "]"
		case s.key == "outputStyle", s.key == "outputDirectory", g.yes(15, "quoted"):
			v = strconv.Quote(v)
		}
		k := s.key
		if g.yes(5, "lower case key") {
			k = strings.ToLower(k)
		}
		ls = append(ls, k+": "+v)
	}
	for i := len(ls) - 1; i > 0; i-- {
		j := g.n(0, i, "swap")
		ls[i], ls[j] = ls[j], ls[i]
	}
	if g.yes(30, "comment") {
		ls = append([]string{"# configuration"}, ls...)
	}
	if g.yes(20, "unknown key") {
		ls = append(ls, "someOtherKey: 3")
	}
	return strings.Join(ls, "\n") + "\n"
}

// drawValues chooses a value for some settings.
func (g *G) drawValues(p int) map[string]string {
	m := map[string]string{}
	for _, s := range settings {
		if g.yes(p, "set "+s.key) {
			m[s.key] = pick(g, s.values, s.key)
		}
	}
	return m
}

// configFiles puts configuration files at some of the places looked at and
// returns the settings of the one that counts.
func (g *G) configFiles(c *Case, run *Run, ad bool) (vals map[string]string, path string) {
	put := func(p string) {
		v := g.drawValues(45)
		t := g.configText(v)
		if t == "\n" {
			t = "{}\n"
		}
		c.Files[strings.TrimPrefix(p, "/")] = t
		vals, path = v, p
	}
	places := 0
	if openBox().chroot && g.yes(25, "config in /etc") {
		put("/etc/yot/yot.config")
		places++
	}
	if g.yes(25, "config in home") {
		put("/w/home/.yot/yot.config")
		places++
	}
	if g.yes(30, "config in cwd") {
		put("/w/cwd/yot.config")
		places++
	}
	spell := func(p string) string {
		if g.yes(50, "relative config") {
			return rel("/w/cwd", p)
		}
		return "{R}" + p
	}
	if g.yes(25, "config from the environment") {
		p := pick(g, []string{"/w/conf/my.yaml", "/w/cwd/other.config", "/w/cwd/conf", "/w/conf/c.json"}, "config file")
		put(p)
		if strings.HasSuffix(p, ".json") {
			c.Files[p[1:]] = toJSON(vals)
		}
		run.Env["YOT_CONFIG_FILE"] = spell(p)
		places++
	}
	if ad && g.yes(25, "config from a flag") {
		p := pick(g, []string{"/w/conf/flag.yaml", "/w/cwd/flag.config", "/w/cwd/flagged"}, "config file")
		put(p)
		run.Args = append(run.Args, pick(g, [][]string{{"--config", spell(p)}, {"--config=" + spell(p)}}, "flag form")...)
		places++
	}
	c.labelIf(places > 1, "several configuration files")
	c.labelIf(places > 0, "configuration file")
	return vals, path
}

func toJSON(vals map[string]string) string {
	var ls []string
	for _, k := range sortedKeys(vals) {
		v := strconv.Quote(vals[k])
		if k == "indentLevel" || k == "removeComments" || k == "stdout" {
			v = vals[k]
		}
		ls = append(ls, strconv.Quote(k)+": "+v)
	}
	return "{" + strings.Join(ls, ", ") + "}"
}

func init() {
	// stdout of yot env shows the settings of List (name=value), nothing else
	extraChecks["env"] = func(c *Case, a *Assert, rs []*Result) error {
		norm := func(v string) string {
			v = strings.Trim(v, "[]")
			parts := strings.FieldsFunc(v, func(r rune) bool { return r == ' ' || r == ',' })
			return strings.ToLower(strings.Join(parts, ","))
		}
		b := openBox()
		var got, want []string
		for _, l := range strings.Split(strings.TrimSpace(rs[a.Run].Stdout), "\n") {
			k, v, ok := strings.Cut(l, "=")
			if !ok {
				return fmt.Errorf("unexpected line %q", l)
			}
			u, err := strconv.Unquote(v)
			if err != nil {
				return fmt.Errorf("%s is not a quoted value", l)
			}
			if k == "YOT_CONFIG_FILE" && u != "" {
				if !b.chroot {
					u = strings.TrimPrefix(u, b.root)
				}
				if !strings.HasPrefix(u, "/") {
					u = "/w/cwd/" + u
				}
				for strings.Contains(u, "/cwd/../") {
					u = strings.Replace(u, "/cwd/../", "/", 1)
				}
			}
			got = append(got, k+"="+norm(u))
		}
		for _, l := range a.List {
			k, v, _ := strings.Cut(l, "=")
			want = append(want, k+"="+norm(b.sub(v)))
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("yot env says\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		return nil
	}
	// the text of Path contains Text (List: "" or "not")
	extraChecks["contains"] = func(c *Case, a *Assert, rs []*Result) error {
		s := rs[a.Run].Stdout
		switch a.Path {
		case "", "stdout":
		case "stderr":
			s = rs[a.Run].Stderr
		default:
			s = rs[a.Run].FS[a.Path]
		}
		not := len(a.List) > 0
		if strings.Contains(s, a.Text) == not {
			return fmt.Errorf("%s contains %q: %v\n%s", a.Path, a.Text, !not, clip(s))
		}
		return nil
	}
}

// C16: settings.
func TestC16(t *testing.T) {
	check(t, "C16", func(g *G) *Case {
		c := &Case{Files: map[string]string{}}
		run := Run{Env: map[string]string{}}
		asEnv := g.yes(25, "yot env")
		var flags map[string]string
		if !asEnv {
			flags = g.drawValues(30)
		}
		env := g.drawValues(30)
		conf, confPath := g.configFiles(c, &run, !asEnv)
		for k, v := range env {
			for _, s := range settings {
				if s.key == k {
					run.Env[s.env] = v
				}
			}
		}
		eff := map[string]string{}
		layers := 0
		for _, s := range settings {
			eff[s.key] = s.def
			set := 0
			for _, m := range []map[string]string{conf, env, flags} {
				if v, ok := m[s.key]; ok {
					eff[s.key] = v
					set++
				}
			}
			if set > layers {
				layers = set
			}
		}
		c.NonTrivial = layers > 0
		c.labelIf(layers >= 2, "a setting given in two ways")
		c.labelIf(layers >= 3, "a setting given in three ways")
		if asEnv {
			c.label("yot env")
			run.Args = []string{"env"}
			a := Assert{Kind: "env", List: []string{"YOT_CONFIG_FILE=" + confPath}}
			for _, s := range settings {
				a.List = append(a.List, s.env+"="+eff[s.key])
			}
			if g.yes(35, "one setting") {
				i := g.n(0, len(a.List)-1, "which")
				a.List = a.List[i : i+1]
				k, _, _ := strings.Cut(a.List[0], "=")
				run.Args = append(run.Args, k)
			}
			c.Runs = []Run{run}
			c.Asserts = []Assert{{Kind: "ok"}, a}
			return c
		}
		for _, s := range settings {
			if v, ok := flags[s.key]; ok {
				run.Args = append(run.Args, s.flag(g, v)...)
			}
		}
		doc := Map("top", Map("word", "something", "in", Map("n", 1, "l", Seq(S("another")))), "val", "text")
		doc.Pairs[0].K.Line = "# the top"
		doc.Pairs[1].V.Line = "# a note"
		c.Files["w/in/f.yaml"] = "top: # the top\n  word: something\n  in:\n    n: 1\n    # head\n    l:\n    - another\nval: text # a note\n"
		selfCheck([]*N{doc}, c.Files["w/in/f.yaml"])
		c.Files["w/cwd/i.yaml"] = "yamlFiles:\n- path: {R}/w/in/f.yaml\n  overlays:\n  - query: top.missing\n    value: injected\n    action: merge\n"
		run.Args = append(run.Args, "-i", "i.yaml")
		if g.yes(50, "instructions first") {
			k := len(run.Args)
			run.Args = append(append([]string{}, run.Args[k-2:]...), run.Args[:k-2]...)
		}
		if eff["defaultOnMissingAction"] == "inject" {
			doc.Get("top").Set("missing", S("injected"))
		}
		set := strings.Split(eff["outputStyle"], ",")
		kind, canon := "files", Canon(doc)
		if !has(set, "normal") && !has(set, "tagged") && !has(set, "flow") {
			kind, canon = "filestext", CanonText(doc)
		}
		dir := map[string]string{"out-a": "/w/cwd/out-a", "./out-b": "/w/cwd/out-b", "{R}/w/out-c": "/w/out-c", "out-d/e": "/w/cwd/out-d/e", "../out-e": "/w/out-e", "./output": "/w/cwd/output"}[eff["outputDirectory"]]
		// the same settings by flags alone
		plain := Run{Args: []string{"-i", "i.yaml"}, Env: map[string]string{"HOME": "{R}/w/nowhere"}, Clean: true}
		if confPath != "" {
			c.Files["w/empty.yaml"] = "{}\n"
			plain.Args = append(plain.Args, "--config={R}/w/empty.yaml")
		}
		for _, s := range settings {
			plain.Args = append(plain.Args, s.flag(g, eff[s.key])...)
		}
		c.Runs = []Run{run, plain}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "samecode", Run2: 1}, {Kind: "samestdout", Run2: 1}}
		deb := Assert{Kind: "contains", Path: "stderr", Text: "DEBUG"}
		if eff["logLevel"] != "debug" {
			deb.List = []string{"not"}
		}
		c.Asserts = append(c.Asserts, deb)
		out := "stdout"
		if eff["stdout"] == "true" {
			c.Asserts = append(c.Asserts, Assert{Kind: "world"}, Assert{Kind: "contains", Text: "something"})
			if kind == "files" {
				c.Asserts = append(c.Asserts, Assert{Kind: "stdout", Files: map[string][]string{"f": {canon}}})
			}
		} else {
			out = dir + "/f.yaml"
			c.Asserts = append(c.Asserts,
				Assert{Kind: kind, Dir: dir, Files: map[string][]string{"f.yaml": {canon}}},
				Assert{Kind: "style", Dir: dir, List: set, Text: eff["indentLevel"]},
				Assert{Kind: "sameout", Dir: dir, Dir2: dir, Run2: 1})
			where := map[string][]string{out: {canon}}
			if kind == "files" {
				c.Asserts = append(c.Asserts, Assert{Kind: "world", Files: where})
			}
		}
		note := Assert{Kind: "contains", Path: out, Text: "# a note"}
		if eff["removeComments"] == "true" {
			note.List = []string{"not"}
		}
		if !has(set, "flow") {
			c.Asserts = append(c.Asserts, note)
		}
		return c
	})
}
