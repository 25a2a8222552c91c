package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
)

func init() {
	// stdout of the run is the text of the files below Dir of run 2, in any order
	extraChecks["concat"] = func(c *Case, a *Assert, rs []*Result) error {
		fs := below(rs[a.Run2].FS, a.Dir)
		rest := rs[a.Run].Stdout
		var left []string
		for _, k := range keysOf(fs) {
			if !strings.HasPrefix(fs[k], "---\n") {
				return fmt.Errorf("%s does not start with ---\n%s", k, clip(fs[k]))
			}
			left = append(left, fs[k])
		}
		if !concatText(rest, left) {
			return fmt.Errorf("stdout is not the files written by run %d, in any order", a.Run2)
		}
		return nil
	}
	// the files below Dir and those below Dir2 of run 2 have the same texts
	extraChecks["sametexts"] = func(c *Case, a *Assert, rs []*Result) error {
		x, y := below(rs[a.Run].FS, a.Dir), below(rs[a.Run2].FS, a.Dir2)
		var tx, ty []string
		for _, k := range keysOf(x) {
			tx = append(tx, x[k])
		}
		for _, k := range keysOf(y) {
			ty = append(ty, y[k])
		}
		sort.Strings(tx)
		sort.Strings(ty)
		for i := 0; i < len(tx) && i < len(ty); i++ {
			if tx[i] != ty[i] {
				return fmt.Errorf("texts differ\n--- one\n%s\n--- other\n%s", clip(tx[i]), clip(ty[i]))
			}
		}
		if len(tx) != len(ty) {
			return fmt.Errorf("%d and %d files", len(tx), len(ty))
		}
		return nil
	}
	// stdout lists the same lines as that of run 2
	extraChecks["samelines"] = func(c *Case, a *Assert, rs []*Result) error {
		x, y := strings.Split(rs[a.Run].Stdout, "\n"), strings.Split(rs[a.Run2].Stdout, "\n")
		sort.Strings(x)
		sort.Strings(y)
		if strings.Join(x, "\n") != strings.Join(y, "\n") {
			return fmt.Errorf("stdout lists %q, in run %d it lists %q", x, a.Run2, y)
		}
		return nil
	}
}

func concatText(s string, parts []string) bool {
	if len(parts) == 0 {
		return s == ""
	}
	tried := map[string]bool{}
	for i, p := range parts {
		if tried[p] || !strings.HasPrefix(s, p) {
			continue
		}
		tried[p] = true
		rest := append(append([]string{}, parts[:i]...), parts[i+1:]...)
		if concatText(s[len(p):], rest) {
			return true
		}
	}
	return false
}

// C21: forms and repetitions of a run.
func TestC21(t *testing.T) {
	check(t, "C21", func(g *G) *Case {
		notes := g.yes(40, "comments")
		doc := func() *N {
			d := g.anyDoc()
			if notes {
				noFlow(d)
				g.notes(d, 20)
			}
			return d
		}
		s, c := overlayScene(g, pick(g, []string{"merge", "replace", "delete"}, "action"), 3, doc)
		if g.yes(25, "delete documents") {
			i := g.n(0, len(s.Srcs)-1, "file")
			e := s.Instr.Files[i]
			e.Overlays = append(e.Overlays, &Overlay{Name: "drop", Action: "delete", Query: []Q{{Root: true}}, DocIndex: []int{g.n(0, len(s.Srcs[i].Docs)-1, "document")}})
			c.Files["w/cwd/i.yaml"] = s.Instr.Text()
			c.label("document deleted")
		}
		want, err := s.expected()
		if err != nil {
			panic(discard{"rejected"})
		}
		env := map[string]string{}
		args := []string{"-i", "i.yaml"}
		styled := false
		if g.yes(40, "style") {
			st := pick(g, []string{"doubleQuoted", "singleQuoted", "flow", "literal", "folded", "tagged"}, "style")
			args = append(args, "-S", st)
			c.label("style")
			styled = true
		}
		if g.yes(40, "indent") {
			args = append(args, "-I", strconv.Itoa(g.n(2, 9, "indentLevel")))
		}
		if g.yes(20, "remove comments") {
			args = append(args, "--remove-comments")
		}
		out := append(append([]string{}, args...), "-o", "{R}"+outAbs)
		base := Run{Args: out, Env: env}
		stdout := Run{Args: append(append([]string{}, args...), pick(g, []string{"-s", "--stdout"}, "flag")), Env: env, Clean: true}
		if g.yes(30, "output directory too") {
			stdout.Args = append(stdout.Args, "-o", "{R}"+outAbs)
		}
		logged := Run{Args: out, Env: env, Clean: true}
		lvl := pick(g, []string{"debug", "info", "notice", "warning", "error", "critical"}, "log level")
		logOut := Run{Args: append([]string{}, stdout.Args...), Env: env, Clean: true}
		if g.yes(50, "log flag") {
			logged.Args = append([]string{"-v=" + lvl}, logged.Args...)
			logOut.Args = append([]string{"--log-level=" + lvl}, logOut.Args...)
		} else {
			logged.Env = map[string]string{"YOT_LOG_LEVEL": lvl}
			logOut.Env = logged.Env
		}
		again := Run{Args: out, Env: env}
		// the results as inputs
		c.Files["w/cwd/again.yaml"] = "yamlFiles:\n- path: out\n"
		fix := Run{Args: append(append([]string{}, out...), "-i", "again.yaml", "-o", "{R}/w/cwd/out2"), Env: env}
		c.NonTrivial = len(want) > 0
		c.labelIf(len(want) < len(s.Srcs), "file omitted")
		c.labelIf(len(want) > 1, "several files written")
		c.labelIf(notes, "comments")
		c.Runs = []Run{base, stdout, logged, again, logOut}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "ok", Run: 1}, {Kind: "ok", Run: 2}, {Kind: "ok", Run: 3}, {Kind: "ok", Run: 4},
			{Kind: "concat", Run: 1, Run2: 0, Dir: outAbs},
			{Kind: "concat", Run: 4, Run2: 0, Dir: outAbs},
			{Kind: "world", Run: 1}, {Kind: "world", Run: 4},
			{Kind: "sameout", Run: 2, Dir: outAbs, Dir2: outAbs}, {Kind: "samelines", Run: 2},
			{Kind: "sameout", Run: 3, Dir: outAbs, Dir2: outAbs}, {Kind: "samelines", Run: 3}}
		if !notes {
			if !styled {
				c.Asserts = append(c.Asserts, Assert{Kind: "files", Dir: outAbs, Files: want})
			}
			if len(want) > 0 && !styled {
				c.Runs = append(c.Runs[:4:4], fix, logOut)
				for i := range c.Asserts {
					if c.Asserts[i].Run == 4 {
						c.Asserts[i].Run = 5
					}
				}
				c.Asserts = append(c.Asserts, Assert{Kind: "ok", Run: 4}, Assert{Kind: "sametexts", Run: 4, Dir: "/w/cwd/out2", Dir2: outAbs})
				c.label("results read again")
			}
		}
		return c
	})
}
