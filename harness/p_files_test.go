package harness

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"testing"
)

// tree is a generated file tree with instructions that list parts of it.
type tree struct {
	files  map[string]*Src   // YAML files by absolute path
	junk   map[string]string // other files
	dirs   []string
	links  map[string]string // symbolic links to directories, by absolute path
	stored map[string]string // files that are symbolic links, with their targets
	at     string            // directory of the instructions
	file   string            // the instructions
	cwd    string
	instr  string // the -i argument
	in     *Instr
	adhoc  []string // -p arguments
	extra  *Overlay // ad-hoc overlay
}

var fileNames = []string{"a.yaml", "b.yml", "a.yml", "deploy.yaml", "x y.yaml", ".hidden.yaml", "é.yaml", "v1.2.yaml", "a.yaml.yaml", "-.yaml", "sub.yaml"}
var dirNames = []string{"app", "app2", "ap", "v1.2", "sub", "x y", "deep.yaml", ".git"}
var junkNames = []string{"notes.txt", "data.json", "Makefile", "a.yaml.bak", "yaml", "b.yam", "c.YAML", "d.Yml", "e.yaml~", "f.yml.tmp", "script.sh"}

func (g *G) fileTree() *tree {
	t := &tree{files: map[string]*Src{}, junk: map[string]string{}, links: map[string]string{}, stored: map[string]string{}, cwd: "/w/cwd", in: &Instr{}}
	t.dirs = []string{"/w/in"}
	for k := g.n(0, 4, "dirs"); k > 0; k-- {
		d := pick(g, t.dirs, "parent") + "/" + pick(g, dirNames, "dirname")
		if !has(t.dirs, d) {
			t.dirs = append(t.dirs, d)
		}
	}
	if g.yes(30, "other root") {
		t.dirs = append(t.dirs, pick(g, []string{"/w/other", "/data", "/w/input"}, "root"))
	}
	for k := g.many(1, 5, 40, "files"); k > 0; k-- {
		p := pick(g, t.dirs, "in dir") + "/" + pick(g, fileNames, "filename")
		if len(t.files) > 5 && g.yes(70, "numbered") {
			p = path.Dir(p) + "/" + g.id("n") + ".yaml"
		}
		if t.files[p] != nil || has(t.dirs, p) {
			continue
		}
		x := &Src{Path: p}
		for j, m := 0, 1+g.weighted("docs", 75, 20, 5); j < m; j++ {
			d := orderDoc(len(t.files), j)
			if g.yes(15, "content") {
				d.Set("more", g.value(VOpt{Depth: 2, Width: 2}))
			}
			x.Docs = append(x.Docs, d)
		}
		if g.yes(4, "large") {
			x.Docs[0].Set("large", S(strings.Repeat("a large file ", g.n(400, 9000, "size"))))
		}
		x.Text = g.file(x.Docs)
		t.files[p] = x
		if g.yes(6, "linked") {
			x.Path = "/w/store/" + g.id(pick(g, []string{"..data", "f.yaml", "f"}, "store"))
			t.stored[p] = x.Path
		}
	}
	for k := g.n(0, 2, "junk"); k > 0; k-- {
		t.junk[pick(g, t.dirs, "junk dir")+"/"+pick(g, junkNames, "junkname")] = "\t: not yaml {["
	}
	t.at = pick(g, []string{"/w/cwd", "/w/cwd/conf", "/w/instr", "/w/in", "/w"}, "instructions dir")
	if g.yes(30, "elsewhere") {
		t.cwd = pick(g, []string{"/w/else", "/w", "/w/in"}, "cwd")
	}
	t.file = t.at + "/i.yaml"
	if t.at == "/w/in" { // not to be taken for an input
		t.file = t.at + "/instructions.yot"
	}
	t.instr = "{R}" + t.file
	if g.yes(60, "relative instructions") {
		t.instr = rel(t.cwd, t.file)
	}
	return t
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func rel(from, to string) string {
	f, t := strings.Split(strings.Trim(from, "/"), "/"), strings.Split(strings.Trim(to, "/"), "/")
	k := 0
	for k < len(f) && k < len(t)-1 && f[k] == t[k] {
		k++
	}
	return strings.Repeat("../", len(f)-k) + strings.Join(t[k:], "/")
}

// spelled writes a path in one of its spellings, base being what relative ones
// are resolved against.
func (g *G) spelled(p, base string, dir bool) string {
	s := "{R}" + p
	switch g.weighted("spelling", 30, 35, 10, 10, 10) {
	case 1:
		s = rel(base, p)
	case 2:
		s = "./" + rel(base, p)
	case 3:
		s = "{R}" + path.Dir(p) + "/../" + path.Base(path.Dir(p)) + "//" + path.Base(p)
	case 4:
		s = rel(base, path.Dir(p)+"/.") + "/./" + path.Base(p)
		s = strings.ReplaceAll(s, "/././", "/./")
	}
	if dir && g.yes(30, "slash") {
		s += "/"
	}
	return s
}

// below lists the YAML files under a directory.
func (t *tree) below(dir string) (ps []string) {
	for p := range t.files {
		if strings.HasPrefix(p, dir+"/") {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	return ps
}

// gathered is what the instructions say about one input file.
type gathered struct {
	out   string // last outputPath, with the part below a directory
	isDir bool
	own   []*Overlay
	docs  []*DocEntry
}

type listing struct {
	order []string
	of    map[string]*gathered
}

func (l *listing) add(p, out string, e *Entry) {
	x := l.of[p]
	if x == nil {
		x = &gathered{}
		l.of[p] = x
		l.order = append(l.order, p)
	}
	if out != "" {
		x.out = out
	}
	if e != nil {
		x.own = append(x.own, e.Overlays...)
		x.docs = append(x.docs, e.Documents...)
	}
}

// entry draws one yamlFiles entry and notes what it means.
func (g *G) treeEntry(t *tree, l *listing, c *Case, outputPaths, overlays bool) {
	e := &Entry{}
	if overlays {
		for k := g.n(0, 2, "overlays"); k > 0; k-- {
			e.Overlays = append(e.Overlays, g.orderOverlay(true, 12))
		}
		if g.yes(20, "documents") {
			e.Documents = append(e.Documents, &DocEntry{Path: g.n(0, 1, "document"), Overlays: []*Overlay{g.orderOverlay(false, 12)}})
		}
	}
	t.in.Files = append(t.in.Files, e)
	isDir := g.yes(35, "directory")
	ps := sortedKeys(t.files)
	if isDir {
		d := pick(g, t.dirs, "directory entry")
		at := d
		if g.yes(8, "link") {
			at = "/w/in/" + g.id("ln")
			t.links[at] = d
			c.label("symbolic link to a directory")
		}
		e.Path = g.spelled(at, t.at, true)
		if outputPaths && g.yes(45, "outputPath") {
			e.OutputPath = pick(g, []string{"moved", "moved/deep", "moved/", "v1.2/", "v1.2/x", "./here", "{R}/w/abs", "{R}/w/abs/d/", "x y"}, "directory outputPath")
		}
		c.label("directory")
		for _, p := range t.below(d) {
			out := ""
			if e.OutputPath != "" {
				out = path.Join(e.OutputPath, strings.TrimPrefix(p, d))
			}
			ln := p
			if at != d {
				ln = at + strings.TrimPrefix(p, d)
				t.files[ln] = t.files[p]
			}
			l.add(ln, out, e)
		}
		for p := range t.links {
			if strings.HasPrefix(p, d+"/") {
				panic(discard{"a link inside a directory"})
			}
		}
		return
	}
	if len(ps) == 0 {
		panic(discard{"no files"})
	}
	p := pick(g, ps, "file entry")
	e.Path = g.spelled(p, t.at, false)
	out := ""
	if outputPaths && g.yes(45, "outputPath") {
		switch g.weighted("outputPath kind", 30, 30, 30, 10) {
		case 0:
			e.OutputPath = pick(g, []string{"new.yaml", "b.txt", "n.e.w.yml", "./new.yaml", "x y.yaml"}, "filename")
			out = e.OutputPath
		case 1:
			e.OutputPath = pick(g, []string{"dir/new.yaml", "d.1/e/new.yml", "dir//new2.yaml", "{R}/w/abs/new.yaml", "app/a.yaml"}, "path")
			out = e.OutputPath
		case 2:
			e.OutputPath = pick(g, []string{"dir", "dir/", "d.1/", "d.1/e", "{R}/w/abs/dir", "app", "./"}, "directory outputPath")
			out = path.Join(e.OutputPath, path.Base(p))
		default:
			e.OutputPath = g.id("u") + "/" + g.id("f") + ".yaml"
			out = e.OutputPath
		}
		c.label("outputPath of a file")
	}
	c.labelIf(l.of[p] != nil, "file listed again")
	l.add(p, out, e)
}

func newListing() *listing { return &listing{of: map[string]*gathered{}} }

// newCase lays the tree out.
func (t *tree) newCase(c *Case) *Case {
	c.Files = map[string]string{}
	for p, x := range t.files {
		if x.Path == p {
			c.Files[p[1:]] = x.Text
		}
	}
	for p, to := range t.stored {
		c.Files[to[1:]] = t.files[p].Text
		c.label("symbolic link to a file")
	}
	for p, s := range t.junk {
		c.Files[p[1:]] = s
	}
	for _, d := range append([]string{t.cwd}, t.dirs...) {
		c.Dirs = append(c.Dirs, d[1:])
	}
	if len(t.links)+len(t.stored) > 0 {
		c.Links = map[string]string{}
		for p, f := range t.stored {
			c.Links[p[1:]] = "{R}" + f
		}
		for p, d := range t.links {
			c.Links[p[1:]] = "{R}" + d
		}
	}
	if t.in != nil {
		txt := t.in.Text()
		selfCheck([]*N{t.in.Node()}, txt)
		c.Files[t.file[1:]] = txt
	}
	return c
}

// outputs is where every listed file's documents have to end up, by absolute
// path; outDir is absolute.
func (t *tree) outputs(l *listing, outDir string, common []*Overlay) map[string][]string {
	names := outNames(l.order)
	want := map[string][]string{}
	for _, p := range l.order {
		x := l.of[p]
		docs, err := Process(t.files[p].Docs, common, x.own, x.docs, "ignore")
		must(err)
		to := names[p]
		if x.out != "" {
			to = strings.TrimPrefix(x.out, "{R}")
		}
		if !path.IsAbs(to) || x.out == "" {
			to = path.Join(outDir, to)
		}
		to = path.Clean(to)
		if _, ok := want[to]; ok {
			panic(discard{"two files with one output path"})
		}
		want[to] = CanonAll(docs)
	}
	for to := range want {
		for d := path.Dir(to); d != "/"; d = path.Dir(d) {
			if want[d] != nil || t.files[d] != nil || t.junk[d] != "" {
				panic(discard{"output below a file"})
			}
		}
		if has(t.dirs, to) || t.links[to] != "" || t.stored[to] != "" {
			panic(discard{"output over a directory"})
		}
		for d := range t.links {
			if strings.HasPrefix(to, d+"/") {
				panic(discard{"output through a link"})
			}
		}
		for d := range want {
			if strings.HasPrefix(d, to+"/") {
				panic(discard{"output below a file"})
			}
		}
		for _, d := range append(t.dirs, t.at, t.cwd) {
			if strings.HasPrefix(d+"/", to+"/") {
				panic(discard{"output over a directory"})
			}
		}
	}
	return want
}

func init() {
	// the outputs are at Files, every other file of the case is as it was, and
	// there are no further files
	extraChecks["world"] = func(c *Case, a *Assert, rs []*Result) error {
		r := rs[a.Run]
		b := openBox()
		for p, s := range c.Files {
			p = "/" + p
			if _, ok := a.Files[p]; ok {
				continue
			}
			g, ok := r.FS[p]
			if !ok {
				return fmt.Errorf("the file %s is gone", p)
			}
			if g != b.sub(s) {
				return fmt.Errorf("the file %s was changed to\n%s", p, clip(g))
			}
		}
		for _, p := range sortedKeys(r.FS) {
			if _, ok := c.Files[p[1:]]; ok {
				continue
			}
			if _, ok := c.Links[p[1:]]; ok {
				continue
			}
			if _, ok := a.Files[p]; !ok {
				return fmt.Errorf("yot wrote %s, want only %q", p, sortedKeys(a.Files))
			}
		}
		for _, p := range sortedKeys(a.Files) {
			g, ok := r.FS[p]
			if !ok {
				return fmt.Errorf("%s was not written", p)
			}
			docs, err := ParseStream(g)
			if err != nil {
				return fmt.Errorf("%s is not valid YAML: %w\n%s", p, err, clip(g))
			}
			if err := diffDocs(a.Files[p], CanonAll(docs)); err != nil {
				return fmt.Errorf("%s: %w\n%s", p, err, clip(g))
			}
		}
		return nil
	}
	// stdout names the files of List, one per line, in any order; Dir is the
	// working directory
	extraChecks["names"] = func(c *Case, a *Assert, rs []*Result) error {
		var got []string
		b := openBox()
		for _, l := range strings.Split(rs[a.Run].Stdout, "\n") {
			if l == "" {
				continue
			}
			if !b.chroot {
				l = strings.TrimPrefix(l, b.root)
			}
			if !path.IsAbs(l) {
				l = path.Join(a.Dir, l)
			}
			got = append(got, path.Clean(l))
		}
		want := append([]string{}, a.List...)
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("stdout names %q, want %q", got, want)
		}
		return nil
	}
}

// C14: where outputs go.
func TestC14(t *testing.T) {
	check(t, "C14", func(g *G) *Case {
		t := g.fileTree()
		c := &Case{}
		l := newListing()
		for k := g.many(1, 5, 14, "entries"); k > 0; k-- {
			g.treeEntry(t, l, c, true, false)
		}
		for i := g.n(0, 1, "deleting"); i > 0 && len(t.in.Files) > 0; i-- {
			t.in.Common = append(t.in.Common, &Overlay{Name: g.id("n"), Query: []Q{{Root: true}}, Action: "delete", DocQuery: [][]Cond{{{Query: []Q{{Segs: []Seg{{T: "child", Name: "id"}}}}, Value: S("f0d0")}}}})
		}
		if len(l.order) == 0 {
			c.label("nothing to do")
		}
		c = t.newCase(c)
		var args []string
		run := Run{Cwd: t.cwd}
		outDir := t.cwd + "/output"
		if k := g.weighted("output directory", 70, 15, 15); k < 2 {
			o := pick(g, []string{"out", "./out", "out/", "a/b/c", "../up", "{R}/w/out", "{R}/w/new/dir/", "{R}/w/cwd/../o2", "out dir", ".", "{R}/w/in", "{R}/w/in/app"}, "o")
			outDir = strings.TrimPrefix(o, "{R}")
			if outDir == o {
				outDir = path.Join(t.cwd, o)
			}
			outDir = path.Clean(outDir)
			if k == 0 {
				args = append(args, pick(g, []string{"-o", "--output-directory"}, "flag"), o)
			} else {
				run.Env = map[string]string{"YOT_OUTPUT_DIRECTORY": o}
				c.label("directory from the environment")
			}
		} else {
			c.label("default directory")
		}
		want := t.outputs(l, outDir, t.in.Common)
		var names []string
		c.NonTrivial = len(l.order) > 1
		for _, p := range sortedKeys(want) {
			if len(want[p]) == 0 {
				delete(want, p)
				c.label("file without output")
				continue
			}
			names = append(names, p)
			if _, ok := c.Files[p[1:]]; ok {
				c.label("output over an input")
				c.NonTrivial = true
			} else if g.yes(20, "old output") && !strings.HasPrefix(p, "/w/in/") && !has(t.dirs, path.Dir(p)) {
				c.Files[p[1:]] = strings.Repeat("old: content\n", 60)
				c.label("output over an old file")
				c.NonTrivial = true
			}
		}
		if _, ok := want[t.file]; ok {
			panic(discard{"output over the instructions"})
		}
		for _, x := range l.of {
			c.NonTrivial = c.NonTrivial || x.out != ""
		}
		if g.yes(15, "unrelated") && c.Files[outDir[1:]+"/unrelated.yaml"] == "" && want[outDir+"/unrelated.yaml"] == nil {
			under := false
			for _, x := range t.in.Files {
				under = under || !strings.HasSuffix(x.Path, ".yaml")
			}
			if !strings.HasPrefix(outDir, "/w/in") || !under {
				c.Files[outDir[1:]+"/unrelated.yaml"] = "kept: true\n"
			}
		}
		run.Args = append([]string{"-i", t.instr}, args...)
		c.Runs = []Run{run}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "world", Files: want}, {Kind: "names", List: names, Dir: t.cwd}}
		return c
	})
}

// C19: which files are read, and what applies to them.
func TestC19(t *testing.T) {
	check(t, "C19", func(g *G) *Case {
		t := g.fileTree()
		c := &Case{}
		l := newListing()
		for k := g.many(0, 4, 14, "entries"); k > 0; k-- {
			g.treeEntry(t, l, c, false, true)
		}
		for k := g.n(0, 2, "common"); k > 0; k-- {
			t.in.Common = append(t.in.Common, g.orderOverlay(true, 12))
		}
		common := append([]*Overlay{}, t.in.Common...)
		args := []string{"-i", t.instr}
		base := t.at
		if len(t.in.Files) == 0 {
			// nothing but the command line
			t.in = nil
			args = nil
			base = t.cwd
			c.label("no instructions")
			o := g.orderOverlay(false, 12)
			common = []*Overlay{o}
			args = append(args, "-q", o.Query[0].String(), "-a", o.Action, "-x", strings.TrimSpace(flowText(o.Value)))
		}
		if t.in == nil || g.yes(15, "ad-hoc path") {
			switch g.weighted("ad-hoc", 60, 40) {
			case 0:
				p := pick(g, sortedKeys(t.files), "ad-hoc file")
				if len(t.links) > 0 && strings.HasPrefix(p, "/w/in/ln") {
					panic(discard{"link"})
				}
				args = append(args, "-p", g.spelled(p, base, false))
				l.add(p, "", nil)
			default:
				d := pick(g, t.dirs, "ad-hoc directory")
				for p := range t.links {
					if strings.HasPrefix(p, d+"/") {
						panic(discard{"a link inside a directory"})
					}
				}
				args = append(args, "-p", g.spelled(d, base, true))
				for _, p := range t.below(d) {
					l.add(p, "", nil)
				}
			}
			c.label("path on the command line")
		}
		c = t.newCase(c)
		want := t.outputs(l, "/w/result", common)
		c.NonTrivial = len(l.order) > 1 || len(t.junk) > 0
		c.labelIf(len(t.junk) > 0, "other files around")
		c.labelIf(len(l.order) >= 4, "four or more files")
		if g.yes(30, "stdout") {
			names := map[string][]string{}
			for p, d := range want {
				names[p] = d
			}
			c.Runs = []Run{{Args: append(args, "-s"), Cwd: t.cwd}}
			c.Asserts = []Assert{{Kind: "ok"}, {Kind: "stdout", Files: names}, {Kind: "world"}}
			return c
		}
		c.Runs = []Run{{Args: append(args, "-o", "{R}/w/result"), Cwd: t.cwd}}
		c.Asserts = []Assert{{Kind: "ok"}, {Kind: "world", Files: want}}
		return c
	})
}
