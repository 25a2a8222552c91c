package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Case is a complete, self-contained test case: the files laid out, the runs
// of yot, and what must be true of their effects.  It is what gets written as a
// replay file; evaluating it involves no generator.
type Case struct {
	Property string            `json:"property"`
	Note     string            `json:"note,omitempty"`
	Files    map[string]string `json:"files"`
	Dirs     []string          `json:"dirs,omitempty"`
	Links    map[string]string `json:"links,omitempty"`
	Runs     []Run             `json:"runs"`
	Asserts  []Assert          `json:"asserts"`

	Labels     []string `json:"labels,omitempty"`
	NonTrivial bool     `json:"nontrivial"`
	Sample     any      `json:"-"`
}

// Run is one invocation of yot.  Paths inside the case are absolute below the
// case's private root.
type Run struct {
	Args  []string          `json:"args"`
	Env   map[string]string `json:"env,omitempty"`
	Stdin string            `json:"stdin,omitempty"`
	Cwd   string            `json:"cwd,omitempty"`
	Bin   string            `json:"bin,omitempty"`  // "race" for the race-detector build
	Full  bool              `json:"full,omitempty"` // standard output is a full device
	// Clean removes everything the previous runs made first.
	Clean bool `json:"clean,omitempty"`
}

// Assert is one expectation.
type Assert struct {
	Kind  string              `json:"kind"`
	Run   int                 `json:"run"`
	Run2  int                 `json:"run2,omitempty"`
	Dir   string              `json:"dir,omitempty"`
	Dir2  string              `json:"dir2,omitempty"`
	Path  string              `json:"path,omitempty"`
	Text  string              `json:"text,omitempty"`
	List  []string            `json:"list,omitempty"`
	Files map[string][]string `json:"files,omitempty"`
}

// Result is what one run did.
type Result struct {
	Code     int
	Stdout   string
	Stderr   string
	TimedOut bool
	FS       map[string]string
}

func (c *Case) label(s string) { c.Labels = append(c.Labels, s) }

func (c *Case) labelIf(ok bool, s string) {
	if ok {
		c.label(s)
	}
}

// HarnessError is a failure of the machinery, not of yot.
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "HARNESS-ERROR: " + h.Err.Error() }

func must(err error) {
	if err != nil {
		panic(HarnessError{err})
	}
}

const goRace = "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0"

type sandbox struct {
	root   string
	chroot bool
}

var box *sandbox

// openBox makes the process's private root.  yot runs chrooted into it in a
// user namespace of its own, so that nothing it writes can land outside.
func openBox() *sandbox {
	if box != nil {
		return box
	}
	root, err := os.MkdirTemp("", "yotverif")
	must(err)
	must(os.Chmod(root, 0o755))
	b := &sandbox{root: root, chroot: true}
	for _, v := range []struct{ env, name string }{{"YOT_BIN", "yot"}, {"YOT_RACE_BIN", "yotrace"}} {
		src := os.Getenv(v.env)
		if src == "" {
			continue
		}
		dst := filepath.Join(root, v.name)
		if err := os.Link(src, dst); err != nil {
			data, err := os.ReadFile(src)
			must(err)
			must(os.WriteFile(dst, data, 0o755))
		}
	}
	// the race detector's runtime reads its settings from here
	must(os.MkdirAll(filepath.Join(root, "proc/self"), 0o755))
	must(os.WriteFile(filepath.Join(root, "proc/self/environ"), []byte(goRace+"\x00"), 0o644))
	box = b
	if os.Getenv("VERIF_NOCHROOT") != "" {
		b.chroot = false
	} else {
		r := b.start(Run{Args: []string{"--version"}})
		if r.Code != 0 {
			b.chroot = false
		}
	}
	if !b.chroot {
		// fallback: an unprivileged user who owns only the scratch root
		must(os.Chown(root, 65534, 65534))
	}
	return b
}

func closeBox() {
	if box != nil {
		_ = os.RemoveAll(box.root)
		box = nil
	}
}

func (b *sandbox) clean() {
	ents, err := os.ReadDir(b.root)
	must(err)
	for _, e := range ents {
		if n := e.Name(); n != "yot" && n != "yotrace" && n != "proc" {
			must(os.RemoveAll(filepath.Join(b.root, n)))
		}
	}
}

// sub replaces the root placeholder; inside the chroot the root is "/".
func (b *sandbox) sub(s string) string {
	if b.chroot {
		return strings.ReplaceAll(s, "{R}", "")
	}
	return strings.ReplaceAll(s, "{R}", b.root)
}

func (b *sandbox) layout(c *Case) {
	must(os.MkdirAll(filepath.Join(b.root, "w/cwd"), 0o755))
	must(os.MkdirAll(filepath.Join(b.root, "w/home"), 0o755))
	for _, d := range c.Dirs {
		must(os.MkdirAll(filepath.Join(b.root, d), 0o755))
	}
	for p, s := range c.Files {
		full := filepath.Join(b.root, p)
		must(os.MkdirAll(filepath.Dir(full), 0o755))
		must(os.WriteFile(full, []byte(b.sub(s)), 0o644))
	}
	for p, s := range c.Links {
		full := filepath.Join(b.root, p)
		must(os.MkdirAll(filepath.Dir(full), 0o755))
		must(os.Symlink(b.sub(s), full))
	}
	if !b.chroot {
		must(filepath.WalkDir(b.root, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if n := d.Name(); n == "yot" || n == "yotrace" {
				return nil
			}
			return os.Lchown(p, 65534, 65534)
		}))
	}
}

func (b *sandbox) snapshot() map[string]string {
	m := map[string]string{}
	must(filepath.WalkDir(b.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(p, b.root)
		if d.IsDir() || rel == "/yot" || rel == "/yotrace" || strings.HasPrefix(rel, "/proc/") {
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			t, err := os.Readlink(p)
			if err != nil {
				return err
			}
			m[rel] = "-> " + t
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[rel] = string(data)
		return nil
	}))
	return m
}

func (b *sandbox) start(r Run) *Result {
	res := b.start1(r, 60*time.Second)
	if res.TimedOut {
		// a run takes milliseconds; only a second, longer silence is believed
		res = b.start1(r, 150*time.Second)
	}
	return res
}

func (b *sandbox) start1(r Run, limit time.Duration) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	bin := "/yot"
	chroot := b.chroot
	if r.Bin == "race" {
		bin = "/yotrace"
	}
	args := make([]string, len(r.Args))
	for i, a := range r.Args {
		args[i] = b.sub(a)
	}
	cwd := r.Cwd
	if cwd == "" {
		cwd = "/w/cwd"
	}
	env := []string{"HOME=" + b.sub("{R}/w/home"), "PATH=/"}
	if r.Bin == "race" {
		env = append(env, goRace)
	}
	keys := make([]string, 0, len(r.Env))
	for k := range r.Env {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		env = append(env, k+"="+b.sub(r.Env[k]))
	}
	attr := &syscall.SysProcAttr{}
	if chroot {
		attr.Chroot = b.root
		attr.Cloneflags = syscall.CLONE_NEWUSER
		attr.UidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}
		attr.GidMappings = []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}
	} else {
		bin = b.root + bin
		cwd = b.root + cwd
		attr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	if _, err := os.Stat(filepath.Join(b.root, "w/cwd")); err != nil {
		cwd = "/"
		if !chroot {
			cwd = b.root
		}
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = cwd
	cmd.Env = env
	cmd.SysProcAttr = attr
	cmd.WaitDelay = time.Second
	cmd.Stdin = strings.NewReader(b.sub(r.Stdin))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if r.Full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	res := &Result{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		res.TimedOut = true
		res.Code = -1
		return res
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		res.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			panic(HarnessError{fmt.Errorf("yot was killed (out of memory?)")})
		}
	default:
		if cmd.Process == nil {
			if b.root != "" && box == b && !strings.Contains(err.Error(), "no space") && len(r.Args) == 1 && r.Args[0] == "--version" {
				res.Code = 127 // chroot probe
				return res
			}
		}
		panic(HarnessError{err})
	}
	return res
}

// Execute lays out and runs the case.
func (c *Case) Execute() []*Result {
	b := openBox()
	b.clean()
	b.layout(c)
	var out []*Result
	for _, r := range c.Runs {
		if r.Clean {
			b.clean()
			b.layout(c)
		}
		res := b.start(r)
		res.FS = b.snapshot()
		out = append(out, res)
	}
	return out
}

func crashed(r *Result) bool {
	return strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:") ||
		strings.Contains(r.Stderr, "goroutine 1 [") || r.Code == 2
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

// Eval runs the case and returns the first expectation that fails.
func (c *Case) Eval() error {
	rs := c.Execute()
	for i := range c.Asserts {
		a := &c.Asserts[i]
		if err := c.check(a, rs); err != nil {
			r := rs[a.Run]
			return fmt.Errorf("%s: %w\n--- run %d: yot %s\n--- exit %d\n--- stdout:\n%s\n--- stderr:\n%s",
				a.Kind, err, a.Run, strings.Join(c.Runs[a.Run].Args, " "), r.Code, clip(r.Stdout), clip(r.Stderr))
		}
	}
	return nil
}

func below(fs map[string]string, dir string) map[string]string {
	m := map[string]string{}
	dir = strings.TrimSuffix(dir, "/") + "/"
	for p, s := range fs {
		if strings.HasPrefix(p, dir) {
			m[strings.TrimPrefix(p, dir)] = s
		}
	}
	return m
}

func keysOf(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func diffDocs(want, got []string) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("document %d is missing, want %s", i, clip(want[i]))
		case i >= len(want):
			return fmt.Errorf("unexpected document %d: %s", i, clip(got[i]))
		case want[i] != got[i]:
			return fmt.Errorf("document %d differs\nwant %s\ngot  %s", i, clip(want[i]), clip(got[i]))
		}
	}
	return nil
}

type canonFn func(*N) string

func (c *Case) check(a *Assert, rs []*Result) error {
	r := rs[a.Run]
	if r.TimedOut {
		return fmt.Errorf("yot did not terminate")
	}
	switch a.Kind {
	case "ok": // the run succeeds
		if r.Code != 0 {
			return fmt.Errorf("exit status %d, want 0", r.Code)
		}
		if crashed(r) {
			return fmt.Errorf("yot crashed")
		}
	case "fails": // the run is refused with an error, without crashing
		if crashed(r) {
			return fmt.Errorf("yot crashed")
		}
		if r.Code == 0 {
			return fmt.Errorf("exit status 0, want an error")
		}
		if strings.TrimSpace(r.Stderr) == "" {
			return fmt.Errorf("failed without saying anything on stderr")
		}
	case "nocrash":
		if crashed(r) {
			return fmt.Errorf("yot crashed")
		}
	case "norace":
		if strings.Contains(r.Stderr, "DATA RACE") || r.Code == 66 {
			return fmt.Errorf("the race detector reports a data race")
		}
	case "stderr": // stderr mentions Text
		if !strings.Contains(r.Stderr, a.Text) {
			return fmt.Errorf("stderr does not mention %q", a.Text)
		}
	case "files", "filestext", "filesflow": // exactly these files below Dir, with these documents
		got := below(r.FS, a.Dir)
		var want []string
		for k := range a.Files {
			want = append(want, k)
		}
		sort.Strings(want)
		if g := keysOf(got); strings.Join(g, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("files below %s\nwant %q\ngot  %q", a.Dir, want, g)
		}
		for _, k := range want {
			docs, err := ParseStream(got[k])
			if err != nil {
				return fmt.Errorf("output %s is not valid YAML: %w\n%s", k, err, clip(got[k]))
			}
			var g []string
			for _, d := range docs {
				switch a.Kind {
				case "filestext":
					g = append(g, CanonText(d))
				case "filesflow":
					g = append(g, canonFlow(d))
				default:
					g = append(g, Canon(d))
				}
			}
			if err := diffDocs(a.Files[k], g); err != nil {
				return fmt.Errorf("output %s: %w\n%s", k, err, clip(got[k]))
			}
		}
	case "stdout": // stdout is the listed files' documents, files in any order
		docs, err := ParseStream(r.Stdout)
		if err != nil {
			return fmt.Errorf("stdout is not valid YAML: %w", err)
		}
		var names []string
		for k := range a.Files {
			names = append(names, k)
		}
		sort.Strings(names)
		if !concat(CanonAll(docs), names, a.Files) {
			return fmt.Errorf("stdout is not the expected documents\ngot  %s\nwant (files in any order) %v", strings.Join(CanonAll(docs), "\n     "), a.Files)
		}
	case "sameout": // two runs leave byte-identical files below their directories
		x, y := below(r.FS, a.Dir), below(rs[a.Run2].FS, a.Dir2)
		return sameMap(x, y)
	case "samestdout":
		if r.Stdout != rs[a.Run2].Stdout {
			return fmt.Errorf("stdout differs from run %d\n--- %s", a.Run2, clip(rs[a.Run2].Stdout))
		}
	case "samecode":
		if (r.Code == 0) != (rs[a.Run2].Code == 0) {
			return fmt.Errorf("exit status %d and %d", r.Code, rs[a.Run2].Code)
		}
	case "confined": // inputs untouched; nothing new outside the listed directories
		b := openBox()
		for p, s := range c.Files {
			if inDirs(p, a.List) {
				continue
			}
			if g, ok := r.FS["/"+strings.TrimPrefix(p, "/")]; !ok || g != b.sub(s) {
				return fmt.Errorf("the source file %s was changed to %q", p, clip(g))
			}
		}
		for p := range r.FS {
			q := strings.TrimPrefix(p, "/")
			if _, ok := c.Files[q]; ok {
				continue
			}
			if _, ok := c.Links[q]; ok {
				continue
			}
			if !inDirs(q, a.List) {
				return fmt.Errorf("yot wrote %s, outside %v", p, a.List)
			}
		}
	case "listed": // stdout names exactly the files written below Dir, one per line
		var want []string
		for k := range below(r.FS, a.Dir) {
			want = append(want, k)
		}
		var got []string
		for _, l := range strings.Split(r.Stdout, "\n") {
			if l == "" {
				continue
			}
			rel := strings.TrimPrefix(l, openBox().sub(a.Text))
			rel = strings.TrimPrefix(rel, "/")
			got = append(got, rel)
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			return fmt.Errorf("stdout lists %q, the files are %q", got, want)
		}
	case "absent": // no file at Path
		if _, ok := r.FS[a.Path]; ok {
			return fmt.Errorf("%s exists", a.Path)
		}
	default:
		if f, ok := extraChecks[a.Kind]; ok {
			return f(c, a, rs)
		}
		panic("unknown assert " + a.Kind)
	}
	return nil
}

// extraChecks holds the expectations only one property needs.
var extraChecks = map[string]func(c *Case, a *Assert, rs []*Result) error{}

func inDirs(p string, dirs []string) bool {
	p = strings.TrimPrefix(p, "/")
	for _, d := range dirs {
		d = strings.Trim(d, "/")
		if strings.HasPrefix(p, d+"/") || p == d {
			return true
		}
	}
	return false
}

func sameMap(x, y map[string]string) error {
	a, b := keysOf(x), keysOf(y)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Errorf("different files\n%q\n%q", a, b)
	}
	for _, k := range a {
		if x[k] != y[k] {
			return fmt.Errorf("%s differs\n--- one\n%s\n--- other\n%s", k, clip(x[k]), clip(y[k]))
		}
	}
	return nil
}

// concat decides whether got is the concatenation of the blocks in some order.
func concat(got []string, names []string, blocks map[string][]string) bool {
	if len(names) == 0 {
		return len(got) == 0
	}
	tried := map[string]bool{}
	for i, n := range names {
		b := blocks[n]
		if len(b) > len(got) {
			continue
		}
		id := strings.Join(b, "\x00")
		if tried[id] {
			continue
		}
		tried[id] = true
		ok := true
		for j := range b {
			if got[j] != b[j] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		rest := append(append([]string{}, names[:i]...), names[i+1:]...)
		if concat(got[len(b):], rest, blocks) {
			return true
		}
	}
	return false
}

// JSON renders the case for a replay file.
func (c *Case) JSON() []byte {
	d, err := json.MarshalIndent(c, "", " ")
	must(err)
	return append(d, '\n')
}
