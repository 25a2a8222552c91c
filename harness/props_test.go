package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"testing"

	"pgregory.net/rapid"
)

// stats of one shard, written for the driver.
type stats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  map[string]int `json:"nontrivial"` // hash -> occurrences
	Labels      map[string]int `json:"labels"`
	Discarded   int            `json:"discarded"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
}

var st = stats{NonTrivial: map[string]int{}, Labels: map[string]int{}}

func outDir() string { return os.Getenv("VERIF_OUT") }

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func writeOut(name string, data []byte) {
	if outDir() == "" {
		return
	}
	if err := os.WriteFile(filepath.Join(outDir(), name), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func TestMain(m *testing.M) {
	code := m.Run()
	closeBox()
	d, _ := json.Marshal(st)
	writeOut("stats.json", d)
	os.Exit(code)
}

func (c *Case) hash() string {
	h := fnv.New64a()
	d, _ := json.Marshal(struct {
		F, L any
		R    []Run
	}{c.Files, c.Links, c.Runs})
	_, _ = h.Write(d)
	return fmt.Sprintf("%016x", h.Sum64())
}

func check(t *testing.T, id string, gen func(g *G) *Case) {
	rapid.Check(t, func(rt *rapid.T) {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case HarnessError:
				writeOut("error", []byte(r.Error()))
				fmt.Fprintln(os.Stderr, r.Error())
				closeBox()
				os.Exit(3)
			default:
				panic(r)
			}
		}()
		c := build(rt, id, gen)
		if c == nil {
			st.Discarded++
			rt.Skip("not judged")
		}
		if !st.Failed {
			st.Evaluations++
			for _, l := range uniq(c.Labels) {
				st.Labels[l]++
			}
			if c.NonTrivial {
				h := c.hash()
				st.NonTrivial[h]++
				if k := len(st.NonTrivial); len(st.Samples) < 3 && (k == 3 || k == 20 || k == 60) && st.NonTrivial[h] == 1 {
					st.Samples = append(st.Samples, string(c.JSON()))
				}
			}
		}
		if err := c.Eval(); err != nil {
			st.Failed = true
			writeOut("fail.json", c.JSON())
			writeOut("fail.txt", []byte(err.Error()))
			rt.Fatalf("%v", err)
		}
	})
}

func build(rt *rapid.T, id string, gen func(g *G) *Case) (c *Case) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case discard:
			c = nil
		default:
			panic(r)
		}
	}()
	defer func() { // a panic of a generator is a fault of the machinery
		if r := recover(); r != nil {
			switch r.(type) {
			case discard, HarnessError:
				panic(r)
			case runtime.Error, string:
				panic(HarnessError{fmt.Errorf("generator: %v\n%s", r, debug.Stack())})
			default: // rapid's own control flow
				panic(r)
			}
		}
	}()
	g := newG(rt)
	c = gen(g)
	c.labelIf(g.wild, "input in arbitrary syntax")
	c.Property = id
	return c
}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// TestReplay evaluates a saved case and nothing else.
func TestReplay(t *testing.T) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		t.Skip("VERIF_REPLAY is not set")
	}
	d, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var c Case
	if err := json.Unmarshal(d, &c); err != nil {
		t.Fatal(err)
	}
	if err := c.Eval(); err != nil {
		writeOut("fail.txt", []byte(err.Error()))
		t.Fatal(err)
	}
}
