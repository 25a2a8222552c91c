package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// Seg is one step of a query.
type Seg struct {
	T    string   `json:"t"` // child, children, index, slice, range, wild, rec, filter, cmp, key, keys
	Name string   `json:"n,omitempty"`
	Form string   `json:"f,omitempty"` // dot, sq, dq
	I    int      `json:"i,omitempty"`
	J    int      `json:"j,omitempty"`
	Val  string   `json:"v,omitempty"`
	Many []string `json:"m,omitempty"`
}

// Q is a JSONPath query with its own reference evaluator.
type Q struct {
	Root bool  `json:"r,omitempty"`
	Segs []Seg `json:"s,omitempty"`
}

// bareName are the names that need no quotes, in the query that finds them.
var bareName = regexp.MustCompile(`^[^-.\[\]() &|=!<>~$*@?'"\\{\s][^.\[\]() &|=!<>~\s\\]*$`)

var dotName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_/-]*$`)

func quoteName(name, q string) string {
	name = strings.ReplaceAll(name, `\`, `\\`)
	return q + strings.ReplaceAll(name, q, `\`+q) + q
}

func (q Q) String() string {
	var b strings.Builder
	if q.Root {
		b.WriteString("$")
	}
	for i, s := range q.Segs {
		switch s.T {
		case "child":
			switch {
			case s.Form == "sq":
				b.WriteString("[" + quoteName(s.Name, "'") + "]")
			case s.Form == "dq" || !bareName.MatchString(s.Name):
				b.WriteString("[" + quoteName(s.Name, `"`) + "]")
			default:
				if i > 0 || q.Root {
					b.WriteString(".")
				}
				b.WriteString(s.Name)
			}
		case "children":
			var ns []string
			for _, n := range s.Many {
				ns = append(ns, quoteName(n, "'"))
			}
			b.WriteString("[" + strings.Join(ns, ",") + "]")
		case "index":
			fmt.Fprintf(&b, "[%d]", s.I)
		case "slice":
			fmt.Fprintf(&b, "[%d:%d]", s.I, s.J)
		case "range":
			b.WriteString("[" + s.Val + "]")
		case "cmp":
			fmt.Fprintf(&b, "[?(@.%s%s%d)]", s.Name, s.Form, s.I)
		case "keys":
			b.WriteString("[*]~")
		case "wild":
			if s.Form == "dot" && (i > 0 || q.Root) {
				b.WriteString(".*")
			} else {
				b.WriteString("[*]")
			}
		case "rec":
			b.WriteString(".." + s.Name)
		case "filter":
			if s.Val == "" {
				fmt.Fprintf(&b, "[?(@.%s)]", s.Name)
			} else {
				fmt.Fprintf(&b, "[?(@.%s=='%s')]", s.Name, s.Val)
			}
		case "key":
			b.WriteString("~")
		}
	}
	if b.Len() == 0 {
		return "$"
	}
	return b.String()
}

// pre lists n and every node below it in document order (keys excluded: they
// are scalars and never match a child step).
func pre(n *N, f func(*N)) {
	f(n)
	for _, p := range n.Pairs {
		pre(p.V, f)
	}
	for _, it := range n.Items {
		pre(it, f)
	}
}

// Find evaluates q against the document root.
func (q Q) Find(root *N) []*N {
	if root == nil {
		return nil
	}
	return find(root, q.Segs)
}

func find(n *N, segs []Seg) []*N {
	if len(segs) == 0 {
		return []*N{n}
	}
	s, rest := segs[0], segs[1:]
	var out []*N
	then := func(c *N) { out = append(out, find(c, rest)...) }
	switch s.T {
	case "child":
		if n.Kind == "m" {
			for _, p := range n.Pairs {
				if p.K.Val == s.Name {
					if len(rest) == 1 && rest[0].T == "key" {
						return []*N{p.K}
					}
					then(p.V)
					break
				}
			}
		}
	case "children":
		if n.Kind == "m" {
			for _, name := range s.Many {
				for _, p := range n.Pairs {
					if p.K.Val == name {
						then(p.V)
					}
				}
			}
		}
	case "index":
		if n.Kind == "s" {
			i := s.I
			if i < 0 {
				i += len(n.Items)
			}
			if i >= 0 && i < len(n.Items) {
				then(n.Items[i])
			}
		}
	case "slice":
		if n.Kind == "s" {
			for i := s.I; i < s.J && i < len(n.Items); i++ {
				then(n.Items[i])
			}
		}
	case "range":
		if n.Kind == "s" {
			for _, i := range sliceIndices(s.Val, len(n.Items)) {
				then(n.Items[i])
			}
		}
	case "cmp":
		if n.Kind == "s" {
			for _, it := range n.Items {
				if cmpOK(it.Get(s.Name), s.Form, s.I) {
					then(it)
				}
			}
		} else if cmpOK(n.Get(s.Name), s.Form, s.I) {
			then(n)
		}
	case "keys":
		for _, p := range n.Pairs {
			then(p.K)
		}
	case "wild":
		for _, p := range n.Pairs {
			then(p.V)
		}
		for _, it := range n.Items {
			then(it)
		}
	case "rec":
		pre(n, func(d *N) {
			if d.Kind == "m" {
				for _, p := range d.Pairs {
					if p.K.Val == s.Name {
						then(p.V)
						break
					}
				}
			}
		})
	case "filter":
		ok := func(c *N) bool {
			v := c.Get(s.Name)
			if v == nil {
				return false
			}
			if v.Kind == "a" && s.Val != "" {
				panic(discard{"comparison of an alias"})
			}
			return s.Val == "" || v.Kind == "v" && v.Tag == "!!str" && v.Val == s.Val
		}
		if n.Kind == "s" {
			for _, it := range n.Items {
				if ok(it) {
					then(it)
				}
			}
		} else if ok(n) {
			then(n)
		}
	}
	return out
}

// sliceIndices evaluates a Python-style slice with a positive step.
func sliceIndices(text string, length int) []int {
	parts := strings.Split(text, ":")
	num := func(i, def int) int {
		if i >= len(parts) || parts[i] == "" {
			return def
		}
		k, err := strconv.Atoi(parts[i])
		if err != nil {
			panic(err)
		}
		if k < 0 && i < 2 {
			k += length
		}
		return k
	}
	from, to, step := num(0, 0), num(1, length), num(2, 1)
	var out []int
	for i := from; i < to; i += step {
		if i >= 0 && i < length {
			out = append(out, i)
		}
	}
	return out
}

// cmpOK compares small integers; how other types compare is not judged.
func cmpOK(v *N, op string, k int) bool {
	if v == nil {
		return false
	}
	if v.Kind != "v" || v.Tag != "!!int" || !smallInt.MatchString(v.Val) {
		panic(discard{"comparison of other types"})
	}
	x, _ := strconv.Atoi(v.Val)
	switch op {
	case ">":
		return x > k
	case ">=":
		return x >= k
	case "<":
		return x < k
	case "<=":
		return x <= k
	case "==":
		return x == k
	}
	panic("op " + op)
}

// FindAll is the union of the results of a query list.
func FindAll(qs []Q, root *N) []*N {
	var out []*N
	for _, q := range qs {
		out = append(out, q.Find(root)...)
	}
	return out
}

// disjoint is true when no node occurs twice and none contains another.
func disjoint(ns []*N) bool {
	seen := map[*N]bool{}
	for _, n := range ns {
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	for _, n := range ns {
		bad := false
		n.Walk(func(d *N) {
			if d != n && seen[d] {
				bad = true
			}
		})
		if bad {
			return false
		}
	}
	return true
}
