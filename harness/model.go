// Package harness holds the generators, the reference model and the executors
// of the property checks for yot.  Everything in it treats yot as a black box:
// the program is built from /repo and only its command line is used.
package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// N is a node of the reference model: 'm' mapping, 's' sequence, 'v' scalar,
// 'a' alias (Val holds the anchor name).
type N struct {
	Kind  string `json:"k"`
	Tag   string `json:"t,omitempty"`
	Val   string `json:"v,omitempty"`
	Pairs []*P   `json:"p,omitempty"`
	Items []*N   `json:"i,omitempty"`

	// presentation
	Style  string `json:"s,omitempty"` // scalars: "", "sq", "dq", "lit"; collections: "", "flow"
	Head   string `json:"h,omitempty"`
	Line   string `json:"l,omitempty"`
	Foot   string `json:"f,omitempty"`
	Anchor string `json:"a,omitempty"`
	Target *N     `json:"-"`
}

// P is one entry of a mapping.
type P struct {
	K *N `json:"k"`
	V *N `json:"v"`
}

func S(v string) *N   { return &N{Kind: "v", Tag: "!!str", Val: v} }
func I(v int) *N      { return &N{Kind: "v", Tag: "!!int", Val: strconv.Itoa(v)} }
func B(v bool) *N     { return &N{Kind: "v", Tag: "!!bool", Val: strconv.FormatBool(v)} }
func Null() *N        { return &N{Kind: "v", Tag: "!!null", Val: "null"} }
func Seq(it ...*N) *N { return &N{Kind: "s", Items: it} }
func Map(kv ...any) *N {
	m := &N{Kind: "m"}
	for i := 0; i+1 < len(kv); i += 2 {
		var v *N
		switch x := kv[i+1].(type) {
		case *N:
			v = x
		case string:
			v = S(x)
		case int:
			v = I(x)
		case bool:
			v = B(x)
		}
		m.Pairs = append(m.Pairs, &P{S(kv[i].(string)), v})
	}
	return m
}

func (n *N) Set(k string, v *N) *N {
	n.Pairs = append(n.Pairs, &P{S(k), v})
	return n
}

func (n *N) Get(k string) *N {
	if n == nil || n.Kind != "m" {
		return nil
	}
	for _, p := range n.Pairs {
		if p.K.Val == k {
			return p.V
		}
	}
	return nil
}

// Copy is a deep copy, presentation included.
func (n *N) Copy() *N {
	if n == nil {
		return nil
	}
	c := *n
	c.Pairs, c.Items = nil, nil
	for _, p := range n.Pairs {
		c.Pairs = append(c.Pairs, &P{p.K.Copy(), p.V.Copy()})
	}
	for _, it := range n.Items {
		c.Items = append(c.Items, it.Copy())
	}
	return &c
}

// Graph is a deep copy whose aliases point into the copy.
func (n *N) Graph() *N {
	c := n.Copy()
	m := map[*N]*N{}
	var pair func(a, b *N)
	pair = func(a, b *N) {
		m[a] = b
		for i := range a.Pairs {
			pair(a.Pairs[i].K, b.Pairs[i].K)
			pair(a.Pairs[i].V, b.Pairs[i].V)
		}
		for i := range a.Items {
			pair(a.Items[i], b.Items[i])
		}
	}
	pair(n, c)
	c.walkAll(func(x *N) {
		if t, ok := m[x.Target]; ok && x.Kind == "a" {
			x.Target = t
		}
	})
	return c
}

// expand turns an alias into a copy of what it stands for.
func (n *N) expand() {
	if n.Kind == "a" && n.Target != nil {
		n.become(bare(n.Target.Copy()))
	}
}

// real is what an alias stands for, and any other node itself.
func (n *N) real() *N {
	if n.Kind == "a" && n.Target != nil {
		return n.Target
	}
	return n
}

// bare drops comments and anchors.
func bare(n *N) *N {
	n.walkAll(func(x *N) { x.Head, x.Line, x.Foot, x.Anchor = "", "", "", "" })
	return n
}

// flat is a copy with every alias replaced by what it stands for.
func (n *N) flat() *N {
	c := bare(n.Copy())
	c.walkAll(func(x *N) {
		if x.Kind == "a" {
			*x = *x.Target.flat()
		}
	})
	return c
}

// become overwrites n's data with v's (n keeps its identity).
func (n *N) become(v *N) {
	c := v.Copy()
	n.Kind, n.Tag, n.Val, n.Pairs, n.Items, n.Style = c.Kind, c.Tag, c.Val, c.Pairs, c.Items, c.Style
	n.comments(v)
}

// comments overrides n's comments with those v has.
func (n *N) comments(v *N) {
	if v.Head != "" {
		n.Head = v.Head
	}
	if v.Line != "" {
		n.Line = v.Line
	}
	if v.Foot != "" {
		n.Foot = v.Foot
	}
}

func (n *N) Size() int {
	s := 1
	for _, p := range n.Pairs {
		s += 1 + p.V.Size()
	}
	for _, it := range n.Items {
		s += it.Size()
	}
	return s
}

func (n *N) Depth() int {
	d := 0
	for _, p := range n.Pairs {
		if x := p.V.Depth() + 1; x > d {
			d = x
		}
	}
	for _, it := range n.Items {
		if x := it.Depth() + 1; x > d {
			d = x
		}
	}
	return d
}

// Walk visits n and all nodes below it, keys included when keys is true.
func (n *N) Walk(f func(*N)) {
	f(n)
	for _, p := range n.Pairs {
		p.V.Walk(f)
	}
	for _, it := range n.Items {
		it.Walk(f)
	}
}

// walkAll is Walk with the keys of mappings.
func (n *N) walkAll(f func(*N)) {
	f(n)
	for _, p := range n.Pairs {
		p.K.walkAll(f)
		p.V.walkAll(f)
	}
	for _, it := range n.Items {
		it.walkAll(f)
	}
}

// Canon is the canonical text of the data of n: kinds, key order, scalar tags
// and scalar text.  Comments and styles do not appear in it.
func Canon(n *N) string {
	var b strings.Builder
	canon(&b, n, 0)
	return b.String()
}

func canon(b *strings.Builder, n *N, depth int) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	if depth > 200 {
		b.WriteString("<deep>")
		return
	}
	switch n.Kind {
	case "m":
		b.WriteString(n.Tag)
		b.WriteByte('{')
		for i, p := range n.Pairs {
			if i > 0 {
				b.WriteString(", ")
			}
			canon(b, p.K, depth+1)
			b.WriteString(": ")
			canon(b, p.V, depth+1)
		}
		b.WriteByte('}')
	case "s":
		b.WriteString(n.Tag)
		b.WriteByte('[')
		for i, it := range n.Items {
			if i > 0 {
				b.WriteString(", ")
			}
			canon(b, it, depth+1)
		}
		b.WriteByte(']')
	case "a":
		if n.Target != nil {
			canon(b, n.Target, depth+1)
		} else {
			b.WriteString("*" + n.Val)
		}
	default:
		if n.Tag == "!!null" {
			b.WriteString("null")
			return
		}
		b.WriteString(strings.TrimPrefix(n.Tag, "!!"))
		b.WriteByte(' ')
		b.WriteString(strconv.Quote(n.Val))
	}
}

func CanonAll(ns []*N) []string {
	r := make([]string, len(ns))
	for i, n := range ns {
		r[i] = Canon(n)
	}
	return r
}

// CanonText is Canon with the scalar tags left out: structure and text only.
func CanonText(n *N) string {
	c := n.Graph()
	strip(c)
	return Canon(c)
}

// canonFlow is Canon with timestamps taken for strings: the YAML library quotes
// those with colons inside flow collections.
func canonFlow(n *N) string {
	c := n.Graph()
	var rec func(*N)
	rec = func(x *N) {
		if x.Kind == "v" && x.Tag == "!!timestamp" {
			x.Tag = "!!str"
		}
		for _, p := range x.Pairs {
			rec(p.K)
			rec(p.V)
		}
		for _, it := range x.Items {
			rec(it)
		}
	}
	rec(c)
	return Canon(c)
}

func strip(n *N) {
	if n.Kind == "v" {
		n.Tag = "!!x"
	}
	for _, p := range n.Pairs {
		strip(p.K)
		strip(p.V)
	}
	for _, it := range n.Items {
		strip(it)
	}
}

// ParseStream reads every YAML document of src with the oracle's parser.
func ParseStream(src string) (docs []*N, err error) {
	raw, err := ParseRaw(src)
	if err != nil {
		return nil, err
	}
	for _, y := range raw {
		n, err := conv(y, map[*yaml.Node]*N{})
		if err != nil {
			return nil, err
		}
		docs = append(docs, n)
	}
	return docs, nil
}

// ParseRaw returns the document nodes of src.
func ParseRaw(src string) (docs []*yaml.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parser panic: %v", r)
		}
	}()
	dec := yaml.NewDecoder(bytes.NewReader([]byte(src)))
	for {
		y := new(yaml.Node)
		if err := dec.Decode(y); errors.Is(err, io.EOF) {
			return docs, nil
		} else if err != nil {
			return docs, err
		}
		docs = append(docs, y)
	}
}

// ownTag is the tag of a collection that is no common mapping or sequence.
func ownTag(y *yaml.Node) string {
	switch t := y.ShortTag(); t {
	case "!!map", "!!seq":
		return ""
	default:
		return t
	}
}

func conv(y *yaml.Node, seen map[*yaml.Node]*N) (*N, error) {
	n := &N{Head: y.HeadComment, Line: y.LineComment, Foot: y.FootComment, Anchor: y.Anchor}
	seen[y] = n
	switch y.Kind {
	case yaml.DocumentNode:
		if len(y.Content) == 0 {
			return Null(), nil
		}
		c, err := conv(y.Content[0], seen)
		if err != nil {
			return nil, err
		}
		return c, nil
	case yaml.MappingNode:
		n.Kind = "m"
		n.Tag = ownTag(y)
		dup := map[string]bool{}
		for i := 0; i+1 < len(y.Content); i += 2 {
			k, err := conv(y.Content[i], seen)
			if err != nil {
				return nil, err
			}
			v, err := conv(y.Content[i+1], seen)
			if err != nil {
				return nil, err
			}
			if k.Kind == "v" {
				id := k.Tag + "|" + k.Val
				if dup[id] {
					return nil, fmt.Errorf("duplicate key %q on line %d", k.Val, y.Content[i].Line)
				}
				dup[id] = true
			}
			n.Pairs = append(n.Pairs, &P{k, v})
		}
	case yaml.SequenceNode:
		n.Kind = "s"
		n.Tag = ownTag(y)
		for _, c := range y.Content {
			v, err := conv(c, seen)
			if err != nil {
				return nil, err
			}
			n.Items = append(n.Items, v)
		}
	case yaml.AliasNode:
		n.Kind, n.Val = "a", y.Value
		n.Target = seen[y.Alias]
	default:
		n.Kind, n.Tag, n.Val = "v", y.ShortTag(), y.Value
	}
	return n, nil
}
