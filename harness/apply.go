package harness

import (
	"errors"
	"math/big"
	"strconv"
	"strings"
)

// The reference semantics of the overlay actions, written from the
// documentation (docs/sections) on model trees.

var (
	errRejected    = errors.New("rejected")
	errUnspecified = errors.New("unspecified")
)

// Cond is one documentQuery condition.
type Cond struct {
	Query []Q
	Value *N
}

// Overlay is one overlay of an instructions file.
type Overlay struct {
	Name       string
	Query      []Q
	QueryList  bool
	Action     string // "" = key omitted
	Value      *N
	DocQuery   [][]Cond
	DocIndex   []int
	OnMissing  string
	InjectPath []Q
	InjectList bool
	Marked     bool // the value has format markers
	Shout      int  // how actions are spelled: as they are, Like This, or LIKE THIS
}

// shout spells the name of an action.
func (o *Overlay) shout(s string) *N {
	switch {
	case o.Shout == 1 && s != "":
		s = strings.ToUpper(s[:1]) + s[1:]
	case o.Shout == 2:
		s = strings.ToUpper(s)
	}
	return S(s)
}

// Doc is a document being processed.
type Doc struct {
	Root *N
	Gone bool
}

func mergeInto(o, n *N) {
	o.expand()
	switch n.Kind {
	case "m":
		if o.Kind != "m" && len(n.Pairs) > 0 {
			*o = N{Kind: "m", Head: o.Head, Line: o.Line, Foot: o.Foot, Anchor: o.Anchor}
		}
		for _, np := range n.Pairs {
			found := false
			for _, op := range o.Pairs {
				if op.K.real().Val == np.K.Val {
					op.K.comments(np.K)
					mergeInto(op.V, np.V)
					found = true
					break
				}
			}
			if !found {
				o.Pairs = append(o.Pairs, &P{np.K.Copy(), np.V.Copy()})
			}
		}
	case "s":
		if o.Kind != "s" {
			*o = N{Kind: "s", Head: o.Head, Line: o.Line, Foot: o.Foot, Anchor: o.Anchor}
		}
		for _, it := range n.Items {
			o.Items = append(o.Items, it.Copy())
		}
	default:
		o.become(n)
	}
}

// deleteNode removes x (a value, an item or a key node) from the document.
func (d *Doc) deleteNode(x *N) {
	if d.Gone {
		return
	}
	if d.Root == x {
		d.Gone = true
		d.Root = nil
		return
	}
	removeFrom(d.Root, x)
}

func removeFrom(p, x *N) bool {
	for i, e := range p.Pairs {
		if e.V == x || e.K == x {
			p.Pairs = append(append([]*P{}, p.Pairs[:i]...), p.Pairs[i+1:]...)
			return true
		}
		if removeFrom(e.V, x) {
			return true
		}
	}
	for i, e := range p.Items {
		if e == x {
			p.Items = append(append([]*N{}, p.Items[:i]...), p.Items[i+1:]...)
			return true
		}
		if removeFrom(e, x) {
			return true
		}
	}
	return false
}

// combine adds integers, joins strings and conjoins booleans.  Collections,
// floats, nulls and timestamps are refused; what a number or a truth value
// does to a text (and the other way around) is not specified.
func combine(o, n *N) error {
	o.expand()
	defer func() {
		o.comments(n)
	}()
	if o.Kind != "v" || n.Kind != "v" || o.Tag == "!!float" || o.Tag == "!!null" || o.Tag == "!!timestamp" || o.Tag == "!!binary" {
		return errRejected
	}
	if o.Tag != n.Tag {
		if o.Tag != "!!str" && n.Tag == "!!str" && n.Val == "not a number" {
			return errRejected
		}
		return errUnspecified
	}
	switch o.Tag {
	case "!!int":
		a, ok1 := new(big.Int).SetString(o.Val, 0)
		b, ok2 := new(big.Int).SetString(n.Val, 0)
		if !ok1 || !ok2 {
			return errUnspecified
		}
		o.Val = a.Add(a, b).String()
	case "!!bool":
		o.Val = strconv.FormatBool(strings.EqualFold(o.Val, "true") && strings.EqualFold(n.Val, "true"))
	case "!!str":
		o.Val += n.Val
	default:
		return errUnspecified
	}
	return nil
}

// qualifies evaluates the documentQuery groups.
func (o *Overlay) qualifies(d *Doc) bool {
	if len(o.DocQuery) == 0 {
		return true
	}
	for _, g := range o.DocQuery {
		ok := true
		for _, c := range g {
			var res []*N
			if !d.Gone {
				res = FindAll(c.Query, d.Root)
			}
			if len(res) == 0 {
				ok = false
				break
			}
			if c.Value != nil {
				for _, r := range res {
					if Canon(r) != Canon(c.Value) {
						ok = false
					}
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// value is the value of the overlay with its aliases resolved.
func (o *Overlay) value() *N {
	tangled := false
	if o.Value != nil {
		spellOut(o.Value, false)
		o.Value.walkAll(func(n *N) { tangled = tangled || n.Kind == "a" })
	}
	if tangled {
		return o.Value.flat()
	}
	return o.Value
}

// spellOut gives the nulls a text that the instructions cannot write as
// nothing.
func spellOut(n *N, flow bool) {
	flow = flow || n.Style == "flow"
	if n.Kind == "v" && n.Tag == "!!null" && n.Val == "" && n.Anchor != "" {
		n.Val = "null"
	}
	for _, p := range n.Pairs {
		spellOut(p.K, flow)
		spellOut(p.V, flow)
	}
	for _, x := range n.Items {
		if flow && blank(x) {
			x.Val = "null"
		}
		spellOut(x, flow)
	}
}

func (o *Overlay) indexOK(i int) bool {
	if o.DocIndex == nil {
		return true
	}
	for _, x := range o.DocIndex {
		if x == i {
			return true
		}
	}
	return false
}

// inject places v at path q (child steps only), making missing mappings.
func inject(d *Doc, q Q, v *N) { injectAt(d.Root, q.Segs, v) }

func injectAt(cur *N, segs []Seg, v *N) {
	if len(segs) == 0 {
		cur.become(v)
		return
	}
	if cur.Kind != "m" {
		*cur = N{Kind: "m"}
	}
	for _, name := range segs[0].names() {
		nx := cur.Get(name)
		if nx == nil {
			nx = Null()
			cur.Pairs = append(cur.Pairs, &P{S(name), nx})
		}
		injectAt(nx, segs[1:], v)
	}
}

func (s Seg) names() []string {
	if s.T == "children" {
		return s.Many
	}
	return []string{s.Name}
}

// injectable is true when q is a plain path of key names.
func injectable(q Q) bool {
	for _, s := range q.Segs {
		if s.T != "child" && s.T != "children" {
			return false
		}
	}
	return len(q.Segs) > 0
}

func allInjectable(qs []Q) bool {
	for _, q := range qs {
		if !injectable(q) {
			return false
		}
	}
	return len(qs) > 0
}

// Apply runs one overlay on one document; def is the default onMissing action.
func (o *Overlay) Apply(d *Doc, def string) error {
	if !o.qualifies(d) || d.Gone {
		return nil
	}
	res := FindAll(o.Query, d.Root)
	val := o.value()
	if len(res) == 0 {
		act := o.OnMissing
		if act == "" || act == "default" {
			act = def
		}
		if act != "inject" || o.Action == "delete" {
			return nil
		}
		paths := o.InjectPath
		if allInjectable(o.Query) {
			paths = o.Query
		}
		for _, q := range paths {
			inject(d, q, val)
		}
		return nil
	}
	for _, r := range res {
		switch o.Action {
		case "delete":
			d.deleteNode(r)
		case "replace":
			r.become(val)
		case "combine":
			if err := combine(r, val); err != nil {
				return err
			}
		default:
			if o.Marked {
				mergeMarked(r, val, "")
			} else {
				mergeInto(r, val)
			}
		}
	}
	return nil
}

// DocEntry is an item of the documents key.
type DocEntry struct {
	Path     int
	Overlays []*Overlay
}

// Entry is an item of yamlFiles.
type Entry struct {
	Name       string
	Path       string
	OutputPath string
	Overlays   []*Overlay
	Documents  []*DocEntry
}

// Instr is an instructions file.
type Instr struct {
	Common []*Overlay
	Files  []*Entry
}

// Process runs the overlays that apply to one file, in documented order.
func Process(docs []*N, common, own []*Overlay, entries []*DocEntry, def string) ([]*N, error) {
	var out []*N
	for i, src := range docs {
		d := &Doc{Root: src.Graph()}
		for _, lst := range [][]*Overlay{common, own} {
			for _, o := range lst {
				if o.indexOK(i) {
					if err := o.Apply(d, def); err != nil {
						return nil, err
					}
				}
			}
		}
		for _, e := range entries {
			if e.Path == i {
				for _, o := range e.Overlays {
					if err := o.Apply(d, def); err != nil {
						return nil, err
					}
				}
			}
		}
		if !d.Gone {
			out = append(out, d.Root)
		}
	}
	return out, nil
}

// ---- rendering of instructions ----

func queriesNode(qs []Q, list bool) *N {
	if len(qs) == 1 && !list {
		return qstr(qs[0].String())
	}
	s := &N{Kind: "s"}
	for _, q := range qs {
		s.Items = append(s.Items, qstr(q.String()))
	}
	return s
}

func qstr(s string) *N { return &N{Kind: "v", Tag: "!!str", Val: s, Style: "dq"} }

// Node renders the overlay as a YAML tree.
func (o *Overlay) Node() *N {
	m := &N{Kind: "m"}
	if o.Name != "" {
		m.Set("name", S(o.Name))
	}
	m.Set("query", queriesNode(o.Query, o.QueryList))
	if o.Value != nil {
		spellOut(o.Value, false)
		m.Set("value", o.Value.Copy())
	}
	if o.Action != "" {
		m.Set("action", o.shout(o.Action))
	}
	if o.OnMissing != "" || o.InjectPath != nil {
		om := &N{Kind: "m"}
		if o.OnMissing != "" {
			om.Set("action", o.shout(o.OnMissing))
		}
		if o.InjectPath != nil {
			om.Set("injectPath", queriesNode(o.InjectPath, o.InjectList))
		}
		m.Set("onMissing", om)
	}
	if o.DocQuery != nil {
		dq := &N{Kind: "s"}
		for _, g := range o.DocQuery {
			cs := &N{Kind: "s"}
			for _, c := range g {
				cm := Map("query", queriesNode(c.Query, false))
				if c.Value != nil {
					cm.Set("value", c.Value.Copy())
				}
				cs.Items = append(cs.Items, cm)
			}
			if g == nil {
				// a group without conditions
				dq.Items = append(dq.Items, &N{Kind: "m"})
				continue
			}
			dq.Items = append(dq.Items, Map("conditions", cs))
		}
		m.Set("documentQuery", dq)
	}
	if o.DocIndex != nil {
		ix := &N{Kind: "s", Style: "flow"}
		for _, i := range o.DocIndex {
			ix.Items = append(ix.Items, I(i))
		}
		m.Set("documentIndex", ix)
	}
	return m
}

func overlaysNode(os []*Overlay) *N {
	s := &N{Kind: "s"}
	for _, o := range os {
		s.Items = append(s.Items, o.Node())
	}
	return s
}

// Node renders the instructions as a YAML tree.
func (in *Instr) Node() *N {
	m := &N{Kind: "m"}
	if len(in.Common) > 0 {
		m.Set("commonOverlays", overlaysNode(in.Common))
	}
	fs := &N{Kind: "s"}
	for _, f := range in.Files {
		e := &N{Kind: "m"}
		if f.Name != "" {
			e.Set("name", S(f.Name))
		}
		e.Set("path", &N{Kind: "v", Tag: "!!str", Val: f.Path, Style: "dq"})
		if f.OutputPath != "" {
			e.Set("outputPath", S(f.OutputPath))
		}
		if len(f.Overlays) > 0 {
			e.Set("overlays", overlaysNode(f.Overlays))
		}
		if len(f.Documents) > 0 {
			ds := &N{Kind: "s"}
			for _, d := range f.Documents {
				ds.Items = append(ds.Items, Map("path", d.Path, "overlays", overlaysNode(d.Overlays)))
			}
			e.Set("documents", ds)
		}
		fs.Items = append(fs.Items, e)
	}
	if len(fs.Items) > 0 {
		m.Set("yamlFiles", fs)
	}
	return m
}

// Text renders the instructions file.
func (in *Instr) Text() string {
	n := in.Node()
	s := "---\n" + Emit(n, 2)
	return s
}
