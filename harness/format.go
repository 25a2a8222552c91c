package harness

import (
	"regexp"
	"strings"
)

// The reference semantics of format markers.

// orig is what the markers of one node stand for.
type orig struct{ v, k, l, h, f string }

func origOf(o *N, key string) orig {
	t := func(s string) string { return strings.TrimPrefix(s, "#") }
	return orig{o.Val, key, t(o.Line), t(o.Head), t(o.Foot)}
}

// expand replaces every marker of s once, applying the sed command behind it.
func expand(s string, o orig) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '%' || i+1 == len(s) || strings.IndexByte("vklhf", s[i+1]) < 0 {
			b.WriteByte(s[i])
			continue
		}
		x := map[byte]string{'v': o.v, 'k': o.k, 'l': o.l, 'h': o.h, 'f': o.f}[s[i+1]]
		i++
		if i+1 < len(s) && s[i+1] == '{' {
			if j := strings.IndexByte(s[i+1:], '}'); j >= 0 {
				x = sedModel(s[i+2:i+1+j], x)
				i += 1 + j
			}
		}
		b.WriteString(x)
	}
	return b.String()
}

// badCommand is none of sed, the value is used as it is.
const badCommand = "s/a"

// sedModel knows the substitutions and transliterations the generator makes.
func sedModel(cmd, in string) string {
	if cmd == "" || in == "" { // no line, no command runs
		return in
	}
	if cmd == badCommand {
		return in
	}
	if strings.Contains(in, "\n") {
		panic(discard{"sed on several lines"})
	}
	out := in
	for _, c := range strings.Split(cmd, ";") {
		sep := c[1:2]
		parts := strings.Split(c[2:], sep)
		switch c[0] {
		case 's':
			re := regexp.MustCompile(parts[0])
			n := 1
			if parts[2] == "g" {
				n = -1
			}
			var b strings.Builder
			last := 0
			for _, m := range re.FindAllStringIndex(out, n) {
				b.WriteString(out[last:m[0]])
				b.WriteString(parts[1])
				last = m[1]
			}
			b.WriteString(out[last:])
			out = b.String()
		case 'y':
			from, to := []rune(parts[0]), []rune(parts[1])
			out = strings.Map(func(r rune) rune {
				for i, f := range from {
					if r == f {
						return to[i]
					}
				}
				return r
			}, out)
		default:
			panic("sed " + cmd)
		}
	}
	return out
}

// vanish is a node of an overlay value added where there is no original.
func vanish(n *N) *N {
	c := n.Copy()
	var rec func(*N)
	rec = func(x *N) {
		for _, s := range []*string{&x.Val, &x.Head, &x.Line, &x.Foot} {
			if hasMarker(*s) {
				*s = expand(*s, orig{})
			}
		}
		for _, p := range x.Pairs {
			rec(p.K)
			rec(p.V)
		}
		for _, it := range x.Items {
			rec(it)
		}
	}
	rec(c)
	return c
}

func (n *N) marked() bool {
	m := false
	n.Walk(func(x *N) {
		m = m || hasMarker(x.Val) || hasMarker(x.Line)
		for _, p := range x.Pairs {
			m = m || hasMarker(p.K.Val) || hasMarker(p.K.Head)
		}
	})
	return m
}

// headed gives key n the comment above key by.
func (n *N) headed(by *N, was orig) {
	if by.Head == "" {
		return
	}
	if strings.Contains(was.v, "\n") && strings.Contains(by.Head, "%v") {
		panic(discard{"comment of several lines"})
	}
	n.Head = expand(by.Head, was)
}

// mergeMarked merges a value with markers into o, found under key.
func mergeMarked(o, n *N, key string) {
	switch n.Kind {
	case "m":
		if o.Kind != "m" {
			panic(discard{"mapping with markers over something else"})
		}
		for _, np := range n.Pairs {
			if hasMarker(np.K.Val) {
				if len(o.Pairs) == 0 {
					panic(discard{"marker key on an empty mapping"})
				}
				for _, op := range o.Pairs {
					if op.V.Kind != "v" && (np.V.Kind == "v" || strings.Contains(np.K.Val+np.K.Head, "%v")) {
						panic(discard{"marker on a collection"})
					}
					was, val := origOf(op.K, op.K.Val), op.V.Val
					mergeMarked(op.V, np.V, op.K.Val)
					was.v = val
					op.K.headed(np.K, was)
					if k := expand(np.K.Val, was); k != op.K.Val {
						op.K.Val, op.K.Tag = k, np.K.Tag
					}
				}
				seen := map[string]bool{}
				for _, op := range o.Pairs {
					if seen[op.K.Val] {
						panic(discard{"keys become the same"})
					}
					seen[op.K.Val] = true
				}
				continue
			}
			found := false
			for _, op := range o.Pairs {
				if op.K.Val == np.K.Val {
					if op.V.Kind != "v" && strings.Contains(np.K.Head, "%v") {
						panic(discard{"marker on a collection"})
					}
					was := origOf(op.K, op.K.Val)
					was.v = op.V.Val
					op.K.headed(np.K, was)
					mergeMarked(op.V, np.V, op.K.Val)
					found = true
					break
				}
			}
			if !found {
				o.Pairs = append(o.Pairs, &P{vanish(np.K), vanish(np.V)})
			}
		}
	case "s":
		if o.Kind != "s" {
			panic(discard{"list with markers over something else"})
		}
		for _, it := range n.Items {
			o.Items = append(o.Items, vanish(it))
		}
	default:
		if o.Kind != "v" && (hasMarker(n.Val) || hasMarker(n.Line)) {
			panic(discard{"marker on a collection"})
		}
		if key == "" && (strings.Contains(n.Val, "%k") || strings.Contains(n.Line, "%k")) {
			panic(discard{"key marker without a mapping"})
		}
		was := origOf(o, key)
		line := n.Line
		if line != "" {
			line = expand(line, was)
			if strings.Contains(line, "\n") {
				panic(discard{"comment of several lines"})
			}
		}
		val := expand(n.Val, was)
		if n.Tag != "!!str" && hasMarker(n.Val) && o.Tag != n.Tag {
			panic(discard{"forced type does not fit"})
		}
		o.become(&N{Kind: "v", Tag: n.Tag, Val: val})
		if line != "" {
			o.Line = line
		}
	}
}
