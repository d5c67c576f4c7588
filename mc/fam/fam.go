// Package fam holds the bounded spaces of schema files.
package fam

import (
	"fmt"
	"strings"

	"mc/eng"
)

// B builds a family.
type B struct {
	f    *eng.Family
	seen map[string]bool
}

func New(name string, prelude ...string) *B {
	return &B{f: &eng.Family{Name: name, Prelude: prelude, Tags: map[string]bool{}}, seen: map[string]bool{}}
}

// Add adds a variant; the same text is added once.
func (b *B) Add(id, sql string) *B {
	if b.seen[sql] {
		return b
	}
	b.seen[sql] = true
	b.f.Variants = append(b.f.Variants, eng.Variant{ID: id, SQL: sql})
	return b
}

func (b *B) Tag(t ...string) *B {
	for _, x := range t {
		b.f.Tags[x] = true
	}
	return b
}

func (b *B) F() *eng.Family { return b.f }

// Perms returns all arrangements of all subsets of xs with at least min elements.
func Perms(xs []string, min int) [][]string {
	var out [][]string
	var rec func(cur []string, used map[string]bool)
	rec = func(cur []string, used map[string]bool) {
		if len(cur) >= min {
			out = append(out, append([]string{}, cur...))
		}
		for _, x := range xs {
			if !used[x] {
				used[x] = true
				rec(append(cur, x), used)
				delete(used, x)
			}
		}
	}
	rec(nil, map[string]bool{})
	return out
}

// Subsets returns all subsets in order.
func Subsets(xs []string) [][]string {
	var out [][]string
	for m := 0; m < 1<<uint(len(xs)); m++ {
		var s []string
		for i, x := range xs {
			if m>>uint(i)&1 == 1 {
				s = append(s, x)
			}
		}
		out = append(out, s)
	}
	return out
}

// Prod calls f with every choice of one index per dimension.
func Prod(dims []int, f func(ix []int)) {
	ix := make([]int, len(dims))
	for {
		f(ix)
		k := len(dims) - 1
		for k >= 0 {
			ix[k]++
			if ix[k] < dims[k] {
				break
			}
			ix[k] = 0
			k--
		}
		if k < 0 {
			return
		}
	}
}

// Tbl renders a CREATE TABLE from non-empty parts.
func Tbl(name string, parts ...string) string {
	var p []string
	for _, x := range parts {
		if x != "" {
			p = append(p, "  "+x)
		}
	}
	return "CREATE TABLE " + name + " (\n" + strings.Join(p, ",\n") + "\n);\n"
}

func join(xs []string) string {
	if len(xs) == 0 {
		return "none"
	}
	return strings.Join(xs, ".")
}

func id(ix []int) string {
	var p []string
	for _, i := range ix {
		p = append(p, fmt.Sprint(i))
	}
	return strings.Join(p, ".")
}
