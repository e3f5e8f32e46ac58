// C14: a pattern finds exactly the leftmost content that it describes.
package main

import (
	"fmt"

	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func verify(res patterns.Result, err error, m *lref.Match, content string) {
	if (err == nil) != (m != nil) || (err == nil) != (res != nil) {
		vlib.Failf("on %q: error %v, a match is expected: %v", content, err, m != nil)
	}
	if m == nil {
		return
	}
	d := res.Discoveries()
	if int(d.Index()) != m.Index || d.Content() != m.Content() || int(d.Amount()) != len(m.Content()) {
		vlib.Failf("on %q: found %q at %d (amount %d) instead of %q at %d", content, d.Content(), d.Index(), d.Amount(), m.Content(), m.Index)
	}
	all := d.All()
	if len(all) != len(m.Discs) {
		vlib.Failf("on %q: %d discoveries instead of %d", content, len(all), len(m.Discs))
	}
	for i, x := range m.Discs {
		c := all[i].Container()
		if all[i].Content() != x.Text || c.Name() != x.Name || c.IsReverse() != x.Rev || c.IsGroup() == x.Rev {
			vlib.Failf("on %q: discovery %d is %q of %q reverse=%v instead of %+v", content, i, all[i].Content(), c.Name(), c.IsReverse(), x)
		}
		if f, err := d.Find(x.Name); err != nil || f.Container().Name() != x.Name {
			vlib.Failf("on %q: discovery %q is not found by name", content, x.Name)
		}
	}
	if res.HasRemaining() != (m.Remaining != "") || res.Remaining() != m.Remaining {
		vlib.Failf("on %q: remaining %q instead of %q", content, res.Remaining(), m.Remaining)
	}
	if res.HasNext() != (m.Next != "") || (m.Next != "" && (res.Next().Group().Name() != "$"+m.Next || res.Next().IsReverse())) {
		vlib.Failf("on %q: next is wrong, expected %q", content, m.Next)
	}
	if in := res.Input(); in != content && in != content[m.Index:] {
		vlib.Failf("on %q: input is %q", content, in)
	}
	n := len(m.Content())
	for _, lo := range []int{0, n - 1, n, n + 1} {
		if lo < 0 {
			continue
		}
		if d.IsAmount(uint(lo)) != (lo == n) || d.IsAtLeast(uint(lo)) != (lo <= n) {
			vlib.Failf("on %q: IsAmount/IsAtLeast(%d) with amount %d", content, lo, n)
		}
		for _, hi := range []int{n - 1, n, n + 1} {
			if hi >= 0 && d.IsInRange(uint(lo), uint(hi)) != (lo <= n && n <= hi) {
				vlib.Failf("on %q: IsInRange(%d,%d) with amount %d", content, lo, hi, n)
			}
		}
	}
}

func main() {
	r := vlib.New("C14")
	r.Rule = "every pattern of up to 2 (3) choices over series of up to 2 groups with overlapping options x every content up to the length, against a reference matcher, for single groups, single patterns and pairs of patterns; non-trivial: a match that is partial, reversed, or not at the beginning"
	ad := patterns.NewAdapter()
	groupSets := [][]lref.Group{
		{{"G", []string{"a"}}, {"H", []string{"b"}}},
		{{"G", []string{"a", "ab"}}, {"H", []string{"b", "ba"}}},
		{{"G", []string{"ab", "a", "aab"}}, {"H", []string{"a", "c"}}},
		{{"G", []string{"bc", "b"}}, {"H", []string{"c", "cb", "ca"}}},
		{{"G", []string{"é", "b"}}, {"H", []string{`"`, "a"}}},
	}
	serieSets := [][]lref.Serie{
		{{"S", []string{"G"}}, {"T", []string{"H"}}},
		{{"S", []string{"G", "H"}}, {"T", []string{"H"}}},
		{{"S", []string{"G", "G"}}, {"T", []string{"H", "G"}}},
	}
	choices := []lref.Choice{{"S", false}, {"S", true}, {"T", false}, {"T", true}}
	bodies := [][]lref.Choice{}
	for n := 1; n <= 3; n++ {
		vlib.Product([]int{4, 4, 4}[:n], func(idx []int) {
			b := []lref.Choice{}
			for _, x := range idx {
				b = append(b, choices[x])
			}
			bodies = append(bodies, b)
		})
	}
	type job struct {
		gs []lref.Group
		ss []lref.Serie
		b  []lref.Choice
		id string
	}
	jobs := []job{}
	for gi, gs := range groupSets {
		for si, ss := range serieSets {
			for bi, b := range bodies {
				jobs = append(jobs, job{gs, ss, b, fmt.Sprintf("%d:%d:%d", gi, si, bi)})
			}
		}
	}
	contents := vlib.Strings([]string{"a", "b", "c"}, 0, r.Pick(6, 8))
	special := vlib.Strings([]string{"a", "b", "é", `"`}, 0, r.Pick(4, 6))
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		g := lref.Grammar{Groups: j.gs, Series: j.ss, Patterns: []lref.Pattern{{"p", j.b}, {"q", []lref.Choice{{"T", false}, {"S", false}}}}}
		ps, err := ad.ToPatterns(g.PatternsText(lref.Styles[1]))
		if err != nil {
			r.Violate("grammar:"+j.id, err.Error())
			return
		}
		p, _ := ps.Find("p")
		list := contents
		if j.gs[0].Opts[0] == "é" {
			list = special
		}
		for _, c := range list {
			c := c
			id := j.id + ":" + c
			r.State(id)
			r.Case(id, func() {
				m := g.Find("p", c)
				res, err := ad.FromPatternToResult(p, c)
				verify(res, err, m, c)
				res, err = ad.FromPatternsToResult(ps, c)
				verify(res, err, g.FindAny([]string{"p", "q"}, c), c)
				r.Step(2)
				if m != nil {
					if m.Index > 0 || m.Next != "" {
						r.Nontrivial()
					}
					r.Outcome(fmt.Sprint(m.Index, len(m.Discs), m.Next, len(m.Remaining)))
				}
			})
		}
	})
	long(r, groupSets, serieSets, choices)
	// single groups
	optLists := [][]string{}
	vlib.Words([]string{"a", "b", "ab", "ba", "aab", "bb"}, 1, r.Pick(3, 4), func(w []string) { optLists = append(optLists, w) })
	gc := vlib.Strings([]string{"a", "b", "c"}, 0, 5)
	r.Parallel(len(optLists), func(i int) {
		group, err := patterns.NewGroupBuilder().Create().WithName("G").WithList(optLists[i]).Now()
		if err != nil {
			r.Violate(fmt.Sprintf("group:%v", optLists[i]), err.Error())
			return
		}
		g := lref.Grammar{Groups: []lref.Group{{"G", optLists[i]}}}
		for _, c := range gc {
			c := c
			id := fmt.Sprintf("group:%v:%s", optLists[i], c)
			r.State(id)
			r.Case(id, func() {
				var m *lref.Match
				for k := 0; k < len(c) && m == nil; k++ {
					if n := g.GroupLen("G", c[k:]); n > 0 {
						m = &lref.Match{Index: k, Discs: []lref.Disc{{c[k : k+n], "G", false}}, Remaining: c[k+n:]}
					}
				}
				if int(group.Content().Contains(c)) != g.GroupLen("G", c) {
					vlib.Failf("Contains(%q) = %d", c, group.Content().Contains(c))
				}
				res, err := ad.FromGroupToResult(group, c)
				r.Step(2)
				verify(res, err, m, c)
			})
		}
	})
	r.Finish()
}
