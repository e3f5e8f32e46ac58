package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// long: contents of which the part before or after the match is long.
func long(r *vlib.R, groupSets [][]lref.Group, serieSets [][]lref.Serie, choices []lref.Choice) {
	ad := patterns.NewAdapter()
	type job struct {
		g  lref.Grammar
		id string
	}
	jobs := []job{}
	for gi, gs := range groupSets {
		for si, ss := range serieSets {
			for n := 1; n <= 2; n++ {
				vlib.Product([]int{4, 4}[:n], func(idx []int) {
					b := []lref.Choice{}
					for _, x := range idx {
						b = append(b, choices[x])
					}
					jobs = append(jobs, job{lref.Grammar{Groups: gs, Series: ss, Patterns: []lref.Pattern{{"p", b}, {"q", []lref.Choice{{"T", false}, {"S", false}}}}}, fmt.Sprintf("%d:%d:%v", gi, si, idx)})
				})
			}
		}
	}
	// patterns, series and groups of which there are many parts
	for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33} {
		for _, rev := range []bool{false, true} {
			b := []lref.Choice{}
			for i := 0; i < n; i++ {
				b = append(b, lref.Choice{[]string{"S", "T"}[i%2], rev && i%3 == 2})
			}
			for k := 0; k < 3; k++ {
				jobs = append(jobs, job{lref.Grammar{Groups: groupSets[0], Series: serieSets[k], Patterns: []lref.Pattern{{"p", b}, {"q", b[1:]}}}, fmt.Sprintf("choices %d:%v:%d", n, rev, k)})
			}
		}
		names, opts := []string{}, []string{}
		for i := 0; i < n; i++ {
			names = append(names, []string{"G", "H"}[i%2])
			opts = append(opts, strings.Repeat("a", i+1)+"b")
		}
		for _, rev := range []bool{false, true} {
			jobs = append(jobs,
				job{lref.Grammar{Groups: groupSets[0], Series: []lref.Serie{{"S", names}, {"T", []string{"H"}}}, Patterns: []lref.Pattern{{"p", []lref.Choice{{"S", rev}, {"T", false}}}, {"q", []lref.Choice{{"T", rev}}}}}, fmt.Sprintf("groups %d:%v", n, rev)},
				job{lref.Grammar{Groups: []lref.Group{{"G", opts}, {"H", []string{opts[n-1]}}}, Series: []lref.Serie{{"S", []string{"G"}}, {"T", []string{"H"}}}, Patterns: []lref.Pattern{{"p", []lref.Choice{{"S", rev}, {"T", false}}}, {"q", []lref.Choice{{"T", rev}}}}}, fmt.Sprintf("options %d:%v", n, rev)})
		}
	}
	sizes := []int{}
	for _, n := range vlib.Sizes(r.Pick(1025, 4097)) {
		sizes = append(sizes, n)
	}
	texts := []string{}
	for _, x := range []string{"", "a", "ab", "ba", "aab", "bc"} {
		for _, n := range sizes {
			texts = append(texts, strings.Repeat("c", n)+x, strings.Repeat("z", n)+x+"ca", x+strings.Repeat("c", n)+"b", x+strings.Repeat("zé", n/3)+"ab")
		}
	}
	for n := 1; n <= 40; n++ {
		texts = append(texts, strings.Repeat("ab", n), strings.Repeat("ab", n)+"c", strings.Repeat("a", n)+"b", strings.Repeat("ca", n), "c"+strings.Repeat("ba", n))
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		ps, err := ad.ToPatterns(j.g.PatternsText(lref.Styles[1]))
		if err != nil {
			r.Violate("grammar:"+j.id, err.Error())
			return
		}
		p, _ := ps.Find("p")
		for k, c := range texts {
			if r.Expired("long contents") {
				return
			}
			c := c
			if len(c) > 300 && !r.Thorough() && (i+k)%4 != 0 {
				continue
			}
			id := fmt.Sprintf("long:%s:%d", j.id, k)
			r.State(id)
			r.Case(id, func() {
				m := j.g.Find("p", c)
				res, err := ad.FromPatternToResult(p, c)
				verify(res, err, m, c)
				res, err = ad.FromPatternsToResult(ps, c)
				verify(res, err, j.g.FindAny([]string{"p", "q"}, c), c)
				r.Step(2)
				if m != nil {
					r.Nontrivial()
					r.Outcome(fmt.Sprint(m.Index, len(m.Discs), m.Next, len(m.Remaining)))
				}
			})
		}
	})
}
