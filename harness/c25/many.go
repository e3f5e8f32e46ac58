package main

import (
	"fmt"

	"github.com/steve-care-software/steve/zz_verif/lref"
)

func two(i int) string { return string(rune('a'+i/26)) + string(rune('a'+i%26)) }

// changed lists a text and the ones next to it, but the empty one, of which there is no content.
func changed(s string) []string {
	out := []string{}
	for _, x := range lref.Changed(s, "c") {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

// many includes, references, replacements, and levels of includes.
func many(deep bool) []fcase {
	out := []fcase{}
	sizes := []int{3, 4, 5, 8, 9, 12}
	if deep {
		sizes = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20}
	}
	one, opt := lref.One, lref.Opt
	for _, n := range sizes {
		full := ""
		all, optional, alternatives := []lref.Elem{}, []lref.Elem{e("C", one)}, [][]lref.Elem{}
		each := []string{"c", "cc", "aaa"}
		for i := 0; i < n; i++ {
			full += two(i)
			loc := "loc" + two(i)
			all = append(all, e(loc, one))
			optional = append(optional, e(loc, opt))
			alternatives = append(alternatives, line(e(loc, lref.Plus)))
			each = append(each, two(i), two(i)+two(i), two(i)+two((i+1)%n), "c"+two(i))
		}
		texts := append(changed(full), each...)
		bodies := [][][]lref.Elem{lines(all), lines(optional), alternatives}
		add := func(what string, f *file) {
			out = append(out, fcase{"many: " + what, f, nil, texts})
		}
		for b, body := range bodies {
			// n includes; in each the rule A is another constant and tok goes over num
			f := &file{Rules: lref.Constants, Tokens: []lref.Token{{Name: "root", Must: body}}}
			for i := 0; i < n; i++ {
				x := two(i)
				inc := &file{Path: "inc" + x, Rules: []lref.Rule{{Name: "A", Const: x}}, Tokens: []lref.Token{{Name: "tok", Must: lines(line(e("num", one)))}, {Name: "num", Must: lines(line(e("A", one)))}}}
				f.Includes = append(f.Includes, include{"inc" + x, inc})
				f.Links = append(f.Links, link{"loc" + x, "inc" + x, "tok", false})
			}
			add(fmt.Sprintf("includes, %d", b), f)

			// n references to one include
			inc := &file{Path: "inc"}
			f = &file{Rules: lref.Constants, Tokens: []lref.Token{{Name: "root", Must: body}}, Includes: []include{{"inc", inc}}}
			for i := 0; i < n; i++ {
				x := two(i)
				inc.Rules = append(inc.Rules, lref.Rule{Name: "R" + fmt.Sprintf("%c%c", 'A'+i/26, 'A'+i%26), Const: x})
				inc.Tokens = append(inc.Tokens, lref.Token{Name: "tok" + x, Must: lines(line(e(inc.Rules[i].Name, one)))})
				f.Links = append(f.Links, link{"loc" + x, "inc", "tok" + x, false})
			}
			add(fmt.Sprintf("references, %d", b), f)

			// n replacements in one include
			start := &file{Path: "inc", Rules: lref.Constants, Tokens: []lref.Token{{Name: "start", Must: nil}}}
			f = &file{Rules: append([]lref.Rule{}, inc.Rules...), Includes: []include{{"inc", start}}, Links: []link{{"loc", "inc", "start", false}}}
			f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("loc", one)))}}
			for i := 0; i < n; i++ {
				x := two(i)
				start.Tokens = append(start.Tokens, lref.Token{Name: "loc" + x, Must: lines(line(e("C", lref.N(2))))})
				if i%3 != 2 {
					f.Tokens = append(f.Tokens, lref.Token{Name: "mine" + x, Must: lines(line(e(inc.Rules[i].Name, one)))})
					f.Links = append(f.Links, link{"mine" + x, "inc", "loc" + x, true})
				}
			}
			start.Tokens[0].Must = body
			g := fcase{fmt.Sprintf("many: replacements, %d", b), f, nil, texts}
			for i := 2; i < n; i += 3 {
				// the ones that are not replaced read cc
				g.scripts = append(append([]string{}, texts...), "cccc", "ccc", "cc")
				s := ""
				for j := 0; j < n; j++ {
					if j%3 == 2 {
						s += "cc"
					} else {
						s += two(j)
					}
				}
				g.scripts = append(g.scripts, changed(s)...)
				break
			}
			out = append(out, g)
		}
		// n levels; at each the rule A is another constant
		if n > 9 && !deep {
			continue
		}
		for shape := 0; shape < 2; shape++ {
			var below *file
			for i := n - 1; i >= 0; i-- {
				f := &file{Path: "level" + two(i), Rules: []lref.Rule{{Name: "A", Const: two(i)}}}
				l := line(e("A", one))
				if below != nil {
					f.Includes = []include{{"next", below}}
					f.Links = []link{{"further", "next", "tok" + two(i+1), false}}
					l = append(l, e("further"+two(i), []lref.Card{one, opt}[shape]))
				}
				f.Tokens = []lref.Token{{Name: "tok" + two(i), Must: lines(l)}}
				below = f
			}
			add(fmt.Sprintf("levels, %d", shape), below)
		}
	}
	return out
}
