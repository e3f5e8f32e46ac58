package main

import (
	"fmt"
	"os"
	"strings"

	apaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// replaced: an application that is given tokens to read in place of others, whatever the grammar.
func replaced(r *vlib.R) {
	inc := included()
	others := []*file{}
	for _, t := range [][]lref.Token{
		{{Name: "new", Must: lines(line(e("C", lref.One)))}},
		{{Name: "new", Must: lines(line(e("C", lref.One), e("new", lref.Opt)))}},
		{{Name: "new", Must: lines(line(e("part", lref.Plus)))}, {Name: "part", Must: lines(line(e("C", lref.One)), line(e("A", lref.One), e("A", lref.One)))}},
		{{Name: "new", Must: lines(line(e("C", lref.Plus))), Not: lines(line(e("C", lref.N(2)), e("part", lref.One)))}, {Name: "part", Must: lines(line(e("C", lref.One)))}},
	} {
		others = append(others, &file{Path: "new", Rules: swapped, Tokens: t}, &file{Path: "new", Rules: lref.Constants, Tokens: t})
	}
	scripts := lref.Words([]string{"a", "b", "c"}, 1, r.Pick(3, 4))
	type rcase struct {
		name string
		f    *file
		x    *file
		repl []string
	}
	all := []rcase{}
	add := func(c rcase) { all = append(all, c) }
	for ii, i := range inc {
		for xi, x := range others {
			if (ii+xi)%r.Pick(4, 1) != 0 {
				continue
			}
			// the grammar itself, first its token that is not replaced
			f := *i
			f.Path = ""
			for k, t := range f.Tokens {
				if t.Name == "tok" && k == 1 {
					f.Tokens = []lref.Token{f.Tokens[1], f.Tokens[0]}
				}
			}
			add(rcase{fmt.Sprintf("plain:%d:%d", ii, xi), &f, x, []string{"num"}})
			// through an include, with and without a replacement of its own
			g := &file{Rules: lref.Constants, Includes: []include{{"inc", i}}, Links: []link{{"loc", "inc", "tok", false}},
				Tokens: []lref.Token{{Name: "root", Must: lines(line(e("loc", lref.One), e("own", lref.Opt)))}, {Name: "own", Must: lines(line(e("C", lref.One)))}}}
			switch (ii / 4) % 3 {
			case 0:
				add(rcase{fmt.Sprintf("include:%d:%d", ii, xi), g, x, []string{"num"}})
			case 1:
				add(rcase{fmt.Sprintf("both:%d:%d", ii, xi), g, x, []string{"num", "own"}})
			case 2:
				g.Links = append(g.Links, link{"own", "inc", "num", true})
				add(rcase{fmt.Sprintf("again:%d:%d", ii, xi), g, x, []string{"num", "elsewhere"}})
			}
		}
	}
	r.Parallel(len(all), func(k int) {
		if r.Expired("replaced") {
			return
		}
		c := all[k]
		st := styles[k%len(styles)]
		m := &merger{}
		xs := m.file(c.x, nil)
		repl := map[string]string{}
		for _, n := range c.repl {
			repl[n] = "new" + xs.mark
		}
		s := m.file(c.f, repl)
		g, root := m.out, c.f.Tokens[0].Name+s.mark
		if ambiguous(g) {
			r.Section("application with replacements: ambiguous", 1)
			return
		}
		id := "replaced:" + c.name
		r.State(id)
		r.Case(id, func() {
			dir := temp()
			defer os.RemoveAll(dir)
			c.f.write(dir, st)
			path, err := app(dir).Path(pathResource(c.x, st))
			if err != nil {
				vlib.Failf("%s\npath: %s", describe(c.x), err)
			}
			given := map[string]apaths.Path{}
			for _, n := range c.repl {
				given[n] = path
			}
			a := app(dir, given)
			accepted := 0
			for _, s := range scripts {
				want, ok := refOutcome(g, root, s)
				if !ok {
					continue
				}
				ast, err := a.AST(single(c.f, nil, st), ldrive.Content(s))
				got := outcome(ast, err)
				r.Step(1)
				r.Outcome(want)
				if strings.HasPrefix(want, "mistake") && strings.HasPrefix(got, "mistake") {
					continue
				}
				accepted++
				if got != want {
					vlib.Failf("%s\nwith %v replaced by\n%s\ntext %q:\n got  %s\n want %s", describe(c.f), c.repl, describe(c.x), s, got, want)
				}
			}
			if accepted > 0 {
				r.Nontrivial()
			}
			if len(given) != len(c.repl) {
				vlib.Failf("%s\nthe replacements given to the application are now %d", describe(c.f), len(given))
			}
			testsOf(r, fcase{f: c.f, scripts: scripts}, a, g, root, st)
			for n, p := range given {
				if p != path {
					vlib.Failf("%s\nthe replacement of %s given to the application is now %s", describe(c.f), n, p.Element().Name())
				}
			}
		})
		r.Section("application with replacements", 1)
	})
}
