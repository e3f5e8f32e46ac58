package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func unmark(n *lref.Node) *lref.Node {
	out := &lref.Node{Token: shown(n.Token), Text: n.Text, Line: n.Line}
	for _, i := range n.Items {
		x := lref.Item{Name: shown(i.Name), Rule: i.Rule, Text: i.Text}
		for _, y := range i.Nodes {
			x.Nodes = append(x.Nodes, unmark(y))
		}
		out.Items = append(out.Items, x)
	}
	return out
}

// testsOf: the tree and the tests link the includes as the parse does.
func testsOf(r *vlib.R, c fcase, a lexers.Application, g lref.Grammar, root string, st style) {
	tests := []string{}
	verdicts := ""
	trees := 0
	kinds := map[bool]int{}
	for i, s := range c.scripts {
		p := &lref.Parser{G: g}
		n, _ := p.Parse(root, s)
		if p.LeftRecursive || p.Partial || p.Exhausted || strings.TrimSpace(s) != s {
			continue
		}
		if (n != nil && kinds[true] < 12) || (n == nil && i%3 == 0 && kinds[false] < 8) {
			kinds[n != nil]++
			first := n
			if len(tests) == 0 {
				// the spaces before the first test belong to it
				first, _ = p.Parse(root, st.Tokens.Pad+s)
			}
			tests = append(tests, s)
			verdicts += fmt.Sprint(first != nil, " ")
		}
		if n == nil || trees >= 3 {
			continue
		}
		trees++
		tree, mistake, err := a.Root(single(c.f, c.channels, st), ldrive.Content(s))
		r.Step(1)
		if err != nil || mistake != nil {
			vlib.Failf("%s\ntext %q: no tree (%v, %v)", describe(c.f), s, mistake, err)
		}
		if got, want := ldrive.GotRoot(tree), ldrive.WantRoot(unmark(n)); got != want {
			vlib.Failf("%s\ntree of %q:\n got  %s\n want %s", describe(c.f), s, got, want)
		}
	}
	f := *c.f
	f.Tokens = append([]lref.Token{}, c.f.Tokens...)
	f.Tokens[0].Suite = tests
	suites, err := a.Tests(multiple(&f, c.channels, st))
	r.Step(1)
	if err != nil {
		vlib.Failf("%s\ntests: %s", describe(&f), err)
	}
	got := ""
	for _, x := range suites {
		if x.Name() != f.Tokens[0].Name {
			vlib.Failf("%s\ntests of %q", describe(&f), x.Name())
		}
		for _, l := range x.Lines() {
			got += fmt.Sprint(l.IsSuccess(), " ")
		}
	}
	if got != verdicts {
		vlib.Failf("%s\ntests:\n got  %s\n want %s", describe(&f), got, verdicts)
	}
	p, err := a.Path(pathResource(c.f, st))
	r.Step(1)
	if err != nil || p.Element().Name() != c.f.Tokens[0].Name {
		vlib.Failf("%s\npath: %v %v", describe(c.f), p, err)
	}
}

// histories of requests to one application, over grammars that replace the same names.
func histories(r *vlib.R, all []fcase) {
	inc := func() *file {
		return &file{Path: "inc", Rules: lref.Constants, Tokens: []lref.Token{
			{Name: "tok", Must: lines(line(e("num", lref.One), e("tok", lref.Opt)), line(e("A", lref.One)))}, {Name: "num", Must: lines(line(e("B", lref.One)))}}}
	}
	main := func(repl bool, own ...[]lref.Elem) *file {
		f := &file{Rules: lref.Constants, Includes: []include{{"inc", inc()}}, Links: []link{{"loc", "inc", "tok", false}},
			Tokens: []lref.Token{{Name: "root", Must: lines(line(e("loc", lref.Plus)))}, {Name: "own", Must: own}}}
		if repl {
			f.Links = append(f.Links, link{"own", "inc", "num", true})
		}
		return f
	}
	local := &file{Rules: lref.Constants, Tokens: []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("tok", lref.Opt)))},
		{Name: "num", Must: lines(line(e("B", lref.Plus)))}, {Name: "tok", Must: lines(line(e("C", lref.One)))}}}
	broken := main(true, line(e("C", lref.One)))
	broken.Links = append(broken.Links, link{"own", "inc", "nobody", false})
	grammars := []*file{main(true, line(e("C", lref.One))), main(true, line(e("A", lref.One), e("C", lref.One))), main(false, line(e("C", lref.One))), local, broken}
	type request struct {
		name string
		do   func(a lexers.Application) string
	}
	reqs := []request{}
	for i, f := range grammars {
		f := f
		for _, s := range []string{"cb", "ba", "bc", "acb"} {
			s := s
			reqs = append(reqs, request{fmt.Sprintf("%d %q", i, s), func(a lexers.Application) string {
				return outcome(a.AST(single(f, nil, styles[0]), ldrive.Content(s)))
			}})
		}
		suite := *f
		suite.Tokens = append([]lref.Token{}, f.Tokens...)
		suite.Tokens[0].Suite = []string{"cb", "ba", "acb", "bbc"}
		reqs = append(reqs, request{fmt.Sprintf("tests %d", i), func(a lexers.Application) string {
			x, err := a.Tests(multiple(&suite, nil, styles[0]))
			if err != nil {
				return "error: " + err.Error()
			}
			out := ""
			for _, y := range x {
				for _, l := range y.Lines() {
					out += fmt.Sprint(l.IsSuccess(), " ")
				}
			}
			return out
		}})
		reqs = append(reqs, request{fmt.Sprintf("path %d", i), func(a lexers.Application) string {
			p, err := a.Path(pathResource(f, styles[0]))
			if err != nil {
				return "error: " + err.Error()
			}
			return p.Element().Name()
		}})
	}
	dir := temp()
	defer os.RemoveAll(dir)
	grammars[0].write(dir, styles[0])
	want := make([]string, len(reqs))
	if !r.Case("histories: alone", func() {
		for i, f := range grammars[:4] {
			g, root, _ := merged(f, nil)
			for j, s := range []string{"cb", "ba", "bc", "acb"} {
				w, _ := refOutcome(g, root, s)
				x := i*6 + j
				got := reqs[x].do(app(dir))
				if got != w && !(strings.HasPrefix(w, "mistake") && strings.HasPrefix(got, "mistake")) {
					vlib.Failf("%s\ntext %q:\n got  %s\n want %s", describe(f), s, got, w)
				}
			}
		}
		for i, q := range reqs {
			want[i] = strings.Replace(q.do(app(dir)), dir, "", -1)
			r.Sample("%s -> %s", q.name, want[i])
		}
	}) {
		return
	}
	depth := r.Pick(3, 4)
	dims := []int{}
	for i := 2; i < depth; i++ {
		dims = append(dims, len(reqs))
	}
	r.Parallel(len(reqs)*len(reqs), func(k int) {
		if r.Expired("histories") {
			return
		}
		vlib.Product(dims, func(rest []int) {
			seq := append([]int{k / len(reqs), k % len(reqs)}, rest...)
			if !r.Thorough() && (seq[0]+seq[1]+seq[2])%4 != 0 {
				return
			}
			id := fmt.Sprintf("history:%v", seq)
			r.State(id)
			r.Case(id, func() {
				a := app(dir)
				done := []string{}
				for _, x := range seq {
					done = append(done, reqs[x].name)
					got := strings.Replace(reqs[x].do(a), dir, "", -1)
					r.Step(1)
					if got != want[x] {
						vlib.Failf("after %s:\n got  %s\n want %s", strings.Join(done, ", "), got, want[x])
					}
				}
			})
			r.Section("histories", 1)
		})
	})
}
