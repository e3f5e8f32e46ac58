package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	"github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func linkText(l links.Link) string {
	p := l.Include().Paths()
	out := fmt.Sprintf("%s<-%s.%s(%s;%s", l.LocalToken(), l.Include().Name(), l.ReferenceToken(), p.Rules(), p.Tokens())
	if p.HasChannels() {
		out += ";" + p.Channels()
	}
	return out + ")"
}

func linksText(has bool, get func() links.Links) string {
	if !has {
		return "none"
	}
	out := []string{}
	list := get()
	for _, l := range list.All() {
		t := linkText(l)
		x, err := list.FetchByLocalToken(l.LocalToken())
		if err != nil || linkText(x) != t {
			vlib.Failf("%s is not found by its local token: %v %v", t, x, err)
		}
		x, err = list.FetchByReferenceToken(l.Include().Name(), l.ReferenceToken())
		if err != nil || linkText(x) != t {
			vlib.Failf("%s is not found by its reference token: %v %v", t, x, err)
		}
		out = append(out, t)
	}
	for _, n := range []string{"nobody", ""} {
		if x, err := list.FetchByLocalToken(n); err == nil {
			vlib.Failf("the local token %q is found: %v", n, x)
		}
		if x, err := list.FetchByReferenceToken(n, n); err == nil {
			vlib.Failf("the reference token %q is found: %v", n, x)
		}
		if x, err := list.FetchByReferenceToken(list.All()[0].Include().Name(), n); err == nil {
			vlib.Failf("the reference token %q is found: %v", n, x)
		}
	}
	return strings.Join(out, " ")
}

func refsText(x references.References, err error) string {
	if err != nil {
		if x != nil {
			vlib.Failf("references with the error %s", err)
		}
		return "refused"
	}
	return linksText(x.HasReferences(), x.References) + " / " + linksText(x.HasReplacements(), x.Replacements)
}

// names that look like the keywords
var names = []string{"inc", "a", "includes", "references", "replacements", "aReplace", "reinclude", "preference", "zZ"}
var pathSets = [][]string{{"r", "t"}, {"./my/rules.alex", "./my/tokens.alex", "./my/channels.alex"}, {"é x", "a,b|c"}, {"include", "reference", "replace"}}

type directives struct {
	includes []struct {
		name  string
		paths []string
	}
	links []link
}

func (d directives) text(gap, end string, order int) string {
	inc, ref := []string{}, []string{}
	for _, i := range d.includes {
		inc = append(inc, "include"+gap+i.name+gap+`"`+strings.Join(i.paths, ";")+`"`)
	}
	for _, l := range d.links {
		ref = append(ref, l.text(gap))
	}
	all := append(inc, ref...)
	if order == 1 {
		all = append(ref, inc...)
	}
	return strings.Join(all, end) + end
}

func (d directives) want() string {
	part := func(repl bool) string {
		out := []string{}
		for _, l := range d.links {
			if l.Repl != repl {
				continue
			}
			for _, i := range d.includes {
				if i.name == l.Inc {
					out = append(out, fmt.Sprintf("%s<-%s.%s(%s)", l.Local, l.Inc, l.Token, strings.Join(i.paths, ";")))
				}
			}
		}
		if len(out) == 0 {
			return "none"
		}
		return strings.Join(out, " ")
	}
	return part(false) + " / " + part(true)
}

func reading(r *vlib.R) {
	ad := func() references.Adapter { return references.NewAdapter() }
	check := func(id, text, want string) {
		r.State(id)
		r.Case(id, func() {
			got := refsText(ad().ToReferences(text))
			r.Step(1)
			r.Outcome(got)
			if got != want {
				vlib.Failf("%q:\n got  %s\n want %s", text, got, want)
			}
			if want != "none / none" && want != "refused" {
				r.Nontrivial()
			}
		})
		r.Section("directives", 1)
	}
	tokens := "root : loc | A b+ ; b : A --- : A{2} +++ : reference a###include b \"c\"###replace x.y z ; "
	n := 0
	stride := r.Pick(3, 1)
	for i1, n1 := range names {
		for i2, n2 := range names {
			for _, local := range names {
				for shape := 0; shape < 7; shape++ {
					n++
					if n%stride != 0 || n1 == n2 {
						continue
					}
					d := directives{}
					add := func(name string, paths []string) {
						d.includes = append(d.includes, struct {
							name  string
							paths []string
						}{name, paths})
					}
					p1, p2 := pathSets[i1%4], pathSets[(i2+shape)%4]
					tok := names[(i1+i2)%len(names)]
					add(n1, p1)
					switch shape {
					case 0:
						d.links = []link{{local, n1, n2, false}}
					case 1:
						d.links = []link{{local, n1, n2, true}}
					case 2:
						add(n2, p2)
						d.links = []link{{local, n1, n2, false}, {local + "x", n2, n1, false}}
					case 3:
						add(n2, p2)
						d.links = []link{{local, n1, n2, true}, {local + "x", n2, n1, true}}
					case 4:
						add(n2, p2)
						d.links = []link{{local, n1, n2, true}, {tok, n2, n1, false}}
					case 5:
						add(n2, p2)
						d.links = []link{{local, n2, tok, false}, {n2, n1, tok, true}, {local + "z", n2, local, true}, {tok + "q", n1, n1, false}}
					case 6:
						d.includes = nil
					}
					st := n % 12
					gap := []string{" ", "\t \n", "\r\n"}[st%3]
					end := []string{"\n", "\n\n\t"}[st/3%2]
					text := d.text(gap, end, st/6)
					switch n % 3 {
					case 0:
						text += tokens
					case 1:
						text = tokens + text
					}
					check(fmt.Sprintf("read:%s,%s,%s:%d", n1, n2, local, shape), text, d.want())
				}
			}
		}
	}
	// refused
	for _, x := range []struct{ name, text string }{
		{"one path", `include inc "r" reference loc inc.tok `}, {"no path", `include inc "" `}, {"four paths", `include inc "r;t;c;d" `},
		{"no rules", `include inc ";t" `}, {"no tokens", `include inc "r;" `}, {"only separators", `include inc ";;" `},
		{"unknown include of a reference", `include inc "r;t" reference loc other.tok `}, {"unknown include of a replacement", `include inc "r;t" replace other.tok loc `},
		{"no include", `reference loc inc.tok `}, {"no include to replace", `replace inc.tok loc `},
		{"a longer word is no include", `preinclude inc "r;t" reference loc inc.tok `}, {"a longer word is no include to replace", `preinclude inc "r;t" replace inc.tok loc `},
		{"the second include has one path", `include inc "r;t" include other "r" `},
	} {
		check("refused:"+x.name, x.text, "refused")
	}
	// nothing crashes
	frags := []string{"include ", "reference ", "replace ", "inc", ".", "tok ", `"`, ";", "a ", "\n"}
	depth := r.Pick(5, 6)
	r.Parallel(len(frags)*len(frags), func(k int) {
		if r.Expired("fragments") {
			return
		}
		vlib.Words(frags, 0, depth-2, func(w []string) {
			text := frags[k/len(frags)] + frags[k%len(frags)] + strings.Join(w, "")
			r.Case("fragments:"+text, func() {
				x, err := ad().ToReferences(text)
				r.Step(1)
				if (x == nil) == (err == nil) {
					vlib.Failf("%q: %v and %v", text, x, err)
				}
			})
			r.Section("fragments", 1)
		})
	})
}

// what cannot be linked is refused
func refusals(r *vlib.R) {
	main := func(inc string) *file {
		return &file{Rules: lref.Constants, Tokens: []lref.Token{{Name: "root", Must: lines(line(e("loc", lref.One)))}, {Name: "own", Must: lines(line(e("C", lref.One)))}},
			Includes: []include{{"inc", &file{Path: inc}}}, Links: []link{{"loc", "inc", "tok", false}}}
	}
	good := "tok : A num ; num : B ; "
	goodRules := `A:"a";B:"b";C:"c";`
	type refusal struct {
		name string
		f    *file
		fs   map[string]string
		ok   bool
	}
	both := func(rules, tokens string) map[string]string {
		return map[string]string{"rules/inc.rules": rules, "tokens/inc.tokens": tokens}
	}
	nobody := main("inc")
	nobody.Links = append(nobody.Links, link{"nobody", "inc", "num", true})
	cycle := func(n int) map[string]string {
		out := map[string]string{}
		for i := 0; i < n; i++ {
			here, next := fmt.Sprintf("inc%d", i), fmt.Sprintf("inc%d", (i+1)%n)
			if i == 0 {
				here = "inc"
			}
			if (i+1)%n == 0 {
				next = "inc"
			}
			out["rules/"+here+".rules"] = goodRules
			out["tokens/"+here+".tokens"] = fmt.Sprintf("include next \"%s.rules;%s.tokens\" reference more next.tok tok : A more | B ; num : B ; ", next, next)
		}
		return out
	}
	list := []refusal{
		{"nothing is wrong", main("inc"), both(goodRules, good), true},
		{"no file", main("inc"), nil, false},
		{"no rules", main("inc"), map[string]string{"tokens/inc.tokens": good}, false},
		{"no tokens", main("inc"), map[string]string{"rules/inc.rules": goodRules}, false},
		{"the files are folders", main("inc"), map[string]string{"rules/inc.rules/x": "", "tokens/inc.tokens/x": ""}, false},
		{"empty rules", main("inc"), both("", good), false},
		{"empty tokens", main("inc"), both(goodRules, ""), false},
		{"no such token", main("inc"), both(goodRules, "num : B ; "), false},
		{"no such rule", main("inc"), both(`A:"a";`, good), false},
		{"an undeclared token", main("inc"), both(goodRules, "tok : A num ; "), false},
		{"the token of the including grammar", main("inc"), both(goodRules, "tok : A own ; "), false},
		{"a bad include inside", main("inc"), both(goodRules, `include x "r" `+good), false},
		{"an unknown include inside", main("inc"), both(goodRules, `reference y x.z `+good), false},
		{"a missing include inside", main("inc"), both(goodRules, `include x "r;t" reference y x.z `+good), false},
		{"an unused include inside", main("inc"), both(goodRules, `include x "r;t" `+good), true},
		{"the replacing token does not exist", nobody, both(goodRules, good), false},
		{"includes itself", main("inc"), cycle(1), false},
		{"a cycle of two", main("inc"), cycle(2), false},
		{"a cycle of three", main("inc"), cycle(3), false},
	}
	// files of one name in several folders are not the same file; one file that is named in several ways is
	chain := func(last string, at ...string) map[string]string {
		out := map[string]string{}
		for i, p := range at {
			tokens := "tok : B ; num : B ; "
			if i+1 < len(at) {
				tokens = fmt.Sprintf("include next \"%s.rules;%s.tokens\" reference more next.tok tok : more ; ", at[i+1], at[i+1])
			} else if last != "" {
				tokens = fmt.Sprintf("include next \"%s.rules;%s.tokens\" reference more next.tok tok : more | B ; num : B ; ", last, last)
			}
			if i == 0 {
				tokens = strings.Replace(tokens, "tok : more", "tok : A more", 1)
			}
			out["rules/"+p+".rules"] = goodRules
			out["tokens/"+p+".tokens"] = tokens
		}
		return out
	}
	list = append(list,
		refusal{"one name in two folders", main("inc"), chain("", "inc", "d/inc"), true},
		refusal{"one name in three folders", main("inc"), chain("", "inc", "d/inc", "e/inc"), true},
		refusal{"one name in nested folders", main("inc"), chain("", "inc", "d/inc", "d/d/inc", "d/d/d/inc"), true},
		refusal{"one name in three folders, not at the top", main("e/inc"), chain("", "e/inc", "d/inc", "inc"), true},
		refusal{"names that begin with each other", main("inc"), chain("", "inc", "in", "i", "incl"), true},
		refusal{"names that end with each other", main("inc"), chain("", "inc", "nc", "c", "zinc"), true},
		refusal{"names in capitals", main("inc"), chain("", "inc", "Inc", "INC"), true},
		refusal{"folders and files of one name", main("inc"), chain("", "inc", "inc.d/inc", "inc.d/inc.d"), true},
		refusal{"a long chain", main("inc"), chain("", "inc", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q"), true},
		refusal{"a long cycle", main("inc"), chain("inc", "inc", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q"), false},
		refusal{"a cycle of the last two", main("inc"), chain("d/inc", "inc", "d/inc", "e/inc"), false},
		refusal{"a cycle of the last one", main("inc"), chain("e/inc", "inc", "d/inc", "e/inc"), false},
		refusal{"includes itself by another name", main("inc"), chain("./inc", "inc"), false},
		refusal{"includes itself through a folder", main("d/inc"), chain("d/../d/inc", "d/inc"), false},
		refusal{"a cycle of two by another name", main("inc"), chain("d/../inc", "inc", "d/inc"), false},
	)
	changing(r, main("inc"), goodRules)
	for _, x := range list {
		x := x
		id := "link:" + x.name
		r.State(id)
		r.Case(id, func() {
			dir := temp()
			defer os.RemoveAll(dir)
			for n, c := range x.fs {
				put(filepath.Join(dir, n), c)
			}
			a := app(dir)
			answers := map[string]error{}
			ast, err := a.AST(single(x.f, nil, styles[0]), ldrive.Content("ab"))
			if err == nil && x.ok && !ast.IsSuccess() {
				vlib.Failf("%q is not accepted", "ab")
			}
			answers["AST"] = err
			_, _, err = a.Root(single(x.f, nil, styles[0]), ldrive.Content("ab"))
			answers["Root"] = err
			_, err = a.Tests(multiple(x.f, nil, styles[0]))
			answers["Tests"] = err
			_, err = a.Path(pathResource(x.f, styles[0]))
			answers["Path"] = err
			r.Step(4)
			for n, err := range answers {
				if (err == nil) != x.ok {
					vlib.Failf("%s: the error is %v", n, err)
				}
			}
			r.Outcome(fmt.Sprint(x.ok))
		})
		r.Section("links", 1)
	}
}

// changing: every request reads the files as they are, in every sequence of contents.
func changing(r *vlib.R, f *file, rules string) {
	versions := []struct{ rules, tokens, accepted string }{
		{rules, "tok : A num ; num : B ; ", "ab"},
		{rules, "tok : B num ; num : A ; ", "ba"},
		{`A:"b";B:"a";C:"c";`, "tok : A num ; num : B ; ", "ba"},
		{rules, "", ""},
	}
	vlib.Product([]int{len(versions), len(versions), len(versions)}, func(seq []int) {
		seq = append([]int{}, seq...)
		id := fmt.Sprintf("changing:%v", seq)
		r.State(id)
		r.Case(id, func() {
			dir := temp()
			defer os.RemoveAll(dir)
			a := app(dir)
			for i, k := range seq {
				v := versions[k]
				put(filepath.Join(dir, "rules/inc.rules"), v.rules)
				put(filepath.Join(dir, "tokens/inc.tokens"), v.tokens)
				for _, s := range []string{"ab", "ba"} {
					ast, err := a.AST(single(f, nil, styles[0]), ldrive.Content(s))
					got := "accepted"
					if err != nil {
						got = "error"
					} else if ast.IsMistake() {
						got = "refused"
					}
					want := "refused"
					if v.accepted == s {
						want = "accepted"
					}
					if v.accepted == "" {
						want = "error"
					}
					r.Step(1)
					if got != want {
						vlib.Failf("request %d: %q is %s instead of %s", i, s, got, want)
					}
				}
			}
		})
		r.Section("files that change", 1)
	})
}

// finding is a listed one: the names of several grammars are confused.
func findings(r *vlib.R) {
	rec := &file{Path: "inc", Rules: lref.Constants, Tokens: []lref.Token{{Name: "tok", Must: lines(line(e("num", lref.One)))}, {Name: "num", Must: lines(line(e("A", lref.One), e("num", lref.Opt)))}}}
	rec2 := &file{Path: "second", Rules: lref.Constants, Tokens: []lref.Token{{Name: "tok", Must: lines(line(e("num", lref.One)))}, {Name: "num", Must: lines(line(e("B", lref.One), e("num", lref.Opt)))}}}
	own := &file{Rules: lref.Constants, Includes: []include{{"inc", rec}}, Links: []link{{"loc", "inc", "tok", false}},
		Tokens: []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("loc", lref.One)))}, {Name: "num", Must: lines(line(e("C", lref.One), e("num", lref.Opt)))}}}
	two := &file{Rules: lref.Constants, Includes: []include{{"inc", rec}, {"sec", rec2}}, Links: []link{{"loc", "inc", "tok", false}, {"other", "sec", "tok", false}},
		Tokens: []lref.Token{{Name: "root", Must: lines(line(e("loc", lref.One), e("other", lref.One)))}}}
	alias := &file{Rules: lref.Constants, Includes: []include{{"inc", &file{Path: "inc", Rules: lref.Constants, Tokens: []lref.Token{{Name: "tok", Must: lines(line(e("num", lref.One))), Not: lines(line(e("A", lref.One), e("num", lref.One)))}, {Name: "num", Must: lines(line(e("B", lref.One)))}}}}},
		Links:  []link{{"num", "inc", "tok", false}},
		Tokens: []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("C", lref.One)))}}}
	for _, x := range []struct {
		name string
		f    *file
		text string
	}{{"own token", own, "ccaa"}, {"two includes", two, "aabb"}, {"local name", alias, "a"}} {
		x := x
		id := "names:" + x.name
		r.State(id)
		r.Case(id, func() {
			g, root, _ := merged(x.f, nil)
			want, _ := refOutcome(g, root, x.text)
			dir := temp()
			defer os.RemoveAll(dir)
			x.f.write(dir, styles[0])
			got := outcome(app(dir).AST(single(x.f, nil, styles[0]), ldrive.Content(x.text)))
			r.Step(1)
			if got != want {
				vlib.FailKey(id, "%s\ntext %q:\n got  %s\n want %s", describe(x.f), x.text, got, want)
			}
		})
		r.Section("the same name twice", 1)
	}
}
