package main

import (
	"fmt"

	"github.com/steve-care-software/steve/zz_verif/lref"
)

type fcase struct {
	section  string
	f        *file
	channels []lref.Token
	scripts  []string
}

func lines(l ...[]lref.Elem) [][]lref.Elem { return l }

func line(l ...lref.Elem) []lref.Elem { return l }

var e = lref.E

// swapped rules: the same names as in the other grammar say something else.
var swapped = []lref.Rule{{Name: "A", Const: "b"}, {Name: "B", Const: "c"}, {Name: "C", Const: "a"}}

// included grammars: the token "tok" is referred to, "num" may be replaced.
func included() []*file {
	out := []*file{}
	pool := []lref.Elem{e("A", lref.One), e("B", lref.Opt), e("num", lref.One), e("num", lref.Plus), e("tok", lref.Opt), e("num", lref.Opt)}
	nums := [][][]lref.Elem{
		lines(line(e("B", lref.One))),
		lines(line(e("B", lref.One), e("num", lref.One)), line(e("B", lref.One))),
		lines(line(e("B", lref.One), e("tok", lref.Opt))),
	}
	for _, n := range nums {
		for _, l := range lref.Sequences(pool, 2) {
			if l[0].Name == "tok" {
				continue
			}
			for second := 0; second < 3; second++ {
				t := lref.Token{Name: "tok", Must: lines(l)}
				switch second {
				case 1:
					t.Must = append(t.Must, line(e("num", lref.N(2))))
				case 2:
					t.Not = lines(line(e("num", lref.N(2))), line(e("A", lref.One), e("num", lref.One)))
				}
				toks := []lref.Token{t, {Name: "num", Must: n}}
				if len(out)%2 == 1 {
					toks[0], toks[1] = toks[1], toks[0]
				}
				f := &file{Path: "inc", Rules: lref.Constants, Tokens: toks, Channels: len(out)%3 == 0}
				if len(out)%4 > 1 {
					f.Rules = swapped
					f.Path = "some/where/inc"
				}
				out = append(out, f)
			}
		}
	}
	return out
}

// families of including grammars.
func families(deep bool) []fcase {
	out := []fcase{}
	hi := 3
	if deep {
		hi = 4
	}
	scripts := lref.Words([]string{"a", "b", "c"}, 1, hi)
	spaced := lref.Words([]string{"a", "b", " "}, 1, hi+1)
	pick := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	roots := [][]lref.Elem{}
	locSpec := lref.Elem{Name: "loc", Card: lref.Plus, Specs: []lref.Spec{{Name: "num", Card: lref.N(1)}}}
	pool := []lref.Elem{e("C", lref.One), e("A", lref.Opt), e("loc", lref.One), e("loc", lref.Plus), e("own", lref.One), locSpec}
	for _, l := range lref.Sequences(pool, 2) {
		if lref.Uses([][]lref.Elem{l}, "loc") {
			roots = append(roots, l)
		}
	}
	owns := [][][]lref.Elem{
		lines(line(e("C", lref.One))),
		lines(line(e("C", lref.One), e("own", lref.One)), line(e("C", lref.One))),
		lines(line(e("C", lref.One), e("loc", lref.Opt))),
		lines(line(e("C", lref.One), e("root", lref.Opt))),
	}
	inc := included()
	n := 0
	keep := func(q, t int) bool {
		n++
		return n%pick(q, t) == 0
	}
	space := []lref.Token{{Name: "sp", Must: lines(line(e("S", lref.Plus)))}}
	for _, i := range inc {
		for _, x := range roots {
			for oi, o := range owns {
				for repl := 0; repl < 2; repl++ {
					if oi >= 2 && repl == 1 {
						continue // the token that replaces would need what it replaces
					}
					for chans := 0; chans < 2; chans++ {
						if !keep(211, 7) {
							continue
						}
						f := &file{Rules: lref.Constants, Includes: []include{{"inc", i}}, Links: []link{{"loc", "inc", "tok", false}}}
						f.Tokens = []lref.Token{{Name: "root", Must: lines(x)}, {Name: "own", Must: o}}
						if repl == 1 {
							f.Links = append(f.Links, link{"own", "inc", "num", true})
						}
						if n%5 == 0 {
							f.Links = append(f.Links, link{"unused", "inc", "num", false})
						}
						c := fcase{fmt.Sprintf("one include, replacements %d, channels %d", repl, chans), f, nil, scripts}
						if chans == 1 {
							f.Rules = append([]lref.Rule{{Name: "S", Const: " "}}, f.Rules...)
							c.channels, c.scripts = space, spaced
						}
						out = append(out, c)
					}
				}
			}
		}
	}

	// two includes, two references to one include, includes that include
	n = 0
	for ii, i := range inc {
		for jj, j := range inc {
			for shape := 0; shape < 6; shape++ {
				if (ii+jj)%pick(11, 5) != 0 || !keep(31, 2) {
					continue
				}
				second := *j
				second.Path = "second"
				f := &file{Rules: lref.Constants}
				f.Tokens = []lref.Token{
					{Name: "root", Must: lines(line(e("loc", lref.One), e("other", lref.Opt)), line(e("other", lref.Plus), e("own", lref.One)))},
					{Name: "own", Must: owns[shape%2]},
				}
				switch shape {
				case 0, 1: // two includes
					f.Includes = []include{{"inc", i}, {"sec", &second}}
					f.Links = []link{{"loc", "inc", "tok", false}, {"other", "sec", "tok", false}}
				case 2: // two references to one include, one token replaced
					f.Includes = []include{{"inc", i}}
					f.Links = []link{{"own", "inc", "num", true}, {"loc", "inc", "tok", false}, {"other", "inc", "num", false}}
				case 3, 4: // the included grammar includes another one
					mid := *i
					mid.Path = "mid"
					mid.Tokens = []lref.Token{
						{Name: "mid", Must: lines(line(e("A", lref.One), e("far", lref.Opt)), line(e("far", lref.One), e("B", lref.One)))},
						{Name: "num", Must: lines(line(e("far", lref.One)))},
					}
					mid.Includes = []include{{"deep", &second}}
					mid.Links = []link{{"far", "deep", "tok", false}}
					f.Includes = []include{{"mid", &mid}, {"inc", i}}
					f.Links = []link{{"loc", "mid", "mid", false}, {"other", "inc", "tok", false}}
					if shape == 4 {
						f.Links = append(f.Links, link{"own", "inc", "num", true})
					}
				case 5: // the included grammar replaces tokens of the one that it includes
					mid := *i
					mid.Path = "mid"
					mid.Tokens = []lref.Token{
						{Name: "mid", Must: lines(line(e("A", lref.One), e("far", lref.Opt)), line(e("far", lref.One), e("B", lref.One)))},
						{Name: "mine", Must: lines(line(e("C", lref.Plus)))},
					}
					mid.Includes = []include{{"deep", &second}}
					mid.Links = []link{{"far", "deep", "tok", false}, {"mine", "deep", "num", true}}
					f.Includes = []include{{"mid", &mid}, {"inc", i}}
					f.Links = []link{{"loc", "mid", "mid", false}, {"other", "inc", "tok", false}}
				}
				out = append(out, fcase{fmt.Sprintf("several includes, shape %d", shape), f, nil, scripts})
			}
		}
	}

	// two includes with the same file of tokens and other rules, and with the same rules and other tokens
	n = 0
	for ii, i := range inc {
		for shape := 0; shape < 8; shape++ {
			if !keep(3, 1) {
				continue
			}
			first, second := *i, *i
			first.Rules, second.Rules = lref.Constants, swapped
			switch shape / 2 {
			case 0:
				second.RulesAt = "others"
			case 1:
				first.RulesAt, second.RulesAt = "one", "others"
			case 2:
				second = *inc[(ii+7)%len(inc)]
				second.Rules = first.Rules
				first.RulesAt, second.RulesAt, second.Path = "shared", "shared", "second"
			case 3: // a file of tokens with the path of the rules of the other
				second = *inc[(ii+13)%len(inc)]
				second.Rules = swapped
				first.Path, first.RulesAt, second.Path, second.RulesAt = "x", "y", "y", "x"
			}
			f := &file{Rules: lref.Constants, Includes: []include{{"inc", &first}, {"sec", &second}}}
			f.Tokens = []lref.Token{
				{Name: "root", Must: lines(line(e("loc", lref.One), e("other", lref.Opt)), line(e("other", lref.Plus), e("own", lref.One)))},
				{Name: "own", Must: owns[0]},
			}
			f.Links = []link{{"loc", "inc", "tok", false}, {"other", "sec", "tok", false}}
			if shape%2 == 1 {
				f.Includes[0], f.Includes[1] = f.Includes[1], f.Includes[0]
				f.Links = append(f.Links[1:], f.Links[0], link{"own", "sec", "num", true})
			}
			out = append(out, fcase{fmt.Sprintf("shared files, shape %d", shape), f, nil, scripts})
		}
	}

	// a grammar that replaces tokens includes one that replaces tokens; what replaces refers to itself, excludes lines, switches channels
	n = 0
	mines := []lref.Token{
		{Name: "mine", Must: lines(line(e("C", lref.Plus)))},
		{Name: "mine", Must: lines(line(e("C", lref.One), e("mine", lref.Opt)))},
		{Name: "mine", Must: lines(line(e("C", lref.One), e("helper", lref.Opt))), Not: lines(line(e("helper", lref.N(2))), line(e("C", lref.One), e("mine", lref.One)))},
		{Name: "mine", Must: lines(line(e("C", lref.One), lref.Elem{Switch: true}, e("helper", lref.Opt)))},
		{Name: "mine", Must: lines(line(e("helper", lref.One), e("C", lref.Opt))), Not: lines(line(e("helper", lref.N(2))))},
	}
	helpers := [][][]lref.Elem{lines(line(e("A", lref.One))), lines(line(e("A", lref.One), e("mine", lref.Opt))), lines(line(e("A", lref.One), e("helper", lref.Opt)))}
	for ii, i := range inc {
		for mi, mine := range mines {
			for hi, helper := range helpers {
				for shape := 0; shape < 5; shape++ {
					if (ii+mi+hi+shape)%pick(23, 3) != 0 {
						continue
					}
					deep := *i
					deep.Path = "deep"
					mid := *i
					mid.Path = "mid"
					mid.Rules = lref.Constants
					mid.Tokens = []lref.Token{
						{Name: "mid", Must: lines(line(e("A", lref.One), e("far", lref.Opt)), line(e("num", lref.One), e("B", lref.One)), line(e("far", lref.Plus)))},
						{Name: "num", Must: lines(line(e("far", lref.One)))}, mine, {Name: "helper", Must: helper},
					}
					mid.Includes = []include{{"deep", &deep}}
					mid.Links = []link{{"far", "deep", "tok", false}, {"mine", "deep", "num", true}}
					f := &file{Rules: lref.Constants, Includes: []include{{"mid", &mid}}, Links: []link{{"loc", "mid", "mid", false}}}
					f.Tokens = []lref.Token{
						{Name: "root", Must: lines(line(e("loc", lref.One), e("own", lref.Opt)), line(e("own", lref.One), e("loc", lref.Plus)))},
						{Name: "own", Must: owns[shape%2]},
					}
					if shape > 0 {
						f.Links = append(f.Links, link{"own", "mid", "num", true})
					}
					if shape > 2 {
						// what the included grammar replaces is not replaced in the next one, nor in this one
						third := *i
						third.Path = "third"
						f.Includes = append(f.Includes, include{"third", &third})
						f.Links = append(f.Links, link{"other", "third", "tok", false})
						f.Tokens[0].Must = append(f.Tokens[0].Must, line(e("other", lref.One), e("own", lref.Opt)), line(e("loc", lref.One), e("other", lref.One)))
					}
					if shape == 3 {
						f.Links = append(f.Links, link{"second", "mid", "helper", true})
						f.Tokens = append(f.Tokens, lref.Token{Name: "second", Must: lines(line(e("B", lref.One), e("C", lref.Opt)))})
					}
					if shape == 4 {
						f.Links = append(f.Links, link{"second", "mid", "nothing", true})
						f.Tokens = append(f.Tokens, lref.Token{Name: "second", Must: lines(line(e("B", lref.One)))}, lref.Token{Name: "num", Must: lines(line(e("A", lref.One)))})
						f.Tokens[0].Must = append(f.Tokens[0].Must, line(e("num", lref.One), e("loc", lref.Opt)))
					}
					if shape == 2 {
						f.Tokens[1].Not = lines(line(e("C", lref.N(3))))
					}
					out = append(out, fcase{fmt.Sprintf("replacements at two levels, %d", shape), f, nil, scripts})
				}
			}
		}
	}

	// several replacements, in every order
	deepInc := &file{Path: "deep", Rules: lref.Constants, Tokens: []lref.Token{
		{Name: "start", Must: lines(line(e("list", lref.One)))},
		{Name: "list", Must: lines(line(e("item", lref.One), e("list", lref.Opt)))},
		{Name: "item", Must: lines(line(e("num", lref.One)), line(e("word", lref.One)))},
		{Name: "num", Must: lines(line(e("B", lref.One)))},
		{Name: "word", Must: lines(line(e("A", lref.One)))},
		{Name: "pair", Must: lines(line(e("num", lref.N(2))))},
	}}
	seconds := [][][]lref.Elem{
		lines(line(e("A", lref.One), e("B", lref.One))),
		lines(line(e("A", lref.One), e("mine", lref.Opt))),
		lines(line(e("A", lref.One), e("two", lref.Opt))),
		lines(line(e("A", lref.One), e("pair", lref.Opt))),
		lines(line(e("A", lref.One), e("second", lref.Opt))),
	}
	for si, sec := range seconds {
		for order := 0; order < 6; order++ {
			if si == 3 && (order == 1 || order == 3 || order == 4) {
				continue // what a replacing token refers to is read with the replacements before it
			}
			for _, target := range []string{"start", "list", "item"} {
				f := &file{Rules: lref.Constants, Includes: []include{{"inc", deepInc}}}
				ref := []link{{"loc", "inc", target, false}}
				if si == 3 {
					ref = append(ref, link{"pair", "inc", "pair", false})
				}
				one, two := link{"mine", "inc", "num", true}, link{"second", "inc", "word", true}
				switch order {
				case 0:
					f.Links = append(ref, one, two)
				case 1:
					f.Links = append(ref, two, one)
				case 2:
					f.Links = append([]link{one, two}, ref...)
				case 3:
					f.Links = append([]link{two, one}, ref...)
				case 4:
					f.Links = append(append([]link{two}, ref...), one)
				case 5:
					f.Links = append(append([]link{one}, ref...), two)
				}
				f.Tokens = []lref.Token{
					{Name: "root", Must: lines(line(e("loc", lref.One)), line(e("C", lref.Plus), e("loc", lref.One), e("second", lref.Opt)))},
					{Name: "mine", Must: lines(line(e("C", lref.One)))},
					{Name: "second", Must: sec},
					{Name: "two", Must: lines(line(e("C", lref.One), e("mine", lref.One)))},
				}
				out = append(out, fcase{fmt.Sprintf("several replacements, %d, order %d", si, order), f, nil, scripts})
			}
		}
	}

	// the same names in both grammars
	n = 0
	for _, i := range inc {
		for shape := 0; shape < 10; shape++ {
			if shape < 8 && !keep(3, 1) {
				continue
			}
			f := &file{Rules: lref.Constants, Includes: []include{{"inc", i}}, Links: []link{{"loc", "inc", "tok", false}}}
			switch shape {
			case 0: // the local name is that of the token
				f.Links[0].Local = "tok"
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("tok", lref.One), e("C", lref.Opt)), line(e("C", lref.One), e("tok", lref.One)))}}
			case 1: // the local name is that of another token of the included grammar
				f.Links[0].Local = "num"
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("C", lref.Opt)), line(e("C", lref.One), e("num", lref.One)))}}
			case 2: // a token of the grammar has the name of one of the included grammar
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("loc", lref.One)), line(e("loc", lref.One), e("num", lref.Opt)))}, {Name: "num", Must: lines(line(e("C", lref.One)))}}
			case 3: // it refers to itself
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("loc", lref.One)), line(e("loc", lref.One), e("num", lref.Opt)))}, {Name: "num", Must: lines(line(e("C", lref.One), e("num", lref.Opt)))}}
			case 4:
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("tok", lref.One), e("loc", lref.One)), line(e("loc", lref.One), e("tok", lref.Opt)))}, {Name: "tok", Must: lines(line(e("C", lref.One), e("tok", lref.Opt)))}}
			case 5: // the root has the name of a token of the included grammar
				f.Tokens = []lref.Token{{Name: "num", Must: lines(line(e("C", lref.One), e("num", lref.Opt)), line(e("loc", lref.One)))}}
			case 6:
				f.Tokens = []lref.Token{{Name: "tok", Must: lines(line(e("C", lref.One), e("tok", lref.Opt)), line(e("loc", lref.One)))}}
			case 8, 9: // a token of the grammar has the name of one that it replaces
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("num", lref.One), e("loc", lref.Opt)), line(e("loc", lref.One), e("num", lref.Plus)))}, {Name: "num", Must: lines(line(e("C", lref.One)))}, {Name: "own", Must: lines(line(e("A", lref.One), e("B", lref.One)))}}
				f.Links = append(f.Links, link{"own", "inc", "num", true})
				if shape == 9 {
					f.Links[0], f.Links[1] = f.Links[1], f.Links[0]
				}
			case 7: // the local name is that of the include
				f.Includes[0].Name = "loc"
				f.Links[0].Inc = "loc"
				f.Tokens = []lref.Token{{Name: "root", Must: lines(line(e("loc", lref.Plus), e("C", lref.Opt)))}}
			}
			out = append(out, fcase{fmt.Sprintf("same names, shape %d", shape), f, nil, scripts})
		}
	}
	return out
}
