// C32: what was read or built says the same for ever.
package main

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	apaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	res_paths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	base "github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// request makes one result; see shows it.
type request struct {
	name string
	do   func(reader interface{}) []interface{}
}

// subject is a kind of reader.
type subject struct {
	name  string
	depth int
	new   func() interface{}
	reqs  []request
}

func (s *subject) add(name string, do func(reader interface{}) []interface{}) {
	s.reqs = append(s.reqs, request{name, do})
}

// one is a result, and what it said when it was made.
type one struct {
	name  string
	parts []interface{}
	said  string
}

func make1(r *vlib.R, q request, reader interface{}) one {
	parts := q.do(reader)
	said, n := see(parts...)
	r.Step(n)
	return one{q.name, parts, said}
}

// still compares what a result says with what it said.
func (x one) still(r *vlib.R, when string) {
	said, n := see(x.parts...)
	r.Step(n)
	if said != x.said {
		vlib.Failf("%s: the result of %s says something else:\n%s", when, x.name, differs(x.said, said))
	}
}

func differs(was, is string) string {
	i := 0
	for i < len(was) && i < len(is) && was[i] == is[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-150, i+150
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return fmt.Sprintf(" was ...%s...\n is  ...%s...", cut(was), cut(is))
}

// explore makes every sequence of requests to one reader.
func (s *subject) explore(r *vlib.R) {
	fresh := make([]string, len(s.reqs))
	r.Case(s.name+":alone", func() {
		kinds := map[string]bool{}
		for i, q := range s.reqs {
			x := make1(r, q, s.new())
			fresh[i] = x.said
			kinds[x.said] = true
			r.Outcome(s.name + x.said)
			x.still(r, "after it was looked at")
			x.still(r, "after it was looked at twice")
			if len(x.said) > 200 {
				r.Nontrivial()
			}
		}
		if len(kinds) < 2 {
			vlib.Failf("the requests of %s all say the same", s.name)
		}
	})
	dims := []int{}
	for i := 0; i < s.depth; i++ {
		dims = append(dims, len(s.reqs))
	}
	seqs := [][]int{}
	vlib.Product(dims, func(idx []int) { seqs = append(seqs, append([]int{}, idx...)) })
	r.Parallel(len(seqs), func(k int) {
		if r.Expired(s.name) {
			return
		}
		seq := seqs[k]
		id := fmt.Sprintf("%s:%v", s.name, seq)
		r.State(id)
		r.Case(id, func() {
			reader := s.new()
			made, names := []one{}, []string{}
			for _, i := range seq {
				x := make1(r, s.reqs[i], reader)
				if x.said != fresh[i] {
					vlib.Failf("after %s: %s says something else than alone:\n%s", strings.Join(names, ", "), x.name, differs(fresh[i], x.said))
				}
				names = append(names, x.name)
				made = append(made, x)
			}
			for _, x := range made {
				x.still(r, "after "+strings.Join(names, ", "))
			}
			r.Nontrivial()
		})
		r.Section("sequences: "+s.name, 1)
	})
}

func must(err error) {
	if err != nil {
		vlib.Failf("%s", err)
	}
}

// given is a result with its error.
func given(v interface{}, err error) []interface{} {
	if err != nil {
		return []interface{}{"refused"}
	}
	return []interface{}{v}
}

func depth(r *vlib.R) int { return r.Pick(3, 5) }

func texts(r *vlib.R) []*subject {
	patternTexts := []string{
		"any: SERIE; SERIE: $G; $G: \"z\";",
		"one: S | T | @S; two: T; S: $G $H; T: $H; $G: \"a\", \"bc\", \"d\"; $H: \"e\";",
		"one: S | T; S: $G $G $G $H; T: $G $H $H; $G: \"f\", \"g\"; $H: \"e\", \"f\", \"gg\", \"h\";",
		"two: @T; T: $A $B $C $D; $A: \"1\"; $B: \"2\"; $C: \"3\"; $D: \"4\", \"5\", \"6\", \"7\", \"8\";",
		"one: NONE;", "",
	}
	pat := func(t string) patterns.Patterns {
		p, err := patterns.NewAdapter().ToPatterns(t)
		must(err)
		return p
	}
	pt := &subject{name: "patterns", depth: depth(r), new: func() interface{} { return patterns.NewAdapter() }}
	for _, t := range patternTexts {
		t := t
		pt.add(fmt.Sprintf("%q", t), func(x interface{}) []interface{} { return given(x.(patterns.Adapter).ToPatterns(t)) })
	}
	pr := &subject{name: "matches of patterns", depth: depth(r), new: func() interface{} { return patterns.NewAdapter() }}
	for _, t := range patternTexts[1:4] {
		p := pat(t)
		for _, in := range []string{"aefgge", "xx1234567", "ggghae" + "bce"} {
			in := in
			pr.add(fmt.Sprintf("%q with %q", in, t), func(x interface{}) []interface{} {
				return given(x.(patterns.Adapter).FromPatternsToResult(p, in))
			})
		}
	}
	rl := &subject{name: "rules", depth: depth(r), new: func() interface{} { return rules.NewAdapter() }}
	two := pat(patternTexts[1])
	ruleTexts := []string{"AA: \"a\";", "AA: \"b\"; BB: \"c\"; CC: \"dd\";", "AA: [one]+; BB: [two]+; CC: [one two]{2};", "BB: [two one two]*; AA: \"a\"; CC: [one one one one two]?;", "AA: [none]+;", "CC: [two]{1,2}; DD: \"x\"; EE: \"y\"; FF: \"z\";"}
	for _, t := range ruleTexts {
		t := t
		rl.add(fmt.Sprintf("%q", t), func(x interface{}) []interface{} { return given(x.(rules.Adapter).Rules(t, two)) })
	}
	known, err := rules.NewAdapter().Rules("AA: \"a\"; BB: \"b\"; CC: [one]+; DD: [two one]{1,2};", two)
	must(err)
	rr := &subject{name: "matches of rules", depth: depth(r), new: func() interface{} { return results.NewAdapter() }}
	for _, name := range []string{"AA", "BB", "CC", "DD"} {
		rule, err := known.Find(name)
		must(err)
		for _, in := range []string{"aebceae", "eeeebce", "xb"} {
			in := in
			rr.add(fmt.Sprintf("%q with %s", in, rule.Name()), func(x interface{}) []interface{} {
				return given(x.(results.Adapter).ToResult(rule, in))
			})
		}
	}
	tk := &subject{name: "tokens", depth: depth(r), new: func() interface{} {
		a, err := tokens.NewAdapterBuilder().Create().WithRules(known).Now()
		must(err)
		return a
	}}
	tokenTexts := []string{
		"root: AA;", "root: AA+ BB | BB{2,} AA? CC; sub: root* AA;",
		"root: AA BB --- : AA{2} | BB+ +++ :a###b###ab; sub: CC;",
		"root: sub->AA{1,2} BB{2}<- AA | sub; sub: AA+ BB{,3};", "root: AA # BB | BB; sub: BB AA CC DD; third: sub+ --- : root +++ :abcd###cc;",
		"root: NONE;", "sub: BB | AA | CC | DD | root; root: BB BB BB BB BB;",
	}
	for _, t := range tokenTexts {
		t := t
		tk.add(fmt.Sprintf("%q", t), func(x interface{}) []interface{} { return given(x.(tokens.Adapter).ToTokens(t)) })
	}
	rf := &subject{name: "directives", depth: depth(r), new: func() interface{} { return references.NewAdapter() }}
	for _, t := range []string{
		"include inc \"r;t\" reference loc inc.tok ", "include inc \"r;t;c\" include other \"q;u\" reference loc inc.tok reference own other.tok reference third inc.more ",
		"include inc \"p;v\" replace inc.tok loc reference loc inc.own replace inc.more own ", "replace inc.tok loc ", "root: AA; ",
		"include aa \"a;b\" include bb \"c;d;e\" replace bb.tok loc replace aa.tok own replace bb.more third replace aa.more loc ",
	} {
		t := t
		rf.add(fmt.Sprintf("%q", t), func(x interface{}) []interface{} { return given(x.(references.Adapter).ToReferences(t)) })
	}
	cd := &subject{name: "cardinalities", depth: 3, new: func() interface{} { return cardinality.NewAdapter() }}
	for _, t := range []string{"+", "*", "?", "{2}", "{3}", "{1,2}", "{2,5}", "{4,}", "{,3}", "{3,1}"} {
		t := t
		cd.add(t, func(x interface{}) []interface{} { return given(x.(cardinality.Adapter).ToCardinality(t)) })
	}
	return []*subject{pt, pr, rl, rr, tk, rf, cd}
}

type fixture struct {
	g    lref.Grammar
	root string
	in   []string
}

func fixtures() []fixture {
	E := lref.E
	S := lref.Rule{Name: "S", Const: " "}
	rules := append(lref.Constants[:len(lref.Constants):len(lref.Constants)], S)
	blank := []lref.Token{{Name: "blank", Must: [][]lref.Elem{{E("S", lref.Plus)}}}}
	return []fixture{
		{lref.Grammar{Rules: rules, Channels: blank, Tokens: []lref.Token{
			{Name: "x", Must: [][]lref.Elem{{E("A", lref.Plus), E("y", lref.Star)}, {E("y", lref.N(2)), E("C", lref.One)}}, Suite: []string{"a b", "c", "bbc"}},
			{Name: "y", Must: [][]lref.Elem{{E("B", lref.One), E("x", lref.Opt)}}, Not: [][]lref.Elem{{E("B", lref.N(3))}}, Suite: []string{"ba"}},
		}}, "x", []string{"aab", "a b  ab", "b b c", "c", "ba", "aa bcb"}},
		{lref.Grammar{Rules: rules, Tokens: []lref.Token{
			{Name: "x", Must: [][]lref.Elem{{{Name: "y", Card: lref.Plus, Specs: []lref.Spec{{"A", lref.Rg(1, 2)}}}, E("C", lref.Opt)}}, Suite: []string{"aabc", "aaab"}},
			{Name: "y", Must: [][]lref.Elem{{E("A", lref.Plus), E("z", lref.One)}, {E("z", lref.One)}}},
			{Name: "z", Must: [][]lref.Elem{{E("B", lref.One)}}, Suite: []string{"b", "c"}},
		}}, "x", []string{"aab", "abaabc", "aaabc", "bbbb", "", "c"}},
		{lref.Grammar{Rules: rules, Tokens: []lref.Token{
			{Name: "x", Must: [][]lref.Elem{
				{{Name: "y", Card: lref.One, Specs: []lref.Spec{{"A", lref.N(1)}, {"B", lref.Rg(0, 2)}}}, {Name: "y", Card: lref.Opt, Specs: []lref.Spec{{"B", lref.Rg(2, -1)}}}},
				{E("w", lref.Plus), {Name: "y", Card: lref.Plus, Specs: []lref.Spec{{"B", lref.N(2)}, {"A", lref.Rg(0, 3)}}}},
			}},
			{Name: "y", Must: [][]lref.Elem{{E("A", lref.Plus), E("B", lref.Star)}, {E("w", lref.One), E("B", lref.Plus)}}, Not: [][]lref.Elem{{E("A", lref.N(4))}, {E("B", lref.N(4))}}},
			{Name: "w", Must: [][]lref.Elem{{E("C", lref.One), {Name: "y", Card: lref.Opt, Specs: []lref.Spec{{"C", lref.N(1)}}}}, {E("C", lref.N(2)), E("w", lref.Star)}}},
		}}, "x", []string{"ab", "abbabb", "ccabb", "aab", "ccb", "cabbcbb"}},
	}
}

func grammars(r *vlib.R) []*subject {
	out := []*subject{}
	for i, f := range fixtures() {
		f := f
		rl := ldrive.Rules(f.g)
		toks := ldrive.Tokens(rl, f.g.Tokens)
		ps := &subject{name: fmt.Sprintf("resolved tokens %d", i), depth: depth(r), new: func() interface{} {
			a, err := apaths.NewAdapterBuilder().Create().WithTokens(toks).Now()
			must(err)
			return a
		}}
		for _, t := range toks.All() {
			t := t
			ps.add(t.Name(), func(x interface{}) []interface{} { return given(x.(apaths.Adapter).ToPath(t)) })
		}
		ap := &subject{name: fmt.Sprintf("readings %d", i), depth: depth(r), new: func() interface{} { return ldrive.Adapter(rl, f.g, f.root) }}
		tr := &subject{name: fmt.Sprintf("trees %d", i), depth: depth(r), new: func() interface{} { return roots.NewAdapter() }}
		for _, s := range f.in {
			s := s
			ap.add(fmt.Sprintf("%q", s), func(x interface{}) []interface{} { return given(x.(asts.Adapter).ToAST(s)) })
			tr.add(fmt.Sprintf("%q", s), func(x interface{}) []interface{} {
				ast, err := ldrive.Adapter(rl, f.g, f.root).ToAST(s)
				if err != nil || ast.IsMistake() {
					return []interface{}{"refused"}
				}
				return given(x.(roots.Adapter).ToRoot(ast.Success()))
			})
		}
		out = append(out, ps, ap, tr)
	}
	ap := &subject{name: "application", depth: r.Pick(3, 4), new: func() interface{} { return ldrive.App() }}
	for i, f := range fixtures() {
		f := f
		for _, s := range f.in[:3] {
			s := s
			if s == "" {
				continue
			}
			ap.add(fmt.Sprintf("AST %d %q", i, s), func(x interface{}) []interface{} {
				return given(x.(lexers.Application).AST(ldrive.Single(f.g, f.root), ldrive.Content(s)))
			})
		}
		s := f.in[0]
		ap.add(fmt.Sprintf("Root %d %q", i, s), func(x interface{}) []interface{} {
			root, mistake, err := x.(lexers.Application).Root(ldrive.Single(f.g, f.root), ldrive.Content(s))
			if err != nil {
				return []interface{}{"refused"}
			}
			return []interface{}{root, mistake}
		})
		ap.add(fmt.Sprintf("Tests %d", i), func(x interface{}) []interface{} {
			return given(x.(lexers.Application).Tests(ldrive.Multiple(f.g)))
		})
		ap.add(fmt.Sprintf("Tokens %d", i), func(x interface{}) []interface{} {
			return given(x.(lexers.Application).Tokens(ldrive.Container(f.g)))
		})
		ap.add(fmt.Sprintf("Path %d", i), func(x interface{}) []interface{} {
			p, err := res_paths.NewBuilder().Create().WithContainer(ldrive.Container(f.g)).WithRootToken(f.root).Now()
			must(err)
			return given(x.(lexers.Application).Path(p))
		})
	}
	return append(out, ap)
}

func programs(r *vlib.R) *subject {
	dir := filepath.Join(os.Getenv("VERIF_REPO"), "domain/languages/scripts/resources/base")
	read := func(n string) string {
		b, err := ioutil.ReadFile(filepath.Join(dir, n+".alex"))
		must(err)
		return string(b)
	}
	pats, err := patterns.NewAdapter().ToPatterns(read("patterns"))
	must(err)
	rl, err := rules.NewAdapter().Rules(read("rules"), pats)
	must(err)
	ta, err := tokens.NewAdapterBuilder().Create().WithRules(rl).Now()
	must(err)
	toks, err := ta.ToTokens(read("tokens"))
	must(err)
	chans, err := ta.ToTokens(read("channels"))
	must(err)
	tree := func(root, text string) roots.Root {
		t, err := toks.Find(root)
		must(err)
		a, err := asts.NewAdapterBuilder().Create().WithRoot(t).WithTokens(toks).WithChannels(chans).Now()
		must(err)
		ast, err := a.ToAST(text)
		must(err)
		if ast.IsMistake() {
			vlib.Failf("%q is refused", text)
		}
		x, err := roots.NewAdapter().ToRoot(ast.Success())
		must(err)
		return x
	}
	out := &subject{name: "programs", depth: r.Pick(2, 3), new: func() interface{} { return base.NewEvents(64) }}
	for _, x := range [][2]string{
		{"instructions", "uint first\nint second\n"}, {"instructions", "first := 34\nsecond, third := first, -22.5\n"}, {"instructions", "first := [1, second, 3]\nbool fourth\nfirst := !second\n"},
		{"assigneeNames", "first, second, third, fourth"}, {"assigneeNames", "fifth, sixth"}, {"assigneeNames", "one, first, two, second, three, third"},
	} {
		x := x
		t := tree(x[0], x[1])
		out.add(fmt.Sprintf("%s %q", x[0], x[1]), func(ev interface{}) []interface{} {
			return given(parsers.NewApplication().Execute(t, ev.(map[string][]parsers.EventFunc)))
		})
	}
	return out
}

func ledgerParts(r *vlib.R) []*subject {
	ht := &subject{name: "hash trees", depth: r.Pick(3, 4), new: func() interface{} { return hashtree.NewBuilder() }}
	blocks := func(n int, first byte) [][]byte {
		out := [][]byte{}
		for i := 0; i < n; i++ {
			out = append(out, []byte{first, byte(i), first})
		}
		return out
	}
	for _, n := range []int{1, 2, 3, 4, 6, 9} {
		b := blocks(n, byte('a'+n))
		ht.add(fmt.Sprintf("%d blocks", n), func(x interface{}) []interface{} {
			t, err := x.(hashtree.Builder).Create().WithBlocks(b).Now()
			if err != nil {
				return []interface{}{"refused"}
			}
			back := [][]byte{}
			for i := range b {
				back = append(back, b[len(b)-1-i])
			}
			ordered, err := t.Order(back)
			must(err)
			return []interface{}{t, ordered}
		})
		ht.add(fmt.Sprintf("%d blocks, the same builder", n), func(x interface{}) []interface{} {
			return given(x.(hashtree.Builder).WithBlocks(b).Now())
		})
	}
	hs := &subject{name: "digests", depth: r.Pick(3, 4), new: func() interface{} { return hash.NewAdapter() }}
	for _, t := range []string{"", "a", "abc", strings.Repeat("b", 64)} {
		t := t
		hs.add(fmt.Sprintf("bytes %q", t), func(x interface{}) []interface{} { return given(x.(hash.Adapter).FromBytes([]byte(t))) })
		hs.add(fmt.Sprintf("chunks %q", t), func(x interface{}) []interface{} {
			return given(x.(hash.Adapter).FromMultiBytes([][]byte{[]byte(t), []byte("c"), []byte(t)}))
		})
		hs.add(fmt.Sprintf("text %q", t), func(x interface{}) []interface{} { return given(x.(hash.Adapter).FromString(strings.Repeat(t, 2))) })
	}

	// signatures and keys travel as text
	type readers struct {
		sig  signature.Adapter
		ring signature.RingSignatureAdapter
		pub  signature.PublicKeyAdapter
		priv signature.PrivateKeyAdapter
	}
	sg := &subject{name: "signatures", depth: 2, new: func() interface{} {
		return &readers{signature.NewAdapter(), signature.NewRingSignatureAdapter(), signature.NewPublicKeyAdapter(), signature.NewPrivateKeyAdapter()}
	}}
	pks, pubs := []signature.PrivateKey{}, []signature.PublicKey{}
	for i := 0; i < 4; i++ {
		pk := signature.NewPrivateKeyFactory().Create()
		pks, pubs = append(pks, pk), append(pubs, pk.PublicKey())
	}
	for i := 0; i < 3; i++ {
		pk, pub := pks[i].String(), pubs[i].String()
		s, err := pks[i].Sign("message")
		must(err)
		ring, err := pks[i].RingSign("message", pubs[:i+2])
		must(err)
		st, rt := s.String(), ring.String()
		sg.add(fmt.Sprintf("private key %d", i), func(x interface{}) []interface{} { return given(x.(*readers).priv.ToPrivateKey(pk)) })
		sg.add(fmt.Sprintf("public key %d", i), func(x interface{}) []interface{} { return given(x.(*readers).pub.ToPublicKey(pub)) })
		sg.add(fmt.Sprintf("signature %d", i), func(x interface{}) []interface{} {
			v, err := x.(*readers).sig.ToSignature(st)
			must(err)
			return []interface{}{v, v.PublicKey("message")}
		})
		sg.add(fmt.Sprintf("ring signature %d", i), func(x interface{}) []interface{} {
			v, err := x.(*readers).ring.ToSignature(rt)
			must(err)
			return []interface{}{v, view(func() string { return fmt.Sprint(v.Verify("message"), v.Verify("other")) })}
		})
	}
	// a signed message, while the key signs others
	sn := &subject{name: "signing", depth: 2, new: func() interface{} { return nil }}
	for i := 0; i < 3; i++ {
		i := i
		sn.add(fmt.Sprintf("sign %d", i), func(interface{}) []interface{} {
			s, err := pks[i].Sign("message")
			must(err)
			text := s.String()
			return []interface{}{view(func() string { return fmt.Sprint(i, s.PublicKey("message").Equals(pubs[i]), s.String() == text) })}
		})
		sn.add(fmt.Sprintf("ring %d", i), func(interface{}) []interface{} {
			s, err := pks[i].RingSign("message", pubs[:i+2])
			must(err)
			text := s.String()
			return []interface{}{view(func() string { return fmt.Sprint(i, s.Verify("message"), len(s.Ring()), s.String() == text) })}
		})
	}
	return []*subject{ht, hs, sg, sn, encryptionKeys(r)}
}

// view is evaluated at every look.
type view func() string

func encryptionKeys(r *vlib.R) *subject {
	type readers struct {
		priv encryption.Adapter
		pub  encryption.PublicKeyAdapter
	}
	out := &subject{name: "encryption keys", depth: 3, new: func() interface{} {
		return &readers{encryption.NewAdapter(), encryption.NewPublickeyAdapter()}
	}}
	for i := 0; i < 3; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		must(err)
		pk, err := encryption.NewBuilder().Create().WithPK(*k).Now()
		must(err)
		pt, ut := encryption.NewAdapter().ToEncoded(pk), encryption.NewPublickeyAdapter().ToEncoded(pk.Public())
		out.add(fmt.Sprintf("private key %d", i), func(x interface{}) []interface{} {
			v, err := x.(*readers).priv.FromEncoded(pt)
			must(err)
			return []interface{}{view(func() string {
				return encryption.NewAdapter().ToEncoded(v) + encryption.NewPublickeyAdapter().ToEncoded(v.Public())
			})}
		})
		out.add(fmt.Sprintf("public key %d", i), func(x interface{}) []interface{} {
			v, err := x.(*readers).pub.FromEncoded(ut)
			must(err)
			h, err := x.(*readers).pub.ToHash(v)
			must(err)
			return []interface{}{view(func() string { return encryption.NewPublickeyAdapter().ToEncoded(v) }), h}
		})
	}
	return out
}

// families: one adapter reads all the texts of a grammar; at the end all that it gave says the same.
func families(r *vlib.R) {
	cases := append(lref.Families(false), lref.LineFamilies(false)...)
	stride := r.Pick(2, 1)
	r.Parallel(len(cases)/stride, func(k int) {
		if r.Expired("families") {
			return
		}
		i := k*stride + k/11%stride
		c := cases[i]
		id := fmt.Sprintf("family:%s:%d", c.Section, i)
		r.State(id)
		scripts := []string{}
		ref := &lref.Parser{G: c.G}
		for j, s := range c.Scripts {
			if (j+i)%2 != 0 && !r.Thorough() {
				continue
			}
			ref.Parse(c.Root, s)
			if !ref.LeftRecursive && len(s) < 60 {
				scripts = append(scripts, s)
			}
		}
		r.Case(id, func() {
			rl := ldrive.Rules(c.G)
			toks := ldrive.Tokens(rl, c.G.Tokens)
			tokensMade := make1(r, request{"tokens", func(interface{}) []interface{} { return []interface{}{rl, toks} }}, nil)
			ad, trees := ldrive.Adapter(rl, c.G, c.Root), roots.NewAdapter()
			made := []one{}
			for _, s := range scripts {
				ast, err := ad.ToAST(s)
				if err != nil {
					continue
				}
				made = append(made, make1(r, request{fmt.Sprintf("AST of %q", s), func(interface{}) []interface{} { return []interface{}{ast} }}, nil))
				if ast.IsSuccess() {
					made = append(made, make1(r, request{fmt.Sprintf("tree of %q", s), func(interface{}) []interface{} { return given(trees.ToRoot(ast.Success())) }}, nil))
					r.Nontrivial()
				}
			}
			for _, x := range made {
				x.still(r, "after all the texts")
			}
			tokensMade.still(r, "after all the texts")
		})
		r.Section("families", 1)
	})
}

func main() {
	r := vlib.New("C32")
	r.Rule = "for every kind of reader (of patterns, rules, tokens, directives, cardinalities; of matches; resolvers, readers of texts, makers of trees; the application; the events of the base language; builders of hash trees; digests; keys and signatures): every sequence of requests to one reader up to the bound; every result is looked at when it is made (all that its methods say that need nothing, recursively), and again at the end of the sequence, and says the same, which is also what it says when it is asked for alone; for the grammars of the families, one reader reads all texts, and at the end all derivations, mistakes, trees and the grammar itself say the same; non-trivial: sequences, and accepted texts"
	subjects := []*subject{}
	r.Case("requests", func() {
		subjects = append(subjects, texts(r)...)
		subjects = append(subjects, grammars(r)...)
		subjects = append(subjects, programs(r))
		subjects = append(subjects, ledgerParts(r)...)
	})
	for _, s := range subjects {
		s.explore(r)
	}
	families(r)
	r.Finish()
}
