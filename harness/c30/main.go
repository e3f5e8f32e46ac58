// C30: a reader works with what its builder was given last.
package main

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/steve-care-software/steve/applications/languages/lexers"
	"github.com/steve-care-software/steve/applications/languages/parsers"
	password "github.com/steve-care-software/steve/domain/cryptography"
	"github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	asttokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	basepaths "github.com/steve-care-software/steve/domain/languages/lexers/paths"
	res_containers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	res_multiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	res_singles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/lexers/suites"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// value is one value of a field.
type value struct {
	label string
	v     interface{}
}

// field is one setter of a builder.
type field struct {
	set       string
	mandatory bool
	vals      []value
}

// kind is one kind of builder.
type kind struct {
	name   string
	new    func() interface{}
	fields []field
	// probe shows what the reader does.
	probe func(o interface{}) string
	// want is what the reader should do (optional): the labels are those of the values, "" when not given.
	want func(given []string) string
}

func call(b interface{}, name string, args ...interface{}) []reflect.Value {
	m := reflect.ValueOf(b).MethodByName(name)
	in := []reflect.Value{}
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return m.Call(in)
}

func now(b interface{}) (interface{}, error) {
	out := call(b, "Now")
	err, _ := out[1].Interface().(error)
	if out[0].IsNil() {
		if err == nil {
			vlib.Failf("neither a reader nor an error")
		}
		return nil, err
	}
	if err != nil {
		vlib.Failf("a reader and an error: %s", err)
	}
	return out[0].Interface(), nil
}

func (k *kind) show(c []int) string {
	l := []string{}
	for i, v := range c {
		if v >= 0 {
			l = append(l, k.fields[i].set+"="+k.fields[i].vals[v].label)
		}
	}
	return strings.Join(l, " ")
}

// fresh is what a reader does that was built at once.
func (k *kind) fresh(c []int, backwards bool) string {
	b := call(k.new(), "Create")[0].Interface()
	for x := range c {
		i := x
		if backwards {
			i = len(c) - 1 - x
		}
		if c[i] >= 0 {
			b = call(b, k.fields[i].set, k.fields[i].vals[c[i]].v)[0].Interface()
		}
	}
	return k.outcome(b, nil)
}

const refused = "refused"

type reader struct {
	at  string
	o   interface{}
	did string
}

func (k *kind) outcome(b interface{}, built *[]reader) string {
	o, err := now(b)
	if err != nil {
		return refused
	}
	did := k.probe(o)
	if built != nil {
		*built = append(*built, reader{o: o, did: did})
	}
	return did
}

type slot struct {
	b interface{}
	c []int
}

func (k *kind) explore(r *vlib.R, depth int) {
	dims := []int{}
	for _, f := range k.fields {
		dims = append(dims, len(f.vals)+1)
	}
	table := map[string]string{}
	guard := &sync.Mutex{}
	at := func(c []int) string {
		guard.Lock()
		defer guard.Unlock()
		key := fmt.Sprint(c)
		if _, ok := table[key]; !ok {
			table[key] = k.fresh(c, false)
		}
		return table[key]
	}
	all := [][]int{}
	vlib.Product(dims, func(idx []int) {
		c := make([]int, len(idx))
		for i := range idx {
			c[i] = idx[i] - 1
		}
		all = append(all, c)
	})
	works := 0
	for _, c := range all {
		c := c
		r.Case(k.name+":fresh:"+k.show(c), func() {
			got := at(c)
			if back := k.fresh(c, true); back != got {
				vlib.Failf("the order of the setters matters:\n %s\n %s", got, back)
			}
			complete := true
			given := []string{}
			for i, f := range k.fields {
				complete = complete && (!f.mandatory || c[i] >= 0)
				given = append(given, "")
				if c[i] >= 0 {
					given[i] = f.vals[c[i]].label
				}
			}
			if !complete && got != refused {
				vlib.Failf("built without what is mandatory")
			}
			if complete && got == refused {
				if k.want == nil || k.want(given) != refused {
					vlib.Failf("refused, with all that is mandatory")
				}
			}
			if complete && k.want != nil {
				if want := k.want(given); got != want {
					vlib.Failf("%s", differs(got, want))
				}
			}
			if got != refused {
				works++
				r.Nontrivial()
			}
			r.Outcome(k.name + got)
			r.Step(2)
		})
	}
	// every value matters somewhere
	for i, f := range k.fields {
		for v := -1; v < len(f.vals); v++ {
			for w := v + 1; w < len(f.vals); w++ {
				i, f, v, w := i, f, v, w
				r.Case(fmt.Sprintf("%s:%s:%d-%d", k.name, f.set, v, w), func() {
					for _, c := range all {
						if c[i] == v {
							d := append([]int{}, c...)
							d[i] = w
							if at(c) != at(d) {
								return
							}
						}
					}
					vlib.Failf("the readers that were given these two values do the same")
				})
			}
		}
	}
	// histories of two builders, of which one was started from the other
	type op struct {
		name string
		f, v int
	}
	ops := []op{{"Now", -1, -1}, {"Create", -1, -1}, {"switch", -1, -1}}
	for i, f := range k.fields {
		for v := range f.vals {
			ops = append(ops, op{f.set + "=" + f.vals[v].label, i, v})
		}
	}
	begin := [][]int{}
	for n := -1; n < 2; n++ {
		c := make([]int, len(k.fields))
		for i := range c {
			c[i] = n
		}
		begin = append(begin, c)
	}
	per := 1
	for i := 0; i < depth; i++ {
		per *= len(ops)
	}
	r.Parallel(len(begin)*len(ops), func(n int) {
		b0, first := begin[n%len(begin)], n/len(begin)
		for rest := 0; rest < per/len(ops); rest++ {
			seq := []int{first}
			for x, i := rest, 1; i < depth; i++ {
				seq = append(seq, x%len(ops))
				x /= len(ops)
			}
			if r.Expired("histories of " + k.name) {
				return
			}
			names := []string{}
			for _, s := range seq {
				names = append(names, ops[s].name)
			}
			id := fmt.Sprintf("%s:from %s:%s", k.name, k.show(b0), strings.Join(names, ","))
			r.State(id)
			r.Case(id, func() {
				built := []reader{}
				none := make([]int, len(k.fields))
				for i := range none {
					none[i] = -1
				}
				slots := []slot{{k.new(), append([]int{}, none...)}, {call(k.new(), "Create")[0].Interface(), append([]int{}, none...)}}
				for i, v := range b0 {
					if v >= 0 {
						slots[0].b = call(slots[0].b, k.fields[i].set, k.fields[i].vals[v].v)[0].Interface()
						slots[0].c[i] = v
					}
				}
				cur := 0
				build := func(s int, when string) {
					before := len(built)
					got := k.outcome(slots[s].b, &built)
					if want := at(slots[s].c); got != want {
						vlib.Failf("%s with %s: %s", when, k.show(slots[s].c), differs(got, want))
					}
					if len(built) > before {
						built[before].at = when
					}
					r.Step(1)
				}
				for i, s := range seq {
					o := ops[s]
					switch {
					case o.name == "Now":
						build(cur, fmt.Sprintf("built at %d", i))
					case o.name == "Create":
						slots[1-cur] = slot{call(slots[cur].b, "Create")[0].Interface(), append([]int{}, none...)}
						cur = 1 - cur
					case o.name == "switch":
						cur = 1 - cur
					default:
						slots[cur].b = call(slots[cur].b, k.fields[o.f].set, k.fields[o.f].vals[o.v].v)[0].Interface()
						slots[cur].c[o.f] = o.v
					}
					r.Step(1)
				}
				build(cur, "built at the end")
				build(1-cur, "built from the other builder")
				for _, x := range built {
					if did := k.probe(x.o); did != x.did {
						vlib.Failf("the reader %s does something else at the end: %s", x.at, differs(did, x.did))
					}
				}
			})
		}
	})
	r.Section("builders that work: "+k.name, int64(works))
}

func content(s string) contents.Content {
	c, err := contents.NewBuilder().Create().WithContent(s).Now()
	must(err)
	return c
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- the grammars

var one = lref.N(1)

func e(n string) lref.Elem { return lref.Elem{Name: n, Card: one} }

func line(n ...string) []lref.Elem {
	out := []lref.Elem{}
	for _, x := range n {
		out = append(out, e(x))
	}
	return out
}

var theRules = []lref.Rule{{Name: "AA", Const: "a"}, {Name: "BB", Const: "b"}, {Name: "SP", Const: " "}, {Name: "UU", Const: "_"}}

var tokenSets = map[string][]lref.Token{
	"one":   {{Name: "root", Must: [][]lref.Elem{line("AA", "rep")}}, {Name: "other", Must: [][]lref.Elem{line("BB", "rep", "AA")}}, {Name: "rep", Must: [][]lref.Elem{line("AA")}}},
	"two":   {{Name: "root", Must: [][]lref.Elem{line("BB", "rep")}}, {Name: "rep", Must: [][]lref.Elem{line("BB", "BB")}}, {Name: "other", Must: [][]lref.Elem{line("AA")}}},
	"three": {{Name: "root", Must: [][]lref.Elem{line("AA", "ext")}}, {Name: "other", Must: [][]lref.Elem{line("BB", "rep", "ext")}}, {Name: "rep", Must: [][]lref.Elem{line("AA", "AA")}}},
}
var channelSets = map[string][]lref.Token{
	"spaces": {{Name: "space", Must: [][]lref.Elem{line("SP")}}},
	"lows":   {{Name: "low", Must: [][]lref.Elem{line("UU")}}},
}
var outer = map[string][]lref.Elem{"ab": line("AA", "BB"), "b": line("BB"), "ba": line("BB", "AA"), "aaa": line("AA", "AA", "AA")}

func with(name string, l []lref.Elem) lref.Token {
	return lref.Token{Name: name, Must: [][]lref.Elem{l}}
}

// grammar is what the given names stand for.
func grammar(set, channels, found, replaced string) (lref.Grammar, bool) {
	g := lref.Grammar{Rules: theRules, Channels: channelSets[channels]}
	for _, t := range tokenSets[set] {
		if t.Name == "rep" && replaced != "" {
			t = with("rep", outer[replaced])
		}
		g.Tokens = append(g.Tokens, t)
	}
	if set == "three" {
		if found == "" {
			return g, false
		}
		g.Tokens = append(g.Tokens, with("ext", outer[found]))
	}
	return g, true
}

// setAndRoot reads "one" or "one.root".
func parsed(g lref.Grammar, root, s string) string {
	p := &lref.Parser{G: g}
	n, m := p.Parse(root, s)
	if m != nil {
		return "mistake"
	}
	return fmt.Sprintf("%s %q", n, n.Text)
}

// the shortest texts that tell all of the grammars apart
func texts() []string {
	words := vlib.Strings([]string{"a", "b", " ", "_"}, 1, 5)
	type conf struct {
		g    lref.Grammar
		root string
	}
	confs := []conf{}
	for _, set := range []string{"one", "two", "three"} {
		for _, ch := range []string{"", "spaces", "lows"} {
			for _, f := range []string{"", "ab", "b"} {
				for _, rp := range []string{"", "ba", "aaa"} {
					if g, ok := grammar(set, ch, f, rp); ok {
						confs = append(confs, conf{g, "root"}, conf{g, "other"})
					}
				}
			}
		}
	}
	class := make([]string, len(confs))
	split := func(w string) []string {
		out := make([]string, len(confs))
		for i, c := range confs {
			out[i] = class[i] + "|" + parsed(c.g, c.root, w)
		}
		return out
	}
	count := func(l []string) int {
		m := map[string]bool{}
		for _, x := range l {
			m[x] = true
		}
		return len(m)
	}
	best := []string{}
	for {
		before, top, word := count(class), 0, ""
		for _, w := range words {
			if n := count(split(w)); n > before && n > top {
				top, word = n, w
			}
		}
		if word == "" {
			return best
		}
		class = split(word)
		best = append(best, word)
	}
}

type world struct {
	rules   rules.Rules
	texts   []string
	sets    map[string]tokens.Tokens
	chans   map[string]tokens.Tokens
	outer   map[string]paths.Path
	replace map[string]paths.Path
}

func find(t tokens.Tokens, n string) tokens.Token {
	x, err := t.Find(n)
	must(err)
	return x
}

func newWorld() *world {
	w := &world{texts: texts(), sets: map[string]tokens.Tokens{}, chans: map[string]tokens.Tokens{}, outer: map[string]paths.Path{}, replace: map[string]paths.Path{}}
	w.rules = ldrive.Rules(lref.Grammar{Rules: theRules})
	for n, s := range tokenSets {
		// a test for every text
		l := []lref.Token{}
		for _, t := range s {
			t.Suite = []string{"refused"} // the blank before the first text is a part of it
			for _, x := range w.texts {
				if strings.TrimSpace(x) == x {
					t.Suite = append(t.Suite, x)
				}
			}
			l = append(l, t)
		}
		w.sets[n] = ldrive.Tokens(w.rules, l)
	}
	for n, s := range channelSets {
		w.chans[n] = ldrive.Tokens(w.rules, s)
	}
	for n, l := range outer {
		for name, into := range map[string]map[string]paths.Path{"ext": w.outer, "rep": w.replace} {
			ad, err := paths.NewAdapterBuilder().Create().WithTokens(ldrive.Tokens(w.rules, []lref.Token{with(name, l)})).Now()
			must(err)
			p, err := ad.ToPath(find(ldrive.Tokens(w.rules, []lref.Token{with(name, l)}), name))
			must(err)
			into[n] = p
		}
	}
	return w
}

func (w *world) found(n string) value {
	return value{n, paths.FetchTokenNotFoundFn(func(name string) paths.Path {
		if name == "ext" {
			return w.outer[n]
		}
		return nil
	})}
}

func (w *world) replaced(n string) value {
	return value{n, paths.FetchElementReplacementFn(func(name string) (paths.Element, []paths.Element) {
		if name == "rep" {
			return w.replace[n].Element(), w.replace[n].Dependencies().All()
		}
		return nil, nil
	})}
}

func (w *world) common() []field {
	return []field{
		{"WithChannels", false, []value{{"spaces", w.chans["spaces"]}, {"lows", w.chans["lows"]}}},
		{"WithTokenNotFoundFunc", false, []value{w.found("ab"), w.found("b")}},
		{"WithTokenReplacementFunc", false, []value{w.replaced("ba"), w.replaced("aaa")}},
	}
}

func (w *world) tokens() field {
	return field{"WithTokens", true, []value{{"one", w.sets["one"]}, {"two", w.sets["two"]}, {"three", w.sets["three"]}}}
}

func main() {
	r := vlib.New("C30")
	r.Rule = "every builder of a reader (of tokens, of references, of texts, of test suites, the application, the manager of events, ciphers and their keys): every combination of what it can be given, in both orders, is built when what is mandatory is there and then does what the reference says for these values; every pair of values makes a difference somewhere; then, from nothing, from the first and from the second values of all fields, every sequence up to the bound of setting, building, starting over and going back to the builder before: each reader does what one that is built at once does, also after all of the sequence; non-trivial: combinations that are built"
	w := newWorld()
	for _, k := range w.kinds() {
		depth := 4
		if len(k.fields) > 3 {
			depth = 3
		}
		if r.Thorough() {
			depth++
		}
		k.explore(r, depth)
	}
	for _, d := range scratch {
		os.RemoveAll(d)
	}
	r.Finish()
}

func (w *world) kinds() []*kind {
	out := []*kind{}
	// tokens
	other := ldrive.Rules(lref.Grammar{Rules: []lref.Rule{{Name: "AA", Const: "x"}, {Name: "CC", Const: "c"}}})
	out = append(out, &kind{name: "tokens adapter", new: func() interface{} { return tokens.NewAdapterBuilder() },
		fields: []field{{"WithRules", true, []value{{"ab", w.rules}, {"xc", other}}}},
		want: func(g []string) string {
			return map[string]string{"ab": "AA(a) BB(b) -", "xc": "AA(x) - CC(c)"}[g[0]]
		},
		probe: func(o interface{}) string {
			l := []string{}
			for _, n := range []string{"AA", "BB", "CC"} {
				list, err := o.(tokens.Adapter).ToTokens("t : " + n + " ;")
				if err != nil {
					l = append(l, "-")
					continue
				}
				rule := find(list, "t").Block().Must().All()[0].Instructions()[0].Element().Content().Rule()
				l = append(l, rule.Name()+"("+rule.Element().Content().Constant()+")")
			}
			return strings.Join(l, " ")
		}})
	// references
	out = append(out, &kind{name: "paths adapter", new: func() interface{} { return paths.NewAdapterBuilder() },
		fields: append([]field{w.tokens()}, w.common()[1:]...),
		want: func(g []string) string {
			gr, ok := grammar(g[0], "", g[1], g[2])
			if !ok {
				return "-"
			}
			l := []string{}
			for _, n := range []string{"root", "other"} {
				l = append(l, n+":"+spelled(gr, n))
			}
			return strings.Join(l, " ")
		},
		probe: func(o interface{}) string {
			l := []string{}
			for _, n := range []string{"root", "other"} {
				did := w.asked(o.(paths.Adapter), n)
				if did == "-" {
					return did
				}
				l = append(l, n+":"+did)
			}
			return strings.Join(l, " ")
		}})
	return append(out, w.more()...)
}

// spelled is the only text of a token.
func spelled(g lref.Grammar, name string) string {
	out := ""
	for _, x := range g.Token(name).Must[0] {
		if x.IsRule() {
			out += g.Rule(x.Name).Const
			continue
		}
		out += spelled(g, x.Name)
	}
	return out
}

// asked lets an adapter resolve a token that refers to a token of the adapter.
func (w *world) asked(a paths.Adapter, name string) string {
	t := find(ldrive.Tokens(w.rules, []lref.Token{with("asking", line(name))}), "asking")
	p, err := a.ToPath(t)
	if err != nil {
		return "-"
	}
	return elementText(p.Element())
}

func elementText(x paths.Element) string {
	out := ""
	for _, i := range x.Must()[0].Instructions() {
		c := i.Container()
		switch {
		case c.IsRule():
			out += c.Rule().Base().Element().Content().Constant()
		case c.IsToken():
			out += elementText(c.Token().Path().Element())
		default:
			out += "?"
		}
	}
	return out
}

func (w *world) more() []*kind {
	out := []*kind{}
	roots := field{"", true, nil}
	for _, set := range []string{"one", "two", "three"} {
		for _, n := range []string{"root", "other"} {
			if set == "one" || n == "other" {
				roots.vals = append(roots.vals, value{set + "." + n, find(w.sets[set], n)})
			}
		}
	}
	// the root of a set is read with the tokens of another one, whose own token of that name it hides
	mixed := func(root, set, channels, found, replaced string) (lref.Grammar, string, bool) {
		g, ok := grammar(set, channels, found, replaced)
		from := strings.Split(root, ".")
		for _, t := range tokenSets[from[0]] {
			if t.Name == from[1] {
				t.Name = "asked"
				g.Tokens = append(g.Tokens, t)
				for _, x := range t.Must[0] {
					if x.Name == "ext" && set != "three" {
						if found == "" {
							return g, "", false
						}
						g.Tokens = append(g.Tokens, with("ext", outer[found]))
					}
				}
			}
		}
		return g, "asked", ok
	}
	want := func(show func(g lref.Grammar, root, s string) string) func(given []string) string {
		return func(v []string) string {
			g, root, ok := mixed(v[0], v[1], v[2], v[3], v[4])
			if !ok {
				return refused
			}
			l := []string{}
			for _, s := range w.texts {
				l = append(l, show(g, root, s))
			}
			return strings.Join(l, " | ")
		}
	}
	accepts := func(g lref.Grammar, root, s string) string {
		p := &lref.Parser{G: g}
		n, m := p.Parse(root, s)
		if m != nil {
			return "-"
		}
		return n.Text
	}
	ast := roots
	ast.set = "WithRoot"
	out = append(out, &kind{name: "asts adapter", new: func() interface{} { return asts.NewAdapterBuilder() },
		fields: append([]field{ast, w.tokens()}, w.common()...), want: want(accepts),
		probe: func(o interface{}) string {
			l := []string{}
			for _, s := range w.texts {
				x, err := o.(asts.Adapter).ToAST(s)
				switch {
				case err != nil:
					l = append(l, "error")
				case x.IsMistake():
					l = append(l, "-")
				default:
					l = append(l, x.Success().Discovery())
				}
			}
			return strings.Join(l, " | ")
		}})
	tok := roots
	tok.set = "WithToken"
	out = append(out, &kind{name: "ast tokens adapter", new: func() interface{} { return asttokens.NewAdapterBuilder() },
		fields: append([]field{tok, w.tokens()}, w.common()...), want: want(accepts),
		probe: func(o interface{}) string {
			l := []string{}
			for _, s := range w.texts {
				x, err := o.(asttokens.Adapter).ToToken(s)
				switch {
				case err != nil:
					l = append(l, "error")
				case !x.IsValid():
					l = append(l, "-")
				default:
					l = append(l, x.Content().Must().Matches().Discoveries())
				}
			}
			return strings.Join(l, " | ")
		}})
	out = append(out, &kind{name: "suites application", new: func() interface{} { return suites.NewApplicationBuilder() },
		fields: append([]field{w.tokens()}, w.common()...),
		want: func(v []string) string {
			g, ok := grammar(v[0], v[1], v[2], v[3])
			if !ok {
				return "error"
			}
			l := []string{}
			for _, t := range tokenSets[v[0]] {
				for _, s := range w.texts {
					if strings.TrimSpace(s) == s {
						// what a token is replaced by is what is read where others refer to it
						p := &lref.Parser{G: lref.Grammar{Rules: g.Rules, Channels: g.Channels, Tokens: append([]lref.Token{with("tested", t.Must[0])}, g.Tokens...)}}
						_, m := p.Parse("tested", s)
						l = append(l, fmt.Sprintf("%s %q %v", t.Name, s, m == nil))
					}
				}
			}
			sort.Strings(l)
			return strings.Join(l, " | ")
		},
		probe: func(o interface{}) string {
			list, err := o.(suites.Application).Execute()
			if err != nil {
				return "error"
			}
			l := []string{}
			for _, x := range list {
				i := 1
				for _, s := range w.texts {
					if strings.TrimSpace(s) == s {
						l = append(l, fmt.Sprintf("%s %q %v", x.Name(), s, x.Lines()[i].IsSuccess()))
						i++
					}
				}
			}
			sort.Strings(l)
			return strings.Join(l, " | ")
		}})
	return append(out, w.applications()...)
}

const patternsText = "unused : UN ;\nUN : $U ;\n$U : \"u\" ;\n"

func (w *world) container(text string) res_containers.Container {
	c, err := res_containers.NewBuilder().Create().WithPatterns(patternsText).WithRules(lref.Grammar{Rules: theRules}.RulesText(ldrive.Style)).WithTokens(text).Now()
	must(err)
	return c
}

func (w *world) applications() []*kind {
	dir, err := ioutil.TempDir("", "c30")
	must(err)
	scratch = append(scratch, dir)
	base := []value{}
	for n, text := range []string{"tok : AA ;", "tok : BB ;"} {
		d := filepath.Join(dir, fmt.Sprint(n))
		must(os.MkdirAll(d, 0700))
		must(ioutil.WriteFile(filepath.Join(d, "inc.rules"), []byte(lref.Grammar{Rules: theRules}.RulesText(ldrive.Style)), 0600))
		must(ioutil.WriteFile(filepath.Join(d, "inc.tokens"), []byte(text), 0600))
		p, err := basepaths.NewBuilder().Create().WithRules(d).WithTokens(d).WithChannels(d).Now()
		must(err)
		base = append(base, value{fmt.Sprint(n), p})
	}
	text := "include inc \"inc.rules;inc.tokens\"\nreference ext inc.tok\nroot : ext rep ;\nrep : AA ;\n"
	out := []*kind{{name: "lexers application", new: func() interface{} { return lexers.NewBuilder() },
		fields: []field{{"WithBasePaths", true, base}, {"WithReplacementPaths", false, []value{
			{"ba", map[string]paths.Path{"rep": w.replace["ba"]}}, {"aaa", map[string]paths.Path{"rep": w.replace["aaa"]}}}}},
		want: func(v []string) string {
			found := map[string]string{"0": "a", "1": "b"}[v[0]]
			rep := map[string]string{"": "a", "ba": "ba", "aaa": "aaa"}[v[1]]
			l := []string{}
			for _, s := range w.texts {
				if strings.HasPrefix(s, found+rep) {
					l = append(l, found+rep)
				} else {
					l = append(l, "-")
				}
			}
			return strings.Join(l, " | ")
		},
		probe: func(o interface{}) string {
			l := []string{}
			for _, s := range w.texts {
				x, err := o.(lexers.Application).AST(w.single(text), content(s))
				switch {
				case err != nil:
					l = append(l, "error")
				case x.IsMistake():
					l = append(l, "-")
				default:
					l = append(l, x.Success().Discovery())
				}
			}
			return strings.Join(l, " | ")
		}}}
	// events
	tree, mistake, err := ldrive.App().Root(w.single("root : sub BB ;\nsub : AA ;\n"), content("ab"))
	must(err)
	if mistake != nil {
		panic("the text of the events is refused")
	}
	says := func(s string) []parsers.EventFunc {
		return []parsers.EventFunc{func(root roots.Root, m parsers.Manager) (interface{}, error) { return s, nil }}
	}
	out = append(out, &kind{name: "manager", new: func() interface{} { return parsers.NewManagerBuilder() },
		fields: []field{{"WithEvents", true, []value{
			{"both", map[string][]parsers.EventFunc{"root": says("first"), "sub": says("second")}},
			{"root", map[string][]parsers.EventFunc{"root": says("other")}},
			{"sub", map[string][]parsers.EventFunc{"sub": says("third")}},
		}}},
		want: func(v []string) string {
			return map[string]string{"both": "first,second", "root": "other,error", "sub": "error,third"}[v[0]]
		},
		probe: func(o interface{}) string {
			show := func(x parsers.Result, err error) string {
				if err != nil {
					return "error"
				}
				return fmt.Sprint(x.First())
			}
			return show(o.(parsers.Manager).Execute(tree)) + "," + show(o.(parsers.Manager).Trigger("sub", tree))
		}})
	// ciphers
	cipher := map[string]string{}
	words := []string{"one", "two", ""}
	vals := []value{}
	for _, p := range words {
		c, err := password.NewBuilder().Create().WithPassword([]byte(p)).Now()
		must(err)
		cipher[p], err = c.Encrypt([]byte("a message of " + p))
		must(err)
		vals = append(vals, value{fmt.Sprintf("%q", p), []byte(p)})
	}
	out = append(out, &kind{name: "cipher", new: func() interface{} { return password.NewBuilder() }, fields: []field{{"WithPassword", true, vals}},
		want: func(v []string) string {
			l := []string{}
			for _, p := range words {
				l = append(l, fmt.Sprint(fmt.Sprintf("%q", p) == v[0]))
			}
			return strings.Join(l, " ") + " true"
		},
		probe: func(o interface{}) string {
			l := []string{}
			for _, p := range words {
				m, err := o.(password.Encryption).Decrypt(cipher[p])
				l = append(l, fmt.Sprint(err == nil && string(m) == "a message of "+p))
			}
			t, err := o.(password.Encryption).Encrypt([]byte("again"))
			must(err)
			m, err := o.(password.Encryption).Decrypt(t)
			return strings.Join(l, " ") + fmt.Sprint(" ", err == nil && string(m) == "again")
		}})
	keys := []*rsa.PrivateKey{}
	publics, privates := []value{}, []value{}
	for n := 0; n < 2; n++ {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		must(err)
		keys = append(keys, k)
		publics = append(publics, value{fmt.Sprint(n), k.PublicKey})
		privates = append(privates, value{fmt.Sprint(n), *k})
	}
	which := func(v []string) string { return v[0] }
	number := func(k rsa.PublicKey) string {
		for n := range keys {
			if keys[n].N.Cmp(k.N) == 0 && keys[n].E == k.E {
				return fmt.Sprint(n)
			}
		}
		return "unknown"
	}
	out = append(out, &kind{name: "public key", new: func() interface{} { return encryption.NewPublicKeyBuilder() }, fields: []field{{"WithKey", true, publics}}, want: which,
		probe: func(o interface{}) string {
			k := o.(encryption.PublicKey)
			c, err := k.Encrypt([]byte("m"))
			must(err)
			n := number(k.Key())
			for i := range keys {
				p, err := encryption.NewBuilder().Create().WithPK(*keys[i]).Now()
				must(err)
				m, err := p.Decrypt(c)
				if (err == nil && string(m) == "m") != (fmt.Sprint(i) == n) {
					return "it encrypts for another key"
				}
			}
			return n
		}},
		&kind{name: "private key", new: func() interface{} { return encryption.NewBuilder() }, fields: []field{{"WithPK", true, privates}}, want: which,
			probe: func(o interface{}) string {
				k := o.(encryption.PrivateKey)
				own := k.Key()
				if number(own.PublicKey) != number(k.Public().Key()) {
					return "its public key is another one"
				}
				c, err := k.Public().Encrypt([]byte("m"))
				must(err)
				m, err := k.Decrypt(c)
				if err != nil || string(m) != "m" {
					return "it does not decrypt"
				}
				return number(own.PublicKey)
			}})
	return out
}

var scratch []string

func (w *world) single(text string) res_singles.Single {
	m, err := res_multiples.NewBuilder().Create().WithContainer(w.container(text)).Now()
	must(err)
	s, err := res_singles.NewBuilder().Create().WithMultiple(m).WithRootToken("root").Now()
	must(err)
	return s
}

// differs shows where the outcomes differ.
func differs(got, want string) string {
	g, w := strings.Split(got, " | "), strings.Split(want, " | ")
	if len(g) != len(w) {
		return fmt.Sprintf("\n got  %s\n want %s", got, want)
	}
	out := ""
	for i := range g {
		if g[i] != w[i] {
			out += fmt.Sprintf("\n got  %s (want %s)", g[i], w[i])
		}
	}
	return out
}
