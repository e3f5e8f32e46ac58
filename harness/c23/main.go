// C23: the events of a parsed text are executed as they are registered.
package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// behaviour of one event: what it does with the token it is given.
//
//	text      gives the text of the token
//	fail      fails
//	nothing   gives nothing
//	=n        gives the result of triggering n
//	[n m]     gives a text made of the results of triggering n and m, failing when one of them fails
//	n?        the same, but reads "none" when n fails
//	@3        gives a result of three elements
//	@1        gives a result of one list
//	@deep     gives a result whose only element is a result of two elements
//	@raw      gives a list, which is no result
//	flip      fails at every other call, and gives the number of the call at the others
//	!         executes the tree of another text, and gives what it gives
type behaviour string

// inner is a result that is the element of another one.
type inner []interface{}

// made builds a result from a list, or from one element
func made(list []interface{}, one interface{}) parsers.Result {
	b := parsers.NewResultBuilder().Create()
	if list != nil {
		b.WithList(list)
	}
	if one != nil {
		b.WithElement(one)
	}
	res, err := b.Now()
	if err != nil {
		vlib.Failf("no result of %v: %s", list, err)
	}
	return res
}

func show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case parsers.Result:
		return "R" + show(x.List())
	case inner:
		return "R" + show([]interface{}(x))
	case []interface{}:
		out := []string{}
		for _, y := range x {
			out = append(out, show(y))
		}
		return "(" + strings.Join(out, " ") + ")"
	}
	return fmt.Sprintf("%T %v", v, v)
}

// event of the implementation
func event(b behaviour, token string, n int, trace *[]string, other roots.Root) parsers.EventFunc {
	calls := 0
	busy := false
	return func(root roots.Root, m parsers.Manager) (interface{}, error) {
		*trace = append(*trace, fmt.Sprintf("%s.%d(%q)", token, n, root.Content()))
		if root.Name() != token {
			vlib.Failf("an event of %s is given the token %s", token, root.Name())
		}
		switch {
		case b == "text":
			return token + ":" + root.Content(), nil
		case b == "fail":
			return nil, errors.New("fail 100%d")
		case b == "nothing":
			return nil, nil
		case b == "@3":
			return made([]interface{}{"one", token, 3}, nil), nil
		case b == "@1":
			return made([]interface{}{[]interface{}{"one", token}}, nil), nil
		case b == "@deep":
			return made(nil, made([]interface{}{"deep", token}, nil)), nil
		case b == "@raw":
			return []interface{}{"raw", token}, nil
		case b == "flip":
			calls++
			if calls%2 == 1 {
				return nil, errors.New("not this time")
			}
			return fmt.Sprintf("%s#%d", token, calls), nil
		case b == "!":
			if busy {
				return "again " + root.Content(), nil
			}
			busy = true
			res, err := m.Execute(other)
			busy = false
			if err != nil {
				return nil, err
			}
			return fmt.Sprintf("%s of %s", show(res.List()), root.Content()), nil
		case b[0] == '=':
			res, err := m.Trigger(string(b[1:]), root)
			if err != nil {
				return nil, err
			}
			return res, nil
		}
		out := []string{}
		for _, x := range strings.Fields(strings.Trim(string(b), "[]")) {
			res, err := m.Trigger(strings.TrimSuffix(x, "?"), root)
			if err != nil {
				if strings.HasSuffix(x, "?") {
					out = append(out, "none")
					continue
				}
				return nil, err
			}
			l := res.List()
			if show(res.First()) != show(l[0]) || res.IsSingle() != (len(l) == 1) {
				vlib.Failf("a result of %d elements, first %s, single %v", len(l), show(res.First()), res.IsSingle())
			}
			out = append(out, show(l))
		}
		return token + "<" + strings.Join(out, ",") + ">", nil
	}
}

// reference of the dispatch
type dispatcher struct {
	events map[string][]behaviour
	trace  []string
	silent bool
	other  *lref.Node
	calls  map[string]int
	busy   map[string]bool
}

type multi []interface{}

type found struct {
	text string
	node *lref.Node
}

// search of a name below a token: the direct one, or the only nested one.
func (d *dispatcher) search(n *lref.Node, name string) ([]found, bool) {
	out := []found{}
	for _, i := range n.Items {
		if i.Name != name {
			continue
		}
		if i.Rule {
			out = append(out, found{i.Text, nil})
		}
		for _, x := range i.Nodes {
			out = append(out, found{x.Text, x})
		}
	}
	if len(out) > 0 {
		return out, true
	}
	ways := 0
	for _, i := range n.Items {
		for _, x := range i.Nodes {
			if f, ok := d.search(x, name); ok {
				ways++
				out = f
			}
		}
	}
	if ways > 1 {
		d.silent = true
	}
	return out, ways > 0
}

// execute the events of a token
func (d *dispatcher) execute(n *lref.Node) (interface{}, bool) {
	list, ok := d.events[n.Token]
	if !ok {
		return nil, false
	}
	for k, b := range list {
		d.trace = append(d.trace, fmt.Sprintf("%s.%d(%q)", n.Token, k, n.Text))
		switch {
		case b == "text":
			return n.Token + ":" + n.Text, true
		case b == "fail":
			continue
		case b == "nothing":
			return nil, true
		case b == "@3":
			return multi{"one", n.Token, 3}, true
		case b == "@1":
			return []interface{}{"one", n.Token}, true
		case b == "@deep":
			return inner{"deep", n.Token}, true
		case b == "@raw":
			return []interface{}{"raw", n.Token}, true
		case b == "flip":
			key := fmt.Sprintf("%s.%d", n.Token, k)
			d.calls[key]++
			if d.calls[key]%2 == 1 {
				continue
			}
			return fmt.Sprintf("%s#%d", n.Token, d.calls[key]), true
		case b == "!":
			key := fmt.Sprintf("%s.%d", n.Token, k)
			if d.busy[key] {
				return "again " + n.Text, true
			}
			d.busy[key] = true
			v, ok := d.execute(d.other)
			d.busy[key] = false
			if !ok || v == nil {
				continue
			}
			return fmt.Sprintf("%s of %s", listed(v), n.Text), true
		case b[0] == '=':
			l, ok := d.trigger(n, string(b[1:]))
			if !ok {
				continue
			}
			if len(l) == 1 {
				return l[0], true
			}
			return l, true
		}
		out := []string{}
		good := true
		for _, x := range strings.Fields(strings.Trim(string(b), "[]")) {
			l, ok := d.trigger(n, strings.TrimSuffix(x, "?"))
			if !ok && strings.HasSuffix(x, "?") {
				out = append(out, "none")
				continue
			}
			if !ok {
				good = false
				break
			}
			out = append(out, show([]interface{}(l)))
		}
		if good {
			return n.Token + "<" + strings.Join(out, ",") + ">", true
		}
	}
	return nil, false
}

func (d *dispatcher) trigger(n *lref.Node, name string) (multi, bool) {
	list, ok := d.search(n, name)
	if !ok {
		return nil, false
	}
	out := multi{}
	for _, f := range list {
		if f.node == nil {
			out = append(out, f.text)
			continue
		}
		v, ok := d.execute(f.node)
		if !ok {
			return nil, false
		}
		if l, is := v.(multi); is {
			v = []interface{}(l)
		}
		out = append(out, v)
	}
	return out, true
}

// listed is the list of a result that has a value
func listed(v interface{}) string {
	if l, is := v.(multi); is {
		return show([]interface{}(l))
	}
	return show([]interface{}{v})
}

// histories of requests to one manager: nothing of a request is left for the next one, whichever trees they are about.
func histories(r *vlib.R, id string, c lref.Case, s string, n *lref.Node, root roots.Root) {
	adapter := ldrive.Adapter(ldrive.Rules(c.G), c.G, c.Root)
	ref := &lref.Parser{G: c.G}
	read := func(text string) roots.Root {
		ast, err := adapter.ToAST(text)
		if err != nil || !ast.IsSuccess() {
			vlib.Failf("%q is not parsed: %v", text, err)
		}
		out, err := roots.NewAdapter().ToRoot(ast.Success())
		if err != nil {
			vlib.Failf("no tree: %s", err)
		}
		return out
	}
	trees := []roots.Root{root}
	nodes := []*lref.Node{n}
	for _, other := range c.Scripts {
		if other == s || len(other) == 0 || len(trees) > 1 {
			continue
		}
		o, _ := ref.Parse(c.Root, other)
		if o == nil || ref.LeftRecursive || ref.Partial || ref.Exhausted || o.Text != other {
			continue
		}
		trees, nodes = append(trees, read(other)), append(nodes, o)
	}
	// the same text, read again, is another tree
	trees, nodes = append(trees, read(s)), append(nodes, n)
	kinds := []map[string][]behaviour{
		{"x": {"flip", "text"}, "y": {"flip"}, "z": {"text"}},
		{"x": {"[y? z? A?]"}, "y": {"flip", "text"}, "z": {"flip"}},
		{"x": {"=y", "flip"}, "y": {"!"}, "z": {"flip", "text"}},
		{"x": {"!", "text"}, "y": {"text", "flip"}, "z": {"flip"}},
		{"x": {"flip", "!", "[y? z?]"}, "y": {"nothing"}, "z": {"=A", "!"}},
	}
	requests := []string{"", "x", "y", "A"}
	last := len(trees) - 1
	amount := len(requests) * len(trees)
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	for at, chosen := range kinds {
		dims := []int{}
		for k := 0; k < depth; k++ {
			dims = append(dims, amount)
		}
		vlib.Product(dims, func(idx []int) {
			trace := []string{}
			events := map[string][]parsers.EventFunc{}
			for name, l := range chosen {
				for k, b := range l {
					events[name] = append(events[name], event(b, name, k, &trace, trees[last]))
				}
			}
			m, err := parsers.NewManagerBuilder().Create().WithEvents(events).Now()
			if err != nil {
				vlib.Failf("%v: %s", chosen, err)
			}
			d := &dispatcher{events: chosen, other: nodes[last], calls: map[string]int{}, busy: map[string]bool{}}
			said := []string{}
			for _, k := range idx {
				name, of := requests[k%len(requests)], k/len(requests)
				want := "error"
				if name == "" {
					if v, ok := d.execute(nodes[of]); ok && v != nil {
						want = listed(v)
					}
				} else if l, ok := d.trigger(nodes[of], name); ok {
					want = show([]interface{}(l))
				}
				if d.silent {
					return
				}
				var res parsers.Result
				if name == "" {
					res, err = m.Execute(trees[of])
				} else {
					res, err = m.Trigger(name, trees[of])
				}
				got := "error"
				if err == nil {
					got = show(res.List())
				}
				said = append(said, fmt.Sprintf("%q of tree %d", name, of))
				r.Step(1)
				if got != want || strings.Join(trace, " ") != strings.Join(d.trace, " ") {
					vlib.Failf("%s text %q events %v, after %v:\n got  %s by %v\n want %s by %v", lref.TokensText(c.G.Tokens, ldrive.Style), s, chosen, said, got, trace, want, d.trace)
				}
				r.Outcome(want)
			}
			r.State(fmt.Sprintf("%s:%d:%v", id, at, idx))
			r.Section("histories of requests", 1)
		})
	}
}

func main() {
	log.SetOutput(ioutil.Discard)
	r := vlib.New("C23")
	r.Rule = "accepted texts of the families x every combination of registered events (none, one that gives the text, nothing, a failure, the result of another name, a combination, with and without a fallback) of the tokens x, y and z: the result of every execution and of every trigger, and the sequence of the events that were called, are compared with a reference dispatcher; non-trivial: texts with nested tokens"
	cases := lref.Families(false)
	cases = append(cases, lref.Spelled(cases, 11, lref.Spellings)...)
	options := map[string][][]behaviour{
		"x": {nil, {"text"}, {"fail"}, {"fail", "text"}, {"=y"}, {"=A", "text"}, {"=x", "=B"}, {"[y A]", "[A]", "[B?]"}, {"nothing", "text"}, {"[y? B? x? z?]"}, {"fail", "@deep"}, {"=z", "fail", "=y", "text"}},
		"y": {nil, {"text"}, {"fail", "=z", "=A"}, {"[x? z? A?]", "text"}, {"nothing"}, {"=B", "fail"}, {"@3"}, {"@1"}},
		"z": {nil, {"text"}, {"fail", "[A? z? B?]"}, {"=A"}, {"@deep"}, {"fail", "@raw"}},
	}
	rootsOf := map[string]bool{}
	type item struct {
		c lref.Case
		s string
		n *lref.Node
		// the histories of several requests are explored too
		long bool
	}
	items := []item{}
	per := map[string]int{}
	for i, c := range cases {
		ref := &lref.Parser{G: c.G}
		taken := 0
		for _, s := range c.Scripts {
			if len(s) < 2 || taken >= 1 {
				continue
			}
			n, _ := ref.Parse(c.Root, s)
			if n == nil || ref.LeftRecursive || ref.Partial || ref.Exhausted || n.Text != s || n.Token != "x" {
				continue
			}
			nested := false
			for _, it := range n.Items {
				nested = nested || (!it.Rule && len(n.Items)+len(it.Nodes) > 2)
			}
			if !nested {
				continue
			}
			if rootsOf[n.String()] {
				continue
			}
			rootsOf[n.String()] = true
			taken++
			sec := strings.Split(c.Section, ",")[0]
			if sec != c.Section {
				sec = "spelled"
			}
			per[sec]++
			if (r.Thorough() && sec != "large") || per[sec] <= 40 {
				items = append(items, item{cases[i], s, n, per[sec] <= 6})
			}
		}
	}
	r.Parallel(len(items), func(i int) {
		if r.Expired("texts") {
			return
		}
		it := items[i]
		id := fmt.Sprintf("%s:%d", it.c.Section, i)
		r.Case(id, func() {
			ast, err := ldrive.Adapter(ldrive.Rules(it.c.G), it.c.G, it.c.Root).ToAST(it.s)
			if err != nil || !ast.IsSuccess() {
				vlib.Failf("%q is not parsed: %v", it.s, err)
			}
			root, err := roots.NewAdapter().ToRoot(ast.Success())
			if err != nil {
				vlib.Failf("no tree: %s", err)
			}
			check := func(label string, chosen map[string][]behaviour) {
				r.State(label)
				trace := []string{}
				events := map[string][]parsers.EventFunc{}
				names := []string{}
				for n, l := range chosen {
					for k, b := range l {
						events[n] = append(events[n], event(b, n, k, &trace, nil))
					}
					names = append(names, fmt.Sprintf("%s: %q", n, l))
				}
				sort.Strings(names)
				what := fmt.Sprintf("%s text %q events %s", lref.TokensText(it.c.G.Tokens, ldrive.Style), it.s, strings.Join(names, "; "))
				m, err := parsers.NewManagerBuilder().Create().WithEvents(events).Now()
				if err != nil {
					vlib.Failf("%s: %s", what, err)
				}
				describe := func(res parsers.Result, err error) string {
					if err != nil {
						return "error"
					}
					if show(res.First()) != show(res.List()[0]) || res.IsSingle() != (len(res.List()) == 1) {
						vlib.Failf("%s: a result of %d elements, first %s, single %v", what, len(res.List()), show(res.First()), res.IsSingle())
					}
					return show(res.List())
				}
				// execution of the root
				d := &dispatcher{events: chosen}
				v, ok := d.execute(it.n)
				want := "error"
				if ok && v != nil {
					want = show([]interface{}{v})
					if l, is := v.(multi); is {
						want = show([]interface{}(l))
					}
				}
				if !d.silent {
					got := describe(m.Execute(root))
					r.Step(1)
					if got != want || strings.Join(trace, " ") != strings.Join(d.trace, " ") {
						vlib.Failf("%s, executed:\n got  %s by %v\n want %s by %v", what, got, trace, want, d.trace)
					}
					r.Outcome(want)
					r.Nontrivial()
					trace = nil
					first, err := parsers.NewApplication().Execute(root, events)
					got = "error"
					if err == nil {
						got = show(first)
					}
					want = "error"
					if ok && v != nil {
						want = show(v)
						if l, is := v.(multi); is {
							want = show(l[0])
						}
					}
					if got != want || strings.Join(trace, " ") != strings.Join(d.trace, " ") {
						vlib.Failf("%s, by the application:\n got  %s by %v\n want %s by %v", what, got, trace, want, d.trace)
					}
				} else {
					r.Section("several nested tokens of the name", 1)
				}
				for _, n := range []string{"A", "B", "y", "z", "x", "nothing"} {
					d := &dispatcher{events: chosen}
					l, ok := d.trigger(it.n, n)
					if d.silent {
						continue
					}
					want := "error"
					if ok {
						want = show([]interface{}(l))
					}
					trace = nil
					got := describe(m.Trigger(n, root))
					r.Step(1)
					if got != want || strings.Join(trace, " ") != strings.Join(d.trace, " ") {
						vlib.Failf("%s, trigger of %s:\n got  %s by %v\n want %s by %v", what, n, got, trace, want, d.trace)
					}
					r.Outcome(want)
				}
			}
			dims := []int{len(options["x"]), len(options["y"]), len(options["z"])}
			vlib.Product(dims, func(idx []int) {
				chosen := map[string][]behaviour{}
				for k, n := range []string{"x", "y", "z"} {
					if l := options[n][idx[k]]; l != nil {
						chosen[n] = l
					}
				}
				if len(chosen) > 0 {
					check(fmt.Sprintf("%d:%v", i, idx), chosen)
				}
			})
			// many events of one token: the first that succeeds is the one that counts
			for _, n := range []int{5, 6, 7, 8, 9, 10, 12, 16, 17, 33} {
				for _, at := range []int{1, n / 2, n - 1, n} {
					for _, good := range []behaviour{"text", "=y", "[y? A?]"} {
						x, y := []behaviour{}, []behaviour{}
						for k := 0; k < n; k++ {
							if k < at {
								x, y = append(x, []behaviour{"fail", "=q", "[q]"}[k%3]), append(y, "fail")
								continue
							}
							x, y = append(x, good), append(y, "text")
							good = "nothing"
						}
						check(fmt.Sprintf("%d:many %d:%d:%s", i, n, at, good), map[string][]behaviour{"x": x, "y": y, "z": {"text"}})
					}
				}
			}
			if it.long {
				histories(r, id, it.c, it.s, it.n, root)
			}
			r.Sample("%s of %q", id, it.s)
		})
		r.Section(it.c.Section, 1)
	})
	if _, err := parsers.NewManagerBuilder().Create().Now(); err == nil {
		r.Violate("no event", "a manager without events is built")
	}
	r.Finish()
}
