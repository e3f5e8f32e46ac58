package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	applexers "github.com/steve-care-software/steve/applications/languages/lexers"
	appparsers "github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	res_containers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	res_multiples "github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	res_singles "github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/ldrive"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// examples: every example of the grammar is read entirely, and gives something.
func examples(r *vlib.R, pool chan *reader) {
	type example struct{ token, text string }
	all := []example{}
	x := <-pool
	for _, t := range x.tokens.All() {
		if !t.HasTestSuite() {
			continue
		}
		for _, l := range t.TestSuite().Lines() {
			if strings.Count(l, "(") > 4 && !r.Thorough() {
				continue // reading takes a time that is exponential in the nesting of parentheses
			}
			all = append(all, example{t.Name(), l})
		}
	}
	pool <- x
	r.Section("examples", int64(len(all)))
	var heavy sync.Mutex
	r.Parallel(len(all), func(i int) {
		x := <-pool
		defer func() { pool <- x }()
		e := all[i]
		if strings.Count(e.text, "(") > 4 {
			heavy.Lock()
			defer heavy.Unlock()
		}
		r.Case(fmt.Sprintf("examples:%s:%q", e.token, e.text), func() {
			tree := x.tree(e.token, e.text)
			if tree == nil {
				vlib.Failf("refused")
			}
			if rest := strings.TrimPrefix(e.text, tree.Content()); strings.TrimSpace(rest) != "" {
				vlib.Failf("only %q is read", tree.Content())
			}
			if len(x.events[e.token]) == 0 {
				return
			}
			if v, err := x.value(tree); err != nil || v == nil {
				vlib.Failf("gives nothing: %v", err)
			}
			r.Step(1)
			r.Nontrivial()
		})
	})
}

// mutants: one lexeme of a program is removed, replaced, or inserted. What is accepted of it is what it
// would be read as alone, and nothing crashes.
func mutants(r *vlib.R, pool chan *reader) {
	bases := []form{
		program([]form{header(true, typed(types(1)[6], "ab"), "key_name", true)}, []form{assign([]form{typed(types(0)[2], "cd"), name("_")}, false, []form{texts[2], op(name("ef"), "<=", numbers[9])})}),
		program(nil, []form{forEach(each(name("ab"), name("_"), slice(listName("cd"), uintValue("1"), &numbers[1]), 0), block(increment("ef", true))), logCall(list(numbers[5], bools[0]))}),
		program(nil, []form{ifThen(op(isNull(name("ab")), "&&", name("cd")), block(form{lx("break"), "break"})), assign([]form{name("ab"), name("cd")}, true, []form{appending(listName("ef"), numbers[1]), fetch(listName("gh"), name("ij"))})}),
		program(nil, []form{assign([]form{name("ab")}, false, []form{extract(list(numbers[0], texts[1]))}), increment("cd", false), {lx("continue"), "continue"}, typed(types(0)[3], "ab")}),
	}
	lexemes := lx("ab", "(", ")", "[", "]", "{", "}", ",", ":", "=", "==", "_", "...", "5", "1.5", "\"x\"", "\"", "-", "++", "->", "<-", "<", "?", "append", "for", "if", "log", "isNull", "true", "break", "list", "uint", "/*", "//")
	if !r.Thorough() {
		bases = bases[:3]
	}
	type mutant struct {
		id  string
		lex []string
	}
	all := []mutant{}
	for b, f := range bases {
		for i := range f.lex {
			all = append(all, mutant{fmt.Sprintf("%d remove %d", b, i), cat(f.lex[:i], f.lex[i+1:])})
			for _, l := range lexemes {
				all = append(all, mutant{fmt.Sprintf("%d replace %d by %q", b, i, l), cat(f.lex[:i], lx(l), f.lex[i+1:])})
				all = append(all, mutant{fmt.Sprintf("%d insert %q before %d", b, l, i), cat(f.lex[:i], lx(l), f.lex[i:])})
				if r.Thorough() {
					for j := i + 1; j < len(f.lex) && j < i+4; j++ {
						all = append(all, mutant{fmt.Sprintf("%d replace %d by %q, remove %d", b, i, l, j), cat(f.lex[:i], lx(l), f.lex[i+1:j], f.lex[j+1:])})
					}
				}
			}
		}
	}
	r.Section("altered programs", int64(len(all)))
	s := styles[1]
	r.Parallel(len(all), func(i int) {
		if r.Expired("altered programs") {
			return
		}
		x := <-pool
		defer func() { pool <- x }()
		m := all[i]
		script := write(m.lex, s)
		r.Case(fmt.Sprintf("altered:%s:%q", m.id, script), func() {
			tree := x.tree("program", script)
			r.Step(1)
			if tree == nil {
				return
			}
			read := tree.Content()
			v, err := x.value(tree)
			if err != nil {
				vlib.Failf("%q is accepted, but fails: %s", read, err)
			}
			got := showProgram(v.(parsers.Program))
			r.Outcome(got)
			if read == script {
				r.Nontrivial()
				return
			}
			alone := x.tree("program", read)
			if alone == nil {
				vlib.Failf("%q is read, but is refused alone", read)
			}
			v, err = x.value(alone)
			if err != nil {
				vlib.Failf("%q fails alone: %s", read, err)
			}
			if again := showProgram(v.(parsers.Program)); again != got {
				vlib.Failf("%q is read as %s, alone it is %s", read, got, again)
			}
		})
	})
}

// application: through the application, as a user does.
func application(r *vlib.R) {
	r.Case("application", func() {
		c, err := res_containers.NewBuilder().Create().WithPatterns(read("patterns.alex")).WithRules(read("rules.alex")).WithTokens(read("tokens.alex")).Now()
		if err != nil {
			vlib.Failf("%s", err)
		}
		m, err := res_multiples.NewBuilder().Create().WithContainer(c).WithChannels(read("channels.alex")).Now()
		if err != nil {
			vlib.Failf("%s", err)
		}
		s, err := res_singles.NewBuilder().Create().WithMultiple(m).WithRootToken("program").Now()
		if err != nil {
			vlib.Failf("%s", err)
		}
		dir := filepath.Join(os.Getenv("VERIF_REPO"), "domain/languages/scripts/resources")
		p, err := paths.NewBuilder().Create().WithRules(dir).WithTokens(dir).WithChannels(dir).Now()
		if err != nil {
			vlib.Failf("%s", err)
		}
		app, err := applexers.NewBuilder().Create().WithBasePaths(p).Now()
		if err != nil {
			vlib.Failf("%s", err)
		}
		hs := []form{header(true, typed(types(0)[2], "ab"), "first", false), header(false, typed(types(1)[6], "cd"), "second_one", true)}
		body := []form{assign([]form{name("ab")}, false, []form{numbers[1]}), ifThen(op(name("ab"), "<", numbers[1]), block(form{lx("break"), "break"})), increment("ab", false)}
		for i, f := range []form{program(nil, body), program(hs, body[:1]), program(hs[:1], body[1:]), program(nil, body[2:])} {
			for _, st := range styles {
				script := write(f.lex, st)
				tree, mistake, err := app.Root(s, ldrive.Content(script))
				if err != nil || mistake != nil {
					vlib.Failf("%q is refused: %v", script, err)
				}
				v, err := appparsers.NewApplication().Execute(tree, parsers.NewEvents(64))
				if err != nil {
					vlib.Failf("%q fails: %s", script, err)
				}
				if got := showProgram(v.(parsers.Program)); got != f.want {
					vlib.Failf("%d: %q is read as %s instead of %s", i, script, got, f.want)
				}
				r.Step(1)
			}
		}
	})
}

// types2: types are the same when their name and their depth are.
func types2(r *vlib.R) {
	r.Case("types compared", func() {
		x := newReader()
		list := types(3)
		got := []parsers.Type{}
		for _, f := range list {
			v, err := x.value(x.tree("declarativeType", write(f.lex, styles[0])))
			if err != nil {
				vlib.Failf("%s", err)
			}
			got = append(got, v.(parsers.Type))
		}
		for i, a := range got {
			for j, b := range got {
				r.Step(1)
				if (a.Compare(b) == nil) != (i == j) {
					vlib.Failf("%s and %s are compared wrongly: %v", list[i].want, list[j].want, a.Compare(b))
				}
			}
		}
	})
}
