// C24: a program of the base language is read as the program it says.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	appparsers "github.com/steve-care-software/steve/applications/languages/parsers"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func read(name string) string {
	d, err := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "domain/languages/scripts/resources/base", name))
	if err != nil {
		vlib.Failf("%s", err)
	}
	return string(d)
}

// reader of scripts: adapters are not to be shared by goroutines.
type reader struct {
	tokens, channels tokens.Tokens
	adapters         map[string]asts.Adapter
	used             int
	events           map[string][]appparsers.EventFunc
}

func newReader() *reader {
	p, err := patterns.NewAdapter().ToPatterns(read("patterns.alex"))
	if err != nil {
		vlib.Failf("patterns: %s", err)
	}
	r, err := rules.NewAdapter().Rules(read("rules.alex"), p)
	if err != nil {
		vlib.Failf("rules: %s", err)
	}
	ta, err := tokens.NewAdapterBuilder().Create().WithRules(r).Now()
	if err != nil {
		vlib.Failf("tokens: %s", err)
	}
	toks, err := ta.ToTokens(read("tokens.alex"))
	if err != nil {
		vlib.Failf("tokens: %s", err)
	}
	chans, err := ta.ToTokens(read("channels.alex"))
	if err != nil {
		vlib.Failf("channels: %s", err)
	}
	return &reader{tokens: toks, channels: chans, adapters: map[string]asts.Adapter{}, events: parsers.NewEvents(64)}
}

func (x *reader) adapter(root string) asts.Adapter {
	x.used++
	if x.used > 200 {
		// adapters keep what they read
		x.used, x.adapters = 0, map[string]asts.Adapter{}
	}
	if a, ok := x.adapters[root]; ok {
		return a
	}
	t, err := x.tokens.Find(root)
	if err != nil {
		vlib.Failf("%s", err)
	}
	a, err := asts.NewAdapterBuilder().Create().WithRoot(t).WithTokens(x.tokens).WithChannels(x.channels).Now()
	if err != nil {
		vlib.Failf("%s", err)
	}
	x.adapters[root] = a
	return a
}

// tree of a script, nil when it is refused.
func (x *reader) tree(root, script string) roots.Root {
	ast, err := x.adapter(root).ToAST(script)
	if err != nil {
		vlib.Failf("%s", err)
	}
	if ast.IsMistake() {
		return nil
	}
	tree, err := roots.NewAdapter().ToRoot(ast.Success())
	if err != nil {
		vlib.Failf("%s", err)
	}
	return tree
}

func (x *reader) value(tree roots.Root) (interface{}, error) {
	return appparsers.NewApplication().Execute(tree, x.events)
}

func show(root string, v interface{}) string {
	switch root {
	case "program":
		return showProgram(v.(parsers.Program))
	case "headerVariable":
		return showHeader(v.(parsers.HeaderVariable))
	case "instruction":
		return showInstruction(v.(parsers.Instruction))
	case "assignable":
		return showAssignable(v.(parsers.Assignable))
	case "operation":
		return showOperation(v.(parsers.Operation))
	case "assignment":
		return showAssignment(v.(parsers.Assignment))
	case "declarativeType":
		return showType(v.(parsers.Type))
	case "variableDeclaration":
		return showDeclaration(v.(parsers.VariableDeclaration))
	case "variableDeclarations":
		out := []string{}
		for _, d := range v.(parsers.VariableDeclarations).All() {
			out = append(out, showDeclaration(d))
		}
		return strings.Join(out, " ")
	}
	vlib.Failf("unknown root %s", root)
	return ""
}

type item struct {
	section, root string
	f             form
	styles        int
	invalid       bool
}

var timing = os.Getenv("VERIF_TIMING") != ""

func main() {
	log.SetOutput(ioutil.Discard)
	r := vlib.New("C24")
	r.Rule = "abstract programs of the base language are enumerated (names, values, types, operations, lists, assignments, control flow, headers, whole programs), written in four styles of spacing and comments, read with the grammar of the repository and executed with its events: the program obtained is compared with the abstract one; non-trivial: all"
	items := generate(r.Thorough())
	pool := make(chan *reader, 16)
	for i := 0; i < 8; i++ {
		pool <- newReader()
	}
	counts := map[string]int64{}
	for _, it := range items {
		counts[it.section]++
	}
	for s, n := range counts {
		r.Section(s, n)
	}
	var mu sync.Mutex
	spent := map[string]time.Duration{}
	r.Parallel(len(items), func(i int) {
		if r.Expired("programs") {
			return
		}
		x := <-pool
		defer func() { pool <- x }()
		it := items[i]
		if timing {
			t := time.Now()
			defer func() { mu.Lock(); spent[it.section] += time.Since(t); mu.Unlock() }()
		}
		for si := 0; si < it.styles; si++ {
			s := styles[si]
			script := write(it.f.lex, s)
			id := fmt.Sprintf("%s:%s:%s:%q", it.section, it.root, s.name, script)
			key := fmt.Sprintf("%s:%s", it.section, strings.Join(it.f.lex, " "))
			r.Case(id, func() {
				tree := x.tree(it.root, script)
				r.Step(1)
				if tree == nil {
					vlib.FailKey(key, "refused, instead of %s", it.f.want)
				}
				if rest := strings.TrimPrefix(script, tree.Content()); !strings.HasSuffix(s.after, rest) {
					vlib.FailKey(key, "only %q is read, instead of everything: %s", tree.Content(), it.f.want)
				}
				v, err := x.value(tree)
				if it.invalid {
					if err == nil {
						vlib.FailKey(key, "read as %s, instead of an error", show(it.root, v))
					}
					return
				}
				if err != nil {
					vlib.FailKey(key, "fails: %s, instead of %s", err, it.f.want)
				}
				if got := show(it.root, v); got != it.f.want {
					vlib.FailKey(key, "read as %s, instead of %s", got, it.f.want)
				}
				r.Nontrivial()
				r.State(it.f.want)
				r.Outcome(it.f.want)
			})
		}
	})
	if timing {
		fmt.Println(spent)
	}
	examples(r, pool)
	mutants(r, pool)
	application(r)
	types2(r)
	r.Finish()
}
