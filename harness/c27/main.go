// C27: the elements of the model of a grammar and of what it recognized: every builder, every history of calls.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/asts"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/mistakes"
	apaths "github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/asts/results"
	atokens "github.com/steve-care-software/steve/domain/languages/lexers/asts/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/patterns"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/rules"
	"github.com/steve-care-software/steve/domain/languages/lexers/containers/tokens"
	"github.com/steve-care-software/steve/domain/languages/lexers/contents"
	"github.com/steve-care-software/steve/domain/languages/lexers/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/references"
	"github.com/steve-care-software/steve/domain/languages/lexers/references/links"
	rcontainers "github.com/steve-care-software/steve/domain/languages/lexers/resources/containers"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/multiples"
	rpaths "github.com/steve-care-software/steve/domain/languages/lexers/resources/paths"
	"github.com/steve-care-software/steve/domain/languages/lexers/resources/singles"
	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/domain/languages/lexers/suites"
	. "github.com/steve-care-software/steve/zz_verif/elements"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func must(s, g string) Field   { return Field{Set: s, Get: g, Mode: Must} }
func opt(s, g, h string) Field { return Field{Set: s, Get: g, Has: h, Mode: Opt} }
func alt(s, g, h string) Field { return Field{Set: s, Get: g, Has: h, Mode: Alt} }
func flag(s, g string) Field   { return Field{Set: s, Get: g, Mode: Flag} }
func altFlag(s, h string) Field {
	return Field{Set: s, Has: h, Mode: Alt, Vals: []Val{{Label: "yes", V: true}}}
}
func mustFn(s string, g func(o interface{}) interface{}) Field {
	return Field{Set: s, Mode: Must, GetFn: g}
}

// altIn is an alternative that is read on a part of what was built.
func altIn(s string, in func(o interface{}) interface{}, g, h string) Field {
	call := func(o interface{}, m string) reflect.Value {
		return reflect.ValueOf(in(o)).MethodByName(m).Call(nil)[0]
	}
	return Field{Set: s, Mode: Alt,
		GetFn: func(o interface{}) interface{} { return call(o, g).Interface() },
		HasFn: func(o interface{}) bool { return call(o, h).Bool() }}
}

// lookup checks that every name gives an element of that name: the last one that was given, or any of them;
// and that no other name gives anything.
func lookup(what string, n int, name func(i int) string, elem func(i int) interface{}, find func(name string) (interface{}, error)) string {
	last := map[string]interface{}{}
	for i := 0; i < n; i++ {
		last[name(i)] = elem(i)
	}
	for k, want := range last {
		got, err := find(k)
		if err != nil {
			return fmt.Sprintf("%s: %q is not found: %s", what, k, err)
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("%s: %q gives another element", what, k)
		}
		for _, near := range []string{k + "z", "z" + k, k + " ", " " + k, k + k, k[:len(k)-1], strings.ToUpper(k), strings.ToLower(k), strings.Title(k)} {
			if _, given := last[near]; given {
				continue
			}
			if got, err := find(near); err == nil {
				return fmt.Sprintf("%s: %q, which nobody gave, gives %v", what, near, got)
			}
		}
	}
	if got, err := find(""); err == nil {
		return fmt.Sprintf("%s: the empty name gives %v", what, got)
	}
	return ""
}

func unique(names []string) bool {
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	return true
}

func within(n, min uint, max *uint) bool { return n >= min && (max == nil || n <= *max) }

func specificHolds(s cardinality.Specific, n uint) bool {
	if s.IsAmount() {
		return n == *s.Amount()
	}
	return within(n, s.Range().Min(), s.Range().Max())
}

func delimiter(min uint, max *uint, wantMin uint, wantMax *uint) string {
	if min != wantMin || (max == nil) != (wantMax == nil) || max != nil && *max != *wantMax {
		return fmt.Sprintf("it is delimited by %d and %v", min, max)
	}
	return ""
}

func has(v *Val) bool { return v != nil && !v.Missing }

func text(v *Val) string {
	if !has(v) {
		return ""
	}
	return v.V.(string)
}

func cardinalities(w *World) {
	w.Add(&Kind{Name: "range", New: func() interface{} { return cardinality.NewRangeBuilder() }, Fields: []Field{
		{Set: "WithMinimum", Get: "Min", Mode: Opt, Default: uint(0)}, opt("WithMaximum", "Max", "HasMax"),
	}, Rule: func(v []*Val) bool {
		if !has(v[1]) {
			return true
		}
		min := uint(0)
		if has(v[0]) {
			min = v[0].V.(uint)
		}
		return v[1].V.(uint) >= min
	}})
	w.Add(&Kind{Name: "specific cardinality", New: func() interface{} { return cardinality.NewSpecificBuilder() }, Fields: []Field{
		alt("WithAmount", "Amount", "IsAmount"), alt("WithRange", "Range", "IsRange"),
	}, Rule: func(v []*Val) bool { return !has(v[0]) || v[0].V.(uint) > 0 },
		Extra: func(o interface{}, v []*Val) string {
			s := o.(cardinality.Specific)
			for n := uint(0); n < 10; n++ {
				if s.IsValid(n) != specificHolds(s, n) {
					return fmt.Sprintf("%d is valid: %v", n, s.IsValid(n))
				}
			}
			min, max := s.Delimiter()
			if s.IsAmount() {
				return delimiter(min, max, *s.Amount(), s.Amount())
			}
			return delimiter(min, max, s.Range().Min(), s.Range().Max())
		}})
	one := uint(1)
	w.Add(&Kind{Name: "cardinality", New: func() interface{} { return cardinality.NewBuilder() }, Fields: []Field{
		altFlag("IsOptional", "IsOptional"), altFlag("IsMandatory", "IsMandatory"), altFlag("IsNonZeroMultiple", "IsNonZeroMultiple"),
		altFlag("IsZeroMultiple", "IsZeroMultiple"), alt("WithSpecific", "Specific", "IsSpecific"),
	}, Extra: func(o interface{}, v []*Val) string {
		c := o.(cardinality.Cardinality)
		min, max := uint(0), (*uint)(nil)
		switch {
		case c.IsOptional():
			max = &one
		case c.IsMandatory():
			min, max = 1, &one
		case c.IsNonZeroMultiple():
			min = 1
		case c.IsSpecific():
			min, max = c.Specific().Delimiter()
		}
		for n := uint(0); n < 10; n++ {
			if c.IsValid(n) != within(n, min, max) {
				return fmt.Sprintf("%d is valid: %v", n, c.IsValid(n))
			}
		}
		m, x := c.Delimiter()
		return delimiter(m, x, min, max)
	}})
}

func patternKinds(w *World) {
	w.Add(&Kind{Name: "group", New: func() interface{} { return patterns.NewGroupBuilder() }, Fields: []Field{
		must("WithName", "Name"), {Set: "WithList", Mode: Must, GetFn: func(o interface{}) interface{} { return o.(patterns.Group).Content().List() },
			Vals: []Val{{Label: "nil", Missing: true}, {Label: "[]", V: []string{}, Missing: true}, {Label: "[p]", V: []string{"p"}}, {Label: "[q pp p]", V: []string{"q", "pp", "p"}}, {Label: "[p pp]", V: []string{"p", "pp"}}}},
	}, Extra: func(o interface{}, v []*Val) string {
		c := o.(patterns.Group).Content()
		list := v[1].V.([]string)
		if int(c.Length()) != len(list) || c.First() != list[0] {
			return fmt.Sprintf("it has %d elements, the first one %q", c.Length(), c.First())
		}
		for _, s := range []string{"", "p", "pp", "ppp", "pq", "qp", "x", "xp"} {
			longest := 0
			for _, e := range list {
				if strings.HasPrefix(s, e) && len(e) > longest {
					longest = len(e)
				}
			}
			if int(c.Contains(s)) != longest {
				return fmt.Sprintf("it holds %d bytes of %q", c.Contains(s), s)
			}
		}
		return ""
	}})
	w.Add(&Kind{Name: "groups", New: func() interface{} { return patterns.NewGroupsBuilder() }, Fields: []Field{must("WithList", "All")},
		Extra: func(o interface{}, v []*Val) string {
			l, g := v[0].V.([]patterns.Group), o.(patterns.Groups)
			return lookup("groups", len(l), func(i int) string { return l[i].Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return g.Find(n) })
		}})
	w.Add(&Kind{Name: "serie", New: func() interface{} { return patterns.NewSerieBuilder() }, Fields: []Field{
		must("WithName", "Name"), mustFn("WithList", func(o interface{}) interface{} { return o.(patterns.Serie).Content().List() }),
	}, Extra: func(o interface{}, v []*Val) string {
		if n := o.(patterns.Serie).Content().Length(); int(n) != len(v[1].V.([]patterns.Group)) {
			return fmt.Sprintf("its length is %d", n)
		}
		return ""
	}})
	w.Add(&Kind{Name: "choice", New: func() interface{} { return patterns.NewChoiceBuilder() }, Fields: []Field{must("WithSerie", "Serie"), flag("IsReverse", "IsReverse")}})
	w.Add(&Kind{Name: "pattern", New: func() interface{} { return patterns.NewPatternBuilder() }, Fields: []Field{
		must("WithName", "Name"), mustFn("WithList", func(o interface{}) interface{} { return o.(patterns.Pattern).Content().List() }),
	}, Extra: func(o interface{}, v []*Val) string {
		if n := o.(patterns.Pattern).Content().Length(); int(n) != len(v[1].V.([]patterns.Choice)) {
			return fmt.Sprintf("its length is %d", n)
		}
		return ""
	}})
	w.Add(&Kind{Name: "patterns", New: func() interface{} { return patterns.NewBuilder() }, Fields: []Field{must("WithList", "All")},
		Extra: func(o interface{}, v []*Val) string {
			l, p := v[0].V.([]patterns.Pattern), o.(patterns.Patterns)
			if !reflect.DeepEqual(p.First(), l[0]) {
				return "the first pattern is another one"
			}
			return lookup("patterns", len(l), func(i int) string { return l[i].Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return p.Find(n) })
		}})
	w.Add(&Kind{Name: "pattern container", New: func() interface{} { return patterns.NewContainerBuilder() }, Fields: []Field{
		alt("WithReverse", "Reverse", "IsReverse"), alt("WithGroup", "Group", "IsGroup"),
	}, Extra: func(o interface{}, v []*Val) string {
		c := o.(patterns.Container)
		if c.IsReverse() && c.Name() != c.Reverse().Name() || c.IsGroup() && c.Name() != c.Group().Name() {
			return fmt.Sprintf("its name is %q", c.Name())
		}
		return ""
	}})
	w.Add(&Kind{Name: "next", New: func() interface{} { return patterns.NewNextBuilder() }, Fields: []Field{must("WithGroup", "Group"), flag("IsReverse", "IsReverse")}})
	w.Add(&Kind{Name: "discovery", New: func() interface{} { return patterns.NewDiscoveryBuilder() }, Fields: []Field{must("WithIndex", "Index"), must("WithContent", "Content"), must("WithContainer", "Container")}})
	w.Add(&Kind{Name: "discoveries", New: func() interface{} { return patterns.NewDiscoveriesBuilder() }, Fields: []Field{must("WithList", "All")},
		Extra: func(o interface{}, v []*Val) string {
			l, d := v[0].V.([]patterns.Discovery), o.(patterns.Discoveries)
			content := ""
			for _, x := range l {
				content += x.Content()
			}
			if d.Content() != content || d.Index() != l[0].Index() || int(d.Amount()) != len(content) {
				return fmt.Sprintf("they read %q at %d, %d bytes", d.Content(), d.Index(), d.Amount())
			}
			n := uint(len(content))
			for a := uint(0); a < n+2; a++ {
				if d.IsAmount(a) != (a == n) || d.IsAtLeast(a) != (n >= a) {
					return fmt.Sprintf("they are %d bytes: %v, at least: %v", a, d.IsAmount(a), d.IsAtLeast(a))
				}
				for b := uint(0); b < n+2; b++ {
					if d.IsInRange(a, b) != (n >= a && n <= b) {
						return fmt.Sprintf("%d bytes are between %d and %d: %v", n, a, b, d.IsInRange(a, b))
					}
				}
			}
			return lookup("discoveries", len(l), func(i int) string { return l[i].Container().Name() }, func(i int) interface{} { return l[i] }, func(s string) (interface{}, error) { return d.Find(s) })
		}})
	w.Add(&Kind{Name: "pattern result", New: func() interface{} { return patterns.NewResultBuilder() }, Fields: []Field{
		must("WithInput", "Input"), must("WithDiscoveries", "Discoveries"), opt("WithRemaining", "Remaining", "HasRemaining"), opt("WithNext", "Next", "HasNext"),
	}})
}

func ruleKinds(w *World) {
	w.Add(&Kind{Name: "rule pattern", New: func() interface{} { return rules.NewPatternBuilder() }, Fields: []Field{must("WithSubPatterns", "SubPatterns"), must("WithCardinality", "Cardinality")}})
	w.Add(&Kind{Name: "rule content", New: func() interface{} { return rules.NewContentBuilder() }, Fields: []Field{
		alt("WithConstant", "Constant", "IsConstant"), alt("WithPattern", "Pattern", "IsPattern"),
	}})
	w.Add(&Kind{Name: "rule element", New: func() interface{} { return rules.NewElementBuilder() }, Fields: []Field{must("WithContent", "Content"), must("WithCode", "Code")}})
	w.Add(&Kind{Name: "rule", New: func() interface{} { return rules.NewRuleBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithCode", "Code"), must("WithElement", "Element")}})
	w.Add(&Kind{Name: "rules", New: func() interface{} { return rules.NewBuilder() }, Fields: []Field{must("WithRules", "All")},
		Rule: func(v []*Val) bool {
			names := []string{}
			for _, r := range v[0].V.([]rules.Rule) {
				names = append(names, r.Name())
			}
			return unique(names)
		},
		Extra: func(o interface{}, v []*Val) string {
			l, r := v[0].V.([]rules.Rule), o.(rules.Rules)
			return lookup("rules", len(l), func(i int) string { return l[i].Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return r.Find(n) })
		}})
}

func tokenKinds(w *World) {
	w.Add(&Kind{Name: "specifier content", New: func() interface{} { return tokens.NewTokenSpecifierContentBuilder() }, Fields: []Field{alt("WithRule", "Rule", "IsRule"), alt("WithToken", "Token", "IsToken")},
		Extra: func(o interface{}, v []*Val) string {
			c := o.(tokens.TokenSpecifierContent)
			if c.IsRule() && c.Name() != c.Rule().Name() || c.IsToken() && c.Name() != c.Token() {
				return fmt.Sprintf("its name is %q", c.Name())
			}
			return ""
		}})
	w.Add(&Kind{Name: "specifier", New: func() interface{} { return tokens.NewTokenSpecifierBuilder() }, Fields: []Field{must("WithContent", "Content"), must("WithCardinality", "Cardinality")}})
	w.Add(&Kind{Name: "specifiers", New: func() interface{} { return tokens.NewTokenSpecifiersBuilder() }, Fields: []Field{must("WithTokenSpecifiers", "All")},
		Extra: func(o interface{}, v []*Val) string {
			l, s := v[0].V.([]tokens.TokenSpecifier), o.(tokens.TokenSpecifiers)
			return lookup("specifiers", len(l), func(i int) string { return l[i].Content().Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return s.Find(n) })
		}})
	w.Add(&Kind{Name: "token reference", New: func() interface{} { return tokens.NewTokenReferenceBuilder() }, Fields: []Field{must("WithName", "Name"), opt("WithSpecifiers", "Specifiers", "HasSpecifiers")}})
	w.Add(&Kind{Name: "content of an element", New: func() interface{} { return tokens.NewContentBuilder() }, Fields: []Field{alt("WithToken", "Token", "IsToken"), alt("WithRule", "Rule", "IsRule")},
		Extra: func(o interface{}, v []*Val) string {
			c := o.(tokens.Content)
			if c.IsRule() && c.Name() != c.Rule().Name() || c.IsToken() && c.Name() != c.Token().Name() {
				return fmt.Sprintf("its name is %q", c.Name())
			}
			return ""
		}})
	w.Add(&Kind{Name: "element", New: func() interface{} { return tokens.NewElementBuilder() }, Fields: []Field{must("WithContent", "Content"), must("WithCode", "Code"), opt("WithCardinality", "Cardinality", "HasCardinality")}})
	w.Add(&Kind{Name: "instruction", New: func() interface{} { return tokens.NewInstructionBuilder() }, Fields: []Field{altFlag("IsChannelSwitch", "IsChannelSwitch"), alt("WithElement", "Element", "IsElement")}})
	w.Add(&Kind{Name: "line", New: func() interface{} { return tokens.NewLineBuilder() }, Fields: []Field{must("WithInstructions", "Instructions")}})
	w.Add(&Kind{Name: "lines", New: func() interface{} { return tokens.NewLinesBuilder() }, Fields: []Field{must("WithLines", "All")}})
	w.Add(&Kind{Name: "block", New: func() interface{} { return tokens.NewBlockBuilder() }, Fields: []Field{must("WithMust", "Must"), opt("WithNot", "Not", "HasNot")}})
	w.Add(&Kind{Name: "test suite", New: func() interface{} { return tokens.NewTestSuiteBuilder() }, Fields: []Field{must("WithLines", "Lines")}})
	w.Add(&Kind{Name: "token", New: func() interface{} { return tokens.NewTokenBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithBlock", "Block"), opt("WithTestSuite", "TestSuite", "HasTestSuite")}})
	w.Add(&Kind{Name: "tokens", New: func() interface{} { return tokens.NewBuilder() }, Fields: []Field{must("WithTokens", "All")},
		Rule: func(v []*Val) bool {
			names := []string{}
			for _, t := range v[0].V.([]tokens.Token) {
				names = append(names, t.Name())
			}
			return unique(names)
		},
		Extra: func(o interface{}, v []*Val) string {
			l, t := v[0].V.([]tokens.Token), o.(tokens.Tokens)
			return lookup("tokens", len(l), func(i int) string { return l[i].Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return t.Find(n) })
		}})
}

func resourceKinds(w *World) {
	w.Add(&Kind{Name: "content", New: func() interface{} { return contents.NewBuilder() }, Fields: []Field{must("WithContent", "Content"), flag("IsPrefixLegal", "IsPrefixLegal"), flag("IsSuffixLegal", "IsSuffixLegal")}})
	w.Add(&Kind{Name: "paths", New: func() interface{} { return paths.NewBuilder() }, Fields: []Field{must("WithRules", "Rules"), must("WithTokens", "Tokens"), opt("WithChannels", "Channels", "HasChannels")}})
	w.Add(&Kind{Name: "include", New: func() interface{} { return links.NewIncludeBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithPaths", "Paths")}})
	w.Add(&Kind{Name: "link", New: func() interface{} { return links.NewLinkBuilder() }, Fields: []Field{must("WithLocalToken", "LocalToken"), must("WithReferenceToken", "ReferenceToken"), must("WithInclude", "Include")}})
	w.Add(&Kind{Name: "links", New: func() interface{} { return links.NewBuilder() }, Fields: []Field{must("WithLinks", "All")},
		Extra: func(o interface{}, v []*Val) string {
			l, s := v[0].V.([]links.Link), o.(links.Links)
			if d := lookup("links by token", len(l), func(i int) string { return l[i].LocalToken() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return s.FetchByLocalToken(n) }); d != "" {
				return d
			}
			const sep = "\x00"
			return lookup("links by reference", len(l), func(i int) string { return l[i].Include().Name() + sep + l[i].ReferenceToken() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) {
				p := strings.SplitN(n+sep, sep, 3)
				return s.FetchByReferenceToken(p[0], p[1])
			})
		}})
	w.Add(&Kind{Name: "references", New: func() interface{} { return references.NewBuilder() }, Fields: []Field{opt("WithReferences", "References", "HasReferences"), opt("WithReplacements", "Replacements", "HasReplacements")}})
	w.Add(&Kind{Name: "resource container", New: func() interface{} { return rcontainers.NewBuilder() }, Fields: []Field{must("WithPatterns", "Patterns"), must("WithRules", "Rules"), must("WithTokens", "Tokens")}})
	w.Add(&Kind{Name: "multiple resource", New: func() interface{} { return multiples.NewBuilder() }, Fields: []Field{must("WithContainer", "Container"), opt("WithChannels", "Channels", "HasChannels")}})
	w.Add(&Kind{Name: "resource path", New: func() interface{} { return rpaths.NewBuilder() }, Fields: []Field{must("WithRootToken", "RootToken"), must("WithContainer", "Container")}})
	w.Add(&Kind{Name: "single resource", New: func() interface{} { return singles.NewBuilder() }, Fields: []Field{must("WithRootToken", "RootToken"), must("WithMultiple", "Multiple")}})
	w.Add(&Kind{Name: "line of a suite", New: func() interface{} { return suites.NewLineBuilder() }, Fields: []Field{must("WithIndex", "Index"), flag("IsSuccessful", "IsSuccess")}})
	w.Add(&Kind{Name: "suite", New: func() interface{} { return suites.NewBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithLines", "Lines")}})
}

func pathKinds(w *World) {
	w.Add(&Kind{Name: "path rule", New: func() interface{} { return apaths.NewRuleBuilder() }, Fields: []Field{must("WithBase", "Base"), must("WithCardinality", "Cardinality")}})
	w.Add(&Kind{Name: "path specifier", New: func() interface{} { return apaths.NewSpecifierBuilder() }, Fields: []Field{must("WithContainerName", "ContainerName"), must("WithCardinality", "Cardinality")}})
	w.Add(&Kind{Name: "recursive token", New: func() interface{} { return apaths.NewRecursiveTokenBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithCardinality", "Cardinality"), opt("WithSpecifiers", "Specifiers", "HasSpecifiers")}})
	// a first element, to start with: a line of one rule
	for i, r := range w.Get((*apaths.Rule)(nil))[:2] {
		c, err := apaths.NewContainerBuilder().Create().WithRule(r.(apaths.Rule)).Now()
		seed(err)
		in, err := apaths.NewInstructionBuilder().Create().WithContainer(c).Now()
		seed(err)
		l, err := apaths.NewLineBuilder().Create().WithInstructions([]apaths.Instruction{in}).Now()
		seed(err)
		e, err := apaths.NewElementBuilder().Create().WithName(fmt.Sprint("e", i)).WithMust([]apaths.Line{l}).Now()
		seed(err)
		w.Put((*apaths.Line)(nil), fmt.Sprint("line ", i), l)
		w.Put((*apaths.Element)(nil), fmt.Sprint("element ", i), e)
	}
	w.Add(&Kind{Name: "token path", New: func() interface{} { return apaths.NewTokenPathBuilder() }, Fields: []Field{must("WithElement", "Element"), opt("WithSpecifiers", "Specifiers", "HasSpecifiers")}})
	w.Add(&Kind{Name: "path token", New: func() interface{} { return apaths.NewTokenBuilder() }, Fields: []Field{must("WithPath", "Path"), must("WithCardinality", "Cardinality")}})
	w.Add(&Kind{Name: "path container", New: func() interface{} { return apaths.NewContainerBuilder() }, Fields: []Field{
		alt("WithToken", "Token", "IsToken"), alt("WithRule", "Rule", "IsRule"), alt("WithRecursive", "Recursive", "IsRecursive"), alt("WithLines", "Lines", "IsLines"),
	}, Extra: func(o interface{}, v []*Val) string {
		c := o.(apaths.Container)
		var want cardinality.Cardinality
		switch {
		case c.IsToken():
			want = c.Token().Cardinality()
		case c.IsRule():
			want = c.Rule().Cardinality()
		case c.IsRecursive():
			want = c.Recursive().Cardinality()
		default:
			return ""
		}
		if !reflect.DeepEqual(c.Cardinality(), want) {
			return "its cardinality is another one"
		}
		return ""
	}})
	w.Add(&Kind{Name: "path instruction", New: func() interface{} { return apaths.NewInstructionBuilder() }, Fields: []Field{altFlag("IsChannelSwitch", "IsChannelSwitch"), alt("WithContainer", "Container", "IsContainer")}})
	w.Add(&Kind{Name: "path line", New: func() interface{} { return apaths.NewLineBuilder() }, Fields: []Field{must("WithInstructions", "Instructions")}})
	w.Add(&Kind{Name: "path element", New: func() interface{} { return apaths.NewElementBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithMust", "Must"), opt("WithNot", "Not", "HasNot")}})
	w.Add(&Kind{Name: "dependencies", New: func() interface{} { return apaths.NewDependenciesBuilder() }, Fields: []Field{
		{Set: "WithDependencies", Get: "All", Mode: Opt, SameFn: func(got, want interface{}) bool {
			// one element for each name, in any order
			last := map[string]apaths.Element{}
			for _, e := range want.([]apaths.Element) {
				last[e.Name()] = e
			}
			all := got.([]apaths.Element)
			for _, e := range all {
				if !reflect.DeepEqual(last[e.Name()], e) {
					return false
				}
			}
			return len(all) == len(last)
		}},
	}, Extra: func(o interface{}, v []*Val) string {
		d := o.(apaths.Dependencies)
		l := []apaths.Element{}
		if has(v[0]) {
			l = v[0].V.([]apaths.Element)
		}
		if d.IsEmpty() != (len(l) == 0) {
			return fmt.Sprintf("they are empty: %v", d.IsEmpty())
		}
		return lookup("dependencies", len(l), func(i int) string { return l[i].Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return d.Fetch(n) })
	}})
	w.Add(&Kind{Name: "path", New: func() interface{} { return apaths.NewBuilder() }, Fields: []Field{must("WithElement", "Element"), must("WithDependencies", "Dependencies")},
		Extra: func(o interface{}, v []*Val) string {
			p := o.(apaths.Path)
			for i := 0; i < 2; i++ {
				all := p.CombinedElements()
				if len(all) != len(p.Dependencies().All())+1 || !reflect.DeepEqual(all[len(all)-1], p.Element()) {
					return "its elements are not its dependencies and its element"
				}
			}
			return ""
		}})
}

func seed(err error) {
	if err != nil {
		vlib.Failf("a seed was refused: %s", err)
	}
}

// shown tells what is not as it has to be.
func shown(in, wantIn, read, wantRead string, exact, wantExact, valid, wantValid bool) string {
	if in != wantIn || read != wantRead || exact != wantExact || valid != wantValid {
		return fmt.Sprintf("its text is %q (wanted %q), it read %q (wanted %q), exact %v (wanted %v), valid %v (wanted %v)", in, wantIn, read, wantRead, exact, wantExact, valid, wantValid)
	}
	return ""
}

// only counts the values that are given.
func only(v []*Val) int {
	n := 0
	for _, x := range v {
		if has(x) {
			n++
		}
	}
	return n
}

func matchKinds(w *World) {
	w.Add(&Kind{Name: "rule result", New: func() interface{} { return results.NewBuilder() }, Fields: []Field{
		must("WithInput", "Input"),
		{Set: "WithMatches", Mode: Opt,
			GetFn: func(o interface{}) interface{} { return o.(results.Result).Matches().List() },
			HasFn: func(o interface{}) bool { return o.(results.Result).HasMatches() }, Vals: resultLists(w)},
	}, Extra: func(o interface{}, v []*Val) string {
		r := o.(results.Result)
		n, content := 0, ""
		if has(v[1]) {
			for _, m := range v[1].V.([]patterns.Result) {
				content += m.Discoveries().Content()
				n++
			}
		}
		if int(r.Amount()) != n || r.Content() != content {
			return fmt.Sprintf("it has %d matches that read %q", r.Amount(), r.Content())
		}
		return ""
	}})
	w.Add(&Kind{Name: "results", New: func() interface{} { return atokens.NewResultBuilder() }, Fields: []Field{opt("WithResults", "Results", "HasResults")},
		Extra: func(o interface{}, v []*Val) string {
			r := o.(atokens.Result)
			n, content := 0, ""
			if has(v[0]) {
				for _, x := range v[0].V.([]results.Result) {
					content += x.Content()
					n++
				}
			}
			if int(r.Amount()) != n || r.Discoveries() != content {
				return fmt.Sprintf("there are %d, they read %q", r.Amount(), r.Discoveries())
			}
			return ""
		}})
	w.Add(&Kind{Name: "result of a rule", New: func() interface{} { return atokens.NewRuleMatchResultBuilder() }, Fields: []Field{must("WithPath", "Path"), must("WithResult", "Result")},
		Extra: func(o interface{}, v []*Val) string {
			r := o.(atokens.RuleMatchResult)
			if want := r.Path().Cardinality().IsValid(r.Result().Amount()); r.IsCardinalityValid() != want {
				return fmt.Sprintf("its cardinality is valid: %v", r.IsCardinalityValid())
			}
			return ""
		}})
	w.Add(&Kind{Name: "match of a rule", New: func() interface{} { return atokens.NewRuleMatchBuilder() }, Fields: []Field{must("WithRule", "Rule"), must("WithResult", "Result"), flag("CanContainPrefix", "CanHavePrefix")},
		Extra: func(o interface{}, v []*Val) string {
			m := o.(atokens.RuleMatch)
			res := m.Result().Result()
			exact := m.CanHavePrefix()
			if !res.HasResults() {
				exact = m.Result().Path().Cardinality().IsValid(0)
			} else if first := res.Results()[0]; !exact && first.HasMatches() {
				exact = first.Matches().List()[0].Discoveries().Index() == 0
			}
			return shown("", "", "", "", m.IsExact(), exact, m.IsValid(), exact && m.Result().IsCardinalityValid())
		}})
	w.Add(&Kind{Name: "next element", New: func() interface{} { return atokens.NewNextElementBuilder() }, Fields: []Field{alt("WithConstant", "Constant", "IsConstant"), alt("WithPattern", "Pattern", "IsPattern")}})
	// first matches, to start with: those of rules
	for i, r := range w.Get((*atokens.RuleMatch)(nil))[:2] {
		m, err := atokens.NewMatchBuilder().Create().WithRule(r.(atokens.RuleMatch)).Now()
		seed(err)
		b, err := atokens.NewBlockMatchBuilder().Create().WithContainer(m).Now()
		seed(err)
		ms, err := atokens.NewMatchesBuilder().Create().WithList([]atokens.BlockMatch{b}).Now()
		seed(err)
		l, err := atokens.NewLineMatchBuilder().Create().WithIndex(uint(i)).WithMatches(ms).Now()
		seed(err)
		w.Put((*atokens.BlockMatch)(nil), fmt.Sprint("block ", i), b)
		w.Put((*atokens.LineMatch)(nil), fmt.Sprint("line match ", i), l)
	}
	w.Add(&Kind{Name: "content of a token", New: func() interface{} { return atokens.NewTokenContentBuilder() }, Fields: []Field{must("WithMust", "Must"), opt("WithNot", "Not", "HasNot")},
		Extra: func(o interface{}, v []*Val) string {
			c := o.(atokens.TokenContent)
			m := c.Must().Matches()
			if c.HasNot() && c.Not().Matches().IsValid() {
				return shown("", "", c.Discoveries(), "", c.IsExact(), false, c.IsValid(), false)
			}
			return shown("", "", c.Discoveries(), m.Discoveries(), c.IsExact(), m.IsExact(), c.IsValid(), m.IsValid())
		}})
	w.Add(&Kind{Name: "recognized token", New: func() interface{} { return atokens.NewBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithPath", "Path"), opt("WithContent", "Content", "HasContent")},
		Extra: func(o interface{}, v []*Val) string {
			t := o.(atokens.Token)
			if !t.HasContent() && (t.IsValid() || t.IsExact() || t.Discoveries() != "") {
				return "nothing was recognized, and it is valid"
			}
			if t.HasContent() {
				c := t.Content()
				return shown("", "", t.Discoveries(), c.Discoveries(), t.IsExact(), c.IsExact(), t.IsValid(), c.IsValid())
			}
			return ""
		}})
	w.Add(&Kind{Name: "recognized tokens", New: func() interface{} { return atokens.NewTokenResultMatchesBuilder() }, Fields: []Field{must("WithResults", "All")},
		Extra: func(o interface{}, v []*Val) string {
			l, t := v[0].V.([]atokens.Token), o.(atokens.TokenResultMatches)
			content, valid, exact := "", true, true
			for _, x := range l {
				content += x.Discoveries()
				valid, exact = valid && x.IsValid(), exact && x.IsExact()
			}
			n := uint(len(l))
			if t.Amount() != n || t.Discoveries() != content || t.IsValid() != valid || t.IsExact() != exact {
				return fmt.Sprintf("there are %d, they read %q, valid %v, exact %v", t.Amount(), t.Discoveries(), t.IsValid(), t.IsExact())
			}
			for a := uint(0); a < n+2; a++ {
				if t.IsAmount(a) != (a == n) || t.IsAtLeast(a) != (n >= a) {
					return fmt.Sprintf("there are %d: %v, at least: %v", a, t.IsAmount(a), t.IsAtLeast(a))
				}
				for b := uint(0); b < n+2; b++ {
					if t.IsInRange(a, b) != (n >= a && n <= b) {
						return fmt.Sprintf("%d are between %d and %d: %v", n, a, b, t.IsInRange(a, b))
					}
				}
			}
			return ""
		}})
	w.Add(&Kind{Name: "result of a token", New: func() interface{} { return atokens.NewTokenResultBuilder() }, Fields: []Field{must("WithInput", "Input"), must("WithCardinality", "Cardinality"), opt("WithMatches", "Matches", "HasMatches")},
		Extra: func(o interface{}, v []*Val) string {
			r := o.(atokens.TokenResult)
			n, content := uint(0), ""
			if has(v[2]) {
				m := v[2].V.(atokens.TokenResultMatches)
				n, content = m.Amount(), m.Discoveries()
			}
			if r.Amount() != n || r.Discoveries() != content || r.IsCardinalityValid() != r.Cardinality().IsValid(n) {
				return fmt.Sprintf("it has %d matches that read %q; its cardinality is valid: %v", r.Amount(), r.Discoveries(), r.IsCardinalityValid())
			}
			if r.HasMatches() {
				m := r.Matches()
				return shown("", "", "", "", r.IsExact(), m.IsExact(), r.IsValid(), r.IsCardinalityValid() && m.IsValid())
			}
			return shown("", "", "", "", r.IsExact(), r.IsExact(), r.IsValid(), r.IsCardinalityValid())
		}})
	w.Add(&Kind{Name: "recognized specifier", New: func() interface{} { return atokens.NewSpecifierBuilder() }, Fields: []Field{must("WithContainerName", "ContainerName"), must("WithCardinality", "Cardinality"), must("WithResult", "Result")},
		Extra: func(o interface{}, v []*Val) string {
			s := o.(atokens.Specifier)
			if s.IsValid() != specificHolds(s.Cardinality(), s.Amount()) {
				return fmt.Sprintf("with %d it is valid: %v", s.Amount(), s.IsValid())
			}
			return ""
		}})
	w.Add(&Kind{Name: "match of a token", New: func() interface{} { return atokens.NewTokenMatchBuilder() }, Fields: []Field{must("WithPath", "Path"), must("WithResult", "Result"), opt("WithSpecifiers", "Specifiers", "HasSpecifiers")},
		Extra: func(o interface{}, v []*Val) string {
			m := o.(atokens.TokenMatch)
			want := m.Result().IsValid()
			for _, s := range m.Specifiers() {
				want = want && s.IsValid()
			}
			return shown("", "", "", "", m.IsExact(), m.Result().IsExact(), m.IsValid(), want)
		}})
	skipContent := func(o interface{}) interface{} { return o.(atokens.SkipMatch).Content() }
	w.Add(&Kind{Name: "skipped", New: func() interface{} { return atokens.NewSkipMatchBuilder() }, Fields: []Field{altIn("WithToken", skipContent, "Token", "IsToken"), altIn("WithRule", skipContent, "Rule", "IsRule")},
		Extra: func(o interface{}, v []*Val) string {
			m := o.(atokens.SkipMatch)
			if c := m.Content(); c.IsToken() {
				return shown(m.Name()+" "+m.Input(), c.Token().Path().Element().Name()+" "+c.Token().Result().Input(), "", "", true, true, true, true)
			} else if c.IsRule() && m.Name() != c.Rule().Rule().Base().Name() {
				return fmt.Sprintf("its name is %q", m.Name())
			}
			return ""
		}})
	matchContent := func(o interface{}) interface{} { return o.(atokens.Match).Content() }
	w.Add(&Kind{Name: "match", New: func() interface{} { return atokens.NewMatchBuilder() }, Fields: []Field{
		altIn("WithToken", matchContent, "Token", "IsToken"), altIn("WithRule", matchContent, "Rule", "IsRule"), altIn("WithSkip", matchContent, "Skip", "IsSkip"), altIn("WithLine", matchContent, "Line", "IsLine"),
	}, Extra: func(o interface{}, v []*Val) string {
		m := o.(atokens.Match)
		switch c := m.Content(); {
		case only(v) != 1:
			return ""
		case c.IsToken():
			t := c.Token()
			return shown(m.Input(), t.Result().Input(), m.Discoveries(), t.Result().Discoveries(), m.IsExact(), t.IsExact(), m.IsValid(), t.IsValid())
		case c.IsRule():
			t := c.Rule()
			return shown("", "", m.Discoveries(), t.Result().Result().Discoveries(), m.IsExact(), t.IsExact(), m.IsValid(), t.IsValid())
		case c.IsSkip():
			return shown(m.Input(), c.Skip().Input(), m.Discoveries(), "", m.IsExact(), true, m.IsValid(), true)
		case c.IsLine():
			t := c.Line().Matches()
			return shown(m.Input(), t.Input(), m.Discoveries(), t.Discoveries(), m.IsExact(), t.IsExact(), m.IsValid(), t.IsValid())
		}
		return "it has no content"
	}})
	blockContent := func(o interface{}) interface{} { return o.(atokens.BlockMatch).Content() }
	w.Add(&Kind{Name: "block match", New: func() interface{} { return atokens.NewBlockMatchBuilder() }, Fields: []Field{
		altIn("WithContainer", blockContent, "Container", "IsContainer"), altIn("WithBlock", blockContent, "Block", "IsBlock"), altIn("WithNextElement", blockContent, "NextElement", "IsNextElement"),
		opt("WithChannelPrefix", "ChannelPrefix", "HasChannelPrefix"),
	}, Extra: func(o interface{}, v []*Val) string {
		b := o.(atokens.BlockMatch)
		in, read := "", ""
		if b.HasChannelPrefix() {
			in, read = b.ChannelPrefix().Matches().Input(), b.ChannelPrefix().Matches().Discoveries()
		}
		switch c := b.Content(); {
		case only(v[:3]) != 1:
			return ""
		case c.IsContainer():
			t := c.Container()
			return shown(b.Input(), in+t.Input(), b.Discoveries(), read+t.Discoveries(), b.IsExact(), t.IsExact(), b.IsValid(), t.IsValid())
		case c.IsBlock():
			t := c.Block()
			return shown(b.Input(), in+t.Input(), b.Discoveries(), read+t.Discoveries(), b.IsExact(), t.IsExact(), b.IsValid(), t.IsValid())
		case c.IsNextElement():
			return shown(b.Input(), in, b.Discoveries(), read, b.IsExact(), false, b.IsValid(), false)
		}
		return "it has no content"
	}})
	w.Add(&Kind{Name: "matches", New: func() interface{} { return atokens.NewMatchesBuilder() }, Fields: []Field{must("WithList", "BlockMatches")},
		Extra: func(o interface{}, v []*Val) string {
			m := o.(atokens.Matches)
			in, read, exact, valid := "", "", true, true
			for _, b := range v[0].V.([]atokens.BlockMatch) {
				in, read, exact, valid = in+b.Input(), read+b.Discoveries(), exact && b.IsExact(), valid && b.IsValid()
			}
			if !valid {
				read = ""
			}
			return shown(m.Input(), in, m.Discoveries(), read, m.IsExact(), exact, m.IsValid(), valid)
		}})
	w.Add(&Kind{Name: "line match", New: func() interface{} { return atokens.NewLineMatchBuilder() }, Fields: []Field{must("WithIndex", "Index"), must("WithMatches", "Matches")}})
}

// resultLists are lists of results of patterns: what was recognized is never an empty list.
func resultLists(w *World) []Val {
	out := []Val{}
	all := []patterns.Result{}
	for _, x := range w.Get((*patterns.Result)(nil)) {
		all = append(all, x.(patterns.Result))
	}
	for _, idx := range [][]int{{0}, {1}, {0, 1}, {2, 1, 0}} {
		l := []patterns.Result{}
		for _, i := range idx {
			l = append(l, all[i])
		}
		out = append(out, Val{Label: fmt.Sprint(idx), V: l})
	}
	return append([]Val{{Label: "nil", Missing: true}}, out...)
}

func mistakeKinds(w *World) {
	w.Add(&Kind{Name: "not-line mistake", New: func() interface{} { return mistakes.NewContainsValidNotMatchBuilder() }, Fields: []Field{must("WithLine", "Line")}})
	w.Add(&Kind{Name: "specifier mistake", New: func() interface{} { return mistakes.NewSpecifierDoNotMatchBuilder() }, Fields: []Field{must("WithContainerName", "ContainerName"), must("WithCardinality", "Cardinality"), must("WithAmount", "Amount")}})
	w.Add(&Kind{Name: "next element mistake", New: func() interface{} { return mistakes.NewContainsNextElementBuilder() }, Fields: []Field{must("WithNextElement", "NextElement")}})
	w.Add(&Kind{Name: "cardinality mistake", New: func() interface{} { return mistakes.NewCardinalityIsInvalidBuilder() }, Fields: []Field{must("WithCardinality", "Cardinality"), must("WithAmount", "Amount")}})
	w.Add(&Kind{Name: "prefix mistake", New: func() interface{} { return mistakes.NewContainsPrefixBuilder() }, Fields: []Field{must("WithPrefix", "Prefix")}})
	w.Add(&Kind{Name: "mistake index", New: func() interface{} { return mistakes.NewIndexBuilder() }, Fields: []Field{must("WithIndex", "Index"), must("WithLine", "Line"), must("WithColumn", "Column")}})
	container := func(o interface{}) interface{} { return o.(mistakes.Path).Container() }
	w.Add(&Kind{Name: "mistake path", New: func() interface{} { return mistakes.NewPathBuilder() }, Fields: []Field{
		altIn("WithRule", container, "Rule", "IsRule"), altIn("WithToken", container, "Token", "IsToken"), opt("WithParents", "Parents", "HasParents"),
	}})
	w.Add(&Kind{Name: "mistake content", New: func() interface{} { return mistakes.NewContentBuilder() }, Fields: []Field{
		altFlag("IsTokenHasNoMatch", "IsTokenHasNoMatch"), alt("WithContainsValidNotMatch", "ContainsValidNotMatch", "IsContainsValidNotMatch"), alt("WithSpecifierDoNotMatch", "SpecifierDoNotMatch", "IsSpecifierDoNotMatch"),
		alt("WithContainsNextElement", "ContainsNextElement", "IsContainsNextElement"), alt("WithCardinalityIsInvalid", "CardinalityIsInvalid", "IsCardinalityIsInvalid"), alt("WithContainsPrefix", "ContainsPrefix", "IsContainsPrefix"),
	}})
	w.Add(&Kind{Name: "mistake", New: func() interface{} { return mistakes.NewBuilder() }, Fields: []Field{must("WithIndex", "Index"), must("WithPath", "Path"), must("WithContent", "Content")}})
}

func treeKinds(w *World) {
	w.Add(&Kind{Name: "result in a tree", New: func() interface{} { return asts.NewResultBuilder() }, Fields: []Field{must("WithInput", "Input"), must("WithDiscoveries", "Discoveries"), opt("WithPrefix", "Prefix", "HasPrefix"), opt("WithSuffix", "Suffix", "HasSuffix")}})
	w.Add(&Kind{Name: "rule in a tree", New: func() interface{} { return asts.NewRuleMatchBuilder() }, Fields: []Field{must("WithRule", "Rule"), must("WithResult", "Result")}})
	// first trees: of one rule
	for i, r := range w.Get((*asts.RuleMatch)(nil))[:2] {
		m, err := asts.NewMatchBuilder().Create().WithRule(r.(asts.RuleMatch)).Now()
		seed(err)
		l, err := asts.NewLineMatchBuilder().Create().WithIndex(uint(i)).WithMatches([]asts.Match{m}).Now()
		seed(err)
		t, err := asts.NewTokenBuilder().Create().WithName(fmt.Sprint("t", i)).WithMatch(l).Now()
		seed(err)
		w.Put((*asts.Token)(nil), fmt.Sprint("tree ", i), t)
	}
	w.Add(&Kind{Name: "token in a tree", New: func() interface{} { return asts.NewTokenMatchBuilder() }, Fields: []Field{must("WithToken", "Token"), must("WithMatches", "Matches")},
		Extra: func(o interface{}, v []*Val) string {
			t := o.(asts.TokenMatch)
			want := []string{}
			for _, x := range v[1].V.([]asts.Token) {
				want = append(want, x.Discovery())
			}
			if !reflect.DeepEqual(t.Discoveries(), want) {
				return fmt.Sprintf("it reads %q", t.Discoveries())
			}
			return ""
		}})
	w.Add(&Kind{Name: "match in a tree", New: func() interface{} { return asts.NewMatchBuilder() }, Fields: []Field{alt("WithToken", "Token", "IsToken"), alt("WithRule", "Rule", "IsRule")}})
	w.Add(&Kind{Name: "line in a tree", New: func() interface{} { return asts.NewLineMatchBuilder() }, Fields: []Field{must("WithIndex", "Index"), opt("WithMatches", "Matches", "HasMatches")}})
	w.Add(&Kind{Name: "tree", New: func() interface{} { return asts.NewTokenBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithMatch", "Match")},
		Extra: func(o interface{}, v []*Val) string {
			t := o.(asts.Token)
			want := ""
			for _, m := range v[1].V.(asts.LineMatch).Matches() {
				if m.IsToken() {
					want += strings.Join(m.Token().Discoveries(), "")
				} else {
					want += m.Rule().Result().Discoveries().Content()
				}
			}
			if t.Discovery() != want {
				return fmt.Sprintf("it reads %q", t.Discovery())
			}
			return ""
		}})
	w.Add(&Kind{Name: "tree or mistake", New: func() interface{} { return asts.NewBuilder() }, Fields: []Field{alt("WithMistake", "Mistake", "IsMistake"), alt("WithSuccess", "Success", "IsSuccess")}})
}

func rootKinds(w *World) {
	// first containers: without a root
	w.Put((*roots.Root)(nil), "a", firstRoot("a"))
	w.Put((*roots.Root)(nil), "b", firstRoot("b"))
	w.Add(&Kind{Name: "root container", New: func() interface{} { return roots.NewContainerBuilder() }, Fields: []Field{must("WithContent", "Content"), must("WithName", "Name"), opt("WithRoot", "Root", "HasRoot")}})
	w.Add(&Kind{Name: "root containers", New: func() interface{} { return roots.NewContainersBuilder() }, Fields: []Field{must("WithList", "List")},
		Extra: func(o interface{}, v []*Val) string {
			l, c := v[0].V.([]roots.Container), o.(roots.Containers)
			content := ""
			for _, x := range l {
				content += x.Content()
			}
			if c.Content() != content {
				return fmt.Sprintf("they read %q", c.Content())
			}
			return lookup("containers", len(l), func(i int) string { return l[i].Name() }, func(i int) interface{} { return l[i] }, func(n string) (interface{}, error) { return c.Fetch(n) })
		}})
	w.Add(&Kind{Name: "root node", New: func() interface{} { return roots.NewNodeBuilder() }, Fields: []Field{must("WithName", "Name"), must("WithContainers", "Containers")},
		Extra: func(o interface{}, v []*Val) string {
			n := o.(roots.Node)
			if n.Content() != n.Containers().Content() {
				return fmt.Sprintf("it reads %q", n.Content())
			}
			return ""
		}})
	nodes := w.Get((*roots.Node)(nil))
	maps := []Val{{Label: "nil", Missing: true}, {Label: "empty", V: map[string]roots.Node{}, Missing: true}}
	for i, idx := range [][]int{{0}, {1}, {0, 1}} {
		m := map[string]roots.Node{}
		for x, n := range idx {
			m[fmt.Sprint("n", x)] = nodes[n].(roots.Node)
		}
		maps = append(maps, Val{Label: fmt.Sprint("map", i), V: m})
	}
	w.Add(&Kind{Name: "root nodes", New: func() interface{} { return roots.NewNodesBuilder() }, Fields: []Field{{Set: "WithNodes", Get: "All", Mode: Must, Vals: maps}},
		Extra: func(o interface{}, v []*Val) string {
			m, n := v[0].V.(map[string]roots.Node), o.(roots.Nodes)
			if int(n.Amount()) != len(m) {
				return fmt.Sprintf("there are %d", n.Amount())
			}
			for _, name := range []string{"n0", "n1", "n2", ""} {
				want, ok := m[name]
				got, err := n.Fetch(name)
				if n.Exists(name) != ok || (err == nil) != ok || ok && !reflect.DeepEqual(got, want) {
					return fmt.Sprintf("%q gives %v, %v; it exists: %v", name, got, err, n.Exists(name))
				}
			}
			return ""
		}})
	w.Add(&Kind{Name: "root", New: func() interface{} { return roots.NewBuilder() }, Fields: []Field{must("WithContent", "Content"), must("WithName", "Name"), must("WithNodes", "Nodes")}})
}

func firstRoot(name string) roots.Root {
	c, err := roots.NewContainerBuilder().Create().WithContent("c" + name).WithName("in" + name).Now()
	seed(err)
	cs, err := roots.NewContainersBuilder().Create().WithList([]roots.Container{c}).Now()
	seed(err)
	n, err := roots.NewNodeBuilder().Create().WithName("n" + name).WithContainers(cs).Now()
	seed(err)
	ns, err := roots.NewNodesBuilder().Create().WithNodes(map[string]roots.Node{"n" + name: n}).Now()
	seed(err)
	r, err := roots.NewBuilder().Create().WithContent("c" + name).WithName(name).WithNodes(ns).Now()
	seed(err)
	return r
}

func world() *World {
	w := New()
	cardinalities(w)
	patternKinds(w)
	ruleKinds(w)
	tokenKinds(w)
	resourceKinds(w)
	pathKinds(w)
	matchKinds(w)
	mistakeKinds(w)
	treeKinds(w)
	rootKinds(w)
	return w
}

func main() {
	r := vlib.New("C27")
	r.Rule = "for each kind of element of the model of a grammar and of what it recognized: (1) the product of the values of its fields, every alternative and pair of alternatives, in both orders of the setters; (2) every history before a start over; (3) every sequence of builder calls up to a depth given by the number of calls, from nothing and from a complete builder, against a last-write-wins model; (4) every list of up to 3 (4) of 8 elements, of which some share a part of their values; what follows from the fields (names, look-ups, counts, texts, validity of an amount) is compared with its definition; non-trivial: two builds by one builder, or a start over"
	Run(r, world, nil)
	r.Finish()
}
