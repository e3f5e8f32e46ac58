package main

import (
	"fmt"
	"strings"
)

// form is a piece of a script: its lexemes, and what it must be read as.
type form struct {
	lex  []string
	want string
}

func lx(s ...string) []string { return s }

func cat(parts ...[]string) []string {
	out := []string{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func bracket(open string, in []string, end string) []string { return cat(lx(open), in, lx(end)) }

// names of variables; most begin with a keyword, a type, or a value of the language
var plainNames = []string{"ab", "aB", "myVariable"}
var trickyNames = []string{"trueValue", "falsehood", "integer", "uinty", "stringy", "booleans", "floating", "listing", "iffy", "forth", "breakable", "continued", "appendix", "isNullable", "logger", "isNul", "tru", "in", "appen"}

var binary = []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "!=", "==", "&&", "||"}

func name(n string) form { return form{lx(n), n} }

func uintValue(s string) form { return form{lx(s), "uint:" + s} }

var numbers = []form{
	{lx("0"), "uint:0"}, {lx("7"), "uint:7"}, {lx("18446744073709551615"), "uint:18446744073709551615"}, {lx("0010"), "uint:10"},
	{lx("-", "0"), "int:0"}, {lx("-", "35"), "int:-35"}, {lx("-", "9223372036854775808"), "int:-9223372036854775808"},
	{lx("0.0"), "float:0"}, {lx("56.87"), "float:56.87"}, {lx("-", "1.25"), "float:-1.25"}, {lx("1.0"), "float:1"}, {lx("100.001"), "float:100.001"},
}

var tooLarge = []string{"18446744073709551616", "-9223372036854775809", "99999999999999999999999"}

var bools = []form{{lx("true"), "bool:true"}, {lx("false"), "bool:false"}}

func str(s string) form { return form{lx("\"" + s + "\""), "string:" + s} }

var texts = []form{str(""), str("x"), str("some value"), str(" "), str("  two  "), str("// no comment"), str("/* none */"), str("a, b := [1]"), str("break"), str("line\nline"), str("5"), str("true"), str("{"), str("'#_@")}

func op(a form, o string, b form) form {
	return form{cat(a.lex, lx(o), b.lex), "(" + o + " " + a.want + " " + b.want + ")"}
}

func paren(a form) form { return form{bracket("(", a.lex, ")"), a.want} }

func isNull(a form) form {
	return form{cat(lx("isNull"), bracket("(", a.lex, ")")), "(isNull " + a.want + ")"}
}

func list(in ...form) form {
	lex := lx("[")
	want := []string{}
	for i, x := range in {
		if i > 0 {
			lex = append(lex, ",")
		}
		lex = append(lex, x.lex...)
		want = append(want, x.want)
	}
	return form{append(lex, "]"), "<" + strings.Join(want, " ") + ">"}
}

func listName(n string) form { return form{lx(n), "(list " + n + ")"} }

// slice of a list value: [ab][1:3]
func slice(l form, from form, to *form) form {
	in := cat(from.lex, lx(":"))
	w := from.want
	if to != nil {
		in = cat(in, to.lex)
		w += " " + to.want
	}
	return form{cat(l.lex, bracket("[", in, "]")), "(slice " + l.want + " " + w + ")"}
}

func appending(l form, x form) form {
	return form{cat(lx("append"), l.lex, lx(","), x.lex), "(append " + l.want + " " + x.want + ")"}
}

func extract(l form) form { return form{cat(l.lex, lx("...")), "(extract " + l.want + ")"} }

func fetch(l form, i form) form {
	return form{cat(l.lex, bracket("[", i.lex, "]")), "(fetch " + l.want + " " + i.want + ")"}
}

func typed(t form, n string) form {
	return form{cat(t.lex, lx(n)), "(declare " + t.want + " " + n + ")"}
}

func types(dept int) []form {
	out := []form{}
	for _, b := range []string{"bool", "int", "uint", "float", "string"} {
		out = append(out, form{lx(b), b})
	}
	base := len(out)
	for d := 1; d <= dept; d++ {
		for i := 0; i < base; i++ {
			lex := lx(out[i].lex...)
			for k := 0; k < d; k++ {
				lex = cat(lx("list", "<"), lex, lx(">"))
			}
			out = append(out, form{lex, fmt.Sprintf("%s*%d", out[i].want, d)})
		}
	}
	return out
}

func commas(in []form) ([]string, string) {
	lex := []string{}
	want := []string{}
	for i, x := range in {
		if i > 0 {
			lex = append(lex, ",")
		}
		lex = append(lex, x.lex...)
		want = append(want, x.want)
	}
	return lex, strings.Join(want, " ")
}

// assign writes an assignment of values to targets; again is that without colon.
func assign(targets []form, again bool, values []form) form {
	tl, tw := commas(targets)
	vl, vw := commas(values)
	if again {
		return form{cat(tl, lx("="), vl), "(assign (again " + tw + ") <" + vw + ">)"}
	}
	return form{cat(tl, lx(":", "="), vl), "(assign (first " + tw + ") <" + vw + ">)"}
}

func block(in ...form) form {
	lex := lx("{")
	want := []string{}
	for _, x := range in {
		lex = append(lex, x.lex...)
		want = append(want, x.want)
	}
	return form{append(lex, "}"), "[" + strings.Join(want, " ") + "]"}
}

func ifThen(cond form, body form) form {
	return form{cat(lx("if"), cond.lex, body.lex), "(if " + cond.want + " " + body.want + ")"}
}

func each(index, value form, l form, parens int) form {
	lex := cat(index.lex, lx(","), value.lex, lx(":", "="), l.lex)
	for i := 0; i < parens; i++ {
		lex = bracket("(", lex, ")")
	}
	return form{lex, "(each " + index.want + " " + value.want + " " + l.want + ")"}
}

func forEach(st form, body form) form {
	return form{cat(lx("for"), st.lex, body.lex), "(for " + st.want + " " + body.want + ")"}
}

func logCall(a form) form {
	return form{cat(lx("log"), bracket("(", a.lex, ")")), "(log " + a.want + ")"}
}

func increment(n string, up bool) form {
	if up {
		return form{lx(n, "++"), "(increment " + n + " int:1)"}
	}
	return form{lx(n, "--"), "(increment " + n + " int:-1)"}
}

func header(in bool, decl form, key string, optional bool) form {
	arrow, w, m := "<-", "out", "mandatory"
	if in {
		arrow, w = "->", "in"
	}
	lex := cat(lx(arrow), decl.lex, lx(":", key))
	if optional {
		lex = append(lex, "?")
		m = "optional"
	}
	return form{lex, "(" + w + " " + m + " " + decl.want + " " + key + ")"}
}

func program(headers []form, body []form) form {
	lex := []string{}
	hw, bw := []string{}, []string{}
	for _, h := range headers {
		lex = append(lex, h.lex...)
		hw = append(hw, h.want)
	}
	for _, b := range body {
		lex = append(lex, b.lex...)
		bw = append(bw, b.want)
	}
	head := ""
	if len(headers) > 0 {
		head = "(header " + strings.Join(hw, " ") + ") "
	}
	return form{lex, "(program " + head + "[" + strings.Join(bw, " ") + "])"}
}

// styles of writing: what is between two lexemes, and around all of them
type style struct {
	name          string
	gap           func(i int) string
	before, after string
	everywhere    bool
}

var styles = []style{
	{"tight", func(int) string { return " " }, "", "", false},
	{"spaced", func(int) string { return " " }, "", "", true},
	{"lines", func(i int) string { return []string{"\n", "\n\t", "  "}[i%3] }, "\n\t", "\n", true},
	{"comments", func(i int) string { return []string{" /* break */ ", " // ab := 5\n", " /**/"}[i%3] }, "/* - */ ", " // end\n", true},
}

func wordy(b byte) bool {
	return b == '_' || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || (b >= '0' && b <= '9')
}

func write(lex []string, s style) string {
	out := s.before
	for i, x := range lex {
		if i > 0 {
			p := lex[i-1]
			if s.everywhere || (wordy(p[len(p)-1]) && wordy(x[0])) {
				out += s.gap(i)
			}
		}
		out += x
	}
	return out + s.after
}
