package main

import (
	"fmt"
	"strconv"

	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// generate enumerates the abstract programs.
func generate(deep bool) []item {
	out := []item{}
	add := func(section, root string, n int, list ...form) {
		for _, f := range list {
			out = append(out, item{section, root, f, n, false})
		}
	}
	all := len(styles)

	// types and declarations
	dept := 3
	for _, t := range types(dept) {
		add("types", "declarativeType", all, t)
		for _, n := range plainNames {
			add("types", "variableDeclaration", all, typed(t, n))
			add("types", "instruction", 2, typed(t, n))
		}
		add("types", "variableDeclarations", 2, form{cat(typed(t, "ab").lex, lx(","), typed(types(1)[6], "cd").lex), typed(t, "ab").want + " " + typed(types(1)[6], "cd").want})
	}

	// names, wherever they may be
	ns := append(append([]string{}, plainNames...), trickyNames...)
	other := uintValue("3")
	for _, n := range ns {
		v := name(n)
		add("names", "operation", 3, v, op(v, "+", other), op(other, "<", v), op(v, "==", v), isNull(v), paren(v))
		add("names", "assignable", 3, v, list(v), list(v, other), list(other, v), slice(listName(n), v, nil), slice(listName(n), v, &v), fetch(listName(n), v), extract(listName(n)), appending(listName(n), v), appending(list(v), other))
		add("names", "assignment", 3, assign([]form{v}, false, []form{other}), assign([]form{v}, true, []form{other}), assign([]form{v, v}, false, []form{other, other}),
			assign([]form{name("_"), v}, true, []form{other, v}), assign([]form{typed(types(0)[1], n)}, false, []form{v}), assign([]form{v}, false, []form{v, v}))
		add("names", "instruction", 3, increment(n, true), increment(n, false), logCall(v), forEach(each(v, v, listName(n), 0), block()), forEach(each(name("_"), v, listName(n), 1), block(increment(n, true))),
			ifThen(v, block()), ifThen(op(v, ">", v), block(increment(n, false))), assign([]form{v}, false, []form{v}))
		for _, t := range types(1) {
			add("names", "instruction", 2, typed(t, n))
		}
	}

	// values
	values := []form{}
	values = append(values, numbers...)
	values = append(values, bools...)
	values = append(values, texts...)
	for _, v := range values {
		add("values", "assignable", all, v)
		add("values", "assignment", all, assign([]form{name("ab")}, false, []form{v}), assign([]form{name("ab")}, true, []form{v}))
		add("values", "instruction", 2, logCall(v))
		for _, w := range values {
			if deep {
				add("values", "assignable", 2, list(v, w))
			} else {
				add("values", "assignable", 1, list(v, w))
			}
			if deep {
				add("values", "assignment", 2, assign([]form{name("ab"), name("cd")}, false, []form{v, w}))
			}
		}
	}
	for _, sign := range []string{"", "-"} {
		for _, whole := range []string{"0", "00", "5", "05", "10", "123456789"} {
			for _, rest := range []string{"", ".0", ".5", ".05", ".50", ".000001", ".999"} {
				t := whole + rest
				l := lx(t)
				if sign != "" {
					l = lx(sign, t)
				}
				f := form{l, ""}
				switch v, err := strconv.ParseFloat(sign+t, 64); {
				case err != nil:
					panic(err)
				case rest != "":
					f.want = fmt.Sprintf("float:%v", v)
				case sign != "":
					f.want = fmt.Sprintf("int:%d", int(v))
				default:
					f.want = fmt.Sprintf("uint:%d", uint(v))
				}
				add("numbers", "assignable", all, f, list(f, f))
				add("numbers", "operation", 2, f, op(name("ab"), "-", f), op(f, "+", name("ab")))
				add("numbers", "assignment", 2, assign([]form{name("ab")}, true, []form{f}))
			}
		}
	}

	// lists of any length
	pick := func(from []form, n, off int) []form {
		o := []form{}
		for i := 0; i < n; i++ {
			o = append(o, from[(i+off)%len(from)])
		}
		return o
	}
	longest, r4 := 5, 3
	if deep {
		longest, r4 = 8, 4
	}
	plainTargets := []form{name("ab"), name("_"), name("cd"), name("ef")}
	anyTargets := []form{name("ab"), typed(types(0)[4], "cd"), name("_"), typed(types(1)[6], "ef")}
	someValues := []form{numbers[1], texts[1], name("gh"), numbers[9], bools[0], list(numbers[5], name("ij"))}
	for n := 1; n <= longest; n++ {
		for m := 1; m <= longest; m++ {
			for off := 0; off < 2; off++ {
				add("lengths", "assignment", 1, assign(pick(plainTargets, n, off), true, pick(someValues, m, off+n)), assign(pick(plainTargets, n, off), false, pick(someValues, m, n)), assign(pick(anyTargets, n, off), false, pick(someValues, m, off+m)))
			}
		}
		for off := range someValues {
			add("lengths", "assignable", 2, list(pick(someValues, n, off)...))
		}
		for off := 0; off < 4; off++ {
			l, w := []string{}, ""
			for i := 0; i < n; i++ {
				d := typed(types(1)[(i+off)%len(types(1))], []string{"ab", "cd", "ef"}[i%3])
				if i > 0 {
					l, w = append(l, ","), w+" "
				}
				l, w = append(l, d.lex...), w+d.want
			}
			add("lengths", "variableDeclarations", 2, form{l, w})
		}
	}
	// the same elements again, next to each other or apart
	words := func(n int, f func(idx []int)) {
		vlib.Product([]int{2, 2, 2, 2}[:n], f)
	}
	choose := func(from []form, idx []int) []form {
		o := []form{}
		for _, i := range idx {
			o = append(o, from[i])
		}
		return o
	}
	for n := 2; n <= r4; n++ {
		words(n, func(idx []int) {
			add("again", "assignment", 1, assign(choose(plainTargets, idx), true, choose(someValues, idx)), assign(choose(plainTargets[1:], idx), false, choose(someValues[2:], idx)), assign(choose(anyTargets, idx), false, choose(someValues[4:], idx)))
			add("again", "assignable", 1, list(choose(someValues, idx)...), list(choose(someValues[4:], idx)...))
			d := []form{typed(types(1)[2], "ab"), typed(types(1)[4], "ab")}
			l, w := []string{}, ""
			for i, x := range idx {
				if i > 0 {
					l, w = append(l, ","), w+" "
				}
				l, w = append(l, d[x].lex...), w+d[x].want
			}
			add("again", "variableDeclarations", 1, form{l, w})
			operands := choose([]form{name("ab"), numbers[1]}, idx)
			f := operands[n-1]
			for i := n - 2; i >= 0; i-- {
				f = op(operands[i], []string{"+", "-"}[idx[i+1]], f)
			}
			add("again", "operation", 1, f)
		})
	}
	for _, v := range tooLarge {
		f := lx(v)
		if v[0] == '-' {
			f = lx("-", v[1:])
		}
		for _, root := range []string{"assignable", "operation"} {
			out = append(out, item{"too large", root, form{f, "an error"}, all, true})
		}
	}

	// operations: one operator over all elements, then nested ones
	atoms := []form{name("ab"), name("cd"), numbers[1], numbers[5], numbers[8], numbers[9], bools[0], bools[1]}
	composed := []form{isNull(name("ab")), isNull(op(name("ab"), "-", name("cd"))), paren(name("ab")), paren(op(name("ab"), "+", numbers[1])), paren(op(numbers[5], "<=", name("cd")))}
	units := append(append([]form{}, atoms...), composed...)
	add("operations", "operation", all, units...)
	for k, o := range binary {
		for i, a := range units {
			for j, b := range units {
				if !deep && (i >= len(atoms) || j >= len(atoms)) && (i+j+k)%4 != 0 {
					continue
				}
				add("operations", "operation", 2, op(a, o, b))
			}
		}
	}
	small := []form{name("ab"), numbers[1], bools[0]}
	for _, o := range binary {
		for _, p := range binary {
			for i, a := range small {
				b, c := small[(i+1)%3], small[(i+2)%3]
				add("operations", "operation", 1, op(a, o, op(b, p, c)))
				if deep || i == 0 {
					add("operations", "operation", 1, op(paren(op(a, o, b)), p, c))
				}
				if deep {
					add("operations", "operation", 2, op(a, o, paren(op(b, p, c))), op(a, o, op(b, p, op(c, o, a))), isNull(op(a, o, op(b, p, c))))
				}
			}
		}
	}

	// assignables
	ix := []form{uintValue("0"), uintValue("12"), name("ab")}
	listValues := []form{listName("ab"), list(), list(numbers[1]), list(texts[1], bools[0])}
	lists := []form{}
	for _, l := range listValues {
		for _, i := range ix {
			lists = append(lists, slice(l, i, nil))
			for _, j := range ix {
				j := j
				lists = append(lists, slice(l, i, &j))
			}
		}
	}
	singles := []form{numbers[1], numbers[5], texts[0], bools[1], name("cd"), op(name("ab"), "*", numbers[1]), fetch(listName("cd"), ix[0]), extract(listName("cd"))}
	appends := []form{}
	for _, l := range listValues {
		for _, s := range singles {
			appends = append(appends, appending(l, s))
		}
	}
	whole := append(append(append([]form{}, listValues[1:]...), lists...), appends...)
	add("assignables", "assignable", all, whole...)
	add("assignables", "assignable", all, singles...)
	for k, l := range append([]form{listValues[0]}, whole...) {
		n := 1
		if k < 6 || deep {
			n = 2
		}
		// what is appended last would take the dots or the index that follow
		last := l.lex[0] == "append"
		p := paren(l)
		if k%2 == 1 && k > 8 && !deep {
			continue
		}
		add("assignables", "assignable", n, extract(p), fetch(p, ix[k%3]))
		if !last {
			add("assignables", "assignable", n, extract(l), fetch(l, ix[k%3]))
		}
		add("assignables", "assignable", n, list(l), list(l, numbers[1]))
		if l.want == "(list ab)" {
			out = out[:len(out)-2]
		}
	}
	for _, l := range listValues[1:] {
		for _, m := range listValues[1:] {
			add("assignables", "assignable", 2, list(l, m))
		}
	}
	for _, l := range listValues {
		for _, s := range singles {
			for _, t := range singles {
				if deep || s.want != t.want {
					add("assignables", "assignable", 1, list(s, t), list(list(s), t))
				}
			}
			add("assignables", "assignable", 1, appending(l, extract(paren(appending(listName("ef"), s)))))
		}
	}

	// assignments: targets x values
	firsts := []form{name("ab"), name("_"), typed(types(0)[4], "cd"), typed(types(1)[6], "ef")}
	given := []form{numbers[1], name("gh"), texts[1], list(numbers[1]), op(name("ab"), "<", numbers[1]), slice(listName("ab"), ix[0], &ix[1]), fetch(listName("ab"), ix[2])}
	for i, a := range firsts {
		for _, g := range given {
			add("assignments", "assignment", all, assign([]form{a}, false, []form{g}))
			if i < 2 {
				add("assignments", "assignment", all, assign([]form{a}, true, []form{g}))
			}
		}
		for j, b := range firsts {
			for k, g := range given {
				h := given[(k+i+1)%len(given)]
				add("assignments", "assignment", 2, assign([]form{a, b}, false, []form{g, h}))
				if i < 2 && j < 2 {
					add("assignments", "assignment", 2, assign([]form{a, b}, true, []form{g, h}))
				}
			}
			for _, c := range firsts {
				add("assignments", "assignment", 2, assign([]form{a, b, c}, false, []form{numbers[1], texts[0], name("gh")}))
			}
		}
	}

	// instructions
	plain := []form{
		assign([]form{name("ab")}, false, []form{numbers[1]}),
		assign([]form{name("ab")}, true, []form{name("cd")}),
		typed(types(0)[2], "ab"),
		increment("ab", true),
		increment("ab", false),
		{lx("break"), "break"},
		{lx("continue"), "continue"},
		logCall(name("ab")),
	}
	conds := []form{name("ab"), bools[0], op(name("ab"), "<", numbers[8]), paren(op(name("ab"), "==", bools[1])), isNull(name("ab"))}
	iters := []form{listName("cd"), list(numbers[1], numbers[1]), slice(listName("cd"), ix[0], &ix[1]), appending(listName("cd"), numbers[1])}
	add("instructions", "instruction", all, plain...)
	nested := []form{}
	for _, c := range conds {
		nested = append(nested, ifThen(c, block()))
		for _, i := range plain {
			nested = append(nested, ifThen(c, block(i)))
		}
	}
	for p := 0; p < 3; p++ {
		for _, x := range []form{name("ab"), name("_")} {
			for _, y := range []form{name("ef"), name("_")} {
				for _, l := range iters {
					nested = append(nested, forEach(each(x, y, l, p), block()), forEach(each(x, y, l, p), block(plain[0])))
				}
			}
		}
	}
	for _, i := range plain {
		nested = append(nested, forEach(each(name("ab"), name("cd"), iters[0], 0), block(i)))
		for _, j := range plain {
			nested = append(nested, ifThen(conds[0], block(i, j)), forEach(each(name("ab"), name("cd"), iters[0], 0), block(i, j)))
		}
	}
	add("instructions", "instruction", 2, nested...)
	for k, n := range nested {
		if k%4 == 0 || deep {
			add("instructions", "instruction", 1, ifThen(conds[k%2], block(n)), forEach(each(name("_"), name("ab"), iters[0], k%2), block(n, plain[k%len(plain)])))
		}
	}
	for _, g := range given {
		add("instructions", "instruction", all, logCall(g))
	}

	// headers
	for _, in := range []bool{true, false} {
		for _, opt := range []bool{true, false} {
			for _, t := range types(1) {
				for _, k := range []string{"a", "key_name", "_", "break_"} {
					add("headers", "headerVariable", all, header(in, typed(t, "ab"), k, opt))
				}
			}
		}
	}
	hs := []form{header(true, typed(types(0)[2], "ab"), "first", false), header(true, typed(types(1)[6], "cd"), "second_one", true), header(false, typed(types(0)[4], "ef"), "third", false), header(false, typed(types(0)[0], "gh"), "f", true)}

	// the same ones again
	for n := 2; n <= r4; n++ {
		words(n, func(idx []int) {
			again := []form{increment("ab", true), assign([]form{name("ab")}, true, []form{numbers[1]})}
			add("again", "program", 1, program(choose(hs, idx), choose(again, idx)), program(choose(hs[2:], idx), choose([]form{plain[0], plain[1]}, idx)))
			add("again", "instruction", 1, ifThen(conds[0], block(choose(again, idx)...)), forEach(each(name("ab"), name("ab"), iters[0], 0), block(choose(again, idx)...)))
		})
	}

	// many of them
	for n := 4; n <= longest; n++ {
		for off := 0; off < 4; off++ {
			add("lengths", "program", 2, program(pick(hs, n, off), pick(plain, n, off)), program(pick(hs, off, off), pick(plain, n+1, off*2)), program(pick(hs, n, off), pick(plain, 1, off)))
			add("lengths", "instruction", 1, ifThen(conds[off], block(pick(plain, n, off)...)), forEach(each(name("ab"), name("cd"), iters[off], 0), block(pick(plain, n, off+1)...)))
		}
	}

	// programs
	last := append(append([]form{}, plain...), ifThen(conds[2], block(plain[5])), forEach(each(name("ab"), name("_"), iters[0], 0), block(plain[3], plain[6])))
	if !deep {
		last = append(last[:3:3], last[3], last[5], last[7], last[8], last[9])
	}
	for i, a := range last {
		add("programs", "program", all, program(nil, []form{a}))
		for _, h := range hs {
			add("programs", "program", all, program([]form{h}, []form{a}))
		}
		for j, b := range last {
			add("programs", "program", all, program(nil, []form{a, b}), program([]form{hs[(i+j)%4], hs[(i+2*j+1)%4]}, []form{a, b}))
			for k, c := range last {
				add("programs", "program", 2, program(nil, []form{a, b, c}))
				if deep {
					add("programs", "program", 2, program([]form{hs[(i+j)%4], hs[(i+k)%4], hs[(j+k)%4]}, []form{a, b, c}))
				}
			}
		}
	}
	for _, a := range hs {
		for _, b := range hs {
			for _, c := range hs {
				add("programs", "program", 2, program([]form{a, b, c}, []form{plain[0], plain[1]}))
			}
		}
	}
	for _, v := range append(append([]form{}, given...), values...) {
		for _, n := range last {
			add("programs", "program", 2, program(nil, []form{assign([]form{name("xy")}, false, []form{v}), n}))
		}
	}
	return append(out, large(deep)...)
}
