package main

import (
	"fmt"
	"strconv"
	"strings"
)

// large enumerates programs of which one part is much larger than what people write by hand.
func large(deep bool) []item {
	out := []item{}
	add := func(section, root string, n int, list ...form) {
		for _, f := range list {
			out = append(out, item{section, root, f, n, false})
		}
	}

	// list types, of any dept
	depts := []int{4, 5, 6, 7, 8, 9, 12, 17}
	if deep {
		depts = append(depts, 33, 65)
	}
	for _, d := range depts {
		for i, b := range types(0) {
			lex := b.lex
			for k := 0; k < d; k++ {
				lex = cat(lx("list", "<"), lex, lx(">"))
			}
			t := form{lex, fmt.Sprintf("%s*%d", b.want, d)}
			add("large types", "declarativeType", 2, t)
			if i == d%5 {
				v := typed(t, "ab")
				add("large types", "variableDeclaration", 1, v)
				add("large types", "instruction", 1, v)
				add("large types", "assignment", 1, assign([]form{v}, false, []form{name("cd")}))
				add("large types", "program", 1, program([]form{header(d%2 == 0, v, "key", d%3 == 0)}, []form{v}))
			}
		}
	}

	// many of the same
	sizes := []int{6, 7, 8, 9, 10, 12, 17, 33}
	if deep {
		sizes = append(sizes, 65, 129)
	}
	nth := func(prefix string, i int) string {
		return prefix + string([]byte{byte('a' + i/26%26), byte('a' + i%26)})
	}
	for _, n := range sizes {
		values, names, decls, heads, body, lists := []form{}, []form{}, []form{}, []form{}, []form{}, []form{}
		lex, want := []string{}, []string{}
		for i := 0; i < n; i++ {
			values = append(values, uintValue(strconv.Itoa(100+i)))
			names = append(names, name(nth("x", i)))
			t := typed(types(1)[i%10], nth("y", i))
			decls = append(decls, t)
			heads = append(heads, header(i%2 == 0, t, nth("k", i), i%3 == 0))
			body = append(body, assign([]form{names[i]}, i%2 == 0, []form{values[i]}))
			lists = append(lists, list(values[i]))
			if i > 0 {
				lex = append(lex, ",")
			}
			lex, want = append(lex, t.lex...), append(want, t.want)
		}
		add("large lists", "assignable", 1, list(values...))
		if n < 16 || deep {
			add("large lists", "assignable", 1, list(names...), list(lists...), extract(list(values...)), fetch(list(names...), values[n-1]))
		}
		add("large lists", "variableDeclarations", 1, form{lex, strings.Join(want, " ")})
		add("large assignments", "assignment", 1,
			assign(names, true, values), assign(names, false, values), assign(decls, false, names), assign(names[:1], true, values), assign(names, true, values[:1]))
		if n < 33 || deep {
			add("large bodies", "program", 1, program(nil, body), program(heads, body), program(heads, body[:1]))
			add("large bodies", "instruction", 1, ifThen(names[0], block(body...)), forEach(each(names[0], names[1], listName("cd"), 0), block(body...)))
		}
	}

	// many operations, one after the other
	opSizes := []int{4, 5, 6, 7}
	if deep {
		opSizes = append(opSizes, 8)
	}
	for _, n := range opSizes {
		for k, o := range binary {
			f := name(nth("x", n))
			for i := n - 1; i >= 0; i-- {
				p := o
				if i%2 == 1 {
					p = binary[(k+5)%len(binary)]
				}
				f = op(name(nth("x", i)), p, f)
			}
			add("large operations", "operation", 1, f)
		}
	}

	// bodies in bodies
	depth := 4
	if deep {
		depth = 7
	}
	for _, start := range []int{0, 1} {
		in := increment("ab", true)
		for d := 0; d < depth; d++ {
			if (d+start)%2 == 0 {
				in = ifThen(name(nth("c", d)), block(in))
			} else {
				in = forEach(each(name("_"), name(nth("v", d)), listName(nth("l", d)), 0), block(in, form{lx("break"), "break"}))
			}
			add("bodies in bodies", "instruction", 1, in)
		}
		add("bodies in bodies", "program", 1, program(nil, []form{in, in}))
	}

	// long names and keys
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257} {
		long := strings.Repeat("abCdefghijKlmnopqrstuvwxYz", 1+n/26)[:n]
		v := name(long)
		add("long names", "operation", 1, v, op(v, "+", v))
		add("long names", "assignable", 1, list(v), fetch(listName(long), v), appending(listName(long), v))
		add("long names", "assignment", 1, assign([]form{v}, false, []form{v}), assign([]form{v}, true, []form{v}), assign([]form{typed(types(0)[2], long)}, false, []form{v}))
		add("long names", "instruction", 1, typed(types(0)[2], long), increment(long, true), forEach(each(v, v, listName(long), 0), block()))
		add("long names", "headerVariable", 1, header(true, typed(types(0)[2], long), strings.ToLower(long), false), header(false, typed(types(0)[2], "ab"), strings.ToLower(strings.Replace(long, "f", "_", -1)), true))
		s := str(strings.Repeat("some text, of any length; ", 1+n/26)[:n])
		add("long texts", "assignable", 1, s, list(s, s))
		add("long texts", "instruction", 1, logCall(s))
	}

	// numbers of many digits
	for _, i := range []string{"255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "00000000000000000000000000000007"} {
		v, err := strconv.ParseUint(i, 10, 64)
		if err != nil {
			panic(err)
		}
		f := form{lx(i), fmt.Sprintf("uint:%d", v)}
		zero := uintValue("0")
		add("large numbers", "assignable", 2, f, fetch(listName("ab"), f), slice(listName("ab"), f, nil), slice(listName("ab"), zero, &f), slice(listName("ab"), f, &f), slice(list(f), f, &f))
		add("large numbers", "operation", 1, op(f, "-", f))
		if v <= 1<<63 {
			g := form{lx("-", i), fmt.Sprintf("int:%d", -int64(v))}
			add("large numbers", "assignable", 2, g, list(g, f))
			add("large numbers", "operation", 1, op(name("ab"), "+", g))
		}
	}
	for _, whole := range []string{"0", "1", "123456789", "12345678901234567", "123456789012345678901234567890", "00000000000000000000000001"} {
		for _, frac := range []string{"1", "123456789012345", "1234567890123456", "12345678901234567", "000000000000000000001", "000000000000000000000000000000000000000000001", "50000000000000000000000000", "99999999999999999999999", "0000000000000001110223024625156540423631668090820312501"} {
			for _, sign := range []string{"", "-"} {
				t := whole + "." + frac
				v, err := strconv.ParseFloat(sign+t, 64)
				if err != nil {
					panic(err)
				}
				l := lx(t)
				if sign != "" {
					l = lx(sign, t)
				}
				f := form{l, fmt.Sprintf("float:%v", v)}
				add("large numbers", "assignable", 1, f)
				add("large numbers", "assignment", 1, assign([]form{name("ab")}, true, []form{f}))
			}
		}
	}
	for _, v := range tooLarge {
		if v[0] == '-' {
			continue
		}
		f := lx(v)
		zero := uintValue("0")
		for _, g := range []form{fetch(listName("ab"), form{f, ""}), slice(listName("ab"), form{f, ""}, nil), slice(listName("ab"), zero, &form{f, ""})} {
			out = append(out, item{"too large", "assignable", form{g.lex, "an error"}, 2, true})
		}
	}
	return out
}
