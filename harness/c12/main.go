// C12: a cardinality allows exactly the counts that its text says.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/cardinality"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

type card struct {
	min  uint64
	max  uint64
	inf  bool
	kind string
}

func num(s string) (uint64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	v, err := strconv.ParseUint(s, 10, 64)
	return v, err == nil
}

// inner reads "n", "n,m" or "n,".
func inner(s string) (card, bool) {
	parts := strings.Split(s, ",")
	switch len(parts) {
	case 1:
		n, ok := num(parts[0])
		return card{n, n, false, "amount"}, ok && n > 0
	case 2:
		n, ok := num(parts[0])
		if !ok {
			return card{}, false
		}
		if strings.TrimSpace(parts[1]) == "" {
			return card{n, 0, true, "range"}, true
		}
		m, ok := num(parts[1])
		return card{n, m, false, "range"}, ok && m >= n
	}
	return card{}, false
}

// model tells what a text means. loose: a form the documentation does not settle (a brace missing).
func model(text string, symbols bool) (c card, ok bool, loose bool) {
	t := strings.TrimSpace(text)
	if symbols {
		switch t {
		case "+":
			return card{1, 0, true, "nonzero"}, true, false
		case "*":
			return card{0, 0, true, "zero"}, true, false
		case "?":
			return card{0, 1, false, "optional"}, true, false
		}
	}
	l, s := strings.HasPrefix(t, "{"), strings.HasSuffix(t, "}")
	if l && s && len(t) >= 2 {
		c, ok := inner(t[1 : len(t)-1])
		return c, ok, false
	}
	t = strings.TrimSuffix(strings.TrimPrefix(t, "{"), "}")
	c, ok = inner(t)
	return c, ok, true
}

func (c card) admits(n uint64) bool { return n >= c.min && (c.inf || n <= c.max) }

func probe(c card) []uint64 {
	out := []uint64{0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 21, 22, 23, 99, 100, 1 << 62, ^uint64(0), c.min, c.max}
	out = append(out, c.min+1, c.max+1, c.min-1, c.max-1)
	return out
}

func checkSpecific(o cardinality.Specific, c card) {
	if o.IsAmount() == o.IsRange() {
		vlib.Failf("the object has kinds amount=%v range=%v", o.IsAmount(), o.IsRange())
	}
	if o.IsAmount() && uint64(*o.Amount()) != c.min {
		vlib.Failf("amount %d instead of %d", *o.Amount(), c.min)
	}
	if o.IsRange() {
		if uint64(o.Range().Min()) != c.min || o.Range().HasMax() == c.inf || (!c.inf && uint64(*o.Range().Max()) != c.max) {
			vlib.Failf("range is not [%d,%d inf=%v]", c.min, c.max, c.inf)
		}
	}
	mn, mx := o.Delimiter()
	if uint64(mn) != c.min || (mx == nil) != c.inf || (mx != nil && uint64(*mx) != c.max) {
		vlib.Failf("delimiters are wrong")
	}
	for _, n := range probe(c) {
		if o.IsValid(uint(n)) != c.admits(n) {
			vlib.Failf("IsValid(%d) = %v, the text says %v", n, o.IsValid(uint(n)), c.admits(n))
		}
	}
}

func check(o cardinality.Cardinality, c card) {
	kinds := map[string]bool{"optional": o.IsOptional(), "mandatory": o.IsMandatory(), "nonzero": o.IsNonZeroMultiple(), "zero": o.IsZeroMultiple(), "specific": o.IsSpecific()}
	for k, v := range kinds {
		want := k == c.kind || (k == "specific" && (c.kind == "amount" || c.kind == "range"))
		if v != want {
			vlib.Failf("kind %s is %v for a cardinality of kind %s", k, v, c.kind)
		}
	}
	mn, mx := o.Delimiter()
	if uint64(mn) != c.min || (mx == nil) != c.inf || (mx != nil && uint64(*mx) != c.max) {
		vlib.Failf("delimiters are wrong for %+v", c)
	}
	for _, n := range probe(c) {
		if o.IsValid(uint(n)) != c.admits(n) {
			vlib.Failf("IsValid(%d) = %v, the text says %v", n, o.IsValid(uint(n)), c.admits(n))
		}
	}
	if o.IsSpecific() {
		checkSpecific(o.Specific(), c)
	}
}

func text(r *vlib.R, ad cardinality.Adapter, sp cardinality.SpecificAdapter, t string) {
	id := fmt.Sprintf("text:%q", t)
	r.State(id)
	r.Case(id, func() {
		c, ok, loose := model(t, true)
		o, err := ad.ToCardinality(t)
		r.Step(1)
		if !loose || !ok {
			if ok != (err == nil) {
				vlib.Failf("accepted=%v, the text is a cardinality: %v (%v)", err == nil, ok, err)
			}
		}
		if err == nil {
			if o == nil {
				vlib.Failf("no object and no error")
			}
			check(o, c)
			back, err := ad.ToPatternString(o)
			r.Step(2)
			if err != nil {
				vlib.Failf("the object has no text: %s", err)
			}
			o2, err := ad.ToCardinality(back)
			if err != nil {
				vlib.Failf("its own text %q is refused: %s", back, err)
			}
			check(o2, c)
			r.Outcome(back)
			r.Nontrivial()
		} else if o != nil {
			vlib.Failf("an object together with an error")
		}
		c, ok, loose = model(t, false)
		s, err := sp.ToSpecific(t)
		r.Step(1)
		if !loose || !ok {
			if ok != (err == nil) {
				vlib.Failf("specific: accepted=%v, the text is one: %v (%v)", err == nil, ok, err)
			}
		}
		if err == nil {
			checkSpecific(s, c)
			back, err := sp.ToPatternString(s)
			if err != nil {
				vlib.Failf("specific: no text: %s", err)
			}
			s2, err := sp.ToSpecific(back)
			if err != nil {
				vlib.Failf("specific: its own text %q is refused: %s", back, err)
			}
			checkSpecific(s2, c)
		}
	})
}

func main() {
	r := vlib.New("C12")
	r.Rule = "every text up to the length over the letters of the notation, boundary numbers, and every history of builder calls up to the depth, against an interval model; non-trivial: texts that are cardinalities"
	ad, sp := cardinality.NewAdapter(), cardinality.NewSpecificAdapter()
	all := vlib.Strings([]string{"{", "}", "0", "1", "3", ",", "+", "*", "?", " ", "-"}, 0, r.Pick(5, 6))
	r.Parallel(64, func(w int) {
		for i := w; i < len(all); i += 64 {
			text(r, ad, sp, all[i])
		}
	})
	mid := vlib.Strings([]string{"0", "1", "3", ",", " ", "-", "\t"}, 1, r.Pick(5, 6))
	r.Parallel(64, func(w int) {
		for i := w; i < len(mid); i += 64 {
			text(r, ad, sp, "{"+mid[i]+"}")
		}
	})
	nums := []string{"0", "1", "2", "9", "10", "11", "99", "007", "65536", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e3", "0x1", "1_0", "+1", "-1", "a", "１"}
	for _, a := range nums {
		text(r, ad, sp, "{"+a+"}")
		text(r, ad, sp, "{"+a+",}")
		for _, b := range nums {
			text(r, ad, sp, "{"+a+","+b+"}")
			text(r, ad, sp, " {"+a+", "+b+"} ")
			text(r, ad, sp, "{"+a+","+b+",1}")
		}
	}
	// objects
	objects := []struct {
		c card
		f func() (cardinality.Cardinality, error)
	}{
		{card{0, 1, false, "optional"}, func() (cardinality.Cardinality, error) {
			return cardinality.NewBuilder().Create().IsOptional().Now()
		}},
		{card{1, 1, false, "mandatory"}, func() (cardinality.Cardinality, error) {
			return cardinality.NewBuilder().Create().IsMandatory().Now()
		}},
		{card{1, 0, true, "nonzero"}, func() (cardinality.Cardinality, error) {
			return cardinality.NewBuilder().Create().IsNonZeroMultiple().Now()
		}},
		{card{0, 0, true, "zero"}, func() (cardinality.Cardinality, error) {
			return cardinality.NewBuilder().Create().IsZeroMultiple().Now()
		}},
	}
	ns := []uint64{0, 1, 2, 3, 9, 10, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0)}
	for _, n := range ns {
		n := n
		r.Case(fmt.Sprintf("amount:%d", n), func() {
			o, err := cardinality.NewSpecificBuilder().Create().WithAmount(uint(n)).Now()
			r.Step(1)
			if (err == nil) != (n > 0) {
				vlib.Failf("an amount of %d: error %v", n, err)
			}
			_ = o
		})
		if n > 0 {
			objects = append(objects, struct {
				c card
				f func() (cardinality.Cardinality, error)
			}{card{n, n, false, "amount"}, func() (cardinality.Cardinality, error) {
				s, err := cardinality.NewSpecificBuilder().Create().WithAmount(uint(n)).Now()
				if err != nil {
					return nil, err
				}
				return cardinality.NewBuilder().Create().WithSpecific(s).Now()
			}})
		}
		for _, m := range append([]uint64{1<<64 - 1}, ns...) {
			n, m := n, m
			for _, inf := range []bool{false, true} {
				inf := inf
				if m < n && !inf {
					continue
				}
				c := card{n, m, inf, "range"}
				if inf {
					c.max = 0
				}
				objects = append(objects, struct {
					c card
					f func() (cardinality.Cardinality, error)
				}{c, func() (cardinality.Cardinality, error) {
					b := cardinality.NewRangeBuilder().Create().WithMinimum(uint(n))
					if !inf {
						b.WithMaximum(uint(m))
					}
					g, err := b.Now()
					if err != nil {
						return nil, err
					}
					s, err := cardinality.NewSpecificBuilder().Create().WithRange(g).Now()
					if err != nil {
						return nil, err
					}
					return cardinality.NewBuilder().Create().WithSpecific(s).Now()
				}})
			}
		}
	}
	for i, ob := range objects {
		ob := ob
		id := fmt.Sprintf("object:%d:%+v", i, ob.c)
		r.State(id)
		r.Case(id, func() {
			o, err := ob.f()
			r.Step(4)
			if err != nil {
				vlib.Failf("refused: %s", err)
			}
			check(o, ob.c)
			s, err := ad.ToPatternString(o)
			if err != nil {
				vlib.Failf("no text: %s", err)
			}
			o2, err := ad.ToCardinality(s)
			if err != nil {
				vlib.Failf("its text %q is refused: %s", s, err)
			}
			c2 := ob.c
			if c2.kind == "mandatory" {
				c2.kind = "amount"
			}
			check(o2, c2)
			r.Outcome(s)
			r.Nontrivial()
		})
	}
	// nothing set: nothing built; and a reused builder starts over at Create
	for i, f := range []func() error{
		func() error { _, err := cardinality.NewBuilder().Create().Now(); return err },
		func() error { _, err := cardinality.NewSpecificBuilder().Create().Now(); return err },
		func() error {
			b := cardinality.NewBuilder()
			b.IsOptional()
			_, err := b.Create().Now()
			return err
		},
		func() error {
			b := cardinality.NewSpecificBuilder()
			b.WithAmount(3)
			_, err := b.Create().Now()
			return err
		},
	} {
		f := f
		r.Case(fmt.Sprintf("empty:%d", i), func() {
			r.Step(1)
			if f() == nil {
				vlib.Failf("built out of nothing")
			}
		})
	}
	r.Finish()
}
