// C05: the builders of the ledger records: every history of calls.
package main

import (
	"fmt"

	"github.com/steve-care-software/steve/zz_verif/ledger"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C05")
	r.Rule = "for each kind of record: (1) the full product of its field values, missing ones included, against the predicted verdict and every getter; (2) every sequence of builder calls (each setter with each of its representative values, start over, build) up to the depth, against a last-write-wins model; non-trivial: sequences in which a build follows a build, an overwrite or a start over"
	for _, s := range ledger.Universe(r.Thorough()) {
		product(r, s)
		histories(r, s)
	}
	r.Finish()
}

func verdict(r *vlib.R, s *ledger.Spec, o interface{}, err error, choice []*ledger.Val) {
	if !s.Valid(choice) {
		r.Outcome(s.Name + " refused")
		if err == nil {
			vlib.Failf("%s with %s was built", s.Name, s.Content(choice))
		}
		if o != nil {
			vlib.Failf("%s with %s: an error and a record", s.Name, s.Content(choice))
		}
		return
	}
	r.Outcome(s.Name + s.Content(choice))
	if err != nil {
		vlib.Failf("%s with %s was refused: %s", s.Name, s.Content(choice), err)
	}
	if d := s.Check(o, choice); d != "" {
		vlib.Failf("%s with %s: %s", s.Name, s.Content(choice), d)
	}
}

func product(r *vlib.R, s *ledger.Spec) {
	dims := []int{}
	for _, f := range s.Fields {
		dims = append(dims, len(f.Vals)+1)
	}
	n := len(s.Fields)
	order := []int{}
	for i := 0; i < n; i++ {
		order = append(order, i)
	}
	vlib.Product(dims, func(idx []int) {
		choice := make([]*ledger.Val, n)
		for i, x := range idx {
			if x > 0 {
				v := s.Fields[i].Vals[x-1]
				choice[i] = &v
			}
		}
		id := fmt.Sprintf("%s:%v", s.Name, idx)
		r.State(id)
		r.Section("product", 1)
		r.Case(id, func() {
			o, err := s.Build(ledger.Create(s.New()), choice, order)
			r.Step(n + 1)
			verdict(r, s, o, err, choice)
		})
	})
}

// startOver: whatever a builder was given before it starts over, built or not, leaves no trace.
func startOver(r *vlib.R, s *ledger.Spec) {
	n := len(s.Fields)
	good := make([][]ledger.Val, n)
	dims := make([]int, n)
	for i, f := range s.Fields {
		for _, v := range f.Vals {
			if !v.Missing && len(good[i]) < 2 {
				good[i] = append(good[i], v)
			}
		}
		dims[i] = len(good[i]) + 1
	}
	befores := [][]int{make([]int, n), make([]int, n)}
	for i := range befores[0] {
		befores[0][i], befores[1][i] = min1(1, dims[i]-1), dims[i]-1
	}
	for i := 0; i < n; i++ {
		one := make([]int, n)
		one[i] = min1(1, dims[i]-1)
		befores = append(befores, one)
	}
	pick := func(idx []int) []*ledger.Val {
		out := make([]*ledger.Val, n)
		for i, x := range idx {
			if x > 0 {
				v := good[i][x-1]
				out[i] = &v
			}
		}
		return out
	}
	order := []int{}
	for i := 0; i < n; i++ {
		order = append(order, i)
	}
	for _, before := range befores {
		for _, build := range []bool{true, false} {
			before, build := before, build
			vlib.Product(dims, func(idx []int) {
				id := fmt.Sprintf("startover:%s:%v:%v:%v", s.Name, before, build, idx)
				r.State(id)
				r.Section("start over", 1)
				idx = append([]int{}, idx...)
				r.Case(id, func() {
					b := ledger.Create(s.New())
					first := pick(before)
					for _, i := range order {
						if first[i] != nil {
							b = ledger.Set(b, s.Fields[i].Setter, first[i].V)
						}
					}
					if build {
						o, err := ledger.Now(b)
						verdict(r, s, o, err, first)
					}
					choice := pick(idx)
					o, err := s.Build(ledger.Create(b), choice, order)
					r.Step(2*n + 3)
					verdict(r, s, o, err, choice)
					r.Nontrivial()
				})
			})
		}
	}
}

type op struct {
	kind  string
	field int
	val   ledger.Val
}

// histories explores every sequence of calls.
func histories(r *vlib.R, s *ledger.Spec) {
	ops := []op{{kind: "now"}, {kind: "create"}}
	full := 0
	startOver(r, s)
	for i, f := range s.Fields {
		picked := 0
		for _, v := range f.Vals {
			// two good values and, once, a missing one
			if v.Missing && v.V == nil && picked == 0 {
				ops = append(ops, op{"set", i, v})
				continue
			}
			if !v.Missing && picked < 2 {
				ops = append(ops, op{"set", i, v})
				picked++
			}
		}
		full++
	}
	depth := full + 2
	if depth < 4 {
		depth = 4
	}
	if depth > r.Pick(5, 6) {
		depth = r.Pick(5, 6)
	}
	n := len(s.Fields)
	var rec func(seq []int)
	run := func(seq []int) {
		id := fmt.Sprintf("history:%s:%v", s.Name, seq)
		r.State(id)
		r.Case(id, func() {
			b := ledger.Create(s.New())
			choice := make([]*ledger.Val, n)
			type built struct {
				o      interface{}
				choice []*ledger.Val
			}
			olds := []built{}
			for _, x := range seq {
				o := ops[x]
				r.Step(1)
				switch o.kind {
				case "create":
					old := b
					b = ledger.Create(b)
					choice = make([]*ledger.Val, n)
					_ = old
				case "now":
					obj, err := ledger.Now(b)
					verdict(r, s, obj, err, choice)
					if err == nil {
						olds = append(olds, built{obj, append([]*ledger.Val{}, choice...)})
					}
				case "set":
					v := o.val
					b = ledger.Set(b, s.Fields[o.field].Setter, v.V)
					choice[o.field] = &v
				}
			}
			// what was built earlier is still what it was
			for _, p := range olds {
				if d := s.Check(p.o, p.choice); d != "" {
					vlib.Failf("a record that was built changed when its builder went on: %s", d)
				}
			}
			if len(olds) > 1 {
				r.Nontrivial()
			}
		})
	}
	rec = func(seq []int) {
		if len(seq) > 0 && ops[seq[len(seq)-1]].kind == "now" {
			run(append([]int{}, seq...))
			r.Section("histories", 1)
		}
		if len(seq) == depth || r.Expired("histories") {
			return
		}
		for x := range ops {
			rec(append(seq, x))
		}
	}
	// start from a builder in which every field is set, so that short histories reach successful builds
	prefix := []int{}
	for i := range s.Fields {
		for x, o := range ops {
			if o.kind == "set" && o.field == i && !o.val.Missing {
				prefix = append(prefix, x)
				break
			}
		}
	}
	rec([]int{})
	base := append([]int{}, prefix...)
	depth = len(base) + r.Pick(3, 4)
	rec(base)
}

func min1(a, b int) int {
	if a < b {
		return a
	}
	return b
}
