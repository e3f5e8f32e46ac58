// C04: the hash of a ledger record identifies its content.
package main

import (
	"fmt"

	"github.com/steve-care-software/steve/zz_verif/ledger"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C04")
	r.Rule = "for each kind of ledger record, the full product of the values of all its fields (optional ones also absent), built in every rotation of the setters; per kind, the map content -> hash must be a function and injective; non-trivial: contents whose fields concatenate to the same text (amount 1, nonce 12 / amount 11, nonce 2), absent against present optional fields, permuted lists"
	r.Assume("SHA-512 is collision free on the contents explored; times count at one second where the record stores seconds")
	for _, s := range ledger.Universe(r.Thorough()) {
		s := s
		if !s.Hashed {
			continue
		}
		dims := []int{}
		for _, f := range s.Fields {
			dims = append(dims, len(f.Vals)+1)
		}
		byHash := map[string]string{}
		hashOf := map[string]string{}
		n := len(s.Fields)
		vlib.Product(dims, func(idx []int) {
			choice := make([]*ledger.Val, n)
			for i, x := range idx {
				if x > 0 {
					v := s.Fields[i].Vals[x-1]
					choice[i] = &v
				}
			}
			if !s.Valid(choice) {
				return
			}
			content := s.Content(choice)
			r.State(s.Name + content)
			r.Case(fmt.Sprintf("%s:%v", s.Name, idx), func() {
				for rot := 0; rot < n; rot++ {
					order := []int{}
					for i := 0; i < n; i++ {
						order = append(order, (i+rot)%n)
					}
					o, err := s.Build(ledger.Create(s.New()), choice, order)
					r.Step(1)
					if err != nil {
						vlib.Failf("%s with %s is refused: %s", s.Name, content, err)
					}
					h := ledger.HashOf(o).String()
					if h2 := ledger.HashOf(o).String(); h2 != h {
						vlib.Failf("%s with %s: its hash changes from %s to %s", s.Name, content, h, h2)
					}
					if old, ok := hashOf[content]; ok && old != h {
						vlib.Failf("%s with %s has two hashes: %s and %s", s.Name, content, old, h)
					}
					hashOf[content] = h
					if other, ok := byHash[h]; ok && other != content {
						vlib.Failf("two different %s have one hash: %s and %s", s.Name, other, content)
					}
					byHash[h] = content
					r.Outcome(h)
				}
			})
		})
		for range byHash {
			r.Nontrivial()
		}
		r.Section(s.Name, int64(len(byHash)))
	}
	r.Finish()
}
