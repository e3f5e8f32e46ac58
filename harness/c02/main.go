// C02: Order puts the blocks it is given back in committed order and refuses anything else.
package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"sort"

	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func pow2(n int) int {
	out := 2
	for out < n {
		out *= 2
	}
	return out
}

// model: the data must be a sub-collection of the (padded) committed blocks; the answer is that
// sub-collection in committed order. ok=false: the data contains something that was not committed.
func model(committed []string, data []string) (sorted [][]string, ok bool) {
	left := map[string]int{}
	for _, d := range data {
		left[d]++
	}
	have := map[string]int{}
	for _, c := range committed {
		have[c]++
	}
	for d, n := range left {
		if n > have[d] {
			return nil, false
		}
	}
	return nil, true
}

// inOrder tells whether out is a subsequence of committed.
func inOrder(committed []string, out [][]byte) bool {
	i := 0
	for _, c := range committed {
		if i < len(out) && string(out[i]) == c {
			i++
		}
	}
	return i == len(out)
}

func multiset(l []string) string {
	c := append([]string{}, l...)
	sort.Strings(c)
	return fmt.Sprintf("%q", c)
}

func bs(l []string) [][]byte {
	out := [][]byte{}
	for _, x := range l {
		out = append(out, []byte(x))
	}
	return out
}

func strs(l [][]byte) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, string(x))
	}
	return out
}

func check(r *vlib.R, tree hashtree.HashTree, committed []string, data []string) {
	in := bs(data)
	out, err := tree.Order(in)
	r.Step(1)
	for i := range in {
		if !bytes.Equal(in[i], []byte(data[i])) {
			vlib.Failf("ordering changed the caller's data")
		}
	}
	_, ok := model(committed, data)
	if !ok {
		r.Outcome("refused")
		if err == nil {
			vlib.Failf("data %q is not part of the committed blocks %q, yet it was ordered as %q", data, committed, strs(out))
		}
		return
	}
	if err != nil {
		vlib.Failf("data %q is part of the committed blocks %q, yet it was refused: %s", data, committed, err)
	}
	if multiset(strs(out)) != multiset(data) {
		vlib.Failf("data %q came back as %q", data, strs(out))
	}
	if !inOrder(committed, out) {
		vlib.Failf("data %q came back as %q, not in the committed order %q", data, strs(out), committed)
	}
	r.Outcome(fmt.Sprintf("%q", strs(out)))
}

func main() {
	r := vlib.New("C02")
	r.Rule = "every list of blocks over a 4-letter alphabet (with repeats and the empty block) up to the depth, times every list of data over the same alphabet plus one foreign block; non-trivial: data is a permutation other than the committed order, or is not a sub-collection"
	r.Assume("SHA-512 is collision free on the blocks explored")
	alphabet := []string{"a", "b", "", "ab"}
	foreign := append(append([]string{}, alphabet...), "z")
	type job struct{ blocks []string }
	jobs := []job{}
	vlib.Words(alphabet, 1, r.Pick(4, 5), func(w []string) { jobs = append(jobs, job{w}) })
	r.Parallel(len(jobs), func(i int) {
		blocks := jobs[i].blocks
		if r.Expired("blocks x data") {
			return
		}
		tree, err := hashtree.NewBuilder().Create().WithBlocks(bs(blocks)).Now()
		if err != nil {
			r.Violate(fmt.Sprintf("build:%q", blocks), err.Error())
			return
		}
		committed := append([]string{}, blocks...)
		for len(committed) < pow2(len(blocks)) {
			committed = append(committed, "")
		}
		max := len(blocks) + 1
		if max > r.Pick(5, 6) {
			max = r.Pick(5, 6)
		}
		r.State(fmt.Sprintf("%q", blocks))
		vlib.Words(foreign, 0, max, func(data []string) {
			id := fmt.Sprintf("order:%q:%q", blocks, data)
			if multiset(data) == multiset(blocks) && fmt.Sprint(data) != fmt.Sprint(blocks) {
				r.Nontrivial()
			}
			r.Case(id, func() { check(r, tree, committed, data) })
		})
		r.Section(fmt.Sprintf("blocks=%d", len(blocks)), 1)
	})
	// blocks that hold the digest of other blocks: none stands for another
	da, db := sha512.Sum512([]byte("a")), sha512.Sum512([]byte("b"))
	digests := []string{"a", "b", string(da[:])}
	vlib.Words(digests, 1, r.Pick(4, 5), func(blocks []string) {
		tree, err := hashtree.NewBuilder().Create().WithBlocks(bs(blocks)).Now()
		if err != nil {
			r.Violate(fmt.Sprintf("build:%q", blocks), err.Error())
			return
		}
		committed := append([]string{}, blocks...)
		for len(committed) < pow2(len(blocks)) {
			committed = append(committed, "")
		}
		r.State(fmt.Sprintf("%q", blocks))
		max := len(blocks) + 1
		if max > r.Pick(4, 5) {
			max = r.Pick(4, 5)
		}
		vlib.Words(append(append([]string{}, digests...), string(db[:])), 0, max, func(data []string) {
			r.Case(fmt.Sprintf("digests:%x:%x", blocks, data), func() { check(r, tree, committed, data) })
		})
		r.Section("digests as blocks", 1)
	})
	// every permutation of distinct blocks, on wider trees
	for n := 1; n <= r.Pick(7, 8); n++ {
		blocks := []string{}
		for i := 0; i < n; i++ {
			blocks = append(blocks, fmt.Sprintf("block %d", i))
		}
		tree, err := hashtree.NewBuilder().Create().WithBlocks(bs(blocks)).Now()
		if err != nil {
			r.Violate("build", err.Error())
			continue
		}
		vlib.Permutations(n, func(p []int) {
			data := []string{}
			for _, x := range p {
				data = append(data, blocks[x])
			}
			id := fmt.Sprintf("perm:%v", p)
			r.State(id)
			r.Case(id, func() {
				out, err := tree.Order(bs(data))
				r.Step(1)
				if err != nil {
					vlib.Failf("a permutation was refused: %s", err)
				}
				if fmt.Sprintf("%q", strs(out)) != fmt.Sprintf("%q", blocks) {
					vlib.Failf("%q came back as %q", data, strs(out))
				}
			})
		})
	}
	// wide trees: reversed, rotated, one block tampered, one block repeated
	for _, n := range []int{9, 16, 17, 33, 64, 65} {
		blocks := []string{}
		for i := 0; i < n; i++ {
			blocks = append(blocks, fmt.Sprintf("block %d", i))
		}
		tree, err := hashtree.NewBuilder().Create().WithBlocks(bs(blocks)).Now()
		if err != nil {
			r.Violate("build", err.Error())
			continue
		}
		committed := append([]string{}, blocks...)
		for len(committed) < pow2(n) {
			committed = append(committed, "")
		}
		for k := 0; k < n; k++ {
			rot := append(append([]string{}, blocks[k:]...), blocks[:k]...)
			rev := []string{}
			for i := n - 1; i >= 0; i-- {
				rev = append(rev, rot[i])
			}
			tampered := append([]string{}, rot...)
			tampered[n/2] += "!"
			repeated := append([]string{}, rot...)
			repeated[0] = repeated[n-1]
			missing := rot[1:]
			for name, data := range map[string][]string{"rot": rot, "rev": rev, "tampered": tampered, "repeated": repeated, "missing": missing} {
				data := data
				id := fmt.Sprintf("wide:%d:%d:%s", n, k, name)
				r.State(id)
				r.Case(id, func() { check(r, tree, committed, data) })
			}
		}
	}
	r.Sample("blocks [a a b]: data [a b z] must be refused, data [b a a] must come back as [a a b]")
	r.Finish()
}
