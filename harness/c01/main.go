// C01: the Merkle tree commits to exactly the ordered blocks it was given.
package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/bits"
	"strings"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/hashtree"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// digest: also the leaf of a block that holds the 64 bytes of a digest is the digest of these bytes
func digest(b []byte) [64]byte { return sha512.Sum512(b) }

func pow2(n int) int {
	if n < 2 {
		return 2
	}
	return 1 << uint(bits.Len(uint(n-1)))
}

// reference Merkle tree: levels[0] are the padded leaves, the last level is the head
func refLevels(blocks [][]byte) [][][64]byte {
	n := pow2(len(blocks))
	level := make([][64]byte, n)
	for i := range level {
		if i < len(blocks) {
			level[i] = digest(blocks[i])
			continue
		}
		level[i] = digest(nil)
	}
	out := [][][64]byte{level}
	for len(level) > 1 {
		next := make([][64]byte, len(level)/2)
		for i := range next {
			next[i] = digest(append(append([]byte{}, level[2*i][:]...), level[2*i+1][:]...))
		}
		out = append(out, next)
		level = next
	}
	return out
}

func cp(blocks [][]byte) [][]byte {
	out := [][]byte{}
	for _, b := range blocks {
		out = append(out, append([]byte{}, b...))
	}
	return out
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func checkNode(leaf hashtree.Leaf, levels [][][64]byte, level, idx int) {
	if leaf.Head() != hash.Hash(levels[level][idx]) {
		vlib.Failf("node (height %d, index %d) has a wrong hash", level, idx)
	}
	if leaf.Height() != level {
		vlib.Failf("node (height %d, index %d) reports the height %d", level, idx, leaf.Height())
	}
	if leaf.HasParent() != (level > 0) {
		vlib.Failf("node (height %d, index %d) HasParent()=%v", level, idx, leaf.HasParent())
	}
	if level > 0 {
		checkNode(leaf.Parent().Left(), levels, level-1, 2*idx)
		checkNode(leaf.Parent().Right(), levels, level-1, 2*idx+1)
	}
	under := leaf.Leaves().Leaves()
	width := 1 << uint(level)
	if len(under) != width {
		vlib.Failf("node (height %d, index %d) has %d block leaves under it instead of %d", level, idx, len(under), width)
	}
	for i, l := range under {
		if l.Head() != hash.Hash(levels[0][idx*width+i]) {
			vlib.Failf("node (height %d, index %d): block leaf %d is wrong", level, idx, i)
		}
	}
}

func checkTree(r *vlib.R, blocks [][]byte, spare bool) {
	in := cp(blocks)
	sentinel := []byte("spare capacity belongs to the caller")
	if spare {
		in = append(in, sentinel)[:len(blocks)]
	}
	tree, err := hashtree.NewBuilder().Create().WithBlocks(in).Now()
	r.Step(1)
	if err != nil {
		vlib.Failf("building failed: %s", err)
	}
	if !same(in, blocks) {
		vlib.Failf("building changed the caller's blocks")
	}
	if spare && !bytes.Equal(in[:len(blocks)+1][len(blocks)], sentinel) {
		vlib.Failf("building wrote in the caller's memory, after its blocks")
	}
	levels := refLevels(blocks)
	n := len(levels[0])
	for round := 0; round < 2; round++ { // reading twice: no accessor may disturb the tree
		if tree.Length() != n {
			vlib.Failf("length is %d instead of %d", tree.Length(), n)
		}
		if tree.Height() != len(levels) {
			vlib.Failf("height is %d instead of %d", tree.Height(), len(levels))
		}
		if tree.Head() != hash.Hash(levels[len(levels)-1][0]) {
			vlib.Failf("wrong head")
		}
		parent := tree.Parent()
		checkNode(parent.Left(), levels, len(levels)-2, 0)
		checkNode(parent.Right(), levels, len(levels)-2, 1)
		leaves := parent.BlockLeaves().Leaves()
		if len(leaves) != n {
			vlib.Failf("%d block leaves instead of %d", len(leaves), n)
		}
		compact := tree.Compact()
		if !compact.Head().Compare(tree.Head()) || compact.Length() != n {
			vlib.Failf("compact: wrong head or length")
		}
		for i, l := range compact.Leaves().Leaves() {
			if l.Head() != hash.Hash(levels[0][i]) || l.HasParent() {
				vlib.Failf("compact: leaf %d is wrong", i)
			}
		}
		rebuilt, err := parent.HashTree()
		if err != nil || !rebuilt.Head().Compare(tree.Head()) {
			vlib.Failf("the root parent does not rebuild the same head")
		}
		fromLeaves, err := compact.Leaves().HashTree()
		if err != nil || !fromLeaves.Head().Compare(tree.Head()) || fromLeaves.Height() != tree.Height() {
			vlib.Failf("the compact leaves do not rebuild the same tree")
		}
		r.Step(9)
	}
}

func main() {
	r := vlib.New("C01")
	r.Rule = "every sequence of blocks over the alphabet up to the depth, then every length up to the width; each tree is compared node by node with a reference Merkle tree; non-trivial: needs padding or repeats a block"
	r.Assume("SHA-512 is collision free on the blocks explored")
	d := sha512.Sum512([]byte("x"))
	alphabet := []string{"", "a", "x", "ax", string(d[:])}
	heads := map[[2]string]string{}

	vlib.Words(alphabet, 1, r.Pick(5, 6), func(w []string) {
		if r.Expired("sequences") {
			return
		}
		blocks := [][]byte{}
		for _, x := range w {
			blocks = append(blocks, []byte(x))
		}
		id := fmt.Sprintf("seq:%q", w)
		r.Case(id, func() {
			checkTree(r, blocks, false)
			checkTree(r, blocks, true)
			tree, _ := hashtree.NewBuilder().WithBlocks(blocks).Now()
			head := tree.Head()
			r.Outcome(head.String())
			// injectivity: two sequences with the same head and length are the same up to trailing padding
			norm := append([]string{}, w...)
			for len(norm) < tree.Length() {
				norm = append(norm, "")
			}
			key := [2]string{head.String(), fmt.Sprint(tree.Length())}
			if prev, ok := heads[key]; ok && prev != strings.Join(norm, "|") {
				vlib.Failf("the blocks %q and %q have the same head", prev, norm)
			}
			heads[key] = strings.Join(norm, "|")
		})
		if r.State(id) && len(w) != pow2(len(w)) {
			r.Nontrivial()
		}
	})
	r.Section("sequences", int64(len(heads)))

	for n := 1; n <= r.Pick(130, 600); n++ {
		if r.Expired("widths") {
			break
		}
		blocks := [][]byte{}
		for i := 0; i < n; i++ {
			blocks = append(blocks, []byte(fmt.Sprintf("block %d", i)))
		}
		id := fmt.Sprintf("width:%d", n)
		r.State(id)
		r.Case(id, func() { checkTree(r, blocks, n%2 == 0) })
	}
	// blocks of every size around the powers of two, that differ in one byte: no two lists have the same head
	sizes := vlib.Sizes(r.Pick(1<<16+1, 1<<20+1))
	r.Parallel(len(sizes), func(i int) {
		n := sizes[i]
		id := fmt.Sprintf("size:%d", n)
		r.State(id)
		r.Nontrivial()
		r.Case(id, func() {
			seen := map[hash.Hash]int{}
			for _, at := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
				big := bytes.Repeat([]byte("b"), n)
				if at >= 0 {
					big[at] = 'c'
				}
				for k, blocks := range [][][]byte{{big}, {big, []byte("a")}, {[]byte("a"), big}, {[]byte("a"), big, big}} {
					checkTree(r, blocks, true)
					tree, err := hashtree.NewBuilder().WithBlocks(blocks).Now()
					if err != nil {
						vlib.Failf("building failed: %s", err)
					}
					if prev, ok := seen[tree.Head()]; ok && prev/4 != at+1 {
						vlib.Failf("two lists with a block of %d bytes, changed at %d and %d, have one head", n, prev/4-1, at)
					}
					seen[tree.Head()] = (at+1)*4 + k
				}
			}
		})
	})
	// every short text as a block
	texts := vlib.Texts(0, 2)
	r.Case("texts", func() {
		seen := map[hash.Hash]string{}
		for _, t := range texts {
			r.State("text " + t)
			blocks := [][]byte{[]byte(t), []byte("a")}
			checkTree(r, blocks, false)
			tree, err := hashtree.NewBuilder().WithBlocks(blocks).Now()
			if err != nil {
				vlib.Failf("building failed: %s", err)
			}
			if o, ok := seen[tree.Head()]; ok {
				vlib.Failf("the blocks %q and %q have one head", o, t)
			}
			seen[tree.Head()] = t
		}
	})
	// single change sensitivity on wide trees: any changed or swapped block changes the head
	for _, n := range []int{2, 3, 7, 8, 9, 16, 17} {
		base := [][]byte{}
		for i := 0; i < n; i++ {
			base = append(base, []byte(fmt.Sprintf("block %d", i)))
		}
		head := func(b [][]byte) hash.Hash {
			t, err := hashtree.NewBuilder().WithBlocks(b).Now()
			if err != nil {
				vlib.Failf("building failed: %s", err)
			}
			r.Step(1)
			return t.Head()
		}
		for i := 0; i < n; i++ {
			for j := 0; j <= n; j++ {
				id := fmt.Sprintf("tamper:%d:%d:%d", n, i, j)
				r.State(id)
				r.Case(id, func() {
					b := cp(base)
					switch {
					case j == n:
						b[i] = append(b[i], '!')
					case j == i:
						b = append(b[:i], b[i+1:]...)
						if len(b) == 0 {
							return
						}
					default:
						b[i], b[j] = b[j], b[i]
					}
					if head(b).Compare(head(base)) {
						vlib.Failf("a changed list has the same head")
					}
				})
			}
		}
	}

	// the inner nodes of one tree given as the blocks of another one
	for _, n := range []int{2, 4, 8} {
		blocks := [][]byte{}
		for i := 0; i < n; i++ {
			blocks = append(blocks, []byte(fmt.Sprintf("block %d", i)))
		}
		levels := refLevels(blocks)
		for l := 0; l+1 < len(levels); l++ {
			for _, joined := range []bool{false, true} {
				other := [][]byte{}
				for i := range levels[l] {
					if joined && i%2 == 1 {
						other[i/2] = append(other[i/2], levels[l][i][:]...)
						continue
					}
					other = append(other, append([]byte{}, levels[l][i][:]...))
				}
				id := fmt.Sprintf("inner:%d:%d:%v", n, l, joined)
				r.State(id)
				r.Nontrivial()
				r.Case(id, func() {
					checkTree(r, other, false)
					tree, err := hashtree.NewBuilder().WithBlocks(other).Now()
					if err != nil {
						vlib.Failf("building failed: %s", err)
					}
					if tree.Head() == hash.Hash(levels[len(levels)-1][0]) {
						vlib.Failf("the %d blocks that hold the nodes of level %d have the head of the %d blocks", len(other), l, n)
					}
				})
			}
		}
	}

	// builder histories: every sequence of builder operations against the "last blocks win" model
	sets := map[string][][]byte{"nil": nil, "none": {}, "one": {[]byte("a")}, "two": {[]byte("a"), []byte("b")}}
	vlib.Words([]string{"create", "nil", "none", "one", "two", "now"}, 1, r.Pick(4, 5), func(w []string) {
		id := "builder:" + strings.Join(w, ",")
		r.State(id)
		r.Case(id, func() {
			b := hashtree.NewBuilder()
			var model [][]byte
			for i, op := range append(w, "now") {
				r.Step(1)
				switch op {
				case "create":
					b, model = b.Create(), nil
				case "now":
					tree, err := b.Now()
					if len(model) == 0 {
						if err == nil || tree != nil {
							vlib.Failf("step %d: a tree was built from no block", i)
						}
						continue
					}
					if err != nil {
						vlib.Failf("step %d: %s", i, err)
					}
					lv := refLevels(model)
					if tree.Head() != hash.Hash(lv[len(lv)-1][0]) {
						vlib.Failf("step %d: wrong head", i)
					}
				default:
					b, model = b.WithBlocks(sets[op]), sets[op]
				}
			}
		})
	})
	r.Sample("blocks %q -> head, height, length and every node equal to the reference Merkle tree", []string{"", "a", "ab"})
	r.Finish()
}
