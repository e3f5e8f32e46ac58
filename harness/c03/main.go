// C03: the digest type: what it is, its text form, its equality.
package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func ref(in []byte) [64]byte {
	if len(in) == 64 {
		var o [64]byte
		copy(o[:], in)
		return o
	}
	return sha512.Sum512(in)
}

func checkOne(r *vlib.R, in []byte) {
	ad := hash.NewAdapter()
	cp := append([]byte{}, in...)
	h, err := ad.FromBytes(cp)
	r.Step(1)
	if err != nil {
		vlib.Failf("refused: %s", err)
	}
	want := ref(in)
	if [64]byte(*h) != want {
		vlib.Failf("digest of %x is %s, want %x", in, h.String(), want)
	}
	if !bytes.Equal(cp, in) {
		vlib.Failf("the input was changed")
	}
	for i := range cp {
		cp[i] ^= 0xff
	}
	if [64]byte(*h) != want {
		vlib.Failf("the digest follows later changes of its input")
	}
	b := h.Bytes()
	if !bytes.Equal(b, want[:]) {
		vlib.Failf("bytes of %x are %x", want, b)
	}
	for i := range b {
		b[i] ^= 0x55
	}
	if [64]byte(*h) != want {
		vlib.Failf("the digest can be changed through its bytes")
	}
	if h.String() != hex.EncodeToString(want[:]) {
		vlib.Failf("text of %x is %q", want, h.String())
	}
	for _, text := range []string{h.String(), strings.ToUpper(h.String())} {
		back, err := ad.FromString(text)
		r.Step(1)
		if err != nil {
			vlib.Failf("its own text is refused: %s", err)
		}
		if [64]byte(*back) != want || !back.Compare(*h) || !h.Compare(*back) {
			vlib.Failf("text does not come back to the same digest")
		}
	}
	back, err := ad.FromBytes(want[:])
	if err != nil || [64]byte(*back) != want {
		vlib.Failf("its own bytes do not come back to the same digest")
	}
	hx, err := ad.FromString(hex.EncodeToString(in))
	if err != nil || [64]byte(*hx) != want {
		vlib.Failf("hexadecimal content has another digest than the content")
	}
	r.Outcome(h.String())
}

func main() {
	r := vlib.New("C03")
	r.Rule = "every byte string up to the depth over a small alphabet, every length 0..260 for several fill patterns, every split of a string in chunks, every position and bit of a digest for inequality; non-trivial: the 63/64/65 and block-size boundaries and multi-chunk splits"
	// every short content
	alpha := []string{"\x00", "a", "\xff", "0"}
	for _, s := range vlib.Strings(alpha, 0, r.Pick(6, 8)) {
		s := s
		r.State(s)
		r.Case(fmt.Sprintf("short:%x", s), func() { checkOne(r, []byte(s)) })
	}
	// every short text over the symbols, and the sizes around every power of two, changed in one place
	for _, s := range vlib.Texts(0, r.Pick(3, 4)) {
		s := s
		if r.Expired("texts") {
			break
		}
		r.State("text " + s)
		r.Case(fmt.Sprintf("symbols:%q", s), func() { checkOne(r, []byte(s)) })
	}
	sizes := vlib.Sizes(r.Pick(1<<17+1, 1<<22+1))
	r.Parallel(len(sizes), func(i int) {
		n := sizes[i]
		for _, at := range []int{-1, 0, n / 2, n - 1} {
			in := bytes.Repeat([]byte{0x61}, n)
			if at >= 0 {
				in[at] = 0x62
			}
			id := fmt.Sprintf("size:%d:%d", n, at)
			r.State(id)
			r.Nontrivial()
			r.Case(id, func() {
				checkOne(r, in)
				for _, cut := range []int{0, 1, n / 2, n - 1, n} {
					h, err := hash.NewAdapter().FromMultiBytes([][]byte{in[:cut], in[cut:]})
					r.Step(1)
					if err != nil {
						vlib.Failf("refused: %s", err)
					}
					if [64]byte(*h) != sha512.Sum512(in) {
						vlib.Failf("the chunks of %d and %d bytes have another digest than the %d bytes", cut, n-cut, n)
					}
				}
			})
		}
	})
	// every length
	for n := 0; n <= r.Pick(260, 2100); n++ {
		for _, fill := range []int{0, 1, 0x30, 0xff, -1} {
			in := make([]byte, n)
			for i := range in {
				if fill < 0 {
					in[i] = byte(i * 7)
				} else {
					in[i] = byte(fill)
				}
			}
			if n >= 62 && n <= 66 || n >= 126 && n <= 130 {
				r.Nontrivial()
			}
			r.State(string(in))
			r.Case(fmt.Sprintf("len:%d:%d", n, fill), func() { checkOne(r, in) })
		}
	}
	// every split of a content in chunks has the digest of the content
	for _, n := range []int{0, 1, 2, 3, 5, 8, 9, r.Pick(10, 14), 63, 64, 65} {
		in := make([]byte, n)
		for i := range in {
			in[i] = byte(i + 1)
		}
		cuts := n
		if cuts > 14 {
			cuts = 8
		}
		for m := 0; m < 1<<uint(cuts); m++ {
			chunks, last := [][]byte{}, 0
			for i := 0; i < cuts; i++ {
				if m&(1<<uint(i)) != 0 {
					at := i * n / cuts
					chunks = append(chunks, in[last:at:at])
					last = at
				}
			}
			chunks = append(chunks, in[last:])
			r.Nontrivial()
			id := fmt.Sprintf("chunks:%d:%x", n, m)
			r.State(id)
			r.Case(id, func() {
				save := append([]byte{}, in...)
				h, err := hash.NewAdapter().FromMultiBytes(chunks)
				r.Step(1)
				if err != nil {
					vlib.Failf("refused: %s", err)
				}
				// chunks are content, also when there are 64 bytes of them
				if [64]byte(*h) != sha512.Sum512(in) {
					vlib.Failf("chunks %x digest to %s", chunks, h.String())
				}
				if !bytes.Equal(in, save) {
					vlib.Failf("the chunks were changed")
				}
			})
		}
	}
	// any number of chunks
	for _, n := range vlib.Sizes(r.Pick(1<<12+1, 1<<16+1)) {
		n := n
		id := fmt.Sprintf("many chunks:%d", n)
		r.State(id)
		r.Case(id, func() {
			for _, size := range []int{0, 1, 3, 64} {
				chunks, all := [][]byte{}, []byte{}
				for i := 0; i < n; i++ {
					c := make([]byte, size)
					for j := range c {
						c[j] = byte(i + j*13)
					}
					chunks, all = append(chunks, c), append(all, c...)
				}
				h, err := hash.NewAdapter().FromMultiBytes(chunks)
				r.Step(1)
				if err != nil {
					vlib.Failf("refused: %s", err)
				}
				if [64]byte(*h) != sha512.Sum512(all) {
					vlib.Failf("%d chunks of %d bytes do not digest as their content", n, size)
				}
			}
			r.Nontrivial()
		})
	}
	r.Case("nochunk", func() {
		h, err := hash.NewAdapter().FromMultiBytes(nil)
		if err != nil || [64]byte(*h) != ref(nil) {
			vlib.Failf("no chunk at all")
		}
	})
	// equality: every single-bit difference is seen
	base := [][64]byte{{}, sha512.Sum512([]byte("x"))}
	for bi, b := range base {
		for bit := 0; bit < 512; bit++ {
			o := b
			o[bit/8] ^= 1 << uint(bit%8)
			id := fmt.Sprintf("eq:%d:%d", bi, bit)
			r.State(id)
			r.Case(id, func() {
				h, k := hash.Hash(b), hash.Hash(o)
				r.Step(3)
				if h.Compare(k) || k.Compare(h) {
					vlib.Failf("digests that differ in bit %d are reported equal", bit)
				}
				if !h.Compare(h) {
					vlib.Failf("a digest is not equal to itself")
				}
				if h.String() == k.String() {
					vlib.Failf("two digests have one text")
				}
			})
		}
	}
	// text that is not hexadecimal is refused
	for _, s := range vlib.Strings([]string{"0", "f", "g", " ", "A", "x", "é"}, 0, r.Pick(5, 6)) {
		s := s
		_, bad := hex.DecodeString(s)
		r.State("text" + s)
		r.Case(fmt.Sprintf("text:%q", s), func() {
			h, err := hash.NewAdapter().FromString(s)
			r.Step(1)
			if (err != nil) != (bad != nil) {
				vlib.Failf("text %q: err=%v", s, err)
			}
			if err != nil && h != nil {
				vlib.Failf("text %q: an error and a digest", s)
			}
		})
	}
	r.Finish()
}
