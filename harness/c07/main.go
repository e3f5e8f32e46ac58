// C07: a ring signature proves that a member of the ring signed exactly this message.
package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C07")
	r.Rule = "every ring size up to the bound, every position of the signer, rings with a repeated member, several messages; each genuine ring signature must verify, come back from its text and match its member hashes; then every altered message, member list, hash list, component count, one-digit change and truncation must fail, as must every other spelling of the text and every ring that can be computed from a genuine signature without a key (begun elsewhere, a member moved by a known distance, repeated), for several schemes of challenges; every short signature text; non-trivial: altered texts that still parse"
	r.Assume("discrete logarithms and SHA-256 are not broken by the bounded search")
	keys := []signature.PrivateKey{}
	pubs := []signature.PublicKey{}
	hashes := []hash.Hash{}
	max := r.Pick(5, 12)
	for i := 0; i < max+2; i++ {
		k := signature.NewPrivateKeyFactory().Create()
		keys = append(keys, k)
		pubs = append(pubs, k.PublicKey())
		h, err := hash.NewAdapter().FromString(k.PublicKey().String())
		if err != nil {
			panic(err)
		}
		hashes = append(hashes, *h)
	}
	outsider := max + 1
	ad := signature.NewRingSignatureAdapter()
	msgs := []string{"", "a", "b", "m", "m0", "0", "the message", "é#|", strings.Repeat("x", 100) + "1", strings.Repeat("x", 100) + "2", strings.Repeat("y", 3000)}
	type ring struct {
		members []int
		signer  int
	}
	rings := []ring{}
	for n := 1; n <= max; n++ {
		ident := []int{}
		for i := 0; i < n; i++ {
			ident = append(ident, i)
		}
		for s := 0; s < n; s++ {
			rings = append(rings, ring{ident, s})
		}
	}
	// every ring over three keys up to length 3 (4), repeats included
	vlib.Words([]string{"0", "1", "2"}, 1, r.Pick(3, 4), func(w []string) {
		m := []int{}
		for _, x := range w {
			m = append(m, int(x[0]-'0'))
		}
		for s := 0; s < 3; s++ {
			rings = append(rings, ring{m, s})
		}
	})
	in := func(m []int, s int) bool {
		for _, x := range m {
			if x == s {
				return true
			}
		}
		return false
	}
	pick := func(m []int) ([]signature.PublicKey, []hash.Hash) {
		p, h := []signature.PublicKey{}, []hash.Hash{}
		for _, x := range m {
			p = append(p, pubs[x])
			h = append(h, hashes[x])
		}
		return p, h
	}
	verify := func(s signature.RingSignature, m string, h []hash.Hash) bool {
		ok, err := ad.ToVerification(s, m, h)
		if ok != (err == nil) {
			vlib.Failf("the verdict is %v with the error %v", ok, err)
		}
		return ok
	}
	r.Parallel(len(rings)*len(msgs), func(i int) {
		g, m := rings[i/len(msgs)], msgs[i%len(msgs)]
		if r.Expired("rings") {
			return
		}
		id := fmt.Sprintf("ring:%v:%d:%d:%.20q", g.members, g.signer, len(m), m)
		r.State(id)
		r.Case(id, func() {
			p, h := pick(g.members)
			s, err := keys[g.signer].RingSign(m, p)
			r.Step(1)
			if !in(g.members, g.signer) {
				r.Outcome("not a member")
				if err == nil || s != nil {
					vlib.Failf("somebody outside the ring signed for it")
				}
				return
			}
			if err != nil {
				vlib.Failf("a member cannot sign: %s", err)
			}
			if len(s.Ring()) != len(p) {
				vlib.Failf("the ring has %d members, %d given", len(s.Ring()), len(p))
			}
			for j := range p {
				if !s.Ring()[j].Equals(p[j]) {
					vlib.Failf("member %d is another", j)
				}
			}
			back, err := ad.ToSignature(s.String())
			if err != nil {
				vlib.Failf("its text is refused: %s", err)
			}
			if back.String() != s.String() {
				vlib.Failf("its text comes back as another signature")
			}
			r.Outcome(s.String())
			for _, x := range []signature.RingSignature{s, back} {
				if !x.Verify(m) || !verify(x, m, h) {
					vlib.Failf("a genuine ring signature does not verify")
				}
			}
			for _, o := range msgs {
				if o != m {
					r.Step(1)
					if s.Verify(o) || verify(back, o, h) {
						vlib.Failf("the signature of %.20q verifies for %.20q", m, o)
					}
				}
			}
			// the list of hashes must be the ring's, in its order
			wrong := [][]hash.Hash{nil, {}, append(append([]hash.Hash{}, h...), hashes[outsider]), append([]hash.Hash{hashes[outsider]}, h...), h[:len(h)-1], h[1:], append(append([]hash.Hash{}, h...), h...)}
			for a := range h {
				o := append([]hash.Hash{}, h...)
				o[a] = hashes[outsider]
				wrong = append(wrong, o)
				o = append([]hash.Hash{}, h...)
				o[a][63] ^= 1
				wrong = append(wrong, o)
				for b := a + 1; b < len(h); b++ {
					if g.members[a] != g.members[b] {
						o := append([]hash.Hash{}, h...)
						o[a], o[b] = o[b], o[a]
						wrong = append(wrong, o)
					}
				}
			}
			for _, w := range wrong {
				r.Step(1)
				if verify(s, m, w) {
					vlib.Failf("it is accepted for another list of %d hashes", len(w))
				}
			}
			if i%len(msgs) < 3 || r.Thorough() {
				rewrite(r, ad, s, m)
			}
			spelled := []string{}
			if i%len(msgs)%5 == 3 || r.Thorough() {
				spelled = respell(s.String())
			}
			for _, t := range spelled {
				r.Step(1)
				o, err := ad.ToSignature(t)
				if t == s.String() || err != nil {
					continue
				}
				r.Nontrivial()
				if ok, _ := ad.ToVerification(o, m, h); ok || o.Verify(m) {
					vlib.Failf("another text of the signature verifies: %.60q...", t)
				}
			}
			alter(r, ad, g.members, pubs, outsider, s, m, h, i)
		})
	})
	// large rings: every signer; every member replaced, left out, or swapped with the next
	sizes := []int{6, 8, 9, 10, 11, 16, 17, 33}
	if r.Thorough() {
		sizes = append(sizes, 13, 15, 18, 31, 32, 34, 63, 64, 65)
	}
	many := sizes[0]
	for _, n := range sizes {
		if n > many {
			many = n
		}
	}
	for len(keys) < many+2 {
		k := signature.NewPrivateKeyFactory().Create()
		h, err := hash.NewAdapter().FromString(k.PublicKey().String())
		if err != nil {
			panic(err)
		}
		keys, pubs, hashes = append(keys, k), append(pubs, k.PublicKey()), append(hashes, *h)
	}
	type large struct{ n, signer int }
	larges := []large{}
	for _, n := range sizes {
		for s := 0; s < n; s++ {
			larges = append(larges, large{n, s})
		}
	}
	r.Parallel(len(larges), func(i int) {
		g := larges[i]
		if r.Expired("large rings") {
			return
		}
		id := fmt.Sprintf("large ring:%d:%d", g.n, g.signer)
		r.State(id)
		r.Section("large rings", 1)
		r.Case(id, func() {
			members := []int{}
			for j := 0; j < g.n; j++ {
				members = append(members, j)
			}
			p, h := pick(members)
			s, err := keys[g.signer].RingSign("m", p)
			if err != nil {
				vlib.Failf("member %d of %d cannot sign: %s", g.signer, g.n, err)
			}
			back, err := ad.ToSignature(s.String())
			if err != nil || back.String() != s.String() {
				vlib.Failf("the text of a signature of %d members does not come back: %v", g.n, err)
			}
			if len(back.Ring()) != g.n {
				vlib.Failf("%d members came back instead of %d", len(back.Ring()), g.n)
			}
			for j := range p {
				if !back.Ring()[j].Equals(p[j]) {
					vlib.Failf("member %d is another", j)
				}
			}
			if !back.Verify("m") || !verify(back, "m", h) {
				vlib.Failf("a genuine signature of %d members does not verify", g.n)
			}
			if s.Verify("n") || verify(back, "n", h) {
				vlib.Failf("the signature of a message verifies for another")
			}
			r.Nontrivial()
			r.Step(4)
			if g.signer == g.n/2 || r.Thorough() {
				rewritePart(r, ad, s, "m")
			}
			for j := range h {
				o := append([]hash.Hash{}, h...)
				o[j] = hashes[many+1]
				wrong := [][]hash.Hash{o, append(append([]hash.Hash{}, h[:j]...), h[j+1:]...), append(append(append([]hash.Hash{}, h[:j]...), h[j]), h[j:]...)}
				if j > 0 {
					o = append([]hash.Hash{}, h...)
					o[j], o[j-1] = o[j-1], o[j]
					wrong = append(wrong, o)
				}
				if (j+g.signer)%4 != 0 && !r.Thorough() {
					wrong = wrong[:1]
				}
				for _, w := range wrong {
					r.Step(1)
					if verify(back, "m", w) {
						vlib.Failf("it is accepted for another list of %d hashes (place %d of %d)", len(w), j, g.n)
					}
				}
			}
		})
	})
	// every short text over the symbols against every one next to it; and sizes around the powers of two
	words, near := vlib.NearTexts(0, r.Pick(1, 2))
	if !r.Thorough() {
		words = append(words, "a\r\n", "a\n", "a\n\n", "a\r\n\r\n", "a a", "a  a", "a\ta")
		for len(near) < len(words) {
			l := []int{}
			for j := range words {
				if j != len(near) {
					l = append(l, j)
				}
			}
			near = append(near, l)
		}
	}
	for _, n := range vlib.Sizes(r.Pick(1<<14+1, 1<<18+1)) {
		x := len(words)
		for k, at := range []int{0, n / 2, n - 1} {
			words = append(words, strings.Repeat("m", at)+"n"+strings.Repeat("m", n-at-1))
			l := []int{}
			for j := 0; j < 3; j++ {
				if j != k {
					l = append(l, x+j)
				}
			}
			near = append(near, l)
		}
	}
	r.Parallel(len(words), func(i int) {
		m := words[i]
		if r.Expired("texts") {
			return
		}
		id := fmt.Sprintf("text:%d:%d:%.40q", i, len(m), m)
		r.State(id)
		r.Case(id, func() {
			p, h := pick([]int{0, 1})
			s, err := keys[i%2].RingSign(m, p)
			r.Step(1)
			if err != nil {
				vlib.Failf("a member cannot sign: %s", err)
			}
			if !s.Verify(m) || !verify(s, m, h) {
				vlib.Failf("a genuine ring signature does not verify")
			}
			for _, j := range near[i] {
				r.Step(1)
				if o := words[j]; o != m && s.Verify(o) {
					vlib.Failf("the signature of %.40q (%d bytes) verifies for %.40q (%d bytes)", m, len(m), o, len(o))
				}
			}
		})
	})
	// short texts: an error or a signature that proves nothing, never a crash
	zero, one := strings.Repeat("0", 64), "01"+strings.Repeat("0", 62)
	P := pubs[0].String()
	parts := []string{"", "|", "||", zero + "|", one + "|", P + "|", P + "|" + P + "|", zero + "|" + one + "|", "zz|", "00|"}
	ends := []string{"", zero, one, P, "00", "zz"}
	for _, a := range parts {
		for _, b := range parts {
			for _, c := range ends {
				for _, sep := range []string{"#", "##", ""} {
					text := a + sep + b + "#" + c
					id := "text:" + text
					r.State(id)
					r.Case(id, func() {
						r.Step(1)
						s, err := ad.ToSignature(base64.StdEncoding.EncodeToString([]byte(text)))
						if err != nil {
							return
						}
						r.Nontrivial()
						for _, m := range []string{"", "m"} {
							if s.Verify(m) {
								vlib.Failf("%q proves that somebody signed %q", text, m)
							}
							if ok, _ := ad.ToVerification(s, m, nil); ok {
								vlib.Failf("%q is accepted for no member at all", text)
							}
							if ok, _ := ad.ToVerification(s, m, hashes[:1]); ok {
								vlib.Failf("%q is accepted for one member", text)
							}
						}
					})
				}
			}
		}
	}
	for _, t := range vlib.Strings([]string{"#", "|", "0", "g"}, 0, r.Pick(6, 7)) {
		t := t
		r.Case(fmt.Sprintf("garbage:%q", t), func() {
			r.Step(2)
			for _, x := range []string{t, base64.StdEncoding.EncodeToString([]byte(t))} {
				if s, err := ad.ToSignature(x); err == nil && s.Verify("m") {
					vlib.Failf("%q verifies", t)
				}
			}
		})
	}
	r.Case("no ring", func() {
		for _, p := range [][]signature.PublicKey{nil, {}} {
			if s, err := keys[0].RingSign("m", p); err == nil || s != nil {
				vlib.Failf("an empty ring was signed for")
			}
		}
	})
	r.Finish()
}

// alter changes the text of a genuine signature; what still parses must not verify.
func alter(r *vlib.R, ad signature.RingSignatureAdapter, members []int, pubs []signature.PublicKey, outsider int, s signature.RingSignature, m string, h []hash.Hash, salt int) {
	raw, err := base64.StdEncoding.DecodeString(s.String())
	if err != nil {
		return
	}
	try := func(what, data string) {
		r.Step(1)
		if data == string(raw) {
			return
		}
		o, err := ad.ToSignature(base64.StdEncoding.EncodeToString([]byte(data)))
		if err != nil {
			return
		}
		r.Nontrivial()
		if o.Verify(m) {
			vlib.Failf("%s: it still verifies", what)
		}
		if ok, _ := ad.ToVerification(o, m, h); ok {
			vlib.Failf("%s: it is still accepted", what)
		}
	}
	parts := strings.Split(string(raw), "#")
	if len(parts) == 3 {
		ring := strings.Split(strings.TrimSuffix(parts[0], "|"), "|")
		ss := strings.Split(strings.TrimSuffix(parts[1], "|"), "|")
		join := func(a, b []string, e string) string {
			x, y := strings.Join(a, "|"), strings.Join(b, "|")
			if len(a) > 0 {
				x += "|"
			}
			if len(b) > 0 {
				y += "|"
			}
			return x + "#" + y + "#" + e
		}
		without := func(l []string, i int) []string { return append(append([]string{}, l[:i]...), l[i+1:]...) }
		with := func(l []string, i int, v string) []string {
			o := append([]string{}, l...)
			o[i] = v
			return o
		}
		out := pubs[outsider].String()
		zero := strings.Repeat("0", 64)
		try("no member", join(nil, nil, parts[2]))
		try("no member, scalars kept", join(nil, ss, parts[2]))
		try("no scalar", join(ring, nil, parts[2]))
		try("one more member", join(append(append([]string{}, ring...), out), ss, parts[2]))
		try("one more scalar", join(ring, append(append([]string{}, ss...), zero), parts[2]))
		try("one more of each", join(append(append([]string{}, ring...), out), append(append([]string{}, ss...), zero), parts[2]))
		try("another beginning", join(ring, ss, zero))
		try("a scalar as beginning", join(ring, ss, ss[0]))
		for i := range ring {
			try(fmt.Sprintf("member %d replaced", i), join(with(ring, i, out), ss, parts[2]))
			try(fmt.Sprintf("member %d removed", i), join(without(ring, i), ss, parts[2]))
			if i < len(ss) {
				try(fmt.Sprintf("member %d removed with its scalar", i), join(without(ring, i), without(ss, i), parts[2]))
				try(fmt.Sprintf("scalar %d removed", i), join(ring, without(ss, i), parts[2]))
				try(fmt.Sprintf("scalar %d zero", i), join(ring, with(ss, i, zero), parts[2]))
			}
			for j := i + 1; j < len(ring) && j < len(ss); j++ {
				if members[i] != members[j] {
					try(fmt.Sprintf("members %d,%d swapped", i, j), join(with(with(ring, i, ring[j]), j, ring[i]), ss, parts[2]))
					try(fmt.Sprintf("scalars %d,%d swapped", i, j), join(ring, with(with(ss, i, ss[j]), j, ss[i]), parts[2]))
				}
			}
		}
	}
	step := 1
	if !r.Thorough() {
		step = 11 + 2*len(members)
	}
	for at := salt % step; at < len(raw); at += step {
		for _, c := range []byte{'0', '1', '8', 'f', '|'} {
			if raw[at] != c {
				mut := append([]byte{}, raw...)
				mut[at] = c
				try(fmt.Sprintf("digit %d set to %c", at, c), string(mut))
			}
		}
	}
	for n := salt % 7; n < len(raw); n += step {
		try(fmt.Sprintf("cut at %d", n), string(raw[:n]))
	}
}
