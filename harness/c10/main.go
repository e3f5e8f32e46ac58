// C10: encryption keys: what is encrypted to a key is read by its owner only; keys travel as bytes and text.
package main

import (
	"bytes"
	"encoding/base64"
	"fmt"

	"github.com/steve-care-software/steve/domain/cryptography/keys/encryption"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C10")
	r.Rule = "a few fresh keys of several sizes; every message length up to one more than the capacity; every byte changed of a ciphertext; every other key; every truncation and one-byte change of an encoded key; every history of imports on one adapter; non-trivial: the capacity boundary and the altered encodings that still parse"
	r.Assume("RSA-OAEP is not broken by the bounded search")
	pks := []encryption.PrivateKey{}
	sizes := []int{1024, 1024, 1024, 2048}
	if r.Thorough() {
		sizes = append(sizes, 2048, 3072, 4096)
	}
	for i, n := range sizes {
		k, err := encryption.NewFactory(n).Create()
		if err != nil {
			r.Violate(fmt.Sprintf("create:%d", i), err.Error())
			r.Finish()
		}
		pks = append(pks, k)
	}
	ad, pad := encryption.NewAdapter(), encryption.NewPublickeyAdapter()
	samePub := func(a, b encryption.PublicKey) bool {
		x, y := a.Key(), b.Key()
		return x.Equal(&y)
	}
	samePriv := func(a, b encryption.PrivateKey) bool {
		x, y := a.Key(), b.Key()
		return x.Equal(&y) && samePub(a.Public(), b.Public())
	}
	for i, k := range pks {
		i, k := i, k
		r.Case(fmt.Sprintf("keys:%d", i), func() {
			key := k.Key()
			if key.N.BitLen() != sizes[i] {
				vlib.Failf("a key of %d bits was asked, it has %d", sizes[i], key.N.BitLen())
			}
			pub := k.Public().Key()
			if !key.PublicKey.Equal(&pub) {
				vlib.Failf("the public key is not the private key's")
			}
			b, err := ad.FromBytes(ad.ToBytes(k))
			if err != nil || !samePriv(b, k) {
				vlib.Failf("a private key does not come back from its bytes (%v)", err)
			}
			t, err := ad.FromEncoded(ad.ToEncoded(k))
			if err != nil || !samePriv(t, k) {
				vlib.Failf("a private key does not come back from its text (%v)", err)
			}
			pb, err := pad.FromBytes(pad.ToBytes(k.Public()))
			if err != nil || !samePub(pb, k.Public()) {
				vlib.Failf("a public key does not come back from its bytes (%v)", err)
			}
			pt, err := pad.FromEncoded(pad.ToEncoded(k.Public()))
			if err != nil || !samePub(pt, k.Public()) {
				vlib.Failf("a public key does not come back from its text (%v)", err)
			}
			h, err := pad.ToHash(k.Public())
			if err != nil {
				vlib.Failf("no hash: %s", err)
			}
			h2, _ := pad.ToHash(pt)
			if !h.Compare(*h2) {
				vlib.Failf("one public key has two hashes")
			}
			for j, o := range pks {
				ho, _ := pad.ToHash(o.Public())
				if j != i && (h.Compare(*ho) || samePub(o.Public(), k.Public())) {
					vlib.Failf("two keys have one hash")
				}
			}
			if bytes.Contains(pad.ToBytes(k.Public()), key.D.Bytes()) || bytes.Contains(pad.ToBytes(k.Public()), key.Primes[0].Bytes()) {
				vlib.Failf("the public bytes contain the private key")
			}
		})
		capacity := sizes[i]/8 - 2*32 - 2
		r.Parallel(capacity+4, func(n int) {
			id := fmt.Sprintf("message:%d:%d", i, n)
			r.State(id)
			r.Case(id, func() {
				m := make([]byte, n)
				for x := range m {
					m[x] = byte(x*7 + n)
				}
				in := append([]byte{}, m...)
				pub, err := pad.FromBytes(pad.ToBytes(k.Public()))
				if err != nil {
					vlib.Failf("%s", err)
				}
				for _, p := range []encryption.PublicKey{k.Public(), pub} {
					c, err := p.Encrypt(in)
					r.Step(2)
					if n > capacity {
						r.Nontrivial()
						if err == nil {
							out, err := k.Decrypt(c)
							if err != nil || !bytes.Equal(out, m) {
								vlib.Failf("%d bytes were encrypted and do not come back", n)
							}
						}
						continue
					}
					if err != nil {
						vlib.Failf("%d bytes cannot be encrypted: %s", n, err)
					}
					if !bytes.Equal(in, m) {
						vlib.Failf("encrypting changed the message")
					}
					out, err := k.Decrypt(c)
					if err != nil || !bytes.Equal(out, m) {
						vlib.Failf("%d bytes come back as %x (%v)", n, out, err)
					}
					r.Outcome(fmt.Sprintf("%x", c))
					c2, _ := p.Encrypt(m)
					if bytes.Equal(c, c2) {
						vlib.Failf("encrypting twice gives one ciphertext")
					}
					for j, o := range pks {
						if j != i {
							if out, err := o.Decrypt(c); err == nil {
								vlib.Failf("another key reads it: %x", out)
							}
						}
					}
				}
			})
		})
		// every short text over the symbols
		words := vlib.Texts(0, 2)
		r.Parallel(len(words), func(x int) {
			m := words[x]
			id := fmt.Sprintf("text:%d:%q", i, m)
			r.State(id)
			r.Case(id, func() {
				c, err := k.Public().Encrypt([]byte(m))
				r.Step(2)
				if err != nil {
					vlib.Failf("refused: %s", err)
				}
				out, err := k.Decrypt(c)
				if err != nil || string(out) != m {
					vlib.Failf("comes back as %q (%v)", out, err)
				}
			})
		})
		// altered ciphertexts
		m := []byte("the message")
		c, _ := k.Public().Encrypt(m)
		step := 1
		if i > 0 && !r.Thorough() {
			step = 9
		}
		r.Parallel((len(c)+step-1)/step, func(n int) {
			n *= step
			id := fmt.Sprintf("alter:%d:%d", i, n)
			r.State(id)
			r.Case(id, func() {
				r.Step(2)
				mut := append([]byte{}, c...)
				mut[n] ^= 0x11
				if out, err := k.Decrypt(mut); err == nil {
					vlib.Failf("a changed ciphertext decrypts to %q", out)
				}
				if out, err := k.Decrypt(c[:n]); err == nil {
					vlib.Failf("a truncated ciphertext decrypts to %q", out)
				}
			})
		})
	}
	// altered keys: an error, or a key that encodes to what was given; never a crash
	for i, k := range pks[:2] {
		i, priv, pub := i, ad.ToBytes(k), pad.ToBytes(k.Public())
		r.Parallel(len(priv), func(n int) {
			if i > 0 && n%7 != 0 {
				return
			}
			id := fmt.Sprintf("altered private:%d:%d", i, n)
			r.State(id)
			r.Case(id, func() {
				if _, err := ad.FromBytes(priv[:n]); err == nil {
					vlib.Failf("a private key cut at %d is accepted", n)
				}
				mut := append([]byte{}, priv...)
				mut[n] ^= 0x41
				r.Step(2)
				if b, err := ad.FromBytes(mut); err == nil {
					r.Nontrivial()
					again, err := ad.FromBytes(ad.ToBytes(b))
					if err != nil || !samePriv(again, b) {
						vlib.Failf("an accepted private key does not come back")
					}
				}
			})
		})
		for n := range pub {
			id := fmt.Sprintf("altered public:%d:%d", i, n)
			r.State(id)
			r.Case(id, func() {
				if _, err := pad.FromBytes(pub[:n]); err == nil {
					vlib.Failf("a public key cut at %d is accepted", n)
				}
				mut := append([]byte{}, pub...)
				mut[n] ^= 0x41
				r.Step(2)
				if b, err := pad.FromBytes(mut); err == nil {
					r.Nontrivial()
					if !bytes.Equal(pad.ToBytes(b), mut) {
						vlib.Failf("an accepted public key encodes to other bytes")
					}
				}
			})
		}
	}
	// altered texts of keys: what is no encoding is refused; what is accepted is that key or another one, entirely
	privText, pubText := ad.ToEncoded(pks[0]), pad.ToEncoded(pks[0].Public())
	r.Parallel(len(privText)+1, func(at int) {
		for _, x := range []string{"A", "b", "=", "!", "-", " ", "\x00", "é", ""} {
			for k := 0; k < 2; k++ {
				if k == 1 && at == len(privText) {
					continue
				}
				id := fmt.Sprintf("altered text:%d:%q:%d", at, x, k)
				r.State(id)
				r.Case(id, func() {
					mut := privText[:at] + x + privText[at+k:]
					_, bad := base64.StdEncoding.DecodeString(mut)
					r.Step(1)
					if p, err := ad.FromEncoded(mut); err == nil && bad != nil {
						vlib.Failf("the text of a private key with %q at %d is accepted: %v", x, at, samePriv(p, pks[0]))
					}
					if at > len(pubText)-k {
						return
					}
					mut = pubText[:at] + x + pubText[at+k:]
					raw, bad := base64.StdEncoding.DecodeString(mut)
					r.Step(1)
					if p, err := pad.FromEncoded(mut); err == nil && (bad != nil || !bytes.Equal(pad.ToBytes(p), raw)) {
						vlib.Failf("the text of a public key with %q at %d is accepted: %v", x, at, samePub(p, pks[0].Public()))
					}
				})
			}
		}
	})
	r.Case("trailing", func() {
		for _, x := range []string{"\x00", "a", "0\x00"} {
			if _, err := ad.FromBytes(append(append([]byte{}, ad.ToBytes(pks[0])...), x...)); err == nil {
				vlib.Failf("a private key with %q after it is accepted", x)
			}
			if _, err := pad.FromBytes(append(append([]byte{}, pad.ToBytes(pks[0].Public())...), x...)); err == nil {
				vlib.Failf("a public key with %q after it is accepted", x)
			}
		}
	})
	for _, s := range vlib.Strings([]string{"A", "=", "%", "M"}, 0, r.Pick(6, 8)) {
		s := s
		r.Case("text:"+s, func() {
			r.Step(2)
			if _, err := ad.FromEncoded(s); err == nil {
				vlib.Failf("%q is taken for a private key", s)
			}
			if _, err := pad.FromEncoded(s); err == nil {
				vlib.Failf("%q is taken for a public key", s)
			}
		})
	}
	// one adapter imports several keys, good and bad, in every order: each result is its own
	kinds := []string{"0", "1", "2", "bad"}
	vlib.Words(kinds, 1, r.Pick(4, 5), func(w []string) {
		id := fmt.Sprint("imports:", w)
		r.State(id)
		r.Case(id, func() {
			a, pa := encryption.NewAdapter(), encryption.NewPublickeyAdapter()
			got := map[int]encryption.PrivateKey{}
			for n, x := range w {
				r.Step(1)
				if x == "bad" {
					if _, err := a.FromBytes([]byte("bad")); err == nil {
						vlib.Failf("bad bytes accepted")
					}
					if _, err := pa.FromBytes([]byte("bad")); err == nil {
						vlib.Failf("bad bytes accepted")
					}
					continue
				}
				k, err := a.FromBytes(ad.ToBytes(pks[x[0]-'0']))
				if err != nil {
					vlib.Failf("import %d: %s", n, err)
				}
				got[n] = k
				p, err := pa.FromBytes(pad.ToBytes(pks[x[0]-'0'].Public()))
				if err != nil || !samePub(p, pks[x[0]-'0'].Public()) {
					vlib.Failf("import %d of a public key", n)
				}
			}
			for n, k := range got {
				if !samePriv(k, pks[w[n][0]-'0']) {
					vlib.Failf("imports %v: key %d is another", w, n)
				}
			}
		})
	})
	r.Case("builders", func() {
		if k, err := encryption.NewBuilder().Create().Now(); err == nil || k != nil {
			vlib.Failf("a private key from nothing")
		}
		if k, err := encryption.NewPublicKeyBuilder().Create().Now(); err == nil || k != nil {
			vlib.Failf("a public key from nothing")
		}
		if k, err := encryption.NewBuilder().WithPK(pks[0].Key()).Create().Now(); err == nil || k != nil {
			vlib.Failf("starting over keeps the key")
		}
		k, err := encryption.NewBuilder().Create().WithPK(pks[0].Key()).WithPK(pks[1].Key()).Now()
		if err != nil || !samePriv(k, pks[1]) {
			vlib.Failf("the last key given is not the one built")
		}
	})
	r.Finish()
}
