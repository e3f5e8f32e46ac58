// C09: password encryption: what is encrypted comes back with the password, and only with it.
package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	encryption "github.com/steve-care-software/steve/domain/cryptography"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func build(p []byte) encryption.Encryption {
	e, err := encryption.NewBuilder().Create().WithPassword(p).Now()
	if err != nil {
		vlib.Failf("the password %q is refused: %s", p, err)
	}
	return e
}

func main() {
	r := vlib.New("C09")
	r.Rule = "every password of a small set x every message length around the block boundaries and every short message; every ciphertext truncation, every one-byte change, every other password; every history of encrypt/decrypt calls over two passwords up to the depth; non-trivial: messages of 16 bytes or more under another password or a changed ciphertext"
	r.Assume("AES and SHA-256 are not broken by the bounded search; the scheme carries no authentication, so that a changed ciphertext may decrypt to another message (never to the same one)")
	passwords := []string{"a", "b", "", "ab", "A", "a ", strings.Repeat("p", 31), strings.Repeat("p", 32), strings.Repeat("p", 33), strings.Repeat("p", 200), "é#\x00", "é#"}
	msgs := [][]byte{}
	for n := 0; n <= r.Pick(70, 300); n++ {
		m := make([]byte, n)
		for i := range m {
			m[i] = byte(i*31 + n)
		}
		msgs = append(msgs, m)
	}
	for _, s := range vlib.Strings([]string{"a", "\x00", "\xff"}, 0, 4) {
		msgs = append(msgs, []byte(s))
	}
	msgs = append(msgs, make([]byte, 4096), bytes.Repeat([]byte("secret "), 1000))
	r.Parallel(len(passwords)*len(msgs), func(i int) {
		p, m := passwords[i/len(msgs)], msgs[i%len(msgs)]
		id := fmt.Sprintf("roundtrip:%.40q:%d:%x", p, len(m), tail(m))
		r.State(id)
		r.Case(id, func() {
			enc := build([]byte(p))
			in := append([]byte{}, m...)
			c, err := enc.Encrypt(in)
			r.Step(1)
			if err != nil {
				vlib.Failf("refused: %s", err)
			}
			if !bytes.Equal(in, m) {
				vlib.Failf("encrypting changed the message")
			}
			for _, d := range []encryption.Encryption{enc, build([]byte(p)), encryption.NewEncryption(p)} {
				for k := 0; k < 2; k++ {
					out, err := d.Decrypt(c)
					r.Step(1)
					if err != nil {
						vlib.Failf("cannot be decrypted: %s", err)
					}
					if !bytes.Equal(out, m) {
						vlib.Failf("comes back as %x", tail(out))
					}
				}
			}
			c2, _ := enc.Encrypt(m)
			c3, _ := encryption.NewEncryption(p).Encrypt(m)
			if c2 == c || c3 == c || c2 == c3 {
				vlib.Failf("encrypting twice gives one ciphertext: it shows that the messages are equal")
			}
			r.Outcome(c)
			raw, err := base64.StdEncoding.DecodeString(c)
			if err != nil {
				raw = []byte(c)
			}
			if len(m) >= 8 && (bytes.Contains(raw, m) || strings.Contains(c, string(m))) {
				vlib.Failf("the ciphertext contains the message")
			}
			for at := 0; at+8 <= len(m) && at < 256; at++ {
				if bytes.Contains(raw, m[at:at+8]) && !bytes.Equal(m[at:at+8], make([]byte, 8)) {
					vlib.Failf("the ciphertext contains a part of the message")
				}
			}
			if len(m) < 16 {
				return
			}
			r.Nontrivial()
			for _, o := range passwords {
				if o == p {
					continue
				}
				out, err := build([]byte(o)).Decrypt(c)
				r.Step(1)
				if err == nil && (bytes.Equal(out, m) || bytes.Contains(out, m[:16]) || bytes.Contains(out, m[len(m)-16:])) {
					vlib.Failf("%.40q decrypts what was encrypted with %.40q", o, p)
				}
			}
		})
	})
	// every short text over the symbols, as message and as password; sizes around the powers of two
	words := vlib.Texts(0, 2)
	r.Parallel(len(words), func(i int) {
		p := words[i]
		if r.Expired("texts") {
			return
		}
		id := fmt.Sprintf("text:%q", p)
		r.State(id)
		r.Nontrivial()
		r.Case(id, func() {
			enc := build([]byte(p))
			back := func(m []byte) string {
				c, err := enc.Encrypt(append([]byte{}, m...))
				r.Step(2)
				if err != nil {
					vlib.Failf("refused: %s", err)
				}
				out, err := build([]byte(p)).Decrypt(c)
				if err != nil || !bytes.Equal(out, m) {
					vlib.Failf("%x comes back as %x (%v)", tail(m), tail(out), err)
				}
				return c
			}
			for _, m := range words {
				back([]byte(m))
			}
			m := []byte("a message of more than one block")
			c := back(m)
			for _, o := range words {
				if o == p {
					continue
				}
				out, err := build([]byte(o)).Decrypt(c)
				r.Step(1)
				if err == nil && (bytes.Equal(out, m) || bytes.Contains(out, m[:16]) || bytes.Contains(out, m[len(m)-16:])) {
					vlib.Failf("%q decrypts what was encrypted with %q", o, p)
				}
			}
		})
	})
	sizes := vlib.Sizes(r.Pick(1<<17+1, 1<<22+1))
	r.Parallel(len(sizes), func(i int) {
		n := sizes[i]
		id := fmt.Sprintf("size:%d", n)
		r.State(id)
		r.Case(id, func() {
			m := make([]byte, n)
			for x := range m {
				m[x] = byte(x*31 + x>>8)
			}
			c, err := build([]byte("p")).Encrypt(append([]byte{}, m...))
			r.Step(2)
			if err != nil {
				vlib.Failf("refused: %s", err)
			}
			out, err := build([]byte("p")).Decrypt(c)
			if err != nil || !bytes.Equal(out, m) {
				vlib.Failf("%d bytes come back as %d other bytes (%v)", n, len(out), err)
			}
		})
	})
	// changed ciphertexts
	for _, n := range []int{16, 17, 32, 40} {
		m := msgs[n]
		enc := build([]byte("a"))
		c, _ := enc.Encrypt(m)
		raw, err := base64.StdEncoding.DecodeString(c)
		if err != nil {
			raw = []byte(c)
		}
		try := func(id string, mut string) {
			r.State(id)
			r.Case(id, func() {
				out, err := enc.Decrypt(mut)
				r.Step(1)
				if err == nil && bytes.Equal(out, m) && mut != c {
					vlib.Failf("a changed ciphertext decrypts to the message")
				}
			})
		}
		for at := range raw {
			for bit := uint(0); bit < 8; bit++ {
				mut := append([]byte{}, raw...)
				mut[at] ^= 1 << bit
				try(fmt.Sprintf("flip:%d:%d:%d", n, at, bit), base64.StdEncoding.EncodeToString(mut))
			}
			try(fmt.Sprintf("cut:%d:%d", n, at), base64.StdEncoding.EncodeToString(raw[:at]))
		}
		for at := range c {
			try(fmt.Sprintf("cuttext:%d:%d", n, at), c[:at])
		}
		// every edit of the text: what is no encoding is refused, other bytes are another message
		for at := 0; at <= len(c); at++ {
			for _, x := range []string{"A", "b", "9", "/", "+", "=", "==", "!", "-", " ", "\x00", "é", "#"} {
				edits := []string{c[:at] + x + c[at:]}
				if at < len(c) {
					edits = append(edits, c[:at]+x+c[at+1:])
				}
				for k, mut := range edits {
					id := fmt.Sprintf("edit:%d:%d:%q:%d", n, at, x, k)
					mut := mut
					r.State(id)
					r.Case(id, func() {
						out, err := enc.Decrypt(mut)
						r.Step(1)
						bytesOf, bad := base64.StdEncoding.DecodeString(mut)
						if base64.StdEncoding.EncodeToString(raw) == c && bad != nil && err == nil {
							vlib.Failf("%q is no encoding of a ciphertext, and decrypts", mut)
						}
						if err == nil && bytes.Equal(out, m) && !(bad == nil && bytes.Equal(bytesOf, raw)) {
							vlib.Failf("%q is not the ciphertext, and decrypts to the message", mut)
						}
					})
				}
			}
		}
	}
	// not a ciphertext at all
	for _, s := range vlib.Strings([]string{"A", "=", "%", "/"}, 0, r.Pick(7, 9)) {
		s := s
		r.Case("garbage:"+s, func() {
			r.Step(1)
			out, err := build([]byte("a")).Decrypt(s)
			if err == nil {
				vlib.Failf("%q decrypts to %x", s, out)
			}
		})
	}
	// passwords
	r.Case("no password", func() {
		if e, err := encryption.NewBuilder().Create().Now(); err == nil || e != nil {
			vlib.Failf("an encryption without a password")
		}
		if e, err := encryption.NewBuilder().WithPassword([]byte("a")).Create().Now(); err == nil || e != nil {
			vlib.Failf("starting over keeps the password")
		}
		p := []byte("abc")
		e := build(p)
		p[0] = 'z'
		c, _ := e.Encrypt([]byte("0123456789abcdef"))
		if out, err := build([]byte("abc")).Decrypt(c); err != nil || string(out) != "0123456789abcdef" {
			vlib.Failf("the password follows later changes of the caller's bytes")
		}
	})
	// histories over two encryptions: e0 e1 encrypt one of two messages, d00.. decrypt the last ciphertext of either
	two := []encryption.Encryption{build([]byte("one")), build([]byte("two"))}
	texts := []string{"a first message of some length", "second: another message, longer than the first"}
	names := []string{}
	for who := 0; who < 2; who++ {
		for x := 0; x < 2; x++ {
			names = append(names, fmt.Sprintf("e%d%d", who, x), fmt.Sprintf("d%d%d", who, x))
		}
	}
	vlib.Words(names, 1, r.Pick(4, 6), func(w []string) {
		if r.Expired("histories") {
			return
		}
		id := fmt.Sprint("history:", w)
		r.State(id)
		r.Case(id, func() {
			last, content := [2]string{}, [2]string{}
			for _, x := range w {
				who, arg := int(x[1]-'0'), int(x[2]-'0')
				r.Step(1)
				if x[0] == 'e' {
					c, err := two[who].Encrypt([]byte(texts[arg]))
					if err != nil {
						vlib.Failf("refused: %s", err)
					}
					last[who], content[who] = c, texts[arg]
					continue
				}
				if last[arg] == "" {
					continue
				}
				out, err := two[who].Decrypt(last[arg])
				if who == arg && (err != nil || string(out) != content[arg]) {
					vlib.Failf("history %v: decrypted as %q (%v)", w, out, err)
				}
				if who != arg && err == nil && string(out) == content[arg] {
					vlib.Failf("history %v: decrypted with the other password", w)
				}
			}
		})
	})
	r.Finish()
}

func tail(b []byte) []byte {
	if len(b) > 12 {
		return b[len(b)-12:]
	}
	return b
}
