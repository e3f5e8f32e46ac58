// C06: a signature names its signer for exactly the message that was signed, through text and back.
package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func key(s string) signature.PrivateKey {
	k, err := signature.NewPrivateKeyAdapter().ToPrivateKey(s)
	if err != nil {
		panic(err)
	}
	return k
}

func main() {
	r := vlib.New("C06")
	r.Rule = "every key of a small set x every message of a small language: sign, recover, verify, text and back; then against every other message, every other key, every splice of two signatures, every one-digit change and truncation of the text, additions to it and other spellings of it; non-trivial: the altered signatures that still parse"
	r.Assume("discrete logarithms and SHA-256 are not broken by the bounded search")
	keys := []signature.PrivateKey{}
	for _, s := range []string{"01", "02", "07", "ff"} {
		keys = append(keys, key(s+strings.Repeat("00", 31)))
	}
	keys = append(keys, key(strings.Repeat("ab", 31)+"0c"))
	for i := 0; i < 3; i++ {
		keys = append(keys, signature.NewPrivateKeyFactory().Create())
	}
	msgs := vlib.Strings([]string{"a", "b", "0", "#", "é"}, 0, r.Pick(2, 3))
	long := strings.Repeat("x", 199)
	for _, at := range []int{0, 1, 31, 32, 63, 64, 65, 127, 128, 150, 198} {
		msgs = append(msgs, long[:at]+"y"+long[at+1:])
	}
	msgs = append(msgs, long, long+"x", "a ", " a", "a\x00", "A", "the message", strings.Repeat("z", 5000), strings.Repeat("z", 5001))
	ad := signature.NewAdapter()
	pad := signature.NewPublicKeyAdapter()
	type signed struct {
		key int
		msg string
		sig signature.Signature
	}
	all := make([]signed, len(keys)*len(msgs))
	r.Parallel(len(all), func(i int) {
		k, m := i/len(msgs), msgs[i%len(msgs)]
		id := fmt.Sprintf("sign:%d:%d:%.40q", k, len(m), m)
		r.State(id)
		r.Case(id, func() {
			pub := keys[k].PublicKey()
			sig, err := keys[k].Sign(m)
			r.Step(1)
			if err != nil {
				vlib.Failf("refused: %s", err)
			}
			all[i] = signed{k, m, sig}
			if !sig.Verify() {
				vlib.Failf("a genuine signature does not verify")
			}
			back, err := ad.ToSignature(sig.String())
			if err != nil {
				vlib.Failf("its text is refused: %s", err)
			}
			if back.String() != sig.String() || !back.Verify() {
				vlib.Failf("its text comes back as another signature")
			}
			for _, s := range []signature.Signature{sig, back} {
				got := s.PublicKey(m)
				if !got.Equals(pub) || !pub.Equals(got) || got.String() != pub.String() {
					vlib.Failf("the signer of %.40q is not recovered", m)
				}
			}
			r.Outcome(sig.String())
			// no other message
			for _, o := range msgs {
				if o == m {
					continue
				}
				r.Step(1)
				if sig.PublicKey(o).Equals(pub) {
					vlib.Failf("the signature on %.40q (%d bytes) is accepted for %.40q (%d bytes)", m, len(m), o, len(o))
				}
			}
			// no other key
			for j, o := range keys {
				if j != k && sig.PublicKey(m).Equals(o.PublicKey()) {
					vlib.Failf("the signature of key %d is accepted for key %d", k, j)
				}
			}
		})
	})
	// every short text over the symbols against every one next to it; and sizes around the powers of two
	words, near := vlib.NearTexts(0, 2)
	sized := len(words)
	for _, n := range vlib.Sizes(r.Pick(1<<14+1, 1<<18+1)) {
		for _, at := range []int{0, n / 2, n - 1} {
			words = append(words, strings.Repeat("m", at)+"n"+strings.Repeat("m", n-at-1))
		}
	}
	for i := range words {
		if i < sized && !r.Thorough() {
			continue
		}
		all := []int{}
		for j := range words {
			if j != i && (i < sized) == (j < sized) && (r.Thorough() || j-i < 13 && i-j < 13) {
				all = append(all, j)
			}
		}
		if i < sized {
			near[i] = all
		} else {
			near = append(near, all)
		}
	}
	r.Parallel(len(words)*2, func(i int) {
		k, x := i/len(words)*5, i%len(words)
		if r.Expired("texts") {
			return
		}
		m := words[x]
		id := fmt.Sprintf("text:%d:%d:%d:%.40q", k, x, len(m), m)
		r.State(id)
		r.Case(id, func() {
			pub := keys[k].PublicKey()
			sig, err := keys[k].Sign(m)
			r.Step(1)
			if err != nil {
				vlib.Failf("refused: %s", err)
			}
			if !sig.PublicKey(m).Equals(pub) {
				vlib.Failf("the signer of %.40q is not recovered", m)
			}
			for _, j := range near[x] {
				r.Step(1)
				if o := words[j]; sig.PublicKey(o).Equals(pub) {
					vlib.Failf("the signature on %.40q (%d bytes) is accepted for %.40q (%d bytes)", m, len(m), o, len(o))
				}
			}
		})
	})
	// splices and one-digit changes
	r.Parallel(len(all), func(i int) {
		a := all[i]
		if a.sig == nil || r.Expired("alterations") {
			return
		}
		id := fmt.Sprintf("alter:%d:%d:%.40q", a.key, len(a.msg), a.msg)
		r.State(id)
		r.Case(id, func() {
			pub := keys[a.key].PublicKey()
			raw, err := base64.StdEncoding.DecodeString(a.sig.String())
			if err != nil {
				return
			}
			tryText := func(what string, text string) {
				r.Step(1)
				s, err := ad.ToSignature(text)
				if text == a.sig.String() || err != nil {
					return
				}
				r.Nontrivial()
				if s.PublicKey(a.msg).Equals(pub) {
					vlib.Failf("%s: still accepted", what)
				}
			}
			try := func(what string, data string) {
				tryText(what, base64.StdEncoding.EncodeToString([]byte(data)))
			}
			text := a.sig.String()
			for _, t := range []string{text + "\n", "\r\n" + text, text[:len(text)/2] + "\n" + text[len(text)/2:], text + "=", " " + text, strings.TrimRight(text, "=")} {
				tryText("the text in another spelling", t)
			}
			if t := strings.TrimRight(text, "="); t != text {
				for _, c := range "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" {
					tryText("the text with other unused bits", t[:len(t)-1]+string(c)+text[len(t):])
				}
			}
			for _, more := range []string{"#", "##", "#more", "|", "00", " ", "\x00", "-", "0"} {
				for at := 0; at <= len(raw); at++ {
					if at == 0 || at == len(raw) || raw[at] == '#' || raw[at-1] == '#' {
						try("more: "+more, string(raw[:at])+more+string(raw[at:]))
					}
				}
			}
			try("capitals", strings.ToUpper(string(raw)))
			parts := strings.Split(string(raw), "#")
			if len(parts) == 2 {
				for d := 1; d < len(all); d += len(all)/7 + 1 {
					b := all[(i+d)%len(all)]
					if b.sig == nil {
						continue
					}
					other, _ := base64.StdEncoding.DecodeString(b.sig.String())
					op := strings.Split(string(other), "#")
					if len(op) == 2 {
						try("commitment of another signature", op[0]+"#"+parts[1])
						try("response of another signature", parts[0]+"#"+op[1])
						try("swapped", parts[1]+"#"+parts[0])
					}
				}
			}
			step := 1
			if !r.Thorough() {
				step = 1 + i%3
			}
			for at := i % step; at < len(raw); at += step {
				for _, c := range []byte{'0', '1', '7', '8', 'f', '#', 'z', bytes.ToUpper(raw[at : at+1])[0]} {
					if raw[at] == c {
						continue
					}
					mut := append([]byte{}, raw...)
					mut[at] = c
					try(fmt.Sprintf("digit %d set to %c", at, c), string(mut))
				}
			}
			for n := 0; n < len(raw); n += 1 + i%5 {
				try(fmt.Sprintf("cut at %d", n), string(raw[:n]))
			}
		})
	})
	// key texts
	texts := []string{"", "0", "00", "zz", "0g", strings.Repeat("0", 62), strings.Repeat("0", 63), strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("f", 128), "#", "é"}
	for _, k := range keys {
		s, p := k.String(), k.PublicKey().String()
		for n := 0; n <= 64; n++ {
			if n <= len(s) {
				texts = append(texts, s[:n])
			}
			if n <= len(p) {
				texts = append(texts, p[:n])
			}
		}
		for at := 0; at < len(p); at++ {
			for _, c := range []string{"0", "1", "7", "8", "e", "f", "x"} {
				texts = append(texts, p[:at]+c+p[at+1:])
			}
		}
		r.Case("key:"+s, func() {
			b, err := signature.NewPrivateKeyAdapter().ToPrivateKey(s)
			if err != nil || b.String() != s || !b.PublicKey().Equals(k.PublicKey()) {
				vlib.Failf("a private key does not come back from its text")
			}
			q, err := pad.ToPublicKey(p)
			if err != nil || q.String() != p || !q.Equals(k.PublicKey()) || !k.PublicKey().Equals(q) {
				vlib.Failf("a public key does not come back from its text")
			}
			for _, o := range keys {
				if o != k && (q.Equals(o.PublicKey()) || o.PublicKey().String() == p) {
					vlib.Failf("two keys have one public key")
				}
			}
		})
	}
	r.Parallel(len(texts), func(i int) {
		t := texts[i]
		id := fmt.Sprintf("keytext:%q", t)
		r.State(id)
		r.Case(id, func() {
			r.Step(2)
			if q, err := pad.ToPublicKey(t); err == nil {
				again, err := pad.ToPublicKey(q.String())
				if err != nil || !again.Equals(q) {
					vlib.Failf("a public key that was accepted does not come back from its own text")
				}
			}
			if q, err := signature.NewPrivateKeyAdapter().ToPrivateKey(t); err == nil {
				again, err := signature.NewPrivateKeyAdapter().ToPrivateKey(q.String())
				if err != nil || again.String() != q.String() || !again.PublicKey().Equals(q.PublicKey()) {
					vlib.Failf("a private key that was accepted does not come back from its own text")
				}
			}
			if len(t) < 64 {
				if _, err := pad.ToPublicKey(t); err == nil {
					vlib.Failf("a truncated public key is accepted")
				}
				if _, err := signature.NewPrivateKeyAdapter().ToPrivateKey(t); err == nil {
					vlib.Failf("a truncated private key is accepted")
				}
			}
		})
	})
	// signature texts that are not signatures
	for _, t := range vlib.Strings([]string{"#", "0", "g", "|", "%"}, 0, r.Pick(5, 6)) {
		t := t
		r.Case(fmt.Sprintf("garbage:%q", t), func() {
			r.Step(2)
			for _, x := range []string{t, base64.StdEncoding.EncodeToString([]byte(t))} {
				if s, err := ad.ToSignature(x); err == nil || s != nil {
					vlib.Failf("%q is taken for a signature", t)
				}
			}
		})
	}
	r.Finish()
}
