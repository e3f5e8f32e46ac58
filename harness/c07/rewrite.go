package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zz_verif/vlib"
	kyber "go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

var curve = edwards25519.NewBlakeSHA256Ed25519()

func scalar(s string) kyber.Scalar {
	b, err := hex.DecodeString(s)
	if err != nil {
		vlib.Failf("%q is not a scalar", s)
	}
	return curve.Scalar().SetBytes(b)
}

func point(s string) kyber.Point {
	b, err := hex.DecodeString(s)
	p := curve.Point()
	if err != nil || p.UnmarshalBinary(b) != nil {
		vlib.Failf("%q is not a point", s)
	}
	return p
}

func challenge(text string) kyber.Scalar {
	h := curve.Hash()
	h.Write([]byte(text))
	return curve.Scalar().SetBytes(h.Sum(nil))
}

// written is a ring signature in its parts
type written struct {
	ring []string
	s    []kyber.Scalar
	e    kyber.Scalar
}

func read(sig signature.RingSignature) *written {
	raw, err := base64.StdEncoding.DecodeString(sig.String())
	if err != nil {
		return nil
	}
	parts := strings.Split(string(raw), "#")
	if len(parts) != 3 {
		return nil
	}
	out := &written{e: scalar(parts[2]), ring: strings.Split(strings.TrimSuffix(parts[0], "|"), "|")}
	for _, x := range strings.Split(strings.TrimSuffix(parts[1], "|"), "|") {
		out.s = append(out.s, scalar(x))
	}
	if len(out.s) != len(out.ring) {
		return nil
	}
	return out
}

func (w *written) text() string {
	out := strings.Join(w.ring, "|") + "|#"
	for _, x := range w.s {
		out += x.String() + "|"
	}
	return base64.StdEncoding.EncodeToString([]byte(out + "#" + w.e.String()))
}

// schemes: what a challenge may be made of, besides the point. The attacker knows the scheme.
var schemes = []struct {
	name   string
	prefix func(ring []string, next int, m string) string
}{
	{"message", func(ring []string, next int, m string) string { return m }},
	{"ring, message", func(ring []string, next int, m string) string { return strings.Join(ring, "|") + "|#" + m }},
	{"first member, message", func(ring []string, next int, m string) string { return ring[0] + "|#" + m }},
	{"ring, position, message", func(ring []string, next int, m string) string {
		return fmt.Sprintf("%s|#%d#%s", strings.Join(ring, "|"), next, m)
	}},
	{"message, ring", func(ring []string, next int, m string) string { return m + strings.Join(ring, "") }},
	{"position, message", func(ring []string, next int, m string) string { return fmt.Sprintf("%d#%s", next, m) }},
	{"sorted ring, position, message", func(ring []string, next int, m string) string {
		o := append([]string{}, ring...)
		sort.Strings(o)
		return fmt.Sprintf("%s|#%d#%s", strings.Join(o, "|"), next, m)
	}},
	{"number of members, position, message", func(ring []string, next int, m string) string {
		return fmt.Sprintf("%d#%d#%s", len(ring), next, m)
	}},
	{"bare ring, message", func(ring []string, next int, m string) string { return strings.Join(ring, "") + m }},
}

// challenges of every member
func (w *written) challenges(prefix func(ring []string, next int, m string) string, m string) []kyber.Scalar {
	out := []kyber.Scalar{w.e}
	e := w.e
	for i := range w.ring {
		p := curve.Point().Add(curve.Point().Mul(w.s[i], nil), curve.Point().Mul(e, point(w.ring[i])))
		e = challenge(prefix(w.ring, (i+1)%len(w.ring), m) + p.String())
		out = append(out, e)
	}
	return out
}

// rewrite makes, without any key, other rings out of a genuine signature.
func rewrite(r *vlib.R, ad signature.RingSignatureAdapter, sig signature.RingSignature, m string) {
	w := read(sig)
	if w == nil {
		return
	}
	n := len(w.ring)
	try := func(what string, o *written) {
		r.Step(1)
		if o.text() == sig.String() {
			return
		}
		x, err := ad.ToSignature(o.text())
		if err != nil {
			return
		}
		r.Nontrivial()
		h := []hash.Hash{}
		for _, p := range o.ring {
			x, err := hash.NewAdapter().FromString(p)
			if err != nil {
				vlib.Failf("%s", err)
			}
			h = append(h, *x)
		}
		if x.Verify(m) {
			vlib.Failf("%s: it verifies", what)
		}
		if ok, _ := ad.ToVerification(x, m, h); ok {
			vlib.Failf("%s: it is accepted", what)
		}
	}
	d := scalar("05" + strings.Repeat("00", 31))
	for _, sc := range schemes {
		es := w.challenges(sc.prefix, m)
		// the ring begins with another member
		for by := 1; by < n; by++ {
			o := &written{ring: append(append([]string{}, w.ring[by:]...), w.ring[:by]...), s: append(append([]kyber.Scalar{}, w.s[by:]...), w.s[:by]...), e: es[by]}
			try(fmt.Sprintf("the ring begins %d members later (challenge on %s)", by, sc.name), o)
		}
		// a member is another key, whose distance to the member is known
		for i := 0; i < n; i++ {
			o := &written{ring: append([]string{}, w.ring...), s: append([]kyber.Scalar{}, w.s...), e: w.e}
			o.ring[i] = curve.Point().Add(point(w.ring[i]), curve.Point().Mul(d, nil)).String()
			o.s[i] = curve.Scalar().Sub(w.s[i], curve.Scalar().Mul(es[i], d))
			try(fmt.Sprintf("member %d is moved (challenge on %s)", i, sc.name), o)
		}
		// a ring that goes round twice
		try("the ring is repeated (challenge on "+sc.name+")", &written{ring: append(append([]string{}, w.ring...), w.ring...), s: append(append([]kyber.Scalar{}, w.s...), w.s...), e: w.e})
	}
}

// rewritePart makes other rings out of a genuine signature of a large ring, if only some of its members are
// in the challenges.
func rewritePart(r *vlib.R, ad signature.RingSignatureAdapter, sig signature.RingSignature, m string) {
	w := read(sig)
	if w == nil {
		vlib.Failf("the text of the signature cannot be read")
	}
	n := len(w.ring)
	d := scalar("05" + strings.Repeat("00", 31))
	parts := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 31, 32}
	for _, k := range parts {
		if k >= n {
			continue
		}
		k := k
		for end, part := range []func(ring []string) []string{
			func(ring []string) []string { return ring[:k] },
			func(ring []string) []string { return ring[len(ring)-k:] },
		} {
			es := w.challenges(func(ring []string, next int, m string) string {
				return fmt.Sprintf("%s|#%d#%s", strings.Join(part(ring), "|"), next, m)
			}, m)
			i := n - 1
			if end == 1 {
				i = 0
			}
			o := &written{ring: append([]string{}, w.ring...), s: append([]kyber.Scalar{}, w.s...), e: w.e}
			o.ring[i] = curve.Point().Add(point(w.ring[i]), curve.Point().Mul(d, nil)).String()
			o.s[i] = curve.Scalar().Sub(w.s[i], curve.Scalar().Mul(es[i], d))
			x, err := ad.ToSignature(o.text())
			if err != nil {
				continue
			}
			r.Step(1)
			r.Nontrivial()
			if x.Verify(m) {
				vlib.Failf("member %d of %d is moved (challenge on %d members): it verifies", i, n, k)
			}
		}
	}
}

// respell writes the text of a signature in other ways.
func respell(text string) []string {
	out := []string{text + "\n", "\r\n" + text, text[:len(text)/2] + "\n" + text[len(text)/2:], text + "=", " " + text, strings.TrimRight(text, "=")}
	raw, err := base64.StdEncoding.DecodeString(text)
	if err != nil {
		return out
	}
	enc := func(s string) { out = append(out, base64.StdEncoding.EncodeToString([]byte(s))) }
	s := string(raw)
	enc(strings.ToUpper(s))
	for _, more := range []string{"#", "##", "#more", "|", "00", " ", "\x00"} {
		enc(s + more)
		enc(more + s)
		enc(strings.Replace(s, "#", more+"#", 1))
		enc(strings.Replace(s, "#", "#"+more, 1))
	}
	for i, c := range s {
		if c == '|' {
			enc(s[:i] + "|" + s[i:])
		}
		if c >= 'a' && c <= 'f' {
			enc(s[:i] + strings.ToUpper(string(c)) + s[i+1:])
		}
	}
	// the bits that no byte needs
	alphabet := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	if t := strings.TrimRight(text, "="); t != text {
		for _, c := range alphabet {
			out = append(out, t[:len(t)-1]+string(c)+text[len(t):])
		}
	}
	return out
}
