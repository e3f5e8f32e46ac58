// C08: whatever its owner signs, a private key stays private.
package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/zz_verif/vlib"
	kyber "go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

var curve = edwards25519.NewBlakeSHA256Ed25519()

func hash(m string) kyber.Scalar {
	h := sha256.Sum256([]byte(m))
	return curve.Scalar().SetBytes(h[:])
}

func scalar(s string) kyber.Scalar {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 32 {
		return nil
	}
	return curve.Scalar().SetBytes(b)
}

func point(s string) kyber.Point {
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil
	}
	p := curve.Point()
	if p.UnmarshalBinary(b) != nil {
		return nil
	}
	return p
}

// eq is one public equation nonce = s + e*x; filler tells that s was published as a free scalar.
type eq struct{ s, e kyber.Scalar }

// equations reads what a signature publishes.
func equations(msg, text string) (out []eq, points []kyber.Point) {
	raw, err := base64.StdEncoding.DecodeString(text)
	if err != nil {
		return
	}
	parts := strings.Split(string(raw), "#")
	switch len(parts) {
	case 2:
		s, r := scalar(parts[1]), point(parts[0])
		if s == nil || r == nil {
			return
		}
		out = append(out, eq{s, hash(msg + parts[0])})
	case 3:
		ring := strings.Split(strings.TrimSuffix(parts[0], "|"), "|")
		ss := strings.Split(strings.TrimSuffix(parts[1], "|"), "|")
		e := scalar(parts[2])
		if len(ring) != len(ss) || e == nil {
			return
		}
		for i := range ring {
			s, p := scalar(ss[i]), point(ring[i])
			if s == nil || p == nil {
				return nil, nil
			}
			out = append(out, eq{s, e})
			sum := curve.Point().Add(curve.Point().Mul(s, nil), curve.Point().Mul(e, p))
			e = hash(msg + sum.String())
		}
	}
	return
}

type op struct {
	msg  string
	ring []int // nil: a plain signature
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "nonces" {
		child(os.Args[2], os.Args[3])
		return
	}
	r := vlib.New("C08")
	r.Rule = "every history of signatures (plain, and in every ring of the set) of one or two keys up to the depth; after each, an attacker who knows the public equations tries: equal nonces in two of them, a published ring scalar used as a nonce, guessable nonces, and nonces shared between keys or processes; non-trivial: histories in which one message is signed twice"
	r.Assume("the attacker is linear (shared, published or guessable nonces); discrete logarithms are hard")
	keys := []signature.PrivateKey{}
	xs := []kyber.Scalar{}
	pubs := []signature.PublicKey{}
	for i := 0; i < 3; i++ {
		k := signature.NewPrivateKeyFactory().Create()
		keys = append(keys, k)
		pubs = append(pubs, k.PublicKey())
		xs = append(xs, scalar(k.String()))
	}
	msgs := []string{"m", "m0", "m1", ""}
	rings := [][]int{{0}, {0, 1}, {1, 0}, {1, 2, 0}, {0, 1, 2}}
	ops := []op{}
	for _, m := range msgs {
		ops = append(ops, op{m, nil})
		for _, g := range rings {
			if m == "m1" && len(g) != 2 {
				continue
			}
			ops = append(ops, op{m, g})
		}
	}
	depth := r.Pick(3, 4)
	seqs := [][]int{}
	names := []string{}
	for i := range ops {
		names = append(names, fmt.Sprint(i))
	}
	vlib.Words(names, 1, depth, func(w []string) {
		s := []int{}
		for _, x := range w {
			i, _ := strconv.Atoi(x)
			s = append(s, i)
		}
		seqs = append(seqs, s)
	})
	guess := map[string]string{}
	for i := int64(0); i < 300; i++ {
		guess[curve.Scalar().SetInt64(i).String()] = fmt.Sprint(i)
	}
	for _, m := range msgs {
		for _, suffix := range []string{"", "0", "1", "2", pubs[0].String(), pubs[1].String(), pubs[2].String()} {
			guess[hash(m+suffix).String()] = "H(" + m + suffix + ")"
			guess[hash(suffix+m).String()] = "H(" + suffix + m + ")"
		}
	}
	r.Parallel(len(seqs), func(i int) {
		if r.Expired("histories") {
			return
		}
		seq := seqs[i]
		id := fmt.Sprintf("history:%v", seq)
		r.State(id)
		r.Case(id, func() {
			type pub struct {
				op  op
				eqs []eq
			}
			all := []pub{}
			// two owners: the last signature of the history also by the second key
			nonces := map[string]eq{}
			otherNonces := map[string]bool{}
			fillers := map[string]int{}
			seen := map[string]bool{}
			for n, x := range seq {
				o := ops[x]
				text := sign(keys[0], pubs, o)
				r.Step(1)
				if seen[o.msg] {
					r.Nontrivial()
				}
				seen[o.msg] = true
				eqs, _ := equations(o.msg, text)
				all = append(all, pub{o, eqs})
				for _, q := range eqs {
					fillers[q.s.String()] = n
				}
				for j := 1; j < 2; j++ {
					if o.ring != nil && len(o.ring) == 1 {
						continue
					}
					q, _ := equations(o.msg, sign(keys[j], pubs, o))
					for _, e := range q {
						k := curve.Scalar().Add(e.s, curve.Scalar().Mul(e.e, xs[j]))
						otherNonces[k.String()] = true
					}
				}
			}
			for n, p := range all {
				ringScalars := map[string]bool{}
				for _, q := range p.eqs {
					if ringScalars[q.s.String()] {
						vlib.Failf("history %v: signature %d uses one scalar for two members of its ring", seq, n)
					}
					ringScalars[q.s.String()] = true
					if g, ok := guess[q.s.String()]; ok {
						vlib.Failf("history %v: signature %d publishes the scalar %s: it shows who did not sign", seq, n, g)
					}
					k := curve.Scalar().Add(q.s, curve.Scalar().Mul(q.e, xs[0]))
					ks := k.String()
					r.Outcome(ks)
					if g, ok := guess[ks]; ok {
						vlib.Failf("history %v: the nonce of signature %d is %s: anybody computes the private key", seq, n, g)
					}
					if _, ok := fillers[ks]; ok {
						vlib.Failf("history %v: the nonce of signature %d is published in signature %d: anybody computes the private key", seq, n, fillers[ks])
					}
					if otherNonces[ks] {
						vlib.Failf("history %v: two keys used one nonce: each owner computes the other's key", seq)
					}
					if old, ok := nonces[ks]; ok && (!old.s.Equal(q.s) || !old.e.Equal(q.e)) {
						vlib.Failf("history %v: two signatures used one nonce: anybody computes the private key", seq)
					}
					nonces[ks] = q
				}
			}
		})
	})
	// two processes, two keys, one message: what one owner learns says nothing of the other
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	r.Case("processes", func() {
		seen := map[string]string{}
		for run := 0; run < 3; run++ {
			for k := 0; k < 2; k++ {
				out, err := exec.Command(self, "nonces", keys[k+run%2].String(), "m").Output()
				r.Step(1)
				if err != nil {
					panic(err)
				}
				for _, line := range strings.Fields(string(out)) {
					who := fmt.Sprint(k + run%2)
					if o, ok := seen[line]; ok && o != who {
						vlib.Failf("two processes drew the same secret number for two keys")
					}
					seen[line] = who
				}
			}
		}
	})
	// fresh keys
	r.Case("fresh keys", func() {
		seen := map[string]bool{}
		for i := 0; i < r.Pick(400, 4000); i++ {
			s := signature.NewPrivateKeyFactory().Create().String()
			r.Step(1)
			if seen[s] || guess[s] != "" {
				vlib.Failf("a new private key is %s again", s)
			}
			seen[s] = true
		}
		out, err := exec.Command(self, "nonces", "new", "m").Output()
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Fields(string(out)) {
			if seen[l] {
				vlib.Failf("two processes created one private key")
			}
			seen[l] = true
		}
		out, _ = exec.Command(self, "nonces", "new", "m").Output()
		for _, l := range strings.Fields(string(out)) {
			if seen[l] {
				vlib.Failf("two processes created one private key")
			}
		}
	})
	// what is published never contains the key
	for i, o := range ops {
		o := o
		r.Case(fmt.Sprintf("text:%d", i), func() {
			raw, _ := base64.StdEncoding.DecodeString(sign(keys[0], pubs, o))
			if strings.Contains(string(raw), keys[0].String()) {
				vlib.Failf("the signature contains the private key")
			}
		})
	}
	r.Finish()
}

func sign(k signature.PrivateKey, pubs []signature.PublicKey, o op) string {
	if o.ring == nil {
		s, err := k.Sign(o.msg)
		if err != nil {
			vlib.Failf("cannot sign: %s", err)
		}
		return s.String()
	}
	g := []signature.PublicKey{}
	for _, i := range o.ring {
		g = append(g, pubs[i])
	}
	s, err := k.RingSign(o.msg, g)
	if err != nil {
		vlib.Failf("cannot sign: %s", err)
	}
	return s.String()
}

// child prints the nonces which this process draws.
func child(key, msg string) {
	if key == "new" {
		for i := 0; i < 5; i++ {
			fmt.Println(signature.NewPrivateKeyFactory().Create().String())
		}
		return
	}
	k, err := signature.NewPrivateKeyAdapter().ToPrivateKey(key)
	if err != nil {
		panic(err)
	}
	x := scalar(k.String())
	for i := 0; i < 3; i++ {
		q, _ := equations(msg, sign(k, nil, op{msg, nil}))
		for _, e := range q {
			fmt.Println(curve.Scalar().Add(e.s, curve.Scalar().Mul(e.e, x)).String())
		}
	}
}
