// C11: a peer and its text are the same thing.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func main() {
	r := vlib.New("C11")
	r.Rule = "every host over a small alphabet x ports at the boundaries x delimiters: object -> text -> object; every short text against a reference parser; every history of builder calls up to the depth; non-trivial: texts with no, two or misplaced delimiters, signs and leading zeros"
	ports := []uint{0, 1, 9, 10, 80, 8080, 65535, 65536, 1 << 31, 1<<32 + 1, 1<<63 - 1, 1 << 63, ^uint(0)}
	for _, d := range []string{":", "@", "::", "#|"} {
		for _, h := range vlib.Strings([]string{"a", ".", "1", " ", "é", "-", "["}, 1, r.Pick(3, 4)) {
			for _, p := range ports {
				h, p, d := h, p, d
				id := fmt.Sprintf("peer:%q:%q:%d", d, h, p)
				r.State(id)
				r.Case(id, func() {
					o, err := peers.NewPeerBuilder(d).Create().WithHost(h).WithPort(p).Now()
					r.Step(2)
					if err != nil {
						vlib.Failf("refused: %s", err)
					}
					if o.Host() != h || o.Port() != p || o.String() != h+d+strconv.FormatUint(uint64(p), 10) {
						vlib.Failf("built as %q %d %q", o.Host(), o.Port(), o.String())
					}
					b, err := peers.NewPeerBuilder(d).Create().WithString(o.String()).Now()
					if err != nil {
						vlib.Failf("its text %q is refused: %s", o.String(), err)
					}
					if b.Host() != h || b.Port() != p || b.String() != o.String() {
						vlib.Failf("its text %q comes back as %q %d", o.String(), b.Host(), b.Port())
					}
					r.Outcome(o.String())
				})
			}
		}
	}
	// every host over the symbols
	for _, d := range []string{":", "\t", "\u00e9", "%"} {
		for _, h := range vlib.Texts(1, r.Pick(2, 3)) {
			if strings.Contains(h, d) {
				continue
			}
			h, d := h, d
			id := fmt.Sprintf("host:%q:%q", d, h)
			r.State(id)
			r.Case(id, func() {
				o, err := peers.NewPeerBuilder(d).Create().WithHost(h).WithPort(80).Now()
				r.Step(2)
				if err != nil {
					vlib.Failf("refused: %s", err)
				}
				if o.Host() != h || o.Port() != 80 || o.String() != h+d+"80" {
					vlib.Failf("built as %q %d %q", o.Host(), o.Port(), o.String())
				}
				b, err := peers.NewPeerBuilder(d).Create().WithString(o.String()).Now()
				if err != nil {
					vlib.Failf("its text %q is refused: %s", o.String(), err)
				}
				if b.Host() != h || b.Port() != 80 || b.String() != o.String() {
					vlib.Failf("its text %q comes back as %q %d", o.String(), b.Host(), b.Port())
				}
				r.Outcome(o.String())
			})
		}
	}
	// every short text
	texts := vlib.Strings([]string{"a", ":", "0", "7", "-", "+", " "}, 0, r.Pick(6, 7))
	for _, n := range []string{"18446744073709551615", "18446744073709551616", "9223372036854775808", "99999999999999999999", "1e3", "0x10", "1_000", "７"} {
		texts = append(texts, "h:"+n, n+":1")
	}
	for _, t := range texts {
		t := t
		id := fmt.Sprintf("text:%q", t)
		r.State(id)
		r.Case(id, func() {
			o, err := peers.NewPeerBuilder(":").Create().WithString(t).Now()
			r.Step(1)
			parts := strings.Split(t, ":")
			ok := len(parts) == 2 && parts[0] != "" && parts[1] != ""
			port := uint64(0)
			if ok {
				for _, c := range parts[1] {
					ok = ok && c >= '0' && c <= '9'
				}
				if ok {
					p, e := strconv.ParseUint(parts[1], 10, 64)
					ok = e == nil
					port = p
				}
			}
			if ok {
				if err != nil {
					vlib.Failf("refused: %s", err)
				}
				if o.Host() != parts[0] || uint64(o.Port()) != port {
					vlib.Failf("read as %q %d", o.Host(), o.Port())
				}
				return
			}
			r.Nontrivial()
			if err == nil {
				// leniency about an explicit plus sign is harmless; anything else is not this peer
				if len(parts) == 2 && parts[0] != "" && strings.HasPrefix(parts[1], "+") && o.Host() == parts[0] {
					if p, e := strconv.ParseUint(parts[1][1:], 10, 64); e == nil && uint64(o.Port()) == p {
						return
					}
				}
				vlib.Failf("%q is read as host %q port %d", t, o.Host(), o.Port())
			}
			r.Outcome("refused")
		})
	}
	// histories
	ops := []string{"host a", "host b", "host ", "port 1", "port 2", "text x:3", "text y", "create", "now"}
	vlib.Words(ops, 1, r.Pick(5, 6), func(w []string) {
		if w[len(w)-1] != "now" {
			return
		}
		id := fmt.Sprint("history:", w)
		r.State(id)
		r.Case(id, func() {
			b := peers.NewPeerBuilder(":")
			host, port, text := "", -1, ""
			for _, x := range w {
				r.Step(1)
				switch {
				case strings.HasPrefix(x, "host"):
					host = x[5:]
					b = b.WithHost(host)
				case strings.HasPrefix(x, "port"):
					port = int(x[5] - '0')
					b = b.WithPort(uint(port))
				case strings.HasPrefix(x, "text"):
					text = x[5:]
					b = b.WithString(text)
				case x == "create":
					b = b.Create()
					host, port, text = "", -1, ""
				default:
					o, err := b.Now()
					h, p, ok := host, port, host != "" && port >= 0
					if text == "x:3" {
						h, p, ok = "x", 3, true
					}
					if text == "y" {
						ok = false
					}
					if ok != (err == nil) {
						vlib.Failf("history %v: err=%v", w, err)
					}
					if ok && (o.Host() != h || int(o.Port()) != p) {
						vlib.Failf("history %v: %s", w, o.String())
					}
				}
			}
		})
	})
	r.Finish()
}
