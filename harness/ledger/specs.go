// Package ledger describes every record of the ledger as a table: its builder, its fields, the values
// explored for each field, and the rules its builder must enforce. The checks are generic over it.
package ledger

import (
	"crypto/sha512"
	"fmt"
	"reflect"
	"time"

	uuid "github.com/satori/go.uuid"
	"github.com/steve-care-software/steve/domain/chains"
	"github.com/steve-care-software/steve/domain/cryptography/keys/signature"
	"github.com/steve-care-software/steve/domain/genesis"
	genesis_privates "github.com/steve-care-software/steve/domain/genesis/privates"
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/domain/identities"
	"github.com/steve-care-software/steve/domain/peers"
	"github.com/steve-care-software/steve/domain/receipts"
	"github.com/steve-care-software/steve/domain/rings"
	"github.com/steve-care-software/steve/domain/transactions"
	"github.com/steve-care-software/steve/domain/transactions/privates"
	"github.com/steve-care-software/steve/domain/transactions/secrets"
)

// Val is one value of a field. Label is its content: two values with one label are the same content.
type Val struct {
	Label   string
	V       interface{} // nil: the setter is called with a nil interface
	Missing bool        // the builder must treat it as not given
}

// Field is one field of a record.
type Field struct {
	Setter, Getter, Has string
	Optional            bool
	Vals                []Val
}

// Spec is one kind of record.
type Spec struct {
	Name   string
	New    func() interface{}
	Fields []Field
	// Rule is what else must hold; given the chosen value of every field (nil when not given).
	Rule   func(v []*Val) bool
	Hashed bool
}

// Build runs one builder with the values, in the given order of the setters.
func (s *Spec) Build(b interface{}, choice []*Val, order []int) (interface{}, error) {
	for _, i := range order {
		if choice[i] != nil {
			b = Set(b, s.Fields[i].Setter, choice[i].V)
		}
	}
	return Now(b)
}

// Set calls one setter.
func Set(b interface{}, setter string, v interface{}) interface{} {
	m := reflect.ValueOf(b).MethodByName(setter)
	if !m.IsValid() {
		panic("no setter " + setter)
	}
	arg := reflect.Zero(m.Type().In(0))
	if v != nil {
		arg = reflect.ValueOf(v)
	}
	return m.Call([]reflect.Value{arg})[0].Interface()
}

// Create calls Create.
func Create(b interface{}) interface{} {
	return reflect.ValueOf(b).MethodByName("Create").Call(nil)[0].Interface()
}

// Now calls Now.
func Now(b interface{}) (interface{}, error) {
	out := reflect.ValueOf(b).MethodByName("Now").Call(nil)
	err, _ := out[1].Interface().(error)
	if out[0].IsNil() {
		return nil, err
	}
	return out[0].Interface(), err
}

func call(o interface{}, name string) interface{} {
	m := reflect.ValueOf(o).MethodByName(name)
	if !m.IsValid() {
		panic("no getter " + name)
	}
	return m.Call(nil)[0].Interface()
}

// HashOf returns the identity of a record.
func HashOf(o interface{}) hash.Hash { return call(o, "Hash").(hash.Hash) }

// Same compares what a getter returned with what was given.
func Same(got, want interface{}) bool {
	if t, ok := want.(time.Time); ok {
		g, is := got.(time.Time)
		return is && g.Equal(t)
	}
	if h, ok := want.(hash.Hash); ok {
		if p, is := got.(*hash.Hash); is {
			return p != nil && *p == h
		}
	}
	return reflect.DeepEqual(got, want)
}

// Valid predicts the verdict of the builder.
func (s *Spec) Valid(choice []*Val) bool {
	for i, f := range s.Fields {
		given := choice[i] != nil && !choice[i].Missing
		if !given && !f.Optional {
			return false
		}
	}
	return s.Rule == nil || s.Rule(choice)
}

// Content is the content of the record, as text.
func (s *Spec) Content(choice []*Val) string {
	out := ""
	for i, f := range s.Fields {
		l := "-"
		if choice[i] != nil && !choice[i].Missing {
			l = choice[i].Label
		}
		out += fmt.Sprintf("%s=%q;", f.Getter, l)
	}
	return out
}

// Check compares a built record with what was given. It returns what differs.
func (s *Spec) Check(o interface{}, choice []*Val) string {
	for i, f := range s.Fields {
		given := choice[i] != nil && !choice[i].Missing
		if f.Has != "" && call(o, f.Has).(bool) != given {
			return fmt.Sprintf("%s is %v", f.Has, !given)
		}
		if !given {
			if f.Has == "" || f.Getter == "" {
				continue
			}
			if g := reflect.ValueOf(o).MethodByName(f.Getter).Call(nil)[0]; !g.IsNil() {
				return fmt.Sprintf("%s is not empty", f.Getter)
			}
			continue
		}
		if f.Getter == "" {
			continue
		}
		if got := call(o, f.Getter); !Same(got, choice[i].V) {
			return fmt.Sprintf("%s is %v, given %v", f.Getter, got, choice[i].V)
		}
	}
	return ""
}

func must(v interface{}, err error) interface{} {
	if err != nil {
		panic(fmt.Sprintf("a valid record was refused: %s", err))
	}
	return v
}

// H is a digest of a label.
func H(s string) hash.Hash { return hash.Hash(sha512.Sum512([]byte(s))) }

// Keys gives a few private keys, always the same.
func Keys(n int) []signature.PrivateKey {
	out := []signature.PrivateKey{}
	for i := 0; i < n; i++ {
		k, err := signature.NewPrivateKeyAdapter().ToPrivateKey(fmt.Sprintf("%02x%062x", i+3, 7))
		if err != nil {
			panic(err)
		}
		out = append(out, k)
	}
	return out
}

func at(sec int64) time.Time { return time.Unix(1700000000+sec, 0).UTC() }

// Universe builds a small world of records, bottom up, and the tables over it.
func Universe(deep bool) []*Spec {
	keys := Keys(3)
	pubs := []signature.PublicKey{keys[0].PublicKey(), keys[1].PublicKey(), keys[2].PublicKey()}
	out := []*Spec{}
	lists := func(n, max int, mk func(idx []int) interface{}) []Val {
		vals := []Val{{Label: "nil", Missing: true}, {Label: "empty", V: mk(nil), Missing: true}}
		var rec func(idx []int)
		rec = func(idx []int) {
			if len(idx) > 0 {
				vals = append(vals, Val{Label: fmt.Sprint(idx), V: mk(idx)})
			}
			if len(idx) == max {
				return
			}
			for i := 0; i < n; i++ {
				rec(append(append([]int{}, idx...), i))
			}
		}
		rec(nil)
		// long lists, and what is next to them
		seen := map[string]bool{}
		for _, v := range vals {
			seen[v.Label] = true
		}
		add := func(idx []int) {
			if l := fmt.Sprint(idx); !seen[l] {
				seen[l] = true
				vals = append(vals, Val{Label: l, V: mk(idx)})
			}
		}
		sizes := []int{4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 33}
		if deep {
			sizes = nil
			for i := 4; i <= 40; i++ {
				sizes = append(sizes, i)
			}
		}
		for _, size := range sizes {
			base := []int{}
			for i := 0; i < size; i++ {
				base = append(base, i%n)
			}
			add(base)
			for i := range base {
				changed := append([]int{}, base...)
				changed[i] = (changed[i] + 1) % n
				add(changed)
				add(append(append([]int{}, base[:i]...), base[i+1:]...))
				if i > 0 {
					swapped := append([]int{}, base...)
					swapped[i], swapped[i-1] = swapped[i-1], swapped[i]
					add(swapped)
				}
			}
		}
		// much longer lists, and some of what is next to them
		for _, size := range []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 300, 512, 1000} {
			base := []int{}
			for i := 0; i < size; i++ {
				base = append(base, i%n)
			}
			add(base)
			for _, i := range []int{0, size / 2, size - 1} {
				changed := append([]int{}, base...)
				changed[i] = (changed[i] + 1) % n
				add(changed)
				if i > 0 {
					swapped := append([]int{}, base...)
					swapped[i], swapped[i-1] = swapped[i-1], swapped[i]
					add(swapped)
				}
			}
		}
		return vals
	}
	depth := 3
	if deep {
		depth = 4
	}

	// rings
	// the last member is the digest of the first two: a ring of it alone is not the ring of these two
	ha, hb := H("a"), H("b")
	members := []hash.Hash{H("a"), H("b"), H("c"), hash.Hash(sha512.Sum512(append(append([]byte{}, ha[:]...), hb[:]...)))}
	for _, b := range [][2]uint{{0, 0}, {1, 3}, {2, 2}, {2, 4}, {3, 1}, {0, 4}, {1, 64}, {10, 255}, {64, 256}, {257, 999}} {
		min, max := b[0], b[1]
		vals := lists(4, depth, func(idx []int) interface{} {
			l := []hash.Hash{}
			for _, i := range idx {
				l = append(l, members[i])
			}
			return l
		})
		vals[1].Missing = false // an empty ring is judged by the bounds
		out = append(out, &Spec{
			Name: fmt.Sprintf("ring[%d..%d]", min, max), Hashed: true,
			New:    func() interface{} { return rings.NewRingBuilder(min, max) },
			Fields: []Field{{Setter: "WithList", Getter: "List", Vals: vals}},
			Rule: func(v []*Val) bool {
				n := uint(len(v[0].V.([]hash.Hash)))
				return n >= min && n <= max
			},
		})
	}
	ring := func(m ...int) rings.Ring {
		l := []hash.Hash{}
		for _, i := range m {
			l = append(l, members[i])
		}
		return must(rings.NewRingBuilder(1, 9).Create().WithList(l).Now()).(rings.Ring)
	}
	ringObjs := []rings.Ring{ring(0), ring(0, 1), ring(1, 0), ring(0, 1, 2), ring(1), ring(3)}
	ringVals := []Val{{Label: "nil", Missing: true}}
	for i, r := range ringObjs {
		ringVals = append(ringVals, Val{Label: fmt.Sprint("ring", i), V: r})
	}
	out = append(out, &Spec{Name: "rings", Hashed: true, New: func() interface{} { return rings.NewBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "List", Vals: lists(6, depth, func(idx []int) interface{} {
			l := []rings.Ring{}
			for _, i := range idx {
				l = append(l, ringObjs[i])
			}
			return l
		})}}})

	// genesis
	times := func(secs ...int64) []Val {
		vals := []Val{}
		for _, s := range secs {
			vals = append(vals, Val{Label: fmt.Sprint("t", s), V: at(s)})
		}
		// the same instant elsewhere on the earth is the same content
		vals = append(vals, Val{Label: fmt.Sprint("t", secs[0]), V: at(secs[0]).In(time.FixedZone("x", 5*3600))})
		// the seconds that 32 bits confuse, and another century
		vals = append(vals, Val{Label: fmt.Sprint("t", secs[0], "+136y"), V: at(secs[0] + 1<<32)}, Val{Label: fmt.Sprint("t", secs[0], "+100y"), V: at(secs[0]).AddDate(100, 0, 0)})
		return vals
	}
	// far times: 2^64 nanoseconds (584 years) later is another time
	far := func(sec int64) Val {
		return Val{Label: fmt.Sprint("t", sec, "+584y"), V: at(sec).Add(1<<63 - 1).Add(1<<63 - 1).Add(2)}
	}
	amounts := []Val{{Label: "0", V: uint(0), Missing: true}, {Label: "1", V: uint(1)}, {Label: "12", V: uint(12)}, {Label: "112", V: uint(112)}, {Label: "max", V: ^uint(0)}, {Label: "17", V: uint(17)}}
	nonces := []Val{{Label: "", V: "", Missing: true}, {Label: "2", V: "2"}, {Label: "12", V: "12"}, {Label: "x", V: "x"}, {Label: "x1", V: "x1"}, {Label: "|", V: "|"}, {Label: "1700000000000000000", V: "1700000000000000000"}, {Label: "é\x00", V: "é\x00"}}
	timeVal := func(v *Val) time.Time { return v.V.(time.Time) }
	ucSpec := &Spec{Name: "unit content", Hashed: true, New: func() interface{} { return genesis.NewUnitContentBuilder() },
		Fields: []Field{
			{Setter: "WithAmount", Getter: "Amount", Vals: amounts},
			{Setter: "WithNonce", Getter: "Nonce", Vals: nonces},
			{Setter: "ActivatedOn", Getter: "ActivatedOn", Vals: append(times(5, 1, 17, 170), Val{Label: "t5+1ns", V: at(5).Add(1)}, far(5), far(17))},
			{Setter: "CreatedOn", Getter: "CreatedOn", Vals: append(times(5, 1, 17), Val{Label: "t5+1ns", V: at(5).Add(1)}, far(5))},
		},
		Rule: func(v []*Val) bool { return !timeVal(v[2]).Before(timeVal(v[3])) }}
	out = append(out, ucSpec)
	uc := func(amount uint, nonce string, act, created int64) genesis.UnitContent {
		return must(genesis.NewUnitContentBuilder().Create().WithAmount(amount).WithNonce(nonce).ActivatedOn(at(act)).CreatedOn(at(created)).Now()).(genesis.UnitContent)
	}
	contents := []genesis.UnitContent{uc(1, "n", 10, 5), uc(2, "n", 10, 5), uc(1, "m", 10, 7)}
	contentVals := []Val{{Label: "nil", Missing: true}}
	for i, c := range contents {
		contentVals = append(contentVals, Val{Label: fmt.Sprint("content", i), V: c})
	}
	out = append(out, &Spec{Name: "unit", Hashed: true, New: func() interface{} { return genesis.NewUnitBuilder() },
		Fields: []Field{{Setter: "WithContent", Getter: "Content", Vals: contentVals}, {Setter: "WithOwner", Getter: "Owner", Vals: ringVals}}})
	unit := func(c genesis.UnitContent, r rings.Ring) genesis.Unit {
		return must(genesis.NewUnitBuilder().Create().WithContent(c).WithOwner(r).Now()).(genesis.Unit)
	}
	unitObjs := []genesis.Unit{unit(contents[0], ringObjs[0]), unit(contents[1], ringObjs[1]), unit(contents[2], ringObjs[0])}
	unitVals := []Val{{Label: "nil", Missing: true}}
	for i, u := range unitObjs {
		unitVals = append(unitVals, Val{Label: fmt.Sprint("unit", i), V: u})
	}
	mkUnits := func(idx []int) interface{} {
		l := []genesis.Unit{}
		for _, i := range idx {
			l = append(l, unitObjs[i])
		}
		return l
	}
	out = append(out, &Spec{Name: "units", Hashed: true, New: func() interface{} { return genesis.NewUnitsBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "All", Vals: lists(3, depth, mkUnits)}}})
	unitsVals := []Val{{Label: "nil", Missing: true}}
	unitsOf := map[string][]int{}
	for _, idx := range [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0}, {2, 2, 1}} {
		l := fmt.Sprint("units", idx)
		unitsOf[l] = idx
		unitsVals = append(unitsVals, Val{Label: l, V: must(genesis.NewUnitsBuilder().Create().WithList(mkUnits(idx).([]genesis.Unit)).Now())})
	}
	out = append(out, &Spec{Name: "genesis", Hashed: true, New: func() interface{} { return genesis.NewBuilder() },
		Fields: []Field{
			{Setter: "WithUnits", Getter: "Units", Vals: unitsVals},
			{Setter: "WithFees", Getter: "Fees", Vals: []Val{{Label: "0", V: uint(0)}, {Label: "1", V: uint(1)}, {Label: "11", V: uint(11)}, {Label: "170", V: uint(170)}}},
			{Setter: "CreatedOn", Getter: "CreatedOn", Vals: append(times(4, 5, 6, 7, 8), Val{Label: "t4+1ns", V: at(4).Add(1)}, Val{Label: "t4-584y", V: at(4).Add(-1 << 63).Add(-1 << 63)})},
		},
		Rule: func(v []*Val) bool {
			for _, i := range unitsOf[v[0].Label] {
				if contents[i].CreatedOn().Before(timeVal(v[2])) {
					return false
				}
			}
			return true
		}})
	pkVals := []Val{{Label: "nil", Missing: true}}
	for i, k := range keys {
		pkVals = append(pkVals, Val{Label: fmt.Sprint("pk", i), V: k})
	}
	gpSpec := &Spec{Name: "genesis private", Hashed: true, New: func() interface{} { return genesis_privates.NewPrivateBuilder() },
		Fields: []Field{{Setter: "WithUnit", Getter: "Unit", Vals: unitVals}, {Setter: "WithPrivateKey", Getter: "PrivateKey", Vals: pkVals}}}
	out = append(out, gpSpec)
	gps := []genesis_privates.Private{}
	for _, u := range unitObjs {
		gps = append(gps, must(genesis_privates.NewPrivateBuilder().Create().WithUnit(u).WithPrivateKey(keys[0]).Now()).(genesis_privates.Private))
	}
	out = append(out, &Spec{Name: "genesis privates", Hashed: true, New: func() interface{} { return genesis_privates.NewBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "List", Vals: lists(3, depth, func(idx []int) interface{} {
			l := []genesis_privates.Private{}
			for _, i := range idx {
				l = append(l, gps[i])
			}
			return l
		})}}})

	// transactions
	hashVals := func(labels ...string) []Val {
		vals := []Val{}
		for _, l := range labels {
			vals = append(vals, Val{Label: l, V: H(l)})
		}
		return vals
	}
	origin := func(u genesis.Unit, t transactions.Transaction) transactions.Origin {
		b := transactions.NewOriginBuilder().Create()
		if u != nil {
			b = b.WithGenesis(u)
		}
		if t != nil {
			b = b.WithTransaction(t)
		}
		return must(b.Now()).(transactions.Origin)
	}
	sign := func(msg string, n int) signature.RingSignature {
		s, err := keys[0].RingSign(msg, pubs[:n])
		if err != nil {
			panic(err)
		}
		return s
	}
	content := func(r rings.Ring, amount string, o transactions.Origin, ext string, sec int64) transactions.Content {
		return must(transactions.NewContentBuilder().Create().WithOwner(r).WithAmount(H(amount)).WithOrigin(o).WithExternal(H(ext)).CreatedOn(at(sec)).Now()).(transactions.Content)
	}
	auths := []signature.RingSignature{sign("m", 1), sign("m", 2), sign("other", 2)}
	trx := func(c transactions.Content, a signature.RingSignature) transactions.Transaction {
		return must(transactions.NewTransactionBuilder().Create().WithContent(c).WithAuthorization(a).Now()).(transactions.Transaction)
	}
	o0, o1 := origin(unitObjs[0], nil), origin(unitObjs[1], nil)
	c0 := content(ringObjs[0], "am", o0, "ex", 50)
	t0 := trx(c0, auths[0])
	c1 := content(ringObjs[1], "am", origin(nil, t0), "ex", 50)
	t1 := trx(c1, auths[1])
	t2 := trx(c1, auths[2])
	trxObjs := []transactions.Transaction{t0, t1, t2}
	trxVals := []Val{{Label: "nil", Missing: true}}
	for i, t := range trxObjs {
		trxVals = append(trxVals, Val{Label: fmt.Sprint("trx", i), V: t})
	}
	out = append(out, &Spec{Name: "origin from a genesis unit", Hashed: true, New: func() interface{} { return transactions.NewOriginBuilder() },
		Fields: []Field{{Setter: "WithGenesis", Getter: "Genesis", Has: "IsGenesis", Vals: unitVals}, {Setter: "WithTransaction", Getter: "", Optional: true, Vals: nil}}})
	out = append(out, &Spec{Name: "origin from a transaction", Hashed: true, New: func() interface{} { return transactions.NewOriginBuilder() },
		Fields: []Field{{Setter: "WithTransaction", Getter: "Transaction", Has: "IsTransaction", Vals: trxVals}}})
	originVals := []Val{{Label: "nil", Missing: true}, {Label: "o0", V: o0}, {Label: "o1", V: o1}, {Label: "ot0", V: origin(nil, t0)}, {Label: "ot1", V: origin(nil, t1)}}
	out = append(out, &Spec{Name: "transaction content", Hashed: true, New: func() interface{} { return transactions.NewContentBuilder() },
		Fields: []Field{
			{Setter: "WithOwner", Getter: "Owner", Vals: ringVals},
			{Setter: "WithAmount", Getter: "Amount", Vals: hashVals("am", "an", "ex")},
			{Setter: "WithOrigin", Getter: "Origin", Vals: originVals},
			{Setter: "WithExternal", Getter: "External", Vals: hashVals("ex", "am", "ey")},
			{Setter: "CreatedOn", Getter: "CreatedOn", Vals: times(5, 6, 65)},
		}})
	contVals := []Val{{Label: "nil", Missing: true}, {Label: "c0", V: c0}, {Label: "c1", V: c1}, {Label: "c2", V: content(ringObjs[1], "az", o1, "ex", 51)}}
	authVals := []Val{{Label: "nil", Missing: true}}
	for i, a := range auths {
		authVals = append(authVals, Val{Label: fmt.Sprint("auth", i), V: a})
	}
	out = append(out, &Spec{Name: "transaction", Hashed: true, New: func() interface{} { return transactions.NewTransactionBuilder() },
		Fields: []Field{{Setter: "WithContent", Getter: "Content", Vals: contVals}, {Setter: "WithAuthorization", Getter: "Authorization", Vals: authVals}}})
	mkTrx := func(idx []int) interface{} {
		l := []transactions.Transaction{}
		for _, i := range idx {
			l = append(l, trxObjs[i])
		}
		return l
	}
	out = append(out, &Spec{Name: "transactions", Hashed: true, New: func() interface{} { return transactions.NewBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "List", Vals: lists(3, depth, mkTrx)}}})
	mkTrxs := func(idx ...int) transactions.Transactions {
		return must(transactions.NewBuilder().Create().WithList(mkTrx(idx).([]transactions.Transaction)).Now()).(transactions.Transactions)
	}

	// secrets
	hA := H("a")
	raw := string(hA[:])
	secret := func(amount uint, nonce string, t transactions.Transaction, o secrets.Secret, s secrets.Secrets) secrets.Secret {
		b := secrets.NewSecretBuilder().Create().WithAmount(amount).WithNonce(nonce).WithPublic(t)
		if o != nil {
			b = b.WithOrigin(o)
		}
		if s != nil {
			b = b.WithSides(s)
		}
		return must(b.Now()).(secrets.Secret)
	}
	s0, s1 := secret(1, "n", t0, nil, nil), secret(2, "n", t0, nil, nil)
	s2 := secret(2, "n", t1, s0, nil)
	secObjs := []secrets.Secret{s0, s1, s2}
	secVals := []Val{{Label: "nil", Missing: true}}
	for i, s := range secObjs {
		secVals = append(secVals, Val{Label: fmt.Sprint("secret", i), V: s})
	}
	mkSec := func(idx []int) interface{} {
		l := []secrets.Secret{}
		for _, i := range idx {
			l = append(l, secObjs[i])
		}
		return l
	}
	sidesVals := []Val{{Label: "nil", Missing: true}}
	for _, idx := range [][]int{{0}, {1}, {0, 1}, {1, 0}, {2}} {
		sidesVals = append(sidesVals, Val{Label: fmt.Sprint("sides", idx), V: must(secrets.NewBuilder().Create().WithList(mkSec(idx).([]secrets.Secret)).Now())})
	}
	h0, hs := s0.Hash(), s2.Hash()
	secNonces := append(append([]Val{}, nonces...), Val{Label: "raw", V: raw}, Val{Label: "x+h0", V: "x" + string(h0[:])}, Val{Label: "x+h2", V: "x" + string(hs[:])})
	out = append(out, &Spec{Name: "secret", Hashed: true, New: func() interface{} { return secrets.NewSecretBuilder() },
		Fields: []Field{
			{Setter: "WithAmount", Getter: "Amount", Vals: amounts[:5]},
			{Setter: "WithNonce", Getter: "Nonce", Vals: secNonces},
			{Setter: "WithPublic", Getter: "Public", Vals: trxVals},
			{Setter: "WithOrigin", Getter: "Origin", Has: "HasOrigin", Optional: true, Vals: secVals},
			{Setter: "WithSides", Getter: "Sides", Has: "HasSides", Optional: true, Vals: sidesVals},
		}})
	out = append(out, &Spec{Name: "secrets", Hashed: true, New: func() interface{} { return secrets.NewBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "List", Vals: lists(3, depth, mkSec)}}})

	// receipts
	sig := func(k int, msg string) signature.Signature {
		s, err := keys[k].Sign(msg)
		if err != nil {
			panic(err)
		}
		return s
	}
	sigObjs := []signature.Signature{sig(0, "a"), sig(0, "b"), sig(1, "a")}
	sigVals := []Val{{Label: "nil", Missing: true}}
	for i, s := range sigObjs {
		sigVals = append(sigVals, Val{Label: fmt.Sprint("sig", i), V: s})
	}
	out = append(out, &Spec{Name: "receipt", Hashed: true, New: func() interface{} { return receipts.NewBuilder() },
		Fields: []Field{{Setter: "WithSecret", Getter: "Secret", Vals: secVals}, {Setter: "WithSignature", Getter: "Signature", Vals: sigVals}}})
	receipt := func(s, g int) receipts.Receipt {
		return must(receipts.NewBuilder().Create().WithSecret(secObjs[s]).WithSignature(sigObjs[g]).Now()).(receipts.Receipt)
	}
	recVals := []Val{{Label: "nil", Missing: true}, {Label: "r00", V: receipt(0, 0)}, {Label: "r10", V: receipt(1, 0)}, {Label: "r01", V: receipt(0, 1)}}
	out = append(out, &Spec{Name: "private transaction", Hashed: true, New: func() interface{} { return privates.NewPrivateBuilder() },
		Fields: []Field{{Setter: "WithPrivateKey", Getter: "PrivateKey", Vals: pkVals}, {Setter: "WithReceipt", Getter: "Receipt", Vals: recVals}}})
	privObjs := []privates.Private{}
	for k := 0; k < 3; k++ {
		privObjs = append(privObjs, must(privates.NewPrivateBuilder().Create().WithPrivateKey(keys[k]).WithReceipt(receipt(k, k)).Now()).(privates.Private))
	}
	mkPriv := func(idx []int) interface{} {
		l := []privates.Private{}
		for _, i := range idx {
			l = append(l, privObjs[i])
		}
		return l
	}
	out = append(out, &Spec{Name: "private transactions", Hashed: true, New: func() interface{} { return privates.NewBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "List", Vals: lists(3, depth, mkPriv)}}})

	// chains
	trxsVals := []Val{{Label: "nil", Missing: true}, {Label: "t0", V: mkTrxs(0)}, {Label: "t1", V: mkTrxs(1)}, {Label: "t01", V: mkTrxs(0, 1)}, {Label: "t10", V: mkTrxs(1, 0)}}
	out = append(out, &Spec{Name: "block", Hashed: true, New: func() interface{} { return chains.NewBlockBuilder() },
		Fields: []Field{
			{Setter: "WithHeight", Getter: "Height", Vals: amounts},
			{Setter: "WithFees", Getter: "Fees", Vals: ringVals},
			{Setter: "WithTransactions", Getter: "Transactions", Vals: trxsVals},
			{Setter: "CreatedOn", Getter: "CreatedOn", Vals: times(5, 6, 65)},
			{Setter: "WithPrevious", Getter: "Previous", Has: "HasPrevious", Optional: true, Vals: hashVals("p", "q")},
		}})
	block := func(h uint, prev *hash.Hash) chains.Block {
		b := chains.NewBlockBuilder().Create().WithHeight(h).WithFees(ringObjs[0]).WithTransactions(mkTrxs(0)).CreatedOn(at(90))
		if prev != nil {
			b = b.WithPrevious(*prev)
		}
		return must(b.Now()).(chains.Block)
	}
	b0 := block(1, nil)
	bh := b0.Hash()
	id := func(i byte) uuid.UUID { return uuid.UUID{i, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, i} }
	out = append(out, &Spec{Name: "chain", Hashed: true, New: func() interface{} { return chains.NewBuilder() },
		Fields: []Field{
			{Setter: "WithID", Getter: "ID", Vals: []Val{{Label: "id0", V: id(0)}, {Label: "id1", V: id(1)}, {Label: "nil id", V: uuid.UUID{}}}},
			{Setter: "WithRoot", Getter: "Root", Vals: hashVals("root", "other")},
			{Setter: "CreatedOn", Getter: "CreatedOn", Vals: times(5, 6, 65)},
			{Setter: "WithHead", Getter: "Head", Has: "HasHead", Optional: true, Vals: []Val{{Label: "nil", Missing: true}, {Label: "b0", V: b0}, {Label: "b1", V: block(1, &bh)}, {Label: "b2", V: block(2, &bh)}}},
		}})

	// identities
	outs := must(privates.NewBuilder().Create().WithList(privObjs[:2]).Now()).(privates.Privates)
	outs2 := must(privates.NewBuilder().Create().WithList(privObjs[1:]).Now()).(privates.Privates)
	ins := must(secrets.NewBuilder().Create().WithList(secObjs[:1]).Now()).(secrets.Secrets)
	ins2 := must(secrets.NewBuilder().Create().WithList(secObjs).Now()).(secrets.Secrets)
	outVals := []Val{{Label: "nil", Missing: true}, {Label: "outs", V: outs}, {Label: "outs2", V: outs2}}
	inVals := []Val{{Label: "nil", Missing: true}, {Label: "ins", V: ins}, {Label: "ins2", V: ins2}}
	out = append(out, &Spec{Name: "identity transactions", New: func() interface{} { return identities.NewTransactionsBuilder() },
		Fields: []Field{
			{Setter: "WithOutgoing", Getter: "Outgoing", Has: "HasOutgoing", Optional: true, Vals: outVals},
			{Setter: "WithIncoming", Getter: "Incoming", Has: "HasIncoming", Optional: true, Vals: inVals},
		}})
	itrx := func(b identities.TransactionsBuilder) identities.Transactions {
		return must(b.Now()).(identities.Transactions)
	}
	nb := identities.NewTransactionsBuilder
	itVals := []Val{{Label: "nil", Missing: true}, {Label: "none", V: itrx(nb())}, {Label: "out", V: itrx(nb().WithOutgoing(outs))}, {Label: "in", V: itrx(nb().WithIncoming(ins))}, {Label: "both", V: itrx(nb().WithIncoming(ins).WithOutgoing(outs))}}
	out = append(out, &Spec{Name: "identity", New: func() interface{} { return identities.NewBuilder() },
		Fields: []Field{
			{Setter: "WithName", Getter: "Name", Vals: []Val{{Label: "", V: "", Missing: true}, {Label: "n", V: "n"}, {Label: "m", V: "m"}}},
			{Setter: "WithTransactions", Getter: "Transactions", Vals: itVals},
			{Setter: "WithGenesis", Getter: "Genesis", Has: "HasGenesis", Optional: true, Vals: outVals},
		}})
	// peers
	peerObjs := []peers.Peer{}
	for i := uint(0); i < 3; i++ {
		peerObjs = append(peerObjs, must(peers.NewPeerBuilder(":").Create().WithHost("h").WithPort(i).Now()).(peers.Peer))
	}
	out = append(out, &Spec{Name: "peers", New: func() interface{} { return peers.NewBuilder() },
		Fields: []Field{{Setter: "WithList", Getter: "List", Vals: lists(3, depth, func(idx []int) interface{} {
			l := []peers.Peer{}
			for _, i := range idx {
				l = append(l, peerObjs[i])
			}
			return l
		})}}})
	return out
}
