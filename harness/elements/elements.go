// Package elements explores the builders of a model described as a table: every field of every kind of
// element, mandatory, optional, one alternative out of several, or a flag. The values explored for a field
// are elements that the table built before, so that a world of elements grows bottom up.
package elements

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// Mode tells what a field is to its element.
type Mode byte

const (
	Must Mode = iota // the element is not built without it
	Opt              // may be left out
	Alt              // exactly one of the alternatives is given
	Flag             // a setter without argument
)

// Val is one value of a field.
type Val struct {
	Label   string
	V       interface{} // nil: the setter is called with nil
	Missing bool        // counts as not given
}

// Field is one field of a kind of element.
type Field struct {
	Set, Get, Has string
	Mode          Mode
	Vals          []Val                            // nil: taken from the world
	Default       interface{}                      // what the getter says when it was not given, when that is not nothing
	EmptyIsGiven  bool                             // an empty list is a value
	ZeroIsGiven   bool                             // an empty text is a value
	GetFn         func(o interface{}) interface{}  // instead of Get
	HasFn         func(o interface{}) bool         // instead of Has
	SameFn        func(got, want interface{}) bool // instead of equality
	list          reflect.Type                     // of what it is a list, when its values were taken from the world
}

// Kind is one kind of element.
type Kind struct {
	Name   string
	New    func() interface{}
	Fields []Field
	// Rule is what else must hold.
	Rule func(v []*Val) bool
	// Free tells that the verdict on these values is not claimed.
	Free func(v []*Val) bool
	// Extra is checked on what was built; it returns what is wrong.
	Extra func(o interface{}, v []*Val) string
}

type named struct {
	label string
	v     reflect.Value
}

// World keeps what was built, by type.
type World struct {
	pool  map[reflect.Type][]named
	wide  map[reflect.Type][]named // elements that share some of their values
	Kinds []*Kind
}

// New returns an empty world.
func New() *World { return &World{pool: map[reflect.Type][]named{}, wide: map[reflect.Type][]named{}} }

func method(o interface{}, name string) reflect.Value {
	m := reflect.ValueOf(o).MethodByName(name)
	if !m.IsValid() {
		panic(fmt.Sprintf("%T has no %s", o, name))
	}
	return m
}

func set(b interface{}, f *Field, v *Val) interface{} {
	m := method(b, f.Set)
	if f.Mode == Flag || m.Type().NumIn() == 0 {
		return m.Call(nil)[0].Interface()
	}
	arg := reflect.Zero(m.Type().In(0))
	if v.V != nil {
		arg = reflect.ValueOf(v.V)
	}
	return m.Call([]reflect.Value{arg})[0].Interface()
}

func create(b interface{}) interface{} { return method(b, "Create").Call(nil)[0].Interface() }

func now(b interface{}) (interface{}, error) {
	out := method(b, "Now").Call(nil)
	err, _ := out[1].Interface().(error)
	if out[0].IsNil() {
		return nil, err
	}
	return out[0].Interface(), err
}

// Put adds a value to the world, under an interface type given as (*T)(nil).
func (w *World) Put(typ interface{}, label string, v interface{}) {
	t := reflect.TypeOf(typ).Elem()
	w.put(t, label, reflect.ValueOf(v))
}

func (w *World) put(t reflect.Type, label string, v reflect.Value) {
	for _, x := range w.pool[t] {
		if reflect.DeepEqual(x.v.Interface(), v.Interface()) {
			return
		}
	}
	w.pool[t] = append(w.pool[t], named{label, v})
}

// Get returns the values of a type.
func (w *World) Get(typ interface{}) []interface{} {
	out := []interface{}{}
	for _, x := range w.pool[reflect.TypeOf(typ).Elem()] {
		out = append(out, x.v.Interface())
	}
	return out
}

func (w *World) values(f *Field, t reflect.Type, owner string) []Val {
	switch t.Kind() {
	case reflect.String:
		return []Val{{Label: "\"\"", V: "", Missing: !f.ZeroIsGiven}, {Label: "x", V: "x"}, {Label: "yé", V: "yé"}}
	case reflect.Bool:
		return []Val{{Label: "false", V: false}, {Label: "true", V: true}}
	case reflect.Uint:
		return []Val{{Label: "0", V: uint(0)}, {Label: "1", V: uint(1)}, {Label: "7", V: uint(7)}, {Label: "max31", V: uint(1<<31 - 1)}}
	case reflect.Slice:
		e := t.Elem()
		var items []reflect.Value
		labels := []string{}
		if e.Kind() == reflect.String {
			items, labels = []reflect.Value{reflect.ValueOf("p"), reflect.ValueOf("q")}, []string{"p", "q"}
		} else {
			for _, x := range w.pool[e] {
				items, labels = append(items, x.v), append(labels, x.label)
			}
		}
		if len(items) < 2 {
			panic(fmt.Sprintf("%s: less than two values for %s of %s", owner, f.Set, t))
		}
		if len(items) > 3 {
			items, labels = items[:3], labels[:3]
		}
		out := []Val{{Label: "nil", Missing: !f.EmptyIsGiven}, {Label: "empty", V: reflect.MakeSlice(t, 0, 0).Interface(), Missing: !f.EmptyIsGiven}}
		for _, idx := range [][]int{{0}, {1}, {0, 1}, {1, 0}, {0, 0}, {1, 0, 1}, {2}, {2, 1, 0}} {
			s := reflect.MakeSlice(t, 0, 0)
			l := []string{}
			ok := true
			for _, i := range idx {
				if i >= len(items) {
					ok = false
					break
				}
				s = reflect.Append(s, items[i])
				l = append(l, labels[i])
			}
			if ok {
				out = append(out, Val{Label: "[" + strings.Join(l, " ") + "]", V: s.Interface()})
			}
		}
		return out
	}
	out := []Val{}
	if t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr || t.Kind() == reflect.Map {
		out = append(out, Val{Label: "nil", Missing: true})
	}
	for _, x := range w.pool[t] {
		out = append(out, Val{Label: x.label, V: x.v.Interface()})
	}
	if len(out) < 3 {
		panic(fmt.Sprintf("%s: less than two values for %s of %s", owner, f.Set, t))
	}
	return out
}

// Add completes a kind with values of the world, and adds some of its elements to the world.
func (w *World) Add(k *Kind) *Kind {
	b := k.New()
	for i := range k.Fields {
		f := &k.Fields[i]
		if f.Mode == Flag {
			f.Vals = []Val{{Label: "yes", V: true}}
			continue
		}
		if f.Vals == nil {
			t := method(b, f.Set).Type().In(0)
			f.Vals = w.values(f, t, k.Name)
			if t.Kind() == reflect.Slice {
				f.list = t.Elem()
			}
		}
	}
	w.Kinds = append(w.Kinds, k)
	// examples: each one different from the others
	result := method(b, "Now").Type().Out(0)
	try := func(pick func(i int, f *Field, good []Val) *Val) {
		choice := make([]*Val, len(k.Fields))
		labels := []string{}
		for i := range k.Fields {
			good := []Val{}
			for _, v := range k.Fields[i].Vals {
				if !v.Missing {
					good = append(good, v)
				}
			}
			choice[i] = pick(i, &k.Fields[i], good)
			if choice[i] != nil {
				labels = append(labels, choice[i].Label)
			}
		}
		if !k.valid(choice) || k.free(choice) {
			return
		}
		o, err := k.build(create(k.New()), choice, false)
		if err != nil || o == nil {
			return // the exploration reports it
		}
		label := k.Name + "(" + strings.Join(labels, ",") + ")"
		if len(label) > 60 {
			label = fmt.Sprintf("%s#%d", k.Name, len(w.pool[result]))
		}
		w.put(result, label, reflect.ValueOf(o))
	}
	alts := k.alternatives()
	if len(alts) == 0 {
		alts = []int{-1}
	}
	for n := 0; n < 2; n++ {
		for _, a := range alts {
			try(func(i int, f *Field, good []Val) *Val {
				switch {
				case f.Mode == Alt && i != a, f.Mode == Opt && n == 0, f.Mode == Flag && n == 0:
					return nil
				}
				at := n
				if at >= len(good) {
					at = len(good) - 1
				}
				if at < 0 {
					return nil
				}
				return &good[at]
			})
		}
	}
	w.spread(k)
	// the same with the last values
	try(func(i int, f *Field, good []Val) *Val {
		if f.Mode == Alt && i != alts[len(alts)-1] || f.Mode == Opt && i%2 == 0 || len(good) == 0 {
			return nil
		}
		return &good[len(good)-1]
	})
	return k
}

// spread adds elements of a kind to the wide pool: every combination of two values of each of its first fields.
func (w *World) spread(k *Kind) {
	result := method(k.New(), "Now").Type().Out(0)
	dims := []int{}
	good := [][]*Val{}
	combos := 1
	for i := range k.Fields {
		vals := []*Val{}
		f := &k.Fields[i]
		for v := range f.Vals {
			if f.Mode == Must && !f.Vals[v].Missing && len(vals) < 2 {
				vals = append(vals, &f.Vals[v])
			}
		}
		if f.Mode == Must && len(vals) == 2 && combos == 8 {
			vals = vals[:1]
		}
		if f.Mode != Must {
			vals = []*Val{nil}
		}
		if len(vals) == 0 {
			return
		}
		combos *= len(vals)
		good, dims = append(good, vals), append(dims, len(vals))
	}
	vlib.Product(dims, func(idx []int) {
		choice := make([]*Val, len(k.Fields))
		for i := range idx {
			choice[i] = good[i][idx[i]]
		}
		if !k.valid(choice) || k.free(choice) {
			return
		}
		if o, err := k.build(create(k.New()), choice, false); err == nil && o != nil {
			w.wide[result] = append(w.wide[result], named{fmt.Sprint(k.Name, idx), reflect.ValueOf(o)})
		}
	})
}

// lists explores the lists of a kind: every sequence of elements, of which some share a part of their values.
func (k *Kind) lists(w *World, r *vlib.R) {
	for fi := range k.Fields {
		f := &k.Fields[fi]
		if f.list == nil {
			continue
		}
		items := []named{}
		if f.list.Kind() == reflect.String {
			for _, s := range []string{"p", "q", "pq", "é"} {
				items = append(items, named{s, reflect.ValueOf(s)})
			}
		}
		for _, pool := range [][]named{w.wide[f.list], w.pool[f.list]} {
			for _, x := range pool {
				if len(items) < 8 {
					items = append(items, x)
				}
			}
		}
		base := make([]*Val, len(k.Fields))
		for i := range k.Fields {
			if i == fi || k.Fields[i].Mode != Must {
				continue
			}
			for v := range k.Fields[i].Vals {
				if !k.Fields[i].Vals[v].Missing {
					base[i] = &k.Fields[i].Vals[v]
					break
				}
			}
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			if len(seq) > 0 {
				id := fmt.Sprintf("list:%s:%s:%v", k.Name, f.Set, seq)
				if r.State(id) {
					r.Section("lists", 1)
					s := reflect.MakeSlice(reflect.SliceOf(f.list), 0, 0)
					for _, x := range seq {
						s = reflect.Append(s, items[x].v)
					}
					choice := append([]*Val{}, base...)
					choice[fi] = &Val{Label: fmt.Sprint(seq), V: s.Interface()}
					r.Case(id, func() {
						o, err := k.build(create(k.New()), choice, false)
						r.Step(1)
						k.verdict(r, o, err, choice)
					})
				}
			}
			if len(seq) == r.Pick(3, 4) || r.Expired("lists") {
				return
			}
			for x := range items {
				rec(append(append([]int{}, seq...), x))
			}
		}
		rec(nil)
	}
}

func (k *Kind) alternatives() []int {
	out := []int{}
	for i := range k.Fields {
		if k.Fields[i].Mode == Alt {
			out = append(out, i)
		}
	}
	return out
}

func (k *Kind) build(b interface{}, choice []*Val, backwards bool) (interface{}, error) {
	for x := range k.Fields {
		i := x
		if backwards {
			i = len(k.Fields) - 1 - x
		}
		if choice[i] != nil {
			b = set(b, &k.Fields[i], choice[i])
		}
	}
	return now(b)
}

func given(v *Val) bool { return v != nil && !v.Missing }

func (k *Kind) valid(choice []*Val) bool {
	alts, has := 0, 0
	for i := range k.Fields {
		switch k.Fields[i].Mode {
		case Must:
			if !given(choice[i]) {
				return false
			}
		case Alt:
			alts++
			if given(choice[i]) {
				has++
			}
		}
	}
	if alts > 0 && has == 0 {
		return false
	}
	return k.Rule == nil || k.Rule(choice)
}

// free: more than one alternative was given.
func (k *Kind) free(choice []*Val) bool {
	n := 0
	for _, i := range k.alternatives() {
		if given(choice[i]) {
			n++
		}
	}
	return n > 1 || k.Free != nil && k.Free(choice)
}

func (k *Kind) content(choice []*Val) string {
	out := []string{}
	for i := range k.Fields {
		l := "-"
		if choice[i] != nil {
			l = choice[i].Label
		}
		out = append(out, fmt.Sprintf("%s=%s", k.Fields[i].Set, l))
	}
	return strings.Join(out, " ")
}

func (f *Field) get(o interface{}) interface{} {
	if f.GetFn != nil {
		return f.GetFn(o)
	}
	out := method(o, f.Get).Call(nil)[0]
	if out.Kind() == reflect.Ptr && !out.IsNil() && out.Elem().Kind() != reflect.Struct {
		return out.Elem().Interface()
	}
	return out.Interface()
}

func (f *Field) has(o interface{}) (bool, bool) {
	if f.HasFn != nil {
		return f.HasFn(o), true
	}
	if f.Has == "" {
		return false, false
	}
	return method(o, f.Has).Call(nil)[0].Bool(), true
}

func nothing(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Slice, reflect.Map:
		return r.Len() == 0
	}
	return r.IsZero()
}

func (f *Field) same(got, want interface{}) bool {
	if f.SameFn != nil {
		return f.SameFn(got, want)
	}
	if want == nil || reflect.ValueOf(want).Kind() == reflect.Slice && reflect.ValueOf(want).Len() == 0 {
		return nothing(got)
	}
	return reflect.DeepEqual(got, want)
}

// check compares an element with what was given. It returns what differs.
func (k *Kind) check(o interface{}, choice []*Val) string {
	free := k.free(choice)
	reported := 0
	for i := range k.Fields {
		f := &k.Fields[i]
		is := given(choice[i])
		if f.Mode == Flag {
			if f.Get == "" && f.GetFn == nil {
				continue
			}
			if got := f.get(o).(bool); got != is && !free {
				return fmt.Sprintf("%s is %v", f.Get, got)
			}
			continue
		}
		has, known := f.has(o)
		if free && f.Mode == Alt {
			if !known || !has {
				continue
			}
			reported++
			if !is {
				return fmt.Sprintf("%s is reported, it was not given", f.Has)
			}
		}
		if known && has != is {
			return fmt.Sprintf("%s is %v", f.Has, has)
		}
		if f.Get == "" && f.GetFn == nil {
			continue
		}
		if !is {
			if known && f.GetFn != nil {
				continue
			}
			got := f.get(o)
			if f.Default != nil {
				if !reflect.DeepEqual(got, f.Default) {
					return fmt.Sprintf("%s is %v, it was not given", f.Get, got)
				}
				continue
			}
			if !nothing(got) {
				return fmt.Sprintf("%s is %v, it was not given", f.Get, got)
			}
			continue
		}
		if got := f.get(o); !f.same(got, choice[i].V) {
			return fmt.Sprintf("%s is %v, given %v", f.Get, got, choice[i].Label)
		}
	}
	if free && reported > 1 {
		return "more than one alternative is reported"
	}
	if k.Extra != nil {
		return k.Extra(o, choice)
	}
	return ""
}

func (k *Kind) verdict(r *vlib.R, o interface{}, err error, choice []*Val) {
	if err != nil && o != nil {
		vlib.Failf("%s with %s: an error and an element", k.Name, k.content(choice))
	}
	if err == nil && o == nil {
		vlib.Failf("%s with %s: neither an element nor an error", k.Name, k.content(choice))
	}
	if k.free(choice) {
		if err == nil {
			if d := k.check(o, choice); d != "" {
				vlib.Failf("%s with %s: %s", k.Name, k.content(choice), d)
			}
		}
		return
	}
	if !k.valid(choice) {
		r.Outcome(k.Name + " refused")
		if err == nil {
			vlib.Failf("%s with %s was built", k.Name, k.content(choice))
		}
		return
	}
	r.Outcome(k.Name + k.content(choice))
	if err != nil {
		vlib.Failf("%s with %s was refused: %s", k.Name, k.content(choice), err)
	}
	if d := k.check(o, choice); d != "" {
		vlib.Failf("%s with %s: %s", k.Name, k.content(choice), d)
	}
}

// Run builds a world and explores it.
func Run(r *vlib.R, build func() *World, more func(w *World)) {
	var w *World
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Case("world", func() { vlib.Failf("the elements to explore cannot be built: %v", p) })
			}
		}()
		w = build()
	}()
	if w == nil {
		return
	}
	w.Explore(r)
	if more != nil {
		more(w)
	}
}

// Explore runs every kind of the world.
func (w *World) Explore(r *vlib.R) {
	for _, k := range w.Kinds {
		k := k
		k.product(r)
		k.startOver(r)
		k.histories(r)
		k.lists(w, r)
		r.Section("kinds", 1)
	}
}

// choices enumerates the values of all the fields: the full product of what is no alternative, times every
// value of every alternative, times every pair of alternatives.
func (k *Kind) choices(limit int, f func(choice []*Val, id string)) {
	alts := k.alternatives()
	rest := []int{}
	dims := []int{}
	for i := range k.Fields {
		if k.Fields[i].Mode != Alt {
			rest = append(rest, i)
			n := len(k.Fields[i].Vals)
			if limit > 0 && n > limit {
				n = limit
			}
			dims = append(dims, n+1)
		}
	}
	product := func(base []*Val, tag string) {
		do := func(idx []int) {
			choice := append([]*Val{}, base...)
			for x, i := range rest {
				if idx[x] > 0 {
					choice[i] = &k.Fields[i].Vals[idx[x]-1]
				}
			}
			f(choice, fmt.Sprintf("%s:%v", tag, idx))
		}
		if len(rest) == 0 {
			do(nil)
			return
		}
		vlib.Product(dims, do)
	}
	none := make([]*Val, len(k.Fields))
	product(none, "-")
	for ai, a := range alts {
		for vi := range k.Fields[a].Vals {
			one := append([]*Val{}, none...)
			one[a] = &k.Fields[a].Vals[vi]
			product(one, fmt.Sprintf("%d.%d", a, vi))
		}
		for _, c := range alts[ai+1:] {
			va, vc := k.Fields[a].Vals, k.Fields[c].Vals
			two := append([]*Val{}, none...)
			two[a], two[c] = &va[len(va)-1], &vc[len(vc)-1]
			product(two, fmt.Sprintf("%d+%d", a, c))
			// an alternative and another one that counts as not given
			if va[0].Missing {
				two := append([]*Val{}, none...)
				two[a], two[c] = &va[0], &vc[len(vc)-1]
				product(two, fmt.Sprintf("%d-%d", a, c))
			}
			if vc[0].Missing {
				two := append([]*Val{}, none...)
				two[a], two[c] = &va[len(va)-1], &vc[0]
				product(two, fmt.Sprintf("%d~%d", a, c))
			}
		}
	}
}

func (k *Kind) product(r *vlib.R) {
	k.choices(0, func(choice []*Val, id string) {
		id = k.Name + ":" + id
		if !r.State(id) {
			return
		}
		r.Section("product", 1)
		r.Case(id, func() {
			for _, backwards := range []bool{false, true} {
				o, err := k.build(create(k.New()), choice, backwards)
				r.Step(1)
				k.verdict(r, o, err, choice)
			}
			// without starting over first
			o, err := k.build(k.New(), choice, false)
			r.Step(1)
			k.verdict(r, o, err, choice)
		})
	})
}

// startOver: whatever a builder was given before it starts over, built or not, leaves no trace.
func (k *Kind) startOver(r *vlib.R) {
	all := make([]*Val, len(k.Fields))
	for i := range k.Fields {
		v := k.Fields[i].Vals
		all[i] = &v[len(v)-1]
	}
	befores := [][]*Val{all}
	for i := range k.Fields {
		one := make([]*Val, len(k.Fields))
		one[i] = all[i]
		befores = append(befores, one)
	}
	for bi, before := range befores {
		for _, built := range []bool{true, false} {
			before, built := before, built
			k.choices(3, func(choice []*Val, id string) {
				id = fmt.Sprintf("startover:%s:%d:%v:%s", k.Name, bi, built, id)
				if !r.State(id) {
					return
				}
				r.Section("start over", 1)
				r.Case(id, func() {
					b := create(k.New())
					for i := range k.Fields {
						if before[i] != nil {
							b = set(b, &k.Fields[i], before[i])
						}
					}
					if built {
						o, err := now(b)
						k.verdict(r, o, err, before)
					}
					o, err := k.build(create(b), choice, false)
					r.Step(2)
					k.verdict(r, o, err, choice)
					r.Nontrivial()
				})
			})
		}
	}
}

type op struct {
	kind  string
	field int
	val   *Val
}

// histories explores every sequence of calls.
func (k *Kind) histories(r *vlib.R) {
	ops := []op{{kind: "now"}, {kind: "create"}}
	for i := range k.Fields {
		f := &k.Fields[i]
		picked, missing := 0, false
		for v := range f.Vals {
			x := &f.Vals[v]
			if x.Missing {
				if !missing {
					ops, missing = append(ops, op{"set", i, x}), true
				}
				continue
			}
			if picked < 2 {
				ops = append(ops, op{"set", i, x})
				picked++
			}
		}
	}
	depthFor := func(budget int) int {
		d, total := 0, 1
		for total*len(ops) <= budget && d < 6 {
			d++
			total *= len(ops)
		}
		if d < 3 {
			d = 3
		}
		return d
	}
	run := func(seq []int) {
		id := fmt.Sprintf("history:%s:%v", k.Name, seq)
		if !r.State(id) {
			return
		}
		r.Case(id, func() {
			b := create(k.New())
			choice := make([]*Val, len(k.Fields))
			type built struct {
				o      interface{}
				choice []*Val
			}
			olds := []built{}
			for _, x := range seq {
				o := ops[x]
				r.Step(1)
				switch o.kind {
				case "create":
					b = create(b)
					choice = make([]*Val, len(k.Fields))
				case "now":
					obj, err := now(b)
					k.verdict(r, obj, err, choice)
					if err == nil && !k.free(choice) {
						olds = append(olds, built{obj, append([]*Val{}, choice...)})
					}
				case "set":
					b = set(b, &k.Fields[o.field], o.val)
					choice[o.field] = o.val
				}
			}
			// what was built earlier is still what it was
			for _, p := range olds {
				if d := k.check(p.o, p.choice); d != "" {
					vlib.Failf("%s: an element that was built changed when its builder went on: %s", k.Name, d)
				}
			}
			if len(olds) > 1 {
				r.Nontrivial()
			}
		})
	}
	var rec func(seq []int, depth int)
	rec = func(seq []int, depth int) {
		if len(seq) > 0 && ops[seq[len(seq)-1]].kind == "now" {
			run(append([]int{}, seq...))
			r.Section("histories", 1)
		}
		if depth == 0 || r.Expired("histories") {
			return
		}
		for x := range ops {
			rec(append(seq, x), depth-1)
		}
	}
	budget := r.Pick(60000, 2000000)
	rec([]int{}, depthFor(budget))
	// from a builder to which everything was given: one of the alternatives at a time
	alts := k.alternatives()
	if len(alts) == 0 {
		alts = []int{-1}
	}
	for _, a := range alts {
		base := []int{}
		for i := range k.Fields {
			if k.Fields[i].Mode == Alt && i != a {
				continue
			}
			for x, o := range ops {
				if o.kind == "set" && o.field == i && !o.val.Missing {
					base = append(base, x)
					break
				}
			}
		}
		rec(base, depthFor(budget/len(alts)))
	}
}
