// C26: the elements of the model of a program: every builder, every history of calls.
package main

import (
	"fmt"
	"reflect"

	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	. "github.com/steve-care-software/steve/zz_verif/elements"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

func must(s, g string) Field   { return Field{Set: s, Get: g, Mode: Must} }
func opt(s, g, h string) Field { return Field{Set: s, Get: g, Has: h, Mode: Opt} }
func alt(s, g, h string) Field { return Field{Set: s, Get: g, Has: h, Mode: Alt} }
func flag(s, g string) Field   { return Field{Set: s, Get: g, Mode: Flag} }
func altFlag(s, h string) Field { // an alternative without a value
	return Field{Set: s, Has: h, Mode: Alt, Vals: []Val{{Label: "yes", V: true}}}
}

func value(v interface{}, err error) interface{} {
	if err != nil {
		vlib.Failf("a seed was refused: %s", err)
	}
	return v
}

func world() *World {
	w := New()
	typeFlags := []Val{{Label: "int", V: parsers.TypeIntegerFlag}, {Label: "uint", V: parsers.TypeIntegerFlag | parsers.TypeUnsignedFlag}, {Label: "float", V: parsers.TypeFloatFlag}, {Label: "string", V: parsers.TypeStringFlag}, {Label: "bool", V: parsers.TypeBoolFlag}}
	w.Add(&Kind{Name: "type", New: func() interface{} { return parsers.NewTypeBuilder() }, Fields: []Field{
		{Set: "WithFlag", Get: "Flag", Mode: Must, Vals: typeFlags},
		{Set: "WithDept", Get: "Dept", Mode: Opt, Default: uint(0)},
	}})
	kind := func(want uint8) func(o interface{}) bool {
		return func(o interface{}) bool {
			t := o.(parsers.Value).Type()
			return t.Flag() == want && t.Dept() == 0
		}
	}
	el := func(o interface{}) interface{} { return o.(parsers.Value).Element() }
	w.Add(&Kind{Name: "value", New: func() interface{} { return parsers.NewValueBuilder() }, Fields: []Field{
		{Set: "WithUint", Mode: Alt, GetFn: el, HasFn: kind(parsers.TypeIntegerFlag | parsers.TypeUnsignedFlag)},
		{Set: "WithInt", Mode: Alt, GetFn: el, HasFn: kind(parsers.TypeIntegerFlag), Vals: []Val{{Label: "-1", V: -1}, {Label: "0", V: 0}, {Label: "5", V: 5}}},
		{Set: "WithFloat", Mode: Alt, GetFn: el, HasFn: kind(parsers.TypeFloatFlag), Vals: []Val{{Label: "1.5", V: 1.5}, {Label: "-0.25", V: -0.25}, {Label: "0.0", V: 0.0}}},
		{Set: "WithBool", Mode: Alt, GetFn: el, HasFn: kind(parsers.TypeBoolFlag)},
		{Set: "WithString", Mode: Alt, GetFn: el, HasFn: kind(parsers.TypeStringFlag), ZeroIsGiven: true},
	}})
	w.Add(&Kind{Name: "value of a type", New: func() interface{} { return parsers.NewValueBuilder() }, Fields: []Field{
		must("WithType", "Type"),
		{Set: "WithElement", Get: "Element", Mode: Must, Vals: []Val{{Label: "nil", Missing: true}, {Label: "3", V: 3}, {Label: "x", V: "x"}, {Label: "false", V: false}}},
	}})
	w.Add(&Kind{Name: "variable declaration", New: func() interface{} { return parsers.NewVariableDeclarationBuilder() }, Fields: []Field{must("WithType", "Type"), must("WithName", "Name")}})
	w.Add(&Kind{Name: "variable declarations", New: func() interface{} { return parsers.NewVariableDeclarationsBuilder() }, Fields: []Field{must("WithDeclarations", "All")}})
	w.Add(&Kind{Name: "header variable", New: func() interface{} { return parsers.NewHeaderVariableBuilder() }, Fields: []Field{
		must("WithDeclaration", "Declaration"), must("WithKeyname", "Keyname"), flag("IsMandatory", "IsMandatory"), flag("IsInput", "IsInput"),
	}})
	w.Add(&Kind{Name: "header variables", New: func() interface{} { return parsers.NewHeaderVariablesBuilder() }, Fields: []Field{must("WithVariables", "All")}})
	w.Add(&Kind{Name: "index value", New: func() interface{} { return parsers.NewIndexValueBuilder() }, Fields: []Field{alt("WithValue", "Value", "IsValue"), alt("WithVariableName", "VariableName", "IsVariableName")}})
	w.Add(&Kind{Name: "slice delimiter", New: func() interface{} { return parsers.NewSliceDelimiterBuilder() }, Fields: []Field{must("WithIndex", "Index"), opt("WithAmount", "Amount", "HasAmount")}})

	// operations and lists refer to each other: the first ones are made of variables and values only
	elementOf := func(name string) parsers.OperationElement {
		return value(parsers.NewOperatonElementBuilder().Create().WithVariableName(name).Now()).(parsers.OperationElement)
	}
	for _, n := range []string{"a", "b"} {
		o := value(parsers.NewOperationBuilder().Create().WithElement(elementOf(n)).Now())
		w.Put((*parsers.Operation)(nil), "operation "+n, o)
		l := value(parsers.NewListValueBuilder().Create().WithVariableName("l" + n).Now())
		w.Put((*parsers.ListValue)(nil), "list "+n, l)
	}
	w.Add(&Kind{Name: "operation call", New: func() interface{} { return parsers.NewOperationFuncCallBuilder() }, Fields: []Field{alt("WithNull", "Null", "IsNull")}})
	names := []Val{{Label: "x", V: "x"}, {Label: "yé", V: "yé"}}
	w.Add(&Kind{Name: "operation element", New: func() interface{} { return parsers.NewOperatonElementBuilder() }, Fields: []Field{
		alt("WithBoolValue", "BoolValue", "IsBoolValue"), {Set: "WithVariableName", Get: "VariableName", Has: "IsVariableName", Mode: Alt, Vals: names},
		alt("WithComputableValue", "ComputableValue", "IsComputableValue"), alt("WithOperation", "Operation", "IsOperation"), alt("WithFuncCall", "FuncCall", "IsFuncCall"),
	}})
	ops := []Val{}
	for i, x := range []uint16{parsers.OpArithmetic | parsers.OpAriPlus, parsers.OpArithmetic | parsers.OpAriMinus, parsers.OpRelational | parsers.OpRelNot | parsers.OpRelEqual, parsers.OpLogical | parsers.OpLogAnd} {
		ops = append(ops, Val{Label: fmt.Sprint("op", i), V: x})
	}
	w.Add(&Kind{Name: "operation suffix", New: func() interface{} { return parsers.NewOperationSuffixBuilder() }, Fields: []Field{{Set: "WithOperator", Get: "Operator", Mode: Must, Vals: ops}, must("WithElement", "Element")}})
	w.Add(&Kind{Name: "operation", New: func() interface{} { return parsers.NewOperationBuilder() }, Fields: []Field{{Set: "WithElement", Mode: Must}, opt("WithSuffix", "Suffix", "HasSuffix")},
		// the operation around one operation, alone, is that operation
		Free: func(v []*Val) bool { return false },
		Extra: func(o interface{}, v []*Val) string {
			e := v[0].V.(parsers.OperationElement)
			op := o.(parsers.Operation)
			if e.IsOperation() && (v[1] == nil || v[1].Missing) {
				if !reflect.DeepEqual(op, e.Operation()) {
					return "the operation in parenthesis, alone, is another operation"
				}
				return ""
			}
			if !reflect.DeepEqual(op.Element(), e) {
				return fmt.Sprintf("the element is %v, given %s", op.Element(), v[0].Label)
			}
			if opt := op.Optimize(); !reflect.DeepEqual(opt, op) {
				return "an operation that cannot be made shorter was changed"
			}
			return ""
		}})

	// lists
	w.Add(&Kind{Name: "slice", New: func() interface{} { return parsers.NewSliceBuilder() }, Fields: []Field{must("WithList", "List"), must("WithDelimiter", "Delimiter")}})
	single := func(o parsers.Operation) interface{} {
		return value(parsers.NewSingleAssignableBuilder().Create().WithOperation(o).Now())
	}
	for i, o := range w.Get((*parsers.Operation)(nil))[:2] {
		w.Put((*parsers.SingleAssignable)(nil), fmt.Sprint("single ", i), single(o.(parsers.Operation)))
	}
	w.Add(&Kind{Name: "append", New: func() interface{} { return parsers.NewAppendBuilder() }, Fields: []Field{must("WithList", "List"), must("WithAssignable", "Assignable")}})
	w.Add(&Kind{Name: "whole list", New: func() interface{} { return parsers.NewTotalListAssignableBuilder() }, Fields: []Field{alt("WithListValue", "ListValue", "IsListValue"), alt("WithSlice", "Slice", "IsSlice"), alt("WithAppend", "Append", "IsAppend")}})
	w.Add(&Kind{Name: "list or variable", New: func() interface{} { return parsers.NewTotalListValueBuilder() }, Fields: []Field{alt("WithAssignable", "Assignable", "IsAssignable"), alt("WithVariableName", "VariableName", "IsVariableName")}})
	w.Add(&Kind{Name: "element of a list", New: func() interface{} { return parsers.NewListFetchElementBuilder() }, Fields: []Field{must("WithList", "List"), must("WithIndex", "Index")}})
	w.Add(&Kind{Name: "single assignable", New: func() interface{} { return parsers.NewSingleAssignableBuilder() }, Fields: []Field{
		alt("WithDeclarableValue", "DeclarableValue", "IsDeclarableValue"), alt("WithOperation", "Operation", "IsOperation"),
		alt("WithExtract", "Extract", "IsExtract"), alt("WithListFetchElement", "ListFetchElement", "IsListFetchElement"),
	}})
	w.Add(&Kind{Name: "assignable", New: func() interface{} { return parsers.NewAssignableBuilder() }, Fields: []Field{alt("WithList", "List", "IsList"), alt("WithSingle", "Single", "IsSingle")}})
	w.Add(&Kind{Name: "assignables", New: func() interface{} { return parsers.NewAssignablesBuilder() }, Fields: []Field{{Set: "WithAssignables", Get: "All", Mode: Opt}},
		Extra: func(o interface{}, v []*Val) string {
			a := o.(parsers.Assignables)
			if a.IsEmpty() != (len(a.All()) == 0) {
				return fmt.Sprintf("IsEmpty is %v with %d assignables", a.IsEmpty(), len(a.All()))
			}
			return ""
		}})
	w.Add(&Kind{Name: "list value", New: func() interface{} { return parsers.NewListValueBuilder() }, Fields: []Field{alt("WithAssignables", "Assignables", "IsAssignables"), alt("WithVariableName", "VariableName", "IsVariableName")}})

	// assignments
	w.Add(&Kind{Name: "assignee name", New: func() interface{} { return parsers.NewAssigneeNameBuilder() }, Fields: []Field{alt("WithVariable", "Variable", "IsVariable"), altFlag("IsSkip", "IsSkip")}})
	w.Add(&Kind{Name: "assignee names", New: func() interface{} { return parsers.NewAssigneeNamesBuilder() }, Fields: []Field{must("WithNames", "All")}})
	w.Add(&Kind{Name: "first assignee name", New: func() interface{} { return parsers.NewAssigneeNameFirstBuilder() }, Fields: []Field{alt("WithDeclaration", "Declaration", "IsDeclaration"), alt("WithAssigneeName", "AssigneeName", "IsAssigneeName")}})
	w.Add(&Kind{Name: "first assignee names", New: func() interface{} { return parsers.NewAssigneeNameFirstsBuilder() }, Fields: []Field{must("WithNames", "All")}})
	w.Add(&Kind{Name: "assignee", New: func() interface{} { return parsers.NewAssigneeBuilder() }, Fields: []Field{alt("WithFirst", "First", "IsFirst"), alt("WithName", "Name", "IsName")}})
	w.Add(&Kind{Name: "assignment", New: func() interface{} { return parsers.NewAssignmentBuilder() }, Fields: []Field{must("WithAssignee", "Assignee"), must("WithAssignables", "Assignables")}})
	w.Add(&Kind{Name: "increment", New: func() interface{} { return parsers.NewIntIncrementBuilder() }, Fields: []Field{must("WithVariableName", "VariableName"), must("WithIncrement", "Increment")}})

	// instructions
	w.Add(&Kind{Name: "direction", New: func() interface{} { return parsers.NewDirectionBuilder() }, Fields: []Field{altFlag("IsBreak", "IsBreak"), altFlag("IsContinue", "IsContinue")}})
	w.Add(&Kind{Name: "call", New: func() interface{} { return parsers.NewVoidFuncCallBuilder() }, Fields: []Field{alt("WithLog", "Log", "IsLog")}})
	w.Add(&Kind{Name: "for statement", New: func() interface{} { return parsers.NewForStatementBuilder() }, Fields: []Field{must("WithIndex", "Index"), must("WithValue", "Value"), must("WithIterable", "Iterable")}})
	for i, d := range w.Get((*parsers.Direction)(nil)) {
		in := value(parsers.NewInstructionBuilder().Create().WithDirection(d.(parsers.Direction)).Now())
		list := value(parsers.NewInstructionsBuilder().Create().WithInstructions([]parsers.Instruction{in.(parsers.Instruction)}).Now())
		w.Put((*parsers.Instructions)(nil), fmt.Sprint("instructions ", i), list)
	}
	w.Add(&Kind{Name: "for", New: func() interface{} { return parsers.NewForDeclarationBuilder() }, Fields: []Field{must("WithStatement", "Statement"), opt("WithInstructions", "Instructions", "HasInstructions")}})
	w.Add(&Kind{Name: "if", New: func() interface{} { return parsers.NewIfDeclarationBuilder() }, Fields: []Field{must("WithCondition", "Condition"), opt("WithInstructions", "Instructions", "HasInstructions")}})
	w.Add(&Kind{Name: "instruction", New: func() interface{} { return parsers.NewInstructionBuilder() }, Fields: []Field{
		alt("WithAssignment", "Assignment", "IsAssignment"), alt("WithVariableDeclaration", "VariableDeclaration", "IsVariableDeclaration"),
		alt("WithIfDeclaration", "IfDeclaration", "IsIfDeclaration"), alt("WithForDeclaration", "ForDeclaration", "IsForDeclaration"),
		alt("WithFuncCall", "FuncCall", "IsFuncCall"), alt("WithDirection", "Direction", "IsDirection"), alt("WithIntIncrement", "IntIncrement", "IsIntIncrement"),
	}})
	w.Add(&Kind{Name: "instructions", New: func() interface{} { return parsers.NewInstructionsBuilder() }, Fields: []Field{must("WithInstructions", "All")}})
	w.Add(&Kind{Name: "program", New: func() interface{} { return parsers.NewProgramBuilder() }, Fields: []Field{must("WithInstructions", "Instructions"), opt("WithVariables", "Variables", "HasVariables")}})
	return w
}

func main() {
	r := vlib.New("C26")
	r.Rule = "for each of the 40 kinds of elements of the model: (1) the product of the values of its fields, every alternative and pair of alternatives, in both orders of the setters; (2) every history before a start over; (3) every sequence of builder calls up to a depth given by the number of calls, from nothing and from a complete builder, against a last-write-wins model; (4) every list of up to 3 (4) of 8 elements, of which some share a part of their values; values are elements that the other builders built; non-trivial: two builds by one builder, or a start over"
	Run(r, world, func(w *World) { compareTypes(r, w) })
	r.Finish()
}

func compareTypes(r *vlib.R, w *World) {
	// types compare equal exactly when depth and kind are the same
	types := w.Get((*parsers.Type)(nil))
	for d := uint(0); d < 4; d++ {
		for f := 0; f < 256; f++ {
			types = append(types, value(parsers.NewTypeBuilder().Create().WithDept(d).WithFlag(uint8(f)).Now()))
		}
	}
	for i, a := range types {
		for j, b := range types {
			x, y := a.(parsers.Type), b.(parsers.Type)
			want := x.Dept() == y.Dept() && x.Flag() == y.Flag()
			r.Step(1)
			if (x.Compare(y) == nil) != want {
				r.Case(fmt.Sprintf("compare:%d:%d", i, j), func() {
					vlib.Failf("the types (depth %d, flag %d) and (depth %d, flag %d) compare as %v", x.Dept(), x.Flag(), y.Dept(), y.Flag(), x.Compare(y))
				})
			}
		}
	}
}
