package main

import (
	"fmt"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/scripts/base/parsers"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// one checks that exactly one of the alternatives of a part is set, and shows it.
func one(what string, parts ...func() (bool, string)) string {
	out, n := "", 0
	for _, p := range parts {
		if ok, s := p(); ok {
			out = s
			n++
		}
	}
	if n != 1 {
		vlib.Failf("%d alternatives of %s are set", n, what)
	}
	return out
}

func showProgram(p parsers.Program) string {
	head := ""
	if p.HasVariables() {
		l := []string{}
		for _, v := range p.Variables().All() {
			l = append(l, showHeader(v))
		}
		if len(l) == 0 {
			vlib.Failf("a program has header variables, but none")
		}
		head = "(header " + strings.Join(l, " ") + ") "
	}
	return "(program " + head + showInstructions(p.Instructions()) + ")"
}

func showHeader(v parsers.HeaderVariable) string {
	d := "out"
	if v.IsInput() {
		d = "in"
	}
	m := "optional"
	if v.IsMandatory() {
		m = "mandatory"
	}
	return fmt.Sprintf("(%s %s %s %s)", d, m, showDeclaration(v.Declaration()), v.Keyname())
}

func showDeclaration(d parsers.VariableDeclaration) string {
	return "(declare " + showType(d.Type()) + " " + d.Name() + ")"
}

func showType(t parsers.Type) string {
	name := ""
	switch t.Flag() {
	case parsers.TypeIntegerFlag:
		name = "int"
	case parsers.TypeIntegerFlag | parsers.TypeUnsignedFlag:
		name = "uint"
	case parsers.TypeFloatFlag:
		name = "float"
	case parsers.TypeStringFlag:
		name = "string"
	case parsers.TypeBoolFlag:
		name = "bool"
	default:
		name = fmt.Sprintf("flag%d", t.Flag())
	}
	if t.Dept() > 0 {
		return fmt.Sprintf("%s*%d", name, t.Dept())
	}
	return name
}

func showInstructions(l parsers.Instructions) string {
	out := []string{}
	for _, i := range l.All() {
		out = append(out, showInstruction(i))
	}
	return "[" + strings.Join(out, " ") + "]"
}

func showInstruction(i parsers.Instruction) string {
	return one("an instruction",
		func() (bool, string) {
			if !i.IsAssignment() {
				return false, ""
			}
			return true, showAssignment(i.Assignment())
		},
		func() (bool, string) {
			if !i.IsVariableDeclaration() {
				return false, ""
			}
			return true, showDeclaration(i.VariableDeclaration())
		},
		func() (bool, string) {
			if !i.IsIfDeclaration() {
				return false, ""
			}
			return true, showIf(i.IfDeclaration())
		},
		func() (bool, string) {
			if !i.IsForDeclaration() {
				return false, ""
			}
			return true, showFor(i.ForDeclaration())
		},
		func() (bool, string) {
			if !i.IsFuncCall() {
				return false, ""
			}
			return true, showVoidCall(i.FuncCall())
		},
		func() (bool, string) {
			if !i.IsDirection() {
				return false, ""
			}
			return true, showDirection(i.Direction())
		},
		func() (bool, string) {
			if !i.IsIntIncrement() {
				return false, ""
			}
			return true, showIncrement(i.IntIncrement())
		},
	)
}

func showDirection(d parsers.Direction) string {
	return one("a direction",
		func() (bool, string) { return d.IsBreak(), "break" },
		func() (bool, string) { return d.IsContinue(), "continue" },
	)
}

func showVoidCall(c parsers.VoidFuncCall) string {
	if !c.IsLog() {
		vlib.Failf("a call is not that of log")
	}
	return "(log " + showAssignable(c.Log()) + ")"
}

func showIncrement(i parsers.IntIncrement) string {
	return "(increment " + i.VariableName() + " " + showValue(i.Increment()) + ")"
}

func showIf(i parsers.IfDeclaration) string {
	body := "[]"
	if i.HasInstructions() {
		body = showInstructions(i.Instructions())
	}
	return "(if " + showOperation(i.Condition()) + " " + body + ")"
}

func showFor(f parsers.ForDeclaration) string {
	body := "[]"
	if f.HasInstructions() {
		body = showInstructions(f.Instructions())
	}
	return "(for " + showForStatement(f.Statement()) + " " + body + ")"
}

func showForStatement(s parsers.ForStatement) string {
	return "(each " + showName(s.Index()) + " " + showName(s.Value()) + " " + showTotalListValue(s.Iterable()) + ")"
}

func showName(n parsers.AssigneeName) string {
	return one("an assignee name",
		func() (bool, string) { return n.IsSkip(), "_" },
		func() (bool, string) { return n.IsVariable(), n.Variable() },
	)
}

func showAssignment(a parsers.Assignment) string {
	return "(assign " + showAssignee(a.Assignee()) + " " + showAssignables(a.Assignables()) + ")"
}

func showAssignee(a parsers.Assignee) string {
	return one("an assignee",
		func() (bool, string) {
			if !a.IsFirst() {
				return false, ""
			}
			out := []string{}
			for _, n := range a.First().All() {
				n := n
				out = append(out, showNameFirst(n))
			}
			return true, "(first " + strings.Join(out, " ") + ")"
		},
		func() (bool, string) {
			if !a.IsName() {
				return false, ""
			}
			return true, "(again " + showNames(a.Name()) + ")"
		},
	)
}

func showNames(l parsers.AssigneeNames) string {
	out := []string{}
	for _, n := range l.All() {
		out = append(out, showName(n))
	}
	return strings.Join(out, " ")
}

func showNameFirst(n parsers.AssigneeNameFirst) string {
	return one("a first assignee",
		func() (bool, string) {
			if !n.IsDeclaration() {
				return false, ""
			}
			return true, showDeclaration(n.Declaration())
		},
		func() (bool, string) {
			if !n.IsAssigneeName() {
				return false, ""
			}
			return true, showName(n.AssigneeName())
		},
	)
}

func showAssignables(l parsers.Assignables) string {
	out := []string{}
	for _, a := range l.All() {
		out = append(out, showAssignable(a))
	}
	if l.IsEmpty() != (len(out) == 0) {
		vlib.Failf("%d assignables, empty %v", len(out), l.IsEmpty())
	}
	return "<" + strings.Join(out, " ") + ">"
}

func showAssignable(a parsers.Assignable) string {
	return one("an assignable",
		func() (bool, string) {
			if !a.IsList() {
				return false, ""
			}
			if l := a.List(); l.IsListValue() && l.ListValue().IsVariableName() {
				// a lone variable is read as a list, or as an operation: it is the same variable
				return true, l.ListValue().VariableName()
			}
			return true, showTotalListAssignable(a.List())
		},
		func() (bool, string) {
			if !a.IsSingle() {
				return false, ""
			}
			return true, showSingle(a.Single())
		},
	)
}

func showSingle(s parsers.SingleAssignable) string {
	return one("a single assignable",
		func() (bool, string) {
			if !s.IsDeclarableValue() {
				return false, ""
			}
			return true, showValue(s.DeclarableValue())
		},
		func() (bool, string) {
			if !s.IsOperation() {
				return false, ""
			}
			return true, showOperation(s.Operation())
		},
		func() (bool, string) {
			if !s.IsExtract() {
				return false, ""
			}
			return true, "(extract " + showTotalListAssignable(s.Extract()) + ")"
		},
		func() (bool, string) {
			if !s.IsListFetchElement() {
				return false, ""
			}
			f := s.ListFetchElement()
			return true, "(fetch " + showTotalListValue(f.List()) + " " + showIndex(f.Index()) + ")"
		},
	)
}

func showTotalListValue(v parsers.TotalListValue) string {
	return one("a total list value",
		func() (bool, string) {
			if !v.IsAssignable() {
				return false, ""
			}
			return true, showTotalListAssignable(v.Assignable())
		},
		func() (bool, string) { return v.IsVariableName(), "(list " + v.VariableName() + ")" },
	)
}

func showTotalListAssignable(a parsers.TotalListAssignable) string {
	return one("a total list assignable",
		func() (bool, string) {
			if !a.IsListValue() {
				return false, ""
			}
			return true, showListValue(a.ListValue())
		},
		func() (bool, string) {
			if !a.IsSlice() {
				return false, ""
			}
			s := a.Slice()
			end := ""
			if s.Delimiter().HasAmount() {
				end = " " + showIndex(s.Delimiter().Amount())
			}
			return true, "(slice " + showListValue(s.List()) + " " + showIndex(s.Delimiter().Index()) + end + ")"
		},
		func() (bool, string) {
			if !a.IsAppend() {
				return false, ""
			}
			return true, "(append " + showListValue(a.Append().List()) + " " + showSingle(a.Append().Assignable()) + ")"
		},
	)
}

func showListValue(v parsers.ListValue) string {
	return one("a list value",
		func() (bool, string) {
			if !v.IsAssignables() {
				return false, ""
			}
			return true, showAssignables(v.Assignables())
		},
		func() (bool, string) { return v.IsVariableName(), "(list " + v.VariableName() + ")" },
	)
}

func showIndex(i parsers.IndexValue) string {
	return one("an index",
		func() (bool, string) {
			if !i.IsValue() {
				return false, ""
			}
			return true, showValue(i.Value())
		},
		func() (bool, string) { return i.IsVariableName(), i.VariableName() },
	)
}

var operators = map[uint16]string{
	uint16(parsers.OpArithmetic | parsers.OpAriPlus):                             "+",
	uint16(parsers.OpArithmetic | parsers.OpAriMinus):                            "-",
	uint16(parsers.OpArithmetic | parsers.OpAriMultiply):                         "*",
	uint16(parsers.OpArithmetic | parsers.OpAriDivide):                           "/",
	uint16(parsers.OpRelational | parsers.OpRelLessThan):                         "<",
	uint16(parsers.OpRelational | parsers.OpRelLessThan | parsers.OpRelEqual):    "<=",
	uint16(parsers.OpRelational | parsers.OpRelGreaterThan):                      ">",
	uint16(parsers.OpRelational | parsers.OpRelGreaterThan | parsers.OpRelEqual): ">=",
	uint16(parsers.OpRelational | parsers.OpRelNot | parsers.OpRelEqual):         "!=",
	uint16(parsers.OpRelational | parsers.OpRelEqual):                            "==",
	uint16(parsers.OpLogical | parsers.OpLogAnd):                                 "&&",
	uint16(parsers.OpLogical | parsers.OpLogOr):                                  "||",
}

func showOperation(o parsers.Operation) string {
	out := showElement(o.Element())
	if !o.HasSuffix() {
		return out
	}
	op, ok := operators[o.Suffix().Operator()]
	if !ok {
		op = fmt.Sprintf("operator%d", o.Suffix().Operator())
	}
	return "(" + op + " " + out + " " + showElement(o.Suffix().Element()) + ")"
}

func showElement(e parsers.OperationElement) string {
	return one("an operation element",
		func() (bool, string) {
			if !e.IsBoolValue() {
				return false, ""
			}
			return true, fmt.Sprintf("bool:%v", *e.BoolValue())
		},
		func() (bool, string) {
			if !e.IsVariableName() {
				return false, ""
			}
			return true, *e.VariableName()
		},
		func() (bool, string) {
			if !e.IsComputableValue() {
				return false, ""
			}
			return true, showValue(e.ComputableValue())
		},
		func() (bool, string) {
			if !e.IsOperation() {
				return false, ""
			}
			// parentheses around a lone element mean nothing
			return true, showOperation(e.Operation())
		},
		func() (bool, string) {
			if !e.IsFuncCall() {
				return false, ""
			}
			if !e.FuncCall().IsNull() {
				vlib.Failf("a call in an operation is not that of isNull")
			}
			return true, "(isNull " + showOperation(e.FuncCall().Null()) + ")"
		},
	)
}

func showValue(v parsers.Value) string {
	return fmt.Sprintf("%s:%v", showType(v.Type()), v.Element())
}
