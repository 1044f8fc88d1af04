package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func notConst(v constant.Value) constant.Value { return constant.UnaryOp(token.NOT, v, 0) }

func constBool(v constant.Value) bool { return v.Kind() == constant.Bool && constant.BoolVal(v) }

func foldConst(y *ssa.BinOp, a, b *ssa.Const) *ssa.Const {
	if a.Value == nil || b.Value == nil {
		return nil
	}
	switch y.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Value.Kind() != b.Value.Kind() {
			return nil
		}
		return ssa.NewConst(constant.MakeBool(constant.Compare(a.Value, y.Op, b.Value)), y.Type())
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
		if a.Value.Kind() == constant.Int && b.Value.Kind() == constant.Int || y.Op == token.ADD && a.Value.Kind() == constant.String {
			return ssa.NewConst(constant.BinaryOp(a.Value, y.Op, b.Value), y.Type())
		}
	}
	return nil
}
