package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// amounts decides data independence: what the code does with an amount (a
// length, a count, an index, a size, a position) may depend on whether it is
// nothing, one or several, and on other amounts, but not on some number written
// into the code. Only so does what the other rules decide for indexes, files and
// tapes with few entries, bytes and records hold for those with many.
func amounts(c *Ctx) {
	pkgs := map[string]string{
		"C01": "pkg/operations pkg/recovery pkg/persisters internal/persisters internal/converters internal/tarext internal/suffix pkg/tape internal/ioext pkg/encryption",
		"C02": "pkg/fs pkg/operations pkg/inventory pkg/persisters internal/persisters internal/converters internal/pathext internal/suffix",
		"C03": "pkg/fs pkg/operations pkg/recovery pkg/cache internal/ioext internal/tarext internal/suffix pkg/encryption pkg/signature",
		"C04": "pkg/operations pkg/recovery pkg/persisters internal/tarext internal/ioext",
		"C05": "pkg/operations pkg/tape internal/tarext",
		"C06": "pkg/operations pkg/recovery internal/tarext",
		"C07": "pkg/recovery pkg/persisters",
		"C08": "pkg/signature pkg/recovery",
		"C09": "pkg/encryption",
		"C10": "pkg/operations pkg/recovery pkg/tape pkg/fs",
		"C12": "pkg/operations pkg/persisters internal/pathext pkg/fs",
		"C13": "pkg/fs pkg/inventory pkg/persisters internal/pathext",
		"C14": "pkg/fs pkg/cache internal/ioext pkg/recovery",
		"C15": "pkg/fs",
		"C16": "pkg/fs pkg/recovery pkg/persisters pkg/tape",
		"C17": "pkg/persisters pkg/fs pkg/cache internal/pathext pkg/recovery internal/suffix",
		"C18": "pkg/keys pkg/utility pkg/encryption pkg/signature",
	}
	in := map[string]bool{}
	for _, p := range strings.Fields(pkgs[c.Prop]) {
		in[p] = true
	}
	block := c.constInt("pkg/config", "MagneticTapeBlockSize")
	for _, fn := range c.P.SrcFuncs() {
		if !in[fnPkg(fn)] {
			continue
		}
		c.Ob(fnName(fn), "amounts")
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				what := ""
				switch x := i.(type) {
				case *ssa.BinOp:
					what = amountTest(x, block)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
						for _, a := range x.Call.Args {
							if k, ok := amountConst(a, block); ok {
								what = bi.Name() + " with " + k
							}
						}
					}
				}
				if what != "" {
					c.Fail(fnName(fn), "fixed amount", c.P.At(i.Pos()), "behaviour changes at a fixed amount ("+what+"): what holds for small names, contents, directories or tapes need not hold for large ones", nil)
				}
			}
		}
	}
}

// amountConst: v is an integer constant that stands for a certain amount.
func amountConst(v ssa.Value, block int64) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return "", false
	}
	t, ok := k.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 || t.Kind() == types.Uint8 || t.Kind() == types.Int32 || t.Kind() == types.Uint32 {
		return "", false // characters, kinds, modes
	}
	n, ok := constant.Int64Val(k.Value)
	if ok && (n >= -2 && n <= 2 || n == block) {
		return "", false
	}
	if ok {
		return strconv.FormatInt(n, 10), true
	}
	return k.Value.String(), true
}

func amountTest(x *ssa.BinOp, block int64) string {
	for i, o := range []ssa.Value{x.X, x.Y} {
		k, ok := amountConst(o, block)
		if !ok {
			continue
		}
		other := []ssa.Value{x.Y, x.X}[i]
		if _, ok := other.(*ssa.Const); ok {
			continue
		}
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return x.Op.String() + " " + k
		case token.EQL, token.NEQ:
			if counted(other, 0) {
				return x.Op.String() + " " + k
			}
		case token.REM:
			if i == 1 && counted(other, 0) {
				return "% " + k
			}
		}
	}
	return ""
}

// counted: v is a length, an index or computed from one.
func counted(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy"
		}
		switch calleeName(&x.Call) {
		case "strings.Count", "strings.Index", "strings.LastIndex", "unicode/utf8.RuneCountInString", "(io/fs.FileInfo).Size", "(*bytes.Buffer).Len":
			return true
		}
	case *ssa.BinOp:
		return counted(x.X, depth+1) || counted(x.Y, depth+1)
	case *ssa.Convert:
		return counted(x.X, depth+1)
	case *ssa.ChangeType:
		return counted(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if counted(e, depth+1) {
				return true
			}
			// a loop's counter
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && (b.X == x || b.Y == x) {
				return true
			}
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && !n.IsString {
			return x.Index == 1
		}
	case *ssa.UnOp:
		if f, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if s, ok := ptrElem(f.X.Type()).Underlying().(*types.Struct); ok {
				switch s.Field(f.Field).Name() {
				case "Size", "BytesRead", "BytesWritten", "Record", "Block", "Lastknownrecord", "Lastknownblock":
					return true
				}
			}
		}
	}
	return false
}
