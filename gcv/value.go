package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is *Term, *StructV, Tuple, *Addr or *RangeIter.
type Value interface{}

type StructV struct {
	typ    *types.Struct
	fields []Value
}
type Tuple []Value

// Addr is an lvalue that is not represented by a reference term: a scalar
// field or a slice element.
type Addr struct {
	key string // heap key
	ref *Term
	idx *Term // element index (mem keys) or nil
	typ types.Type
}

type RangeIter struct {
	m       *Term // map reference
	mt      *types.Map
	visited *Term // Array K Bool
	str     *Term // string iteration (unsupported beyond creation)
}

type Closure struct {
	fn      *ssa.Function
	binds   []Value
	builtin string
	data    []Value
}

func under(t types.Type) types.Type {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return tp.Constraint().Underlying()
	}
	return t.Underlying()
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := under(t).(*types.Struct)
	return s, ok
}

// sortOf returns the SMT sort of scalar types ("" for composite ones).
func sortOf(t types.Type) string {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return sBool
		case x.Info()&types.IsString != 0:
			return sStr
		}
		return sInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return sInt
	case *types.Slice:
		return sSlice
	case *types.Interface:
		return sIface
	}
	return ""
}

func isRefType(t types.Type) bool {
	switch x := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	}
	return false
}

func holdsRef(t types.Type) bool {
	switch under(t).(type) {
	case *types.Slice, *types.Interface:
		return true
	}
	return isRefType(t)
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// intRange returns the bounds of an integer type (nil,nil if not an integer).
func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int8:
		bits, signed = 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint32:
		bits = 32
	case types.Uint16:
		bits = 16
	case types.Uint8:
		bits = 8
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(pow2(bits-1), one)
		lo = new(big.Int).Neg(pow2(bits - 1))
	} else {
		hi = new(big.Int).Sub(pow2(bits), one)
		lo = big.NewInt(0)
	}
	return
}
