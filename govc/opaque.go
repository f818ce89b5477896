package main

import "go/types"

// opaqueType is the dynamic type of an interface value nothing is known of. Such a value can be passed on;
// whatever looks at it is outside the engine's reach.
var opaqueType = types.NewNamed(types.NewTypeName(0, nil, "vc.opaque", nil), types.NewStruct(nil, nil), nil)

func notOpaque(v IfaceV) IfaceV {
	if v.t == opaqueType {
		panic(unsupported("a look at an unknown value"))
	}
	return v
}

func init() {
	// the text of a network address: any text
	m("(*net.TCPAddr).String", func(ex *Exec, st *State, a []Value) Value {
		ex.assumes["the text of a network address is any text"] = true
		return ex.freshStr("addr")
	})
}
