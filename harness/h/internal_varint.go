//go:build has_varint

package h

import (
	"unsafe"

	"verif/harness/sym"
)

// The functions of the code under test that this file links to are looked for
// in its sources on each run (engine/internals.go); without them the other half of
// this file is built.

//go:linkname newVarInt github.com/rveen/ogdl.newVarInt
func newVarInt(n int) []byte

//go:linkname newBytesBinParser github.com/rveen/ogdl.newBytesBinParser
func newBytesBinParser(b []byte) unsafe.Pointer

//go:linkname varInt github.com/rveen/ogdl.(*binParser).varInt
func varInt(p unsafe.Pointer) int

func init() {
	reg("C06Var", C06Var)
	reg("C07Var", C07Var)
}

// C06Var: the encoding of any level.
func C06Var() {
	n := int(sym.Int(0, 1<<28-1))
	b := newVarInt(n)
	sym.Assert(string(b) == string(refVarInt(n)), "encoding of a level")
	sym.Reach("varint")
}

// C07Var: decoding of any integer in any number of bytes.
func C07Var() {
	n := int(sym.Int(0, 1<<28-1))
	if n < 0x80 {
		sym.Reach("small")
	}
	b := varIntBytes(n)
	p := newBytesBinParser(append(b, 1, 'G', 0))
	sym.Assert(varInt(p) == n, "decoded integer")
	sym.Assert(varInt(p) == 1, "what follows")
	sym.Reach("varint")
}
