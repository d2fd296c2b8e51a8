//go:build !has_varint

package h

import "verif/harness/sym"

func init() {
	reg("C06Var", C06Var)
	reg("C07Var", C07Var)
}

// C06Var and C07Var need internal functions that aren't there any more; the
// other harnesses reach them through the public API for smaller values.
func C06Var() { sym.Reach("varint") }
func C07Var() { sym.Reach("varint") }
