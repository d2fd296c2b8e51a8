// Package model has Go replacements for library functions whose own code is
// out of the engine's reach. They are interpreted like any other code.
package model

// FmtInt prints an integer in decimal, as fmt and strconv do.
func FmtInt(x int64, signed bool) string {
	u := uint64(x)
	neg := signed && x < 0
	if neg {
		u = -u
	}
	// the number of digits is found by comparisons, which are easier to decide
	// than divisions
	n := 1
	for p := uint64(10); n < 20; p *= 10 {
		if u < p {
			break
		}
		n++
	}
	b := make([]byte, 0, 20)
	if neg {
		b = append(b, '-')
	}
	p := uint64(1)
	for i := 1; i < n; i++ {
		p *= 10
	}
	for ; n > 0; n-- {
		b = append(b, byte('0'+u/p%10))
		p /= 10
	}
	return string(b)
}

var pow10 = [...]float64{
	1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11,
	1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22,
}

var upow10 = [...]uint64{
	1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15,
}

// Atof64exact is strconv's function of that name with its comparison of
// floating point values done on the integers they come from.
func Atof64exact(mantissa uint64, exp int, neg bool) (f float64, ok bool) {
	if mantissa >= 1<<52 {
		return
	}
	e := 0
	if exp > 37 || exp < -22 {
		return
	}
	for e = -22; e < 37; e++ {
		if e == exp {
			break
		}
	}
	if e > 0 {
		k := 0
		if e > 22 {
			k = e - 22
		}
		if mantissa > 1000000000000000/upow10[k] {
			return
		}
	}
	f = float64(mantissa)
	if neg {
		f = -f
	}
	switch {
	case e == 0:
		return f, true
	case e > 22:
		return f * pow10[e-22] * pow10[22], true
	case e > 0:
		return f * pow10[e], true
	}
	return f / pow10[-e], true
}
