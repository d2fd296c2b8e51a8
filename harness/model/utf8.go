package model

import "unicode/utf8"

// DecodeRune is utf8.DecodeRune without tables and masks.
func DecodeRune(b []byte) (rune, int) {
	n := len(b)
	if n == 0 {
		return utf8.RuneError, 0
	}
	b0 := b[0]
	if b0 < 0x80 {
		return rune(b0), 1
	}
	if n == 1 || b0 < 0xc2 || b0 > 0xf4 {
		return utf8.RuneError, 1
	}
	b1 := b[1]
	if b0 < 0xe0 {
		if b1 < 0x80 || b1 > 0xbf {
			return utf8.RuneError, 1
		}
		return rune(b0&0x1f)<<6 | rune(b1&0x3f), 2
	}
	lo, hi := byte(0x80), byte(0xbf)
	switch b0 {
	case 0xe0:
		lo = 0xa0
	case 0xed:
		hi = 0x9f
	case 0xf0:
		lo = 0x90
	case 0xf4:
		hi = 0x8f
	}
	if n == 2 || b1 < lo || b1 > hi || b[2] < 0x80 || b[2] > 0xbf {
		return utf8.RuneError, 1
	}
	if b0 < 0xf0 {
		return rune(b0&0x0f)<<12 | rune(b1&0x3f)<<6 | rune(b[2]&0x3f), 3
	}
	if n == 3 || b[3] < 0x80 || b[3] > 0xbf {
		return utf8.RuneError, 1
	}
	return rune(b0&0x07)<<18 | rune(b1&0x3f)<<12 | rune(b[2]&0x3f)<<6 | rune(b[3]&0x3f), 4
}

func DecodeRuneInString(s string) (rune, int) {
	if len(s) > 4 {
		s = s[:4]
	}
	return DecodeRune([]byte(s))
}
