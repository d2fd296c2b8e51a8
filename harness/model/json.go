package model

import (
	"encoding/json"
	"errors"
	"io"
)

// The decoder of encoding/json for values of any type, on a stream that is
// read whole.

type jdec struct {
	d      *json.Decoder
	r      io.Reader
	b      []byte
	pos    int
	loaded bool
	err    error
	num    bool
}

var jdecs []*jdec

func JSONNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jdecs = append(jdecs, &jdec{d: d, r: r})
	return d
}

func jd(d *json.Decoder) *jdec {
	for _, x := range jdecs {
		if x.d == d {
			if !x.loaded {
				x.loaded = true
				x.b, x.err = io.ReadAll(x.r)
			}
			return x
		}
	}
	panic("model: unknown json.Decoder")
}

func JSONUseNumber(d *json.Decoder) { jd(d).num = true }

func JSONMore(d *json.Decoder) bool {
	x := jd(d)
	p := jspace(x.b, x.pos)
	return p < len(x.b) && x.b[p] != ']' && x.b[p] != '}'
}

func JSONDecode(d *json.Decoder, v any) error {
	x := jd(d)
	p, ok := v.(*interface{})
	if !ok {
		panic("model: json.Decode to another type than *interface{}")
	}
	i := jspace(x.b, x.pos)
	if i >= len(x.b) {
		return io.EOF
	}
	r, n, err := jvalue(x.b, i, x.num, 0)
	if err != nil {
		return err
	}
	x.pos = n
	*p = r
	return nil
}

func JSONUnmarshal(b []byte, v any) error {
	p, ok := v.(*interface{})
	if !ok {
		panic("model: json.Unmarshal to another type than *interface{}")
	}
	r, n, err := jvalue(b, jspace(b, 0), false, 0)
	if err != nil {
		return err
	}
	if jspace(b, n) != len(b) {
		return errJSON
	}
	*p = r
	return nil
}

func JSONValid(b []byte) bool {
	_, n, err := jvalue(b, jspace(b, 0), true, 0)
	return err == nil && jspace(b, n) == len(b)
}

var errJSON = errors.New("invalid JSON")

func jspace(b []byte, i int) int {
	for i < len(b) && (b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || b[i] == '\r') {
		i++
	}
	return i
}

func jword(b []byte, i int, w string) bool {
	return i+len(w) <= len(b) && string(b[i:i+len(w)]) == w
}

func jvalue(b []byte, i int, num bool, depth int) (interface{}, int, error) {
	if i >= len(b) || depth > 10000 {
		return nil, i, errJSON
	}
	switch c := b[i]; {
	case c == '"':
		return jstring(b, i)
	case c == '{':
		m := map[string]interface{}{}
		i = jspace(b, i+1)
		if i < len(b) && b[i] == '}' {
			return m, i + 1, nil
		}
		for {
			if i >= len(b) || b[i] != '"' {
				return nil, i, errJSON
			}
			k, n, err := jstring(b, i)
			if err != nil {
				return nil, n, err
			}
			i = jspace(b, n)
			if i >= len(b) || b[i] != ':' {
				return nil, i, errJSON
			}
			v, n, err := jvalue(b, jspace(b, i+1), num, depth+1)
			if err != nil {
				return nil, n, err
			}
			m[k.(string)] = v
			i = jspace(b, n)
			if i >= len(b) {
				return nil, i, errJSON
			}
			if b[i] == '}' {
				return m, i + 1, nil
			}
			if b[i] != ',' {
				return nil, i, errJSON
			}
			i = jspace(b, i+1)
		}
	case c == '[':
		a := []interface{}{}
		i = jspace(b, i+1)
		if i < len(b) && b[i] == ']' {
			return a, i + 1, nil
		}
		for {
			v, n, err := jvalue(b, i, num, depth+1)
			if err != nil {
				return nil, n, err
			}
			a = append(a, v)
			i = jspace(b, n)
			if i >= len(b) {
				return nil, i, errJSON
			}
			if b[i] == ']' {
				return a, i + 1, nil
			}
			if b[i] != ',' {
				return nil, i, errJSON
			}
			i = jspace(b, i+1)
		}
	case c == 't':
		if jword(b, i, "true") {
			return true, i + 4, nil
		}
	case c == 'f':
		if jword(b, i, "false") {
			return false, i + 5, nil
		}
	case c == 'n':
		if jword(b, i, "null") {
			return nil, i + 4, nil
		}
	case c == '-' || c >= '0' && c <= '9':
		j := i
		if b[j] == '-' {
			j++
		}
		if j >= len(b) || b[j] < '0' || b[j] > '9' {
			return nil, j, errJSON
		}
		if b[j] == '0' {
			j++
		} else {
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
		}
		if j < len(b) && b[j] == '.' {
			j++
			if j >= len(b) || b[j] < '0' || b[j] > '9' {
				return nil, j, errJSON
			}
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
		}
		if j < len(b) && (b[j] == 'e' || b[j] == 'E') {
			j++
			if j < len(b) && (b[j] == '+' || b[j] == '-') {
				j++
			}
			if j >= len(b) || b[j] < '0' || b[j] > '9' {
				return nil, j, errJSON
			}
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
		}
		n := json.Number(b[i:j])
		if num {
			return n, j, nil
		}
		f, err := n.Float64()
		if err != nil {
			return nil, j, err
		}
		return f, j, nil
	}
	return nil, i, errJSON
}

func jhex(b []byte, i int) (rune, bool) {
	if i+4 > len(b) {
		return 0, false
	}
	r := rune(0)
	for _, c := range b[i : i+4] {
		switch {
		case c >= '0' && c <= '9':
			c -= '0'
		case c >= 'a' && c <= 'f':
			c -= 'a' - 10
		case c >= 'A' && c <= 'F':
			c -= 'A' - 10
		default:
			return 0, false
		}
		r = r<<4 | rune(c)
	}
	return r, true
}

func jstring(b []byte, i int) (interface{}, int, error) {
	i++
	var out []byte
	for {
		if i >= len(b) || b[i] < ' ' {
			return nil, i, errJSON
		}
		c := b[i]
		if c == '"' {
			return string(out), i + 1, nil
		}
		if c >= 0x80 {
			// bytes that are not UTF-8 turn into U+FFFD
			j := i
			for j < len(b) && b[j] >= 0x80 {
				j++
			}
			for _, r := range string(b[i:j]) {
				out = append(out, string(r)...)
			}
			i = j
			continue
		}
		if c != '\\' {
			out = append(out, c)
			i++
			continue
		}
		i++
		if i >= len(b) {
			return nil, i, errJSON
		}
		switch b[i] {
		case '"', '\\', '/':
			out = append(out, b[i])
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			r, ok := jhex(b, i+1)
			if !ok {
				return nil, i, errJSON
			}
			i += 4
			if r >= 0xd800 && r < 0xe000 {
				lo, ok := rune(0), false
				if i+2 < len(b) && b[i+1] == '\\' && b[i+2] == 'u' {
					lo, ok = jhex(b, i+3)
				}
				if ok && r < 0xdc00 && lo >= 0xdc00 && lo < 0xe000 {
					r = (r-0xd800)<<10 | (lo - 0xdc00) + 0x10000
					i += 6
				} else {
					r = 0xfffd
				}
			}
			out = append(out, string(r)...)
		default:
			return nil, i, errJSON
		}
		i++
	}
}
