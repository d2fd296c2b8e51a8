package model

import (
	"golang.org/x/text/transform"
)

// TransformString stands for transform.String with the removal of accents:
// ASCII text has none. Other text is not modelled.
func TransformString(t transform.Transformer, s string) (string, int, error) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			panic("model: transform of text that is not ASCII")
		}
	}
	return s, len(s), nil
}
