package main

import "unicode/utf8"

// Token kinds shared with spec/Terminal.tla.
const (
	tokText = 0 // [0, rune]
	tokCtl  = 1 // [1, byte]              C0 control
	tokCSI  = 2 // [2, final, priv, p...] control sequence; missing params are -1
	tokESC  = 3 // [3, final]             escape sequence
	tokBad  = 9 // [9, byte]              not a complete/valid token
)

// tokenize splits terminal output into tokens: an implementation independent
// of the repository's decoder.  The undecodable tail (an incomplete sequence)
// is returned separately.
func tokenize(p []byte) (toks [][]int, rest []byte) {
	for i := 0; i < len(p); {
		c := p[i]
		switch {
		case c == 0x1b:
			if i+1 >= len(p) {
				return toks, p[i:]
			}
			if p[i+1] == '[' {
				j := i + 2
				priv := 0
				if j < len(p) && p[j] >= 0x3c && p[j] <= 0x3f {
					priv = int(p[j])
					j++
				}
				params := []int{}
				cur := -1
				sawAny := false
				for ; j < len(p) && (p[j] == ';' || p[j] >= '0' && p[j] <= '9'); j++ {
					sawAny = true
					if p[j] == ';' {
						params = append(params, cur)
						cur = -1
					} else {
						if cur < 0 {
							cur = 0
						}
						if cur < 1<<27 {
							cur = cur*10 + int(p[j]-'0')
						}
					}
				}
				if sawAny {
					params = append(params, cur)
				}
				if j >= len(p) {
					return toks, p[i:]
				}
				if p[j] >= 0x40 && p[j] <= 0x7e {
					toks = append(toks, append([]int{tokCSI, int(p[j]), priv}, params...))
					i = j + 1
					continue
				}
				if p[j] == 0x1b { // aborted by a new sequence
					i = j
					continue
				}
				toks = append(toks, []int{tokBad, int(p[j])})
				i = j + 1
				continue
			}
			// ESC intermediates final
			j := i + 1
			for j < len(p) && p[j] >= 0x20 && p[j] <= 0x2f {
				j++
			}
			if j >= len(p) {
				return toks, p[i:]
			}
			if p[j] == 0x1b { // aborted by a new sequence
				i = j
				continue
			}
			if p[j] < 0x30 || p[j] > 0x7e {
				toks = append(toks, []int{tokBad, int(p[j])})
			} else {
				toks = append(toks, []int{tokESC, int(p[j])})
			}
			i = j + 1
		case c < 0x20 || c == 0x7f:
			toks = append(toks, []int{tokCtl, int(c)})
			i++
		default:
			if !utf8.FullRune(p[i:]) {
				return toks, p[i:]
			}
			r, n := utf8.DecodeRune(p[i:])
			if r == utf8.RuneError && n == 1 {
				toks = append(toks, []int{tokText, utf8.RuneError})
			} else if r >= 0x80 && r < 0xa0 {
				toks = append(toks, []int{tokBad, int(r)})
			} else {
				toks = append(toks, []int{tokText, int(r)})
			}
			i += n
		}
	}
	return toks, nil
}

func nn(t [][]int) [][]int {
	if t == nil {
		return [][]int{}
	}
	return t
}
