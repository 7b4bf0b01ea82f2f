package main

import (
	"math/rand"
	"unicode/utf8"
)

// items is a generator of input bytes within the domain of spec/Decoder.tla:
// every item is a complete rune, control, or sequence, or a piece that stays
// meaningful whatever item follows.
type items struct {
	r        *rand.Rand
	dangling bool // the stream may be right after an ESC
	noDangle bool // only complete items
}

func (g *items) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

func (g *items) params() string {
	n := g.r.Intn(7)
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789;;:<=>?"[g.r.Intn(17)]
	}
	return string(b)
}

// content of a string; it also stays within the domain should the sequence
// that introduces it be taken apart by a chunk boundary.
func (g *items) content() string {
	n := g.r.Intn(10)
	s := ""
	for ; n > 0; n-- {
		s += g.pick("a", "Z", "0", ";", " ", "\x00", "\t", "\n", "é", "☃", "😀", "\xff", "\xe2\x98", "\x1bX", "\x1b[1m", "\x1b]", "\xc3", "\x1bq", "\x1b☃q", "[", "~", "\x7f")
	}
	return s
}

// open tells whether an ESC before s is still undecided after s.
func stillOpen(s string) bool {
	r, n := utf8.DecodeRuneInString(s)
	return n == len(s) && (r < 0x20 && r != 0x18 || r > 0xff && r != utf8.RuneError)
}

func (g *items) item() string {
	for {
		s := g.raw()
		if g.dangling {
			if s[0] == 0xc2 || s[0] == 0xc3 || s[0] == 0x7f || len(s) > 1 && s[0] == 0x1b && (s[1] == 'P' || s[1] == ']' || s[1] == '^' || s[1] == '_') {
				continue
			}
			g.dangling = stillOpen(s)
		}
		if !g.noDangle && !g.dangling && g.r.Intn(25) == 0 {
			t := g.pick("\x1b", "\x1b ", "\x1b(", "\x1b#$", "\xe2\x98", "\xf0\x9f", "\xe2")
			s += t
			g.dangling = t[0] == 0x1b
		}
		return s
	}
}

func (g *items) raw() string {
	r := g.r
	switch r.Intn(16) {
	case 0, 1, 2:
		return g.pick("a", "b", "Z", "0", ";", " ", "~", "[", "hello", "@")
	case 3:
		return g.pick("é", "ß", "λ", "☃", "─", "€", "\uFEFF", "\uE000", "\uFFFC", "😀", "\U0010FFFF", "ࠀ", "\u07ff", "퟿", "\u00a0", "ÿ")
	case 4:
		return string(rune([]int{0, 1, 3, 7, 8, 9, 10, 13, 24, 26, 28, 31, 127}[r.Intn(13)]))
	case 5: // invalid UTF-8
		return g.pick("\xff", "\xc0", "\xf5", "\x80", "\xbf", "\xed\xa0\x80", "\xe0\x80", "\xf4\x90", "\xf0\x80", "\xc1\xbf") + g.pick("a", "\xff", "é")
	case 6: // 7-bit and 8-bit C1
		c := byte([]int{0x40, 0x44, 0x45, 0x48, 0x4d, 0x4e, 0x4f, 0x5a, 0x5c}[r.Intn(9)])
		if r.Intn(2) == 0 {
			return "\x1b" + string(rune(c))
		}
		return string(rune(c + 0x40))
	case 7: // ESC final
		return "\x1b" + g.pick("7", "8", "=", ">", "c", "n", "~", "1", "0", "z")
	case 8: // ESC intermediates final
		return "\x1b" + g.pick("(B", ")0", " F", "#8", "(A", "*<", "$(C", "  x", "%/G", "/~")
	case 9: // controls within an escape sequence
		return "\x1b" + g.pick("\x03[A", "\n7", "\x18", " \x18", "\x7fz", "\x7f\x7f8", "(\x00B", "(\x7f0", "☃[m", "😀c", "\x1b[1m", "(\x1bB", "(☃B", "\x03\x04M", "\x1b\x18", "\x7f\x18", "(\n\x18")
	case 10, 11, 12: // CSI
		s := g.pick("\x1b[", "\x1b[", "\u009b") + g.params()
		if r.Intn(5) == 0 {
			s += g.pick(" ", "!", "\"", "$", "&/")
		}
		return s + string(rune(0x40+r.Intn(0x3f)))
	case 13, 14: // strings
		return g.pick("\x1bP", "\x1b]", "\x1b^", "\x1b_", "\u0090", "\u009d", "\u009e", "\u009f") + g.content() + g.pick("\x1b\\", "\u009c", "\x1b\x1b\\")
	default:
		return g.pick("\x1b[M", "\x1b[<0;3;4M", "\x1bOA", "\x1b[200~", "\x1b[?25h", "\x1b[38;5;12m")
	}
}

// stream of n items, cut into chunks: at random, or only between items.
func (g *items) chunks(n, maxChunk int, aligned bool) (cs [][]byte) {
	g.noDangle = aligned
	if aligned {
		for ; n > 0; n-- {
			cs = append(cs, []byte(g.item()))
		}
		return cs
	}
	var s []byte
	for ; n > 0; n-- {
		s = append(s, g.item()...)
	}
	for len(s) > 0 {
		m := 1 + g.r.Intn(maxChunk)
		if m > len(s) {
			m = len(s)
		}
		cs = append(cs, s[:m:m])
		s = s[m:]
	}
	return cs
}
