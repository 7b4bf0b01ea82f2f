package main

import (
	"math/rand"

	"github.com/jcorbin/anansi/ansi"
)

// An attribute is logged as [flags, fg, bg]: flags 1 bold, 2 dim, 4 italic,
// 8 underscore, 16 negative, 32 conceal, 64 explicit clear; colors -1 unset,
// 0..255 palette, 2^24 + rgb for 24-bit.
type attrT [3]int

const (
	fBold = 1 << iota
	fDim
	fItalic
	fUnder
	fNeg
	fConceal
	fClear
)

const rgbBase = 1 << 24

func mkColor(c int) ansi.SGRColor {
	if c >= rgbBase {
		return ansi.RGB(uint8(c>>16), uint8(c>>8), uint8(c))
	}
	return ansi.SGRColor(c)
}

var attrCache = map[ansi.SGRAttr]attrT{0: {0, -1, -1}}

var flagBits = []struct {
	f int
	a ansi.SGRAttr
}{
	{fBold, ansi.SGRAttrBold}, {fDim, ansi.SGRAttrDim}, {fItalic, ansi.SGRAttrItalic},
	{fUnder, ansi.SGRAttrUnderscore}, {fNeg, ansi.SGRAttrNegative},
	{fConceal, ansi.SGRAttrConceal}, {fClear, ansi.SGRAttrClear},
}

// mkAttr builds the library's attribute value.
func mkAttr(t attrT) (a ansi.SGRAttr) {
	for _, fb := range flagBits {
		if t[0]&fb.f != 0 {
			a |= fb.a
		}
	}
	if t[1] >= 0 {
		a |= mkColor(t[1]).FG()
	}
	if t[2] >= 0 {
		a |= mkColor(t[2]).BG()
	}
	if _, have := attrCache[a]; !have {
		attrCache[a] = t
	}
	return a
}

func unColor(c ansi.SGRColor) int {
	if c >= 1<<24 {
		return rgbBase + int(uint8(c))<<16 + int(uint8(c>>8))<<8 + int(uint8(c>>16))
	}
	return int(c)
}

// unAttr projects an attribute value.
func unAttr(a ansi.SGRAttr) attrT {
	if t, ok := attrCache[a]; ok {
		return t
	}
	t := attrT{0, -1, -1}
	for _, fb := range flagBits {
		if a&fb.a != 0 {
			t[0] |= fb.f
		}
	}
	if c, ok := a.FG(); ok {
		t[1] = unColor(c)
	}
	if c, ok := a.BG(); ok {
		t[2] = unColor(c)
	}
	return t
}

func randColor(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0, 1:
		return r.Intn(8)
	case 2:
		return 8 + r.Intn(8)
	case 3:
		return 16 + r.Intn(240)
	case 4:
		return rgbBase + r.Intn(1<<24)
	default:
		// boundary components
		v := []int{0, 1, 9, 10, 99, 100, 127, 128, 254, 255}
		return rgbBase + v[r.Intn(10)]<<16 + v[r.Intn(10)]<<8 + v[r.Intn(10)]
	}
}

func randAttr(r *rand.Rand) attrT {
	t := attrT{0, -1, -1}
	switch r.Intn(5) {
	case 0:
		return t
	case 1:
		t[0] = 1 << uint(r.Intn(6))
		return t
	case 2:
		t[1] = randColor(r)
		return t
	case 3:
		t[2] = randColor(r)
		return t
	}
	t[0] = r.Intn(64)
	if r.Intn(2) == 0 {
		t[1] = randColor(r)
	}
	if r.Intn(2) == 0 {
		t[2] = randColor(r)
	}
	return t
}

// smallAttr is from a small palette, so that repetition happens.
func smallAttr(r *rand.Rand) attrT {
	ts := []attrT{{0, -1, -1}, {0, -1, -1}, {1, -1, -1}, {0, 1, -1}, {0, 2, -1}, {0, -1, 4}, {3, 1, 4}, {32, -1, -1}}
	return ts[r.Intn(len(ts))]
}
