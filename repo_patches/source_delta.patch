From 5c9f4913167c49c097fc8e2b15d116199cc2dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 01/79] fix: Cursor.To computes vertical distance from the row,
 not the column

A move within one column ended up as no move at all (dy was taken from the
just assigned X), so the tracked and the real cursor diverged.
---
 state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 5104884..112acf7 100644
--- a/state.go
+++ b/state.go
@@ -158,7 +158,7 @@ func (cs *Cursor) To(pt ansi.Point) ansi.Seq {
 		return ansi.CUB.WithInts(-dx)
 	}
 
-	dy := pt.X - cs.X
+	dy := pt.Y - cs.Y
 	cs.Y = pt.Y
 	switch {
 	case dy == 0:
-- 
2.43.0


From e76735f0d79310e41dfeeabf37d7fc278d89fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 02/79] fix: do not derive relative motions from an out of
 bounds cursor

After writing the last column, or after showing the user cursor beyond the
margins, the tracked position is not where the terminal's cursor is; moves
relative to it misplaced later output. A newline to a user cursor below the
last row scrolled the screen.
---
 state.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/state.go b/state.go
index 112acf7..3cee31f 100644
--- a/state.go
+++ b/state.go
@@ -234,8 +234,16 @@ func (sc *Screen) Update(w io.Writer, prior Screen) (int, Screen, error) {
 func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
 	var n, m int
 	n += aw.WriteSeq(prior.Cursor.Hide())
+	// the terminal's cursor is only known within the margins: past the last
+	// column it may be waiting to wrap, and any out of bounds motion clamps
+	if !prior.Cursor.Point.In(prior.Bounds()) {
+		prior.Cursor.Point = ansi.ZP
+	}
 	m, prior = writeGrid(aw, sc.Grid, prior, NoopStyle)
 	n += m
+	if b := sc.Bounds(); sc.Cursor.Point.Valid() && !(prior.Cursor.Point.In(b) && sc.Cursor.Point.In(b)) {
+		prior.Cursor.Point = ansi.ZP
+	}
 	m, prior.Cursor = sc.Cursor.applyTo(aw, prior.Cursor)
 	n += m
 	prior.Resize(sc.Grid.Bounds().Size())
-- 
2.43.0


From 8881cab77e0731710a74f14ac73cc1c556dc2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 03/79] fix: a full redraw erases with the default background

ED fills with the current background color on terminals with background
color erase, and blank cells are not written by the full redraw, so they kept
the color of the last cell drawn.
---
 render.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/render.go b/render.go
index 3157ac4..e7cdc6c 100644
--- a/render.go
+++ b/render.go
@@ -42,7 +42,12 @@ func writeGridFull(aw ansiWriter, cur Cursor, g Grid, style Style) (int, Cursor)
 		style = Styles(style, ZeroRuneStyle(empty))
 	}
 	style = Styles(style, DefaultRuneStyle(empty))
-	n := aw.WriteSeq(ansi.ED.With('2'))
+	n := 0
+	// many terminals erase with the current background color
+	if _, haveBG := cur.Attr.BG(); haveBG && cur.attrKnown {
+		n += aw.WriteSGR(cur.MergeSGR(0))
+	}
+	n += aw.WriteSeq(ansi.ED.With('2'))
 	// TODO support writing a sub-grid
 	for i, pt := 0, ansi.Pt(1, 1); i < len(g.Rune); {
 		if gr, ga := style.Style(pt, 0, g.Rune[i], 0, g.Attr[i]); gr != 0 {
-- 
2.43.0


From a1b052632eb85ca4e0afd444ba720d07114d6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 04/79] fix: keep assembled screen output apart from the
 emulation's input

ScreenDiffer shared one buffer between content written to the virtual screen
and output waiting to be written, so any Write*/Clear/Reset between a partial
write and its continuation lost or misread that output; Real was not updated
once a partially written update was completed; and after a hard error the
cursor's real attribute and visibility were still taken as known.
---
 screen.go | 62 +++++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/screen.go b/screen.go
index dd4a073..0277d26 100644
--- a/screen.go
+++ b/screen.go
@@ -24,6 +24,8 @@ type ScreenDiffer struct {
 
 	VirtualScreen
 	Real Screen
+
+	out Buffer // assembled output, maybe partially written
 }
 
 // VirtualScreen implements minimal terminal emulation around ScreenState.
@@ -87,41 +89,34 @@ func (sc *ScreenDiffer) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, errSubScreenDiff
 	}
 
-	state := sc.Real
-	defer func() {
-		if err == nil {
-			sc.Real = state
-		}
-	}()
-
-	aw, haveAW := w.(ansiWriter)
-
-	// if caller didn't pass a buffered ansi writer, use internal buffer and
-	// then flush to the given io.Writer
-	if !haveAW {
-		defer func() {
-			n, err = sc.buf.WriteTo(w)
-			if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
-				sc.Reset()
-				sc.Invalidate()
-			}
-		}()
-
-		// continue prior write (e.g. after isEWouldBlock(err) above)
-		if sc.buf.Len() > 0 {
-			return
-		}
+	// use caller passed buffered ansi writer if possible
+	if aw, haveAW := w.(ansiWriter); haveAW {
+		return int64(sc.render(aw)), nil
+	}
 
-		aw = &sc.buf
+	// otherwise use internal buffer and then flush to the given io.Writer;
+	// skipping assembly to continue a prior write (e.g. after
+	// isEWouldBlock(err) below)
+	if sc.out.Len() == 0 {
+		sc.render(&sc.out)
+	}
+	n, err = sc.out.WriteTo(w)
+	if err != nil && unwrapOSError(err) != syscall.EWOULDBLOCK {
+		// some unknown part of the output got written: no real state is known
+		sc.out.Reset()
+		sc.Real.Cursor = Cursor{}
+		sc.Reset()
+		sc.Invalidate()
 	}
+	return n, err
+}
 
+// render performs a (full or differential) update of Real screen state.
+func (sc *ScreenDiffer) render(aw ansiWriter) (n int) {
 	// enforce final user cursor state
 	sc.VirtualScreen.Cursor = sc.UserCursor
-
-	// perform (full or differential) update
-	var m int
-	m, state = sc.VirtualScreen.update(aw, state)
-	return int64(m), err
+	n, sc.Real = sc.VirtualScreen.update(aw, sc.Real)
+	return n
 }
 
 // Write writes bytes to the internal buffer, updating screen state as describe
@@ -198,7 +193,12 @@ func (tsc *TermScreen) Enter(term *Term) error { return tsc.SizeToTerm(term) }
 // Exit Reset()s all virtual state, and restores real terminal graphics and
 // cursor state.
 func (tsc *TermScreen) Exit(term *Term) error {
-	// discard all virtual state...
+	// discard all virtual state, and any partially written update...
+	if tsc.out.Len() > 0 {
+		tsc.out.Reset()
+		tsc.Real.Cursor = Cursor{}
+		tsc.Invalidate()
+	}
 	tsc.Reset()
 	// ...and restore real cursor state
 	n := tsc.buf.WriteSGR(tsc.Real.Cursor.MergeSGR(0))
-- 
2.43.0


From 94b6b7da92f2e1dcd0316f330a9f896f68ac3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 05/79] fix: VirtualScreen.WriteSGR discards its processed
 bytes

They stayed in the buffer, and were then taken for unfinished output.
---
 screen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/screen.go b/screen.go
index 0277d26..15cc1ef 100644
--- a/screen.go
+++ b/screen.go
@@ -177,6 +177,7 @@ func (vsc *VirtualScreen) WriteSGR(attrs ...ansi.SGRAttr) (n int) {
 	}
 	if n > 0 {
 		vsc.buf.Skip(n)
+		vsc.buf.Discard()
 	}
 	return n
 
-- 
2.43.0


From 1148920ca0628853baf40fe7c3a9dec5d200772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 06/79] fix: Buffer.Process waits for incomplete input, and
 leaves the output alone

- an incomplete control sequence, string, or UTF-8 rune at the end of a write
  was passed on as runes, instead of waiting for its other bytes
- an ESC that cannot start a sequence (followed by another ESC, or by invalid
  UTF-8) stopped processing forever
- a cancelled sequence produced a spurious U+FFFD, and the sequence following
  it was not recognized
- decoding works in place, so bytes to be written out got rewritten, e.g. a
  CSI split between two writes
---
 buffer.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/buffer.go b/buffer.go
index 9f85fb6..cd67c4a 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,8 @@ import (
 // an observant processor up to date.
 type Buffer struct {
 	buf bytes.Buffer
-	off int
+	off int    // end of processed bytes within buf
+	in  []byte // copy of processed bytes that are not yet decodable
 }
 
 // Len returns the number of unwritten bytes in the buffer.
@@ -36,6 +37,7 @@ func (b *Buffer) Bytes() []byte {
 func (b *Buffer) Reset() {
 	b.buf.Reset()
 	b.off = 0
+	b.in = b.in[:0]
 }
 
 // WriteTo writes all bytes from the internal buffer to the given io.Writer.
@@ -130,6 +132,9 @@ func (b *Buffer) WriteByte(c byte) error {
 // update and avoiding (re)parsing the written bytes.
 func (b *Buffer) Skip(n int) {
 	b.off += n
+	if n > 0 {
+		b.in = b.in[:0] // whatever came before is cut short
+	}
 }
 
 // Discard processed bytes, re-using internal buffer space during the next Write*.
@@ -143,28 +148,55 @@ func (b *Buffer) Discard() {
 // Process bytes written to the internal buffer, decoding runes and escape
 // sequences, and passing them to the given processor.
 func (b *Buffer) Process(proc Processor) {
-	b.off += Process(proc, b.buf.Bytes()[b.off:])
+	// NOTE decoding works in place, so use a copy to not alter what gets written
+	b.in = append(b.in, b.buf.Bytes()[b.off:]...)
+	b.off = b.buf.Len()
+	n := Process(proc, b.in)
+	b.in = b.in[:copy(b.in, b.in[n:])]
 }
 
 // Process decodes ansi escapes and utf8 runes from p, passing them to proc.
+// Returns the number of bytes processed, leaving any incomplete escape
+// sequence or rune at the end of p unprocessed.
 func Process(proc Processor, p []byte) (n int) {
 	for n < len(p) {
 		e, a, m := ansi.DecodeEscape(p[n:])
 		n += m
 		if e == 0 {
-			switch r, m := utf8.DecodeRune(p[n:]); r {
-			case '\x1b':
+			if m > 0 {
+				continue // cancelled sequence
+			}
+			r, m := utf8.DecodeRune(p[n:])
+			switch r {
+			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 				return n
-			default:
-				n += m
-				e = ansi.Escape(r)
+			case 0x1B: // ESC
+				if incompleteESC(p[n:]) {
+					return n
+				}
+			case utf8.RuneError:
+				if !utf8.FullRune(p[n:]) {
+					return n
+				}
 			}
+			n += m
+			e = ansi.Escape(r)
 		}
 		proc.ProcessANSI(e, a)
 	}
 	return n
 }
 
+// incompleteESC returns true only if more bytes may complete the escape
+// sequence that p starts with.
+func incompleteESC(p []byte) bool {
+	p = p[1:]
+	for len(p) > 0 && 0x20 <= p[0] && p[0] <= 0x2F {
+		p = p[1:]
+	}
+	return !utf8.FullRune(p)
+}
+
 // Processor receives decoded ANSI escape sequences and Unicode runes from
 // Buffer.Process.
 type Processor interface {
-- 
2.43.0


From 004435c1226773d6deca3944e8279fc87c7824bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 07/79] fix: a string control with invalid UTF-8 in it can be
 terminated

It was taken for incomplete forever, and all further input with it.
---
 ansi/decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 6a80a96..24f19c2 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -207,7 +207,10 @@ func decodeString(p []byte) (a []byte, n int) {
 	for {
 		switch r {
 		case utf8.RuneError:
-			return nil, 0
+			// wait for more bytes, but pass over any invalid ones
+			if !utf8.FullRune(p[n:]) {
+				return nil, 0
+			}
 		case 0x9C:
 			return p[:n], n + m
 		}
-- 
2.43.0


From 53649be184a99bd434c189eb6df4d090f1e06e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 08/79] fix: Input.Decode does not split runes at read
 boundaries

Bytes of a UTF-8 sequence that was not read completely yet were delivered as
U+FFFD each; and a cancelled escape sequence at the end of the input, or one
followed by another sequence, produced a spurious rune.
---
 input.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index d7e20a4..160871c 100644
--- a/input.go
+++ b/input.go
@@ -141,11 +141,16 @@ func (in *Input) decodeEscape() (e ansi.Escape, a []byte) {
 	if in.buf.Len() == 0 {
 		return 0, nil
 	}
-	e, a, n := ansi.DecodeEscape(in.buf.Bytes())
-	if n > 0 {
-		in.buf.Next(n)
+	for {
+		e, a, n := ansi.DecodeEscape(in.buf.Bytes())
+		if n > 0 {
+			in.buf.Next(n)
+		}
+		if e != 0 || n == 0 || in.buf.Len() == 0 {
+			return e, a
+		}
+		// cancelled sequence, maybe followed by another
 	}
-	return e, a
 }
 
 func (in *Input) decodeRune() (rune, bool) {
@@ -154,6 +159,9 @@ func (in *Input) decodeRune() (rune, bool) {
 	}
 	r, n := utf8.DecodeRune(in.buf.Bytes())
 	if !in.ateof {
+		if !utf8.FullRune(in.buf.Bytes()) {
+			return 0, false
+		}
 		switch r {
 		case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 			return 0, false
-- 
2.43.0


From 5091357839b01d2d2a36fefd2e76df22524d1b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 09/79] fix: Events.DecodeBytes does not make an event of a
 cancelled sequence

---
 x/platform/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 5baed5c..a211b58 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -190,6 +190,9 @@ func (es *Events) DecodeBytes(b []byte) {
 		e, a, n := ansi.DecodeEscape(b)
 		b = b[n:]
 		if e == 0 {
+			if n > 0 {
+				continue // cancelled sequence
+			}
 			r, n := utf8.DecodeRune(b)
 			b = b[n:]
 			e = ansi.Escape(r)
-- 
2.43.0


From 329bdb1798c57966aca253b7ebdf3b87d8ed6356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 10/79] fix: Events keep their own copy of escape arguments

---
 x/platform/event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index a211b58..527a4e4 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -228,6 +228,6 @@ func (es *Events) add(e ansi.Escape, a []byte) {
 
 	es.Type = append(es.Type, kind)
 	es.esc = append(es.esc, e)
-	es.arg = append(es.arg, a)
+	es.arg = append(es.arg, append([]byte(nil), a...)) // a is only valid until the next decode
 	es.mouse = append(es.mouse, m)
 }
-- 
2.43.0


From dc47976b4fc5a96cbaaa00419609e201c8bb0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 11/79] fix: Input.ReadMore waits for input, and input flags
 are cleared once off

---
 input.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/input.go b/input.go
index 160871c..d9f1b76 100644
--- a/input.go
+++ b/input.go
@@ -200,12 +200,15 @@ func (in *Input) ReadMore() (int, error) {
 
 		case syscall.EWOULDBLOCK:
 			in.ateof = false
-			if n > 0 {
-				return n, nil
-			}
-			if err := in.setNonblock(false); err != nil {
-				return 0, err
+			if n == 0 {
+				// wait for input, even if the flag was not set by us
+				in.nonblock = false
+				if _, err := in.setFlags(); err != nil {
+					return 0, err
+				}
+				continue
 			}
+			err = nil
 
 		case nil:
 			in.ateof = false
@@ -397,9 +400,13 @@ func (in *Input) setFlags() (prior uintptr, _ error) {
 func (in *Input) buildFlags(flags uintptr) uintptr {
 	if in.nonblock {
 		flags |= syscall.O_NONBLOCK
+	} else {
+		flags &^= syscall.O_NONBLOCK
 	}
 	if in.async {
 		flags |= syscall.O_ASYNC
+	} else {
+		flags &^= syscall.O_ASYNC
 	}
 	return flags
 }
-- 
2.43.0


From 8363461c2389a423fe3a82629485e3e7aa1b01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 12/79] fix: DecodeMode fails where there is no number

---
 ansi/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ansi/decode.go b/ansi/decode.go
index 24f19c2..0280feb 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -522,6 +522,9 @@ func DecodeMode(private bool, a []byte) (mode Mode, n int, _ error) {
 	}
 	r, m, err := DecodeNumber(a[n:])
 	n += m
+	if err == nil && (m == 0 || a[n-1] == ';') {
+		err = errModeInvalid // no number there
+	}
 	if err == nil {
 		mode = Mode(r)
 		if private {
-- 
2.43.0


From bc7e6f8268db6cdc86ba5ce2ab0d61feb27aee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 13/79] fix: erase functions default to erasing from, and
 including, the cursor

---
 state.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/state.go b/state.go
index 3cee31f..c2ff6af 100644
--- a/state.go
+++ b/state.go
@@ -394,16 +394,16 @@ func (sc *Screen) ProcessANSI(e ansi.Escape, a []byte) {
 func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 	switch e {
 	case ansi.ED:
-		var val byte
+		val := byte('0') // default when no argument given
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 0 {
 			return
 		}
 		switch val {
 		case '0': // Erase from current position to bottom of screen inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
-				sc.clearRegion(i+1, len(sc.Rune))
+				sc.clearRegion(i, len(sc.Rune))
 			}
 		case '1': // Erase from top of screen to current position inclusive
 			if i, ok := sc.CellOffset(sc.Cursor.Point); ok {
@@ -414,10 +414,10 @@ func (sc *Screen) processEscape(e ansi.Escape, a []byte) {
 		}
 
 	case ansi.EL:
-		var val byte
+		val := byte('0') // default when no argument given
 		if len(a) == 1 {
 			val = a[0]
-		} else {
+		} else if len(a) > 0 {
 			return
 		}
 
-- 
2.43.0


From d0cfb932c6ef8e461788abb2473d17addbdda0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 14/79] fix: VirtualCursor.Apply skips processing of what it
 writes

---
 cursor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 815ba18..786a9ea 100644
--- a/cursor.go
+++ b/cursor.go
@@ -124,7 +124,9 @@ func (c *VirtualCursor) Hide() {
 // Apply the given cursor state, writing any necessary escape sequences into
 // the internal buffer.
 func (c *VirtualCursor) Apply(cs Cursor) {
-	_, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	n := 0
+	n, c.Cursor = cs.applyTo(&c.buf, c.Cursor)
+	c.buf.Skip(n)
 }
 
 var _ ansiWriter = &VirtualCursor{}
-- 
2.43.0


From 2a6899467d56878cf51cc1e1840461e57fa9e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 15/79] fix: relative motion does not make an unknown cursor
 position known

---
 state.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/state.go b/state.go
index c2ff6af..fe9d24c 100644
--- a/state.go
+++ b/state.go
@@ -257,6 +257,8 @@ func (sc *Screen) update(aw ansiWriter, prior Screen) (int, Screen) {
 //
 // Graphic runes advance the cursor X position.
 //
+// Relative motion of an unknown (not positive) position component leaves it unknown.
+//
 // Supported escape sequences:
 //   - CUU, CUD, CUF, and CUB all relatively update Point
 //   - CUP sets Point absolutely
@@ -271,12 +273,16 @@ func (cs *Cursor) ProcessANSI(e ansi.Escape, a []byte) {
 	case e.IsEscape():
 		cs.processEscape(e, a, ptID)
 	case e == '\x0A': // LF
-		cs.Y++
+		if cs.Y > 0 {
+			cs.Y++
+		}
 	case e == '\x0D': // CR
 		cs.X = 1
 	// TODO anything for other control runes?
 	case unicode.IsGraphic(rune(e)):
-		cs.X++ // TODO support double-width runes
+		if cs.X > 0 {
+			cs.X++ // TODO support double-width runes
+		}
 	}
 }
 
@@ -299,6 +305,12 @@ func (cs *Cursor) processEscape(
 			}
 			d = d.Mul(n)
 		}
+		if cs.X < 1 {
+			d.X = 0
+		}
+		if cs.Y < 1 {
+			d.Y = 0
+		}
 		cs.Point = clamp(cs.Point.Add(d))
 
 	case ansi.CUP: // absolute cursor motion
-- 
2.43.0


From 4c3dd6ecf7e99817874025db8623049a8331b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 16/79] fix: DecodeSGR decodes conceal, and no codes as a clear

---
 ansi/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ansi/decode.go b/ansi/decode.go
index 0280feb..8a8e266 100644
--- a/ansi/decode.go
+++ b/ansi/decode.go
@@ -310,7 +310,11 @@ func DecodePoint(a []byte) (p Point, n int, err error) {
 
 // DecodeSGR decodes an SGR attribute value from the given byte buffer; if
 // non-nil error is returned, then n indicates the index of the offending byte.
+// No codes given decodes the same as a clear code.
 func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
+	if len(a) == 0 {
+		return SGRAttrClear, 0, nil
+	}
 	for n < len(a) {
 		switch a[n] {
 		case ';':
@@ -334,7 +338,7 @@ func DecodeSGR(a []byte) (attr SGRAttr, n int, _ error) {
 					0, // slow blink not supported
 					0, // fast blink not supported
 					SGRAttrNegative,
-					0, // concealed not supported
+					SGRAttrConceal,
 				}[a[n]-'0']; at {
 				case 0:
 				case SGRAttrClear:
-- 
2.43.0


From 69dcb963bf4b10bae74047a499c97d43b328ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 17/79] fix: SGRReset is an SGR clear code, not a NUL

---
 ansi/sgr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/sgr.go b/ansi/sgr.go
index ccf77a8..26b9213 100644
--- a/ansi/sgr.go
+++ b/ansi/sgr.go
@@ -47,7 +47,7 @@ const (
 
 // SGRReset resets graphic rendition (foreground, background, text and other
 // character attributes) to default.
-var SGRReset = SGR.With(SGRCodeClear)
+var SGRReset = SGR.With('0' + SGRCodeClear)
 
 // SGRAttr represents commonly used SGR attributes (ignoring blinks and fonts).
 type SGRAttr uint64
-- 
2.43.0


From 432a6c6fdee2c38153a0fe725185f7fdbdd11a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 18/79] fix: escape codes encode over their whole documented
 ranges, character set controls before their argument

---
 ansi/control.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ansi/control.go b/ansi/control.go
index 960eaa4..5836569 100644
--- a/ansi/control.go
+++ b/ansi/control.go
@@ -28,7 +28,7 @@ type Seq struct {
 
 func (id Escape) seq() Seq {
 	switch {
-	case 0x0000 < id && id < 0x001F,
+	case 0x0000 < id && id <= 0x001F,
 		0xEF00 < id && id < 0xEFFF:
 		return Seq{id: id}
 	}
@@ -122,11 +122,11 @@ func (seq Seq) WithPoint(p Point) Seq { return seq.WithInts(p.Y, p.X) }
 func (id Escape) AppendTo(p []byte) []byte {
 	// TODO stricter
 	switch {
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id < 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return append(p, '\x1b', byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(p, '\x1b', '[', byte(id&0x7F))
@@ -141,9 +141,11 @@ func (id Escape) AppendWith(p []byte, arg ...byte) []byte {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return append(p, byte(id&0x1F))
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return append(p, '\x1b', byte(0x40|id&0x1F))
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control + argument
+		return append(append(p, '\x1b', byte(id&0x7F)), arg...)
+	case 0xEF30 <= id && id <= 0xEF7E: // ESC + byte
 		return append(append(append(p, '\x1b'), arg...), byte(id&0x7F))
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return append(append(append(p, '\x1b', '['), arg...), byte(id&0x7F))
@@ -158,7 +160,7 @@ func (seq Seq) AppendTo(p []byte) []byte {
 	}
 	switch id := seq.id; {
 	case id == 0:
-	case 0x0000 < id && id < 0x001F: // C0 controls
+	case 0x0000 < id && id <= 0x001F: // C0 controls
 		p = append(p, byte(id))
 		p = seq.appendArgBytes(p)
 	case 0xEF80 < id && id < 0xEFFF: // CSI
@@ -166,15 +168,16 @@ func (seq Seq) AppendTo(p []byte) []byte {
 		p = seq.appendArgBytes(p)
 		p = seq.appendArgNums(p)
 		p = append(p, byte(id&0x7F))
+	case 0xEF20 <= id && id <= 0xEF2F: // ESC character set control
+		// NOTE character set selection sequences are special, in that they're
+		// always a 3 byte sequence, and identified by the first
+		// (intermediate range) byte after the ESC
+		p = append(p, '\x1b', byte(id&0x7F))
+		p = seq.appendArgBytes(p)
 	case 0xEF00 < id && id < 0xEF7F: // ESC
 		p = append(p, '\x1b')
 		p = seq.appendArgBytes(p)
 		p = append(p, byte(id&0x7F))
-	case 0xEF20 < id && id < 0xEF2F: // ESC character set control
-		// NOTE character set selection sequences are special, in that they're
-		// always a 3 byte sequence, and identified by the first
-		// (intermediate range) byte after the ESC
-		p = append(p, '\x1b', byte(id&0x7F), seq.argBytes[0])
 	default:
 		panic("inconceivable: should not be able to construct a Seq like that")
 	}
@@ -220,9 +223,9 @@ func (id Escape) Size() int {
 	switch {
 	case 0x0000 < id && id <= 0x001F: // C0 controls
 		return 1
-	case 0x0080 < id && id <= 0x009F: // C1 controls
+	case 0x0080 <= id && id <= 0x009F: // C1 controls
 		return 2
-	case 0xEF20 < id && id < 0xEF7E: // ESC + byte
+	case 0xEF20 <= id && id <= 0xEF7E: // ESC + byte
 		return 2
 	case 0xEF80 < id && id < 0xEFFF: // CSI + arg (if any)
 		return 3
-- 
2.43.0


From d67448f9fb36e9a4f65d28c0955d6ffab19ea93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 19/79] fix: ModeMouseX10 is a private mode

---
 ansi/modes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ansi/modes.go b/ansi/modes.go
index 5e2ec9b..6db8a5e 100644
--- a/ansi/modes.go
+++ b/ansi/modes.go
@@ -27,7 +27,7 @@ func (mode Mode) Reset() Seq {
 // private mode constants
 // TODO more coverage
 const (
-	ModeMouseX10 Mode = 9
+	ModeMouseX10 = ModePrivate | 9
 )
 
 // xterm mode constants; see http://invisible-island.net/xterm/ctlseqs/ctlseqs.html.
-- 
2.43.0


From 353072367c2c87e0e4f19ffce3b59673a6de8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 20/79] fix: Palette finds the closest color, not just a close
 one

---
 ansi/colors.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 71cb641..0acaa9c 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -718,8 +718,9 @@ func (p Palette) Index(c SGRColor) int {
 	return ret
 }
 
-// sqDiff borrowed from image/color
+// sqDiff borrowed from image/color; sums of 8-bit differences need no scaling
+// down to not overflow.
 func sqDiff(x, y uint8) uint32 {
 	d := uint32(x) - uint32(y)
-	return (d * d) >> 2
+	return d * d
 }
-- 
2.43.0


From e6bede51706621ec6bfbe8b8f9cca189338c3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 21/79] fix: ColorModels does not share memory with the models
 it combines

---
 ansi/colors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ansi/colors.go b/ansi/colors.go
index 0acaa9c..ecd01b2 100644
--- a/ansi/colors.go
+++ b/ansi/colors.go
@@ -465,9 +465,9 @@ func ColorModels(models ...ColorModel) ColorModel {
 		as, haveAs := a.(colorModels)
 		bs, haveBs := b.(colorModels)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(colorModels{a}, bs...)
 		} else {
-- 
2.43.0


From 3a87096a7f79e59d579b11b1931b577255f04ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 22/79] fix: a styled DrawGrid stays within both grids

The source row was never advanced, so a source shorter than the destination
read beyond its end, into rows outside of a sub-grid or out of its data, and
the destination column was not either, so styles got the wrong point and a
narrower destination (sub) grid was overrun.
---
 draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/draw.go b/draw.go
index 9c96863..4280176 100644
--- a/draw.go
+++ b/draw.go
@@ -31,9 +31,11 @@ func DrawGrid(dst, src Grid, styles ...Style) {
 			sii++
 			dii++
 			sp.X++
+			dp.X++
 		}
 		si += src.Stride
 		di += dst.Stride
+		sp.Y++
 		dp.Y++
 	}
 }
-- 
2.43.0


From 75f26b43bef144bc07612cd6143831d94bc99d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 23/79] fix: a grid resized to zero width is not a sub-grid

It could never be resized again, and clearing it failed.
---
 grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grid.go b/grid.go
index c2c3db4..c1e304c 100644
--- a/grid.go
+++ b/grid.go
@@ -93,7 +93,7 @@ func (g Grid) CellOffset(pt ansi.Point) (int, bool) {
 // IsSub returns true if the grid's bounding rectangle only covers a
 // sub-section of its underlying data.
 func (g *Grid) IsSub() bool {
-	return g.Rect.Size() != g.fullSize()
+	return g.Stride != 0 && g.Rect.Size() != g.fullSize()
 }
 
 func (g *Grid) fullSize() image.Point {
-- 
2.43.0


From 478fb00af5f0893108232dd81f22267c776228b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 24/79] fix: resizing a sub-grid keeps it within its data

The size was limited to that of the full grid, no matter where in it the
sub-grid starts.
---
 grid.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grid.go b/grid.go
index c1e304c..61846ae 100644
--- a/grid.go
+++ b/grid.go
@@ -22,11 +22,12 @@ func (g *Grid) Resize(size image.Point) bool {
 		return false
 	}
 	if g.IsSub() {
-		if size.X > g.Stride {
-			size.X = g.Stride
+		avail := g.Full().Rect.Max.Diff(g.Rect.Min)
+		if size.X > avail.X {
+			size.X = avail.X
 		}
-		if g.Stride*size.Y > len(g.Rune) {
-			size.Y = len(g.Rune) / g.Stride
+		if size.Y > avail.Y {
+			size.Y = avail.Y
 		}
 		g.Rect.Max = g.Rect.Min.Add(size)
 	} else {
-- 
2.43.0


From 17f8406f34efd7efc37760176660054543c87b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:54 +0000
Subject: [PATCH 25/79] fix: Grid.Eq compares the size and contents of the
 (sub) grids

It compared all of the underlying data, so that grids of different shape could
be equal, and equal sub-grids differ.
---
 grid.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/grid.go b/grid.go
index 61846ae..f68eed6 100644
--- a/grid.go
+++ b/grid.go
@@ -148,25 +148,30 @@ func (g Grid) SubRect(r ansi.Rectangle) Grid {
 // Eq returns true only if the other grid has the same size and contents as the
 // receiver.
 func (g Grid) Eq(other Grid, zero rune) bool {
-	n := len(g.Rune)
-	if n != len(other.Rune) {
+	size := g.Rect.Size()
+	if size != other.Rect.Size() {
 		return false
 	}
-	i := 0
-	for ; i < n; i++ {
-		if g.Attr[i] != other.Attr[i] {
-			return false
-		}
-		gr, or := g.Rune[i], other.Rune[i]
-		if gr == 0 {
-			gr = zero
-		}
-		if or == 0 {
-			or = zero
-		}
-		if gr != or {
-			return false
+	gi, _ := g.CellOffset(g.Rect.Min)
+	oi, _ := other.CellOffset(other.Rect.Min)
+	for y := 0; y < size.Y; y++ {
+		for x := 0; x < size.X; x++ {
+			if g.Attr[gi+x] != other.Attr[oi+x] {
+				return false
+			}
+			gr, or := g.Rune[gi+x], other.Rune[oi+x]
+			if gr == 0 {
+				gr = zero
+			}
+			if or == 0 {
+				or = zero
+			}
+			if gr != or {
+				return false
+			}
 		}
+		gi += g.Stride
+		oi += other.Stride
 	}
 	return true
 }
-- 
2.43.0


From c8756dd2738bb60ab8f75f8c24243f604289ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 26/79] fix: TransparentAttrBGFG acts as TransparentAttrBG and
 TransparentAttrFG

A source attribute with only one of them set overwrote both.
---
 style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/style.go b/style.go
index b27a746..efefcab 100644
--- a/style.go
+++ b/style.go
@@ -140,7 +140,7 @@ var (
 
 	// TransparentAttrBGFG is a style that acts as both TransparentBG and
 	// TransparentAttrFG combined.
-	TransparentAttrBGFG Style = transparentAttrStyle(ansi.SGRAttrBGMask | ansi.SGRAttrFGMask | ansi.SGRAttrMask)
+	TransparentAttrBGFG Style = Styles(TransparentAttrBG, TransparentAttrFG)
 )
 
 type transparentRuneStyle struct{}
-- 
2.43.0


From deeb0980c574e664d18a402cd4c35dc58d5aabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 27/79] fix: Bitmap.Load pads its data to full rows

It appended len(data) modulo the number of rows, so partial rows stayed out of
the bitmap, and it failed on data of less than one row.
---
 bitmap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bitmap.go b/bitmap.go
index 2df4c15..3a7c9fd 100644
--- a/bitmap.go
+++ b/bitmap.go
@@ -15,9 +15,12 @@ type Bitmap struct {
 
 // Load the given bit data into the bitmap.
 func (bi *Bitmap) Load(stride int, data []bool) {
-	h := len(data) / stride
-	for i, n := 0, len(data)%h; i < n; i++ {
-		data = append(data, false)
+	h := 0
+	if stride > 0 {
+		h = (len(data) + stride - 1) / stride
+	}
+	if n := stride*h - len(data); n > 0 {
+		data = append(data[:len(data):len(data)], make([]bool, n)...)
 	}
 	bi.Bit = data
 	bi.Stride = stride
-- 
2.43.0


From 5c60d073231fd97ad332596720f4460e6a06b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 28/79] fix: WriteBitmap starts on the current line, and resets
 attributes

A sub-bitmap below the first row started with a newline, and after a cell with
an attribute those without one were written with it.
---
 render.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render.go b/render.go
index e7cdc6c..6c79045 100644
--- a/render.go
+++ b/render.go
@@ -139,7 +139,7 @@ func WriteBitmap(w io.Writer, bi Bitmap, styles ...Style) (int, error) {
 
 func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cursor) {
 	for bp := bi.Rect.Min; bp.Y < bi.Rect.Max.Y; bp.Y += 4 {
-		if bp.Y > 0 {
+		if bp.Y > bi.Rect.Min.Y {
 			n += aw.WriteSeq(cur.NewLine())
 		}
 		for bp.X = bi.Rect.Min.X; bp.X < bi.Rect.Max.X; bp.X += 2 {
@@ -147,7 +147,7 @@ func writeBitmap(aw ansiWriter, cur Cursor, bi Bitmap, style Style) (n int, _ Cu
 			sr := bi.Rune(bp)
 			r, a := style.Style(sp, 0, sr, 0, 0)
 
-			if a != 0 {
+			if a != 0 || cur.Attr != 0 {
 				ad := cur.MergeSGR(a)
 				n += aw.WriteSGR(ad)
 			}
-- 
2.43.0


From ba6c8b0d968ed844fde126de9d92aa9c4a0d037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:03 +0000
Subject: [PATCH 29/79] fix: RectFromImage returns the converted rectangle

---
 ansi/geom.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ansi/geom.go b/ansi/geom.go
index fe69b07..1c53a8f 100644
--- a/ansi/geom.go
+++ b/ansi/geom.go
@@ -45,6 +45,8 @@ func RectFromImage(ir image.Rectangle) (r Rectangle) {
 	if ir.Min.X < 0 || ir.Min.Y < 0 || ir.Max.X < 0 || ir.Max.Y < 0 {
 		panic("out of bounds image.Rectangle value")
 	}
+	r.Min = PtFromImage(ir.Min)
+	r.Max = PtFromImage(ir.Max)
 	return r
 }
 
-- 
2.43.0


From a4a17d1707a3c4a2d2f6c083967ec763ce4ec0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 30/79] fix: only the first RunWith closes its contexts

A RunWith within a RunWithout closed them too, and they were then entered again.
---
 term.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index 13481b8..02a5a39 100644
--- a/term.go
+++ b/term.go
@@ -98,7 +98,8 @@ func (term *Term) RunWith(within func(*Term) error) (err error) {
 		term.active = false
 	}()
 
-	if !term.under {
+	first := !term.under
+	if first {
 		term.under = true
 		defer func() {
 			term.under = false
@@ -107,7 +108,7 @@ func (term *Term) RunWith(within func(*Term) error) (err error) {
 
 	term.initContext()
 
-	if cl, ok := term.ctx.(interface{ Close() error }); ok {
+	if cl, ok := term.ctx.(interface{ Close() error }); first && ok {
 		defer func() {
 			if cerr := cl.Close(); err == nil {
 				err = cerr
-- 
2.43.0


From 350e06fe64ab9b7d531d074e1be0f02bb6724f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:30 +0000
Subject: [PATCH 31/79] fix: Contexts never writes into the contexts that it is
 given

Two compositions started from the same one could share a tail, so that the
later one replaced contexts of the earlier.
---
 context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 7c6da8d..4c9f1ff 100644
--- a/context.go
+++ b/context.go
@@ -38,9 +38,9 @@ func Contexts(cs ...Context) Context {
 		as, haveAs := a.(contexts)
 		bs, haveBs := b.(contexts)
 		if haveAs && haveBs {
-			a = append(as, bs...)
+			a = append(as[:len(as):len(as)], bs...)
 		} else if haveAs {
-			a = append(as, b)
+			a = append(as[:len(as):len(as)], b)
 		} else if haveBs {
 			a = append(contexts{a}, bs...)
 		} else {
-- 
2.43.0


From 42c8bfbb892d47f896a48d96ebfda9738dc7e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 32/79] fix: CountRune counts an event once

It was counted again for every repetition of its rune in the arguments.
---
 x/platform/event.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/event.go b/x/platform/event.go
index 527a4e4..d1e6828 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -79,6 +79,7 @@ func (es *Events) CountRune(rs ...rune) (n int) {
 			if es.esc[i] == ansi.Escape(r) {
 				es.Type[i] = EventNone
 				n++
+				break
 			}
 		}
 	}
-- 
2.43.0


From 11b41789c0e25e5fe6f3eae303de27fe7f5722a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 33/79] fix: backspace within an edit line deletes the rune
 before the cursor

It deleted the one after it.
---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index e87a76c..8954224 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -179,7 +179,7 @@ func (edl *EditLine) handleControlRune(ctx *Context, eid int) {
 		if edl.Cur > 0 {
 			if edl.Cur < utf8.RuneCount(edl.Buf) {
 				in := edl.Buf
-				for j := 0; j < edl.Cur; j++ {
+				for j := 0; j < edl.Cur-1; j++ {
 					_, n := utf8.DecodeRune(in)
 					in = in[n:]
 				}
-- 
2.43.0


From 63c0307f4bc66367ab2a3b7cfadf55151c41268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 34/79] fix: an edit line takes no more input once done or
 canceled

Runes that came in with the same frame, after <Enter>, were added to the
submitted text, and an <Esc> turned it into a canceled one.
---
 x/platform/editline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 8954224..7429ce7 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -56,7 +56,7 @@ func (edl *EditLine) Update(ctx *Context) {
 	if edl.handleEvent == nil {
 		edl.handleEvent = defaultBehavior
 	}
-	for eid := range ctx.Input.Type {
+	for eid := 0; eid < len(ctx.Input.Type) && edl.State == EditLineReady; eid++ {
 		edl.handleEvent(edl, ctx, eid)
 	}
 
-- 
2.43.0


From 7a1828f733032773c329d95dab7633ffaa5c7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 35/79] fix: an edit line draws within its box, with the cursor

If the text filled the box, then the cursor was placed right after it, where a
space was drawn too; and such a space was also drawn anywhere else that the
output cursor happened to be in the column of the cursor.
---
 x/platform/editline.go | 46 +++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/x/platform/editline.go b/x/platform/editline.go
index 7429ce7..d57303b 100644
--- a/x/platform/editline.go
+++ b/x/platform/editline.go
@@ -64,8 +64,20 @@ func (edl *EditLine) Update(ctx *Context) {
 		return
 	}
 
-	// TODO clamp to box, showing cursor
 	n := utf8.RuneCount(edl.Buf)
+	w := edl.Box.Dx()
+
+	// scroll no further than to show the end of the text, and the cursor when
+	// it is there
+	end := n
+	if edl.Cur == n {
+		end++
+	}
+	if max := end - w; max < 0 {
+		edl.View = 0
+	} else if edl.View > max {
+		edl.View = max
+	}
 
 	// ensure cursor past left rune offset
 	if edl.Cur < edl.View {
@@ -77,20 +89,13 @@ func (edl *EditLine) Update(ctx *Context) {
 	}
 
 	// ensure cursor within right rune offset
-	hi := edl.View + n
-	if w := edl.Box.Dx(); n > w {
-		hi = edl.View + w
-	}
-	if edl.Cur >= hi {
-		d := edl.Cur - hi
-		if hi < n {
-			d++
-		}
-		hi += d
-		edl.View += d
-	} else if reclaim := hi - n; reclaim > 0 {
-		edl.View -= reclaim
-		hi -= reclaim
+	if edl.Cur >= edl.View+w {
+		edl.View = edl.Cur - w + 1
+	}
+
+	hi := edl.View + w
+	if hi > n {
+		hi = n
 	}
 	lo := edl.View
 
@@ -105,15 +110,14 @@ func (edl *EditLine) Update(ctx *Context) {
 		_, n := utf8.DecodeLastRune(b)
 		b = b[:len(b)-n]
 	}
+	ctx.Output.UserCursor.Visible = true
+	ctx.Output.UserCursor.Point = ansi.Pt(edl.Box.Min.X+edl.Cur-edl.View, edl.Box.Min.Y)
 	if len(b) > 0 {
 		ctx.Output.To(edl.Box.Min)
 		ctx.Output.Write(b)
-	}
-
-	ctx.Output.UserCursor.Visible = true
-	ctx.Output.UserCursor.Point = ansi.Pt(edl.Box.Min.X+edl.Cur-edl.View, edl.Box.Min.Y)
-	if ctx.Output.Cursor.X == ctx.Output.UserCursor.X {
-		ctx.Output.WriteRune(' ')
+		if edl.Cur == n {
+			ctx.Output.WriteRune(' ')
+		}
 	}
 
 	return
-- 
2.43.0


From 22264065f0a4d956e25799d17216d3b90810c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 36/79] fix: contexts that a failed RunWithout already exited
 are not exited again

---
 term.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/term.go b/term.go
index 02a5a39..5c2c0dd 100644
--- a/term.go
+++ b/term.go
@@ -117,6 +117,9 @@ func (term *Term) RunWith(within func(*Term) error) (err error) {
 	}
 
 	defer func() {
+		if !term.active {
+			return // RunWithout failed, already having done Exit
+		}
 		if cerr := term.ctx.Exit(term); err == nil {
 			err = cerr
 		}
@@ -159,9 +162,8 @@ func (term *Term) RunWithout(without func(*Term) error) (err error) {
 	if err = term.ctx.Exit(term); err == nil {
 		term.active = false
 		if err = without(term); err == nil {
-			if err = term.ctx.Enter(term); err == nil {
-				term.active = true
-			}
+			term.active = true // even if Enter fails half way: needs Exit
+			err = term.ctx.Enter(term)
 		}
 	}
 	return err
-- 
2.43.0


From 9632b848604e3c7e2535879e72ee4ba03f17d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 37/79] fix: termios and size are no longer read into a stack
 that moved away

---
 attr.go       | 5 +++--
 attr_bsd.go   | 6 +++---
 attr_linux.go | 6 +++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/attr.go b/attr.go
index bbf46c0..14f34e5 100644
--- a/attr.go
+++ b/attr.go
@@ -6,6 +6,7 @@ import (
 	"image"
 	"os"
 	"syscall"
+	"unsafe"
 )
 
 var errAttrNoFile = errors.New("anansi.Attr.ioctl: no File set")
@@ -149,11 +150,11 @@ func (at *Attr) Exit(term *Term) error {
 	return nil
 }
 
-func (at Attr) ioctl(request, arg1, arg2, arg3, arg4 uintptr) error {
+func (at Attr) ioctl(request uintptr, arg unsafe.Pointer) error {
 	if at.file == nil {
 		return errAttrNoFile
 	}
-	if _, _, e := syscall.Syscall6(syscall.SYS_IOCTL, at.file.Fd(), request, arg1, arg2, arg3, arg4); e != 0 {
+	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, at.file.Fd(), request, uintptr(arg)); e != 0 {
 		return e
 	}
 	return nil
diff --git a/attr_bsd.go b/attr_bsd.go
index affb1f6..96b41f6 100644
--- a/attr_bsd.go
+++ b/attr_bsd.go
@@ -15,7 +15,7 @@ func (at Attr) getSize() (size image.Point, err error) {
 		xpixels uint16
 		ypixels uint16
 	}
-	err = at.ioctl(syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&dim)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGWINSZ, unsafe.Pointer(&dim))
 	if err == nil {
 		size.X = int(dim.cols)
 		size.Y = int(dim.rows)
@@ -24,10 +24,10 @@ func (at Attr) getSize() (size image.Point, err error) {
 }
 
 func (at Attr) getAttr() (attr syscall.Termios, err error) {
-	err = at.ioctl(syscall.TIOCGETA, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGETA, unsafe.Pointer(&attr))
 	return
 }
 
 func (at Attr) setAttr(attr syscall.Termios) error {
-	return at.ioctl(syscall.TIOCSETA, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	return at.ioctl(syscall.TIOCSETA, unsafe.Pointer(&attr))
 }
diff --git a/attr_linux.go b/attr_linux.go
index cb2f442..078a835 100644
--- a/attr_linux.go
+++ b/attr_linux.go
@@ -15,7 +15,7 @@ func (at Attr) getSize() (size image.Point, err error) {
 		xpixels uint16
 		ypixels uint16
 	}
-	err = at.ioctl(syscall.TIOCGWINSZ, uintptr(unsafe.Pointer(&dim)), 0, 0, 0)
+	err = at.ioctl(syscall.TIOCGWINSZ, unsafe.Pointer(&dim))
 	if err == nil {
 		size.X = int(dim.cols)
 		size.Y = int(dim.rows)
@@ -24,10 +24,10 @@ func (at Attr) getSize() (size image.Point, err error) {
 }
 
 func (at Attr) getAttr() (attr syscall.Termios, err error) {
-	err = at.ioctl(syscall.TCGETS, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	err = at.ioctl(syscall.TCGETS, unsafe.Pointer(&attr))
 	return
 }
 
 func (at Attr) setAttr(attr syscall.Termios) error {
-	return at.ioctl(syscall.TCSETS, uintptr(unsafe.Pointer(&attr)), 0, 0, 0)
+	return at.ioctl(syscall.TCSETS, unsafe.Pointer(&attr))
 }
-- 
2.43.0


From fd42f78a5d03f4dd0e352b41d11aab65da88dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 38/79] fix: writing to a log sink after an unterminated line
 no longer panics

---
 x/platform/log.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 5aaf33e..7966db7 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -43,6 +43,9 @@ func (logs *LogSink) Read(p []byte) (n int, err error) {
 	for i = 0; i < len(logs.bufEOLs); i++ {
 		logs.bufEOLs[i] -= n
 	}
+	if logs.buf.Len() == 0 {
+		logs.bufEOLs = logs.bufEOLs[:0]
+	}
 	return n, err
 }
 
@@ -62,7 +65,7 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 
 	b := logs.buf.Bytes()
 	// unwind any implicit EOL-at-EOF
-	if i := len(logs.bufEOLs) - 1; i >= 0 && b[logs.bufEOLs[i]] != '\n' {
+	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] >= len(b) {
 		logs.bufEOLs = logs.bufEOLs[:i]
 	}
 	for off := 0; off < len(p); off++ {
-- 
2.43.0


From e3e367812aa5a00d224a3dc96f69d3559a562427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 39/79] fix: stopping a busy background worker, or one that
 failed twice, no longer hangs

---
 x/platform/diag.go | 22 ++++++++++++----------
 x/platform/log.go  | 14 ++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index ff16794..2a82a66 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -356,20 +356,23 @@ func (coll *telemetryCollector) Start() error {
 	if err := coll.bgWorkerCore.Start(); err != nil {
 		return err
 	}
-	go coll.worker()
+	go coll.worker(coll.w, coll.e)
 	coll.buf.Grow(64 * 1024)
 	return nil
 }
 
-func (coll *telemetryCollector) worker() {
-	defer close(coll.e)
+func (coll *telemetryCollector) worker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-coll.w
-		coll.logData()
+		_, open = <-w
+		if err := coll.logData(); err != nil {
+			e <- err
+			break
+		}
 	}
 }
 
-func (coll *telemetryCollector) logData() {
+func (coll *telemetryCollector) logData() error {
 	coll.Lock()
 	defer coll.Unlock()
 
@@ -425,10 +428,8 @@ func (coll *telemetryCollector) logData() {
 			coll.stalls = nil
 		}
 
-		if _, err := coll.buf.WriteTo(coll.f); err != nil {
-			coll.e <- err
-		}
-		return
+		_, err := coll.buf.WriteTo(coll.f)
+		return err
 	}
 
 	if coll.timing != nil {
@@ -439,6 +440,7 @@ func (coll *telemetryCollector) logData() {
 		log.Printf("output stalls %v", coll.stalls)
 		coll.stalls = nil
 	}
+	return nil
 }
 
 func appendDurationsTo(buf *bytes.Buffer, ds []time.Duration) {
diff --git a/x/platform/log.go b/x/platform/log.go
index 7966db7..5a3831d 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -92,7 +92,7 @@ func (logs *LogSink) Start() error {
 	err := logs.bgWorkerCore.Start()
 	if err == nil {
 		logs.direct = false
-		go logs.flushWorker()
+		go logs.flushWorker(logs.w, logs.e)
 	}
 	return err
 }
@@ -108,15 +108,13 @@ func (logs *LogSink) Stop() error {
 	return err
 }
 
-func (logs *LogSink) flushWorker() {
-	defer close(logs.e)
+func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
+	defer close(e)
 	for open := true; open; {
-		_, open = <-logs.w
-		if logs.f == nil {
-			break
-		}
+		_, open = <-w
 		if err := logs.flush(); err != nil {
-			logs.e <- err
+			e <- err
+			break
 		}
 	}
 }
-- 
2.43.0


From 5f39f2169c9e9b6b96bc0f928ddde9849d954e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 40/79] fix: logs written while the background worker writes to
 the file are no longer lost

---
 x/platform/log.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index 5a3831d..b7719b8 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -24,7 +24,8 @@ type LogSink struct {
 
 	direct bool
 	bgWorkerCore
-	fbuf bytes.Buffer
+	fbuf bytes.Buffer // deferred writes, shared with any background goroutine
+	wbuf bytes.Buffer // taken from fbuf to be written
 	f    *os.File
 }
 
@@ -59,7 +60,9 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 				return n, err
 			}
 		} else {
+			logs.Lock()
 			_, _ = logs.fbuf.Write(p)
+			logs.Unlock()
 		}
 	}
 
@@ -120,7 +123,10 @@ func (logs *LogSink) flushWorker(w <-chan struct{}, e chan<- error) {
 }
 
 func (logs *LogSink) flush() error {
-	_, err := logs.fbuf.WriteTo(logs.f)
+	logs.Lock()
+	_, _ = logs.fbuf.WriteTo(&logs.wbuf)
+	logs.Unlock()
+	_, err := logs.wbuf.WriteTo(logs.f)
 	return err
 }
 
-- 
2.43.0


From 7dfb481230cece23efd988fffe580f72dbc9235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 41/79] fix: changing the log file first writes what was logged
 to the old one

---
 x/platform/log.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index b7719b8..b608ee3 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -136,20 +136,26 @@ func (logs *LogSink) SetFile(f *os.File) error {
 	if logs.f == f {
 		return nil
 	}
-	if logs.f != nil {
-		if err := logs.f.Close(); err != nil {
-			return fmt.Errorf("failed to close log file %q: %v", logs.f.Name(), err)
+	if f != nil {
+		log.Printf("logging to %q", f.Name())
+	} else {
+		log.Printf("disabling log file output")
+	}
+	if old := logs.f; old != nil {
+		err := logs.Stop()
+		if cerr := old.Close(); err == nil {
+			err = cerr
+		}
+		logs.f = nil
+		logs.fbuf.Reset()
+		logs.wbuf.Reset()
+		if err != nil {
+			return fmt.Errorf("failed to close log file %q: %v", old.Name(), err)
 		}
 	}
 	if f != nil {
-		log.Printf("logging to %q", f.Name())
 		logs.f = f
 		return logs.Start()
 	}
-	if logs.f != nil {
-		log.Printf("disabling log file output")
-		logs.f = nil
-		return logs.Stop()
-	}
 	return nil
 }
-- 
2.43.0


From acfedfb2878ddf07c4cec7ec961b1ce9f9876340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 42/79] fix: read back the frames that were recorded

Recorded input was decoded across frame marks, so that any sequence cut by a
read took the following mark along, bytes that are not UTF-8 were replaced,
sequences were re-encoded, a NUL was added for every read, and recorded read
errors came back as messages.
---
 input.go | 112 ++++++++++++++++++++++++-------------------------------
 1 file changed, 48 insertions(+), 64 deletions(-)

diff --git a/input.go b/input.go
index d9f1b76..3949ac4 100644
--- a/input.go
+++ b/input.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/signal"
 	"runtime"
@@ -469,90 +470,73 @@ func (frm InputFrame) String() string {
 
 // ReadInputReplay reads an InputReplay from the provided file.
 func ReadInputReplay(f *os.File) (InputReplay, error) {
-	fi, err := f.Stat()
+	p, err := ioutil.ReadAll(f)
 	if err != nil {
 		return nil, err
 	}
 
-	estBytes := int(fi.Size())
-	estFrames := estBytes / recMarkSize
-
-	type protoFrame struct {
-		InputFrame
-		e [2]int
-		b [2]int
-		m [2]int
-	}
-
 	var (
-		in     = Input{File: f, MinReadSize: 1024}
-		frames = make([]protoFrame, 0, estFrames)
-		bs     = make([]byte, 0, estBytes)
-		off    int
-		prot   protoFrame
+		result InputReplay
+		frm    InputFrame
 	)
 
 	push := func() {
-		if prot.m != [2]int{} || !prot.T.IsZero() || off < len(bs) {
-			prot.b = [2]int{off, len(bs)}
-			frames = append(frames, prot)
-			prot = protoFrame{}
-			off = len(bs)
+		if !frm.T.IsZero() || frm.E != nil || frm.M != nil || frm.B != nil {
+			result = append(result, frm)
+			frm = InputFrame{}
 		}
 	}
 
-	for {
-		e, a, ok := in.Decode()
-		if !ok {
-			if _, err := in.ReadMore(); err == io.EOF {
-				push()
-				break
-			} else if err != nil {
-				return nil, err
-			}
+	// NOTE any bytes between recorded marks are raw input, which may be cut
+	// anywhere, so must not be decoded.
+	for len(p) > 0 {
+		raw, mess, rest := cutAPC(p)
+		if len(raw) > 0 {
+			frm.B = raw
 		}
-
-		if e == 0x9F { // APC
-			switch {
-			case bytes.HasPrefix(a, []byte("recTime:")):
-				push()
-				if parseErr := prot.T.UnmarshalText(a[8:]); parseErr != nil {
-					return nil, fmt.Errorf("invalid recTime value %q", a[8:])
-				}
-			case bytes.HasPrefix(a, []byte("recReadErr:")):
-				bs = append(bs, a[11:]...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
-				push()
-			default:
-				push()
-				bs = append(bs, a...)
-				prot.m = [2]int{off, len(bs)}
-				off = len(bs)
+		p = rest
+		switch {
+		case mess == nil:
+
+		case bytes.HasPrefix(mess, []byte("recTime:")):
+			push()
+			if parseErr := frm.T.UnmarshalText(mess[8:]); parseErr != nil {
+				return nil, fmt.Errorf("invalid recTime value %q", mess[8:])
 			}
-		} else if e.IsEscape() {
-			bs = e.AppendWith(bs, a...)
-		} else {
-			var tmp [4]byte
-			n := utf8.EncodeRune(tmp[:], rune(e))
-			bs = append(bs, tmp[:n]...)
+
+		case bytes.HasPrefix(mess, []byte("recReadErr:")):
+			frm.E = InputError(mess[11:])
+
+		default:
+			push()
+			frm.M = mess
 		}
 	}
+	push()
 
-	result := make(InputReplay, len(frames))
-	for i, frm := range frames {
-		if frm.e != [2]int{} {
-			prot.E = InputError(bs[frm.e[0]:frm.e[1]])
+	return result, nil
+}
+
+// cutAPC splits p around the first complete APC string within it, returning
+// the bytes before the string, its content, and the rest after it; the content
+// is nil if there is no complete APC string, and raw is then all of p.
+func cutAPC(p []byte) (raw, content, rest []byte) {
+	for i := 0; ; {
+		j := bytes.Index(p[i:], []byte("\x1b_"))
+		if j < 0 {
+			return p, nil, nil
 		}
-		if frm.b != [2]int{} {
-			frm.B = bs[frm.b[0]:frm.b[1]]
+		start := i + j
+		j = bytes.IndexByte(p[start+2:], 0x1B)
+		if j < 0 {
+			return p, nil, nil
 		}
-		if frm.m != [2]int{} {
-			frm.M = bs[frm.m[0]:frm.m[1]]
+		end := start + 2 + j
+		if end+1 < len(p) && p[end+1] == '\\' {
+			return p[:start:start], p[start+2 : end : end], p[end+2:]
 		}
-		result[i] = frm.InputFrame
+		i = end
 	}
-	return result, nil
 }
 
 func unwrapOSError(err error) error {
-- 
2.43.0


From 5dbeb3cc36897e9a0cc23ad1aab10cbd4067eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 43/79] fix: messages do not affect a replay's duration

Message frames have no time, so the duration of a recording that starts or
ends with one was off by centuries.
---
 input.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index 3949ac4..6278485 100644
--- a/input.go
+++ b/input.go
@@ -437,12 +437,19 @@ type InputError []byte
 func (ie InputError) String() string { return string(ie) }
 func (ie InputError) Error() string  { return string(ie) }
 
-// Duration returns the total elapsed time of the replay.
+// Duration returns the total elapsed time of the replay, from its first to its
+// last frame that has a time.
 func (rs InputReplay) Duration() time.Duration {
-	if len(rs) == 0 {
-		return 0
+	var first, last time.Time
+	for _, frm := range rs {
+		if !frm.T.IsZero() {
+			if first.IsZero() {
+				first = frm.T
+			}
+			last = frm.T
+		}
 	}
-	return rs[len(rs)-1].T.Sub(rs[0].T)
+	return last.Sub(first)
 }
 
 func (frm InputFrame) String() string {
-- 
2.43.0


From 783911009910adae0de0754ed854595b2fe7d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 44/79] fix: InputFrame.String shows the frame's input

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 6278485..3462aea 100644
--- a/input.go
+++ b/input.go
@@ -470,7 +470,7 @@ func (frm InputFrame) String() string {
 	if len(frm.B) == 0 {
 		_, _ = buf.WriteString(" mark")
 	} else {
-		_, _ = fmt.Fprintf(&buf, " %q", frm.M)
+		_, _ = fmt.Fprintf(&buf, " %q", frm.B)
 	}
 	return buf.String()
 }
-- 
2.43.0


From 2aa3862cb7cf496a13f09e70b35bef87c2a510a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 45/79] fix: ReadAny does not wait on files that are polled

If the input file was in non-blocking mode when it was opened, the go runtime
waits for input rather than returning EWOULDBLOCK, so ReadAny did too.
---
 input.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 3462aea..9797484 100644
--- a/input.go
+++ b/input.go
@@ -250,7 +250,7 @@ func (in *Input) ReadAny() (n int, err error) {
 	for err == nil {
 		var m int
 		p := in.readBuf()
-		m, err = in.File.Read(p)
+		m, err = in.readAvail(p)
 		if m == 0 {
 			break
 		}
@@ -285,6 +285,33 @@ func (in *Input) ReadAny() (n int, err error) {
 	return n, err
 }
 
+// readAvail reads whatever is available without waiting for more, which
+// File.Read may do even in non-blocking mode, when the go runtime polls it.
+func (in *Input) readAvail(p []byte) (n int, err error) {
+	rc, err := in.File.SyscallConn()
+	if err != nil {
+		return 0, err
+	}
+	var rerr error
+	if err := rc.Read(func(fd uintptr) bool {
+		for {
+			n, rerr = syscall.Read(int(fd), p)
+			if rerr != syscall.EINTR {
+				return true
+			}
+		}
+	}); err != nil {
+		return 0, err
+	}
+	if rerr != nil {
+		return 0, &os.PathError{Op: "read", Path: in.File.Name(), Err: rerr}
+	}
+	if n == 0 && len(p) > 0 {
+		return 0, io.EOF
+	}
+	return n, nil
+}
+
 // Enter gets the current fcntl flags for restoration during Exit(), and sets
 // non-blocking/async modes if needed.
 func (in *Input) Enter(term *Term) error {
-- 
2.43.0


From 5a33d141573522368de5a3ae0d0d951fd0de442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 46/79] fix: platform frames have all input that was read for
 them, and only it

The events were cleared whenever input was read: a second signal in the same
frame dropped events that no client had seen, and any not consumed events came
back in all frames until the next input.
---
 x/platform/platform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index d8e1cac..131ce8b 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -195,6 +195,9 @@ func (p *Platform) Run(client Client) (err error) {
 
 		ctx := p.Context()
 
+		// only events of the current frame
+		p.events.Clear()
+
 		// poll for signals
 		for polling := true; polling; {
 			select {
@@ -203,7 +206,6 @@ func (p *Platform) Run(client Client) (err error) {
 			case <-p.resize.C:
 				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
 			case <-p.sigio.C:
-				p.events.Clear()
 				n, err := p.term.ReadAny()
 				if n > 0 {
 					p.events.DecodeInput(&p.term.Input)
-- 
2.43.0


From 43a6f95d4d9602d632d7f0dce5faf97925ff4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 47/79] fix: a platform that is run again gets input

The end of RunWith stops input notification, but only New started it.
---
 x/platform/platform.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 131ce8b..b5233fa 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -41,17 +41,13 @@ func New(in, out *os.File, opts ...Option) (*Platform, error) {
 	p.term = anansi.NewTerm(in, out,
 		&p.stop,
 		&p.resize,
+		&p.sigio,
 		&p.screen,
 		&p.Config,
 		&p.ticker,
 		&p.bg,
 	)
 
-	p.sigio.C = make(chan os.Signal, 1)
-	if err := p.term.Notify(p.sigio.C); err != nil {
-		return nil, err
-	}
-
 	_ = p.term.SetRaw(true)
 	p.term.AddMode(
 		ansi.ModeAlternateScreen,
@@ -103,7 +99,7 @@ type Platform struct {
 	term   *anansi.Term
 	stop   anansi.Signal
 	resize anansi.Signal
-	sigio  anansi.Signal
+	sigio  anansi.InputSignal
 	buf    anansi.Buffer
 	events Events
 	ticker Ticker
-- 
2.43.0


From c38f02a0c2556e9c5a6735315a44d25614e2b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 48/79] fix: a platform reads input that came before it ran

There is no signal for input that arrived before the terminal was entered, so
it was not seen until more came in.
---
 x/platform/platform.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index b5233fa..f6d6bc3 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -183,6 +183,8 @@ func (p *Platform) Run(client Client) (err error) {
 		log.Printf("run done: %v", err)
 	}()
 
+	p.sigio.Send("initial poll") // there may be input already
+
 	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.ticker.Wait() {
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
-- 
2.43.0


From cf27fb29dcbc0ffce1b77fe8e44e4bfaff3dc569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 49/79] fix: platform time does not go backwards in the second
 frame

The ticker starts before Run does, and may hold a tick from before its first
frame.
---
 x/platform/platform.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index f6d6bc3..de0f80a 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -185,7 +185,7 @@ func (p *Platform) Run(client Client) (err error) {
 
 	p.sigio.Send("initial poll") // there may be input already
 
-	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.ticker.Wait() {
+	for p.Time = time.Now(); !p.Time.IsZero(); p.Time = p.nextTick() {
 		// update performance data
 		if err := p.Telemetry.update(p); err != nil {
 			return err
@@ -231,6 +231,16 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// nextTick waits for a tick that is not before the current frame, as the ticker
+// may hold one from before Run started.
+func (p *Platform) nextTick() time.Time {
+	t := p.ticker.Wait()
+	for !t.IsZero() && t.Before(p.Time) {
+		t = p.ticker.Wait()
+	}
+	return t
+}
+
 // Context returns a new Context bound to the platform.
 func (p *Platform) Context() Context {
 	return Context{
-- 
2.43.0


From 92917dc21fb49f4942b4ccfe996f519c626231e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 50/79] fix: waiting on an inactive ticker returns zero time

It blocked forever.
---
 x/platform/tick.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 2bee957..5aea2df 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -43,12 +43,11 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	var tc <-chan time.Time
-	if ct.t != nil {
-		tc = ct.t.C
+	if ct.t == nil {
+		return time.Time{}
 	}
 	select {
-	case t := <-tc:
+	case t := <-ct.t.C:
 		return t
 	case <-ct.c:
 	}
-- 
2.43.0


From e6d28ce8b81d1d6af82556c57d2ed2a340eae36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 51/79] fix: replay starts with the client state as recorded

Decoding left alone all client fields that were zero when recording started, and
merged maps, so a client that is run again kept parts of its latest state.
---
 x/platform/state.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/x/platform/state.go b/x/platform/state.go
index f95454e..a07c7d0 100644
--- a/x/platform/state.go
+++ b/x/platform/state.go
@@ -1,8 +1,10 @@
 package platform
 
 import (
+	"encoding"
 	"encoding/gob"
 	"io"
+	"reflect"
 )
 
 type state struct {
@@ -14,6 +16,7 @@ type state struct {
 
 func (p *Platform) readState(r io.Reader) error {
 	var st state
+	resetClient(p.client)
 	dec := gob.NewDecoder(r)
 	for _, obj := range []interface{}{&st, p.client} {
 		if err := dec.Decode(obj); err != nil {
@@ -27,6 +30,46 @@ func (p *Platform) readState(r io.Reader) error {
 	return nil
 }
 
+// resetClient zeroes all that gob may encode within the client, since decoding
+// leaves whatever was zero when encoded as it is, and adds to any map.
+func resetClient(client Client) {
+	if v := reflect.ValueOf(client); v.Kind() == reflect.Ptr && !v.IsNil() && !decodesItself(v) {
+		resetValue(v.Elem())
+	}
+}
+
+func resetValue(v reflect.Value) {
+	switch t := v.Type(); t.Kind() {
+	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
+		return // never encoded
+	case reflect.Struct:
+		if !decodesItself(v.Addr()) {
+			for i := 0; i < t.NumField(); i++ {
+				if t.Field(i).PkgPath == "" {
+					resetValue(v.Field(i))
+				}
+			}
+			return
+		}
+	case reflect.Ptr:
+		for t.Kind() == reflect.Ptr {
+			t = t.Elem()
+		}
+		if t.Kind() == reflect.Chan || t.Kind() == reflect.Func || t.Kind() == reflect.UnsafePointer {
+			return
+		}
+	}
+	v.Set(reflect.Zero(v.Type()))
+}
+
+func decodesItself(ptr reflect.Value) bool {
+	switch ptr.Interface().(type) {
+	case gob.GobDecoder, encoding.BinaryUnmarshaler:
+		return true
+	}
+	return false
+}
+
 func (p *Platform) writeState(w io.Writer) error {
 	st := state{
 		p.State,
-- 
2.43.0


From 3b6f5a29fdf29cbdd5fd7cead6fd50876ddae3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 52/79] fix: recordings have all changes of the terminal's size

Only the size at the start was recorded, so all of the recording was replayed
at it.
---
 x/platform/platform.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index de0f80a..ee9af66 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -197,22 +197,29 @@ func (p *Platform) Run(client Client) (err error) {
 		p.events.Clear()
 
 		// poll for signals
+		var resized, readable bool
 		for polling := true; polling; {
 			select {
 			case sig := <-p.stop.C:
 				ctx.Err = errOr(ctx.Err, anansi.SigErr(sig))
 			case <-p.resize.C:
-				ctx.Err = errOr(ctx.Err, p.screen.SizeToTerm(p.term))
+				resized = true
 			case <-p.sigio.C:
-				n, err := p.term.ReadAny()
-				if n > 0 {
-					p.events.DecodeInput(&p.term.Input)
-				}
-				ctx.Err = errOr(ctx.Err, err)
+				readable = true
 			default:
 				polling = false
 			}
 		}
+		if resized {
+			ctx.Err = errOr(ctx.Err, p.sizeToTerm())
+		}
+		if readable {
+			n, err := p.term.ReadAny()
+			if n > 0 {
+				p.events.DecodeInput(&p.term.Input)
+			}
+			ctx.Err = errOr(ctx.Err, err)
+		}
 
 		// run current frame update
 		if ctx.Update(); ctx.Err == nil {
@@ -231,6 +238,16 @@ func (p *Platform) Run(client Client) (err error) {
 	return nil
 }
 
+// sizeToTerm re-reads terminal size, recording any change before further input.
+func (p *Platform) sizeToTerm() error {
+	prior := p.screen.Bounds().Size()
+	err := p.screen.SizeToTerm(p.term)
+	if err == nil && p.screen.Bounds().Size() != prior {
+		err = p.recordSize()
+	}
+	return err
+}
+
 // nextTick waits for a tick that is not before the current frame, as the ticker
 // may hold one from before Run started.
 func (p *Platform) nextTick() time.Time {
@@ -284,7 +301,7 @@ func (ctx *Context) Update() {
 	}
 
 	if ctx.Redraw {
-		ctx.Err = errOr(ctx.Err, ctx.Output.SizeToTerm(ctx.term))
+		ctx.Err = errOr(ctx.Err, ctx.sizeToTerm())
 	}
 
 	// recording / replaying toggle on Ctrl-R
-- 
2.43.0


From bd8b74a80070fd7a2f81d3db7f918930cc4cbad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 53/79] fix: replayed clients do not see redraw and record keys

As they did not when recorded.
---
 x/platform/replay.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 95a0854..6ac6fe6 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -93,6 +93,7 @@ func (rep *replay) update(ctx *Context) {
 		// load replay frame input
 		ctx.events.Clear()
 		ctx.events.DecodeBytes(rep.frame.B)
+		ctx.events.CountRune('\x0c', '\x12') // redraw and record keys are not for the client
 
 		// update mouse cursor state
 		if m, have := ctx.events.LastMouse(false); have {
-- 
2.43.0


From bfd6ed5cff97c21044eba3b967f0e33f7da1e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 54/79] fix: the screen gets its size back when a replay is
 stopped

It stayed at the recorded size until the next resize or redraw.
---
 x/platform/replay.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 6ac6fe6..37911ab 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -44,6 +44,8 @@ func (rep *replay) update(ctx *Context) {
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
 		ctx.Platform.replay = nil
+		ctx.Redraw = true // at the terminal's size
+		ctx.Output.Invalidate()
 		return
 	}
 
-- 
2.43.0


From 4e3645b5982f276b60016b486b365859e2688313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 55/79] fix: replay decodes sequences that were read in parts

A rune or escape sequence that came in over several frames was replayed as
junk.
---
 x/platform/event.go    | 26 ++++++++++++++++++++++++++
 x/platform/platform.go |  1 +
 x/platform/replay.go   |  5 ++++-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/x/platform/event.go b/x/platform/event.go
index d1e6828..c1dda85 100644
--- a/x/platform/event.go
+++ b/x/platform/event.go
@@ -202,6 +202,32 @@ func (es *Events) DecodeBytes(b []byte) {
 	}
 }
 
+// decodeAvail is like DecodeBytes, but returns any incomplete rune or escape
+// sequence at the end, as DecodeInput leaves it in its input.
+func (es *Events) decodeAvail(b []byte) (rest []byte) {
+	for len(b) > 0 {
+		e, a, n := ansi.DecodeEscape(b)
+		b = b[n:]
+		if e == 0 {
+			if n > 0 {
+				continue // cancelled sequence
+			}
+			r, n := utf8.DecodeRune(b)
+			switch r {
+			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
+				return b
+			}
+			if !utf8.FullRune(b) {
+				return b
+			}
+			b = b[n:]
+			e = ansi.Escape(r)
+		}
+		es.add(e, a)
+	}
+	return nil
+}
+
 // DecodeInput decodes all input currently read into the given input.
 func (es *Events) DecodeInput(in *anansi.Input) {
 	for e, a, ok := in.Decode(); ok; e, a, ok = in.Decode() {
diff --git a/x/platform/platform.go b/x/platform/platform.go
index ee9af66..138918a 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -176,6 +176,7 @@ func (p *Platform) Run(client Client) (err error) {
 			return err
 		}
 		p.replay.cur = p.replay.input
+		p.replay.pend = nil
 	}
 
 	log.Printf("running %T", p.client)
diff --git a/x/platform/replay.go b/x/platform/replay.go
index 37911ab..07ea287 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -26,6 +26,7 @@ type replay struct {
 	input  anansi.InputReplay
 	cur    anansi.InputReplay
 	frame  anansi.InputFrame
+	pend   []byte // input that is not yet decodable
 	pause  time.Time
 	size   image.Point
 	mouse  struct {
@@ -94,7 +95,9 @@ func (rep *replay) update(ctx *Context) {
 
 		// load replay frame input
 		ctx.events.Clear()
-		ctx.events.DecodeBytes(rep.frame.B)
+		rep.pend = append(rep.pend, rep.frame.B...)
+		rest := ctx.events.decodeAvail(rep.pend)
+		rep.pend = rep.pend[:copy(rep.pend, rest)]
 		ctx.events.CountRune('\x0c', '\x12') // redraw and record keys are not for the client
 
 		// update mouse cursor state
-- 
2.43.0


From 2b43d12a8297b0fa2e8199022848a2e3d41269a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 56/79] fix: timing at frame rates below 4

It had no room for any frame, and enabling timing crashed.
---
 x/platform/options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/options.go b/x/platform/options.go
index e0794ce..98caa8b 100644
--- a/x/platform/options.go
+++ b/x/platform/options.go
@@ -17,6 +17,9 @@ func (f optionFunc) apply(p *Platform) error { return f(p) }
 func FrameRate(fps int) Option {
 	return optionFunc(func(p *Platform) error {
 		timingPeriod := fps / 4
+		if timingPeriod < 1 {
+			timingPeriod = 1
+		}
 		p.ticker.d = time.Second / time.Duration(fps)
 		p.FPSEstimate.data = make([]float64, fps)
 		p.Timing.ts = make([]time.Time, timingPeriod)
-- 
2.43.0


From a789566d63cf5d4abad7a835df6a097a05d3041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 57/79] fix: signals end a replay

The error of a signal, and of reading input, was overwritten by whatever the
replayed frame returned, so a platform could not be stopped while replaying.
---
 x/platform/replay.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 07ea287..85f0717 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -37,7 +37,7 @@ type replay struct {
 
 func (rep *replay) update(ctx *Context) {
 	if len(rep.cur) == 0 {
-		ctx.Err = errReplayDone
+		ctx.Err = errOr(ctx.Err, errReplayDone)
 		return
 	}
 
@@ -89,7 +89,7 @@ func (rep *replay) update(ctx *Context) {
 			}
 		}
 		if rep.frame.T.IsZero() {
-			ctx.Err = errReplayDone
+			ctx.Err = errOr(ctx.Err, errReplayDone)
 			return
 		}
 
@@ -111,7 +111,7 @@ func (rep *replay) update(ctx *Context) {
 		}
 	}
 
-	ctx.Err = rep.runClient(ctx)
+	ctx.Err = errOr(ctx.Err, rep.runClient(ctx))
 }
 
 func (rep *replay) runClient(ctx *Context) error {
-- 
2.43.0


From d2d8e03ed2bc8fa3cf97fd220f9cdd14fc6f64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 58/79] fix: the HUD does not panic on small screens

Its parts are clipped when the terminal is too narrow for them, or too low for
the log; they were placed at invalid points.
---
 x/platform/hud.go | 80 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 3fe3570..fad5e28 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -89,6 +89,10 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 		return err
 	}
 
+	if outBounds.Empty() {
+		return err // nowhere to draw
+	}
+
 	// TODO why is input broken?
 
 	ctx.Output.WriteESC(ansi.DECSC)
@@ -176,13 +180,28 @@ func (hud *HUD) updateProfilers(p *Platform) {
 	}
 }
 
+// clipPt returns a valid point, for one that may be off the left or top of a
+// small screen.
+func clipPt(x, y int) ansi.Point {
+	if x < 1 {
+		x = 1
+	}
+	if y < 1 {
+		y = 1
+	}
+	return ansi.Pt(x, y)
+}
+
 func (hud *HUD) calcKVBox(ctx *Context, key string) (kbox, vbox ansi.Rectangle) {
 	outBounds := ctx.Output.Bounds()
 	n := utf8.RuneCountInString(key)
-	kbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
-	vbox.Min = ansi.Pt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
+	kbox.Min = clipPt(outBounds.Max.X-hud.detailWidth-n-1, ctx.Output.Cursor.Y)
+	vbox.Min = clipPt(outBounds.Max.X-hud.detailWidth, ctx.Output.Cursor.Y)
 	kbox.Max = ansi.Pt(kbox.Min.X+n, ctx.Output.Cursor.Y+1)
 	vbox.Max = ansi.Pt(vbox.Min.X+hud.detailWidth, ctx.Output.Cursor.Y+1)
+	if vbox.Max.X > outBounds.Max.X {
+		vbox.Max.X = outBounds.Max.X
+	}
 	return kbox, vbox
 }
 
@@ -204,7 +223,7 @@ func (hud *HUD) detailRow(ctx *Context, key string, val string) (box ansi.Rectan
 	box.Min = kbox.Min
 	box.Max = vbox.Max
 	n := utf8.RuneCountInString(key) + 2 + hud.detailWidth
-	ctx.Output.To(ansi.Pt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
+	ctx.Output.To(clipPt(ctx.Output.Cursor.X-n+1, ctx.Output.Cursor.Y))
 	ctx.Output.WriteString(key)
 	ctx.Output.WriteRune(' ')
 	for i := utf8.RuneCountInString(val); i < hud.detailWidth; i++ {
@@ -221,10 +240,10 @@ func (hud *HUD) rightSegment(ctx *Context, s string) (box ansi.Rectangle) {
 	if box.Min.X+1 < outBounds.Max.X {
 		box.Min.X--
 	}
-	box.Max = ansi.Pt(box.Min.X, box.Min.Y+1)
-	box.Min.X -= utf8.RuneCountInString(s)
+	box.Max = clipPt(box.Min.X, box.Min.Y+1)
+	box.Min = clipPt(box.Max.X-utf8.RuneCountInString(s), box.Min.Y)
 	ctx.Output.To(box.Min)
-	ctx.Output.WriteString(s)
+	writeTruncated(ctx, box.Dx(), []byte(s))
 	ctx.Output.To(box.Min)
 	return box
 }
@@ -343,7 +362,9 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 					hud.ButtonAttr, hud.SelectAttr,
 					func(ctx *Context, _ bool) {
 						ctx.Output.WriteString(prof.Name())
-						ctx.Output.WriteString(strings.Repeat(" ", outBounds.Max.X-1-ctx.Output.Cursor.X))
+						if n := outBounds.Max.X - 1 - ctx.Output.Cursor.X; n > 0 {
+							ctx.Output.WriteString(strings.Repeat(" ", n))
+						}
 					})
 				ctx.Output.To(ansi.Pt(box.Min.X, ctx.Output.Cursor.Y+1))
 				box.Max.Y = ctx.Output.Cursor.Y
@@ -438,8 +459,12 @@ func (hud *HUD) drawButton(ctx *Context, box ansi.Rectangle, label string) {
 			ansi.Rect(box.Min.X, ctx.Output.Cursor.Y, box.Max.X, ctx.Output.Cursor.Y+1),
 			hud.ButtonAttr, hud.SelectAttr,
 			func(ctx *Context, _ bool) {
-				ctx.Output.WriteString("[ ")
 				max := box.Dx() - 4
+				if max < 0 {
+					writeTruncated(ctx, box.Dx(), []byte(label))
+					return
+				}
+				ctx.Output.WriteString("[ ")
 				n := utf8.RuneCountInString(label)
 				for i := 0; i < (max-n)/2; i++ {
 					ctx.Output.WriteRune(' ')
@@ -611,24 +636,23 @@ func (lv *LogView) Update(ctx *Context) error {
 		viewLines = 10
 		lv.ViewLines = viewLines
 	}
-	height := viewLines
-
-	topLeft := ansi.Pt(1, outBounds.Max.Y-1)
-	if lv.Expanded {
-		height++
-		topLeft.Y -= height - 1
-	} else {
-		height = 1
+	rows := outBounds.Dy()
+	if rows < 1 {
+		return nil // nowhere to draw
+	}
+	if viewLines > rows-1 {
+		viewLines = rows - 1 // below the header
+	}
+	if viewLines < 1 {
+		viewLines = 1
 	}
 
+	height, topLeft := lv.layout(outBounds, viewLines)
+
 	// TODO drag resizing
 	if n := ctx.Input.CountPressesIn(ansi.Rect(topLeft.X, topLeft.Y, outBounds.Max.X, topLeft.Y+1), 1); n%2 == 1 {
-		topLeft.Y = outBounds.Max.Y - 1
-		height = 1
-		if lv.Expanded = !lv.Expanded; lv.Expanded {
-			height += viewLines
-		}
-		topLeft.Y -= height - 1
+		lv.Expanded = !lv.Expanded
+		height, topLeft = lv.layout(outBounds, viewLines)
 	}
 
 	if !lv.Expanded {
@@ -669,6 +693,15 @@ func (lv *LogView) Update(ctx *Context) error {
 	return nil
 }
 
+// layout returns the height and top left of the view, including any header.
+func (lv *LogView) layout(outBounds ansi.Rectangle, viewLines int) (int, ansi.Point) {
+	height := 1
+	if lv.Expanded && outBounds.Dy() > 1 {
+		height += viewLines
+	}
+	return height, ansi.Pt(1, outBounds.Max.Y-height)
+}
+
 func (lv *LogView) scrollBy(lines, delta int) {
 	start := lv.Line
 	if start == 0 {
@@ -797,6 +830,9 @@ func withOverAttr(
 }
 
 func writeTruncated(ctx *Context, w int, b []byte) {
+	if w < 1 {
+		return
+	}
 	// if !ctx.Output.Point.In(bounds) { return }
 	n := utf8.RuneCount(b)
 	if rem := n - w; rem > 0 {
-- 
2.43.0


From 82708767ce14619f4e2f67b4cfb673fe4145ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 59/79] fix: the log view has each of its lines on a row of its
 own

Lines as wide as the screen skipped a row, and with just about as many lines as
there is room for the view started too low, so that the last ones were written
over each other.
---
 x/platform/hud.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index fad5e28..89ca713 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -667,7 +667,7 @@ func (lv *LogView) Update(ctx *Context) error {
 	if lines <= 0 {
 		return nil
 	}
-	if diff := bounds.Dy() - lines + 1; diff > 0 {
+	if diff := height - 1 - lines; diff > 0 {
 		bounds.Min.Y += diff
 	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
@@ -678,14 +678,14 @@ func (lv *LogView) Update(ctx *Context) error {
 	start, end := lv.viewWindow(lines, viewLines)
 	ctx.Output.To(bounds.Min)
 	if height > 1 {
-		fmt.Fprintf(ctx.Output, "Logs (%v-%v/%v):", start, end, lines)
+		writeTruncated(ctx, outBounds.Dx(), []byte(fmt.Sprintf("Logs (%v-%v/%v):", start, end, lines)))
 	}
 	off := 0
 	if start > 1 {
 		off = eolOffsets[start-2] + 1
 	}
-	for _, eol := range eolOffsets[start-1 : end] {
-		ctx.Output.To(ansi.Pt(1, ctx.Output.Cursor.Y+1))
+	for i, eol := range eolOffsets[start-1 : end] {
+		ctx.Output.To(ansi.Pt(1, bounds.Min.Y+1+i))
 		w := bounds.Max.X - ctx.Output.Cursor.X
 		writeTruncated(ctx, w, content[off:eol])
 		off = eol + 1
-- 
2.43.0


From b2baa27607524faae014086ddba7bd8e5849b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 60/79] fix: Ctrl-C stops a replay that is just done

It was dropped when it came after the last replayed frame.
---
 x/platform/replay.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/x/platform/replay.go b/x/platform/replay.go
index 85f0717..2b60a20 100644
--- a/x/platform/replay.go
+++ b/x/platform/replay.go
@@ -36,11 +36,6 @@ type replay struct {
 }
 
 func (rep *replay) update(ctx *Context) {
-	if len(rep.cur) == 0 {
-		ctx.Err = errOr(ctx.Err, errReplayDone)
-		return
-	}
-
 	// Ctrl-C stops replay
 	if ctx.Input.HasTerminal('\x03') {
 		log.Printf("stopping replay")
@@ -50,6 +45,11 @@ func (rep *replay) update(ctx *Context) {
 		return
 	}
 
+	if len(rep.cur) == 0 {
+		ctx.Err = errOr(ctx.Err, errReplayDone)
+		return
+	}
+
 	defer func() {
 		if ctx.Err == nil {
 			rep.drawOverlay(ctx)
-- 
2.43.0


From 61607af2f2da2313aa410e225222f4399821755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 61/79] fix: a grid that grows again has no stale cells

Resizing to within the allocated size exposed whatever the grid had there when
it was larger. When a platform re-reads its size on Ctrl-L, or replays a
recorded size, that is after the screen was cleared for the frame, so the client
drew over parts of an old one.
---
 grid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grid.go b/grid.go
index f68eed6..510ab3d 100644
--- a/grid.go
+++ b/grid.go
@@ -44,8 +44,13 @@ func (g *Grid) Resize(size image.Point) bool {
 			copy(rs, g.Rune)
 			g.Attr, g.Rune = as, rs
 		} else {
+			m := len(g.Rune)
 			g.Attr = g.Attr[:n]
 			g.Rune = g.Rune[:n]
+			for ; m < n; m++ { // as when newly allocated
+				g.Attr[m] = 0
+				g.Rune[m] = 0
+			}
 		}
 		// TODO re-stride data
 	}
-- 
2.43.0


From 02395156dda8cfd8c5c687eca75cd905e39b882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 62/79] fix: a log view at a line that is gone does not panic

Its line is part of the state that recordings restore, and lines go when the log
sink is read.
---
 x/platform/hud.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 89ca713..fe64249 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -723,6 +723,9 @@ func (lv *LogView) viewWindow(lines, viewLines int) (int, int) {
 		}
 		return 1, lines
 	}
+	if lv.Line > lines { // restored, or older lines have been read
+		lv.Line = lines
+	}
 	start, end := lv.Line, lv.Line
 	for end < lines && end-start+1 < viewLines {
 		end++
-- 
2.43.0


From 9ca76c5149ef69c859da812d224e3c208c40156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 63/79] fix: the header of a short log can be clicked

While there were fewer lines than an expanded view may have, its header was drawn
lower than the row that takes clicks on it.
---
 x/platform/hud.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index fe64249..bd08a73 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -647,12 +647,15 @@ func (lv *LogView) Update(ctx *Context) error {
 		viewLines = 1
 	}
 
-	height, topLeft := lv.layout(outBounds, viewLines)
+	content, eolOffsets := lv.logs.Contents()
+	lines := len(eolOffsets)
+
+	height, topLeft := lv.layout(outBounds, viewLines, lines)
 
 	// TODO drag resizing
 	if n := ctx.Input.CountPressesIn(ansi.Rect(topLeft.X, topLeft.Y, outBounds.Max.X, topLeft.Y+1), 1); n%2 == 1 {
 		lv.Expanded = !lv.Expanded
-		height, topLeft = lv.layout(outBounds, viewLines)
+		height, topLeft = lv.layout(outBounds, viewLines, lines)
 	}
 
 	if !lv.Expanded {
@@ -662,14 +665,9 @@ func (lv *LogView) Update(ctx *Context) error {
 	bounds := ansi.Rectangle{Min: topLeft, Max: outBounds.Max}
 	bounds.Max = bounds.Max.Add(image.Pt(0, 1)) // TODO ideally utilize the final column too
 
-	content, eolOffsets := lv.logs.Contents()
-	lines := len(eolOffsets)
 	if lines <= 0 {
 		return nil
 	}
-	if diff := height - 1 - lines; diff > 0 {
-		bounds.Min.Y += diff
-	}
 	if delta := ctx.Input.TotalScrollIn(bounds); delta != 0 {
 		lv.scrollBy(lines, delta)
 	}
@@ -694,7 +692,10 @@ func (lv *LogView) Update(ctx *Context) error {
 }
 
 // layout returns the height and top left of the view, including any header.
-func (lv *LogView) layout(outBounds ansi.Rectangle, viewLines int) (int, ansi.Point) {
+func (lv *LogView) layout(outBounds ansi.Rectangle, viewLines, lines int) (int, ansi.Point) {
+	if viewLines > lines {
+		viewLines = lines
+	}
 	height := 1
 	if lv.Expanded && outBounds.Dy() > 1 {
 		height += viewLines
-- 
2.43.0


From 3d39e933238392c0f5ef46621320492d105c8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 64/79] fix: timing is logged when asked for

---
 x/platform/config.go | 3 ++-
 x/platform/diag.go   | 2 +-
 x/platform/hud.go    | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index d715f5b..a2dfd81 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -83,7 +83,8 @@ func (cfg *Config) Merge(other Config) {
 }
 
 func (cfg *Config) setup(p *Platform) error {
-	p.SetTimingEnabled(cfg.LogTiming)
+	p.Telemetry.LogTiming = cfg.LogTiming
+	p.SetTimingEnabled(cfg.StartTiming || cfg.LogTiming)
 
 	if cfg.TelemetryLogFileName != "" {
 		if err := p.Telemetry.coll.create(cfg.TelemetryLogFileName); err != nil {
diff --git a/x/platform/diag.go b/x/platform/diag.go
index 2a82a66..36f8dd1 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -170,7 +170,7 @@ func (tel *Telemetry) FPS() float64 {
 func (p *Platform) SetTimingEnabled(enabled bool) {
 	if p.TimingEnabled != enabled {
 		p.TimingEnabled = enabled
-		if !p.TimingEnabled && !p.LogTiming {
+		if !p.TimingEnabled && !p.Telemetry.LogTiming {
 			p.Timing.reset()
 		}
 	}
diff --git a/x/platform/hud.go b/x/platform/hud.go
index bd08a73..75319d8 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -407,7 +407,7 @@ func (hud *HUD) drawFPSDetail(ctx *Context) {
 func (hud *HUD) drawTelemetry(ctx *Context) {
 	hud.detailHeader(ctx, "# Telemetry:")
 	hud.drawFileEditRow(ctx, &ctx.Telemetry.coll, "Go Log")
-	hud.drawToggleRow(ctx, "Log Timing", &ctx.LogTiming)
+	hud.drawToggleRow(ctx, "Log Timing", &ctx.Telemetry.LogTiming)
 	hud.drawToggleRow(ctx, "Log Stalls", &ctx.Telemetry.LogStallData)
 }
 
-- 
2.43.0


From 0cdd0597c81c7a2ba5f0f1f2ac0571fc9665d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 65/79] fix: timing is measured from the start when asked for

---
 x/platform/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/platform/config.go b/x/platform/config.go
index a2dfd81..54a208e 100644
--- a/x/platform/config.go
+++ b/x/platform/config.go
@@ -48,9 +48,9 @@ func (cfg *Config) AddFlags(f *flag.FlagSet, prefix string) {
 	f.StringVar(&cfg.TraceFileName, prefix+"tracefile", cfg.TraceFileName,
 		"enables platform execution tracing")
 	if prefix != "" {
-		f.BoolVar(&cfg.StartTiming, prefix+"timing", false,
+		f.BoolVar(&cfg.StartTiming, prefix+"timing", cfg.StartTiming,
 			"measure timing from the beginning")
-		f.BoolVar(&cfg.LogTiming, prefix+"timing.log", false,
+		f.BoolVar(&cfg.LogTiming, prefix+"timing.log", cfg.LogTiming,
 			"measure and log timing from the beginning")
 	}
 }
@@ -74,6 +74,9 @@ func (cfg *Config) Merge(other Config) {
 	if other.MemProfileName != "" && cfg.MemProfileName == "" {
 		cfg.MemProfileName = other.MemProfileName
 	}
+	if other.StartTiming {
+		cfg.StartTiming = true
+	}
 	if other.LogTiming {
 		cfg.LogTiming = true
 	}
-- 
2.43.0


From f2fdf159e27334b9711e8c8bbbfc1f1e7f1d5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 66/79] fix: showing or hiding HUD details does not edit
 another row

---
 x/platform/hud.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 75319d8..6b47d8d 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -105,11 +105,13 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 	}
 	if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
 		hud.TimeDetail = !hud.TimeDetail
+		hud.Active = 0 // row ids change
 	}
 
 	box = hud.rightSegment(ctx, fmt.Sprintf("FPS:%.0f/s", ctx.FPS()))
 	if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
 		hud.FPSDetail = !hud.FPSDetail
+		hud.Active = 0
 	}
 
 	hud.updateProfilers(ctx.Platform)
@@ -121,6 +123,7 @@ func (hud *HUD) Update(ctx *Context, client Client) error {
 	}
 	if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
 		hud.ProfDetail = !hud.ProfDetail
+		hud.Active = 0
 	}
 
 	hud.rightSegment(ctx, outBounds.Size().String())
@@ -307,6 +310,7 @@ func (hud *HUD) drawProfDetail(ctx *Context) {
 	box := hud.detailHeader(ctx, "# Profiling Control:")
 	if n := ctx.Input.CountPressesIn(box, 1); n%2 == 1 {
 		hud.ProfDetail = !hud.ProfDetail
+		hud.Active = 0
 		// TODO regrettable that we write a frame with lame-duck control header
 		return
 	}
-- 
2.43.0


From 868700863d09c7d6f382b0754fc72dd00e45d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 67/79] fix: a profile is added once

---
 x/platform/hud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index 6b47d8d..d12a9fc 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -380,7 +380,7 @@ func (hud *HUD) drawPProfSelector(ctx *Context) {
 			if kind == EventMouse {
 				m := ctx.Input.Mouse(eid)
 				sid, pressed := m.State.IsPress()
-				if pressed && sid == 1 {
+				if pressed && sid == 1 && hud.Active == id {
 					if m.Point.In(box) {
 						rel := m.Point.Diff(box.Min)
 						ctx.Platform.pprofProfiles = append(ctx.Platform.pprofProfiles, pprofProfileContext{
-- 
2.43.0


From beffa2859120f8053e1b6cbcf31198ee575b0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 68/79] fix: HUD values stay within their box

---
 x/platform/hud.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/hud.go b/x/platform/hud.go
index d12a9fc..846cdfa 100644
--- a/x/platform/hud.go
+++ b/x/platform/hud.go
@@ -284,8 +284,8 @@ func (hud *HUD) drawTimingDetail(ctx *Context) (err error) {
 		if !ctx.replay.pause.IsZero() {
 			repFmt = "paused %v/%v"
 		}
-		fmt.Fprintf(ctx.Output, repFmt,
-			len(ctx.replay.input)-len(ctx.replay.cur), len(ctx.replay.input))
+		writeTruncated(ctx, box.Dx(), []byte(fmt.Sprintf(repFmt,
+			len(ctx.replay.input)-len(ctx.replay.cur), len(ctx.replay.input))))
 	} else {
 		ctx.Output.WriteString("recording ")
 		ctx.Output.To(box.Min)
@@ -598,7 +598,7 @@ func (hud *HUD) underFileEdit(fil fileable, ctx *Context, box ansi.Rectangle, id
 			} else {
 				ctx.Output.To(hud.EdLin.Box.Min)
 				ctx.Output.WriteSGR(ansi.SGRGray12.FG())
-				ctx.Output.WriteString(name)
+				writeTruncated(ctx, box.Dx(), []byte(name))
 				ctx.Output.WriteSGR(ansi.SGRAttrClear)
 			}
 		}
-- 
2.43.0


From 2b18bd1b7cb210457ade8e8b0c38d86cfbd2054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 69/79] fix: a ticker may be exited while it is waited for

Wait read the ticker and its channel without synchronization: when Exit came in
between it would panic, or block for good.
---
 x/platform/tick.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/x/platform/tick.go b/x/platform/tick.go
index 5aea2df..c963e04 100644
--- a/x/platform/tick.go
+++ b/x/platform/tick.go
@@ -1,6 +1,7 @@
 package platform
 
 import (
+	"sync"
 	"time"
 
 	"github.com/jcorbin/anansi"
@@ -10,15 +11,19 @@ import (
 // terminal enter/exit.
 type Ticker struct {
 	d time.Duration
-	t *time.Ticker
-	c chan struct{}
+
+	mu sync.Mutex // Wait may be called while another goroutine enters or exits
+	t  *time.Ticker
+	c  chan struct{}
 	// TODO useful to indirect t.C so that Enter can provide an immediate initial tick?
 }
 
 // Enter starts a new ticker, after stopping any prior one for good measure;
 // always returns nil error.
 func (ct *Ticker) Enter(term *anansi.Term) error {
-	_ = ct.Exit(term)
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
+	ct.stop()
 	if ct.d == 0 {
 		ct.d = time.Second / defaultFrameRate
 	}
@@ -29,6 +34,13 @@ func (ct *Ticker) Enter(term *anansi.Term) error {
 
 // Exit stops any running ticker; always returns nil error.
 func (ct *Ticker) Exit(term *anansi.Term) error {
+	ct.mu.Lock()
+	defer ct.mu.Unlock()
+	ct.stop()
+	return nil
+}
+
+func (ct *Ticker) stop() {
 	if ct.t != nil {
 		ct.t.Stop()
 		ct.t = nil
@@ -37,19 +49,21 @@ func (ct *Ticker) Exit(term *anansi.Term) error {
 		close(ct.c)
 		ct.c = nil
 	}
-	return nil
 }
 
 // Wait blocks for the next ticker time, returning zero time if the Ticker
 // isn't active, or is Exit-ed first.
 func (ct *Ticker) Wait() time.Time {
-	if ct.t == nil {
+	ct.mu.Lock()
+	tick, c := ct.t, ct.c
+	ct.mu.Unlock()
+	if tick == nil {
 		return time.Time{}
 	}
 	select {
-	case t := <-ct.t.C:
+	case t := <-tick.C:
 		return t
-	case <-ct.c:
+	case <-c:
 	}
 	return time.Time{}
 }
-- 
2.43.0


From 47464224e1b622fdfecc7d533697de9faccce066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 70/79] fix: the log may be viewed while another goroutine logs

The telemetry worker logs what it collected, while the HUD shows the contents
of the log, and while background writing of the log file is started or stopped,
all without synchronization: torn contents, and lines lost to the log file.
---
 x/platform/log.go | 65 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/x/platform/log.go b/x/platform/log.go
index b608ee3..45981ed 100644
--- a/x/platform/log.go
+++ b/x/platform/log.go
@@ -3,12 +3,14 @@ package platform
 import (
 	"bytes"
 	"fmt"
+	"io"
 	"log"
 	"os"
+	"sync"
 )
 
 func init() {
-	Logs.buf.Grow(1024 * 1024)
+	Logs.buf = make([]byte, 0, 1024*1024)
 	log.SetFlags(log.Ldate | log.Ltime | log.Lmicroseconds)
 	log.SetOutput(&Logs)
 }
@@ -16,10 +18,13 @@ func init() {
 // Logs is the LogSink installed as the output for the standard "logs" package.
 var Logs LogSink
 
-// LogSink implements an in-memory log buffer.
+// LogSink implements an in-memory log buffer. It may be written to by one
+// goroutine while another uses it.
 type LogSink struct {
+	mu sync.Mutex // guards buf, bufEOLs, direct, and f
+
 	// TODO cap buffer size
-	buf     bytes.Buffer
+	buf     []byte // only appended to, and sliced: see Contents
 	bufEOLs []int
 
 	direct bool
@@ -30,30 +35,44 @@ type LogSink struct {
 }
 
 // Contents all in-memory buffered bytes and a slice containing the index of
-// all newlines within those bytes.
+// all newlines within those bytes; neither may be modified, or is by any later
+// write or read.
 func (logs *LogSink) Contents() ([]byte, []int) {
-	return logs.buf.Bytes(), logs.bufEOLs
+	logs.mu.Lock()
+	defer logs.mu.Unlock()
+	return logs.buf, logs.bufEOLs
 }
 
 func (logs *LogSink) Read(p []byte) (n int, err error) {
-	n, err = logs.buf.Read(p)
+	logs.mu.Lock()
+	defer logs.mu.Unlock()
+	if len(logs.buf) == 0 {
+		if len(p) == 0 {
+			return 0, nil
+		}
+		return 0, io.EOF
+	}
+	n = copy(p, logs.buf)
+	logs.buf = logs.buf[n:]
 	i := 0
 	for ; i < len(logs.bufEOLs) && n > logs.bufEOLs[i]; i++ {
 	}
-	logs.bufEOLs = logs.bufEOLs[:copy(logs.bufEOLs, logs.bufEOLs[i:])]
+	logs.bufEOLs = append([]int(nil), logs.bufEOLs[i:]...)
 	for i = 0; i < len(logs.bufEOLs); i++ {
 		logs.bufEOLs[i] -= n
 	}
-	if logs.buf.Len() == 0 {
-		logs.bufEOLs = logs.bufEOLs[:0]
+	if len(logs.buf) == 0 {
+		logs.bufEOLs = nil
 	}
-	return n, err
+	return n, nil
 }
 
 func (logs *LogSink) Write(p []byte) (n int, _ error) {
 	if len(p) == 0 {
 		return 0, nil
 	}
+	logs.mu.Lock()
+	defer logs.mu.Unlock()
 	if logs.f != nil {
 		if logs.direct {
 			if n, err := logs.f.Write(p); err != nil {
@@ -66,10 +85,10 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 		}
 	}
 
-	b := logs.buf.Bytes()
+	b := logs.buf
 	// unwind any implicit EOL-at-EOF
 	if i := len(logs.bufEOLs) - 1; i >= 0 && logs.bufEOLs[i] >= len(b) {
-		logs.bufEOLs = logs.bufEOLs[:i]
+		logs.bufEOLs = logs.bufEOLs[:i:i]
 	}
 	for off := 0; off < len(p); off++ {
 		i := bytes.IndexByte(p[off:], '\n')
@@ -81,14 +100,20 @@ func (logs *LogSink) Write(p []byte) (n int, _ error) {
 		logs.bufEOLs = append(logs.bufEOLs, len(b)+off)
 	}
 
-	n, _ = logs.buf.Write(p)
-	return n, nil
+	logs.buf = append(b, p...)
+	return len(p), nil
 }
 
 // Start a background goroutine to defer file writing, transitioning to such
 // deferred writing model; file writes will not be performed until Notify() or
 // Stop() is next called.
 func (logs *LogSink) Start() error {
+	logs.mu.Lock()
+	defer logs.mu.Unlock()
+	return logs.start()
+}
+
+func (logs *LogSink) start() error {
 	if logs.f == nil || logs.w != nil {
 		return nil
 	}
@@ -103,6 +128,12 @@ func (logs *LogSink) Start() error {
 // Stop the any background file-writing goroutine, transitioning back to direct
 // file writes.
 func (logs *LogSink) Stop() error {
+	logs.mu.Lock()
+	defer logs.mu.Unlock()
+	return logs.stop()
+}
+
+func (logs *LogSink) stop() error {
 	if logs.f == nil || logs.w == nil {
 		return nil
 	}
@@ -141,8 +172,10 @@ func (logs *LogSink) SetFile(f *os.File) error {
 	} else {
 		log.Printf("disabling log file output")
 	}
+	logs.mu.Lock()
+	defer logs.mu.Unlock()
 	if old := logs.f; old != nil {
-		err := logs.Stop()
+		err := logs.stop()
 		if cerr := old.Close(); err == nil {
 			err = cerr
 		}
@@ -155,7 +188,7 @@ func (logs *LogSink) SetFile(f *os.File) error {
 	}
 	if f != nil {
 		logs.f = f
-		return logs.Start()
+		return logs.start()
 	}
 	return nil
 }
-- 
2.43.0


From 52dd117bf46d1f4102f6408ee396ce58eaab6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 71/79] fix: logged timing and stalls are what was measured

The stalls were handed to the worker that logs them without a copy, while the
output goes on to use their buffer, a data race; so were frame times, cleared
when timing is disabled. Stalls were also taken to be another round of them in
every frame, until they were consumed: logged again and again, and with a stall
percentage of all their times over that of one frame.
---
 x/platform/diag.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/platform/diag.go b/x/platform/diag.go
index 36f8dd1..69e0d84 100644
--- a/x/platform/diag.go
+++ b/x/platform/diag.go
@@ -216,11 +216,11 @@ func (tel *Telemetry) update(p *Platform) error {
 		timingFrame := tel.Timing.update(p)
 		consumeStalls := timingFrame
 		if tel.LogTiming && timingFrame {
-			tel.coll.timing = tel.Timing.ds
+			tel.coll.timing = append([]time.Duration{}, tel.Timing.ds...)
 		}
-		if stalls := p.term.Stalls(consumeStalls); stalls != nil {
+		if stalls := p.term.Stalls(consumeStalls); stalls != nil && (consumeStalls || len(stalls) == cap(stalls)) {
 			if tel.LogStallData {
-				tel.coll.stalls = stalls
+				tel.coll.stalls = append([]time.Duration{}, stalls...)
 			}
 			if tel.StallDataEnabled {
 				tel.Stalls.update(p, stalls)
-- 
2.43.0


From 83cc61c70b244d31a70d2a6d29027b8472f10a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 72/79] fix: absent terminfo capabilities are read as empty

Strings beyond the end of an entry's string section, and those marked absent or
cancelled, were read from anywhere else in it; so were those of large entries.
---
 terminfo/read.go | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/terminfo/read.go b/terminfo/read.go
index 0b20719..5819c3e 100644
--- a/terminfo/read.go
+++ b/terminfo/read.go
@@ -84,16 +84,30 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 		return fmt.Errorf("invalid magic number %07o", header[0])
 	}
 
+	for _, size := range header[1:] {
+		if size < 0 {
+			return fmt.Errorf("invalid section size %d", size)
+		}
+	}
+
 	if (header[1]+header[2])%2 != 0 {
 		// old quirk to align everything on word boundaries
 		header[2]++
 	}
 
-	strOffset := headerLength + uint16(header[1]+header[2]+2*header[3])
-	tableOffset := strOffset + 2*uint16(header[4])
+	strCount := int64(header[4])
+	strOffset := headerLength + int64(header[1]) + int64(header[2]) + 2*int64(header[3])
+	tableOffset := strOffset + 2*strCount
+
+	readString := func(num uint16) (string, error) {
+		if int64(num) >= strCount {
+			return "", nil // absent
+		}
+		return readTableString(rs, strOffset+2*int64(num), tableOffset)
+	}
 
 	for i := 1; i < len(tiKeys); i++ {
-		key, err := readTableString(rs, strOffset+2*tiKeys[i], tableOffset)
+		key, err := readString(tiKeys[i])
 		if err != nil {
 			return err
 		}
@@ -101,7 +115,7 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	}
 
 	for i := 1; i < len(tiFuncs); i++ {
-		fnc, err := readTableString(rs, strOffset+2*tiFuncs[i], tableOffset)
+		fnc, err := readString(tiFuncs[i])
 		if err != nil {
 			return err
 		}
@@ -114,25 +128,26 @@ func (ti *Terminfo) ReadFrom(rs io.ReadSeeker) error {
 	return nil
 }
 
-func readTableString(rs io.ReadSeeker, off, table uint16) (s string, err error) {
+func readTableString(rs io.ReadSeeker, off, table int64) (s string, err error) {
 	index, err := readUint16(rs, off)
 	if err != nil {
 		return "", err
 	}
-	if _, err := rs.Seek(int64(table+index), 0); err != nil {
+	if index >= 0xfffe {
+		return "", nil // absent (0xffff) or cancelled (0xfffe)
+	}
+	if _, err := rs.Seek(table+int64(index), 0); err != nil {
 		return "", err
 	}
 	return readNullString(rs)
 }
 
-func readUint16(rs io.ReadSeeker, off uint16) (uint16, error) {
-	if _, err := rs.Seek(int64(off), 0); err != nil {
+func readUint16(rs io.ReadSeeker, off int64) (n uint16, err error) {
+	if _, err := rs.Seek(off, 0); err != nil {
 		return 0, err
 	}
-	if err := binary.Read(rs, binary.LittleEndian, &off); err != nil {
-		return 0, err
-	}
-	return off, nil
+	err = binary.Read(rs, binary.LittleEndian, &n)
+	return n, err
 }
 
 func readNullString(r io.Reader) (s string, err error) {
@@ -140,15 +155,15 @@ func readNullString(r io.Reader) (s string, err error) {
 	var buf [8]byte
 	for {
 		n, err := r.Read(buf[:])
-		if err != nil {
-			return "", err
-		}
 		for i, b := range buf[:n] {
 			if b == 0 {
 				bs = append(bs, buf[:i]...)
 				return string(bs), nil
 			}
 		}
+		if err != nil {
+			return "", err
+		}
 		bs = append(bs, buf[:n]...)
 	}
 }
-- 
2.43.0


From 6d60c67e61bfbb081f952b7f32d26c687d4440d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 73/79] fix: Load uses builtins if reading the terminfo
 database fails

As documented; a terminfo file that could not be read ended the search, and an
empty terminal name panicked.
---
 terminfo/terminfo.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/terminfo/terminfo.go b/terminfo/terminfo.go
index df62ccc..4a90eb5 100644
--- a/terminfo/terminfo.go
+++ b/terminfo/terminfo.go
@@ -2,6 +2,7 @@ package terminfo
 
 import (
 	"encoding/hex"
+	"fmt"
 	"os"
 	"os/user"
 	"path/filepath"
@@ -139,6 +140,10 @@ func Load(term string) (*Terminfo, error) {
 	if ti, def := cache[term]; def {
 		return ti, nil
 	}
+	if term == "" {
+		return GetBuiltin(term)
+	}
+	var readErr error
 	paths := SearchPath()
 	for _, path := range paths {
 		for _, fp := range []string{
@@ -155,12 +160,19 @@ func Load(term string) (*Terminfo, error) {
 				}
 				if err == nil {
 					cache[term] = &ti
+					return &ti, nil
+				}
+				if readErr == nil {
+					readErr = fmt.Errorf("failed to read %q: %v", fp, err)
 				}
-				return &ti, err
 			}
 		}
 	}
-	return GetBuiltin(term)
+	ti, err := GetBuiltin(term)
+	if err != nil && readErr != nil {
+		err = readErr
+	}
+	return ti, err
 }
 
 // FuncMap builds and returns a string-string map of the control sequence
-- 
2.43.0


From 4fdec63b10ff6cdd4ed851d259e8a2840730b67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 74/79] fix: to24bit converts background colors

---
 cmd/to24bit/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index cd9b39b..bc7b370 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -89,7 +89,7 @@ func process(e ansi.Escape, a []byte) error {
 
 			// maybe convert background
 			if bg, hasBG := attr.BG(); hasBG {
-				if newc := bg.To24Bit(); newc != bg.To24Bit() {
+				if newc := bg.To24Bit(); newc != bg {
 					attr = attr.SansBG() | newc.BG()
 					needed = true
 				}
-- 
2.43.0


From e9fdcb942f6ad0880c13dcf3cdbf636139dcc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 75/79] fix: to24bit passes all else as it is, however its
 input is split

---
 cmd/to24bit/main.go | 50 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/cmd/to24bit/main.go b/cmd/to24bit/main.go
index bc7b370..921c46e 100644
--- a/cmd/to24bit/main.go
+++ b/cmd/to24bit/main.go
@@ -12,6 +12,7 @@ import (
 )
 
 var readBuf bytes.Buffer
+var decBuf []byte
 var outBuf *bufio.Writer
 
 func main() {
@@ -49,28 +50,49 @@ func readMore() (err error) {
 
 func processMore(ateof bool) (err error) {
 	for err == nil && readBuf.Len() > 0 {
-		e, a, n := ansi.DecodeEscape(readBuf.Bytes())
-		readBuf.Next(n)
-		if e == 0 {
-			r, n := utf8.DecodeRune(readBuf.Bytes())
-			const esc = 0x1b
-			if r == esc && readBuf.Len() == 1 && !ateof {
+		p := readBuf.Bytes()
+
+		// what does not start an escape sequence passes through as it is
+		i := 0
+		for i < len(p) && p[i] != 0x1b && p[i] != 0xc2 {
+			i++
+		}
+		if i > 0 {
+			_, err = outBuf.Write(readBuf.Next(i))
+			continue
+		}
+
+		// NOTE decoding works in place, so use a copy to not alter what passes
+		decBuf = append(decBuf[:0], p...)
+		e, a, n := ansi.DecodeEscape(decBuf)
+		if n == 0 {
+			if !ateof && incomplete(decBuf) {
 				break // readMore, try to complete escape sequence
 			}
-			readBuf.Next(n)
-			e = ansi.Escape(r)
+			n = 1
 		}
-		err = process(e, a)
+		err = process(e, a, readBuf.Next(n))
 	}
 	return err
 }
 
-func process(e ansi.Escape, a []byte) error {
-	if !e.IsEscape() {
-		_, err := outBuf.WriteRune(rune(e))
-		return err
+// incomplete returns true only if more bytes may complete the escape or
+// control sequence that p, in which none could be decoded, starts with.
+func incomplete(p []byte) bool {
+	r, n := utf8.DecodeRune(p)
+	if r == 0x9b { // CSI
+		return true
+	}
+	if r == 0x1b { // ESC
+		for p = p[n:]; len(p) > 0 && 0x20 <= p[0] && p[0] <= 0x2f; {
+			p = p[1:]
+		}
 	}
+	return !utf8.FullRune(p)
+}
 
+// process writes the escape that was decoded from raw, if any.
+func process(e ansi.Escape, a, raw []byte) error {
 	var b [4096]byte
 	p := b[:0]
 
@@ -103,7 +125,7 @@ func process(e ansi.Escape, a []byte) error {
 
 	// not SGR, or conversion failed/not necessary
 	if len(p) == 0 {
-		p = e.AppendWith(p, a...)
+		p = raw
 	}
 
 	_, err := outBuf.Write(p)
-- 
2.43.0


From c911f645bd7eabd12a0ec9fb347e1eb1c9bcf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 76/79] fix: decode waits for incomplete input

---
 cmd/decode/main.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 5692913..03d2146 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -103,7 +103,11 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
 				return
 			case 0x1B: // ESC
-				if p := buf.Bytes(); len(p) == cap(p) {
+				if incompleteESC(buf.Bytes()) {
+					return
+				}
+			case utf8.RuneError:
+				if !utf8.FullRune(buf.Bytes()) {
 					return
 				}
 			}
@@ -127,6 +131,16 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 	return err
 }
 
+// incompleteESC returns true only if more bytes may complete the escape
+// sequence that p starts with.
+func incompleteESC(p []byte) bool {
+	p = p[1:]
+	for len(p) > 0 && 0x20 <= p[0] && p[0] <= 0x2F {
+		p = p[1:]
+	}
+	return !utf8.FullRune(p)
+}
+
 func readMore(buf *bytes.Buffer, r io.Reader) error {
 	b := buf.Bytes()
 	b = b[len(b):cap(b)]
-- 
2.43.0


From bbb8291bd14979e4f75db4484798b8884a292416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 77/79] fix: decode does not fail at the end of its input

---
 cmd/decode/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 03d2146..751ff21 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -77,6 +77,9 @@ func runBatch(in, out *os.File) (err error) {
 	if buf.Len() > 0 {
 		log.Printf("undecoded trailer content: %q", buf.Bytes())
 	}
+	if err == io.EOF {
+		err = nil
+	}
 	return err
 }
 
-- 
2.43.0


From 4bd8743d090a52c16b548db5deeb0bc8d8145fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 78/79] fix: decode goes on after a cancelled sequence

---
 cmd/decode/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/decode/main.go b/cmd/decode/main.go
index 751ff21..f5c9dc3 100644
--- a/cmd/decode/main.go
+++ b/cmd/decode/main.go
@@ -101,6 +101,9 @@ func processBatch(buf *bytes.Buffer, w io.Writer) (err error) {
 			buf.Next(n)
 		}
 		if e == 0 {
+			if n > 0 {
+				continue // cancelled sequence
+			}
 			r, n := utf8.DecodeRune(buf.Bytes())
 			switch r {
 			case 0x90, 0x9B, 0x9D, 0x9E, 0x9F: // DCS, CSI, OSC, PM, APC
-- 
2.43.0


From e04e6f3a24986ae24a2920f24d83b35891514afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 79/79] fix: a replay that was paused starts over from its
 beginning

---
 x/platform/platform.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/platform/platform.go b/x/platform/platform.go
index 138918a..a612c28 100644
--- a/x/platform/platform.go
+++ b/x/platform/platform.go
@@ -177,6 +177,8 @@ func (p *Platform) Run(client Client) (err error) {
 		}
 		p.replay.cur = p.replay.input
 		p.replay.pend = nil
+		p.replay.frame = anansi.InputFrame{}
+		p.replay.pause = time.Time{}
 	}
 
 	log.Printf("running %T", p.client)
-- 
2.43.0

