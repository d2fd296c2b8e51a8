From 01e71a50dee5037fce198cb758d60da233f0632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 01/55] fix: encode four byte variable integers correctly

The second byte of the four byte form was always 0xff.
---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 1471b83..5756a51 100644
--- a/binary.go
+++ b/binary.go
@@ -186,7 +186,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From 2370bda4f52900042066eb781359cd389e58ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 02/55] fix: end a binary node at its zero length

A binary node is a sequence of length-prefixed chunks closed by a zero
length. The parser did not stop there and took whatever followed for
further chunks.
---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index 5756a51..b3fdb39 100644
--- a/binary.go
+++ b/binary.go
@@ -282,7 +282,7 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		// Read length, then bytes
 		for {
 			n = p.varInt()
-			if n < 0 {
+			if n <= 0 {
 				break
 			}
 			for ; n != 0; n-- {
-- 
2.43.0


From 4805fc358eb50a5249b8056f56825a64ad3089f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 03/55] fix: end a text node of binary OGDL at the end of the
 stream

A truncated stream made the parser loop forever while its buffer grew, and
a text node without bytes swallowed the next node.
---
 binary.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/binary.go b/binary.go
index b3fdb39..d46c087 100644
--- a/binary.go
+++ b/binary.go
@@ -298,21 +298,15 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		return level, true, buf.Bytes()
 	}
 
-	// Text node. Read bytes until 0
+	// Text node. Read bytes until 0 (or the end of the stream)
 
-	if write {
-		buf.WriteByte(byte(n))
-	}
-
-	for {
-		c := p.read()
-		if c == 0 {
-			return level, false, buf.Bytes()
-		}
+	for c := n; c > 0; c = p.read() {
 		if write {
 			buf.WriteByte(byte(c))
 		}
 	}
+
+	return level, false, buf.Bytes()
 }
 
 // read reads one character (byte) from the stream, returning it in the for of an int.
-- 
2.43.0


From d95e08ab904bcc9d4cdf1b607c5b278171cf287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 04/55] fix: treat a read error in binary OGDL as the end of
 the stream

An error other than end of file was taken for a zero byte, so a message cut
by a failing connection looked complete.
---
 binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index d46c087..c40ede5 100644
--- a/binary.go
+++ b/binary.go
@@ -316,7 +316,7 @@ func (p *binParser) read() int {
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 25d598fb214a556b5fc3b26ea91d23e4794f3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 05/55] fix: Log.GetBinary returns the position of the next
 object

It returned the length of the object, which is only right for the first one.
---
 log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.go b/log.go
index 9567f32..41c0a77 100644
--- a/log.go
+++ b/log.go
@@ -164,5 +164,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From 387aae27c50fc7f948583814029b9f3230eeab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 06/55] fix: do not allocate by the level number when building
 a graph

A few bytes of binary OGDL with a large level number made the decoder
allocate gigabytes.
---
 event.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 65ece2c..ffacac5 100644
--- a/event.go
+++ b/event.go
@@ -87,11 +87,21 @@ func (e *SimpleEventHandler) Dec() {
 //
 func (e *SimpleEventHandler) Tree() *Graph {
 
-	g := make([]*Graph, e.max+2)
+	// A level is only reachable through a node at the level above it, so there
+	// are never more levels in use than items.
+	max := e.max
+	if max > len(e.items) {
+		max = len(e.items)
+	}
+
+	g := make([]*Graph, max+2)
 	g[0] = New("_")
 
 	for i := 0; i < len(e.items); i++ {
 		lv := e.levels[i] + 1
+		if lv > max+1 {
+			continue
+		}
 		item := e.items[i]
 
 		n := New(item)
-- 
2.43.0


From b9472f0f64eef2656c6454c0c7e82b5887a92bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 07/55] fix: an end character ends the stream, also after a
 comment or a nested line

---
 lexer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..7d519d2 100644
--- a/lexer.go
+++ b/lexer.go
@@ -237,11 +237,8 @@ func (p *Lexer) End() bool {
 		return true
 	}
 
-	if IsEndChar(c) {
-		return true
-	}
 	p.UnreadByte()
-	return false
+	return IsEndChar(c)
 }
 
 // WhiteSpace is equivalent to Space | Break. It consumes all white space,
@@ -510,6 +507,8 @@ func (p *Lexer) Comment() bool {
 					break
 				}
 			}
+			p.UnreadByte()
+			p.Break()
 			return true
 		}
 		p.UnreadByte()
-- 
2.43.0


From eb865cebf8a97a1418dffa87d6d18979af54c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 08/55] fix: an end character ends the stream inside a quoted
 string or a block too

---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 7d519d2..333b413 100644
--- a/lexer.go
+++ b/lexer.go
@@ -345,6 +345,7 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 	for {
 		c, _ := p.Byte()
 		if IsEndChar(c) {
+			p.UnreadByte()
 			return "", false, ErrUnterminatedQuotedString
 		}
 
@@ -555,6 +556,7 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 			c, _ = p.Byte()
 
 			if IsEndChar(c) {
+				p.UnreadByte()
 				break
 			}
 
-- 
2.43.0


From 178fa16cd4bb7e24ba089536854b69be1d13706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 09/55] fix: keep the indentation of the line that follows a
 block

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 333b413..302cd50 100644
--- a/lexer.go
+++ b/lexer.go
@@ -546,6 +546,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		ns, u := p.Space()
 
 		if u == 0 || ns <= nsp {
+			// This is the indentation of the next line
+			for ; ns > 0; ns-- {
+				p.UnreadByte()
+			}
 			break
 		}
 
-- 
2.43.0


From c39b2bbe17faab8d39c9ec81a5e66552a16ea791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 10/55] fix: do not consume a space when none is allowed

---
 lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 302cd50..a4238dc 100644
--- a/lexer.go
+++ b/lexer.go
@@ -302,7 +302,7 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
-	for {
+	for spaces < max && tabs < max {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
 			p.UnreadByte()
@@ -314,9 +314,6 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 		} else {
 			tabs++
 		}
-		if spaces == max || tabs == max {
-			break
-		}
 	}
 
 	var r byte
-- 
2.43.0


From 126c93729c2875a74c245135e465257bb88c639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 11/55] fix: blank and comment lines do not alter the structure

---
 block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/block.go b/block.go
index e245127..5633d21 100644
--- a/block.go
+++ b/block.go
@@ -78,6 +78,11 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 
 	n, u := p.Space()
 
+	// Lines without content do not take part in the structure
+	if p.Break() || p.Comment() {
+		return true, nil
+	}
+
 	if n < ns {
 		for i := n; i > 0; i-- {
 			p.UnreadByte()
-- 
2.43.0


From c949501d9d8b5a165869963a298b838aca80a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 12/55] fix: do not swallow what follows a lone CR at the start
 of a block

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index a4238dc..fb841b0 100644
--- a/lexer.go
+++ b/lexer.go
@@ -531,7 +531,7 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		return "", false
 	}
 	// Read NL if CR was found
-	if c == 13 {
+	if c == 13 && p.PeekByte() == 10 {
 		p.Byte()
 	}
 
-- 
2.43.0


From 5564fced71f731c65b288d7f5e3a2b0593ae96db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 13/55] fix: short reads do not truncate the stream

---
 lexer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index fb841b0..3aeef5c 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,18 +80,23 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	// A buffer that is not full means the end of the stream (see lastByte).
+	for i := maxConsecutiveEmptyReads; offset < bufSize; {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
 
-		offset += n
-		if offset >= halfSize {
+		if n > 0 {
+			i = maxConsecutiveEmptyReads
+		} else if i--; i == 0 {
+			p.err = io.ErrNoProgress
 			break
 		}
 	}
-- 
2.43.0


From 72b614e26ab58882308c28d5afc23fd5297d981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 14/55] fix: read runes that straddle the buffer, and none past
 the end of the stream

---
 lexer.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 3aeef5c..19b0332 100644
--- a/lexer.go
+++ b/lexer.go
@@ -161,13 +161,33 @@ func (p *Lexer) UnreadByte() {
 // and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	var b [utf8.UTFMax]byte
+
+	c, err := p.Byte()
+	if err != nil {
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return 0, nil
+	}
+	if c < utf8.RuneSelf {
+		p.lastRuneSize = append(p.lastRuneSize, 1)
+		return rune(c), nil
+	}
 
-	r, size := rune(p.buf[p.r]), 1
-	if r >= utf8.RuneSelf {
-		r, size = utf8.DecodeRune(p.buf[p.r:p.lastByte])
+	// The rune may extend beyond the current contents of the buffer
+	b[0] = c
+	n := 1
+	for n < utf8.UTFMax && !utf8.FullRune(b[:n]) {
+		if b[n], err = p.Byte(); err != nil {
+			p.UnreadByte()
+			break
+		}
+		n++
+	}
+
+	r, size := utf8.DecodeRune(b[:n])
+	for ; n > size; n-- {
+		p.UnreadByte()
 	}
-	p.r += size
 	p.lastRuneSize = append(p.lastRuneSize, size)
 	return r, nil
 }
-- 
2.43.0


From ef28bd59bfc41a454516ca431ffd2539f6ecc02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 15/55] fix: quote strings with back-quotes when printing

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 710796b..92df68f 100644
--- a/graph.go
+++ b/graph.go
@@ -444,7 +444,7 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 		s = _string(g.This)
 	}
 
-	if strings.ContainsAny(s, "\n\r \t'\",()") {
+	if strings.ContainsAny(s, "\n\r \t'\",()`") {
 
 		// print quoted, but not at level 0
 		// Do not convert " to \" below if level==0 !
-- 
2.43.0


From 317c03e18f1422f8f5bd5565c9e00f7f2bc9c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 16/55] fix: printing does not cut text that merely begins with
 a quote

---
 graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 92df68f..ea4614f 100644
--- a/graph.go
+++ b/graph.go
@@ -374,7 +374,7 @@ func (g *Graph) Text() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
@@ -407,7 +407,7 @@ func (g *Graph) Show() string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
-- 
2.43.0


From 510a9599f38e147049d0536739e2617460a5033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 17/55] fix: comparing contents does not panic on byte slices
 or missing graphs

---
 graph.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index ea4614f..d6e982f 100644
--- a/graph.go
+++ b/graph.go
@@ -38,7 +38,10 @@ func (g *Graph) ThisType() string {
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
-	if c.This != g.This {
+	if g == nil || c == nil {
+		return g == c
+	}
+	if !equalContent(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -53,6 +56,19 @@ func (g *Graph) Equals(c *Graph) bool {
 	return true
 }
 
+// equalContent compares the contents of two nodes. Contents that Go cannot
+// compare with == (byte slices mainly) are compared by value.
+func equalContent(a, b interface{}) bool {
+	if x, ok := a.([]byte); ok {
+		y, ok := b.([]byte)
+		return ok && bytes.Equal(x, y)
+	}
+	if t := reflect.TypeOf(a); t != nil && !t.Comparable() {
+		return reflect.DeepEqual(a, b)
+	}
+	return a == b
+}
+
 // Add adds a subnode to the current node.
 func (g *Graph) Add(n interface{}) *Graph {
 
@@ -237,7 +253,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if equalContent(g.Out[i].This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From f7d9ff400275b26035d365272daf85f0129a8674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 18/55] fix: getters tolerate missing nodes and nodes without
 subnodes

---
 gettypes.go | 32 ++++++++++++++++++++++++++++----
 graph.go    |  5 ++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..ebfbc78 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -24,6 +24,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 		return nil, err
 	}
 
+	if g == nil {
+		return nil, nil
+	}
+
 	r := New("_")
 
 	for _, node := range g.Out {
@@ -76,6 +80,9 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
+	if g == nil {
+		return reflect.ValueOf(nil)
+	}
 	return reflect.ValueOf(g.This)
 }
 
@@ -115,6 +122,10 @@ func (g *Graph) StringCSV(def ...string) string {
 		return def[0]
 	}
 
+	if g.Len() == 0 {
+		return ""
+	}
+
 	s := ""
 
 	for _, n := range g.Out {
@@ -192,6 +203,9 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
+	if g == nil {
+		return nil
+	}
 	return _bytes(g.This)
 }
 
@@ -202,16 +216,25 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
+	if g == nil {
+		return nil
+	}
 	return number(g.This)
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _int64f(g.This)
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _float64f(g.This)
 }
 
@@ -231,9 +254,6 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
-	}
 
 	// If it can be parsed as a number, return it.
 	n := number(itf)
@@ -254,8 +274,12 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
+	if g == nil {
+		return nil
+	}
+
 	itf := g.This
-	if itf == nil && g.Out != nil {
+	if itf == nil && len(g.Out) != 0 {
 		itf = g.Out[0].This
 	}
 
diff --git a/graph.go b/graph.go
index d6e982f..8abbe3a 100644
--- a/graph.go
+++ b/graph.go
@@ -32,6 +32,9 @@ func (g *Graph) Len() int {
 
 // ThisType returns the name of the native type contained in the current node.
 func (g *Graph) ThisType() string {
+	if g == nil || g.This == nil {
+		return ""
+	}
 	return reflect.TypeOf(g.This).String()
 }
 
@@ -218,7 +221,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if g == nil || i >= len(g.Out) || i < 0 {
 		return nil
 	}
 
-- 
2.43.0


From b8950204fa07345fce8f08f690b8c5db7a352f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 19/55] fix: adding a missing graph adds nothing

---
 graph.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index 8abbe3a..a3a3607 100644
--- a/graph.go
+++ b/graph.go
@@ -79,7 +79,10 @@ func (g *Graph) Add(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node)
 		return node
 	}
@@ -96,7 +99,10 @@ func (g *Graph) addNodes(n interface{}) *Graph {
 		return nil
 	}
 
-	if node, ok := n.(*Graph); ok && node != nil {
+	if node, ok := n.(*Graph); ok {
+		if node == nil {
+			return nil
+		}
 		g.Out = append(g.Out, node.Out...)
 		return node
 	}
-- 
2.43.0


From c4aa7de5e417174f1ab14d52eea4ffd5753168f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 20/55] fix: a string of blanks is not a number

---
 gettypes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index ebfbc78..31c86de 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -716,7 +716,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
-- 
2.43.0


From 9b179b8c12bca17c5d5e7d36b835a680b09afbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 21/55] fix: Copy copies nodes without content too

---
 graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index a3a3607..7b21b56 100644
--- a/graph.go
+++ b/graph.go
@@ -152,8 +152,9 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
+		nn := New(n.This)
 		nn.Copy(n)
+		g.Out = append(g.Out, nn)
 	}
 }
 
-- 
2.43.0


From d59177ee430905d9f3bd4e15f5022f2222611a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 22/55] fix: setting by index evaluates the index and leaves no
 holes

---
 graph.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/graph.go b/graph.go
index 7b21b56..dafdf6a 100644
--- a/graph.go
+++ b/graph.go
@@ -324,16 +324,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
-				}
-				node.Out = o
-			}
-			node.Out[i] = New(val)
-			return node.Out[i]
+			return node.setAt(elem.index(g), val)
 		}
 		node = node.Node(elem.ThisString())
 
@@ -349,16 +340,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
-					}
-					node.Out = o
-				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+				return node.setAt(elem.index(g), val)
 			}
 
 			node = node.Add(elem.This)
@@ -370,6 +352,19 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 	return node.addNodes(val)
 }
 
+// setAt replaces the subnode at the given index. Missing subnodes before it are
+// created. It returns nil if the index is negative.
+func (g *Graph) setAt(i int, val interface{}) *Graph {
+	if i < 0 {
+		return nil
+	}
+	for len(g.Out) <= i {
+		g.Out = append(g.Out, New("_"))
+	}
+	g.Out[i] = New(val)
+	return g.Out[i]
+}
+
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
 //
 // Strings are quoted if they contain spaces, newlines or special
-- 
2.43.0


From 5489bf79ab5c8f4ead5bda89648a4cccb5d7fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 23/55] fix: Merge matches nodes by their own content

---
 graph.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index dafdf6a..1a8b35c 100644
--- a/graph.go
+++ b/graph.go
@@ -538,14 +538,18 @@ func (g *Graph) Substitute(s string, v interface{}) {
 // Merge the given graph into the current (receiver) graph
 func (g *Graph) Merge(src *Graph) {
 
+	if g == nil || src == nil {
+		return
+	}
+
 	for _, node := range src.Out {
-		n := g.Node(node.String())
+		n := g.Node(node.ThisString())
 
 		if n == nil {
 			g.Add(node)
 		} else {
 			n.Out = nil
-			n.Merge(node)
+			n.AddNodes(node)
 		}
 	}
 }
-- 
2.43.0


From e65635ef441065d3dcab97522fea6118eacf837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 24/55] fix: sorting a missing graph does nothing

---
 sort.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sort.go b/sort.go
index ad80725..1f56e66 100644
--- a/sort.go
+++ b/sort.go
@@ -11,11 +11,17 @@ type stringSorter struct {
 }
 
 func (g *Graph) Sort(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
 
 func (g *Graph) SortAsString(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
@@ -38,6 +44,9 @@ type intSorter struct {
 }
 
 func (g *Graph) SortAsInt(field string) {
+	if g == nil {
+		return
+	}
 	s := intSorter{field, g.Out}
 	sort.Sort(s)
 }
-- 
2.43.0


From b0eb62673d14adcc625e4145b7b6606af96360cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 25/55] fix: Html does not cut text that begins with a quote

---
 html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/html.go b/html.go
index 2efdc71..28ea147 100644
--- a/html.go
+++ b/html.go
@@ -31,7 +31,7 @@ func (g *Graph) Html(path string) string {
 
 	// unquote
 
-	if s[0] == '"' {
+	if len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
 		s = s[1 : len(s)-1]
 		// But then also replace \"
 		s = strings.Replace(s, "\\\"", "\"", -1)
-- 
2.43.0


From 7408588fd8c16cb6943bee9f5e1be4d906ec03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 26/55] fix: a sign or a point alone is not a number, and
 numbers can begin with a point

---
 gettypes.go | 11 ++++++-----
 lexer.go    | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 31c86de..5b0ef46 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -689,12 +689,13 @@ func isNumber(s string) bool {
 	if len(s) == 0 {
 		return false
 	}
-	if !IsDigit(rune(s[0])) {
-		if len(s) < 2 || s[0] != '-' || !IsDigit(rune(s[1])) {
-			return false
-		}
+	if s[0] == '-' {
+		s = s[1:]
 	}
-	return true
+	if len(s) > 1 && s[0] == '.' {
+		s = s[1:]
+	}
+	return len(s) > 0 && IsDigit(rune(s[0]))
 }
 
 // IsInteger returns true for strings containing exclusively digits, with an
diff --git a/lexer.go b/lexer.go
index 19b0332..f589c47 100644
--- a/lexer.go
+++ b/lexer.go
@@ -463,6 +463,7 @@ func (p *Lexer) Number() (string, bool) {
 		p.Byte()
 	}
 
+	digits := false
 	for {
 		c, _ := p.Byte()
 		if !IsDigit(rune(c)) {
@@ -473,14 +474,25 @@ func (p *Lexer) Number() (string, bool) {
 			}
 			break
 		}
+		digits = true
 		buf = append(buf, c)
 	}
 
 	p.UnreadByte()
+	if !digits {
+		// Not a number: leave the sign and the point
+		if sign != 0 {
+			p.UnreadByte()
+		}
+		if point {
+			p.UnreadByte()
+		}
+		return "", false
+	}
 	if sign == '-' {
-		return "-" + string(buf), len(buf) > 0
+		return "-" + string(buf), true
 	}
-	return string(buf), len(buf) > 0
+	return string(buf), true
 }
 
 // Operator returns true if it finds an operator at the current parser position
-- 
2.43.0


From 93f347192b5a7e03abdc8dfdd435731dce33cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 27/55] fix: evaluate expressions in groups, indexes, selectors
 and arguments

---
 eval.go       |  3 +++
 expression.go | 13 ++++++-------
 flow.go       |  1 +
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index d708441..a33dc8c 100644
--- a/eval.go
+++ b/eval.go
@@ -354,6 +354,9 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 				r.Add(itf)
 			}
 		}
+		if simpl {
+			return _simplify(r), nil
+		}
 		return r, nil
 	case TypeString:
 		if p.Len() == 0 {
diff --git a/expression.go b/expression.go
index 9fe3ba0..8c7185b 100644
--- a/expression.go
+++ b/expression.go
@@ -28,9 +28,10 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if node.ThisString() == TypeExpression {
+		switch node.ThisString() {
+		case TypeExpression, TypeGroup, TypeIndex, TypeSelector:
 			node._ast()
-		} else {
+		default:
 			node.ast()
 		}
 	}
@@ -38,21 +39,19 @@ func (g *Graph) ast() {
 
 func (g *Graph) _ast() {
 
+	g.ast()
+
 	if g.Len() < 2 {
 		return
 	}
 
-	for _, node := range g.Out {
-		node.ast()
-	}
-
 	if g.Len() == 2 {
 		node := g.Out[0]
 
 		if node.ThisString() == "!" {
 			node.Add(g.Out[1])
+			g.DeleteAt(1)
 		}
-		g.DeleteAt(1)
 		return
 	}
 
diff --git a/flow.go b/flow.go
index 74089af..873d3fc 100644
--- a/flow.go
+++ b/flow.go
@@ -15,6 +15,7 @@ func NewPath(s string) *Graph {
 	p.Path()
 	g := p.Graph()
 	g.This = TypePath
+	g.ast()
 	return g
 }
 
-- 
2.43.0


From cf3ae7888b4e73bffda3ebf6d2571587a6fd7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 28/55] fix: parse and evaluate unary operators anywhere,
 tolerate missing operands

---
 eval.go       | 29 +++++++++++++++++++++++++++--
 expression.go | 29 +++++++++++++++++++++--------
 flow.go       |  3 ++-
 lexer.go      |  9 +++++++++
 4 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/eval.go b/eval.go
index a33dc8c..941ee85 100644
--- a/eval.go
+++ b/eval.go
@@ -321,7 +321,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -340,7 +340,12 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	switch s {
 	case "!":
 		// Unary expression !expr
-		return !g.evalBool(p.Out[0]), nil
+		itf, err := g.evalExpression(p.GetAt(0), true)
+		if err != nil {
+			return nil, err
+		}
+		b, _ := _boolf(itf)
+		return !b, nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
 	case TypePath:
@@ -397,6 +402,26 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	if p.Len() == 1 {
+		// Unary minus and plus
+		itf, err := g.evalExpression(p.Out[0], true)
+		if err != nil {
+			return err // ?
+		}
+		n := number(itf)
+		switch s := p.ThisString(); {
+		case n != nil && s == "-":
+			return calc(int64(0), n, '-')
+		case n != nil && s == "+":
+			return n
+		}
+		return nil
+	}
+
+	if p.Len() < 2 {
+		return nil
+	}
+
 	n1 := p.Out[0]
 
 	i2, err := g.evalExpression(p.Out[1], true)
diff --git a/expression.go b/expression.go
index 8c7185b..71e8430 100644
--- a/expression.go
+++ b/expression.go
@@ -45,14 +45,13 @@ func (g *Graph) _ast() {
 		return
 	}
 
-	if g.Len() == 2 {
-		node := g.Out[0]
-
-		if node.ThisString() == "!" {
-			node.Add(g.Out[1])
-			g.DeleteAt(1)
+	// Unary operators are those at the beginning or after another operator.
+	for i := len(g.Out) - 2; i >= 0; i-- {
+		node := g.Out[i]
+		if node.isOperator() && !g.Out[i+1].isOperator() && (i == 0 || g.Out[i-1].isOperator()) {
+			node.Add(g.Out[i+1])
+			g.DeleteAt(i + 1)
 		}
-		return
 	}
 
 	var e1, e2 *Graph
@@ -62,7 +61,7 @@ func (g *Graph) _ast() {
 		for i := 0; i < len(g.Out); i++ {
 
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j {
+			if node.isOperator() && precedence(node.ThisString()) == j && i > 0 && i < len(g.Out)-1 {
 				e1 = g.Out[i-1]
 				e2 = g.Out[i+1]
 				g.Out = append(g.Out[:i-1], g.Out[i:]...)
@@ -75,6 +74,20 @@ func (g *Graph) _ast() {
 	}
 }
 
+// isOperator returns true if the node is an operator without operands
+func (g *Graph) isOperator() bool {
+	s := g.ThisString()
+	if g.Len() != 0 || len(s) == 0 {
+		return false
+	}
+	for i := 0; i < len(s); i++ {
+		if !isOperatorChar(s[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 // Precedence is same as in Go, except for the missing operators (| << >> & ^ &^)
 //
 // Assignment operators are given the lowest precedence.
diff --git a/flow.go b/flow.go
index 873d3fc..40c617a 100644
--- a/flow.go
+++ b/flow.go
@@ -204,6 +204,8 @@ func (p *Parser) UnaryExpression() bool {
 
 	if ok {
 		p.ev.Add(b)
+		p.Space()
+		return p.UnaryExpression()
 	}
 
 	if p.PeekByte() == '(' {
@@ -223,7 +225,6 @@ func (p *Parser) UnaryExpression() bool {
 	}
 
 	return p.Path()
-	//return p.UnaryExpression()
 }
 
 // Path parses an OGDL path, or an extended path as used in templates.
diff --git a/lexer.go b/lexer.go
index f589c47..5e95d67 100644
--- a/lexer.go
+++ b/lexer.go
@@ -510,6 +510,15 @@ func (p *Lexer) Operator() (string, bool) {
 	}
 
 	p.UnreadByte()
+
+	// The sign or the negation of what follows is another operator
+	for n := len(buf) - 1; n > 0 && precedence(string(buf)) < 0; n-- {
+		if bytes.IndexByte([]byte("+-!"), buf[n]) == -1 {
+			break
+		}
+		p.UnreadByte()
+		buf = buf[:n]
+	}
 	return string(buf), len(buf) > 0
 }
 
-- 
2.43.0


From 77c1d43f31233ee0726790d0794dd7dc5de888d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 29/55] fix: integer division by zero does not panic

---
 eval.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 941ee85..9033058 100644
--- a/eval.go
+++ b/eval.go
@@ -4,7 +4,7 @@
 
 package ogdl
 
-// import "log"
+import "math"
 
 // Eval takes a parsed expression and evaluates it
 // in the context of the current graph.
@@ -636,8 +636,14 @@ func calc(v1, v2 interface{}, op int) interface{} {
 		case '*':
 			return i1 * i2
 		case '/':
+			if i2 == 0 {
+				return float64(i1) / float64(i2)
+			}
 			return i1 / i2
 		case '%':
+			if i2 == 0 {
+				return math.NaN()
+			}
 			return i1 % i2
 		}
 	}
@@ -677,6 +683,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return math.NaN()
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From 41ee0155a3b8f0cf81517270013adecf082b65e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 30/55] fix: assign to paths only, also to those without a
 value

---
 eval.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 9033058..de6697b 100644
--- a/eval.go
+++ b/eval.go
@@ -577,13 +577,18 @@ func logic(i1, i2 interface{}, op int) bool {
 // assign modifies the context graph
 func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
+	// Only paths can be assigned to
+	if p.ThisString() != TypePath {
+		return nil
+	}
+
 	if op == '=' {
 		return g.set(p, v)
 	}
 
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
-	if left != nil {
+	if left.Len() > 0 {
 		return g.set(p, calc(left.Out[0].This, v, op))
 	}
 
-- 
2.43.0


From 240ef51f88ed32c5367a46522ebf474da925df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 31/55] fix: an empty group in a path does not panic

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index de6697b..13fb048 100644
--- a/eval.go
+++ b/eval.go
@@ -125,6 +125,9 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
+			if pathNode.Len() == 0 {
+				return nil, ErrInvalidArgs
+			}
 			itf, err := g.Eval(pathNode.Out[0])
 			if err != nil {
 				return nil, err
@@ -265,6 +268,9 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
+			if pathNode.Len() == 0 {
+				return nil, ErrInvalidArgs
+			}
 			itf, err := g.Eval(pathNode.Out[0])
 			if err != nil {
 				return nil, err
-- 
2.43.0


From c702eb455edb540eb4549360bbd7640eb585bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 32/55] fix: calling functions with the wrong arguments does
 not panic

---
 function.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..36cc29e 100644
--- a/function.go
+++ b/function.go
@@ -53,6 +53,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		// Pre-evaluate
 		var args []interface{}
 
+		if v.IsNil() || len(path.Out) < 2 {
+			return nil, ErrInvalidArgs
+		}
+
 		if v.Type() == rfType {
 			// Remote function
 			n := New("_")
@@ -75,6 +79,12 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
+		// Check that the argument types match, otherwise v.Call() will panic
+		if v.Type().NumIn() != len(args) {
+			// TODO Check that we print the name of the function
+			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
+		}
+
 		for i, arg := range args {
 			if arg == nil {
 				// No untyped nil support :-(
@@ -84,12 +94,6 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
-		// Check that the argument types match, otherwise v.Call() will panic
-		if v.Type().NumIn() != len(args) {
-			// TODO Check that we print the name of the function
-			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
-		}
-
 		for i := 0; i < v.Type().NumIn(); i++ {
 			if v.Type().In(i).String() != vargs[i].Type().String() {
 				return nil, errors.New("arguments do not match")
@@ -151,7 +155,11 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			// Type adapter. A bit slow (cache could help)
 			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := convert(args[i], dtype)
+			if !varg.IsValid() {
+				return nil, errors.New("arguments do not match")
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
-- 
2.43.0


From 6db26801411708220f354b23a848475db386fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 33/55] fix: $break inside $if leaves the loop

---
 template.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 9602ce2..bab1101 100644
--- a/template.go
+++ b/template.go
@@ -99,22 +99,22 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// evaluate the expression
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
-			if yes {
-				n.GetAt(1).process(c, buffer)
+			if yes && n.GetAt(1).process(c, buffer) {
+				return true
 			}
 		case TypeElseIf:
 			if !yes {
 				// evaluate the expression
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
-				if yes {
-					n.GetAt(1).process(c, buffer)
+				if yes && n.GetAt(1).process(c, buffer) {
+					return true
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
-			if !yes {
-				n.GetAt(0).process(c, buffer)
+			if !yes && n.GetAt(0).process(c, buffer) {
+				return true
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From 49eb0fe95f10a1ae2e2fb0da5b5335bfe774fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 34/55] fix: a dot at the end of a path is not part of it

---
 flow.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flow.go b/flow.go
index 40c617a..e57f4d8 100644
--- a/flow.go
+++ b/flow.go
@@ -3,6 +3,7 @@ package ogdl
 import (
 	"bytes"
 	"errors"
+	"strings"
 )
 
 // NewPath takes a Unicode string representing an OGDL path, parses it and
@@ -278,6 +279,12 @@ func (p *Parser) Path() bool {
 					break
 				}
 			} else {
+				// A dot that nothing follows is not part of the path
+				r, _ := p.PeekRune()
+				if !isTokenChar(r) && !strings.ContainsRune("\"'`[({", r) {
+					p.UnreadByte()
+					break
+				}
 				dot = true
 			}
 		}
-- 
2.43.0


From 4c6613997b5b3d4618e832be1c84068ed4f00481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 35/55] fix: an argument list with bytes that aren't text
 doesn't hang the parser

---
 flow.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flow.go b/flow.go
index e57f4d8..62f07d9 100644
--- a/flow.go
+++ b/flow.go
@@ -181,9 +181,13 @@ func (p *Parser) UnaryExpression() bool {
 	if IsLetter(rune(c)) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
-		p.Path()
+		ok := p.Path()
 		p.ev.Dec()
-		return true
+		if !ok {
+			// A byte that looks like a letter but doesn't begin a token
+			p.ev.Delete()
+		}
+		return ok
 	}
 
 	b, ok := p.Number()
-- 
2.43.0


From 7278b3304bee3a537786fe2efc00bb1a9fe72206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 36/55] fix: schema nodes without content don't panic, !binary
 matches binary nodes

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index ff81607..4a552be 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
@@ -64,7 +64,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 		return ty == "string"
 
 	case "!binary":
-		return ty == "[]byte"
+		return ty == "[]uint8"
 	}
 
 	return false
-- 
2.43.0


From f85d6129e3ef8a53c98b9ea4dbbd69134d3e2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 37/55] fix: Number gives integers out of range as floats

---
 gettypes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 5b0ef46..9988e51 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -331,11 +331,11 @@ func number(itf interface{}) interface{} {
 	}
 
 	if isInteger(s) {
+		// Integers that don't fit are floats
 		n, err := strconv.ParseInt(s, 10, 64)
-		if err != nil {
-			return nil
+		if err == nil {
+			return n
 		}
-		return n
 	}
 
 	n, err := strconv.ParseFloat(s, 64)
-- 
2.43.0


From 0d2c913e5a6b04e0545e6fbf2395d481a2c06db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 38/55] fix: $for over a list of one element

---
 template.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index bab1101..c39a430 100644
--- a/template.go
+++ b/template.go
@@ -120,7 +120,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// The first subnode (of !g) is a path
 			// The second is an expression evaluating to a list of elements
 
-			i, _ := c.Eval(n.GetAt(0).GetAt(1))
+			// (not simplified: a list of one element is a list)
+
+			i, _ := c.evalExpression(n.GetAt(0).GetAt(1), false)
 
 			// fmt.Printf("-------\nfor (expr)\n-------\n%s\n\n", n.GetAt(0).GetAt(1).Show())
 
-- 
2.43.0


From 46617a13a3e403e399b85dfa1a3b07cf3532a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 39/55] fix: spaces before an expression are not part of it

---
 flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flow.go b/flow.go
index 62f07d9..8369413 100644
--- a/flow.go
+++ b/flow.go
@@ -153,6 +153,7 @@ func (p *Parser) Args(dot bool) (bool, error) {
 // Expression := expr1 (op2 expr1)*
 func (p *Parser) Expression() bool {
 
+	p.Space()
 	if !p.UnaryExpression() {
 		return false
 	}
-- 
2.43.0


From cefec4673c445ea70c71e2cc53e87c93558dc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 40/55] fix: text that looks like a directive is text

---
 template.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/template.go b/template.go
index c39a430..131e4bb 100644
--- a/template.go
+++ b/template.go
@@ -85,9 +85,8 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 	yes := false
 
 	for _, n := range g.Out {
-		s := n.ThisString()
 
-		switch s {
+		switch n.directive() {
 		case TypePath:
 			i, _ := c.Eval(n)
 			buffer.WriteString(_text(i))
@@ -206,6 +205,15 @@ func (g *Graph) simplify() {
 
 }
 
+// directive returns the type of a node of a template, or an empty string if the
+// node is text.
+func (g *Graph) directive() string {
+	if s, ok := g.This.(string); ok {
+		return s
+	}
+	return ""
+}
+
 // flow nests 'if' and 'for' loops.
 // new version from 1/2024
 //
@@ -217,9 +225,8 @@ func (g *Graph) flow(h, prev *Graph, start int) int {
 
 	for i = start; i < g.Len(); i++ {
 		node := g.Out[i]
-		s := node.ThisString()
 
-		switch s {
+		switch node.directive() {
 
 		case TypeIf, TypeFor:
 			h.Add(node)
@@ -305,7 +312,8 @@ func (p *Parser) Text() bool {
 	s, b := p.TemplateText()
 
 	if b {
-		p.ev.Add(s)
+		// As bytes, so that it is not taken for a directive (see directive)
+		p.ev.AddBytes([]byte(s))
 		return true
 	}
 	return false
-- 
2.43.0


From 1108acf0248a58f1530c0aeb06bc37be31aaa13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 41/55] fix: FromJSON of a list returns all its elements

---
 encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..c855ec0 100644
--- a/encoding.go
+++ b/encoding.go
@@ -43,7 +43,13 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
-	return toGraph(v).GetAt(0), nil
+	g := toGraph(v)
+	if _, ok := v.([]interface{}); ok {
+		// All the elements of the list, not just the first.
+		return g, nil
+	}
+
+	return g.GetAt(0), nil
 }
 
 func toGraph(v interface{}) *Graph {
-- 
2.43.0


From edfb6db55063f913d6194983c8445ee2c470112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 42/55] fix: FromJSON gives the same graph for the same text

---
 encoding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index c855ec0..20b0f05 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sort"
 	"strings"
 )
 
@@ -65,8 +66,15 @@ func toGraph(v interface{}) *Graph {
 		}
 	case map[string]interface{}:
 		n := g.Add("_")
-		for k, i := range v.(map[string]interface{}) {
-			n.Add(k).AddNodes(toGraph(i))
+		m := v.(map[string]interface{})
+		keys := make([]string, 0, len(m))
+		for k := range m {
+			keys = append(keys, k)
+		}
+		// The order of maps is random: the same text should give the same graph.
+		sort.Strings(keys)
+		for _, k := range keys {
+			n.Add(k).AddNodes(toGraph(m[k]))
 		}
 	case json.Number:
 		// try first to decode the number as an integer.
-- 
2.43.0


From 1b3ad87819832a76b2e513c22db26ce8cccab1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 43/55] fix: JSON doesn't write to the graph that it prints

---
 encoding.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/encoding.go b/encoding.go
index 20b0f05..4d65340 100644
--- a/encoding.go
+++ b/encoding.go
@@ -117,14 +117,9 @@ func (g *Graph) JSON() []byte {
 	var buf *bytes.Buffer
 	buf = new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
-
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	// The root is printed as something different than _
+	r := &Graph{This: "", Out: g.Out}
+	r.json(buf)
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 181bac322b124451552560bf0d60c577563197e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 44/55] fix: JSON escapes backslashes and control characters

---
 encoding.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/encoding.go b/encoding.go
index 4d65340..1c745b2 100644
--- a/encoding.go
+++ b/encoding.go
@@ -10,7 +10,6 @@ import (
 	"fmt"
 	"math"
 	"sort"
-	"strings"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -174,8 +173,17 @@ func (g *Graph) json(buf *bytes.Buffer) {
 func (g *Graph) writeString(buf *bytes.Buffer) {
 	s := g.ThisString()
 	buf.WriteByte('"')
-	s = strings.Replace(s, "\"", "\\\"", -1)
-	buf.WriteString(s)
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\':
+			buf.WriteByte('\\')
+			buf.WriteByte(c)
+		case c < ' ':
+			buf.WriteString(fmt.Sprintf("\\u%04x", c))
+		default:
+			buf.WriteByte(c)
+		}
+	}
 	buf.WriteByte('"')
 	buf.WriteByte(' ')
 }
-- 
2.43.0


From 0f435f8454848b0b0737996057c94ed3978775ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 45/55] fix: JSON writes floats with their value

---
 encoding.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 1c745b2..e0cb445 100644
--- a/encoding.go
+++ b/encoding.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strconv"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -196,7 +197,7 @@ func (g *Graph) writeValue(buf *bytes.Buffer) {
 	}
 	f, ok := _float64(g.This)
 	if ok {
-		buf.WriteString(fmt.Sprintf("%f ", f))
+		buf.WriteString(strconv.FormatFloat(f, 'g', -1, 64) + " ")
 		return
 	}
 	g.writeString(buf)
-- 
2.43.0


From 01a5be24eebcb172eb5a503f753940479ad1c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 46/55] fix: JSON writes commas between values, names of maps
 and braces of maps with one member

---
 encoding.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/encoding.go b/encoding.go
index e0cb445..8146c2e 100644
--- a/encoding.go
+++ b/encoding.go
@@ -138,7 +138,7 @@ func (g *Graph) json(buf *bytes.Buffer) {
 	if g.ThisString() == "_" {
 		typ = '['
 		buf.WriteString("[ ")
-	} else if g.Len() > 1 {
+	} else if g.Len() > 1 || (g.Out[0].Len() > 0 && g.Out[0].ThisString() != "_") {
 		typ = '{'
 		buf.WriteString("{ ")
 	}
@@ -149,18 +149,17 @@ func (g *Graph) json(buf *bytes.Buffer) {
 		if comma {
 			buf.WriteString(", ")
 		}
-		switch n.Len() {
-		case 0:
+		comma = true
+		if n.Len() == 0 {
 			n.writeValue(buf)
-		case 1:
+			continue
+		}
+		// Lists have no name
+		if n.ThisString() != "_" {
 			n.writeString(buf)
 			buf.WriteString(": ")
-			n.json(buf)
-			comma = true
-		default:
-			n.json(buf)
-			comma = true
 		}
+		n.json(buf)
 	}
 
 	switch typ {
-- 
2.43.0


From 5a71c1270a2219fb4bab2f670362c77aff450925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 47/55] fix: remote function server accepts messages that
 arrive in pieces

---
 ogdlrf/server.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..9303a8b 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -6,6 +6,7 @@ package ogdlrf
 
 import (
 	"encoding/binary"
+	"io"
 	"log"
 	"net"
 	"time"
@@ -119,13 +120,13 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
 		}
 
-		if err != nil || i != 4 {
+		if err != nil {
 			log.Println("ogdlrf.Serve, error while trying to read LEN,", i, err)
 			break
 		}
@@ -144,15 +145,10 @@ func process(c net.Conn, handler Function, timeout int) {
 			log.Println("ogdlrf.Serve, cannot allocate memory for message")
 			break
 		}
-		i, err = c.Read(buf)
+		i, err = io.ReadFull(c, buf)
 
 		if err != nil {
-			log.Println("ogdlrf.Serve, error reading message body, ", err)
-			break
-		}
-
-		if i != l {
-			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
+			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l, err)
 			break
 		}
 
-- 
2.43.0


From 91201362846f923a31f2d32b89666cdca37fe58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 48/55] fix: remote function client reads exactly one answer,
 also in pieces

---
 ogdlrf/client.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..55fe715 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -7,6 +7,7 @@ package ogdlrf
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"log"
 	"net"
@@ -102,31 +103,19 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
-	if j != 4 {
+	_, err = io.ReadFull(rf.conn, b4)
+	if err != nil {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
 	}
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	buf3 := make([]byte, l)
+	i, err = io.ReadFull(rf.conn, buf3)
+	if err != nil {
+		log.Println("Error reading body", i, l, err)
+		return nil, err
 	}
 
 	g = ogdl.FromBinary(buf3)
-- 
2.43.0


From a0922ca945e1f0251a1e32a861a16a98752f4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 49/55] fix: cut messages of the old remote function protocol
 are not taken as whole

---
 ogdlrf/client.go |  8 +++++++-
 ogdlrf/server.go | 20 ++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 55fe715..0feffd6 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -146,7 +146,13 @@ func (rf *Client) callV1(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read the incoming object
-	g = ogdl.FromBinaryReader(rf.conn)
+	in := &msgReader{r: rf.conn}
+	g = ogdl.FromBinaryReader(in)
+
+	if in.err != nil {
+		log.Println("callv1", in.err)
+		return nil, in.err
+	}
 
 	if g == nil || g.Len() == 0 {
 		return nil, errEmptyResponse
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 9303a8b..31d1294 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -183,6 +183,21 @@ func process(c net.Conn, handler Function, timeout int) {
 	}
 }
 
+// msgReader remembers whether the reading failed, in which case the message
+// that was being read (in the old format) is not complete.
+type msgReader struct {
+	r   io.Reader
+	err error
+}
+
+func (m *msgReader) Read(b []byte) (int, error) {
+	n, err := m.r.Read(b)
+	if err != nil {
+		m.err = err
+	}
+	return n, err
+}
+
 // Old format, without the initial length indicator
 func process1(c net.Conn, handler Function, timeout int) {
 
@@ -193,9 +208,10 @@ func process1(c net.Conn, handler Function, timeout int) {
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 
 		// Read the incoming object
-		g := ogdl.FromBinaryReader(c)
+		in := &msgReader{r: c}
+		g := ogdl.FromBinaryReader(in)
 
-		if g == nil {
+		if g == nil || in.err != nil {
 			break
 		}
 
-- 
2.43.0


From e77458e2598b534ad9997dfe6ec45c4cf8e50971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 50/55] fix: remote function client doesn't use a connection
 after an error, nor repeats answered requests

---
 ogdlrf/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 0feffd6..72bc3dd 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -61,14 +61,15 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		} else {
 			r, err = rf.callV2(g)
 		}
-		if err == nil {
+		if err == nil || err == errEmptyResponse {
 			break
 		}
+		// The answer may still arrive. Don't take it for that of another request.
+		rf.Close()
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
-- 
2.43.0


From 64d67cd383a927afcd0de6bb907c108be2292f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 51/55] fix: simplifying XML doesn't panic on the text '@id'

---
 cmd/xml2ogdl/main.go | 2 +-
 io/gxml/xml.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xml2ogdl/main.go b/cmd/xml2ogdl/main.go
index d71f2a3..9bf822f 100644
--- a/cmd/xml2ogdl/main.go
+++ b/cmd/xml2ogdl/main.go
@@ -58,7 +58,7 @@ func simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..090bf45 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -22,7 +22,7 @@ func Simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From 934a12ff55d070b437c751b5d47bf7d9dd5deaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 52/55] fix: Find returns nothing when nothing is found, as
 documented

---
 gettypes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gettypes.go b/gettypes.go
index 9988e51..52c2e20 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -36,6 +36,9 @@ func (g *Graph) Find(re string) (*Graph, error) {
 		}
 	}
 
+	if r.Len() == 0 {
+		return nil, nil
+	}
 	return r, nil
 }
 
-- 
2.43.0


From a5c5aaeecab3d9c49b4c8c06adb79a3e38c65198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 53/55] fix: peeking at the end of the stream does not move the
 position

---
 lexer.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/lexer.go b/lexer.go
index 5e95d67..7cd0480 100644
--- a/lexer.go
+++ b/lexer.go
@@ -112,12 +112,7 @@ func (p *Lexer) Error() error {
 
 // PeekByte returns the next byte witohut consuming it
 func (p *Lexer) PeekByte() byte {
-	c, err := p.Byte()
-
-	if err != nil {
-		return 0
-	}
-
+	c, _ := p.Byte()
 	p.UnreadByte()
 	return c
 }
@@ -257,13 +252,8 @@ func (p *Lexer) Break() bool {
 // End returns true if the end of stream has been reached.
 func (p *Lexer) End() bool {
 	c, err := p.Byte()
-
-	if err != nil {
-		return true
-	}
-
 	p.UnreadByte()
-	return IsEndChar(c)
+	return err != nil || IsEndChar(c)
 }
 
 // WhiteSpace is equivalent to Space | Break. It consumes all white space,
-- 
2.43.0


From 18d71387eb7819109a6023a411fbfa2396f37825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:38 +0000
Subject: [PATCH 54/55] fix: the rest of a path is looked up in the result of a
 method

---
 eval.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eval.go b/eval.go
index 13fb048..98ffc20 100644
--- a/eval.go
+++ b/eval.go
@@ -157,6 +157,10 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 					if !ok {
 						return nil, ErrFunctionNoGraph
 					}
+					// The arguments have been used
+					if p.GetAt(i+1).ThisString() == TypeArguments {
+						i++
+					}
 				}
 			}
 		}
@@ -295,13 +299,15 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 					if err != nil {
 						return nil, err
 					}
+					// The arguments have been used
+					if p.GetAt(i+1).ThisString() == TypeArguments {
+						i++
+					}
 					var ok bool
 					ctx, ok = itf.(*Graph)
-					if !ok {
+					if !ok || i == len(p.Out)-1 {
 						return itf, nil
 					}
-					// fmt.Printf("evalPath function %s %d %d %d\n", pathElement, i, p.Len(), len(p.Out))
-					return itf, nil
 				}
 			}
 
-- 
2.43.0


From 27ef4159dd8d70ecf8f590f46624f76be838d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 55/55] fix: a loop in the body of a loop may use the same
 variable

---
 template.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/template.go b/template.go
index 131e4bb..05f2b72 100644
--- a/template.go
+++ b/template.go
@@ -151,6 +151,11 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 
 			for _, ee := range gi.Out {
 
+				// A loop in the body may have replaced the variable
+				if c.Node(varname) != it {
+					c.Delete(varname)
+					it = c.Add(varname)
+				}
 				it.Out = nil
 				it.Add(ee)
 
-- 
2.43.0

