From 9b1230cdeaacbba800e8566ea19c7fc7cff178ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 01/41] fix: use the row size in bytes when splitting 16/32-bit
 run-length data

---
 compress.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..6475abe 100644
--- a/compress.go
+++ b/compress.go
@@ -32,13 +32,7 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
-		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
+		return decodePackBits(dest, r, (rect.Dx()*depth+7)>>3, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
 	case CompressionMethodZIPWithPrediction:
-- 
2.43.0


From bad6c611ca82f19c789c1a1055ed131c771fd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 02/41] fix: keep malformed run-length rows inside their own
 row

---
 compress.inc.js     | 12 ++++++++----
 compress_js.go      |  5 ++++-
 compress_other.go   | 15 ++++++++++++---
 compress_wasm_js.go | 13 +++++++++++--
 4 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/compress.inc.js b/compress.inc.js
index d44e57a..f30e648 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -13,14 +13,17 @@ $global['$github.com/oov/psd$'] = {
         }
         return r;
     },
-    decodePackBits: function(dest, buf, lens) {
+    decodePackBits: function(dest, buf, lens, width) {
         var ofs = 0,
-            d = 0;
+            d = 0,
+            end = 0;
         for (var i = 0; i < lens.length; ++i) {
+            d = end;
+            end += width;
             for (var j = 0, ln = lens[i]; j < ln;) {
                 if (buf[ofs] <= 0x7f) {
                     var l = buf[ofs++] + 1;
-                    if (dest.length < d+l || ln-j-1 < l) {
+                    if (end < d+l || ln-j-1 < l) {
                         return false;
                     }
                     for (var k = 0; k < l; ++k) {
@@ -31,10 +34,11 @@ $global['$github.com/oov/psd$'] = {
                 }
                 if (buf[ofs] == 0x80) {
                     ofs++;
+                    j++;
                     continue;
                 }
                 var l = 256 - buf[ofs++] + 1;
-                if (dest.length < d+l || j+1 >= ln) {
+                if (end < d+l || j+1 >= ln) {
                     return false;
                 }
                 for (var k = 0, c = buf[ofs++]; k < l; ++k) {
diff --git a/compress_js.go b/compress_js.go
index 6cfe8d5..1f3f775 100644
--- a/compress_js.go
+++ b/compress_js.go
@@ -11,6 +11,9 @@ import (
 )
 
 func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool) (read int, err error) {
+	if len(dest) < width*lines {
+		return 0, io.ErrShortBuffer
+	}
 	intSize := get4or8(large) >> 1
 	b := make([]byte, lines*intSize)
 	var l int
@@ -33,7 +36,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		return
 	}
 	read += l
-	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens).Bool() {
+	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens, width).Bool() {
 		return read, errors.New("psd: error occurred in decodePackBits")
 	}
 	return
diff --git a/compress_other.go b/compress_other.go
index 9b7e084..8c6996a 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -10,6 +10,9 @@ import (
 )
 
 func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool) (read int, err error) {
+	if len(dest) < width*lines {
+		return 0, io.ErrShortBuffer
+	}
 	buf := make([]byte, lines*(get4or8(large)>>1))
 	var l int
 	if l, err = io.ReadFull(r, buf); err != nil {
@@ -50,7 +53,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		n--
 	}
 	if n == 1 {
-		err = decodePackBitsPerLine(dest, buf, lens)
+		err = decodePackBitsPerLine(dest[:lines*width], buf, lens)
 		return
 	}
 
@@ -68,7 +71,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	go func() {
 		defer wg.Done()
-		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:])
+		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:lines*width], buf[offsets[ofs]:], lens[ofs:])
 	}()
 	wg.Wait()
 	for i := 0; i < n; i++ {
@@ -81,8 +84,14 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 }
 
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
+	if len(lens) == 0 {
+		return nil
+	}
 	var l int
-	for _, ln := range lens {
+	// A row never extends to the next one, even if its data is malformed.
+	width := len(dest) / len(lens)
+	for y, ln := range lens {
+		dest := dest[y*width : (y+1)*width]
 		for i := 0; i < ln; {
 			if buf[i] <= 0x7f {
 				l = int(buf[i]) + 1
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..83aed70 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -8,6 +8,9 @@ import (
 )
 
 func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool) (read int, err error) {
+	if len(dest) < width*lines {
+		return 0, io.ErrShortBuffer
+	}
 	buf := make([]byte, lines*(get4or8(large)>>1))
 	var l int
 	if l, err = io.ReadFull(r, buf); err != nil {
@@ -43,13 +46,19 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	read += l
 
-	err = decodePackBitsPerLine(dest, buf, lens)
+	err = decodePackBitsPerLine(dest[:lines*width], buf, lens)
 	return
 }
 
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
+	if len(lens) == 0 {
+		return nil
+	}
 	var l int
-	for _, ln := range lens {
+	// A row never extends to the next one, even if its data is malformed.
+	width := len(dest) / len(lens)
+	for y, ln := range lens {
+		dest := dest[y*width : (y+1)*width]
 		for i := 0; i < ln; {
 			if buf[i] <= 0x7f {
 				l = int(buf[i]) + 1
-- 
2.43.0


From 19e3321b070dd76b5e99bf8c317cbbc6a2932840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 03/41] fix: undo the prediction of zipped 8-bit and 32-bit
 image data

---
 compress.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/compress.go b/compress.go
index 6475abe..59768ce 100644
--- a/compress.go
+++ b/compress.go
@@ -69,25 +69,38 @@ func decodeZLIB(dest []byte, r io.Reader, length int64) (read int, err error) {
 }
 
 func decodeDelta(buf []byte, width int, depth int) {
+	if width <= 0 {
+		return
+	}
 	switch depth {
+	case 8:
+		for ; len(buf) >= width; buf = buf[width:] {
+			for j := 1; j < width; j++ {
+				buf[j] += buf[j-1]
+			}
+		}
 	case 16:
-		var d uint16
-		for i := 0; i < len(buf); {
-			d = 0
-			for j := 0; j < width; j++ {
+		for ; len(buf) >= width*2; buf = buf[width*2:] {
+			var d uint16
+			for i := 0; i < width*2; i += 2 {
 				d += readUint16(buf, i)
 				writeUint16(buf, d, i)
-				i += 2
 			}
 		}
 	case 32:
-		var d uint32
-		for i := 0; i < len(buf); {
-			d = 0
+		// The bytes of a row are grouped by significance,
+		// and the differences are taken byte by byte over the whole row.
+		row := make([]byte, width*4)
+		for ; len(buf) >= len(row); buf = buf[len(row):] {
+			var d byte
+			for i := range row {
+				d += buf[i]
+				row[i] = d
+			}
 			for j := 0; j < width; j++ {
-				d += readUint32(buf, i)
-				writeUint32(buf, d, i)
-				i += 4
+				for k := 0; k < 4; k++ {
+					buf[j*4+k] = row[width*k+j]
+				}
 			}
 		}
 	}
-- 
2.43.0


From 7fdde5e0c5fd9443f7fbb3d458cdd9030cb6d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 04/41] fix: read the real user mask rectangle as signed
 numbers

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 7771a92..3239748 100644
--- a/layer.go
+++ b/layer.go
@@ -791,8 +791,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From 00cb5ec5205d1661e456c2e5d49c152ac9d6cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 05/41] fix: read padding completely from readers that return
 less than requested

---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index cddf128..63f5699 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -105,7 +105,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 9922aabd27dae915b8660a9ec6769c4f39c91134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 06/41] fix: report an unclosed layer group instead of dropping
 layers

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 3239748..e8358a7 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) != 0 {
+		return nil, errors.New("psd: layer tree structure is broken(unclosed group)")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 1687701d37bd943e5f968aa460d8fe20bd2dde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 07/41] fix: do not skip past the end of the data or backwards,
 and skip in pipes

---
 util.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/util.go b/util.go
index 63f5699..d6a8aac 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"errors"
 	"io"
 	"io/ioutil"
 	"math"
@@ -114,18 +115,29 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	type discarder interface {
 		Discard(n int) (discarded int, err error)
 	}
+	if skip < 0 {
+		return 0, errors.New("psd: unexpected data length")
+	}
+	if skip == 0 {
+		return 0, nil
+	}
 	switch rr := r.(type) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
-			return 0, err
+		// Seeking beyond the end of the data is not an error,
+		// so read the last byte to make sure that it is there.
+		if _, err = rr.Seek(int64(skip-1), 1); err == nil {
+			var b [1]byte
+			if _, err = io.ReadFull(r, b[:]); err != nil {
+				return 0, io.ErrUnexpectedEOF
+			}
+			return skip, nil
 		}
-		return skip, nil
-	default:
-		rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
-		return int(rd), err
+		// It has a Seek method but it is not seekable, such as a pipe.
 	}
+	rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
+	return int(rd), err
 }
 
 func readPascalString(r io.Reader) (str string, read int, err error) {
-- 
2.43.0


From e918036c16255a6d6d9951b3e7d9e5b753753d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 08/41] fix: reject image resources and layer info whose length
 disagrees with their content

---
 imageres.go | 3 +++
 layer.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/imageres.go b/imageres.go
index af5f22a..34ac3ed 100644
--- a/imageres.go
+++ b/imageres.go
@@ -90,6 +90,9 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		}
 		resMap[id] = res
 	}
+	if read != imageResourceLen+4 {
+		return nil, read, errors.New("psd: image resources read size mismatched. expected " + itoa(imageResourceLen+4) + " actual " + itoa(read))
+	}
 	if Debug != nil {
 		Debug.Println("end - image resources section")
 	}
diff --git a/layer.go b/layer.go
index e8358a7..b163f82 100644
--- a/layer.go
+++ b/layer.go
@@ -427,6 +427,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		}
 		read += l
 	}
+	if read > layerInfoLen+intSize {
+		return nil, read, errors.New("psd: layer info read size mismatched. expected " + itoa(layerInfoLen+intSize) + " actual " + itoa(read))
+	}
 	// Discard any remaining data.
 	if layerInfoLen+intSize > read {
 		if l, err = discard(r, layerInfoLen+intSize-read); err != nil {
-- 
2.43.0


From 71368bfe7a7c0aa223b01fd6929510be1c64f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 09/41] fix: do not panic on a short color table, transparency
 index or alpha identifiers

---
 imageres.go |  2 +-
 psd.go      | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/imageres.go b/imageres.go
index 34ac3ed..e5da285 100644
--- a/imageres.go
+++ b/imageres.go
@@ -111,7 +111,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
diff --git a/psd.go b/psd.go
index 4e66663..4397321 100644
--- a/psd.go
+++ b/psd.go
@@ -92,10 +92,13 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
-	pal := make(color.Palette, len(cfg.ColorModeData)/3)
+	if len(cfg.ColorModeData) < 256*3 {
+		return nil
+	}
+	pal := make(color.Palette, 256)
 	for i := range pal {
 		c := color.NRGBA{
 			cfg.ColorModeData[i],
@@ -115,7 +118,11 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		pal := cfg.Palette()
+		if pal == nil {
+			return nil, errors.New("psd: color table is too short")
+		}
+		pk = &pickerPalette{Palette: pal}
 	case ColorModeBitmap:
 		pk = &pickerGray1{}
 	default:
-- 
2.43.0


From 1a191584849ba1b1edb3dc88aaaf0500266ab167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 10/41] fix: do not panic when the color mode needs more
 channels than the file has

---
 psd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psd.go b/psd.go
index 4397321..b96f28e 100644
--- a/psd.go
+++ b/psd.go
@@ -115,6 +115,9 @@ func (cfg *Config) Palette() color.Palette {
 }
 
 func (cfg *Config) makePicker() (picker, error) {
+	if cfg.Channels < cfg.ColorMode.Channels() {
+		return nil, errors.New("psd: color mode " + itoa(int(cfg.ColorMode)) + " needs more channels than " + itoa(cfg.Channels))
+	}
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-- 
2.43.0


From a6aa959f8be984b5f8a834e312e284a0261ebe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 11/41] fix: do not panic on layers with missing, extra or
 oversized channels

---
 layer.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/layer.go b/layer.go
index b163f82..f8818aa 100644
--- a/layer.go
+++ b/layer.go
@@ -444,12 +444,20 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	return layerSlice, read, nil
 }
 
+// maxLayerSize is the largest width and height of a PSB document.
+const maxLayerSize = 300000
+
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
-		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		colorChs := cfg.ColorMode.Channels()
+		if colorChs < 0 {
+			colorChs = 0
+		}
+		pickerChs := make([][]byte, colorChs, 8)
+		var alpha []byte
 		for _, j := range lci.ChannelData {
 			var readCh int
 			if j.DataLen >= 2 {
@@ -475,6 +483,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
+			if rect.Dx() > maxLayerSize || rect.Dy() > maxLayerSize {
+				return read, errors.New("psd: layer: " + itoa(i) + " channel: " + itoa(j.ChIndex) + " is too large")
+			}
 			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
@@ -503,15 +514,24 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
+			case j.ChIndex >= 0 && j.ChIndex < colorChs:
 				pickerChs[j.ChIndex] = data
 			case j.ChIndex == -1:
-				pickerChs = append(pickerChs, data)
+				alpha = data
 			}
 		}
-		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
-		pk.setSource(lci.Layer.Rect, pickerChs...)
-		lci.Layer.Picker = pk
+		// A layer that lacks some of the color channels has no image.
+		complete := true
+		for _, data := range pickerChs {
+			complete = complete && (data != nil || lci.Layer.Rect.Empty())
+		}
+		if alpha != nil {
+			pickerChs = append(pickerChs, alpha)
+		}
+		if pk := findPicker(cfg.Depth, cfg.ColorMode, alpha != nil); pk != nil && complete {
+			pk.setSource(lci.Layer.Rect, pickerChs...)
+			lci.Layer.Picker = pk
+		}
 		lci.Layer.Channel = chMap
 		if o.LayerImageLoaded != nil {
 			o.LayerImageLoaded(lci.Layer, i, len(lcis))
-- 
2.43.0


From b943aca5b12d7ed09f8d968213e6950483657b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 12/41] fix: do not panic on short unicode names and section
 divider settings

---
 layer.go | 10 +++++++++-
 util.go  | 12 +++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/layer.go b/layer.go
index f8818aa..212e559 100644
--- a/layer.go
+++ b/layer.go
@@ -228,6 +228,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -244,6 +247,9 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: section divider setting is too short")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -365,7 +371,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		read += l
 
 		if data, ok := layer.AdditionalLayerInfo[AdditionalInfoKeyUnicodeLayerName]; ok && data != nil {
-			layer.UnicodeName = readUnicodeString(data)
+			if layer.UnicodeName, err = readUnicodeString(data); err != nil {
+				return nil, read, err
+			}
 			layer.Name = layer.UnicodeName
 			delete(layer.AdditionalLayerInfo, AdditionalInfoKeyUnicodeLayerName)
 		} else {
diff --git a/util.go b/util.go
index d6a8aac..7c4026e 100644
--- a/util.go
+++ b/util.go
@@ -83,16 +83,22 @@ func writeUint32(b []byte, v uint32, offset int) {
 	b[offset+3] = uint8(v)
 }
 
-func readUnicodeString(b []byte) string {
+func readUnicodeString(b []byte) (string, error) {
+	if len(b) < 4 {
+		return "", errors.New("psd: unicode string is too short")
+	}
 	ln := readUint32(b, 0)
 	if ln == 0 {
-		return ""
+		return "", nil
+	}
+	if uint64(ln) > uint64(len(b)-4)>>1 {
+		return "", errors.New("psd: unicode string is too short")
 	}
 	buf := make([]uint16, ln)
 	for i := range buf {
 		buf[i] = readUint16(b, 4+i<<1)
 	}
-	return string(utf16.Decode(buf))
+	return string(utf16.Decode(buf)), nil
 }
 
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
-- 
2.43.0


From 6252d1d43676213baf35ac0aa33b20fe4fdb09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 13/41] fix: do not allocate memory for data that the file does
 not have

---
 compress_other.go   |  5 ++---
 compress_wasm_js.go |  5 ++---
 imageres.go         |  4 ++--
 layer.go            |  7 +++----
 psd.go              |  5 ++---
 util.go             | 19 +++++++++++++++++++
 6 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 8c6996a..858e425 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -42,11 +42,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += total
 
 	n := runtime.GOMAXPROCS(0)
 	for n > 1 && n<<1 > lines {
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 83aed70..43885af 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -40,11 +40,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += total
 
 	err = decodePackBitsPerLine(dest[:lines*width], buf, lens)
 	return
diff --git a/imageres.go b/imageres.go
index e5da285..efdf70c 100644
--- a/imageres.go
+++ b/imageres.go
@@ -76,10 +76,10 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		res.Data = make([]byte, readUint32(b, 0))
-		if l, err = io.ReadFull(r, res.Data); err != nil {
+		if res.Data, err = readBytes(r, int(readUint32(b, 0))); err != nil {
 			return nil, read, err
 		}
+		l = len(res.Data)
 		read += l
 		if l, err = adjustAlign2(r, l); err != nil {
 			return nil, read, err
diff --git a/layer.go b/layer.go
index 212e559..8d8588a 100644
--- a/layer.go
+++ b/layer.go
@@ -883,12 +883,11 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+				if data, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
-				read += l
+				read += ln
 			}
 			infos[key] = data
 			if Debug != nil {
diff --git a/psd.go b/psd.go
index b96f28e..acffb78 100644
--- a/psd.go
+++ b/psd.go
@@ -193,11 +193,10 @@ func DecodeConfig(r io.Reader) (cfg Config, read int, err error) {
 	cfg.ColorMode = ColorMode(readUint16(b, 24))
 
 	if ln := readUint32(b, 26); ln > 0 {
-		cfg.ColorModeData = make([]byte, ln)
-		if l, err = io.ReadFull(r, cfg.ColorModeData); err != nil {
+		if cfg.ColorModeData, err = readBytes(r, int(ln)); err != nil {
 			return Config{}, read, err
 		}
-		read += l
+		read += len(cfg.ColorModeData)
 	}
 	if Debug != nil {
 		Debug.Println("start - header")
diff --git a/util.go b/util.go
index 7c4026e..507be00 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"io/ioutil"
@@ -146,6 +147,24 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	return int(rd), err
 }
 
+// readBytes reads n bytes from r.
+// The buffer grows as the data arrives so that a broken length doesn't lead to a huge allocation.
+func readBytes(r io.Reader, n int) (buf []byte, err error) {
+	if n < 0 {
+		return nil, errors.New("psd: unexpected data length")
+	}
+	if n <= 1<<20 {
+		buf = make([]byte, n)
+		_, err = io.ReadFull(r, buf)
+		return buf, err
+	}
+	var bb bytes.Buffer
+	if _, err = io.CopyN(&bb, r, int64(n)); err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return bb.Bytes(), err
+}
+
 func readPascalString(r io.Reader) (str string, read int, err error) {
 	b := make([]byte, 1)
 	if _, err := io.ReadFull(r, b); err != nil {
-- 
2.43.0


From d9d1211d699e9f2551361afc849c6a2d6a0407be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 14/41] fix: skip what follows the known fields of the layer
 mask data

---
 layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index 8d8588a..12f530d 100644
--- a/layer.go
+++ b/layer.go
@@ -829,7 +829,10 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
-	return read, nil
+	// Discard any remaining data.
+	l, err = discard(r, maskLen-readMask)
+	read += l
+	return read, err
 }
 
 func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
-- 
2.43.0


From ea1a5332d3c0170299da79fa67e69acd153e4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 15/41] fix: leave colors that already belong to the color
 model unchanged

---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index 95f762e..932d78b 100644
--- a/color/color.go
+++ b/color/color.go
@@ -85,7 +85,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -120,7 +120,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -283,7 +283,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From b38cf72ba8753e2c7302ff4fb8d7c962f09de3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 16/41] fix: convert transparent and translucent colors to
 NCMYKA

---
 color/color.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/color/color.go b/color/color.go
index 932d78b..5a1bd53 100644
--- a/color/color.go
+++ b/color/color.go
@@ -250,11 +250,15 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NCMYKA{0xff, 0xff, 0xff, 0xff, 0}
+	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
-- 
2.43.0


From ebc7615d2c5e58a1d7d128b183f55cd86ffbdc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 17/41] fix: convert black and translucent colors to NCMYKA80

---
 color/color.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/color/color.go b/color/color.go
index 5a1bd53..7b24d52 100644
--- a/color/color.go
+++ b/color/color.go
@@ -294,6 +294,11 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	w := r
 	if w < g {
 		w = g
@@ -302,19 +307,12 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From 1d6f45a58734a885dbd61f10e6002020bb271a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 18/41] fix: remove the alpha before the gamma when converting
 to 32-bit float colors

---
 color/color.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/color/color.go b/color/color.go
index 7b24d52..6553feb 100644
--- a/color/color.go
+++ b/color/color.go
@@ -163,12 +163,11 @@ func nGrayA64Model(c color.Color) color.Color {
 		return NGrayA64{0, 0}
 	}
 	y := (299*r + 587*g + 114*b + 500) / 1000
-	x := float32(toFloat(y, 2.2))
 	if a == 0xffff {
-		return NGrayA64{x, 1}
+		return NGrayA64{float32(toFloat(y, 2.2)), 1}
 	}
-	xa := float32(a) / 0xffff
-	return NGrayA64{x / xa, xa}
+	y = (y * 0xffff) / a
+	return NGrayA64{float32(toFloat(y, 2.2)), float32(a) / 0xffff}
 }
 
 type NRGBA128 struct {
@@ -199,20 +198,21 @@ func nRGBA128Model(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NRGBA128{}
+	}
+	if a < 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	const gamma = 2.2
 	fr := float32(toFloat(r, gamma))
 	fg := float32(toFloat(g, gamma))
 	fb := float32(toFloat(b, gamma))
-	switch {
-	case a >= 0xffff:
+	if a >= 0xffff {
 		return NRGBA128{fr, fg, fb, 1}
-	case a == 0:
-		return NRGBA128{}
 	}
-	fa := 0xffff / float32(a)
-	fr *= fa
-	fg *= fa
-	fb *= fa
 	return NRGBA128{fr, fg, fb, float32(a) / 0xffff}
 }
 
-- 
2.43.0


From eb12564f62da7c333953944ad3a2083791a4fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 19/41] fix: let the parent of every layer refer to the layer
 in the tree

---
 composite/builder.go |  6 +++++-
 composite/layer.go   | 32 +++++++++++++++-----------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..4df1965 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,8 +51,12 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
+	if len(psdl.Layer) > 0 {
+		// Layers refer to each other by pointer, so don't let the slice move while it grows.
+		l.Children = make([]Layer, len(psdl.Layer))
+	}
 	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
+		l.Children[i].Parent = l
 		b.buildLayer(&l.Children[i], &psdl.Layer[i])
 	}
 }
diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..bed2c22 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -217,21 +217,16 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		Img: img,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
-	root := Layer{
-		SeqID:      SeqIDRoot,
-		Folder:     true,
-		FolderOpen: true,
-		Visible:    true,
-		BlendMode:  psd.BlendModeNormal,
-		Opacity:    255,
-	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
-
 	r := &Tree{
+		Root: Layer{
+			SeqID:      SeqIDRoot,
+			Folder:     true,
+			FolderOpen: true,
+			Visible:    true,
+			BlendMode:  psd.BlendModeNormal,
+			Opacity:    255,
+			Children:   make([]Layer, len(img.Layer)),
+		},
 		Renderer: &Renderer{
 			cache: map[int]*cache{},
 		},
@@ -239,10 +234,13 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
-
-		Root: root,
 	}
+	for i := range img.Layer {
+		r.Root.Children[i].Parent = &r.Root
+		b.buildLayer(&r.Root.Children[i], &img.Layer[i])
+	}
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
 
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
-- 
2.43.0


From f526207d30b7090d29348a4bace0c380defb259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 20/41] fix: discard the caches of pass-through groups in an
 edited group

---
 composite/renderer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..65114ab 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -166,6 +166,8 @@ func (r *Renderer) setDirtyByLayerRecursive(l *Layer, areaMap []image.Point) {
 
 func (r *Renderer) setDirtyByLayer(l *Layer) {
 	areaMap := r.buildAreaMap(l)
+	// The caches of the pass-through groups in l depend on the settings of l.
+	r.setDirtyByLayerPassThrough(l, areaMap)
 	r.setDirtyByLayerRecursive(l, areaMap)
 }
 
-- 
2.43.0


From 13b1a2bf0aa27e7228942e66d939ee8f9966f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 21/41] fix: do not hang or lose layers when New is cancelled

---
 composite/layer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index bed2c22..1222204 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -269,7 +269,13 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			}
 			return nil
 		},
-		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
+		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
+			select {
+			case ch <- l:
+			case <-cctx.Done():
+				// There may be no one left to receive it.
+			}
+		},
 	})
 	close(ch)
 	if err != nil {
@@ -278,6 +284,10 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if ctx.Err() != nil {
+		// Some layers may have been left out.
+		return nil, nil, ErrAborted
+	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
 }
-- 
2.43.0


From 31ef90abef71256cf89044337326b55df9c58269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 22/41] fix: do not modify layers of the decoded file while
 they are being read

---
 composite/builder.go | 6 +++++-
 composite/layer.go   | 5 ++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 4df1965..0345537 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"strings"
 
+	"golang.org/x/image/math/f64"
 	"golang.org/x/text/encoding"
 
 	"github.com/oov/psd"
@@ -12,6 +13,7 @@ import (
 
 type builder struct {
 	Img                       *psd.PSD
+	Transform                 f64.Aff3
 	Rect                      image.Rectangle
 	LayerNameEncodingDetector func([]byte) encoding.Encoding
 	LayerNameEncoding         encoding.Encoding
@@ -50,7 +52,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskDefaultColor = psdl.Mask.DefaultColor
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
-	b.Rect = b.Rect.Union(psdl.Rect)
+	if !psdl.Rect.Empty() {
+		b.Rect = b.Rect.Union(transformRect(psdl.Rect, b.Transform))
+	}
 	if len(psdl.Layer) > 0 {
 		// Layers refer to each other by pointer, so don't let the slice move while it grows.
 		l.Children = make([]Layer, len(psdl.Layer))
diff --git a/composite/layer.go b/composite/layer.go
index 1222204..6182cfd 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -214,7 +214,8 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	}
 
 	b := &builder{
-		Img: img,
+		Img:       img,
+		Transform: opt.TransformMatrix,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
 	r := &Tree{
@@ -307,7 +308,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -316,7 +316,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From 10e3a58fb2a39fbf93b86303d1974f4096905323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 23/41] fix: keep the parts of layers at negative coordinates

---
 composite/layerimage.go | 25 +++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..0c10894 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -17,6 +17,15 @@ type layerImage struct {
 	Mask   tiledMask
 }
 
+// alignToTile returns the origin of the tile that contains x.
+func alignToTile(x int, tileSize int) int {
+	r := x % tileSize
+	if r < 0 {
+		r += tileSize
+	}
+	return x - r
+}
+
 type tiledImage map[image.Point]draw.Image
 
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
@@ -43,8 +52,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +240,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +365,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +434,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index 65114ab..ef78705 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -237,8 +237,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From c003b6b3e331540d3d6f39d609cb018a1addd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 24/41] fix: do not enlarge transformed rectangles

---
 composite/layer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 6182cfd..3fdcc39 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -159,7 +159,7 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		dx, dy := sx*m[0]+sy*m[1]+m[2], sx*m[3]+sy*m[4]+m[5]
 		if i == 0 {
 			xMin, yMin = dx, dy
-			xMax, yMax = dx+1, dy+1
+			xMax, yMax = dx, dy
 			continue
 		}
 		if xMin > dx {
@@ -168,8 +168,6 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		if yMin > dy {
 			yMin = dy
 		}
-		dx++
-		dy++
 		if xMax < dx {
 			xMax = dx
 		}
-- 
2.43.0


From cf4664e2659ba2180a6ae00a0f656dae4bc6ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 25/41] fix: move every layer by the same distance when
 translating by whole pixels

---
 composite/layerimage.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0c10894..3be5580 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -220,9 +220,16 @@ func (t tiledImage) Transform(ctx context.Context, m f64.Aff3, gt *gammaTable) (
 	return newScaledTiledImage(ctx, tileSize, rect, tmp.Pix[0:], tmp.Pix[1:], tmp.Pix[2:], tmp.Pix[3:], 4, m, gt)
 }
 
+// wholePixelTranslation returns the distance if m only moves the image by whole pixels.
+// draw.Transform places such an image wrongly unless its origin is on the diagonal.
+func wholePixelTranslation(m f64.Aff3) (image.Point, bool) {
+	pt := image.Point{X: int(m[2]), Y: int(m[5])}
+	return pt, m == f64.Aff3{1, 0, float64(pt.X), 0, 1, float64(pt.Y)}
+}
+
 func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int, m f64.Aff3, gt *gammaTable) (tiledImage, error) {
-	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
-		return newTiledImage(ctx, tileSize, rect, r, g, b, a, deltaX)
+	if pt, ok := wholePixelTranslation(m); ok {
+		return newTiledImage(ctx, tileSize, rect.Add(pt), r, g, b, a, deltaX)
 	}
 	if gt == nil {
 		tmp := createImage(rect, r, g, b, a, deltaX)
@@ -422,8 +429,8 @@ func (t tiledMask) Transform(ctx context.Context, m f64.Aff3) (tiledMask, error)
 }
 
 func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int, m f64.Aff3) (tiledMask, error) {
-	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
-		return newTiledMask(ctx, tileSize, rect, a, defaultColor)
+	if pt, ok := wholePixelTranslation(m); ok {
+		return newTiledMask(ctx, tileSize, rect.Add(pt), a, defaultColor)
 	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
-- 
2.43.0


From e6d479926275b50af7710ccfd483eb8837c4cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 26/41] fix: keep the outside of transformed masks in their
 default color

---
 composite/layerimage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 3be5580..1fd975b 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -432,12 +432,20 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 	if pt, ok := wholePixelTranslation(m); ok {
 		return newTiledMask(ctx, tileSize, rect.Add(pt), a, defaultColor)
 	}
+	if defaultColor != 0 {
+		// Outside of the transformed mask is zero, so make the default color zero.
+		inv := make([]byte, len(a))
+		for i, v := range a {
+			inv[i] = 255 - v
+		}
+		a = inv
+	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
 	tmp2 := image.NewAlpha(trRect)
 	// TODO: currently, it seems fallback path is used in image.Alpha.
 	draw.BiLinear.Transform(tmp2, m, tmp, rect, draw.Src, nil)
-	return newTiledMask(ctx, tileSize, trRect, tmp2.Pix, defaultColor)
+	return newTiledMask(ctx, tileSize, trRect, tmp2.Pix, 0)
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-- 
2.43.0


From 4d993289b6533689ca4973275e93c772355a842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 27/41] fix: draw layers whose blend mode is not supported as
 normal

---
 composite/draw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/composite/draw.go b/composite/draw.go
index eaae508..47d81b3 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,12 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		// unsupported blend mode such as dissolve
+		d = blend.Normal
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
-- 
2.43.0


From 4c08f1a7fa30a5dac6e7ccc2214982cecb2e1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 28/41] fix: do not panic when the depth is not supported or a
 layer lacks color channels

---
 composite/layer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index 3fdcc39..aaffc0e 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -266,6 +266,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported color depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
@@ -295,7 +298,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 	defer pc.Done()
 	for l := range ch {
 		var ld layerImage
-		if l.HasImage() && !l.Rect.Empty() {
+		// Picker is nil if the layer lacks some of the color channels.
+		if l.HasImage() && !l.Rect.Empty() && l.Picker != nil {
 			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
 			var a []byte
 			if ach, ok := l.Channel[-1]; ok {
-- 
2.43.0


From 0598ef87bf8fd72d83346808bd0ea0f06fcc7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 29/41] fix: accept transform matrices with a zero diagonal

---
 composite/layer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index aaffc0e..f8c2ad0 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -192,10 +192,8 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-	if opt.TransformMatrix[0] == 0 {
+	if m := opt.TransformMatrix; m[0] == 0 && m[1] == 0 && m[3] == 0 && m[4] == 0 {
 		opt.TransformMatrix[0] = 1
-	}
-	if opt.TransformMatrix[4] == 0 {
 		opt.TransformMatrix[4] = 1
 	}
 	var gt *gammaTable
-- 
2.43.0


From 1cf1170ea78647058db42794359cf7d247f5348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 30/41] fix: do not add to the backdrop of a masked
 pass-through group

---
 composite/draw.go     | 25 +++++++++++++++++++++++++
 composite/renderer.go |  7 +++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index 47d81b3..3b9947d 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -56,3 +56,28 @@ func removeAlpha(b *image.NRGBA) {
 		d[i+3] = 255
 	}
 }
+
+// fadeToBackdrop replaces the part of buf that is hidden by the mask with backdrop.
+// All of them have the same rectangle.
+func fadeToBackdrop(buf, backdrop *image.NRGBA, mask *image.Alpha, defaultColor int) {
+	u, b := buf.Pix, backdrop.Pix
+	for i := 0; i < len(u); i += 4 {
+		var m uint32
+		if mask != nil {
+			m = uint32(mask.Pix[i>>2])
+		}
+		if defaultColor == 255 {
+			m = 255 - m
+		}
+		ua, ba := uint32(u[i+3])*m, uint32(b[i+3])*(255-m)
+		a := ua + ba
+		if a == 0 {
+			u[i+0], u[i+1], u[i+2], u[i+3] = 0, 0, 0, 0
+			continue
+		}
+		u[i+0] = uint8((uint32(u[i+0])*ua + uint32(b[i+0])*ba + a>>1) / a)
+		u[i+1] = uint8((uint32(u[i+1])*ua + uint32(b[i+1])*ba + a>>1) / a)
+		u[i+2] = uint8((uint32(u[i+2])*ua + uint32(b[i+2])*ba + a>>1) / a)
+		u[i+3] = uint8((a + 127) / 255)
+	}
+}
diff --git a/composite/renderer.go b/composite/renderer.go
index ef78705..4b49976 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -403,7 +403,9 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 		blend.Copy.Draw(buf, ldCanvas.Bounds(), ldCanvas, pt)
 	}
 
-	if l.MaskEnabled {
+	if l.MaskEnabled && blendMode == psd.BlendModePassThrough {
+		fadeToBackdrop(buf, b, ld.Mask[pt], l.MaskDefaultColor)
+	} else if l.MaskEnabled {
 		if ldMask, ok := ld.Mask[pt]; ok {
 			if l.MaskDefaultColor != 255 {
 				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
@@ -415,9 +417,6 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
 			}
 		}
-		if blendMode == psd.BlendModePassThrough {
-			blend.DestOver.Draw(buf, buf.Rect, b, pt)
-		}
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From 0a5a6d11488ad827446cb026905bb665764f63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 31/41] fix: keep the last row and column of the layer in
 thumbnails

---
 composite/thumbnail.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..c57ce96 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -20,7 +20,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	w, h := src.Rect.Dx(), src.Rect.Dy()
 	stride := src.Stride
 	pix := src.Pix[:h*stride]
-	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: -1, Y: -1}}
+	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: 0, Y: 0}}
 	for y := 0; y < h; y++ {
 		for l := 0; l < w; l++ {
 			if pix[l*4+3] > threshold {
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r >= rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,13 +38,16 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				rect.Max.Y = y + 1
 				break
 			}
 		}
 		pix = pix[stride:]
 	}
 
+	if rect.Min.X >= rect.Max.X {
+		rect = image.Rectangle{}
+	}
 	if rect.Dx()*rect.Dy() == w*h {
 		return
 	}
-- 
2.43.0


From d8dfcaeb6b64bb461e33de54835d91927a17a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 32/41] fix: create thumbnails of long and thin layers

---
 composite/thumbnail.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index c57ce96..d228fcf 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -97,11 +97,19 @@ func (t *Tree) Thumbnail(seqID int, size int, tempBuffer []byte) (*image.NRGBA,
 	if sw*sh == 0 {
 		return nil, errors.Wrap(errNoCanvas, "composite: failed to create thumbnail")
 	}
+	dw, dh := size, size
 	if sw > sh {
-		dest = image.NewNRGBA(image.Rect(0, 0, size, sh*size/sw))
+		dh = sh * size / sw
 	} else {
-		dest = image.NewNRGBA(image.Rect(0, 0, sw*size/sh, size))
+		dw = sw * size / sh
 	}
+	if dw < 1 {
+		dw = 1
+	}
+	if dh < 1 {
+		dh = 1
+	}
+	dest = image.NewNRGBA(image.Rect(0, 0, dw, dh))
 	if err := downscale.NRGBAFast(context.Background(), dest, src); err != nil {
 		return nil, errors.Wrap(err, "composite: failed to create thumbnail")
 	}
-- 
2.43.0


From 05ff57e3426e252816d8ef59a8e8af8f97d71ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 33/41] fix: do not read past the last row when trimming
 thumbnails

---
 composite/thumbnail.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index d228fcf..9fab7f9 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -59,7 +59,9 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	for y := 0; y < h; y++ {
 		copy(d, s[:w])
 		d = d[w:]
-		s = s[stride:]
+		if y < h-1 {
+			s = s[stride:]
+		}
 	}
 	src.Rect = rect
 	src.Stride = w
-- 
2.43.0


From e00c29c2f30828b064c677f38d4304a819fa7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 34/41] fix: draw an image onto itself in order

---
 blend/draw.go |  6 ++++++
 blend/util.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/blend/draw.go b/blend/draw.go
index af44cdf..767d110 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -34,6 +34,9 @@ type drawFunc func(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int,
 
 func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
 	n := runtime.GOMAXPROCS(0)
+	if sameMemory(dest, src) {
+		n = 1 // the rows depend on each other
+	}
 	for n > 1 && n<<1 > y {
 		n--
 	}
@@ -99,6 +102,9 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 		y = pY - endY
 	}
 	n := runtime.GOMAXPROCS(0)
+	if sameImage(dst, src) {
+		n = 1 // the rows depend on each other
+	}
 	for n > 1 && n<<1 > y {
 		n--
 	}
diff --git a/blend/util.go b/blend/util.go
index 8920d2a..c149b62 100644
--- a/blend/util.go
+++ b/blend/util.go
@@ -201,8 +201,17 @@ func clamp16f(a float64) uint32 {
 	return uint32(a)
 }
 
+// sameMemory reports whether a and b are parts of the same array.
+func sameMemory(a []byte, b []byte) bool {
+	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
+}
+
+func sameImage(dst draw.Image, src image.Image) bool {
+	return image.Image(dst) == src
+}
+
 func processBackward(dst draw.Image, r image.Rectangle, src image.Image, sp image.Point) bool {
-	return image.Image(dst) == src &&
+	return sameImage(dst, src) &&
 		r.Overlaps(r.Add(sp.Sub(r.Min))) &&
 		(sp.Y < r.Min.Y || (sp.Y == r.Min.Y && sp.X < r.Min.X))
 }
-- 
2.43.0


From 1e04008bfd9da232a9880d2b4ecd08d4b2de53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:56 +0000
Subject: [PATCH 35/41] fix: do not overflow when adding colors

---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..8d14d48 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2+db*a3)) / uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2+dg*a3)) / uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2+dr*a3)) / uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8((clip6416((uint64(b)*uint64(a1) + uint64(sb*a2+db*a3)) / uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+1] = uint8((clip6416((uint64(g)*uint64(a1) + uint64(sg*a2+dg*a3)) / uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+0] = uint8((clip6416((uint64(r)*uint64(a1) + uint64(sr*a2+dr*a3)) / uint64(a)) * a / 0xffff) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2+dr*a3)) / uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2+dg*a3)) / uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2+db*a3)) / uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..a97eaca 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8((clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+1] = uint8((clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+0] = uint8((clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8((clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+1] = uint8((clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff) >> 8)
+			dpix[j+0] = uint8((clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) * a / 0xffff)
+			out.G = uint16(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) * a / 0xffff)
+			out.B = uint16(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) * a / 0xffff)
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From b924e53dd139feadf4d67954e3fb7628301bb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 36/41] fix: calculate soft light over dark colors without
 truncation

---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 8d14d48..a2f7257 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int64(dest)<<4-maxValue*12)*int64(dest) + maxValue*maxValue*4) * int64(dest) / (maxValue * maxValue));
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32(((int64(dest)<<4-maxValue*12)*int64(dest) + maxValue*maxValue*4) * int64(dest) / (maxValue * maxValue));
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index a97eaca..f80ad4e 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6378,7 +6378,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int64(dr)<<4-0xff*12)*int64(dr) + 0xff*0xff*4) * int64(dr) / (0xff * 0xff))
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6389,7 +6389,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int64(dg)<<4-0xff*12)*int64(dg) + 0xff*0xff*4) * int64(dg) / (0xff * 0xff))
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6400,7 +6400,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int64(db)<<4-0xff*12)*int64(db) + 0xff*0xff*4) * int64(db) / (0xff * 0xff))
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6450,7 +6450,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6461,7 +6461,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6472,7 +6472,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6536,7 +6536,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6547,7 +6547,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6558,7 +6558,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6622,7 +6622,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6633,7 +6633,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6644,7 +6644,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6718,7 +6718,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6729,7 +6729,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6740,7 +6740,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6808,7 +6808,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr) + 0xffff*0xffff*4) * int64(dr) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6819,7 +6819,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg) + 0xffff*0xffff*4) * int64(dg) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6830,7 +6830,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db) + 0xffff*0xffff*4) * int64(db) / (0xffff * 0xffff))
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0


From 4a91029e64a380133e4e46ff3330ae6dc21546e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 37/41] fix: leave pixels under transparent ones unchanged for
 every image type

---
 blend/genblend.go |  3 ++
 blend/zblends.go  | 81 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/blend/genblend.go b/blend/genblend.go
index a2f7257..8ef4e53 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -671,6 +671,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
diff --git a/blend/zblends.go b/blend/zblends.go
index f80ad4e..0121b36 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -415,6 +415,9 @@ var drawNormalFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -910,6 +913,9 @@ var drawDarkenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1357,6 +1363,9 @@ var drawMultiplyFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1882,6 +1891,9 @@ var drawColorBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2410,6 +2422,9 @@ var drawLinearBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2880,6 +2895,9 @@ var drawDarkerColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3379,6 +3397,9 @@ var drawLightenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3826,6 +3847,9 @@ var drawScreenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4351,6 +4375,9 @@ var drawColorDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4804,6 +4831,9 @@ var drawLinearDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5259,6 +5289,9 @@ var drawLighterColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5698,6 +5731,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6193,6 +6229,9 @@ var drawOverlayFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6775,6 +6814,9 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7312,6 +7354,9 @@ var drawHardLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7822,6 +7867,9 @@ var drawLinearLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -8479,6 +8527,9 @@ var drawVividLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9166,6 +9217,9 @@ var drawPinLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9988,6 +10042,9 @@ var drawHardMixFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10552,6 +10609,9 @@ var drawDifferenceFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10999,6 +11059,9 @@ var drawExclusionFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -11494,6 +11557,9 @@ var drawSubtractFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12031,6 +12097,9 @@ var drawDivideFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12469,6 +12538,9 @@ var drawHueFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12886,6 +12958,9 @@ var drawSaturationFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13298,6 +13373,9 @@ var drawColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, sr
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13709,6 +13787,9 @@ var drawLuminosityFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
-- 
2.43.0


From 00d490e6037d34cb5e9bedaf4103a5aceea62acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 38/41] fix: do not read indexed and bitmap images of another
 depth out of place

---
 psd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psd.go b/psd.go
index acffb78..2b31930 100644
--- a/psd.go
+++ b/psd.go
@@ -121,13 +121,18 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
+		if cfg.Depth != 8 {
+			break
+		}
 		pal := cfg.Palette()
 		if pal == nil {
 			return nil, errors.New("psd: color table is too short")
 		}
 		pk = &pickerPalette{Palette: pal}
 	case ColorModeBitmap:
-		pk = &pickerGray1{}
+		if cfg.Depth == 1 {
+			pk = &pickerGray1{}
+		}
 	default:
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
-- 
2.43.0


From fd7675bf8e850fa74dd60c18af10d40600c5e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 39/41] fix: export the layers of a file that also has layers
 without pixels

---
 psdexporter/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 41a3694..036472f 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -18,7 +18,7 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 			}
 		}
 	}
-	if !l.HasImage() {
+	if !l.HasImage() || l.Picker == nil || l.Picker.Bounds().Empty() {
 		return nil
 	}
 	fmt.Printf("%s -> %s.png\n", layerName, filename)
-- 
2.43.0


From 729779026fd1a2c007ed6cfd34db79716f68b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 40/41] fix: do not let the byte counts of run-length rows wrap
 around where int is 32 bits wide

---
 compress_js.go    | 12 +++++++-----
 compress_other.go |  3 +++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/compress_js.go b/compress_js.go
index 1f3f775..253f12a 100644
--- a/compress_js.go
+++ b/compress_js.go
@@ -27,15 +27,17 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		return read, errors.New("psd: error occurred in decodePackBitsLines")
 	}
 
-	total := uint(0)
+	total := 0
 	for _, ln := range lens {
-		total += ln
+		total += int(ln)
+		if int(ln) < 0 || total < 0 {
+			return read, errBrokenPackBits
+		}
 	}
-	b = make([]byte, total)
-	if l, err = io.ReadFull(r, b); err != nil {
+	if b, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += total
 	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens, width).Bool() {
 		return read, errors.New("psd: error occurred in decodePackBits")
 	}
diff --git a/compress_other.go b/compress_other.go
index 858e425..c9af52d 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -30,6 +30,9 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 			lens[i] = l
 			offsets[i] = total
 			total += l
+			if l < 0 || total < 0 { // int is 32 bits wide
+				return read, errBrokenPackBits
+			}
 			ofs += 4
 		}
 	} else {
-- 
2.43.0


From 253c86763af625de366fcc22533bc7d81c37e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 41/41] fix: do not truncate lengths that an int cannot hold

---
 imageres.go |  4 ++--
 layer.go    | 16 ++++++++--------
 util.go     | 10 ++++++++++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/imageres.go b/imageres.go
index efdf70c..8538487 100644
--- a/imageres.go
+++ b/imageres.go
@@ -23,7 +23,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		return nil, 0, err
 	}
 	read += l
-	imageResourceLen := int(readUint32(b, 0))
+	imageResourceLen := readLen(b, 0, 4)
 	if imageResourceLen == 0 {
 		return map[int]ImageResource{}, read, nil
 	}
@@ -76,7 +76,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		if res.Data, err = readBytes(r, int(readUint32(b, 0))); err != nil {
+		if res.Data, err = readBytes(r, readLen(b, 0, 4)); err != nil {
 			return nil, read, err
 		}
 		l = len(res.Data)
diff --git a/layer.go b/layer.go
index 12f530d..3760752 100644
--- a/layer.go
+++ b/layer.go
@@ -119,7 +119,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 		return nil, 0, err
 	}
 	read += l
-	layerAndMaskInfoLen := int(readUint(b, 0, intSize))
+	layerAndMaskInfoLen := readLen(b, 0, intSize)
 	if Debug != nil {
 		Debug.Println("  layerAndMaskInfoLen:", layerAndMaskInfoLen)
 		reportReaderPosition("  file offset: 0x%08x", r)
@@ -143,7 +143,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 			return nil, read, err
 		}
 		read += l
-		if globalLayerMaskInfoLen := int(readUint32(b, 0)); globalLayerMaskInfoLen > 0 {
+		if globalLayerMaskInfoLen := readLen(b, 0, 4); globalLayerMaskInfoLen > 0 {
 			if Debug != nil {
 				Debug.Println("  globalLayerMaskInfoLen:", globalLayerMaskInfoLen)
 				reportReaderPosition("    file offset: 0x%08x", r)
@@ -288,7 +288,7 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		return nil, 0, err
 	}
 	read += l
-	layerInfoLen := int(readUint(b, 0, intSize))
+	layerInfoLen := readLen(b, 0, intSize)
 	if Debug != nil {
 		Debug.Println("  layerInfoLen:", layerInfoLen)
 	}
@@ -348,7 +348,7 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 			read += l
 			lci.ChannelData[j] = channelData{
 				ChIndex: int(int16(readUint16(b, 0))),
-				DataLen: int(readUint(b, 2, intSize)),
+				DataLen: readLen(b, 2, intSize),
 			}
 		}
 		lcis[i] = lci
@@ -560,7 +560,7 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 		return 0, err
 	}
 	read += l
-	extraDataLen := int(readUint32(b, 0))
+	extraDataLen := readLen(b, 0, 4)
 	if Debug != nil {
 		Debug.Println("  extraDataLen:", extraDataLen)
 	}
@@ -580,7 +580,7 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 		return read, err
 	}
 	read += l
-	if blendingRangesLen := int(readUint32(b, 0)); blendingRangesLen > 0 {
+	if blendingRangesLen := readLen(b, 0, 4); blendingRangesLen > 0 {
 		if Debug != nil {
 			Debug.Println("  layer blending ranges data skipped:", blendingRangesLen)
 		}
@@ -634,7 +634,7 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	}
 	read += l
 
-	maskLen := int(readUint32(b, 0))
+	maskLen := readLen(b, 0, 4)
 	if maskLen == 0 {
 		// no layer mask
 		return read, nil
@@ -886,7 +886,7 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+			if ln := readLen(b, 0, intSize); ln != 0 {
 				if data, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
diff --git a/util.go b/util.go
index 507be00..2b597bd 100644
--- a/util.go
+++ b/util.go
@@ -69,6 +69,16 @@ func readUint(b []byte, offset int, size int) uint64 {
 	panic("psd: unexpected size")
 }
 
+// readLen reads the length of data.
+// A length that int cannot hold becomes one that no data has.
+func readLen(b []byte, offset int, size int) int {
+	const tooLong = int(^uint(0)>>1) - 1<<16
+	if n := readUint(b, offset, size); n < uint64(tooLong) {
+		return int(n)
+	}
+	return tooLong
+}
+
 func readFloat32(b []byte, offset int) float32 {
 	return math.Float32frombits(readUint32(b, offset))
 }
-- 
2.43.0

