From 2e945e6ee6a6eac575304e929b5211537d2b0bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 01/64] fix: a failed peek no longer consumes input

---
 jxlio/bitreader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..796d49d 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -388,11 +388,9 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	oldIndex := br.index
 	oldBitsRead := br.bitsRead
 
-	b, err := br.ReadBits(uint32(bits))
-	if err != nil {
-		return 0, err
-	}
+	b, readErr := br.ReadBits(uint32(bits))
 
+	// peeking must never move the reader, not even when there is not enough data.
 	_, err = br.Seek(curPos, io.SeekStart)
 	if err != nil {
 		return 0, err
@@ -401,6 +399,9 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	br.index = oldIndex
 	br.bitsRead = oldBitsRead
 
+	if readErr != nil {
+		return 0, readErr
+	}
 	return b, nil
 }
 
-- 
2.43.0


From 890e8f5e3c957def1e7ebdd229857cecce659489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 02/64] fix: SkipBits counts whole bytes and reports skipping
 past the end

---
 jxlio/bitreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 796d49d..3a21390 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -410,7 +410,8 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 	numBytes := bits / 8
 	if numBytes > 0 {
 		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
+		n, err := io.ReadFull(br.stream, buffer)
+		br.bitsRead += uint64(n) * 8
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From fb5cbf86605baeeaa8dea73764a7c5dd491ddc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 03/64] fix: UnpackSigned of the largest odd value

---
 jxlio/bitreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 3a21390..b9a037d 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -475,7 +475,7 @@ func UnpackSigned(value uint32) int32 {
 		return int32(value >> 1)
 	}
 
-	return -(int32(value) + 1) >> 1
+	return -int32(value>>1) - 1
 }
 
 func UnpackSigned64(value uint64) int64 {
@@ -483,5 +483,5 @@ func UnpackSigned64(value uint64) int64 {
 		return int64(value >> 1)
 	}
 
-	return -(int64(value) + 1) >> 1
+	return -int64(value>>1) - 1
 }
-- 
2.43.0


From c3b419f067623651c1edb678c859564a07eb61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 04/64] fix: skipping 512 MiB or more wrapped the number of
 bits

---
 jxlio/bitreader.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index b9a037d..1ebe65a 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -429,9 +429,17 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 }
 
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
-	if err != nil {
-		return 0, err
+	// the number of bits does not have to fit in 32 bits.
+	const maxChunk = uint32(1 << 24)
+	for remaining := bytes; remaining > 0; {
+		chunk := remaining
+		if chunk > maxChunk {
+			chunk = maxChunk
+		}
+		if err := br.SkipBits(chunk << 3); err != nil {
+			return 0, err
+		}
+		remaining -= chunk
 	}
 	return int64(bytes), nil
 }
-- 
2.43.0


From 9de81862faef7aa46e99d8878697114d4a3430d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 05/64] fix: an ICC varint above the int32 range is an error,
 not a wrapped value

---
 jxlio/bitreader.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 1ebe65a..d220a0e 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -252,18 +252,21 @@ func (br *BitStreamReader) ReadF16() (float32, error) {
 }
 
 func (br *BitStreamReader) ReadICCVarint() (int32, error) {
-	value := int32(0)
+	value := uint64(0)
 	for shift := 0; shift < 63; shift += 7 {
 		b, err := br.ReadBits(8)
 		if err != nil {
 			return 0, err
 		}
-		value |= int32(b) & 127 << shift
+		value |= (b & 127) << shift
 		if b <= 127 {
 			break
 		}
 	}
-	return value, nil
+	if value > math.MaxInt32 {
+		return 0, errors.New("ICC varint too large")
+	}
+	return int32(value), nil
 }
 
 func (br *BitStreamReader) ReadU32(c0 int, u0 int, c1 int, u1 int, c2 int, u2 int, c3 int, u3 int) (uint32, error) {
-- 
2.43.0


From 096f212ff33437c35c325d25a0577690e28e6351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 06/64] fix: ICC decoding follows the format and reports
 malformed command streams

---
 bundle/image_header.go | 365 ++++++++++++++++++++---------------------
 1 file changed, 179 insertions(+), 186 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..b08b946 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -412,23 +412,56 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 		return nil, err
 	}
 
-	commandStart := int32(commandReader.GetBitsCount() >> 3)
-	dataStart := commandStart + commandSize
+	commandStart := int64(commandReader.GetBitsCount() >> 3)
+	dataStart := commandStart + int64(commandSize)
+	if dataStart > int64(len(h.EncodedICC)) {
+		return nil, errors.New("ICC commands exceed the encoded profile")
+	}
+	dataSize := int64(len(h.EncodedICC)) - dataStart
+	// commands must not extend into the data stream.
+	commandReader = jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC[commandStart:dataStart]))
 	dataReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC[dataStart:]))
 	headerSize := util.Min(128, outputSize)
-	h.DecodedICC = make([]byte, outputSize)
+	decoded := make([]byte, outputSize)
 	resultPos := int32(0)
 
+	// emit appends bytes to the profile, which must not exceed the declared size.
+	emit := func(data ...byte) error {
+		if int64(resultPos)+int64(len(data)) > int64(outputSize) {
+			return errors.New("ICC output exceeds declared size")
+		}
+		copy(decoded[resultPos:], data)
+		resultPos += int32(len(data))
+		return nil
+	}
+
+	// readData reads a number of bytes from the data stream.
+	readData := func(num int32) ([]byte, error) {
+		if int64(num) > dataSize {
+			return nil, errors.New("ICC data stream too short")
+		}
+		data := make([]byte, num)
+		for i := range data {
+			dat, err := dataReader.ReadBits(8)
+			if err != nil {
+				return nil, err
+			}
+			data[i] = byte(dat)
+		}
+		return data, nil
+	}
+
 	for i := int32(0); i < headerSize; i++ {
 		e, err := dataReader.ReadBits(8)
 		if err != nil {
 			return nil, err
 		}
-		p := h.GetICCPrediction(h.DecodedICC, i)
-		h.DecodedICC[resultPos] = byte(int32(e)+p) & 0xFF
+		p := h.GetICCPrediction(decoded, i)
+		decoded[resultPos] = byte(int32(e)+p) & 0xFF
 		resultPos++
 	}
 	if resultPos == outputSize {
+		h.DecodedICC = decoded
 		return h.DecodedICC, nil
 	}
 
@@ -439,13 +472,12 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 	tagCount--
 
 	if tagCount >= 0 {
-		for i := 24; i >= 0; i -= 8 {
-			h.DecodedICC[resultPos] = byte(tagCount>>i) & 0xFF
-			resultPos++
+		if err := emit(byte(tagCount>>24), byte(tagCount>>16), byte(tagCount>>8), byte(tagCount)); err != nil {
+			return nil, err
 		}
 		prevTagStart := 128 + tagCount*12
 		prevTagSize := int32(0)
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
+		for !commandReader.AtEnd() {
 			command, err := commandReader.ReadBits(8)
 			if err != nil {
 				return nil, err
@@ -457,20 +489,15 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			var tag string
 			var tcr []byte
 			if tagCode == 1 {
-				tcr = make([]byte, 4)
-				for i := 0; i < 4; i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					tcr[i] = byte(dat)
+				if tcr, err = readData(4); err != nil {
+					return nil, err
 				}
 				tag = string(tcr)
 			} else if tagCode == 2 {
 				tag = "rTRC"
 			} else if tagCode == 3 {
 				tag = "rXYZ"
-			} else if tagCode >= 4 && tagCode <= 21 {
+			} else if tagCode >= 4 && tagCode <= 20 {
 				tag = iccTags[tagCode-4]
 			} else {
 				return nil, errors.New("illegal ICC tag code")
@@ -513,173 +540,162 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			}
 			for _, wTag := range tags {
 				tcr = []byte(wTag)
-				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = tcr[i] & 0xFF
-					resultPos++
-				}
-				for i := 24; i >= 0; i -= 8 {
-					h.DecodedICC[resultPos] = byte(tagStart>>i) & 0xFF
-					resultPos++
-				}
-				for i := 24; i >= 0; i -= 8 {
-					h.DecodedICC[resultPos] = byte(tagSize>>i) & 0xFF
-					resultPos++
+				if err := emit(tcr[0], tcr[1], tcr[2], tcr[3],
+					byte(tagStart>>24), byte(tagStart>>16), byte(tagStart>>8), byte(tagStart),
+					byte(tagSize>>24), byte(tagSize>>16), byte(tagSize>>8), byte(tagSize)); err != nil {
+					return nil, err
 				}
 				if tagCode == 3 {
 					tagStart += tagSize
 				}
 			}
 		}
+	}
 
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
-			command, err := commandReader.ReadBits(8)
+	for !commandReader.AtEnd() {
+		command, err := commandReader.ReadBits(8)
+		if err != nil {
+			return nil, err
+		}
+		if command == 1 {
+			num, err := commandReader.ReadICCVarint()
 			if err != nil {
 				return nil, err
 			}
-			if command == 1 {
-				num, err := commandReader.ReadICCVarint()
-				if err != nil {
-					return nil, err
-				}
-				for i := 0; i < int(num); i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					h.DecodedICC[resultPos] = byte(dat)
-					resultPos++
-				}
-			} else if command == 2 || command == 3 {
-				num, err := commandReader.ReadICCVarint()
+			b, err := readData(num)
+			if err != nil {
+				return nil, err
+			}
+			if err := emit(b...); err != nil {
+				return nil, err
+			}
+		} else if command == 2 || command == 3 {
+			num, err := commandReader.ReadICCVarint()
+			if err != nil {
+				return nil, err
+			}
+			b, err := readData(num)
+			if err != nil {
+				return nil, err
+			}
+			var width int32
+			if command == 2 {
+				width = 2
+			} else {
+				width = 4
+			}
+			b = shuffle(b, width)
+			if err := emit(b...); err != nil {
+				return nil, err
+			}
+		} else if command == 4 {
+			flags, err := commandReader.ReadBits(8)
+			if err != nil {
+				return nil, err
+			}
+			width := int32((flags & 3) + 1)
+			if width == 3 {
+				return nil, errors.New("illegal width is 3")
+			}
+			order := int32(flags&12) >> 2
+			if order == 3 {
+				return nil, errors.New("illegal order is 3")
+			}
+			var stride int32
+			if flags&0x10 > 0 {
+				dat, err := commandReader.ReadICCVarint()
 				if err != nil {
 					return nil, err
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
+				stride = dat
+			} else {
+				stride = int32(width)
+			}
+			if int64(stride)*4 >= int64(resultPos) {
+				return nil, errors.New("stride too large")
+			}
+			if stride < int32(width) {
+				return nil, errors.New("stride too small")
+			}
+			num, err := commandReader.ReadICCVarint()
+			if err != nil {
+				return nil, err
+			}
+			b, err := readData(num)
+			if err != nil {
+				return nil, err
+			}
+			if width == 2 || width == 4 {
+				b = shuffle(b, int32(width))
+			}
+			for i := int32(0); i < num; i += width {
+				n := order + 1
+				prev := make([]int32, n)
+				for j := int32(0); j < n; j++ {
+					for k := int32(0); k < width; k++ {
+						prev[j] = prev[j] << 8
+						prev[j] = prev[j] | int32(decoded[resultPos-stride*(j+1)+k]&0xFF)
 					}
-					b[p] = byte(dat)
 				}
-				var width int32
-				if command == 2 {
-					width = 2
+				var p int32
+				if order == 0 {
+					p = prev[0]
+				} else if order == 1 {
+					p = 2*prev[0] - prev[1]
 				} else {
-					width = 4
-				}
-				b = shuffle(b, width)
-				copy(h.DecodedICC[resultPos:], b)
-				resultPos += int32(len(b))
-			} else if command == 4 {
-				flags, err := commandReader.ReadBits(8)
-				if err != nil {
-					return nil, err
-				}
-				width := int32((flags & 3) + 1)
-				if width == 3 {
-					return nil, errors.New("illegal width is 3")
-				}
-				order := int32(flags&12) >> 2
-				if order == 3 {
-					return nil, errors.New("illegal order is 3")
+					p = 3*prev[0] - 3*prev[1] + prev[2]
 				}
-				var stride int32
-				if flags&0x10 > 0 {
-					dat, err := commandReader.ReadICCVarint()
-					if err != nil {
-						return nil, err
-					}
-					stride = dat
-				} else {
-					stride = int32(width)
-				}
-				if stride*4 >= resultPos {
-					return nil, errors.New("stride too large")
-				}
-				if stride < int32(width) {
-					return nil, errors.New("stride too small")
-				}
-				num, err := commandReader.ReadICCVarint()
-				if err != nil {
-					return nil, err
-				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					b[p] = byte(dat)
-				}
-				if width == 2 || width == 4 {
-					b = shuffle(b, int32(width))
-				}
-				for i := int32(0); i < num; i += width {
-					n := order + 1
-					prev := make([]int32, n)
-					for j := int32(0); j < n; j++ {
-						for k := int32(0); k < width; k++ {
-							prev[j] = prev[j] << 8
-							prev[j] = prev[j] | int32(h.DecodedICC[resultPos-stride*(j+1)+k]&0xFF)
-						}
-					}
-					var p int32
-					if order == 0 {
-						p = prev[0]
-					} else if order == 1 {
-						p = 2*prev[0] - prev[1]
-					} else {
-						p = 3*prev[0] - 3*prev[1] + prev[2]
-					}
 
-					for j := int32(0); j < width && i+j < num; j++ {
-						h.DecodedICC[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
-						resultPos++
-					}
-				}
-			} else if command == 10 {
-				h.DecodedICC[resultPos] = 'X'
-				resultPos++
-				h.DecodedICC[resultPos] = 'Y'
-				resultPos++
-				h.DecodedICC[resultPos] = 'Z'
-				resultPos++
-				h.DecodedICC[resultPos] = ' '
-				resultPos++
-				resultPos += 4
-				for i := 0; i < 12; i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
+				for j := int32(0); j < width && i+j < num; j++ {
+					if err := emit(b[i+j] + byte(p>>(8*(width-1-j)))); err != nil {
 						return nil, err
 					}
-					h.DecodedICC[resultPos] = byte(dat)
-					resultPos++
 				}
-			} else if command >= 16 && command < 24 {
-				s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
-				trc := []byte(s[command-16])
-				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = trc[i]
-					resultPos++
-				}
-				resultPos += 4
-
-			} else {
-				return nil, errors.New("illegal data command")
 			}
+		} else if command == 10 {
+			b, err := readData(12)
+			if err != nil {
+				return nil, err
+			}
+			if err := emit('X', 'Y', 'Z', ' ', 0, 0, 0, 0); err != nil {
+				return nil, err
+			}
+			if err := emit(b...); err != nil {
+				return nil, err
+			}
+		} else if command >= 16 && command < 24 {
+			s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
+			trc := []byte(s[command-16])
+			if err := emit(trc[0], trc[1], trc[2], trc[3], 0, 0, 0, 0); err != nil {
+				return nil, err
+			}
+		} else {
+			return nil, errors.New("illegal data command")
 		}
 	}
 
+	if resultPos != outputSize {
+		return nil, errors.New("ICC output shorter than declared size")
+	}
+	h.DecodedICC = decoded
 	return h.DecodedICC, nil
 }
 
+// shuffle transposes the bytes of big endian integers of the given width, which were
+// stored one byte plane after the other.
 func shuffle(buffer []byte, width int32) []byte {
 
-	height := int32(util.CeilDiv(uint32(len(buffer)), uint32(width)))
+	height := util.CeilDiv(uint32(len(buffer)), uint32(width))
 	result := make([]byte, len(buffer))
-	for i := int32(0); i < int32(len(buffer)); i++ {
-		result[(i%height)*width+(i/height)] = buffer[i]
+	start := 0
+	pos := 0
+	for i := range result {
+		result[i] = buffer[pos]
+		pos += int(height)
+		if pos >= len(buffer) {
+			start++
+			pos = start
+		}
 	}
 	return result
 }
@@ -933,39 +949,16 @@ func (h *ImageHeader) GetICCPrediction(buffer []byte, i int32) int32 {
 	if i >= 36 && i <= 39 {
 		return int32(ACSP[i-36])
 	}
-	if buffer[40] == 'A' {
-		if i == 41 || i == 42 {
-			return 'P'
-		}
-
-		if i == 43 {
-			return 'L'
-		}
-	} else if buffer[40] == 'M' {
-		if i == 41 {
-			return 'S'
-		}
-		if i == 42 {
-			return 'F'
-		}
-		if i == 43 {
-			return 'T'
-		}
-	} else if buffer[40] == 'S' {
-		if buffer[41] == 'G' {
-			if i == 42 {
-				return 'I'
-			}
-			if i == 43 {
-				return 32
-			}
-		} else if buffer[41] == 'U' {
-			if i == 42 {
-				return 'N'
-			}
-			if i == 43 {
-				return 'W'
-			}
+	if i >= 41 && i <= 43 {
+		switch {
+		case buffer[40] == 'A':
+			return int32("PPL"[i-41])
+		case buffer[40] == 'M':
+			return int32("SFT"[i-41])
+		case buffer[40] == 'S' && buffer[41] == 'G' && i > 41:
+			return int32("GI "[i-41])
+		case buffer[40] == 'S' && buffer[41] == 'U' && i > 41:
+			return int32("UNW"[i-41])
 		}
 	}
 	if i == 70 {
-- 
2.43.0


From c384146e923feac69922e21e4d164acc4af8e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 07/64] fix: image size limits are checked without 32 bit
 overflow

---
 bundle/image_header.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index b08b946..101125e 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -849,7 +849,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
@@ -858,24 +858,31 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 }
 
 func getWidthFromRatio(ratio uint32, height uint32) (uint32, error) {
+	// the product does not have to fit in 32 bits.
+	h := uint64(height)
+	var width uint64
 	switch ratio {
 	case 1:
-		return height, nil
+		width = h
 	case 2:
-		return height * 6 / 5, nil
+		width = h * 6 / 5
 	case 3:
-		return height * 4 / 3, nil
+		width = h * 4 / 3
 	case 4:
-		return height * 3 / 2, nil
+		width = h * 3 / 2
 	case 5:
-		return height * 16 / 9, nil
+		width = h * 16 / 9
 	case 6:
-		return height * 5 / 4, nil
+		width = h * 5 / 4
 	case 7:
-		return height * 2, nil
+		width = h * 2
 	default:
 		return 0, fmt.Errorf("invalid ratio: %d", ratio)
 	}
+	if width > math.MaxUint32 {
+		return 0, fmt.Errorf("width too large: %d", width)
+	}
+	return uint32(width), nil
 }
 
 func (h *ImageHeader) GetUpWeights() ([][][][][]float32, error) {
-- 
2.43.0


From 6fce074ff0632c60f2e6b9d03a51970f477c6ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 08/64] fix: preview dimensions in units of 8 pixels

---
 bundle/image_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 101125e..09ee6a3 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -750,7 +750,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -774,7 +774,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
-- 
2.43.0


From cbc99cd6c2f6e01112d677f3f3fe43d62edcb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 09/64] fix: extension lengths are in bits

---
 bundle/Extensions.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..c459fcf 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -25,26 +25,26 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 		return nil, err
 	}
 
-	var length uint64
+	// lengths are in bits
+	var lengths [64]uint64
 	for i := uint64(0); i < 64; i++ {
 		if (1<<i)&ex.ExtensionsKey != 0 {
-			if length, err = reader.ReadU64(); err != nil {
+			if lengths[i], err = reader.ReadU64(); err != nil {
 				return nil, err
 			}
-			if length > math.MaxUint32 {
+			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
+			ex.Payloads[i] = make([]byte, (lengths[i]+7)/8)
 		}
 	}
 	for i := 0; i < 64; i++ {
-		if len(ex.Payloads[i]) > 0 {
-			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
-					return nil, err
-				} else {
-					ex.Payloads[i][j] = byte(bits)
-				}
+		for j := 0; j < len(ex.Payloads[i]); j++ {
+			numBits := min(lengths[i]-uint64(j)*8, 8)
+			if bits, err := reader.ReadBits(uint32(numBits)); err != nil {
+				return nil, err
+			} else {
+				ex.Payloads[i][j] = byte(bits)
 			}
 		}
 	}
-- 
2.43.0


From c8a55cdc00cc06a85c8fc2130efef7e9f74d207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 10/64] fix: box sizes: 64 bit sizes, boxes to the end of the
 file, malformed sizes

---
 core/read_jxl_boxes.go | 76 ++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 44425da..941b8b9 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
@@ -65,6 +66,9 @@ func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 	if containerBoxHeaders, err = br.readAllBoxes(); err != nil {
 		return nil, err
 	}
+	if len(containerBoxHeaders) == 0 {
+		return nil, errors.New("container without codestream")
+	}
 
 	return containerBoxHeaders, nil
 }
@@ -86,25 +90,30 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 		}
 
 		boxSize := makeTag(boxSizeArray, 0, 4)
-		if boxSize == 1 {
+		headerSize := uint64(8)
+		// a box of size 0 extends to the end of the file.
+		toEnd := boxSize == 0
+		largeSize := boxSize == 1
+		err = br.reader.ReadBytesToBuffer(boxTag, 4)
+		if err != nil {
+			return nil, err
+		}
+		tag := makeTag(boxTag, 0, 4)
+		if largeSize {
+			// the 64 bit size follows the type
+			headerSize = 16
 			err = br.reader.ReadBytesToBuffer(boxSizeArray, 8)
 			if err != nil {
 				return nil, err
 			}
 			boxSize = makeTag(boxSizeArray, 0, 8)
-			if boxSize > 0 {
-				boxSize -= 8
-			}
-		}
-		if boxSize > 0 {
-			boxSize -= 8
 		}
-
-		err = br.reader.ReadBytesToBuffer(boxTag, 4)
-		if err != nil {
-			return nil, err
+		if !toEnd {
+			if boxSize < headerSize || boxSize > math.MaxInt64 {
+				return nil, errors.New("invalid box size")
+			}
+			boxSize -= headerSize
 		}
-		tag := makeTag(boxTag, 0, 4)
 
 		// check boxType...  if we dont know the box type, just skip over the bytes and keep reading.
 		switch tag {
@@ -114,7 +123,12 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			if err != nil {
 				return nil, err
 			}
-			boxSize -= 4
+			if !toEnd {
+				if boxSize < 4 {
+					return nil, errors.New("JXLP box too small")
+				}
+				boxSize -= 4
+			}
 
 			// fileoffset...  directly from ReadSeeker?
 			pos, err := br.reader.Seek(0, io.SeekCurrent)
@@ -129,6 +143,9 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 				Processed: false,
 			}
 			boxHeaders = append(boxHeaders, bh)
+			if toEnd {
+				return boxHeaders, nil
+			}
 			// skip past this box.
 			_, err = br.SkipFully(int64(boxSize))
 			if err != nil {
@@ -163,6 +180,9 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			}
 			boxHeaders = append(boxHeaders, bh)
 
+			if toEnd {
+				return boxHeaders, nil
+			}
 			// skip past this box.
 			_, err = br.SkipFully(int64(boxSize))
 			if err != nil {
@@ -170,17 +190,16 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			}
 
 		default:
+			if toEnd {
+				return boxHeaders, nil
+			}
 			// skip over the bytes
-			if boxSize > 0 {
-				s, err := br.SkipFully(int64(boxSize))
-				if err != nil {
-					return nil, err
-				}
-				if s != 0 {
-					return nil, errors.New("truncated extra box")
-				}
-			} else {
-				panic("java read supplyExceptionally... unsure why?")
+			s, err := br.SkipFully(int64(boxSize))
+			if err != nil {
+				return nil, err
+			}
+			if s != 0 {
+				return nil, errors.New("truncated extra box")
 			}
 		}
 	}
@@ -188,8 +207,15 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 // returns number of bytes that were NOT skipped.
 func (br *BoxReader) SkipFully(i int64) (int64, error) {
-	n, err := br.reader.Skip(uint32(i))
-	return i - n, err
+	for i > 0 {
+		// sizes do not have to fit in 32 bits.
+		n, err := br.reader.Skip(uint32(min(i, math.MaxUint32)))
+		if err != nil {
+			return i, err
+		}
+		i -= n
+	}
+	return 0, nil
 }
 
 func makeTag(bytes []uint8, offset int, length int) uint64 {
-- 
2.43.0


From eb3c41671bada818233397ce2a852b3add2c1186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 11/64] fix: sections of a permuted table of contents are
 looked up by the permutation

---
 frame/Frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frame/Frame.go b/frame/Frame.go
index 67ccedf..9f5abe0 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -308,6 +308,10 @@ func (f *Frame) getBitreader(index int) (jxlio.BitReader, error) {
 		i = 0
 	} else {
 		i = uint32(index)
+		// sections are stored in permuted order
+		if index < len(f.tocPermutation) {
+			i = f.tocPermutation[index]
+		}
 	}
 
 	return f.bitreaders[i], nil
-- 
2.43.0


From ff33a8c3c31b0edd4651b1294539f36bd7b47965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 12/64] fix: reading no bytes at the end of the input is not an
 error, short reads are continued and bytes read are counted

---
 jxlio/bitreader.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index d220a0e..0d56337 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,15 +97,9 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	n, err := br.stream.Read(buffer[:numBytes])
-	if err != nil {
-		return err
-	}
-
-	if n != int(numBytes) {
-		return errors.New("unable to read all bytes")
-	}
-	return nil
+	n, err := io.ReadFull(br.stream, buffer[:numBytes])
+	br.bitsRead += uint64(n) * 8
+	return err
 }
 
 // read single bit and will cache the current byte we're working on.
-- 
2.43.0


From 802672a29bc5d74a287919e800cb34245f2a34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 13/64] fix: prefix codes shorter than the longest one can be
 read at the end of the input

---
 entropy/VLCTable.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/entropy/VLCTable.go b/entropy/VLCTable.go
index c422153..a6da470 100644
--- a/entropy/VLCTable.go
+++ b/entropy/VLCTable.go
@@ -81,12 +81,21 @@ func NewVLCTableWithSymbols(bits int32, lengths []int32, symbols []int32) (*VLCT
 }
 func (rcvr *VLCTable) GetVLC(reader jxlio.BitReader) (int32, error) {
 
-	index, err := reader.ShowBits(int(rcvr.bits))
-	if err != nil {
-		return 0, err
+	bits := rcvr.bits
+	index, err := reader.ShowBits(int(bits))
+	// near the end of the input fewer bits may be left than the longest code has
+	for err != nil && bits > 0 {
+		bits--
+		var e error
+		if index, e = reader.ShowBits(int(bits)); e == nil {
+			break
+		}
 	}
 	symbol := rcvr.table[index][0]
 	length := rcvr.table[index][1]
+	if length > bits {
+		return 0, err
+	}
 	err = reader.SkipBits(uint32(length))
 	if err != nil {
 		return 0, err
-- 
2.43.0


From c0ae71f77562cd708e8fd5c62e3e220149cd892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 14/64] fix: malformed complex prefix codes are errors instead
 of index out of range panics

---
 entropy/PrefixSymbolDistribution.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/entropy/PrefixSymbolDistribution.go b/entropy/PrefixSymbolDistribution.go
index a65717e..f9b317d 100644
--- a/entropy/PrefixSymbolDistribution.go
+++ b/entropy/PrefixSymbolDistribution.go
@@ -100,7 +100,7 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 	var prevZeroCount int32
 	level2Lengths := make([]int32, rcvr.alphabetSize)
 	level2Symbols := make([]int32, rcvr.alphabetSize)
-	level2Counts := make([]int32, rcvr.alphabetSize+1)
+	level2Counts := make([]int32, max(rcvr.alphabetSize+1, 16))
 	prev := int32(8)
 	for i := int32(0); i < int32(rcvr.alphabetSize); i++ {
 		code, err := level1Table.GetVLC(reader)
@@ -116,6 +116,9 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 			if prevRepeatCount > 0 {
 				extra = 4*(prevRepeatCount-2) - prevRepeatCount + extra
 			}
+			if extra > rcvr.alphabetSize-i {
+				return errors.New("Invalid Level 2 Prefix Codes")
+			}
 			for j := int32(0); j < extra; j++ {
 				level2Lengths[i+j] = prev
 			}
@@ -133,6 +136,9 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 			if prevZeroCount > 0 {
 				extra = 8*(prevZeroCount-2) - prevZeroCount + extra
 			}
+			if extra > rcvr.alphabetSize-i {
+				return errors.New("Invalid Level 2 Prefix Codes")
+			}
 			i += extra - 1
 			prevRepeatCount = 0
 			prevZeroCount += extra
@@ -157,7 +163,7 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 	if totalCode != 32768 && level2Counts[0] < rcvr.alphabetSize-1 {
 		return errors.New("Invalid Level 2 Prefix Codes")
 	}
-	for i := int32(1); i <= rcvr.alphabetSize; i++ {
+	for i := 1; i < len(level2Counts); i++ {
 		level2Counts[i] += level2Counts[i-1]
 	}
 	level2LengthsScrambled := make([]int32, rcvr.alphabetSize)
-- 
2.43.0


From d38dfb0daa2e3494f6c27042206abb166e87b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 15/64] fix: simple prefix codes reject repeated and out of
 range symbols

---
 entropy/PrefixSymbolDistribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/PrefixSymbolDistribution.go b/entropy/PrefixSymbolDistribution.go
index f9b317d..b02395d 100644
--- a/entropy/PrefixSymbolDistribution.go
+++ b/entropy/PrefixSymbolDistribution.go
@@ -197,6 +197,9 @@ func (rcvr *PrefixSymbolDistribution) populateSimplePrefix(reader jxlio.BitReade
 			return err
 		}
 		symbols[i] = int32(s)
+		if symbols[i] >= rcvr.alphabetSize || slices.Contains(symbols[:i], symbols[i]) {
+			return errors.New("Invalid simple prefix code")
+		}
 	}
 	if nsym == 4 {
 		if treeSelect, err = reader.ReadBool(); err != nil {
-- 
2.43.0


From 31245b3a67efb35c42b7e7673745d7e613b2f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 16/64] fix: ANS distributions: frequencies must sum to 4096,
 single symbol and alphabet checks

---
 entropy/ANSSymbolDistribution.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 805e645..d256e3b 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -68,6 +68,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				return nil, err
 			}
 			asd.alphabetSize = 1 + int32(x)
+			if asd.alphabetSize > (1 << asd.logAlphabetSize) {
+				return nil, fmt.Errorf("Illegal Alphabet size : %d", asd.alphabetSize)
+			}
 			asd.frequencies = make([]int32, asd.alphabetSize)
 			asd.frequencies[x] = 1 << 12
 			uniqPos = int32(x)
@@ -196,6 +199,12 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				totalCount += asd.frequencies[i]
 			}
 			asd.frequencies[omitPos] = (1 << 12) - totalCount
+			if asd.frequencies[omitPos] <= 0 {
+				return nil, errors.New("Invalid ANS frequencies")
+			}
+			if totalCount == 0 {
+				uniqPos = omitPos
+			}
 		}
 	}
 	asd.generateAliasMapping(uniqPos)
-- 
2.43.0


From d6e0a7911271dfefffb174b15c89f94e8c868864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 17/64] fix: cluster maps with out of range or unused clusters
 are errors

---
 entropy/EntropyStream.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 3917298..0a190d0 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -120,10 +120,13 @@ func ReadClusterMap(reader jxlio.BitReader, clusterMap []int, maxClusters int) (
 
 			for i := 0; i < numDists; i++ {
 				c, err := nested.ReadSymbol(reader, 0)
-				clusterMap[i] = int(c)
 				if err != nil {
 					return 0, err
 				}
+				if c < 0 || c > 255 {
+					return 0, errors.New("Invalid cluster index")
+				}
+				clusterMap[i] = int(c)
 			}
 
 			if !nested.ValidateFinalState() {
@@ -158,6 +161,15 @@ func ReadClusterMap(reader jxlio.BitReader, clusterMap []int, maxClusters int) (
 	if numClusters > maxClusters {
 		return 0, errors.New("Too many clusters")
 	}
+	used := make([]bool, numClusters)
+	for _, c := range clusterMap {
+		used[c] = true
+	}
+	for _, u := range used {
+		if !u {
+			return 0, errors.New("Cluster map leaves a cluster unused")
+		}
+	}
 	return numClusters, nil
 }
 
-- 
2.43.0


From 136c35a334fd645924633d80deff2931abcfdfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 18/64] fix: LZ77 distances below 1 and above the int32 range,
 prefix alphabets above 2^15

---
 entropy/EntropyStream.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 0a190d0..ecd1df9 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -278,6 +278,9 @@ func (es *EntropyStream) LoadWithReader(reader jxlio.BitReader, numDists int, di
 				} else {
 					alphabetSizes[i] = 1 + int32(1<<n+alphaSize)
 				}
+				if alphabetSizes[i] > 1<<15 {
+					return errors.New("Prefix code alphabet is too large")
+				}
 			} else {
 				alphabetSizes[i] = 1
 			}
@@ -355,24 +358,28 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if err != nil {
 			return 0, err
 		}
-		distance, err := es.ReadHybridInteger(reader, lz77dist.GetConfig(), token)
+		d, err := es.ReadHybridInteger(reader, lz77dist.GetConfig(), token)
 		if err != nil {
 			return 0, err
 		}
+		// distances are unsigned
+		distance := int64(uint32(d))
 		if distanceMultiplier == 0 {
 			distance++
 		} else if distance < 120 {
-			distance = SPECIAL_DISTANCES[distance][0] + distanceMultiplier*SPECIAL_DISTANCES[distance][1]
+			distance = int64(SPECIAL_DISTANCES[distance][0]) + int64(distanceMultiplier)*int64(SPECIAL_DISTANCES[distance][1])
+			// narrow channels
+			distance = max(distance, 1)
 		} else {
 			distance -= 119
 		}
 		if distance > (1 << 20) {
 			distance = 1 << 20
 		}
-		if distance > es.numDecoded77 {
-			distance = es.numDecoded77
+		if distance > int64(es.numDecoded77) {
+			distance = int64(es.numDecoded77)
 		}
-		es.copyPos77 = es.numDecoded77 - distance
+		es.copyPos77 = es.numDecoded77 - int32(distance)
 		return es.ReadSymbolWithMultiplier(reader, context, distanceMultiplier)
 
 	}
-- 
2.43.0


From eaa395a916300727fdf9a2f15d4721a0c9fc5a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 19/64] fix: inserting into a slice overwrote the element at
 the index

---
 util/misc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/misc.go b/util/misc.go
index 475cbaa..90c6e5b 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -94,9 +94,10 @@ func FillFloat32(a []float32, fromIndex uint32, toIndex uint32, val float32) {
 }
 
 func Add[T any](slice []T, index int, elem T) []T {
-	newSlice := append(slice[:index], elem)
-	newSlice = append(newSlice, slice[index:]...)
-	return newSlice
+	newSlice := make([]T, 0, len(slice)+1)
+	newSlice = append(newSlice, slice[:index]...)
+	newSlice = append(newSlice, elem)
+	return append(newSlice, slice[index:]...)
 }
 
 type Dimension struct {
-- 
2.43.0


From be7d00b5f3f64652394ae5d9a5505b52a7b57106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 20/64] fix: distributions of the squeeze parameters

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5c063af 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0


From a8368fa98ba0ed9d9e2dd452c8bfd91f8a67383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 21/64] fix: default squeeze steps are those of the first
 channel that is not a meta channel

---
 frame/ModularStream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5c063af..360f9d3 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -265,7 +265,10 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			if len(ms.transforms[i].sp) == 0 {
 				first := ms.nbMetaChannels
 				count := len(ms.channels) - first
-				size := ms.channels[0].size
+				if count <= 0 {
+					return nil, errors.New("no channels to squeeze")
+				}
+				size := ms.channels[first].size
 				if count > 2 && size.Width == ms.channels[first+1].size.Width && size.Height == ms.channels[first+1].size.Height {
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: true, inPlace: false, beginC: first + 1, numC: 2})
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: false, inPlace: false, beginC: first + 1, numC: 2})
-- 
2.43.0


From 6443c6a654e38aef20da48a85268360947b1196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 22/64] fix: implicit palette colours of images of less than 3
 bits

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 360f9d3..aee43ad 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -540,7 +540,7 @@ func (ms *ModularStream) applyTransforms() error {
 						} else if index >= int32(ms.transforms[i].nbColours) {
 							index -= int32(ms.transforms[i].nbColours)
 							if index < 64 {
-								value = ((index>>(2*c)%4)*((1<<bitDepth)-1)/4 + (1 << util.Max(0, bitDepth-3)))
+								value = ((index>>(2*c)%4)*((1<<bitDepth)-1)/4 + (1 << (util.Max(3, bitDepth) - 3)))
 							} else {
 								index -= 64
 								for k := 0; k < c; k++ {
-- 
2.43.0


From 20f0caa9f3c15b2a66a882bff12e19eb37a78237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 23/64] fix: malformed decision trees are errors

---
 frame/MATree.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/frame/MATree.go b/frame/MATree.go
index be99ee5..ac14e45 100644
--- a/frame/MATree.go
+++ b/frame/MATree.go
@@ -2,6 +2,7 @@ package frame
 
 import (
 	"errors"
+	"runtime"
 
 	"github.com/kpfaulkner/jxl-go/entropy"
 	"github.com/kpfaulkner/jxl-go/jxlio"
@@ -45,6 +46,9 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 		if err != nil {
 			return nil, err
 		}
+		if property < 0 || property > 256 {
+			return nil, errors.New("invalid property value")
+		}
 		property--
 
 		var node *MATreeNode
@@ -55,7 +59,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 		}
 
 		if property >= 0 {
-			value := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 0)))
+			symbol, err := tryReadSymbol(stream, reader, 0)
+			if err != nil {
+				return nil, err
+			}
+			value := jxlio.UnpackSigned(uint32(symbol))
 			leftChild := len(nodes) + nodesRemaining + 1
 			node.property = property
 			node.predictor = -1
@@ -72,24 +80,28 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 			if predictor, err = stream.ReadSymbol(reader, 2); err != nil {
 				return nil, err
 			}
-			if predictor > 13 {
+			if predictor < 0 || predictor > 13 {
 				return nil, errors.New("invalid predictor value")
 			}
 
-			offset := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 3)))
+			symbol, err := tryReadSymbol(stream, reader, 3)
+			if err != nil {
+				return nil, err
+			}
+			offset := jxlio.UnpackSigned(uint32(symbol))
 
 			var mulLog int32
 			if mulLog, err = stream.ReadSymbol(reader, 4); err != nil {
 				return nil, err
 			}
-			if mulLog > 30 {
+			if mulLog < 0 || mulLog > 30 {
 				return nil, errors.New("mulLog too large")
 			}
 			var mulBits int32
 			if mulBits, err = stream.ReadSymbol(reader, 5); err != nil {
 				return nil, err
 			}
-			if mulBits > (1<<(31-mulLog))-2 {
+			if mulBits < 0 || mulBits > (1<<(31-mulLog))-2 {
 				return nil, errors.New("mulBits too large")
 			}
 			multiplier := (mulBits + 1) << uint(mulLog)
@@ -122,6 +134,20 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 	return mt, nil
 }
 
+// tryReadSymbol returns the error that TryReadSymbol panics with.
+func tryReadSymbol(stream entropy.EntropyStreamer, reader jxlio.BitReader, context int) (symbol int32, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			e, ok := r.(error)
+			if _, isRuntime := r.(runtime.Error); !ok || isRuntime {
+				panic(r)
+			}
+			err = e
+		}
+	}()
+	return stream.TryReadSymbol(reader, context), nil
+}
+
 func (t *MATreeNode) isLeafNode() bool {
 	return t.property < 0
 }
-- 
2.43.0


From 753a9d6d1a8be7982f5d1e980ff03e6009ca3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 24/64] fix: transforms of channels that do not exist or differ
 are errors instead of panics

---
 frame/ModularStream.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index aee43ad..f587f31 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -101,6 +101,9 @@ func NewTransformInfo(reader jxlio.BitReader) (TransformInfo, error) {
 		if rctType, err := reader.ReadU32(6, 0, 0, 2, 2, 4, 10, 6); err != nil {
 			return ti, err
 		} else {
+			if rctType > 41 {
+				return ti, errors.New("illegal RCT type")
+			}
 			ti.rctType = int(rctType)
 		}
 	} else {
@@ -126,6 +129,9 @@ func NewTransformInfo(reader jxlio.BitReader) (TransformInfo, error) {
 		if dPred, err := reader.ReadBits(4); err != nil {
 			return ti, err
 		} else {
+			if dPred > 13 {
+				return ti, errors.New("illegal palette predictor")
+			}
 			ti.dPred = int(dPred)
 		}
 	} else {
@@ -241,6 +247,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 
 		if ms.transforms[i].tr == PALETTE {
 
+			if err = ms.checkEqualChannels(ms.transforms[i].beginC, ms.transforms[i].numC); err != nil {
+				return nil, err
+			}
 			if ms.transforms[i].beginC < ms.nbMetaChannels {
 				ms.nbMetaChannels += 2 - ms.transforms[i].numC
 			} else {
@@ -298,6 +307,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			for j := 0; j < len(squeezeList); j++ {
 				begin := spa[j].beginC
 				end := begin + spa[j].numC - 1
+				if end >= len(ms.channels) {
+					return nil, errors.New("squeeze of channels that do not exist")
+				}
 				var offset int
 				if spa[j].inPlace {
 					offset = end + 1
@@ -336,7 +348,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 				}
 			}
 		} else if ms.transforms[i].tr == RCT {
-			continue
+			if err = ms.checkEqualChannels(ms.transforms[i].beginC, 3); err != nil {
+				return nil, err
+			}
 		} else {
 			return nil, fmt.Errorf("illegal transform type %d", ms.transforms[i].tr)
 		}
@@ -365,6 +379,24 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 	return ms, nil
 }
 
+// checkEqualChannels makes sure that a transform's channels exist, have the same dimensions
+// and are either all meta channels or none of them is.
+func (ms *ModularStream) checkEqualChannels(begin int, num int) error {
+	if begin+num > len(ms.channels) {
+		return errors.New("transform of channels that do not exist")
+	}
+	if begin < ms.nbMetaChannels && begin+num > ms.nbMetaChannels {
+		return errors.New("transform mixes meta channels and other channels")
+	}
+	for i := begin + 1; i < begin+num; i++ {
+		first, c := ms.channels[begin], ms.channels[i]
+		if c.size != first.size || c.hshift != first.hshift || c.vshift != first.vshift {
+			return errors.New("transform of channels of different dimensions")
+		}
+	}
+	return nil
+}
+
 func (ms *ModularStream) getChannels() []*ModularChannel {
 	return ms.channels
 }
-- 
2.43.0


From 8548479a762062bd2266756b977b2c8049e51640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 25/64] fix: delta palettes with the weighted predictor

---
 frame/ModularChannel.go | 26 ++++++++++++++++++--------
 frame/ModularStream.go  | 13 +++++++++++++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index f36a97b..8350d48 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -200,6 +200,22 @@ func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (in
 	return maxError, nil
 }
 
+// initWP starts the weighted predictor with an empty error history.
+func (mc *ModularChannel) initWP() {
+	mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
+	mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
+	mc.subpred = make([]int32, 4)
+	mc.weight = make([]int32, 4)
+}
+
+// updateWPErrors records how far the weighted predictor was from the sample.
+func (mc *ModularChannel) updateWPErrors(x int32, y int32, trueValue int32) {
+	for e := 0; e < 4; e++ {
+		mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
+	}
+	mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+}
+
 // Could try and use IfThenElse but that gets messy quickly. Prefer some simple 'if' statements.
 func (mc *ModularChannel) west(x int32, y int32) int32 {
 	if x > 0 {
@@ -426,10 +442,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 	tree = tree.compactify(channelIndex, streamIndex)
 	useWP := mc.forceWP || tree.useWeightedPredictor()
 	if useWP {
-		mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
-		mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
-		mc.subpred = make([]int32, 4)
-		mc.weight = make([]int32, 4)
+		mc.initWP()
 	} else {
 		wpParams = nil
 	}
@@ -468,10 +481,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 			trueValue := diff + p
 			mc.buffer[y][x] = trueValue
 			if useWP {
-				for e := 0; e < 4; e++ {
-					mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
-				}
-				mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+				mc.updateWPErrors(x, y, trueValue)
 			}
 		}
 	}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index f587f31..cfd1a1e 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -562,8 +562,18 @@ func (ms *ModularStream) applyTransforms() error {
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
+				// the weighted predictor runs over the samples, not over the palette indices
+				useWP := ms.transforms[i].nbDeltas > 0 && ms.transforms[i].dPred == 6
+				if useWP {
+					ch.initWP()
+				}
 				for y := uint32(0); y < firstChannel.size.Height; y++ {
 					for x := uint32(0); x < firstChannel.size.Width; x++ {
+						if useWP {
+							if _, err := ch.prePredictWP(ms.wpParams, int32(x), int32(y)); err != nil {
+								return err
+							}
+						}
 						index := ch.buffer[y][x]
 						isDelta := index < int32(ms.transforms[i].nbDeltas)
 						var value int32
@@ -601,6 +611,9 @@ func (ms *ModularStream) applyTransforms() error {
 							}
 							ch.buffer[y][x] += pred
 						}
+						if useWP {
+							ch.updateWPErrors(int32(x), int32(y), ch.buffer[y][x])
+						}
 					}
 				}
 			}
-- 
2.43.0


From 22343237cf3d780f9992f241f8237f6cc38cc5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 26/64] fix: distances in a partial modular stream are relative
 to the channels in it

---
 frame/ModularStream.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index cfd1a1e..30669dc 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -371,7 +371,7 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 	// get max Width from all channels.
 	maxWidth := uint32(0)
 	for _, c := range ms.channels {
-		if c.size.Width > maxWidth {
+		if c.size.Height > 0 && c.size.Width > maxWidth {
 			maxWidth = c.size.Width
 		}
 	}
@@ -404,13 +404,26 @@ func (ms *ModularStream) getChannels() []*ModularChannel {
 func (ms *ModularStream) decodeChannels(reader jxlio.BitReader, partial bool) error {
 
 	groupDim := uint32(ms.frame.getFrameHeader().groupDim)
-	for i := 0; i < len(ms.channels); i++ {
-		channel := ms.channels[i]
-		if partial && i >= ms.nbMetaChannels &&
-			(channel.size.Width > groupDim || channel.size.Height > groupDim) {
-			break
+	// number of channels that are decoded here.
+	count := len(ms.channels)
+	distMultiplier := ms.distMultiplier
+	if partial {
+		// distances are relative to the widest of these channels.
+		distMultiplier = 0
+		for i, channel := range ms.channels {
+			if channel.size.Width == 0 || channel.size.Height == 0 {
+				continue
+			}
+			if i >= ms.nbMetaChannels && (channel.size.Width > groupDim || channel.size.Height > groupDim) {
+				count = i
+				break
+			}
+			distMultiplier = util.Max(distMultiplier, int32(channel.size.Width))
 		}
-		err := channel.decode(reader, ms.stream, ms.wpParams, ms.tree, ms, int32(i), int32(ms.streamIndex), ms.distMultiplier)
+	}
+	for i := 0; i < count; i++ {
+		channel := ms.channels[i]
+		err := channel.decode(reader, ms.stream, ms.wpParams, ms.tree, ms, int32(i), int32(ms.streamIndex), distMultiplier)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 7845c69139502a5e9280532c655f6d7e4d45a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 27/64] fix: the sample buffers of a VarDCT frame were cleared
 and handed to the pool

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 9f5abe0..81d4f86 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -790,8 +790,8 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if f.Header.Encoding == VARDCT {
 
 		// get floating point version of frame buffer
-		buffers := util.MakeMatrix3DPooled[float32](3, 0, 0)
-		defer util.ReturnMatrix3DToPool(buffers)
+		// these are the buffers of the frame itself: they must not go to the pool.
+		buffers := make([][][]float32, 3)
 		for c := 0; c < 3; c++ {
 			if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
-- 
2.43.0


From 3bc6be40304d2c52a42bd9a7e83a754bb096b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 28/64] fix: float samples outside the int32 range and failed
 conversions to integers

---
 image/imagebuffer.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/image/imagebuffer.go b/image/imagebuffer.go
index 7c27fe1..f8867b9 100644
--- a/image/imagebuffer.go
+++ b/image/imagebuffer.go
@@ -192,9 +192,7 @@ func (ib *ImageBuffer) CastToIntIfMax(maxValue int32) error {
 		return nil
 	}
 
-	err := ib.castToIntBuffer(maxValue)
-	ib.BufferType = TYPE_INT
-	return err
+	return ib.castToIntBuffer(maxValue)
 }
 
 func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
@@ -212,14 +210,13 @@ func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
 
 	for y := 0; y < int(ib.Height); y++ {
 		for x := 0; x < int(ib.Width); x++ {
-			v := int32(oldBuffer[y][x]*scaleFactor + 0.5)
+			// clamp before converting: values outside the int32 range do not convert.
+			v := oldBuffer[y][x]*scaleFactor + 0.5
 			var vv int32
-			if v < 0 {
-				vv = 0
-			} else if v > maxValue {
+			if v >= scaleFactor {
 				vv = maxValue
-			} else {
-				vv = v
+			} else if v > 0 {
+				vv = int32(v)
 			}
 			newBuffer[y][x] = vv
 		}
-- 
2.43.0


From aad9a9b91bbdc4a28d9c9c702e3da7478fe3dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 29/64] fix: CeilDiv of 0 wrapped around

---
 util/MathsHelper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/MathsHelper.go b/util/MathsHelper.go
index f7ac6a8..5eec874 100644
--- a/util/MathsHelper.go
+++ b/util/MathsHelper.go
@@ -299,6 +299,9 @@ func InvertMatrix3x3(matrix [][]float32) [][]float32 {
 }
 
 func CeilDiv(numerator uint32, denominator uint32) uint32 {
+	if numerator == 0 {
+		return 0
+	}
 	return ((numerator - 1) / denominator) + 1
 }
 
-- 
2.43.0


From ffcc896140eb0a630c88874b687787048c04a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 30/64] fix: matrices with planes of different sizes were
 handed out by the pool as if they were regular

---
 util/buffer_pool.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/util/buffer_pool.go b/util/buffer_pool.go
index 7a04344..679091d 100644
--- a/util/buffer_pool.go
+++ b/util/buffer_pool.go
@@ -79,6 +79,18 @@ func (p *Matrix3DPool[T]) Put(matrix [][][]T) {
 	}
 
 	width := len(matrix[0][0])
+
+	// planes of different sizes cannot be handed out again under one key.
+	for i := range matrix {
+		if len(matrix[i]) != height {
+			return
+		}
+		for j := range matrix[i] {
+			if len(matrix[i][j]) != width {
+				return
+			}
+		}
+	}
 	key := poolKey3D{d: depth, h: height, w: width}
 
 	p.mu.RLock()
@@ -160,6 +172,11 @@ func (p *Matrix2DPool[T]) Put(matrix [][]T) {
 
 	height := len(matrix)
 	width := len(matrix[0])
+	for i := range matrix {
+		if len(matrix[i]) != width {
+			return
+		}
+	}
 	key := poolKey2D{h: height, w: width}
 
 	p.mu.RLock()
-- 
2.43.0


From fab93e05f5188f1ebb72872b59960d72ab1fde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 31/64] fix: the flipped AFV transforms were never recognised

---
 frame/PassGroup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 29a3b34..41c46f5 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -318,10 +318,10 @@ func (g *PassGroup) invertAFV(coeffs [][]float32, buffer [][]float32, tt *Transf
 
 	var flipX int32
 	var flipY int32
-	if tt == AFV2 || tt == AFV3 {
+	if tt.ttType == AFV2.ttType || tt.ttType == AFV3.ttType {
 		flipY = 1
 	}
-	if tt == AFV1 || tt == AFV3 {
+	if tt.ttType == AFV1.ttType || tt.ttType == AFV3.ttType {
 		flipX = 1
 	}
 	totalSample := float32(0)
-- 
2.43.0


From 3aba8df00b0f0501ce534c3afbd0aff5d3885e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 32/64] fix: malformed varblocks and coefficient counts ended
 in index out of range panics

---
 frame/HFCoefficients.go | 9 +++++++++
 frame/hfmetadata.go     | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 14f4207..b8c5255 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -49,6 +49,9 @@ func NewHFCoefficientsWithReader(reader jxlio.BitReader, frame Framer, pass uint
 	if err != nil {
 		return nil, err
 	}
+	if hfPreset >= uint64(frame.getHFGlobal().numHFPresets) {
+		return nil, errors.New("Invalid HF preset")
+	}
 	hf.hfPreset = int32(hfPreset)
 	hf.groupID = group
 	hf.frame = frame
@@ -92,6 +95,9 @@ func NewHFCoefficientsWithReader(reader jxlio.BitReader, frame Framer, pass uint
 		hfMult := hf.lfg.hfMetadata.hfMultiplier[posInLfg.Y][posInLfg.X]
 		lfIndex := hf.lfg.lfCoeff.lfIndex[posInLfg.Y][posInLfg.X]
 		numBlocks := tt.dctSelectHeight * tt.dctSelectWidth
+		if numBlocks > 1 && (slices.Max(header.jpegUpsamplingX[:]) > 0 || slices.Max(header.jpegUpsamplingY[:]) > 0) {
+			return nil, errors.New("Varblocks larger than 8x8 with subsampled channels")
+		}
 		for _, c := range cMap {
 			sGroupY := groupY >> header.jpegUpsamplingY[c]
 			sGroupX := groupX >> header.jpegUpsamplingX[c]
@@ -108,6 +114,9 @@ func NewHFCoefficientsWithReader(reader jxlio.BitReader, frame Framer, pass uint
 			if err != nil {
 				return nil, err
 			}
+			if nonZero < 0 || nonZero > 63*numBlocks {
+				return nil, errors.New("Invalid number of non-zero coefficients")
+			}
 			nz := nonZeros[c]
 			for iy := int32(0); iy < tt.dctSelectHeight; iy++ {
 				for ix := int32(0); ix < tt.dctSelectWidth; ix++ {
diff --git a/frame/hfmetadata.go b/frame/hfmetadata.go
index 2250543..14e3e6f 100644
--- a/frame/hfmetadata.go
+++ b/frame/hfmetadata.go
@@ -98,6 +98,11 @@ outerY:
 				X: x,
 				Y: y,
 			}
+			// a block has to be inside the LF group and must not cross the groups of 32x32 blocks.
+			if y+block.dctSelectHeight > int32(len(m.dctSelect)) ||
+				x&31+block.dctSelectWidth > 32 || y&31+block.dctSelectHeight > 32 {
+				return util.Point{}, errors.New("No space for block")
+			}
 			//m.hfMultiplier[y][x] = mul
 			for iy := int32(0); iy < block.dctSelectHeight; iy++ {
 				for f := x; f < x+block.dctSelectWidth; f++ {
-- 
2.43.0


From 7c74a33e81eef38d7b20d38947f3ccf0454c2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 33/64] fix: 4x4 DCT varblocks ended in a panic

---
 frame/PassGroup.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 41c46f5..9a74ad9 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -264,7 +264,25 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				panic("not implemented")
+				g.auxDCT2(coeffs[c], scratchBlock[1], ppg, util.ZERO, 2)
+				for y := int32(0); y < 2; y++ {
+					for x := int32(0); x < 2; x++ {
+						for iy := int32(0); iy < 4; iy++ {
+							for ix := int32(0); ix < 4; ix++ {
+								scratchBlock[0][iy][ix] = coeffs[c][ppg.Y+y+iy*2][ppg.X+x+ix*2]
+							}
+						}
+						scratchBlock[0][0][0] = scratchBlock[1][y][x]
+						ppf2 := util.Point{
+							X: ppf.X + x<<2,
+							Y: ppf.Y + y<<2,
+						}
+						if err := util.InverseDCT2D(scratchBlock[0], frameBuffer[c], util.ZERO, ppf2,
+							util.Dimension{Height: 4, Width: 4}, scratchBlock[2], scratchBlock[3], true); err != nil {
+							return err
+						}
+					}
+				}
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From db9c0d2c9f2d1a23e17b83e9ee47ea708b50a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 34/64] fix: VarDCT frames with several passes ended in a panic

---
 frame/PassGroup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 9a74ad9..99ae644 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -109,7 +109,7 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 
 	header := g.frame.Header
 	if prev != nil {
-		panic("not implemented")
+		return errors.New("VarDCT frames with several passes not implemented")
 	}
 
 	// differs from jxlatte
-- 
2.43.0


From ffc12a22ce180c35b5cad62597c14bf02591a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:24 +0000
Subject: [PATCH 35/64] fix: errors of pass groups were ignored

---
 frame/Frame.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 81d4f86..689e65f 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -682,13 +682,18 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) {
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error {
+	var firstErr error
 	for inp := range inputChan {
 		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups); err != nil {
 			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
+			if firstErr == nil {
+				firstErr = err
+			}
 		}
 
 	}
+	return firstErr
 }
 
 func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
@@ -755,15 +760,22 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if maxGoroutines < 1 {
 		maxGoroutines = 1
 	}
+	workerErrs := make(chan error, maxGoroutines)
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups)
-			wg.Done()
+			defer wg.Done()
+			if err := f.startWorker(inputChan, passGroups); err != nil {
+				workerErrs <- err
+			}
 		}()
 	}
 
 	wg.Wait()
+	close(workerErrs)
+	if err := <-workerErrs; err != nil {
+		return err
+	}
 
 	for pass := 0; pass < numPasses; pass++ {
 		j := 0
-- 
2.43.0


From 95c48213c2a67de240b51f0443cc5bfaeb2bddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 36/64] fix: frames with a crop above or beyond the image were
 blended at the wrong place

---
 core/jxl_codestream_decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index bef88fd..8f1c1ae 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -736,7 +736,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	imageSize := jxl.imageHeader.GetSize()
 	header := imgFrame.Header
 	frameStartY := int32(0)
-	if header.Bounds.Origin.X >= 0 {
+	if header.Bounds.Origin.Y >= 0 {
 		frameStartY = header.Bounds.Origin.Y
 	}
 	frameStartX := int32(0)
@@ -748,6 +748,10 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	lowerCorner := header.Bounds.ComputeLowerCorner()
 	frameHeight := util.Min(lowerCorner.Y, int32(imageSize.Height)) - frameStartY
 	frameWidth := util.Min(lowerCorner.X, int32(imageSize.Width)) - frameStartX
+	if frameHeight <= 0 || frameWidth <= 0 {
+		// nothing of the frame is inside the image.
+		return nil
+	}
 
 	frameColours := imgFrame.GetColourChannelCount()
 	imageColours := jxl.imageHeader.GetColourChannelCount()
-- 
2.43.0


From 023bd6dd9bbff9d03baa69d5d6dc2273b52dd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 37/64] fix: blending with a missing reference, fully
 transparent samples and grey XYB frames with alpha

---
 core/jxl_codestream_decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 8f1c1ae..ff6b48c 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -793,6 +793,11 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 			continue
 		}
 
+		// a reference that was never saved is all zeros.
+		if refBuffer == nil {
+			refBuffer = make([]image2.ImageBuffer, len(canvas))
+		}
+
 		// check if just the zero value. Think dimension being 0 should be ok.
 		if refBuffer[c].Width == 0 && refBuffer[c].Height == 0 {
 			refBuf, err := image2.NewImageBuffer(frameBuffer.BufferType, canvas[c].Height, canvas[c].Width)
@@ -803,7 +808,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		}
 		ref := refBuffer[c]
 
-		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers)
+		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers[frameColours-imageColours:])
 		if err2 != nil {
 			return err2
 		}
@@ -931,6 +936,8 @@ func (jxl *JXLCodestreamDecoder) performBlending(canvas []image2.ImageBuffer,
 					cf[cy][cx] = alpha
 				} else if !hasAlpha || premult {
 					cf[cy][cx] = newSample + oldSample*(1-newAlpha)
+				} else if alpha == 0 {
+					cf[cy][cx] = 0
 				} else {
 					cf[cy][cx] = (newSample*newAlpha + oldSample*oldAlpha*(1-newAlpha)) / alpha
 				}
-- 
2.43.0


From a24f8ba2f3a601f16ed996853ce6af91d4731618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 38/64] fix: the size of the samples and the alpha channel in
 PNG files did not follow the header

---
 core/png_writer.go | 77 ++++++++--------------------------------------
 1 file changed, 12 insertions(+), 65 deletions(-)

diff --git a/core/png_writer.go b/core/png_writer.go
index ca2a5d7..a3b88dd 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -293,90 +293,37 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	var bitDepth int32
-	if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
-
-	maxValue := int32(^(^0 << bitDepth))
-
-	if err = jxlImage.Buffer[0].CastToIntIfMax(maxValue); err != nil {
-		return err
-	}
-
-	if len(jxlImage.Buffer) > 1 {
-		if err = jxlImage.Buffer[1].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	if len(jxlImage.Buffer) > 2 {
-		if err = jxlImage.Buffer[2].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
+	// the samples have been converted to integers of bitDepth bits.
+	colours := jxlImage.imageHeader.GetColourChannelCount()
+	channels := make([]int, 0, colours+1)
+	for c := 0; c < colours; c++ {
+		channels = append(channels, c)
 	}
-
 	if jxlImage.HasAlpha() {
-		if err = jxlImage.Buffer[3].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	for c := 0; c < len(jxlImage.Buffer); c++ {
-		if jxlImage.Buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
-			if err := jxlImage.Buffer[c].Clamp(maxValue); err != nil {
-				return err
-			}
-		} else {
-			if err := jxlImage.Buffer[c].CastToIntIfMax(maxValue); err != nil {
-				return err
-			}
-		}
+		channels = append(channels, colours+int(w.alphaIndex))
 	}
 	for y := uint32(0); y < jxlImage.Height; y++ {
 		if _, err := wr.Write([]byte{0}); err != nil {
 			return err
 		}
 		for x := uint32(0); x < jxlImage.Width; x++ {
-
-			// FIXME(kpfaulkner) remove 3 assumption
-			for c := 0; c < jxlImage.imageHeader.GetColourChannelCount(); c++ {
+			for _, c := range channels {
 				dat := jxlImage.Buffer[c].IntBuffer[y][x]
-				if jxlImage.bitDepths[c] == 8 {
-					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
-						return err
-					}
-				} else {
-					byte1 := dat & 0xFF
-					byte2 := dat & 0xFF00
-					byte2 >>= 8
-					if _, err := wr.Write([]byte{byte(byte2), byte(byte1)}); err != nil {
-						return err
-					}
-				}
-
-			}
-			if jxlImage.HasAlpha() {
-				dat := jxlImage.Buffer[3].IntBuffer[y][x]
-				if jxlImage.bitDepths[3] == 8 {
+				if w.bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
 				} else {
-					byte1 := dat & 0xFF
-					byte2 := dat & 0xFF00
-					byte2 >>= 8
-
-					if _, err := wr.Write([]byte{byte(byte2), byte(byte1)}); err != nil {
+					if _, err := wr.Write([]byte{byte(dat >> 8), byte(dat)}); err != nil {
 						return err
 					}
 				}
 			}
 		}
 	}
-	wr.Close()
+	if err := wr.Close(); err != nil {
+		return err
+	}
 
 	if _, err := buf.Write(compressedBytes.Bytes()); err != nil {
 		return err
-- 
2.43.0


From e831b1790b31a2156ffe0a4f55064934800ccb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 39/64] fix: converting an image changed its samples, samples
 of more than 8 bits lost their high bits, premultiplied alpha ended in a
 panic

---
 core/jxl_image.go  | 58 +++++++++++++++++++++++++---------------------
 core/png_writer.go |  9 ++++++-
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index dde581b..7819524 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"fmt"
 	"image"
 
@@ -101,7 +102,7 @@ func NewJXLImageFromJXLImage(img *JXLImage, copyBuffer bool) (*JXLImage, error)
 	jxl.bitDepths = make([]uint32, len(img.bitDepths))
 	copy(jxl.bitDepths, img.bitDepths)
 
-	for _, ib := range jxl.Buffer {
+	for _, ib := range img.Buffer {
 		buf := image2.NewImageBufferFromImageBuffer(&ib, copyBuffer)
 		jxl.Buffer = append(jxl.Buffer, *buf)
 	}
@@ -186,27 +187,29 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 	if channelNo < 0 || channelNo >= len(buffer) {
 		return nil, fmt.Errorf("Invalid channel index %d", channelNo)
 	}
-	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
+
+	// the image has 8 bits per sample
+	channel := &buffer[channelNo]
+	if channel.IsInt() && jxl.bitDepths[channelNo] != 8 {
+		if err := channel.CastToFloatIfMax(^(^0 << jxl.bitDepths[channelNo])); err != nil {
+			return nil, err
+		}
+	}
+	if err := channel.CastToIntIfMax(255); err != nil {
+		return nil, err
+	}
+	if err := channel.Clamp(255); err != nil {
+		return nil, err
+	}
+	img := image.NewGray(image.Rect(0, 0, int(channel.Width), int(channel.Height)))
 	pix := img.Pix
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
-	if buffer[0].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-
-				// Assumption of 8 bits per channel. Will do for now.
-				pix[pos] = uint8(buffer[channelNo].FloatBuffer[y][x] * 255)
-				pos++
-			}
-		}
-	} else {
-
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[channelNo].IntBuffer[y][x])
-				pos++
-			}
+	for y := 0; y < dy; y++ {
+		for x := 0; x < dx; x++ {
+			pix[pos] = uint8(channel.IntBuffer[y][x])
+			pos++
 		}
 	}
 	return img, nil
@@ -215,11 +218,13 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 // ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
 func (jxl *JXLImage) ToImage() (image.Image, error) {
 
-	var bitDepth int32
-	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
+	// both image formats that are used have 8 bits per sample
+	bitDepth := int32(8)
+
+	// the conversions below change the samples: leave the original alone.
+	jxl, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
 	}
 
 	//gray := jxlImage.ColourEncoding == color.CE_GRAY
@@ -231,7 +236,6 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	}
 	whitePoint := colour.CM_WP_D65
 	iccProfile := jxl.iccProfile
-	var err error
 	if iccProfile == nil {
 		// transforms in place
 		img, err := jxl.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
@@ -262,7 +266,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 		}
 	}
 	if jxl.alphaIsPremultiplied {
-		panic("not implemented")
+		return nil, errors.New("premultiplied alpha not implemented")
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxl.bitDepths[c] == uint32(bitDepth) {
@@ -468,7 +472,7 @@ func (jxl *JXLImage) transferWithOp(f func(v float32) float32) (*JXLImage, error
 		buffers[c] = jxl.Buffer[c].FloatBuffer
 	}
 
-	img, err := NewJXLImageFromJXLImage(jxl, false)
+	img, err := NewJXLImageFromJXLImage(jxl, true)
 	if err != nil {
 		return nil, err
 	}
@@ -547,7 +551,7 @@ func (jxl *JXLImage) transferInPlace(transferFunction func(float64) float64) err
 
 	buffers := util.MakeMatrix3D[float32](colours, 0, 0)
 	for c := 0; c < colours; c++ {
-		if err := jxl.Buffer[c].CastToFloatIfMax(int32(jxl.bitDepths[c])); err != nil {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
 			return err
 		}
 		buffers[c] = jxl.Buffer[c].FloatBuffer
diff --git a/core/png_writer.go b/core/png_writer.go
index a3b88dd..8fb0614 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"encoding/binary"
+	"errors"
 	"hash/crc32"
 	"io"
 
@@ -24,6 +25,12 @@ type PNGWriter struct {
 // to write out ICC Profile which doesn't seem to be supported by the standard package.
 func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 
+	// the conversions below change the samples: leave the image of the caller alone.
+	jxlImage, err := NewJXLImageFromJXLImage(jxlImage, true)
+	if err != nil {
+		return err
+	}
+
 	w.hdr = jxlImage.isHDR()
 	var bitDepth int32
 	if w.hdr {
@@ -98,7 +105,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.alphaIsPremultiplied {
-		panic("not implemented")
+		return errors.New("premultiplied alpha not implemented")
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
-- 
2.43.0


From 6e220bc7b89a81da7ca9c442d76ab55158d6a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 40/64] fix: images with other transfer functions than linear
 ended in a panic, alpha was taken from the first extra channel

---
 core/jxl_image.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 7819524..bf89bd7 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -359,7 +359,7 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
-					pix[pos] = uint8(buffer[3].IntBuffer[y][x])
+					pix[pos] = uint8(buffer[3+jxl.alphaIndex].IntBuffer[y][x])
 					pos++
 				} else {
 					pix[pos] = 255
@@ -536,7 +536,18 @@ func (jxl *JXLImage) linearize() (*JXLImage, error) {
 		return jxl, nil
 	}
 
-	panic("not implemented")
+	transferFunction, err := colour.GetTransferFunction(jxl.transfer)
+	if err != nil {
+		return nil, err
+	}
+	img, err := jxl.transferWithOp(func(v float32) float32 {
+		return float32(transferFunction.ToLinear(float64(v)))
+	})
+	if err != nil {
+		return nil, err
+	}
+	img.transfer = colour.TF_LINEAR
+	return img, nil
 }
 
 func (jxl *JXLImage) toneMapLinear() error {
-- 
2.43.0


From 5ebcb3b928252999d8d48dbe0a7b5729fa0b0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 41/64] fix: writing integer samples as PFM ended in a panic

---
 core/pfm_writer.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index b0f2376..209ecd7 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -7,7 +7,6 @@ import (
 	"io"
 
 	"github.com/kpfaulkner/jxl-go/colour"
-	image2 "github.com/kpfaulkner/jxl-go/image"
 )
 
 func WritePFM(jxlImage *JXLImage, output io.Writer) error {
@@ -30,22 +29,16 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 		cCount = 3
 	}
 
-	buffer2, err := jxlImage.getBuffer(false)
+	// a copy, so that integer samples can be converted.
+	nb, err := jxlImage.getBuffer(true)
 	if err != nil {
 		return err
 	}
-	nb := make([]image2.ImageBuffer, len(buffer2))
-	for c := 0; c < len(nb); c++ {
-		if buffer2[c].IsInt() {
-			panic("not implemented")
-		} else {
-			nb[c] = buffer2[c]
+	for c := 0; c < cCount; c++ {
+		if err := nb[c].CastToFloatIfMax(^(^0 << jxlImage.bitDepths[c])); err != nil {
+			return err
 		}
 	}
-
-	if gray {
-		cCount = 1
-	}
 	var buf bytes.Buffer
 
 	for y := int32(height - 1); y >= 0; y-- {
-- 
2.43.0


From 4cf3bc0ae054cec89d1910a7e25e58f640bf0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 42/64] fix: parsing without decoding went on after the last
 frame

---
 core/jxl_codestream_decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index ff6b48c..5408eb6 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -177,6 +177,9 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				if err := imgFrame.SkipFrameData(); err != nil {
 					return nil, err
 				}
+				if header.IsLast {
+					break
+				}
 				continue
 			}
 
-- 
2.43.0


From 5baef817d8efa6cd5d8f75e8b17eb920ea25e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:08 +0000
Subject: [PATCH 43/64] fix: the clamp flag of multiplied frames without extra
 channels was not read, alpha channels that do not exist ended in a panic

---
 frame/BlendingInfo.go | 4 ++--
 frame/FrameHeader.go  | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 0e4ade4..40c35d2 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -41,8 +41,8 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 
 	var err error
 	if extra && (bi.Mode == BLEND_BLEND ||
-		bi.Mode == BLEND_MULT ||
-		bi.Mode == BLEND_MULADD) {
+		bi.Mode == BLEND_MULADD) ||
+		bi.Mode == BLEND_MULT {
 		if bi.Clamp, err = reader.ReadBool(); err != nil {
 			return nil, err
 		}
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index d422185..e0f7fe7 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -1,6 +1,7 @@
 package frame
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
@@ -291,6 +292,12 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			}
 			// store value not pointer. TODO(kpfaulkner) check this is fine.
 			fh.EcBlendingInfo[i] = *bi
+			if bi.AlphaChannel >= uint32(len(fh.EcBlendingInfo)) {
+				return nil, errors.New("blending with an alpha channel that does not exist")
+			}
+		}
+		if fh.BlendingInfo.AlphaChannel > 0 && fh.BlendingInfo.AlphaChannel >= uint32(len(fh.EcBlendingInfo)) {
+			return nil, errors.New("blending with an alpha channel that does not exist")
 		}
 	} else {
 		fh.BlendingInfo = NewBlendingInfo()
-- 
2.43.0


From 062ed0554fb825f07da761815ddcecd9a4b9055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 44/64] fix: the noise generator was advanced once per sample
 instead of once per 16 samples

---
 frame/NoiseGroup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/NoiseGroup.go b/frame/NoiseGroup.go
index a4d7336..2f59889 100644
--- a/frame/NoiseGroup.go
+++ b/frame/NoiseGroup.go
@@ -20,7 +20,7 @@ func NewNoiseGroupWithHeader(header *FrameHeader, seed0 int64, noiseBuffer [][][
 	bits := make([]int64, 16)
 	for c := 0; c < 3; c++ {
 		for y := 0; y < int(ySize); y++ {
-			for x := 0; x < int(xSize); x++ {
+			for x := 0; x < int(xSize); x += 16 {
 				ng.rng.fill(bits)
 				for i := 0; i < 16 && x+i < int(xSize); i++ {
 					f := (uint32(bits[i]) >> 9) | 0x3f_80_00_00
-- 
2.43.0


From cb39a1cfd74708ae8c8d0bd7930574df9a0fb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:56 +0000
Subject: [PATCH 45/64] fix: upsampled frames were placed at multiples of their
 origin and reached over their crop, negative samples were not clamped

---
 frame/Frame.go       | 9 ++++++---
 frame/FrameHeader.go | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 689e65f..c349c5b 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1467,8 +1467,11 @@ func (f *Frame) Upsample() error {
 	f.Header.Bounds.Size.Height *= f.Header.Upsampling
 	f.Header.Bounds.Size.Width *= f.Header.Upsampling
 
-	f.Header.Bounds.Origin.Y *= int32(f.Header.Upsampling)
-	f.Header.Bounds.Origin.X *= int32(f.Header.Upsampling)
+	// the origin is not scaled, and the size was rounded up.
+	if full := f.Header.upsampledSize; full.Height != 0 && full.Width != 0 {
+		f.Header.Bounds.Size.Height = util.Min(f.Header.Bounds.Size.Height, full.Height)
+		f.Header.Bounds.Size.Width = util.Min(f.Header.Bounds.Size.Width, full.Width)
+	}
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
@@ -1541,7 +1544,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							weights := upWeights[ky][kx]
 							total := float32(0.0)
 							min := float32(math.MaxFloat32)
-							max := float32(math.SmallestNonzeroFloat32)
+							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
 									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index e0f7fe7..6ce1f3c 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -35,6 +35,7 @@ const (
 )
 
 type FrameHeader struct {
+	upsampledSize     util.Dimension
 	jpegUpsamplingX   []int32
 	jpegUpsamplingY   []int32
 	EcUpsampling      []uint32
@@ -274,6 +275,7 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	fullFrame := fh.Bounds.Origin.Y <= 0 && fh.Bounds.Origin.X <= 0 &&
 		lowerCorner.Y >= int32(parent.Size.Height) && lowerCorner.X >= int32(parent.Size.Width)
 
+	fh.upsampledSize = fh.Bounds.Size
 	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, fh.Upsampling)
 	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, fh.Upsampling)
 	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<(3*fh.LfLevel))
-- 
2.43.0


From 55d57efdc28002838ae935020b218f1242ecd9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 46/64] fix: quantisation parameters of the DCT4 mode were
 scaled by 64, those of the DCT4x8 mode were not read

---
 frame/HFGlobal.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 2b8797c..d4082e0 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -342,7 +342,7 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 				if err != nil {
 					return err
 				}
-				m[y][x] = 64.0 * mm
+				m[y][x] = mm
 			}
 		}
 		dctParam, err := hfg.readDCTParams(reader)
@@ -350,6 +350,20 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 			return err
 		}
 		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4, denominator: 1, params4x4: nil}
+	case MODE_DCT4_8:
+		m := util.MakeMatrix2D[float32](3, 1)
+		for y := int32(0); y < 3; y++ {
+			mm, err := reader.ReadF16()
+			if err != nil {
+				return err
+			}
+			m[y][0] = mm
+		}
+		dctParam, err := hfg.readDCTParams(reader)
+		if err != nil {
+			return err
+		}
+		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4_8, denominator: 1, params4x4: nil}
 	case MODE_DCT:
 		dctParam, err := hfg.readDCTParams(reader)
 		if err != nil {
-- 
2.43.0


From 732ad8501db4203a70a3fe105b12ad0244d22f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:46 +0000
Subject: [PATCH 47/64] fix: AFV quantisation weights did not follow their
 bands and were transposed

---
 frame/HFGlobal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index d4082e0..5dcc8dd 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -652,8 +652,8 @@ func (hfg *HFGlobal) getAFVTransformWeights(index int, c int) ([][]float32, erro
 			if x < 2 && y < 2 {
 				continue
 			}
-			pos := (afvFreqs[y*4+x] - low) / (high - low)
-			weight[2*x][2*y] = interpolate(float32(pos), bands)
+			pos := (afvFreqs[y*4+x] - low) / (high - low) * float64(len(bands)-1)
+			weight[2*y][2*x] = interpolate(float32(pos), bands)
 		}
 		for x := 0; x < 8; x++ {
 			if x == 0 && y == 0 {
-- 
2.43.0


From a3850a0349cb2fa9f98d356a220ade064975834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 48/64] fix: zero, not-a-number and huge quantisation weights
 were accepted

---
 frame/HFGlobal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 5dcc8dd..18abad8 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -9,6 +9,9 @@ import (
 	"github.com/kpfaulkner/jxl-go/util"
 )
 
+// quantisation weights have to be within [minWeight, 1/minWeight].
+const minWeight = 1e-8
+
 var (
 	defaultParams []DCTParam
 
@@ -534,6 +537,9 @@ func (hfg *HFGlobal) generateWeights(index int) error {
 			hfg.weights[index][c] = util.MakeMatrix2DPooled[float32](int(tt.matrixHeight), int(tt.matrixWidth))
 			for y := int32(0); y < tt.matrixHeight; y++ {
 				for x := int32(0); x < tt.matrixWidth; x++ {
+					if hfg.params[index].param[c][y*tt.matrixWidth+x] <= 0 || !(hfg.params[index].denominator >= minWeight) {
+						return errors.New("Invalid weight")
+					}
 					hfg.weights[index][c][y][x] = hfg.params[index].param[c][y*tt.matrixWidth+x] * hfg.params[index].denominator
 				}
 			}
@@ -545,7 +551,7 @@ func (hfg *HFGlobal) generateWeights(index int) error {
 		for c := 0; c < 3; c++ {
 			for y := int32(0); y < tt.matrixHeight; y++ {
 				for x := int32(0); x < tt.matrixWidth; x++ {
-					if hfg.weights[index][c][y][x] < 0 || math.IsInf(float64(hfg.weights[index][c][y][x]), 0) {
+					if w := hfg.weights[index][c][y][x]; !(w >= minWeight && w <= 1/minWeight) {
 						return errors.New("Invalid weight")
 					}
 					hfg.weights[index][c][y][x] = 1.0 / hfg.weights[index][c][y][x]
-- 
2.43.0


From c7f4bb43eff278e9a11311a61e6458fb8a4e0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:05 +0000
Subject: [PATCH 49/64] fix: LF correlation factors below 128 wrapped around

---
 frame/lfcoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 422b263..f531497 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -91,8 +91,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 
 		// TOOD(kpfaulkner) investigate what this really does.
 		lfc := frame.getLFGlobal().lfChanCorr
-		kX := lfc.baseCorrelationX + float32(lfc.xFactorLF-128)/float32(lfc.colorFactor)
-		kB := lfc.baseCorrelationB + float32(lfc.bFactorLF-128)/float32(lfc.colorFactor)
+		kX := lfc.baseCorrelationX + float32(int32(lfc.xFactorLF)-128)/float32(lfc.colorFactor)
+		kB := lfc.baseCorrelationB + float32(int32(lfc.bFactorLF)-128)/float32(lfc.colorFactor)
 		dqLFY := dequantLFCoeff[1]
 		dqLFX := dequantLFCoeff[0]
 		dqLFB := dequantLFCoeff[2]
-- 
2.43.0


From f957d706749245bb9ee129a53492d362c1a11fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 50/64] fix: coefficient scales below 2 wrapped around

---
 frame/HFCoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index b8c5255..319a63c 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -276,9 +276,9 @@ func (hf *HFCoefficients) dequantizeHFCoefficients() error {
 	header := hf.frame.getFrameHeader()
 	globalScale := 65536.0 / float32(hf.frame.getLFGlobal().globalScale)
 	scaleFactor := [3]float32{
-		globalScale * float32(math.Pow(0.8, float64(header.xqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(header.xqmScale)-2)),
 		globalScale,
-		globalScale * float32(math.Pow(0.8, float64(header.bqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(header.bqmScale)-2)),
 	}
 	weights := hf.frame.getHFGlobal().weights
 	qbclut := [][]float32{
-- 
2.43.0


From 4d765b372dc9636405c9b81d2a84f781498c836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:25 +0000
Subject: [PATCH 51/64] fix: the product of the LF quantiser's factors
 overflowed

---
 frame/LFGlobal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/LFGlobal.go b/frame/LFGlobal.go
index 3c3c73a..36d3eb0 100644
--- a/frame/LFGlobal.go
+++ b/frame/LFGlobal.go
@@ -109,7 +109,7 @@ func NewLFGlobalWithReader(reader jxlio.BitReader, parent Framer, hfBlockContext
 		}
 		lf.quantLF = int32(quantLF)
 		for i := 0; i < 3; i++ {
-			lf.scaledDequant[i] = (1 << 16) * lf.lfDequant[i] / float32(lf.globalScale*lf.quantLF)
+			lf.scaledDequant[i] = (1 << 16) * lf.lfDequant[i] / (float32(lf.globalScale) * float32(lf.quantLF))
 		}
 		lf.hfBlockCtx, err = hfBlockContextFunc(reader, entropy.ReadClusterMap)
 		if err != nil {
-- 
2.43.0


From 8463de10aae3e4af4ee817c8a1bccc7729a22c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 52/64] fix: frames that take their LF samples from an LF frame
 were read as if they coded them as well

---
 frame/lfcoefficients.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index f531497..7da915f 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -55,6 +55,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 				}
 			}
 		}
+		// nothing is coded for samples that come from an LF frame.
+		return lf, nil
 	}
 
 	extraPrecision, err := reader.ReadBits(2)
-- 
2.43.0


From be2f0b36e8f6585be09b3b561eb0e36f19ca1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 53/64] fix: channels of modular groups were placed by the
 channel's own width, empty parts were read and LF group channels were taken
 from wrong places

---
 frame/Frame.go | 125 ++++++++++++++++++++-----------------------------
 1 file changed, 50 insertions(+), 75 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index c349c5b..1c033c4 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -544,41 +544,18 @@ func (f *Frame) GetPaddedFrameSize() (util.Dimension, error) {
 func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	lfReplacementChannels := []*ModularChannel{}
-	lfReplacementChannelIndicies := []int{}
 
 	for i := 0; i < len(f.LfGlobal.globalModular.getChannels()); i++ {
 		ch := f.LfGlobal.globalModular.getChannels()[i]
 		if !ch.decoded {
 			if ch.hshift >= 3 && ch.vshift >= 3 {
-				lfReplacementChannelIndicies = append(lfReplacementChannelIndicies, i)
-				height := f.Header.lfGroupDim >> ch.vshift
-				width := f.Header.lfGroupDim >> ch.hshift
-				lfReplacementChannels = append(lfReplacementChannels, NewModularChannelWithAllParams(int32(height), int32(width), ch.vshift, ch.hshift, false))
+				lfReplacementChannels = append(lfReplacementChannels, ch)
 			}
 		}
 	}
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
-	// Hoist invariant computation out of the loop
-	frameSize, err := f.GetPaddedFrameSize()
-	if err != nil {
-		return err
-	}
-
-	// Pre-compute lfHeight/lfWidth for each replacement channel (invariant per channel)
-	numReplacements := len(lfReplacementChannels)
-	lfHeights := make([]uint32, numReplacements)
-	lfWidths := make([]uint32, numReplacements)
-	templateHeights := make([]uint32, numReplacements)
-	templateWidths := make([]uint32, numReplacements)
-	for i, r := range lfReplacementChannels {
-		lfHeights[i] = frameSize.Height >> r.vshift
-		lfWidths[i] = frameSize.Width >> r.hshift
-		templateHeights[i] = r.size.Height
-		templateWidths[i] = r.size.Width
-	}
-
 	errChan := make(chan error, f.numLFGroups)
 	var wg sync.WaitGroup
 	// Ensure at least 1 goroutine
@@ -607,24 +584,12 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 			lfGroupPos := f.getLFGroupLocation(int32(id))
 
-			// Pre-allocate with correct capacity, use index assignment instead of append
-			replaced := make([]ModularChannel, numReplacements)
-			for i, r := range lfReplacementChannels {
-				// Copy the template channel directly instead of calling NewModularChannelFromChannel
-				replaced[i] = ModularChannel{
-					size:    r.size,
-					origin:  r.origin,
-					hshift:  r.hshift,
-					vshift:  r.vshift,
-					decoded: r.decoded,
-					// buffer is nil - will be allocated by NewLFGroupWithReader if needed
+			// parts of the channels that belong to this LF group, empty ones are not coded
+			replaced := make([]ModularChannel, 0, len(lfReplacementChannels))
+			for _, r := range lfReplacementChannels {
+				if part, ok := groupChannel(r, lfGroupPos, f.Header.lfGroupDim); ok {
+					replaced = append(replaced, part)
 				}
-
-				// Update origin and size for this specific LF group
-				replaced[i].origin.Y = lfGroupPos.Y * int32(templateHeights[i])
-				replaced[i].origin.X = lfGroupPos.X * int32(templateWidths[i])
-				replaced[i].size.Height = util.Min(templateHeights[i], lfHeights[i]-uint32(replaced[i].origin.Y))
-				replaced[i].size.Width = util.Min(templateWidths[i], lfWidths[i]-uint32(replaced[i].origin.X))
 			}
 
 			lfg, err := NewLFGroupWithReader(reader, f, int32(id), replaced, lfBuffer, NewLFCoefficientsWithReader, NewHFMetadataWithReader)
@@ -644,26 +609,45 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	// Allocate all replacement channels once BEFORE copying data from LF groups
 	// (previously was allocating redundantly for each LF group)
-	channels := f.LfGlobal.globalModular.getChannels()
-	for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-		channels[lfReplacementChannelIndicies[j]].allocate()
+	for _, channel := range lfReplacementChannels {
+		channel.allocate()
 	}
 
 	// Copy data from each LF group into the pre-allocated channels
 	for lfGroupID := uint32(0); lfGroupID < f.numLFGroups; lfGroupID++ {
-		for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-			index := lfReplacementChannelIndicies[j]
-			channel := channels[index]
-			newChannelInfo := f.lfGroups[lfGroupID].modularLFGroup.getChannels()[index]
-			newChannel := newChannelInfo.buffer
+		lfGroupPos := f.getLFGroupLocation(int32(lfGroupID))
+		j := 0
+		for _, channel := range lfReplacementChannels {
+			part, ok := groupChannel(channel, lfGroupPos, f.Header.lfGroupDim)
+			if !ok {
+				continue
+			}
+			newChannel := f.lfGroups[lfGroupID].modularLFGroup.getChannels()[j].buffer
 			for y := 0; y < len(newChannel); y++ {
-				copy(channel.buffer[int32(y)+newChannelInfo.origin.Y], newChannel[y])
+				copy(channel.buffer[int32(y)+part.origin.Y][part.origin.X:], newChannel[y])
 			}
+			j++
 		}
 	}
 	return nil
 }
 
+// groupChannel returns the part of a channel that is coded with the group of the given
+// position and dimension, and false if no sample is.
+func groupChannel(ch *ModularChannel, pos *util.Point, groupDim uint32) (ModularChannel, bool) {
+	height := groupDim >> ch.vshift
+	width := groupDim >> ch.hshift
+	y := uint32(pos.Y) * height
+	x := uint32(pos.X) * width
+	if height == 0 || width == 0 || y >= ch.size.Height || x >= ch.size.Width {
+		return ModularChannel{}, false
+	}
+	part := NewModularChannelWithAllParams(int32(util.Min(height, ch.size.Height-y)), int32(util.Min(width, ch.size.Width-x)), ch.vshift, ch.hshift, ch.forceWP)
+	part.origin.Y = int32(y)
+	part.origin.X = int32(x)
+	return *part, true
+}
+
 func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 
 	var err error
@@ -703,27 +687,17 @@ func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) er
 		return err
 	}
 
+	groupPos := f.getGroupLocation(int32(iGroup))
 	replaced := []ModularChannel{}
 	for _, r := range f.passes[iPass].replacedChannels {
-		// remove any replacedChannels that are nil/empty
+		// channels of other passes are nil, and parts without samples are not coded
 		if r != nil {
-			mc := NewModularChannelFromChannel(*r)
-			replaced = append(replaced, *mc)
+			if part, ok := groupChannel(r, groupPos, f.Header.groupDim); ok {
+				replaced = append(replaced, part)
+			}
 		}
 	}
 
-	for i := 0; i < len(replaced); i++ {
-		info := replaced[i]
-		groupHeight := f.Header.groupDim >> info.vshift
-		groupWidth := f.Header.groupDim >> info.hshift
-		rowStride := util.CeilDiv(info.size.Width, groupWidth)
-		info.origin.Y = int32((uint32(iGroup) / rowStride) * groupHeight)
-		info.origin.X = int32((uint32(iGroup) % rowStride) * groupWidth)
-		info.size.Height = util.Min(info.size.Height-uint32(info.origin.Y), uint32(groupHeight))
-		info.size.Width = util.Min(info.size.Width-uint32(info.origin.X), uint32(groupWidth))
-		replaced[i] = info
-	}
-
 	pg, err := NewPassGroupWithReader(br, f, uint32(iPass), uint32(iGroup), replaced)
 	if err != nil {
 		return err
@@ -778,24 +752,25 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	}
 
 	for pass := 0; pass < numPasses; pass++ {
-		j := 0
+		// index of the next channel of each group's stream
+		next := make([]int, numGroups)
 		for i := 0; i < len(f.passes[pass].replacedChannels); i++ {
 			if f.passes[pass].replacedChannels[i] == nil {
 				continue
 			}
-			ii := i
-			jj := j
-			channel := f.LfGlobal.globalModular.getChannels()[ii]
+			channel := f.LfGlobal.globalModular.getChannels()[i]
 			channel.allocate()
-			for group := 0; group < int(f.numGroups); group++ {
-				newChannelInfo := passGroups[pass][group].modularStream.getChannels()[jj]
-				buff := newChannelInfo.buffer
+			for group := 0; group < numGroups; group++ {
+				part, ok := groupChannel(channel, f.getGroupLocation(int32(group)), f.Header.groupDim)
+				if !ok {
+					continue
+				}
+				buff := passGroups[pass][group].modularStream.getChannels()[next[group]].buffer
+				next[group]++
 				for y := 0; y < len(buff); y++ {
-					idx := y + int(newChannelInfo.origin.Y)
-					copy(channel.buffer[idx][newChannelInfo.origin.X:], buff[y][:len(buff[y])])
+					copy(channel.buffer[y+int(part.origin.Y)][part.origin.X:], buff[y])
 				}
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From 60ebf918022266b616d17b571799640fab922735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 54/64] fix: frames with default passes did not decode channels
 larger than a group

---
 frame/FrameHeader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index 6ce1f3c..cbda2db 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -193,7 +193,8 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			return nil, err
 		}
 	} else {
-		fh.passes = NewPassesInfo()
+		// a single pass that codes everything
+		fh.passes = &PassesInfo{shift: []uint32{0}, downSample: []uint32{1}, lastPass: []uint32{0}, numPasses: 1}
 	}
 
 	if fh.FrameType == LF_FRAME {
-- 
2.43.0


From 3ca647725750038a4b19d2396e17316e45954bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 55/64] fix: chroma from luma used no factors in parts of
 blocks that were read before the block at their tile's corner

---
 frame/HFCoefficients.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 319a63c..d2d6857 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -352,8 +352,6 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 	lfc := hf.frame.getLFGlobal().lfChanCorr
 	xFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[0]
 	bFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[1]
-	xFactors := util.MakeMatrix2D[float32](len(xFactorHF), len(xFactorHF[0]))
-	bFactors := util.MakeMatrix2D[float32](len(bFactorHF), len(bFactorHF[0]))
 
 	// Cache the float32 conversion outside the loops to avoid per-pixel conversion
 	invColorFactor := 1.0 / float32(lfc.colorFactor)
@@ -371,25 +369,13 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 		for iy := int32(0); iy < tt.pixelHeight; iy++ {
 			y := pPosY + iy
 			fy := y >> 6
-			by := fy<<6 == y
-			xF := xFactors[fy]
-			bF := bFactors[fy]
 			hfX := xFactorHF[fy]
 			hfB := bFactorHF[fy]
 			for ix := int32(0); ix < tt.pixelWidth; ix++ {
 				x := pPosX + ix
 				fx := x >> 6
-				var kX float32
-				var kB float32
-				if by && fx<<6 == x {
-					kX = baseCorrelationX + float32(hfX[fx])*invColorFactor
-					kB = baseCorrelationB + float32(hfB[fx])*invColorFactor
-					xF[fx] = kX
-					bF[fx] = kB
-				} else {
-					kX = xF[fx]
-					kB = bF[fx]
-				}
+				kX := baseCorrelationX + float32(hfX[fx])*invColorFactor
+				kB := baseCorrelationB + float32(hfB[fx])*invColorFactor
 				dequantY := hf.dequantHFCoeff[1][y&0xFF][x&0xFF]
 				hf.dequantHFCoeff[0][y&0xFF][x&0xFF] += kX * dequantY
 				hf.dequantHFCoeff[2][y&0xFF][x&0xFF] += kB * dequantY
-- 
2.43.0


From 6c6db4dc448fb861cb8463182e7fcd042d66e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 56/64] fix: PQ and DCI transfer functions used the wrong
 formula and exponents

---
 colour/colour_management.go | 3 ++-
 colour/transfer_function.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/colour/colour_management.go b/colour/colour_management.go
index 4e3a4fd..0946e9b 100644
--- a/colour/colour_management.go
+++ b/colour/colour_management.go
@@ -123,7 +123,8 @@ func GetTransferFunction(transfer int32) (TransferFunction, error) {
 	case TF_BT709:
 		return BT709TransferFunction{}, nil
 	case TF_DCI:
-		return NewGammaTransferFunction(transfer), nil
+		// the inverse of a gamma of 2.6
+		return NewGammaTransferFunction(3846154), nil
 	case TF_HLG:
 		return nil, errors.New("Not implemented")
 	}
diff --git a/colour/transfer_function.go b/colour/transfer_function.go
index de9f6e0..efcb435 100644
--- a/colour/transfer_function.go
+++ b/colour/transfer_function.go
@@ -53,11 +53,11 @@ type PQTransferFunction struct {
 
 func (tf PQTransferFunction) ToLinear(input float64) float64 {
 	d := math.Pow(input, 0.012683313515655965121)
-	return math.Pow((d-0.8359375)/(18.8515625+18.6875*d), 6.2725880551301684533)
+	return math.Pow(max(d-0.8359375, 0)/(18.8515625-18.6875*d), 6.2773946360153256705)
 }
 
 func (tf PQTransferFunction) FromLinear(input float64) float64 {
-	d := math.Pow(input, 0.159423828125)
+	d := math.Pow(input, 0.1593017578125)
 	return math.Pow((0.8359375+18.8515625*d)/(1.0+18.6875*d), 78.84375)
 }
 
-- 
2.43.0


From dc55cae2f181f12855f7cb8429a759b51e1c9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 57/64] fix: integer samples lost their low bits above 24 bits,
 and a failure to invert subsampling was not reported

---
 frame/Frame.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 1c033c4..7d586f6 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -455,16 +455,13 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
 			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				//copy(outBuffer[y], modularBuffer[cIn][y])
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
-					outBuffer[y][x] = int32(scaleFactor * float32(modularBuffer[cIn][y][x]))
-				}
+				copy(outBuffer[y], modularBuffer[cIn][y][:f.Header.Bounds.Size.Width])
 			}
 		}
 	}
 
 	if err := f.invertSubsampling(); err != nil {
-		return nil
+		return err
 	}
 
 	if f.Header.restorationFilter.gab {
-- 
2.43.0


From 5d6e839a57e2b241c59d3cb70f8b0eabd232f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 58/64] fix: reference-only frames saved after the colour
 transform stored the canvas instead of the frame

---
 core/jxl_codestream_decoder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 5408eb6..1264b8c 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -274,7 +274,12 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && !header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = jxl.canvas
+				if header.FrameType == frame.REFERENCE_ONLY {
+					// such frames are not part of the canvas.
+					jxl.reference[header.SaveAsReference] = imgFrame.Buffer
+				} else {
+					jxl.reference[header.SaveAsReference] = jxl.canvas
+				}
 			}
 
 			if header.IsLast && header.Duration == 0 {
-- 
2.43.0


From 3549776ff0caeefb416a5d4d08d4d6c1c9bd518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 59/64] fix: a modular stream that refers to a missing global
 tree ended in a panic

---
 frame/ModularStream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 30669dc..aa250bb 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -364,6 +364,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 		ms.tree = tree
 	} else {
 		ms.tree = frame.getGlobalTree()
+		if ms.tree == nil {
+			return nil, errors.New("modular stream uses a global tree but there is none")
+		}
 	}
 
 	ms.stream = entropy.NewEntropyStreamWithStream(ms.tree.stream)
-- 
2.43.0


From b753623656bb1f8227609b96288b72e380cb0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:37 +0000
Subject: [PATCH 60/64] fix: extra channels with their own upsampling or
 dimension shift, and subsampled modular frames, ended in a panic

---
 frame/Frame.go         | 16 ++++++++++------
 frame/FrameHeader.go   | 37 +++++++++++++++++++++++++++++++++++++
 frame/ModularStream.go | 10 ++--------
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 7d586f6..ca79a8e 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -362,6 +362,8 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		if c < 3 && c < f.GetColourChannelCount() {
 			channelSize.Height >>= f.Header.jpegUpsamplingY[c]
 			channelSize.Width >>= f.Header.jpegUpsamplingX[c]
+		} else if c >= numColours {
+			channelSize, _, _ = f.Header.modularChannelSize(c, numColours, f.GlobalMetadata.ExtraChannelInfo)
 		}
 		var isFloat bool
 		if c < f.GetColourChannelCount() {
@@ -437,25 +439,27 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 			scaleFactor = 1.0
 		}
 
+		// a channel that is smaller than the frame is enlarged later
+		height := uint32(len(modularBuffer[cIn]))
 		if isModularXYB && cIn == 2 {
 			outBuffer := f.Buffer[cOut].FloatBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
+			for y := uint32(0); y < height; y++ {
+				for x := range modularBuffer[2][y] {
 					outBuffer[y][x] = scaleFactor * float32(modularBuffer[0][y][x]+modularBuffer[2][y][x])
 				}
 			}
 		} else if f.Buffer[cOut].IsFloat() {
 
 			outBuffer := f.Buffer[cOut].FloatBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
+			for y := uint32(0); y < height; y++ {
+				for x := range modularBuffer[cIn][y] {
 					outBuffer[y][x] = scaleFactor * float32(modularBuffer[cIn][y][x])
 				}
 			}
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				copy(outBuffer[y], modularBuffer[cIn][y][:f.Header.Bounds.Size.Width])
+			for y := uint32(0); y < height; y++ {
+				copy(outBuffer[y], modularBuffer[cIn][y])
 			}
 		}
 	}
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index cbda2db..a528b1e 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -152,6 +152,13 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			fh.EcUpsampling[i] = 1
 		}
 	}
+	// the dimension shift of an extra channel is part of its upsampling
+	for i := range fh.EcUpsampling {
+		fh.EcUpsampling[i] <<= parent.ExtraChannelInfo[i].DimShift
+		if fh.EcUpsampling[i] < fh.Upsampling || fh.EcUpsampling[i] > 8 {
+			return nil, errors.New("invalid upsampling of an extra channel")
+		}
+	}
 
 	if fh.Encoding == MODULAR {
 		if groupSizeShift, err := reader.ReadBits(2); err != nil {
@@ -461,3 +468,33 @@ func (fh *FrameHeader) DisplayDebug() {
 	fmt.Printf("  Flags bits: USE_LF_FRAME=%v NOISE=%v PATCHES=%v SPLINES=%v\n",
 		fh.Flags&USE_LF_FRAME != 0, fh.Flags&NOISE != 0, fh.Flags&PATCHES != 0, fh.Flags&SPLINES != 0)
 }
+
+// modularChannelSize returns the dimensions in which a channel of the image is coded by
+// modular streams, and how much it is smaller than the frame.
+func (fh *FrameHeader) modularChannelSize(channel int, ecStart int, extra []bundle.ExtraChannelInfo) (size util.Dimension, vshift int32, hshift int32) {
+	size = fh.Bounds.Size
+	if channel < ecStart {
+		if channel < len(fh.jpegUpsamplingY) && channel < len(fh.jpegUpsamplingX) {
+			vshift, hshift = fh.jpegUpsamplingY[channel], fh.jpegUpsamplingX[channel]
+		}
+		size.Height = util.CeilDiv(size.Height, 1<<vshift)
+		size.Width = util.CeilDiv(size.Width, 1<<hshift)
+		return size, vshift, hshift
+	}
+	i := channel - ecStart
+	if i >= len(fh.EcUpsampling) || fh.Upsampling == 0 {
+		return size, extra[i].DimShift, extra[i].DimShift
+	}
+	if full := fh.upsampledSize; full.Height != 0 && full.Width != 0 {
+		size = full
+		size.Height = util.CeilDiv(size.Height, 1<<(3*fh.LfLevel))
+		size.Width = util.CeilDiv(size.Width, 1<<(3*fh.LfLevel))
+	} else {
+		size.Height *= fh.Upsampling
+		size.Width *= fh.Upsampling
+	}
+	size.Height = util.CeilDiv(size.Height, fh.EcUpsampling[i])
+	size.Width = util.CeilDiv(size.Width, fh.EcUpsampling[i])
+	shift := int32(util.CeilLog2(int64(fh.EcUpsampling[i])) - util.CeilLog2(int64(fh.Upsampling)))
+	return size, shift, shift
+}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index aa250bb..eb07ac4 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -227,14 +227,8 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 
 	if len(channelArray) == 0 {
 		for i := 0; i < channelCount; i++ {
-			size := frame.getFrameHeader().Bounds.Size
-			var dimShift int32
-			if i < ecStart {
-				dimShift = 0
-			} else {
-				dimShift = frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift
-			}
-			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
+			size, vshift, hshift := frame.getFrameHeader().modularChannelSize(i, ecStart, frame.getGlobalMetadata().ExtraChannelInfo)
+			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), vshift, hshift, false))
 		}
 	} else {
 		//ms.channels = append(ms.channels, channelArray...)
-- 
2.43.0


From 89621413715304d232e221571880f277f9744a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 61/64] fix: a YCbCr frame of a grey image ended in a panic

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index ca79a8e..9855a5b 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -503,7 +503,7 @@ func (f *Frame) IsVisible() bool {
 }
 
 func (f *Frame) GetColourChannelCount() int {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT || f.Header.DoYCbCr {
 		return 3
 	}
 	return f.GlobalMetadata.GetColourChannelCount()
@@ -1626,7 +1626,7 @@ func (f *Frame) getGroupSize(groupID int32) (util.Dimension, error) {
 }
 
 func (f *Frame) getColourChannelCount() int32 {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT || f.Header.DoYCbCr {
 		return 3
 	}
 	return int32(f.GlobalMetadata.GetColourChannelCount())
-- 
2.43.0


From ba6e93d47ea59eb208c1fbb77f82233b1ff6d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 62/64] fix: a codestream that is split into partial boxes
 anywhere but after the image header was not decoded, and an empty one gave
 neither image nor error

---
 core/jxl_codestream_decoder.go | 313 +++++++++++++++++----------------
 1 file changed, 158 insertions(+), 155 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 1264b8c..8935813 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"bytes"
 	"errors"
 	"io"
 
@@ -58,18 +59,12 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 		return nil, err
 	}
 
-	if len(jxl.boxHeaders) > 1 {
-		return nil, errors.New("multiple boxes found, cannot get image header alone")
-	}
-
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-	if err != nil {
+	if err = jxl.openCodestream(); err != nil {
 		return nil, err
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, errors.New("no codestream data")
 	}
 
 	level := int32(jxl.level)
@@ -89,14 +84,12 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-	if err != nil {
+	if err = jxl.openCodestream(); err != nil {
 		return nil, err
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, errors.New("no codestream data")
 	}
 
 	level := int32(jxl.level)
@@ -133,189 +126,163 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	visibleFrames := 0
 	header := frame.FrameHeader{}
 
-	// If we have multiple box headers...  then we want to loop over from the second one.
-	// Need to also seek to that box offset.
-	ii := 0
-	shouldSeekBoxOffset := false
-	if len(jxl.boxHeaders) > 1 {
-		ii = 1
-		shouldSeekBoxOffset = true
-	}
-
-	for _, box := range jxl.boxHeaders[ii:] {
-
-		// only seek if we're not dealing with a single box.
-		if shouldSeekBoxOffset {
-			_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-			if err != nil {
-				return nil, err
-			}
+	for {
+		imgFrame := frame.NewFrameWithReader(jxl.bitReader, jxl.imageHeader, &jxl.options)
+		header, err = imgFrame.ReadFrameHeader()
+		if err != nil {
+			return nil, err
 		}
+		frameCount++
 
-		if jxl.atEnd() {
-			return nil, nil
+		if jxl.lfBuffer[header.LfLevel] == nil && header.Flags&frame.USE_LF_FRAME != 0 {
+			return nil, errors.New("LF level too large")
 		}
 
-		for {
-			imgFrame := frame.NewFrameWithReader(jxl.bitReader, jxl.imageHeader, &jxl.options)
-			header, err = imgFrame.ReadFrameHeader()
-			if err != nil {
-				return nil, err
-			}
-			frameCount++
-
-			if jxl.lfBuffer[header.LfLevel] == nil && header.Flags&frame.USE_LF_FRAME != 0 {
-				return nil, errors.New("LF level too large")
-			}
+		err := imgFrame.ReadTOC()
+		if err != nil {
+			return nil, err
+		}
 
-			err := imgFrame.ReadTOC()
-			if err != nil {
+		if jxl.options.ParseOnly {
+			if err := imgFrame.SkipFrameData(); err != nil {
 				return nil, err
 			}
-
-			if jxl.options.ParseOnly {
-				if err := imgFrame.SkipFrameData(); err != nil {
-					return nil, err
-				}
-				if header.IsLast {
-					break
-				}
-				continue
-			}
-
-			err = imgFrame.DecodeFrame(jxl.lfBuffer[header.LfLevel], frame.NewLFGlobalWithReader)
-			if err != nil {
-				return nil, err
+			if header.IsLast {
+				break
 			}
+			continue
+		}
 
-			if header.LfLevel > 0 {
-				jxl.lfBuffer[header.LfLevel-1] = imgFrame.Buffer
-			}
-			if header.FrameType == frame.LF_FRAME {
-				imgFrame.Release()
-				continue
-			}
-			save := (header.SaveAsReference != 0 || header.Duration == 0) && !header.IsLast && header.FrameType != frame.LF_FRAME
-			if imgFrame.IsVisible() {
-				visibleFrames++
-				invisibleFrames = 0
-			} else {
-				invisibleFrames++
-			}
+		err = imgFrame.DecodeFrame(jxl.lfBuffer[header.LfLevel], frame.NewLFGlobalWithReader)
+		if err != nil {
+			return nil, err
+		}
 
-			err = imgFrame.Upsample()
-			if err != nil {
-				return nil, err
-			}
+		if header.LfLevel > 0 {
+			jxl.lfBuffer[header.LfLevel-1] = imgFrame.Buffer
+		}
+		if header.FrameType == frame.LF_FRAME {
+			imgFrame.Release()
+			continue
+		}
+		save := (header.SaveAsReference != 0 || header.Duration == 0) && !header.IsLast && header.FrameType != frame.LF_FRAME
+		if imgFrame.IsVisible() {
+			visibleFrames++
+			invisibleFrames = 0
+		} else {
+			invisibleFrames++
+		}
 
-			err = imgFrame.InitializeNoise(int64(visibleFrames<<32) | invisibleFrames)
-			if err != nil {
-				return nil, err
-			}
+		err = imgFrame.Upsample()
+		if err != nil {
+			return nil, err
+		}
 
-			if save && header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = imgFrame.Buffer
-			}
+		err = imgFrame.InitializeNoise(int64(visibleFrames<<32) | invisibleFrames)
+		if err != nil {
+			return nil, err
+		}
 
-			err = jxl.computePatches(imgFrame)
-			if err != nil {
-				return nil, err
-			}
+		if save && header.SaveBeforeCT {
+			jxl.reference[header.SaveAsReference] = imgFrame.Buffer
+		}
 
-			err = imgFrame.RenderSplines()
-			if err != nil {
-				return nil, err
-			}
+		err = jxl.computePatches(imgFrame)
+		if err != nil {
+			return nil, err
+		}
 
-			err = imgFrame.SynthesizeNoise()
-			if err != nil {
-				return nil, err
-			}
+		err = imgFrame.RenderSplines()
+		if err != nil {
+			return nil, err
+		}
 
-			err = jxl.performColourTransforms(matrix, imgFrame)
-			if err != nil {
-				return nil, err
-			}
+		err = imgFrame.SynthesizeNoise()
+		if err != nil {
+			return nil, err
+		}
 
-			if header.Encoding == frame.VARDCT && jxl.options.RenderVarblocks {
-				panic("VARDCT not implemented yet")
-			}
+		err = jxl.performColourTransforms(matrix, imgFrame)
+		if err != nil {
+			return nil, err
+		}
 
-			if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
-				for c := 0; c < len(jxl.canvas); c++ {
-					canvas, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
-					if err != nil {
-						return nil, err
-					}
-					jxl.canvas[c] = *canvas
-				}
-			}
-			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-				found := false
-				for i := uint32(0); i < 4; i++ {
-					if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
-						found = true
-						break
-					}
-				}
+		if header.Encoding == frame.VARDCT && jxl.options.RenderVarblocks {
+			panic("VARDCT not implemented yet")
+		}
 
-				if found {
-					canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
-					for _, ib := range jxl.canvas {
-						ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
-						canvas2 = append(canvas2, *ib2)
-					}
-					jxl.canvas = canvas2
-				}
-				err = jxl.blendFrame(jxl.canvas, imgFrame)
+		if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
+			for c := 0; c < len(jxl.canvas); c++ {
+				canvas, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
 				if err != nil {
 					return nil, err
 				}
+				jxl.canvas[c] = *canvas
 			}
-
-			if save && !header.SaveBeforeCT {
-				if header.FrameType == frame.REFERENCE_ONLY {
-					// such frames are not part of the canvas.
-					jxl.reference[header.SaveAsReference] = imgFrame.Buffer
-				} else {
-					jxl.reference[header.SaveAsReference] = jxl.canvas
+		}
+		if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
+			found := false
+			for i := uint32(0); i < 4; i++ {
+				if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
+					found = true
+					break
 				}
 			}
 
-			if header.IsLast && header.Duration == 0 {
-				break
+			if found {
+				canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
+				for _, ib := range jxl.canvas {
+					ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
+					canvas2 = append(canvas2, *ib2)
+				}
+				jxl.canvas = canvas2
+			}
+			err = jxl.blendFrame(jxl.canvas, imgFrame)
+			if err != nil {
+				return nil, err
 			}
 		}
 
-		err = jxl.bitReader.ZeroPadToByte()
-		if err != nil {
-			return nil, err
+		if save && !header.SaveBeforeCT {
+			if header.FrameType == frame.REFERENCE_ONLY {
+				// such frames are not part of the canvas.
+				jxl.reference[header.SaveAsReference] = imgFrame.Buffer
+			} else {
+				jxl.reference[header.SaveAsReference] = jxl.canvas
+			}
 		}
 
-		// TOOD(kpfaulkner) unsure if need to perform similar drain cache functionality here. Don't think we do.
-		if jxl.options.ParseOnly {
-			return nil, nil
+		if header.IsLast && header.Duration == 0 {
+			break
 		}
+	}
 
-		orientation := imageHeader.Orientation
-		orientedCanvas := make([]image2.ImageBuffer, len(jxl.canvas))
-		for i := 0; i < len(orientedCanvas); i++ {
-			orientedCanvas[i], err = jxl.transposeBuffer(jxl.canvas[i], orientation)
-			if err != nil {
-				return nil, err
-			}
-		}
+	err = jxl.bitReader.ZeroPadToByte()
+	if err != nil {
+		return nil, err
+	}
 
-		// generate image and return.
-		img, err := NewJXLImageWithBuffer(orientedCanvas, *imageHeader)
+	// TOOD(kpfaulkner) unsure if need to perform similar drain cache functionality here. Don't think we do.
+	if jxl.options.ParseOnly {
+		return nil, nil
+	}
+
+	orientation := imageHeader.Orientation
+	orientedCanvas := make([]image2.ImageBuffer, len(jxl.canvas))
+	for i := 0; i < len(orientedCanvas); i++ {
+		orientedCanvas[i], err = jxl.transposeBuffer(jxl.canvas[i], orientation)
 		if err != nil {
 			return nil, err
 		}
+	}
 
-		return img, nil
+	// generate image and return.
+	img, err := NewJXLImageWithBuffer(orientedCanvas, *imageHeader)
+	if err != nil {
+		return nil, err
 	}
 
-	return nil, nil
+	return img, nil
 }
 
 // Read signature
@@ -332,6 +299,42 @@ func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 	return nil
 }
 
+// openCodestream moves the reader to the start of the codestream. A codestream that is
+// spread over several partial boxes is put together.
+func (jxl *JXLCodestreamDecoder) openCodestream() error {
+	if len(jxl.boxHeaders) == 1 {
+		_, err := jxl.bitReader.Seek(jxl.boxHeaders[0].Offset, io.SeekStart)
+		return err
+	}
+
+	var codestream []byte
+	for i, box := range jxl.boxHeaders {
+		size := int64(box.BoxSize)
+		if size == 0 && i == len(jxl.boxHeaders)-1 {
+			// extends to the end of the file.
+			end, err := jxl.bitReader.Seek(0, io.SeekEnd)
+			if err != nil {
+				return err
+			}
+			size = end - box.Offset
+		}
+		if _, err := jxl.bitReader.Seek(box.Offset, io.SeekStart); err != nil {
+			return err
+		}
+		// the announced size need not be that of the data.
+		for size > 0 {
+			chunk := make([]byte, min(size, 1<<20))
+			if err := jxl.bitReader.ReadBytesToBuffer(chunk, uint32(len(chunk))); err != nil {
+				return err
+			}
+			codestream = append(codestream, chunk...)
+			size -= int64(len(chunk))
+		}
+	}
+	jxl.bitReader = jxlio.NewBitStreamReader(bytes.NewReader(codestream))
+	return nil
+}
+
 func (jxl *JXLCodestreamDecoder) computePatches(_ *frame.Frame) error {
 
 	// do not support patches yet.
-- 
2.43.0


From e085a8bf7a11bfe24dc93c7a65e450d878d5434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 63/64] fix: announced sizes of sections, tables of contents,
 extensions and colour profiles were allocated before any of their data was
 read

---
 bundle/Extensions.go   | 13 +++++++++----
 bundle/image_header.go |  5 +++--
 frame/Frame.go         | 32 +++++++++++++++++++++-----------
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index c459fcf..c21b571 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -35,16 +35,21 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, (lengths[i]+7)/8)
 		}
 	}
 	for i := 0; i < 64; i++ {
-		for j := 0; j < len(ex.Payloads[i]); j++ {
-			numBits := min(lengths[i]-uint64(j)*8, 8)
+		if (1<<i)&ex.ExtensionsKey == 0 {
+			continue
+		}
+		// the announced length need not be that of the data.
+		size := (lengths[i] + 7) / 8
+		ex.Payloads[i] = make([]byte, 0, min(size, 1<<10))
+		for j := uint64(0); j < size; j++ {
+			numBits := min(lengths[i]-j*8, 8)
 			if bits, err := reader.ReadBits(uint32(numBits)); err != nil {
 				return nil, err
 			} else {
-				ex.Payloads[i][j] = byte(bits)
+				ex.Payloads[i] = append(ex.Payloads[i], byte(bits))
 			}
 		}
 	}
diff --git a/bundle/image_header.go b/bundle/image_header.go
index 09ee6a3..6d0d5c3 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -339,7 +339,8 @@ func ParseImageHeader(reader jxlio.BitReader, level int32) (*ImageHeader, error)
 		if encodedSize > math.MaxUint32 {
 			return nil, errors.New("Invalid encoded Size")
 		}
-		header.EncodedICC = make([]byte, encodedSize)
+		// the announced size need not be that of the data.
+		header.EncodedICC = make([]byte, 0, min(encodedSize, 1<<10))
 		iccDistribution, err := entropy.NewEntropyStreamWithReaderAndNumDists(reader, 41, entropy.ReadClusterMap)
 		if err != nil {
 			return nil, err
@@ -349,7 +350,7 @@ func ParseImageHeader(reader jxlio.BitReader, level int32) (*ImageHeader, error)
 			if err != nil {
 				return nil, err
 			}
-			header.EncodedICC[i] = byte(cc)
+			header.EncodedICC = append(header.EncodedICC, byte(cc))
 		}
 		if !iccDistribution.ValidateFinalState() {
 			return nil, errors.New("ICC Stream")
diff --git a/frame/Frame.go b/frame/Frame.go
index 9855a5b..642fa5c 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -118,12 +118,18 @@ func (f *Frame) ReadFrameHeader() (FrameHeader, error) {
 
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
+	if uint64(f.groupRowStride)*uint64(util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)) > maxGroups {
+		return FrameHeader{}, errors.New("too many groups")
+	}
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
 	f.numLFGroups = f.lfGroupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim<<3)
 
 	return *f.Header, nil
 }
 
+// maxGroups keeps the number of sections, of which there are at most 13 per group, in 32 bits.
+const maxGroups = 1 << 27
+
 func (f *Frame) ReadTOC() error {
 	var tocEntries uint32
 
@@ -160,13 +166,13 @@ func (f *Frame) ReadTOC() error {
 	if err = f.reader.ZeroPadToByte(); err != nil {
 		return err
 	}
-	f.tocLengths = make([]uint32, tocEntries)
+	f.tocLengths = make([]uint32, 0, min(tocEntries, 1<<16))
 
 	for i := 0; i < int(tocEntries); i++ {
 		if tocLengths, err := f.reader.ReadU32(0, 10, 1024, 14, 17408, 22, 4211712, 30); err != nil {
 			return err
 		} else {
-			f.tocLengths[i] = tocLengths
+			f.tocLengths = append(f.tocLengths, tocLengths)
 		}
 	}
 
@@ -184,16 +190,20 @@ func (f *Frame) readBuffer(index int) ([]uint8, error) {
 
 	length := f.tocLengths[index]
 
-	buffer := make([]uint8, length+4)
-	err := f.reader.ReadBytesToBuffer(buffer, length)
-	if err != nil {
-		return nil, err
-	}
-	if len(buffer) < int(length) {
-		return nil, errors.New("unable to read full TOC entry")
+	// the announced length need not be that of the data.
+	const maxChunk = 1 << 20
+	buffer := make([]uint8, min(length, maxChunk)+4)
+	for start := uint32(0); ; {
+		n := min(length-start, maxChunk)
+		if err := f.reader.ReadBytesToBuffer(buffer[start:], n); err != nil {
+			return nil, err
+		}
+		start += n
+		if start == length {
+			return buffer, nil
+		}
+		buffer = append(buffer, make([]uint8, min(length-start, maxChunk))...)
 	}
-
-	return buffer, nil
 }
 
 func ctxFunc(x int64) int {
-- 
2.43.0


From 28fb2059d77bd5b6a07f600f2569f3254c433521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 64/64] fix: frames after one whose only section is longer than
 its data were misread

---
 frame/Frame.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 642fa5c..21081e5 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -494,16 +494,12 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
-	if len(f.tocLengths) != 1 {
-		for i := 0; i < len(f.tocLengths); i++ {
-			buffer, err := f.readBuffer(i)
-			if err != nil {
-				return err
-			}
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
+	for i := 0; i < len(f.tocLengths); i++ {
+		buffer, err := f.readBuffer(i)
+		if err != nil {
+			return err
 		}
-	} else {
-		f.bitreaders[0] = f.reader
+		f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
 	}
 	return nil
 }
-- 
2.43.0

