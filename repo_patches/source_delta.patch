From 12838b58bb83832172fc5779dae2ffc00fc7839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 01/25] fix: reject cursor images too short for a DIB header
 instead of panicking

---
 cursor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..db02db2 100644
--- a/cursor.go
+++ b/cursor.go
@@ -321,6 +321,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From 39eea989abc5cd356e9c574590b5033865a33cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 02/25] fix: reject cursor resources too short for a hot spot
 instead of panicking

---
 cursor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cursor.go b/cursor.go
index db02db2..6ff11a4 100644
--- a/cursor.go
+++ b/cursor.go
@@ -202,6 +202,10 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			// A cursor resource starts with its hot spot
+			return nil, errors.New(errUnknownImageFormat)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
-- 
2.43.0


From 3a105c731bfa2e49068eb7b450f716288bae125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:53 +0000
Subject: [PATCH 03/25] fix: reject executables without a complete optional
 header magic instead of panicking

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 9422d01..d9e07b6 100644
--- a/exe.go
+++ b/exe.go
@@ -631,7 +631,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
-- 
2.43.0


From 0f170498fd37da92f0d0c78f9777da93c653c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 04/25] fix: do not panic on executables with 65535 sections

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index d9e07b6..7e5930a 100644
--- a/exe.go
+++ b/exe.go
@@ -658,7 +658,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d6c48d0fa8595947742d10ad0c2e7fdd970b6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 05/25] fix: refuse to patch executables with a zero alignment
 instead of dividing by zero

---
 exe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.go b/exe.go
index 7e5930a..ed1cf7e 100644
--- a/exe.go
+++ b/exe.go
@@ -285,6 +285,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if err != nil {
 		return nil, err
 	}
+	if pew.h.opt.getFileAlignment() == 0 || pew.h.opt.getSectionAlignment() == 0 {
+		return nil, errors.New(errNotPEImage)
+	}
 
 	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 {
 		switch sigHandling {
-- 
2.43.0


From b8f0005f4cc3e1dd5891f769ba98f24e98c926c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 06/25] fix: do not dereference a missing .reloc section when
 patching

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index ed1cf7e..5588d57 100644
--- a/exe.go
+++ b/exe.go
@@ -377,7 +377,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From fdfb8274847a364763b5100b64f0b107f20d768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 07/25] fix: accept an empty write after an odd number of bytes
 in the checksum writer

---
 pesum.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pesum.go b/pesum.go
index 3aab3f4..6579973 100644
--- a/pesum.go
+++ b/pesum.go
@@ -19,10 +19,13 @@ func (c *peCheckSum) Sum() uint32 {
 //
 // That file must have its CheckSum field set to zero.
 func (c *peCheckSum) Write(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
 	l := uint32(len(p))
 	o := c.size & 1
 	m := (l-o)&^1 + o
-	if o != 0 && l != 0 {
+	if o != 0 {
 		c.sum = add16c(c.sum, uint32(p[0])<<8|c.rem)
 	}
 	for i := o; i < m; i += 2 {
-- 
2.43.0


From 85925e7107c5ab942407f93888157cb9f5da988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:41 +0000
Subject: [PATCH 08/25] fix: refuse to patch executables whose sections extend
 past the end of the file

---
 exe.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exe.go b/exe.go
index 5588d57..fe62992 100644
--- a/exe.go
+++ b/exe.go
@@ -338,6 +338,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 				return errors.New(errRSRCTwice)
 			}
 			pew.rsrcHdr = &pew.h.sections[i]
+			if int64(pew.rsrcHdr.PointerToRawData)+int64(pew.rsrcHdr.SizeOfRawData) > pew.src.fileSize {
+				return io.ErrUnexpectedEOF
+			}
 			pew.src.rsrcEnd = int64(pew.roundRaw(pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData))
 		}
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BASERELOC].VirtualAddress {
@@ -357,6 +360,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+			return io.ErrUnexpectedEOF
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From fdc63afa9b3155d969b3a3379bf7d94d5fc412e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 09/25] fix: check there is room for a section header when
 replacing a .rsrc section that cannot grow

---
 exe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index fe62992..fcdca23 100644
--- a/exe.go
+++ b/exe.go
@@ -313,15 +313,15 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
 
 	pew.updateHeaders()
 
-- 
2.43.0


From e66f019e3934a75e96809a157ca0113076463269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 10/25] fix: refuse to patch executables whose section data
 overlaps their headers

---
 exe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.go b/exe.go
index fcdca23..4775c45 100644
--- a/exe.go
+++ b/exe.go
@@ -319,6 +319,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
+	if int64(pew.src.dataOffset) < pew.h.length {
+		return nil, errors.New(errNotPEImage)
+	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
-- 
2.43.0


From 74af5c549f67316f379508d207b0b6f61356254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 11/25] fix: refuse to patch executables without section data
 instead of writing 4 GB of zeros

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 4775c45..bf255e9 100644
--- a/exe.go
+++ b/exe.go
@@ -319,7 +319,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
-	if int64(pew.src.dataOffset) < pew.h.length {
+	if int64(pew.src.dataOffset) < pew.h.length || pew.src.dataOffset > pew.src.dataEnd {
 		return nil, errors.New(errNotPEImage)
 	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-- 
2.43.0


From 806cbab9c5e06b6c88045e8d47c82aba78deed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 12/25] fix: report seek errors while reading an executable

---
 exe.go | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/exe.go b/exe.go
index bf255e9..d1ea7d8 100644
--- a/exe.go
+++ b/exe.go
@@ -197,9 +197,15 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -226,7 +232,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +261,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -279,7 +291,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -622,7 +637,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -684,18 +702,27 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+	_, err = r.Seek(pos, io.SeekStart)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	return size, nil
 }
-- 
2.43.0


From 1c35136a2e0f6da4b59f5a8cbc4a625005fabdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 13/25] fix: report read errors met while computing the
 checksum, before writing anything

---
 exe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index d1ea7d8..3bf43d3 100644
--- a/exe.go
+++ b/exe.go
@@ -275,7 +275,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
-- 
2.43.0


From 2b898a60f43d674f2e6da5d78ea0f5b8356c008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 14/25] fix: report seek errors on the output

---
 exe.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exe.go b/exe.go
index 3bf43d3..924f6c1 100644
--- a/exe.go
+++ b/exe.go
@@ -590,9 +590,12 @@ func writeBlank(w io.Writer, length int64) error {
 	}
 
 	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
+		_, err := ws.Seek(length-1, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
 		var b [1]byte
-		_, err := w.Write(b[:])
+		_, err = w.Write(b[:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f7684e8e3d4a901702d78ae7e392789f726d8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 15/25] fix: report seek errors in IsSignedEXE

---
 winres.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/winres.go b/winres.go
index dea9174..7caa3cf 100644
--- a/winres.go
+++ b/winres.go
@@ -346,12 +346,21 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
-	exe.Seek(pos, io.SeekStart)
+	_, seekErr := exe.Seek(pos, io.SeekStart)
 	if err != nil {
 		return false, err
 	}
+	if seekErr != nil {
+		return false, seekErr
+	}
 	return len(h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil
 }
-- 
2.43.0


From 0c9c6716149a092f47d52ad200f905fc835b99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 16/25] fix: do not lose languages added to an existing
 resource after the set was walked or written

---
 rsrc.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index daf302f..85481a5 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -244,16 +244,18 @@ func (te *typeEntry) size() int {
 // order orders ids and names following the specification, and saves them in orderedKeys.
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
+	// Order LCIDs in every resource, as languages may change without affecting the order of resources
+	for _, re := range te.resources {
+		re.order()
+	}
+
 	if te.orderedKeys != nil {
 		return
 	}
 
 	te.orderedKeys = make([]Identifier, 0, len(te.resources))
-	for ident, re := range te.resources {
+	for ident := range te.resources {
 		te.orderedKeys = append(te.orderedKeys, ident)
-
-		// Order LCIDs in every resource
-		re.order()
 	}
 
 	// Names in case sensitive ascending order, then IDs in ascending order
-- 
2.43.0


From daa3006b996829581ca7b7bcf83c21d0184c1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 17/25] fix: do not panic on a version string without a value
 at the end of its node

---
 version/binary.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..ef65c10 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,11 +374,12 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
 	if length == 0 {
 		return "", nil
 	}
+
+	data = data[*pos:]
+
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
-- 
2.43.0


From e6767ee1c386b4165c017244f68c0a948cc1fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 18/25] fix: validate strings, ignore null tables and merge
 duplicate languages deterministically when decoding version JSON

---
 version/json.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/version/json.go b/version/json.go
index ca1e1a5..d2ed139 100644
--- a/version/json.go
+++ b/version/json.go
@@ -3,6 +3,7 @@ package version
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 	"time"
 )
@@ -100,11 +101,25 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	}
 
 	vi.lt = make(LangTable)
-	for h, v := range jvi.Info {
+	langs := make([]string, 0, len(jvi.Info))
+	for h := range jvi.Info {
+		langs = append(langs, h)
+	}
+	sort.Strings(langs)
+	for _, h := range langs {
 		var k uint16
 		_, err := fmt.Sscanf(h, "%X", &k)
-		if err == nil {
-			vi.lt[k] = v
+		v := jvi.Info[h]
+		if err != nil || v == nil {
+			continue
+		}
+		if vi.lt[k] == nil {
+			vi.lt[k] = &StringTable{}
+		}
+		for _, key := range v.sortedKeys() {
+			if err := vi.Set(k, key, (*v)[key]); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 1574d3611f188e1592a4540b4eb934d97f7a4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 19/25] fix: leave version info unchanged when Set refuses a
 string

---
 version/version.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/version/version.go b/version/version.go
index 8997ac2..3b2a7a5 100644
--- a/version/version.go
+++ b/version/version.go
@@ -104,9 +104,6 @@ func (vi *Info) Table() LangTable {
 //
 // langID may also be 0 for neutral.
 func (vi *Info) Set(langID uint16, key string, value string) error {
-	if vi.lt == nil {
-		vi.lt = make(LangTable)
-	}
 	if key == "" {
 		return errors.New(errEmptyKey)
 	}
@@ -116,6 +113,9 @@ func (vi *Info) Set(langID uint16, key string, value string) error {
 	if strings.ContainsRune(value, 0) {
 		return errors.New(errValueContainsNUL)
 	}
+	if vi.lt == nil {
+		vi.lt = make(LangTable)
+	}
 	st, ok := vi.lt[langID]
 	if !ok {
 		st = &StringTable{}
-- 
2.43.0


From cc7f2199ea926a29a4448f4661cad43f9ae12f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 20/25] fix: do not panic when asking the main translation of
 an empty table

---
 version/version.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/version/version.go b/version/version.go
index 3b2a7a5..a4a03c2 100644
--- a/version/version.go
+++ b/version/version.go
@@ -355,5 +355,9 @@ func (lt LangTable) GetMainTranslation() StringTable {
 			lang = k
 		}
 	}
-	return *lt[lang]
+	main = lt[lang]
+	if main == nil {
+		return nil
+	}
+	return *main
 }
-- 
2.43.0


From 20ddbf335b8e14c04515db5b633c1e04effe2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 21/25] fix: ignore nil structures when merging translations

---
 version/version.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/version/version.go b/version/version.go
index a4a03c2..44825d3 100644
--- a/version/version.go
+++ b/version/version.go
@@ -209,6 +209,9 @@ func MergeTranslations(translations map[uint16]*Info) *Info {
 	vi.FileVersion = main.FileVersion
 
 	for langID, trans := range translations {
+		if trans == nil {
+			continue
+		}
 		st := trans.lt[langID]
 		if st == nil || len(*st) == 0 {
 			st = trans.lt[LangNeutral]
-- 
2.43.0


From 68842adc2d9b8eb3b92b646f4ba5f5ec36f1da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 22/25] fix: refuse to write resource sections too big for
 their header fields instead of truncating numbers

---
 coff.go   | 13 +++++++++++--
 errors.go |  3 +++
 rsrc.go   | 32 ++++++++++++++++++++++++++------
 winres.go | 16 ++++++++++------
 4 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/coff.go b/coff.go
index 3259c94..f589342 100644
--- a/coff.go
+++ b/coff.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 )
 
 // https://docs.microsoft.com/en-us/windows/win32/debug/pe-format#other-contents-of-the-file
@@ -29,9 +30,17 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	}
 
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
-	section.SizeOfRawData = uint32(r.fullSize())
+	size, err := r.fullSize()
+	if err != nil {
+		return err
+	}
+	numRelocs := r.numDataEntries()
+	if size > math.MaxInt32 || numRelocs > math.MaxUint16 {
+		return errors.New(errSectionTooBig)
+	}
+	section.SizeOfRawData = uint32(size)
 	section.PointerToRelocations = section.PointerToRawData + section.SizeOfRawData
-	section.NumberOfRelocations = uint16(r.numDataEntries())
+	section.NumberOfRelocations = uint16(numRelocs)
 
 	switch arch {
 	case ArchI386:
diff --git a/errors.go b/errors.go
index 7f501c9..a5f0638 100644
--- a/errors.go
+++ b/errors.go
@@ -6,6 +6,7 @@ const (
 	errZeroID          = "ordinal identifier must not be zero"
 	errEmptyName       = "string identifier must not be empty"
 	errNameContainsNUL = "string identifier must not contain NUL char"
+	errNameTooLong     = "string identifier is too long"
 
 	errUnknownArch = "unknown architecture"
 
@@ -23,6 +24,8 @@ const (
 
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
+	errTooManyEntries       = "too many entries in a resource directory"
+	errSectionTooBig        = "resource section is too big"
 
 	errNotPEImage    = "not a valid PE image"
 	errSignedPE      = "cannot modify a signed PE image"
diff --git a/rsrc.go b/rsrc.go
index 85481a5..4ccbe86 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 	"sort"
 	"unicode/utf16"
 )
@@ -29,7 +30,10 @@ type state struct {
 // It returns a slice of addresses for the relocation table.
 // https://docs.microsoft.com/en-us/previous-versions/ms809762(v=msdn.10)#pe-file-resources
 func (rs *ResourceSet) write(w io.Writer) ([]int, error) {
-	s := rs.prepare()
+	s, err := rs.prepare()
+	if err != nil {
+		return nil, err
+	}
 	if err := rs.writeTypeDir(w, s); err != nil {
 		return nil, err
 	}
@@ -75,7 +79,7 @@ func (rs *ResourceSet) order(s *state) {
 
 // prepare calculates the names index offset and content, as this has to be known before writing the resource directory.
 // It also freezes the order of identifiers in the directory, so that subsequent write functions can rely on it.
-func (rs *ResourceSet) prepare() *state {
+func (rs *ResourceSet) prepare() (*state, error) {
 	var (
 		nameSet     = make(map[Name]struct{})
 		typeNameSet = make(map[Name]struct{})
@@ -106,6 +110,9 @@ func (rs *ResourceSet) prepare() *state {
 	for _, n := range names {
 		s.nameOffset[Name(n)] = offset
 		u := utf16.Encode([]rune(n))
+		if len(u) > math.MaxUint16 {
+			return nil, errors.New(errNameTooLong)
+		}
 		s.namesData = append(s.namesData, uint16(len(u)))
 		s.namesData = append(s.namesData, u...)
 		offset += (len(u) + 1) * 2
@@ -114,7 +121,7 @@ func (rs *ResourceSet) prepare() *state {
 	// Names must be padded to align the resource data.
 	sz := len(s.namesData) * 2
 	s.namesData = append(s.namesData, make([]uint16, (alignData(sz)-sz)/2)...)
-	return s
+	return s, nil
 }
 
 // writeTypeDir is where we write the resource type directory (1st level: type)
@@ -194,8 +201,11 @@ func (rs *ResourceSet) writeData(w io.Writer, s *state) error {
 }
 
 // fullSize returns the full size of the rsrc section's content: the directory, the names, and the actual data.
-func (rs *ResourceSet) fullSize() int {
-	s := rs.prepare()
+func (rs *ResourceSet) fullSize() (int, error) {
+	s, err := rs.prepare()
+	if err != nil {
+		return 0, err
+	}
 	sz := rs.dirSize() + len(s.namesData)*2
 	for _, te := range rs.types {
 		for _, re := range te.resources {
@@ -204,7 +214,7 @@ func (rs *ResourceSet) fullSize() int {
 			}
 		}
 	}
-	return sz
+	return sz, nil
 }
 
 // dirSize returns the size of the rsrc section's directory.
@@ -382,6 +392,9 @@ type resourceDirectoryTable struct {
 const sizeOfDirTable = 16
 
 func writeDirectoryTable(w io.Writer, numNameEntries int, numIDEntries int) error {
+	if numNameEntries > math.MaxUint16 || numIDEntries > math.MaxUint16 {
+		return errors.New(errTooManyEntries)
+	}
 	return binary.Write(w, binary.LittleEndian, resourceDirectoryTable{
 		NumberOfNameEntries: uint16(numNameEntries),
 		NumberOfIDEntries:   uint16(numIDEntries),
@@ -399,6 +412,10 @@ const subdirectoryOffset = 0x80000000
 const nameOffset = 0x80000000
 
 func writeDirectoryEntry(w io.Writer, id int, offset int, isName bool, isSubDir bool) error {
+	// The most significant bit is used as a flag
+	if id > math.MaxInt32 || offset > math.MaxInt32 {
+		return errors.New(errSectionTooBig)
+	}
 	e := resourceDirectoryIDEntry{
 		ID:     uint32(id),
 		Offset: uint32(offset),
@@ -422,6 +439,9 @@ type resourceDataEntry struct {
 const sizeOfDataEntry = 16
 
 func writeDataEntry(w io.Writer, offset int, dataSize int) error {
+	if offset > math.MaxInt32 || dataSize > math.MaxInt32 {
+		return errors.New(errSectionTooBig)
+	}
 	return binary.Write(w, binary.LittleEndian, resourceDataEntry{
 		DataRVA:  uint32(offset),
 		Size:     uint32(dataSize),
diff --git a/winres.go b/winres.go
index 7caa3cf..f960fcc 100644
--- a/winres.go
+++ b/winres.go
@@ -316,12 +316,13 @@ func loadFromEXE(exe io.ReadSeeker, typeID Identifier) (*ResourceSet, error) {
 	return rs, nil
 }
 
-func (rs *ResourceSet) bytes() ([]byte, []int) {
+func (rs *ResourceSet) bytes() ([]byte, []int, error) {
 	buf := bytes.Buffer{}
-	// ResourceSet.write may only fail on io.Write() calls.
-	// bytes.Buffer.Write never returns an error.
-	reloc, _ := rs.write(&buf)
-	return buf.Bytes(), reloc
+	reloc, err := rs.write(&buf)
+	if err != nil {
+		return nil, nil, err
+	}
+	return buf.Bytes(), reloc, nil
 }
 
 // WriteToEXE patches an executable to replace its resources with this ResourceSet.
@@ -336,7 +337,10 @@ func (rs *ResourceSet) bytes() ([]byte, []int) {
 //  WithAuthenticode(<how>) // Allows updating the .rsrc section despite the file being signed
 //
 func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOption) error {
-	data, reloc := rs.bytes()
+	data, reloc, err := rs.bytes()
+	if err != nil {
+		return err
+	}
 	options := exeOptions{}
 	for _, o := range opt {
 		o(&options)
-- 
2.43.0


From 5b519eb19d364990977cd5fc65d5cc82e6c235e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:26 +0000
Subject: [PATCH 23/25] fix: refuse to save icon and cursor files with too many
 images, and describe the actual image lengths

---
 cursor.go |  8 ++++++++
 errors.go |  1 +
 icon.go   | 12 +++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 6ff11a4..bcbf9f6 100644
--- a/cursor.go
+++ b/cursor.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"image"
 	"io"
+	"math"
 	"sort"
 
 	"golang.org/x/image/bmp"
@@ -102,6 +103,10 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 
 // SaveCUR saves a cursor as a CUR file.
 func (cursor *Cursor) SaveCUR(ico io.Writer) error {
+	if len(cursor.images) > math.MaxUint16 {
+		return errors.New(errFileTooBig)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &cursorDirHeader{
 		Type:  2,
 		Count: uint16(len(cursor.images)),
@@ -117,6 +122,9 @@ func (cursor *Cursor) SaveCUR(ico io.Writer) error {
 
 	cursor.order()
 	for i := range cursor.images {
+		if int64(offset)+int64(len(cursor.images[i].image)) > math.MaxUint32 {
+			return errors.New(errFileTooBig)
+		}
 		err = binary.Write(ico, binary.LittleEndian, &cursorFileDirEntry{
 			Width:       uint8(cursor.images[i].info.Width),
 			Height:      uint8(cursor.images[i].info.Height),
diff --git a/errors.go b/errors.go
index a5f0638..7be587e 100644
--- a/errors.go
+++ b/errors.go
@@ -21,6 +21,7 @@ const (
 	errImageTooBig            = "image size too big, must fit in 256x256"
 	errNotCUR                 = "not a valid CUR file"
 	errUnknownImageFormat     = "unknown image format"
+	errFileTooBig             = "too many or too big images"
 
 	errInvalidResDir        = "invalid resource directory"
 	errDataEntryOutOfBounds = "data entry out of bounds"
diff --git a/icon.go b/icon.go
index fb634d3..4a0604f 100644
--- a/icon.go
+++ b/icon.go
@@ -9,6 +9,7 @@ import (
 	"image/color"
 	"image/png"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/nfnt/resize"
@@ -100,6 +101,10 @@ func LoadICO(ico io.ReadSeeker) (*Icon, error) {
 
 // SaveICO saves an icon as an ICO file.
 func (icon *Icon) SaveICO(ico io.Writer) error {
+	if len(icon.images) > math.MaxUint16 {
+		return errors.New(errFileTooBig)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
 		Type:  1,
 		Count: uint16(len(icon.images)),
@@ -116,8 +121,13 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		if int64(offset)+int64(len(icon.images[i].image)) > math.MaxUint32 {
+			return errors.New(errFileTooBig)
+		}
+		info := icon.images[i].info
+		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
-- 
2.43.0


From ca069e9321b53026a6d406e97d07f6a7c04ecee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 24/25] fix: refuse to patch executables whose addresses or
 file offsets would overflow

---
 exe.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index 924f6c1..8215e14 100644
--- a/exe.go
+++ b/exe.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 	"os"
 )
 
@@ -307,6 +308,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, errors.New(errNotPEImage)
 	}
 
+	if int64(len(rsrcData)) > math.MaxInt32 {
+		return nil, errors.New(errSectionTooBig)
+	}
+
 	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 {
 		switch sigHandling {
 		case RemoveSignature:
@@ -331,13 +336,19 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
+	// Every address and offset in the patched image must fit in 32 bits
+	if int64(pew.src.dataEnd)+int64(len(rsrcData))+2*int64(pew.h.opt.getFileAlignment()) > math.MaxUint32 ||
+		int64(pew.src.virtEnd)+int64(len(rsrcData))+2*int64(pew.h.opt.getSectionAlignment()) > math.MaxUint32 {
+		return nil, errors.New(errSectionTooBig)
+	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
-	if int64(pew.src.dataOffset) < pew.h.length || pew.src.dataOffset > pew.src.dataEnd {
+	if int64(pew.src.dataOffset) < pew.h.length || pew.src.dataOffset > pew.src.dataEnd ||
+		pew.rsrcHdr != nil && pew.rsrcHdr.PointerToRawData < pew.src.dataOffset {
 		return nil, errors.New(errNotPEImage)
 	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
@@ -359,7 +370,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 				return errors.New(errRSRCTwice)
 			}
 			pew.rsrcHdr = &pew.h.sections[i]
-			if int64(pew.rsrcHdr.PointerToRawData)+int64(pew.rsrcHdr.SizeOfRawData) > pew.src.fileSize {
+			end := int64(pew.rsrcHdr.PointerToRawData) + int64(pew.rsrcHdr.SizeOfRawData)
+			if end > pew.src.fileSize || end > math.MaxInt32 {
 				return io.ErrUnexpectedEOF
 			}
 			pew.src.rsrcEnd = int64(pew.roundRaw(pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData))
@@ -373,6 +385,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
+		if int64(pew.h.sections[i].VirtualAddress)+int64(pew.h.sections[i].VirtualSize) > math.MaxInt32 {
+			return errors.New(errNotPEImage)
+		}
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
@@ -381,7 +396,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
-		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+		end := int64(pew.h.sections[i].PointerToRawData) + int64(pew.h.sections[i].SizeOfRawData)
+		if end > pew.src.fileSize || end > math.MaxInt32 {
 			return io.ErrUnexpectedEOF
 		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
-- 
2.43.0


From 63ad4f8fae6fc51efc4164abc7aa7fdcf0fb5cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 25/25] fix: keep data that follows the sections when a new
 .rsrc section is added

---
 exe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exe.go b/exe.go
index 8215e14..58833d8 100644
--- a/exe.go
+++ b/exe.go
@@ -457,6 +457,8 @@ func (pew *peWriter) updateHeaders() {
 		})
 		pew.rsrcHdr = &pew.h.sections[len(pew.h.sections)-1]
 		pew.h.file.NumberOfSections++
+		// Data found after the sections now follows the new section
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 		pew.h.length += sizeOfSectionHeader
 		lastSection = pew.rsrcHdr
 		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
-- 
2.43.0

