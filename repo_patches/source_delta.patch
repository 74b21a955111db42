From bb5e86bb12674dd3df93bf34ea0d6c4b7c5c828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:35 +0000
Subject: [PATCH 01/52] fix: keep the language order up to date when a language
 is added or deleted

Adding or deleting a language of an existing resource after the set had been
walked or written dropped the cached order of that resource without dropping
the one of its type, so the resource vanished from Walk, and WriteObject wrote
a corrupt directory.
---
 winres.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/winres.go b/winres.go
index dea9174..d89b547 100644
--- a/winres.go
+++ b/winres.go
@@ -219,6 +219,7 @@ func (rs *ResourceSet) set(typeID Identifier, resID Identifier, langID uint16, d
 
 	de := re.data[ID(langID)]
 	if de == nil {
+		te.orderedKeys = nil
 		re.orderedKeys = nil
 		de = &dataEntry{}
 		re.data[ID(langID)] = de
@@ -239,6 +240,7 @@ func (rs *ResourceSet) delete(typeID Identifier, resID Identifier, langID uint16
 	}
 
 	delete(re.data, ID(langID))
+	te.orderedKeys = nil
 	re.orderedKeys = nil
 
 	if len(re.data) > 0 {
-- 
2.43.0


From 3d47b80b64d08b1a19b3ce52ba25eff7e0a92732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 02/52] fix: refuse resource sets that overflow the resource
 directory

Directory entries, relocations and name lengths are 16 bit counts. They were
truncated silently, and WriteObject and WriteToEXE wrote corrupt directories.
---
 coff.go   |  8 ++++++++
 errors.go |  3 +++
 rsrc.go   | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 winres.go |  3 +++
 4 files changed, 67 insertions(+)

diff --git a/coff.go b/coff.go
index 3259c94..9187b8d 100644
--- a/coff.go
+++ b/coff.go
@@ -17,6 +17,14 @@ const (
 const sizeOfReloc = 10
 
 func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
+	if err := r.checkLimits(); err != nil {
+		return err
+	}
+	// The number of relocations is a 16 bit integer too
+	if r.numDataEntries() > maxDirEntries {
+		return errors.New(errTooManyResources)
+	}
+
 	file := pe.FileHeader{
 		Machine:          pe.IMAGE_FILE_MACHINE_UNKNOWN,
 		NumberOfSections: 1,
diff --git a/errors.go b/errors.go
index 7f501c9..a7d26d7 100644
--- a/errors.go
+++ b/errors.go
@@ -9,6 +9,9 @@ const (
 
 	errUnknownArch = "unknown architecture"
 
+	errNameTooLong      = "string identifier is too long"
+	errTooManyResources = "too many resources"
+
 	errNotICO                 = "not a valid ICO file"
 	errImageLengthTooBig      = "image size found in ICONDIRENTRY is too big (above 10 MB)"
 	errTooManyIconSizes       = "too many sizes"
diff --git a/rsrc.go b/rsrc.go
index daf302f..b787524 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -230,6 +230,53 @@ func (rs *ResourceSet) numDataEntries() int {
 	return n
 }
 
+// checkLimits returns an error if a directory of the set, or a name, is too big to be written.
+func (rs *ResourceSet) checkLimits() error {
+	if err := checkDirLimits(len(rs.types), func(f func(Identifier)) {
+		for ident := range rs.types {
+			f(ident)
+		}
+	}); err != nil {
+		return err
+	}
+	for _, te := range rs.types {
+		if err := checkDirLimits(len(te.resources), func(f func(Identifier)) {
+			for ident := range te.resources {
+				f(ident)
+			}
+		}); err != nil {
+			return err
+		}
+		for _, re := range te.resources {
+			if len(re.data) > maxDirEntries {
+				return errors.New(errTooManyResources)
+			}
+		}
+	}
+	return nil
+}
+
+// checkDirLimits checks the identifiers of one directory table, where names and IDs are counted separately.
+func checkDirLimits(length int, each func(func(Identifier))) error {
+	var (
+		names   int
+		tooLong bool
+	)
+	each(func(ident Identifier) {
+		if name, ok := ident.(Name); ok {
+			names++
+			tooLong = tooLong || len(name) > maxNameLength && len(utf16.Encode([]rune(name))) > maxNameLength
+		}
+	})
+	if tooLong {
+		return errors.New(errNameTooLong)
+	}
+	if names > maxDirEntries || length-names > maxDirEntries {
+		return errors.New(errTooManyResources)
+	}
+	return nil
+}
+
 type typeEntry struct {
 	resources   map[Identifier]*resourceEntry
 	orderedKeys []Identifier
@@ -379,6 +426,12 @@ type resourceDirectoryTable struct {
 
 const sizeOfDirTable = 16
 
+// Entries of a directory table and characters of a name are counted with 16 bits.
+const (
+	maxDirEntries = 0xFFFF
+	maxNameLength = 0xFFFF
+)
+
 func writeDirectoryTable(w io.Writer, numNameEntries int, numIDEntries int) error {
 	return binary.Write(w, binary.LittleEndian, resourceDirectoryTable{
 		NumberOfNameEntries: uint16(numNameEntries),
diff --git a/winres.go b/winres.go
index d89b547..cd0ac89 100644
--- a/winres.go
+++ b/winres.go
@@ -338,6 +338,9 @@ func (rs *ResourceSet) bytes() ([]byte, []int) {
 //  WithAuthenticode(<how>) // Allows updating the .rsrc section despite the file being signed
 //
 func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOption) error {
+	if err := rs.checkLimits(); err != nil {
+		return err
+	}
 	data, reloc := rs.bytes()
 	options := exeOptions{}
 	for _, o := range opt {
-- 
2.43.0


From 7ccd85a15af5388ec167fe54c3b64224c58edb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 03/52] fix: read directories of more than 65535 entries

The sum of the number of names and the number of IDs overflowed.
---
 rsrc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index b787524..35ffe27 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -556,7 +556,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7689495f79d6aad0a49416c3ebc736045b8f8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 04/52] fix: do not crash when sections follow .rsrc and there
 is no .reloc

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 9422d01..e168fb9 100644
--- a/exe.go
+++ b/exe.go
@@ -374,7 +374,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From 10f4fb855129ccd45be5b389e5b63df2f8b7e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 05/52] fix: refuse to patch an executable that has no section
 data

It wrote up to 4 GB of zeros.
---
 errors.go | 1 +
 exe.go    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/errors.go b/errors.go
index a7d26d7..3dd257e 100644
--- a/errors.go
+++ b/errors.go
@@ -33,6 +33,7 @@ const (
 	errNoRSRC        = "image doesn't have a resource directory" // This is when the data directory entry is zero
 	errRSRCNotFound  = "resource section not found"              // This is when the data directory entry is not zero
 	errSectionTooFar = "invalid section header points too far"
+	errNoSectionData = "image doesn't have any section data"
 	errNoRoomForRSRC = "not enough room to add .rsrc section header"
 	errRSRCTwice     = "found resource section twice"
 	errRelocTwice    = "found reloc section twice"
diff --git a/exe.go b/exe.go
index e168fb9..6e5fc54 100644
--- a/exe.go
+++ b/exe.go
@@ -310,6 +310,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
+	if pew.src.fileSize < int64(pew.src.dataOffset) {
+		// No section has any data
+		return nil, errors.New(errNoSectionData)
+	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
-- 
2.43.0


From 46f93f61d921629d60bc93e67bf57d67a54aa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 06/52] fix: do not move sections that follow .rsrc when its
 virtual size changes

When the new resources fit the existing section, which is not the last one,
sections after it moved in memory if its virtual size was not rounded to the
same number of pages as its raw size.
---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 6e5fc54..1e12d97 100644
--- a/exe.go
+++ b/exe.go
@@ -384,7 +384,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From 55cc3bc232f853e03a846d44048a7bed72825243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 07/52] fix: keep what follows the last section when adding a
 .rsrc section

When the executable had no .rsrc section, data appended after its last section
was lost. When its .rsrc section was abandoned, every section after it was
written a second time at the end of the file.
---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 1e12d97..98aa1a2 100644
--- a/exe.go
+++ b/exe.go
@@ -323,6 +323,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
+	if pew.rsrcHdr == nil {
+		// The new section will be inserted after the data of all the other ones
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 
 	pew.updateHeaders()
 
-- 
2.43.0


From f535110f53a9b95a25aca8b28cf0617698d582aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 08/52] fix: ignore the file offset of sections that have no
 data

Such a section usually has a file offset of zero, and the whole patched file
was corrupt.
---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 98aa1a2..b30b9ed 100644
--- a/exe.go
+++ b/exe.go
@@ -362,6 +362,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if pew.h.sections[i].SizeOfRawData == 0 {
+			// The file offset of an empty section is meaningless, and usually zero.
+			continue
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From 9127175c8f8f9dfa8413fce8a0868e409b63de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 09/52] fix: update file offsets of the signature and of the
 symbol table

The offset of the COFF symbol table was never updated, so the symbols of an
executable were lost. The offset of the signature was wrong when the last
section in memory was not the last one in the file (a .bss section, notably).
---
 exe.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index b30b9ed..64de9f9 100644
--- a/exe.go
+++ b/exe.go
@@ -447,8 +447,13 @@ func (pew *peWriter) updateHeaders() {
 		}
 	}
 
+	// Everything that follows the .rsrc section is shifted in the file
+	rawShift := pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - uint32(pew.src.rsrcEnd)
 	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += rawShift
+	}
+	if int64(pew.h.file.PointerToSymbolTable) >= pew.src.rsrcEnd {
+		pew.h.file.PointerToSymbolTable += rawShift
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From f99ad4c7d757824adfe23162cb6915c2c6297965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 10/52] fix: check there is room for a section header when
 abandoning .rsrc

The new section header overwrote the beginning of the first section.
---
 exe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.go b/exe.go
index 64de9f9..9e35d29 100644
--- a/exe.go
+++ b/exe.go
@@ -319,6 +319,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	}
 
 	if pew.requiresNewSection() {
+		if int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF {
+			return nil, errors.New(errNoRoomForRSRC)
+		}
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
-- 
2.43.0


From e8f59ab24ce1393ce5245d0dbff9dd9e1a049ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 11/52] fix: write zeros instead of seeking in the destination

When the destination is a file that already has content, seeking over the blank left the old content in place.
Furthermore, errors were ignored, and some seekable types cannot seek (pipes, files opened for appending).
---
 exe.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/exe.go b/exe.go
index 9e35d29..32d5da3 100644
--- a/exe.go
+++ b/exe.go
@@ -580,16 +580,6 @@ func writeBlank(w io.Writer, length int64) error {
 		return nil
 	}
 
-	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
-			return err
-		}
-		return nil
-	}
-
 	const bufLen = 0x100
 	var b [bufLen]byte
 	for length > 0 {
-- 
2.43.0


From 54ab6e3b78e1dda40b94eabc5550901d8c1ec293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 12/52] fix: report read errors that occur while computing the
 checksum

---
 exe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 32d5da3..c771d49 100644
--- a/exe.go
+++ b/exe.go
@@ -263,7 +263,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
-- 
2.43.0


From 00ff945c7eaa944aef1913dbf791e00085d80a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 13/52] fix: report errors of seek operations

---
 exe.go    | 50 +++++++++++++++++++++++++++++++++++++-------------
 winres.go | 15 ++++++++++++---
 2 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/exe.go b/exe.go
index c771d49..df1a94c 100644
--- a/exe.go
+++ b/exe.go
@@ -197,9 +197,15 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -226,7 +232,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +261,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -282,7 +294,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -624,7 +639,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -686,18 +704,24 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	_, err = r.Seek(pos, io.SeekStart)
+	return size, err
 }
diff --git a/winres.go b/winres.go
index cd0ac89..e9b85a8 100644
--- a/winres.go
+++ b/winres.go
@@ -351,12 +351,21 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
-	exe.Seek(pos, io.SeekStart)
+	_, seekErr := exe.Seek(pos, io.SeekStart)
 	if err != nil {
 		return false, err
 	}
+	if seekErr != nil {
+		return false, seekErr
+	}
 	return len(h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0, nil
 }
-- 
2.43.0


From 76abe5ff3313a82f2575746e0f06b71819a8c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 14/52] fix: do not crash when the optional header is empty

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index df1a94c..efe748e 100644
--- a/exe.go
+++ b/exe.go
@@ -663,7 +663,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
-- 
2.43.0


From 5f5d092fda17c59623d79d9b6b09790406806716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 15/52] fix: do not crash when there are 65535 sections

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index efe748e..8b5542c 100644
--- a/exe.go
+++ b/exe.go
@@ -690,7 +690,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 96cc9cd4974836d63111af14a1b420593eec640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 16/52] fix: do not crash when an alignment is zero

---
 errors.go | 1 +
 exe.go    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/errors.go b/errors.go
index 3dd257e..50dea20 100644
--- a/errors.go
+++ b/errors.go
@@ -30,6 +30,7 @@ const (
 	errNotPEImage    = "not a valid PE image"
 	errSignedPE      = "cannot modify a signed PE image"
 	errUnknownPE     = "unknown PE format"
+	errBadAlignment  = "invalid section or file alignment"
 	errNoRSRC        = "image doesn't have a resource directory" // This is when the data directory entry is zero
 	errRSRCNotFound  = "resource section not found"              // This is when the data directory entry is not zero
 	errSectionTooFar = "invalid section header points too far"
diff --git a/exe.go b/exe.go
index 8b5542c..c20bdde 100644
--- a/exe.go
+++ b/exe.go
@@ -304,6 +304,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
+	if pew.h.opt.getFileAlignment() == 0 || pew.h.opt.getSectionAlignment() == 0 {
+		return nil, errors.New(errBadAlignment)
+	}
+
 	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 {
 		switch sigHandling {
 		case RemoveSignature:
-- 
2.43.0


From 4b9e4c004b76b33abffd9c895e6bfb1e2bdcb9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 17/52] fix: refuse resource identifiers that do not fit in 16
 bits

---
 rsrc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsrc.go b/rsrc.go
index 35ffe27..c454c6a 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -572,6 +572,9 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		}
 		entries[i].offset = int64(dir[i].Offset &^ subdirectoryOffset)
 		if dir[i].ID&nameOffset == 0 {
+			if dir[i].ID > 0xFFFF {
+				return nil, errors.New(errInvalidResDir)
+			}
 			entries[i].ident = ID(dir[i].ID)
 		} else {
 			entries[i].ident, err = readName(section, dir[i].ID&^nameOffset)
-- 
2.43.0


From 39854754b9e0e31ce74bde8389c1da9ba5fcce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 18/52] fix: refuse sections that are out of the file, even
 when their end overflows 32 bits

---
 exe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index c20bdde..21e4866 100644
--- a/exe.go
+++ b/exe.go
@@ -329,9 +329,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.src.fileSize < int64(pew.src.dataEnd) {
-		return nil, io.ErrUnexpectedEOF
-	}
 	if pew.src.fileSize < int64(pew.src.dataOffset) {
 		// No section has any data
 		return nil, errors.New(errNoSectionData)
@@ -391,6 +388,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// The file offset of an empty section is meaningless, and usually zero.
 			continue
 		}
+		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+			return io.ErrUnexpectedEOF
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From 37cd47b1f062e9ed31194dfeb2168efe951d87a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 19/52] fix: refuse executables whose headers overlap section
 data

Writing them shifted everything that follows the headers.
---
 errors.go | 1 +
 exe.go    | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/errors.go b/errors.go
index 50dea20..dc250d6 100644
--- a/errors.go
+++ b/errors.go
@@ -34,6 +34,7 @@ const (
 	errNoRSRC        = "image doesn't have a resource directory" // This is when the data directory entry is zero
 	errRSRCNotFound  = "resource section not found"              // This is when the data directory entry is not zero
 	errSectionTooFar = "invalid section header points too far"
+	errDataInHeaders = "section data overlaps headers"
 	errNoSectionData = "image doesn't have any section data"
 	errNoRoomForRSRC = "not enough room to add .rsrc section header"
 	errRSRCTwice     = "found resource section twice"
diff --git a/exe.go b/exe.go
index 21e4866..d8009aa 100644
--- a/exe.go
+++ b/exe.go
@@ -333,6 +333,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		// No section has any data
 		return nil, errors.New(errNoSectionData)
 	}
+	if int64(pew.src.dataOffset) < pew.h.length {
+		return nil, errors.New(errDataInHeaders)
+	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
-- 
2.43.0


From e58b3c6e804b6c24d80a87733b9687a5a353b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 20/52] fix: refuse file alignments above 64K

A corrupt alignment made gigabytes of padding.
---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index d8009aa..d12ec64 100644
--- a/exe.go
+++ b/exe.go
@@ -304,7 +304,8 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.h.opt.getFileAlignment() == 0 || pew.h.opt.getSectionAlignment() == 0 {
+	// Specification: FileAlignment should be a power of 2 between 512 and 64K
+	if pew.h.opt.getFileAlignment() == 0 || pew.h.opt.getFileAlignment() > 0x10000 || pew.h.opt.getSectionAlignment() == 0 {
 		return nil, errors.New(errBadAlignment)
 	}
 
-- 
2.43.0


From ce808396f6fdc3e9cbf076bd0fa7a8ba3e298b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 21/52] fix: refuse executables whose resource section has no
 data

Its file offset being meaningless, the output was corrupt, and possibly huge.
---
 errors.go | 1 +
 exe.go    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/errors.go b/errors.go
index dc250d6..5df4b48 100644
--- a/errors.go
+++ b/errors.go
@@ -37,6 +37,7 @@ const (
 	errDataInHeaders = "section data overlaps headers"
 	errNoSectionData = "image doesn't have any section data"
 	errNoRoomForRSRC = "not enough room to add .rsrc section header"
+	errInvalidRSRC   = "invalid resource section"
 	errRSRCTwice     = "found resource section twice"
 	errRelocTwice    = "found reloc section twice"
 
diff --git a/exe.go b/exe.go
index d12ec64..0eed435 100644
--- a/exe.go
+++ b/exe.go
@@ -337,6 +337,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if int64(pew.src.dataOffset) < pew.h.length {
 		return nil, errors.New(errDataInHeaders)
 	}
+	if pew.rsrcHdr != nil && (pew.rsrcHdr.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 ||
+		pew.rsrcHdr.PointerToRawData < pew.src.dataOffset || pew.rsrcHdr.PointerToRawData > pew.src.dataEnd) {
+		return nil, errors.New(errInvalidRSRC)
+	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
-- 
2.43.0


From 5334d5e51df7a625866971826ea5b806d7581427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 22/52] fix: do not crash when a cursor image is shorter than
 its header

---
 cursor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..db02db2 100644
--- a/cursor.go
+++ b/cursor.go
@@ -321,6 +321,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From c21700164442d4a867dd535cc6b82780b3fc93db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 23/52] fix: do not crash when a cursor resource has no hot
 spot

---
 cursor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cursor.go b/cursor.go
index db02db2..13d48d1 100644
--- a/cursor.go
+++ b/cursor.go
@@ -202,6 +202,10 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			// The hot spot is missing
+			return nil, errors.New(errInvalidGroup)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
-- 
2.43.0


From db2b313e570265f8721cd589559f2eb9094ce6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 24/52] fix: declare the true size of icon images, even when
 the source was wrong

---
 icon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index fb634d3..175c0b0 100644
--- a/icon.go
+++ b/icon.go
@@ -116,8 +116,10 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		info := icon.images[i].info
+		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
@@ -166,6 +168,7 @@ func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon
 
 	for _, img := range icon.images {
 		id := rs.lastIconID + 1
+		img.info.BytesInRes = uint32(len(img.image))
 
 		binary.Write(b, binary.LittleEndian, iconResDirEntry{
 			iconInfo: img.info,
-- 
2.43.0


From 23779983524203c34d921f9811462c47610d6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 25/52] fix: declare the true size of cursor resources,
 including the hot spot

---
 cursor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cursor.go b/cursor.go
index 13d48d1..6fec523 100644
--- a/cursor.go
+++ b/cursor.go
@@ -159,13 +159,15 @@ func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cur
 	cursor.order()
 	for _, img := range cursor.images {
 		id := rs.lastCursorID + 1
+		data := img.resData()
+		img.info.BytesInRes = uint32(len(data))
 
 		binary.Write(b, binary.LittleEndian, cursorResDirEntry{
 			cursorInfo: img.info,
 			Id:         id,
 		})
 
-		if err := rs.Set(RT_CURSOR, ID(id), LCIDNeutral, img.resData()); err != nil {
+		if err := rs.Set(RT_CURSOR, ID(id), LCIDNeutral, data); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 57e9981ba84771eb33e88cef2adc502aef5ca245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 26/52] fix: encode opaque cursor images with 32 bits per
 pixel, as declared

---
 cursor.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/cursor.go b/cursor.go
index 6fec523..f2acb9f 100644
--- a/cursor.go
+++ b/cursor.go
@@ -293,6 +293,10 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	dib := buf.Bytes()[14:]
 
 	width, height := curImg.Bounds().Size().X, curImg.Bounds().Size().Y
+	if dib[14] == 24 {
+		// The image is fully opaque: bmp.Encode dropped the alpha channel.
+		dib = dib24To32(dib, width, height)
+	}
 	// Height must be doubled in the DIB header, as if there was an AND mask for transparency.
 	// In a 32 bits DIB, the mask can be the alpha channel, therefore there is no AND mask.
 	dib[8] = byte(height << 1)
@@ -313,6 +317,26 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	return nil
 }
 
+// dib24To32 adds a fully opaque alpha channel to a 24bpp DIB.
+func dib24To32(dib []byte, width, height int) []byte {
+	const sizeOfBitmapInfoHeader = 40
+
+	out := make([]byte, sizeOfBitmapInfoHeader, sizeOfBitmapInfoHeader+4*width*height)
+	copy(out, dib)
+	binary.LittleEndian.PutUint16(out[14:], 32)
+	binary.LittleEndian.PutUint32(out[20:], uint32(4*width*height))
+
+	stride := (3*width + 3) &^ 3
+	for y := 0; y < height; y++ {
+		row := dib[sizeOfBitmapInfoHeader+y*stride:]
+		for x := 0; x < width; x++ {
+			out = append(out, row[3*x], row[3*x+1], row[3*x+2], 0xFF)
+		}
+	}
+
+	return out
+}
+
 func (cursor *Cursor) order() {
 	sort.SliceStable(cursor.images, func(i, j int) bool {
 		img1, img2 := &cursor.images[i].info, &cursor.images[j].info
-- 
2.43.0


From 842967555d14c4492f6d33d3882fb98179cc3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 27/52] fix: keep the transparency of square cursor images of
 any type

---
 icon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/icon.go b/icon.go
index 175c0b0..52642f1 100644
--- a/icon.go
+++ b/icon.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"image"
-	"image/color"
 	"image/png"
 	"io"
 	"sort"
@@ -330,7 +329,7 @@ func resizeImage(img image.Image, size int) image.Image {
 
 func imageInSquareNRGBA(img image.Image, center bool) image.Image {
 	w, h := img.Bounds().Size().X, img.Bounds().Size().Y
-	if w == h && img.ColorModel() == color.NRGBAModel {
+	if _, ok := img.(*image.NRGBA); ok && w == h {
 		return img
 	}
 
-- 
2.43.0


From aed0f252517a27d1f806f83cb64b055d54a9d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 28/52] fix: refuse icon sizes that are not between 1 and 256
 before resizing

---
 icon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/icon.go b/icon.go
index 52642f1..1cd96ad 100644
--- a/icon.go
+++ b/icon.go
@@ -51,6 +51,12 @@ func NewIconFromResizedImage(img image.Image, sizes []int) (*Icon, error) {
 
 	icon := Icon{}
 	for _, s := range sizes {
+		if s < 1 {
+			return nil, errors.New(errInvalidImageDimensions)
+		}
+		if s > 256 {
+			return nil, errors.New(errImageTooBig)
+		}
 		if err := icon.addImage(resizeImage(img, s)); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 47ec69bc2b81bd54b806bc8b16626b260680aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 29/52] fix: keep at least one pixel when resizing very thin
 images

---
 icon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/icon.go b/icon.go
index 1cd96ad..cbbe0d0 100644
--- a/icon.go
+++ b/icon.go
@@ -324,10 +324,17 @@ func resizeImage(img image.Image, size int) image.Image {
 		w, h = size, size
 	)
 
+	// Zero means: keep the ratio. But a very thin image must not become empty.
 	if sz.X < sz.Y {
 		w = 0
+		if sz.X > 0 && sz.X*size < sz.Y {
+			w = 1
+		}
 	} else if sz.X > sz.Y {
 		h = 0
+		if sz.Y > 0 && sz.Y*size < sz.X {
+			h = 1
+		}
 	}
 
 	return resize.Resize(uint(w), uint(h), img, resize.Lanczos2)
-- 
2.43.0


From f84641f26063202332d5347a1f6188475250e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:13 +0000
Subject: [PATCH 30/52] fix: convert version time stamps before 1678 and after
 2262

Nanoseconds since 1970 overflow 64 bits outside these years.
---
 version/timestamp.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/version/timestamp.go b/version/timestamp.go
index 9b34d00..92a429e 100644
--- a/version/timestamp.go
+++ b/version/timestamp.go
@@ -4,23 +4,28 @@ import "time"
 
 // Conversion of Windows Time Stamp
 
-// Difference Unix epoch in Windows timestamp format.
-const unixEpoch = 0x019DB1DED53E8000
+// Number of seconds between the Windows epoch (1601) and the Unix epoch (1970).
+const unixEpoch = 11644473600
 
 // Windows timestamp is in "hecto-nanoseconds" (100 ns)
 const tsUnitToNano = 100
 
+// Number of Windows timestamp units per second.
+const tsPerSecond = 1e9 / tsUnitToNano
+
 func timeToTimestamp(t time.Time) (uint32, uint32) {
 	if t.IsZero() {
 		return 0, 0
 	}
-	ts := t.UnixNano()/tsUnitToNano + unixEpoch
-	return uint32(uint64(ts) >> 32), uint32(ts)
+	// Nanoseconds since 1970 would not fit in 64 bits after 2262 or before 1678
+	ts := uint64(t.Unix()+unixEpoch)*tsPerSecond + uint64(t.Nanosecond()/tsUnitToNano)
+	return uint32(ts >> 32), uint32(ts)
 }
 
 func timestampToTime(ms uint32, ls uint32) time.Time {
 	if ms == 0 && ls == 0 {
 		return time.Time{}
 	}
-	return time.Unix(0, int64((uint64(ms)<<32|uint64(ls))-unixEpoch)*tsUnitToNano)
+	ts := uint64(ms)<<32 | uint64(ls)
+	return time.Unix(int64(ts/tsPerSecond)-unixEpoch, int64(ts%tsPerSecond)*tsUnitToNano)
 }
-- 
2.43.0


From 5725adfe9ec379b6b85cd9125432babf84b517cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 31/52] fix: do not crash on a version string without value at
 the end of its table

Aligning the position of the absent value may give a position beyond the
end of the node.
---
 version/binary.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..200a812 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -374,11 +374,12 @@ func readString(data []byte, pos *int) (string, error) {
 }
 
 func readStringWithLength(data []byte, pos *int, length int) (string, error) {
-	data = data[*pos:]
-
+	// Without a value, pos may be beyond the end of data because of alignment
 	if length == 0 {
 		return "", nil
 	}
+
+	data = data[*pos:]
 	if length < 0 || length > len(data)/2 {
 		return "", errors.New(errInvalidStringLength)
 	}
-- 
2.43.0


From 5a306c81ac082be8ab2f7fd93989e55351d9aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 32/52] fix: return nil instead of crashing when there is no
 main translation

---
 version/version.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/version/version.go b/version/version.go
index 8997ac2..e3a2b09 100644
--- a/version/version.go
+++ b/version/version.go
@@ -350,10 +350,14 @@ func (lt LangTable) GetMainTranslation() StringTable {
 	}
 
 	var lang uint16 = 0xFFFF
-	for k := range lt {
-		if k < lang {
+	for k, st := range lt {
+		if st != nil && k <= lang {
 			lang = k
+			main = st
 		}
 	}
-	return *lt[lang]
+	if main == nil {
+		return nil
+	}
+	return *main
 }
-- 
2.43.0


From 3c22e203babfc41c442ce2c0c6907369767ff238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 33/52] fix: refuse or skip invalid version strings in JSON

A null language crashed later on, empty keys and NUL characters gave a
corrupt structure, and two spellings of a language overwrote each other
in random order.
---
 version/json.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/version/json.go b/version/json.go
index ca1e1a5..2ca4ded 100644
--- a/version/json.go
+++ b/version/json.go
@@ -3,6 +3,7 @@ package version
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 	"time"
 )
@@ -100,11 +101,28 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 	}
 
 	vi.lt = make(LangTable)
-	for h, v := range jvi.Info {
-		var k uint16
-		_, err := fmt.Sscanf(h, "%X", &k)
-		if err == nil {
-			vi.lt[k] = v
+	langs := make([]string, 0, len(jvi.Info))
+	for h := range jvi.Info {
+		langs = append(langs, h)
+	}
+	// Several spellings may designate the same language
+	sort.Strings(langs)
+	for _, h := range langs {
+		st := jvi.Info[h]
+		if st == nil {
+			continue
+		}
+		var langID uint16
+		if _, err := fmt.Sscanf(h, "%X", &langID); err != nil {
+			continue
+		}
+		if vi.lt[langID] == nil {
+			vi.lt[langID] = &StringTable{}
+		}
+		for k, v := range *st {
+			if err := vi.Set(langID, k, v); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 8ef1c83371f6dbe533a09b138bcbee09f9062fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 34/52] fix: do not mix a version read from JSON with the
 previous one

---
 manifest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/manifest.go b/manifest.go
index 08c037f..3993683 100644
--- a/manifest.go
+++ b/manifest.go
@@ -522,6 +522,7 @@ func (ai *AssemblyIdentity) UnmarshalJSON(b []byte) error {
 	if len(v) > 4 {
 		return errors.New(errInvalidVersion)
 	}
+	ai.Version = [4]uint16{}
 	for i := range v {
 		n, err := strconv.ParseUint(v[i], 10, 16)
 		if err != nil {
-- 
2.43.0


From 864cbb36713d818c126749a3f6ac33d018a54bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 35/52] fix: escape manifest texts as XML instead of HTML

Carriage returns, and line breaks in the name, were changed by XML readers,
and control characters made the manifest invalid.
---
 manifest.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 3993683..2241f9c 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,10 +95,10 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | html}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | xmlattr}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
-  <description>{{.Description | html}}</description>
+  <description>{{.Description | xmltext}}</description>
 {{- end}}
 
   <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
@@ -224,7 +224,7 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Parse(manifestTemplate))
+	tmpl := template.Must(template.New("manifest").Funcs(template.FuncMap{"xmlattr": escapeXMLAttr, "xmltext": escapeXMLText}).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -233,6 +233,21 @@ func makeManifest(manifest AppManifest) []byte {
 	return buf.Bytes()
 }
 
+// escapeXMLAttr escapes an attribute's value so that an XML reader gets it back unchanged, line breaks included.
+//
+// Characters that do not exist in XML are replaced.
+func escapeXMLAttr(s string) (string, error) {
+	buf := &bytes.Buffer{}
+	err := xml.EscapeText(buf, []byte(s))
+	return buf.String(), err
+}
+
+// escapeXMLText does the same for the text of an element, where line feeds need no escaping.
+func escapeXMLText(s string) (string, error) {
+	t, err := escapeXMLAttr(s)
+	return strings.Replace(t, "&#xA;", "\n", -1), err
+}
+
 type appManifestXML struct {
 	Identity struct {
 		Name    string `xml:"name,attr"`
-- 
2.43.0


From 584619ada9602b27f8f9d2fad9c9e60cb60c348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 36/52] fix: recognize operating systems of a manifest in any
 case, ignore unknown ones

They were all taken for Windows 10.
---
 manifest.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/manifest.go b/manifest.go
index 2241f9c..28ffcb5 100644
--- a/manifest.go
+++ b/manifest.go
@@ -324,8 +324,8 @@ func AppManifestFromXML(data []byte) (AppManifest, error) {
 
 	m.Compatibility = Win10AndAbove + 1
 	for _, os := range x.Compatibility.Application.SupportedOS {
-		c := osIDToEnum(os.Id)
-		if c < m.Compatibility {
+		c, ok := osIDToEnum(os.Id)
+		if ok && c < m.Compatibility {
 			m.Compatibility = c
 		}
 	}
@@ -394,18 +394,20 @@ func manifestBool(s string) bool {
 	return manifestString(s) == "true"
 }
 
-func osIDToEnum(osID string) SupportedOS {
-	switch osID {
+func osIDToEnum(osID string) (os SupportedOS, ok bool) {
+	switch manifestString(osID) {
 	case osWinVista:
-		return WinVistaAndAbove
+		return WinVistaAndAbove, true
 	case osWin7:
-		return Win7AndAbove
+		return Win7AndAbove, true
 	case osWin8:
-		return Win8AndAbove
+		return Win8AndAbove, true
 	case osWin81:
-		return Win81AndAbove
+		return Win81AndAbove, true
+	case osWin10:
+		return Win10AndAbove, true
 	}
-	return Win10AndAbove
+	return 0, false
 }
 
 // JSON marshalling:
-- 
2.43.0


From b4a25095e17a97928b49d4b92447e8d87a0ec121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 37/52] fix: sections whose virtual size is zero

The loader then takes the raw size. The end of the image was underestimated, so that a new
.rsrc section overlapped the last section.
---
 exe.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/exe.go b/exe.go
index 0eed435..9c19b2f 100644
--- a/exe.go
+++ b/exe.go
@@ -384,8 +384,8 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 
 	for i := range pew.h.sections {
-		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
-			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
+		if pew.h.sections[i].VirtualAddress+virtualSize(&pew.h.sections[i]) > pew.src.virtEnd {
+			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + virtualSize(&pew.h.sections[i])
 		}
 		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
 			// Exclude sections containing uninitialized data from file offset
@@ -415,18 +415,18 @@ func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
 	}
-	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + pew.rsrcHdr.VirtualSize)
+	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + virtualSize(pew.rsrcHdr))
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
 	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
-		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
+		pew.roundVirt(pew.relocHdr.VirtualAddress+virtualSize(pew.relocHdr)) >= pew.src.virtEnd {
 		return false
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
 	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
-		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(virtualSize(pew.rsrcHdr)) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
@@ -462,7 +462,7 @@ func (pew *peWriter) updateHeaders() {
 		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
 		oldSize = pew.rsrcHdr.SizeOfRawData
-		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(pew.rsrcHdr.VirtualSize)
+		virtDelta = pew.roundVirt(rsrcLen) - pew.roundVirt(virtualSize(pew.rsrcHdr))
 		rawDelta := pew.roundRaw(rsrcLen) - pew.roundRaw(pew.rsrcHdr.SizeOfRawData)
 		pew.rsrcHdr.VirtualSize = rsrcLen
 		pew.rsrcHdr.SizeOfRawData = pew.roundRaw(rsrcLen)
@@ -498,10 +498,18 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	pew.h.opt.setCheckSum(0)
-	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(lastSection.VirtualSize))
+	pew.h.opt.setSizeOfImage(lastSection.VirtualAddress + pew.roundVirt(virtualSize(lastSection)))
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
+// virtualSize returns the size of a section in memory: the loader takes the raw size when the virtual size is zero
+func virtualSize(s *pe.SectionHeader32) uint32 {
+	if s.VirtualSize == 0 {
+		return s.SizeOfRawData
+	}
+	return s.VirtualSize
+}
+
 func (pew *peWriter) roundRaw(p uint32) uint32 {
 	a := pew.h.opt.getFileAlignment()
 	x := p + a - 1
-- 
2.43.0


From 9e3eff80e3397070587e0a3b870aa58666fbb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 38/52] fix: dpiAware "per monitor" was read as unaware

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 28ffcb5..8b06cf9 100644
--- a/manifest.go
+++ b/manifest.go
@@ -380,7 +380,7 @@ func readDPIAwareness(dpiAware string, dpiAwareness string) DPIAwareness {
 	switch manifestString(dpiAware) {
 	case "true":
 		return DPIAware
-	case "true/pm":
+	case "true/pm", "per monitor":
 		return DPIPerMonitor
 	}
 	return DPIUnaware
-- 
2.43.0


From 5e413b2b87eaaea09e988c32abcff6e188dfdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 39/52] fix: patching overwrote other data directories located
 in the .rsrc section

---
 exe.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/exe.go b/exe.go
index 9c19b2f..6cf8927 100644
--- a/exe.go
+++ b/exe.go
@@ -415,6 +415,9 @@ func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
 	}
+	if pew.isRSRCShared() {
+		return true
+	}
 	endOfRSRC := pew.roundVirt(pew.rsrcHdr.VirtualAddress + virtualSize(pew.rsrcHdr))
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
@@ -437,6 +440,18 @@ func (pew *peWriter) requiresNewSection() bool {
 	return true
 }
 
+// isRSRCShared tells if another data directory is inside the .rsrc section: overwriting the section would destroy it.
+func (pew *peWriter) isRSRCShared() bool {
+	for i := range pew.h.dirs {
+		if i != pe.IMAGE_DIRECTORY_ENTRY_RESOURCE && i != pe.IMAGE_DIRECTORY_ENTRY_SECURITY &&
+			pew.h.dirs[i].VirtualAddress >= pew.rsrcHdr.VirtualAddress &&
+			pew.h.dirs[i].VirtualAddress-pew.rsrcHdr.VirtualAddress < virtualSize(pew.rsrcHdr) {
+			return true
+		}
+	}
+	return false
+}
+
 func (pew *peWriter) updateHeaders() {
 	var (
 		rsrcLen     = uint32(len(pew.rsrcData))
-- 
2.43.0


From ab0ec1179c0959c8feb630e7b091ba303f0de1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 40/52] fix: patching erased bound imports, which follow the
 section headers

---
 exe.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/exe.go b/exe.go
index 6cf8927..0ab65f2 100644
--- a/exe.go
+++ b/exe.go
@@ -341,12 +341,12 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr.PointerToRawData < pew.src.dataOffset || pew.rsrcHdr.PointerToRawData > pew.src.dataEnd) {
 		return nil, errors.New(errInvalidRSRC)
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+	if pew.rsrcHdr == nil && !pew.hasRoomForSection() {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
 
 	if pew.requiresNewSection() {
-		if int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF {
+		if !pew.hasRoomForSection() {
 			return nil, errors.New(errNoRoomForRSRC)
 		}
 		// Play it safe, abandon the existing .rsrc section and create a new one.
@@ -363,6 +363,23 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	return &pew, nil
 }
 
+// hasRoomForSection tells if there is enough room to add a section header.
+func (pew *peWriter) hasRoomForSection() bool {
+	end := pew.h.length + sizeOfSectionHeader
+	if int64(pew.src.dataOffset) < end || pew.h.file.NumberOfSections == 0xFFFF {
+		return false
+	}
+	for i := range pew.h.dirs {
+		// Bound imports usually follow the section headers
+		if i != pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[i].VirtualAddress != 0 &&
+			int64(pew.h.dirs[i].VirtualAddress) < end &&
+			int64(pew.h.dirs[i].VirtualAddress)+int64(pew.h.dirs[i].Size) > pew.h.length {
+			return false
+		}
+	}
+	return true
+}
+
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
 	pew.src.rsrcEnd = pew.src.fileSize
@@ -582,21 +599,17 @@ func (pew *peWriter) writeEXE(w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	err = writeBlank(w, int64(pew.src.dataOffset)-pew.h.length)
-	if err != nil {
-		return err
-	}
-	_, err = pew.src.r.Seek(int64(pew.src.dataOffset), io.SeekStart)
+
+	// What follows the headers (it may contain bound imports) and sections before .rsrc
+	_, err = pew.src.r.Seek(pew.h.length, io.SeekStart)
 	if err != nil {
 		return err
 	}
-
-	// Sections before .rsrc
 	end := int64(pew.src.dataEnd)
 	if int64(pew.rsrcHdr.PointerToRawData) < end {
 		end = int64(pew.rsrcHdr.PointerToRawData)
 	}
-	_, err = io.CopyN(w, pew.src.r, end-int64(pew.src.dataOffset))
+	_, err = io.CopyN(w, pew.src.r, end-pew.h.length)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 85a20fded21e84e9415242d7a17ef90db06614ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 41/52] fix: a section header could be added beyond
 SizeOfHeaders

---
 exe.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/exe.go b/exe.go
index 0ab65f2..c1d29b0 100644
--- a/exe.go
+++ b/exe.go
@@ -61,9 +61,11 @@ type peOptionalHeader interface {
 	getFileAlignment() uint32
 	getNumberOfRvaAndSizes() uint32
 	getCheckSum() uint32
+	getSizeOfHeaders() uint32
 
 	setSizeOfInitializedData(uint32)
 	setSizeOfImage(uint32)
+	setSizeOfHeaders(uint32)
 	setCheckSum(uint32)
 }
 
@@ -120,6 +122,10 @@ func (h *peOptionalHeader32) getCheckSum() uint32 {
 	return h.CheckSum
 }
 
+func (h *peOptionalHeader32) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader32) setSizeOfInitializedData(s uint32) {
 	h.SizeOfInitializedData = s
 }
@@ -128,6 +134,10 @@ func (h *peOptionalHeader32) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader32) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader32) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -184,6 +194,10 @@ func (h *peOptionalHeader64) getCheckSum() uint32 {
 	return h.CheckSum
 }
 
+func (h *peOptionalHeader64) getSizeOfHeaders() uint32 {
+	return h.SizeOfHeaders
+}
+
 func (h *peOptionalHeader64) setSizeOfInitializedData(s uint32) {
 	h.SizeOfInitializedData = s
 }
@@ -192,6 +206,10 @@ func (h *peOptionalHeader64) setSizeOfImage(s uint32) {
 	h.SizeOfImage = s
 }
 
+func (h *peOptionalHeader64) setSizeOfHeaders(s uint32) {
+	h.SizeOfHeaders = s
+}
+
 func (h *peOptionalHeader64) setCheckSum(c uint32) {
 	h.CheckSum = c
 }
@@ -377,6 +395,15 @@ func (pew *peWriter) hasRoomForSection() bool {
 			return false
 		}
 	}
+	if size := pew.roundRaw(uint32(end)); int64(pew.h.opt.getSizeOfHeaders()) < end {
+		// SizeOfHeaders will have to grow
+		for i := range pew.h.sections {
+			if pew.h.sections[i].VirtualAddress < size {
+				return false
+			}
+		}
+		return pew.src.dataOffset >= size
+	}
 	return true
 }
 
@@ -490,6 +517,9 @@ func (pew *peWriter) updateHeaders() {
 		pew.rsrcHdr = &pew.h.sections[len(pew.h.sections)-1]
 		pew.h.file.NumberOfSections++
 		pew.h.length += sizeOfSectionHeader
+		if int64(pew.h.opt.getSizeOfHeaders()) < pew.h.length {
+			pew.h.opt.setSizeOfHeaders(pew.roundRaw(uint32(pew.h.length)))
+		}
 		lastSection = pew.rsrcHdr
 		pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() + rsrcLen)
 	} else {
-- 
2.43.0


From d31de37c75a9120eaf7b77877548b7b20744a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 42/52] fix: do not read manifest version numbers that are out
 of range as 65535

---
 manifest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index 8b06cf9..b6d7e9c 100644
--- a/manifest.go
+++ b/manifest.go
@@ -317,8 +317,9 @@ func AppManifestFromXML(data []byte) (AppManifest, error) {
 		v = v[:4]
 	}
 	for i := range v {
-		n, _ := strconv.ParseUint(v[i], 10, 16)
-		m.Identity.Version[i] = uint16(n)
+		if n, err := strconv.ParseUint(v[i], 10, 16); err == nil {
+			m.Identity.Version[i] = uint16(n)
+		}
 	}
 	m.Description = x.Description
 
-- 
2.43.0


From fa78c22ca98e5946ff96fcd060470787155cd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 43/52] fix: do not ignore the data of sections that have all
 the content flags

---
 exe.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/exe.go b/exe.go
index c1d29b0..e5e05f4 100644
--- a/exe.go
+++ b/exe.go
@@ -355,7 +355,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if int64(pew.src.dataOffset) < pew.h.length {
 		return nil, errors.New(errDataInHeaders)
 	}
-	if pew.rsrcHdr != nil && (pew.rsrcHdr.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 ||
+	if pew.rsrcHdr != nil && (isUninitialized(pew.rsrcHdr) ||
 		pew.rsrcHdr.PointerToRawData < pew.src.dataOffset || pew.rsrcHdr.PointerToRawData > pew.src.dataEnd) {
 		return nil, errors.New(errInvalidRSRC)
 	}
@@ -431,15 +431,11 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+virtualSize(&pew.h.sections[i]) > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + virtualSize(&pew.h.sections[i])
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
+		if !hasRawData(&pew.h.sections[i]) {
 			// Exclude sections containing uninitialized data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
-		if pew.h.sections[i].SizeOfRawData == 0 {
-			// The file offset of an empty section is meaningless, and usually zero.
-			continue
-		}
 		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
 			return io.ErrUnexpectedEOF
 		}
@@ -564,6 +560,21 @@ func (pew *peWriter) updateHeaders() {
 	pew.h.opt.setSizeOfInitializedData(pew.h.opt.getSizeOfInitializedData() - oldSize + pew.rsrcHdr.SizeOfRawData)
 }
 
+// isUninitialized tells if a section only contains uninitialized data.
+//
+// Some packers set all the content flags on sections that do have data.
+func isUninitialized(s *pe.SectionHeader32) bool {
+	const initialized = pe.IMAGE_SCN_CNT_CODE | pe.IMAGE_SCN_CNT_INITIALIZED_DATA
+	return s.Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 &&
+		(s.Characteristics&initialized == 0 || s.PointerToRawData == 0)
+}
+
+// hasRawData tells if a section occupies data in the file.
+func hasRawData(s *pe.SectionHeader32) bool {
+	// The file offset of an empty section is meaningless, and usually zero.
+	return s.SizeOfRawData != 0 && !isUninitialized(s)
+}
+
 // virtualSize returns the size of a section in memory: the loader takes the raw size when the virtual size is zero
 func virtualSize(s *pe.SectionHeader32) uint32 {
 	if s.VirtualSize == 0 {
-- 
2.43.0


From 548220f46e2b77ac1c90c4350af242a55d9f661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 44/52] fix: order names by UTF-16 code units, as the loader
 searches them

---
 id.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 191d5dd..c515897 100644
--- a/id.go
+++ b/id.go
@@ -3,6 +3,7 @@ package winres
 import (
 	"errors"
 	"strings"
+	"unicode/utf16"
 )
 
 // ID is the type of a resource id, or resource type id.
@@ -27,7 +28,21 @@ func (id ID) lessThan(ident Identifier) bool {
 
 func (n Name) lessThan(ident Identifier) bool {
 	right, ok := ident.(Name)
-	return !ok || n < right
+	return !ok || n.lessThanName(right)
+}
+
+// lessThanName compares UTF-16 code units, as the loader does a binary search on them.
+func (n Name) lessThanName(right Name) bool {
+	left16, right16 := utf16.Encode([]rune(n)), utf16.Encode([]rune(right))
+	for i := 0; i < len(left16) && i < len(right16); i++ {
+		if left16[i] != right16[i] {
+			return left16[i] < right16[i]
+		}
+	}
+	if len(left16) != len(right16) {
+		return len(left16) < len(right16)
+	}
+	return n < right
 }
 
 func checkIdentifier(ident Identifier) error {
-- 
2.43.0


From df65965d07ea96569167ced72f3c0738de7977d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 45/52] fix: marshal version information given by value

---
 version/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/version/json.go b/version/json.go
index 2ca4ded..39fc971 100644
--- a/version/json.go
+++ b/version/json.go
@@ -21,7 +21,7 @@ type jsonVersionInfo struct {
 	Info  map[string]*StringTable `json:"info,omitempty"`
 }
 
-func (vi *Info) MarshalJSON() ([]byte, error) {
+func (vi Info) MarshalJSON() ([]byte, error) {
 	jvi := jsonVersionInfo{}
 	jf := jsonFixed{}
 	if vi.FileVersion != [4]uint16{} {
-- 
2.43.0


From c24a01c38fcd323bc2d9bc57459f2cca561c64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 46/52] fix: refuse resources that do not fit in 4 GB instead
 of truncating sizes and addresses

---
 coff.go   |  7 ++++++-
 errors.go |  1 +
 exe.go    |  7 +++++++
 rsrc.go   | 10 +++++++---
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/coff.go b/coff.go
index 9187b8d..f0d8fef 100644
--- a/coff.go
+++ b/coff.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 )
 
 // https://docs.microsoft.com/en-us/windows/win32/debug/pe-format#other-contents-of-the-file
@@ -37,7 +38,11 @@ func writeObject(w io.Writer, r *ResourceSet, arch Arch) error {
 	}
 
 	section.PointerToRawData = uint32(binary.Size(file) + binary.Size(section))
-	section.SizeOfRawData = uint32(r.fullSize())
+	size := r.fullSize()
+	if int64(section.PointerToRawData)+size+int64(r.numDataEntries())*sizeOfReloc > math.MaxUint32 {
+		return errors.New(errTooBig)
+	}
+	section.SizeOfRawData = uint32(size)
 	section.PointerToRelocations = section.PointerToRawData + section.SizeOfRawData
 	section.NumberOfRelocations = uint16(r.numDataEntries())
 
diff --git a/errors.go b/errors.go
index 5df4b48..f320bef 100644
--- a/errors.go
+++ b/errors.go
@@ -11,6 +11,7 @@ const (
 
 	errNameTooLong      = "string identifier is too long"
 	errTooManyResources = "too many resources"
+	errTooBig           = "resources are too big"
 
 	errNotICO                 = "not a valid ICO file"
 	errImageLengthTooBig      = "image size found in ICONDIRENTRY is too big (above 10 MB)"
diff --git a/exe.go b/exe.go
index e5e05f4..4c744c3 100644
--- a/exe.go
+++ b/exe.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 	"os"
 )
 
@@ -376,6 +377,12 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	}
 
+	size := int64(len(rsrcData))
+	if int64(pew.src.virtEnd)+size+int64(pew.h.opt.getSectionAlignment()) > math.MaxUint32 ||
+		int64(pew.src.dataEnd)+size+int64(pew.h.opt.getFileAlignment()) > math.MaxUint32 {
+		return nil, errors.New(errTooBig)
+	}
+
 	pew.updateHeaders()
 
 	return &pew, nil
diff --git a/rsrc.go b/rsrc.go
index c454c6a..e19040c 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 	"sort"
 	"unicode/utf16"
 )
@@ -194,13 +195,13 @@ func (rs *ResourceSet) writeData(w io.Writer, s *state) error {
 }
 
 // fullSize returns the full size of the rsrc section's content: the directory, the names, and the actual data.
-func (rs *ResourceSet) fullSize() int {
+func (rs *ResourceSet) fullSize() int64 {
 	s := rs.prepare()
-	sz := rs.dirSize() + len(s.namesData)*2
+	sz := int64(rs.dirSize() + len(s.namesData)*2)
 	for _, te := range rs.types {
 		for _, re := range te.resources {
 			for _, de := range re.data {
-				sz += de.paddedDataSize()
+				sz += int64(de.paddedDataSize())
 			}
 		}
 	}
@@ -253,6 +254,9 @@ func (rs *ResourceSet) checkLimits() error {
 			}
 		}
 	}
+	if rs.fullSize() > math.MaxUint32 {
+		return errors.New(errTooBig)
+	}
 	return nil
 }
 
-- 
2.43.0


From 9d4f392dc5a662c8134f4ba7869aa19495a1d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 47/52] fix: refuse to save icons and cursors whose number of
 images or offsets do not fit

---
 cursor.go | 12 ++++++++++--
 errors.go |  1 +
 icon.go   | 12 ++++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index f2acb9f..2f4276e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"image"
 	"io"
+	"math"
 	"sort"
 
 	"golang.org/x/image/bmp"
@@ -102,6 +103,10 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 
 // SaveCUR saves a cursor as a CUR file.
 func (cursor *Cursor) SaveCUR(ico io.Writer) error {
+	if len(cursor.images) > 0xFFFF {
+		return errors.New(errTooManyImages)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &cursorDirHeader{
 		Type:  2,
 		Count: uint16(len(cursor.images)),
@@ -112,11 +117,14 @@ func (cursor *Cursor) SaveCUR(ico io.Writer) error {
 
 	var (
 		pos    = sizeOfCursorDirHeader
-		offset = sizeOfCursorDirHeader + len(cursor.images)*sizeOfCursorFileDirEntry
+		offset = int64(sizeOfCursorDirHeader + len(cursor.images)*sizeOfCursorFileDirEntry)
 	)
 
 	cursor.order()
 	for i := range cursor.images {
+		if offset > math.MaxUint32 {
+			return errors.New(errTooBig)
+		}
 		err = binary.Write(ico, binary.LittleEndian, &cursorFileDirEntry{
 			Width:       uint8(cursor.images[i].info.Width),
 			Height:      uint8(cursor.images[i].info.Height),
@@ -129,7 +137,7 @@ func (cursor *Cursor) SaveCUR(ico io.Writer) error {
 			return err
 		}
 
-		offset += len(cursor.images[i].image)
+		offset += int64(len(cursor.images[i].image))
 		pos += sizeOfCursorFileDirEntry
 	}
 
diff --git a/errors.go b/errors.go
index f320bef..5d9d36d 100644
--- a/errors.go
+++ b/errors.go
@@ -15,6 +15,7 @@ const (
 
 	errNotICO                 = "not a valid ICO file"
 	errImageLengthTooBig      = "image size found in ICONDIRENTRY is too big (above 10 MB)"
+	errTooManyImages          = "too many images"
 	errTooManyIconSizes       = "too many sizes"
 	errGroupNotFound          = "group does not exist"
 	errInvalidGroup           = "invalid group"
diff --git a/icon.go b/icon.go
index cbbe0d0..ee0064e 100644
--- a/icon.go
+++ b/icon.go
@@ -8,6 +8,7 @@ import (
 	"image"
 	"image/png"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/nfnt/resize"
@@ -105,6 +106,10 @@ func LoadICO(ico io.ReadSeeker) (*Icon, error) {
 
 // SaveICO saves an icon as an ICO file.
 func (icon *Icon) SaveICO(ico io.Writer) error {
+	if len(icon.images) > 0xFFFF {
+		return errors.New(errTooManyImages)
+	}
+
 	err := binary.Write(ico, binary.LittleEndian, &iconDirHeader{
 		Type:  1,
 		Count: uint16(len(icon.images)),
@@ -116,11 +121,14 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 	var (
 		pos    = sizeOfIconDirHeader
 		hdrLen = sizeOfIconDirHeader + len(icon.images)*sizeOfIconFileDirEntry
-		offset = hdrLen
+		offset = int64(hdrLen)
 	)
 
 	icon.order()
 	for i := range icon.images {
+		if offset > math.MaxUint32 {
+			return errors.New(errTooBig)
+		}
 		info := icon.images[i].info
 		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
@@ -130,7 +138,7 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 		if err != nil {
 			return err
 		}
-		offset += len(icon.images[i].image)
+		offset += int64(len(icon.images[i].image))
 		pos += sizeOfIconFileDirEntry
 	}
 
-- 
2.43.0


From 6a4bcdcb7a219647c601effb3356bbee2acc634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 48/52] fix: keep what follows a resource section whose raw
 size is not aligned

---
 exe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.go b/exe.go
index 4c744c3..fb24148 100644
--- a/exe.go
+++ b/exe.go
@@ -454,6 +454,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 		}
 	}
 	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
+	if pew.rsrcHdr != nil && pew.src.rsrcEnd > int64(pew.src.dataEnd) {
+		// The raw size of the last section is not aligned, what follows it is not part of it
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
 
 	return nil
 }
-- 
2.43.0


From 6119939523b4f3bfee3a00c8e50e50a95ffbb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 49/52] fix: read version information whose fixed part has an
 unusual length

---
 version/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/version/binary.go b/version/binary.go
index 200a812..c45a5f6 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -259,7 +259,7 @@ func (vi *Info) readNode(parent interface{}, data []byte) (int, error) {
 				return 0, err
 			}
 		}
-		pos += int(n.ValueLength)
+		pos = align(pos) + int(n.ValueLength)
 		err := vi.readChildren(key, data, &pos)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 9da4427e296fa3af8f1f0283e0a48706c895c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 50/52] fix: refuse resource tables that are shared to describe
 an endless set

---
 rsrc.go | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index e19040c..e0667f3 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -487,7 +487,7 @@ func writeDataEntry(w io.Writer, offset int, dataSize int) error {
 // Reading functions:
 
 func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifier) error {
-	r := bytes.NewReader(section)
+	r := newRSRCReader(section)
 	return dirEntry{}.walk(r, func(typeEntry dirEntry) error {
 		if typeID != ID(0) &&
 			typeEntry.ident != typeID &&
@@ -508,6 +508,32 @@ func (rs *ResourceSet) read(section []byte, baseAddress uint32, typeID Identifie
 	})
 }
 
+// rsrcReader reads a resource section.
+//
+// As tables, names and data may be shared, a small section could describe a set too big for the memory.
+type rsrcReader struct {
+	*bytes.Reader
+	entries int   // remaining number of directory entries: more than this would not fit in the section without sharing tables
+	size    int64 // remaining size of names and data: more than this could not be written back
+}
+
+func newRSRCReader(section []byte) *rsrcReader {
+	return &rsrcReader{
+		Reader:  bytes.NewReader(section),
+		entries: len(section) / sizeOfDirEntry,
+		size:    math.MaxUint32,
+	}
+}
+
+// spend counts the size of a name or data, before it is allocated.
+func (r *rsrcReader) spend(size int64) error {
+	r.size -= size
+	if r.size < 0 {
+		return errors.New(errTooBig)
+	}
+	return nil
+}
+
 type dirEntry struct {
 	path   string
 	ident  Identifier
@@ -515,12 +541,17 @@ type dirEntry struct {
 	leaf   bool
 }
 
-func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
+func (de dirEntry) walk(section *rsrcReader, fn func(dirEntry) error) error {
 	entries, err := de.readDirTable(section)
 	if err != nil {
 		return err
 	}
 
+	section.entries -= len(entries)
+	if section.entries < 0 {
+		return errors.New(errTooManyResources)
+	}
+
 	for _, entry := range entries {
 		err = fn(entry)
 		if err != nil {
@@ -530,7 +561,7 @@ func (de dirEntry) walk(section *bytes.Reader, fn func(dirEntry) error) error {
 	return nil
 }
 
-func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte, error) {
+func (de dirEntry) readData(section *rsrcReader, baseAddress uint32) ([]byte, error) {
 	section.Seek(de.offset, io.SeekStart)
 
 	entry := resourceDataEntry{}
@@ -544,6 +575,9 @@ func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte,
 		return nil, errors.New(errDataEntryOutOfBounds)
 	}
 
+	if err := section.spend(int64(entry.Size)); err != nil {
+		return nil, err
+	}
 	data := make([]byte, entry.Size)
 	section.Seek(offset, io.SeekStart)
 	section.Read(data)
@@ -551,7 +585,7 @@ func (de dirEntry) readData(section *bytes.Reader, baseAddress uint32) ([]byte,
 	return data, nil
 }
 
-func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
+func (de dirEntry) readDirTable(section *rsrcReader) ([]dirEntry, error) {
 	section.Seek(de.offset, io.SeekStart)
 
 	table := resourceDirectoryTable{}
@@ -591,7 +625,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 	return entries, nil
 }
 
-func readName(section *bytes.Reader, offset uint32) (Name, error) {
+func readName(section *rsrcReader, offset uint32) (Name, error) {
 	section.Seek(int64(offset), io.SeekStart)
 
 	var length uint16
@@ -600,6 +634,9 @@ func readName(section *bytes.Reader, offset uint32) (Name, error) {
 		return "", err
 	}
 
+	if err := section.spend(int64(length) * 2); err != nil {
+		return "", err
+	}
 	b := make([]uint16, length)
 	err = binaryRead(section, b)
 	if err != nil {
-- 
2.43.0


From 460218903161507004150e38a27e2cc902223a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 51/52] fix: refuse icon and cursor files whose images share
 bytes to exceed 4 GB

---
 cursor.go | 5 +++++
 icon.go   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/cursor.go b/cursor.go
index 2f4276e..7c3dadb 100644
--- a/cursor.go
+++ b/cursor.go
@@ -63,12 +63,17 @@ func LoadCUR(cur io.ReadSeeker) (*Cursor, error) {
 		return nil, err
 	}
 
+	var total int64
 	cursor := &Cursor{}
 	for _, e := range entries {
 		// Arbitrary limit: no more than 10MB per image, so we can blindly allocate bytes and try to read them.
 		if e.BytesInRes > 0xA00000 {
 			return nil, errors.New(errImageLengthTooBig)
 		}
+		// Entries may share the same bytes, so their number does not depend on the size of the file.
+		if total += int64(e.BytesInRes); total > math.MaxUint32 {
+			return nil, errors.New(errTooBig)
+		}
 		if _, err := cur.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {
 			return nil, err
 		}
diff --git a/icon.go b/icon.go
index ee0064e..5fea999 100644
--- a/icon.go
+++ b/icon.go
@@ -82,12 +82,17 @@ func LoadICO(ico io.ReadSeeker) (*Icon, error) {
 		return nil, err
 	}
 
+	var total int64
 	icon := &Icon{}
 	for _, e := range entries {
 		// Arbitrary limit: no more than 10MB per image, so we can blindly allocate bytes and try to read them.
 		if e.BytesInRes > 0xA00000 {
 			return nil, fmt.Errorf(errImageLengthTooBig)
 		}
+		// Entries may share the same bytes, so their number does not depend on the size of the file.
+		if total += int64(e.BytesInRes); total > math.MaxUint32 {
+			return nil, errors.New(errTooBig)
+		}
 		if _, err := ico.Seek(int64(e.ImageOffset), io.SeekStart); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4800322360e8a1b3d7671718098eba4eef8adb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 52/52] fix: a refused icon or cursor left some of its images
 in the set

---
 cursor.go | 8 ++++++++
 icon.go   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cursor.go b/cursor.go
index 7c3dadb..75b9236 100644
--- a/cursor.go
+++ b/cursor.go
@@ -163,6 +163,14 @@ func (rs *ResourceSet) SetCursor(resID Identifier, cursor *Cursor) error {
 
 // SetCursorTranslation adds the cursor to a specific language in the resource set.
 func (rs *ResourceSet) SetCursorTranslation(resID Identifier, langID uint16, cursor *Cursor) error {
+	// Check everything first: a refused cursor must not leave images in the set.
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+	if len(cursor.images) > 0xFFFF-int(rs.lastCursorID) {
+		return errors.New(errZeroID)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, cursorDirHeader{
 		Type:  2,
diff --git a/icon.go b/icon.go
index 5fea999..c8ce213 100644
--- a/icon.go
+++ b/icon.go
@@ -176,6 +176,14 @@ func (rs *ResourceSet) SetIcon(resID Identifier, icon *Icon) error {
 //  2. First ID in ascending order
 //
 func (rs *ResourceSet) SetIconTranslation(resID Identifier, langID uint16, icon *Icon) error {
+	// Check everything first: a refused icon must not leave images in the set.
+	if err := checkIdentifier(resID); err != nil {
+		return err
+	}
+	if len(icon.images) > 0xFFFF-int(rs.lastIconID) {
+		return errors.New(errZeroID)
+	}
+
 	b := &bytes.Buffer{}
 	binary.Write(b, binary.LittleEndian, iconDirHeader{
 		Type:  1,
-- 
2.43.0

