From 1ea0eee213a8dc6340a9617ad07aea5855620930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 01/90] fix: read an append-optimised file from its start in
 ReadAll

---
 memfile/appendoptimized.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..3ef0fdb 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -49,7 +49,8 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	info, _ := a.file.Stat()
 	size := info.Size()
 	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	// Read from the start of the file, wherever earlier reads and appends left the file position
+	_, err = io.ReadFull(io.NewSectionReader(a.file, 0, size), data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c1f87a0d940648047ce60778662d4c7876b88ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 02/90] fix: FileWithSize.ReadAll recursed without end

---
 memfile/filewithsize.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..e9f902d 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -1,6 +1,9 @@
 package memfile
 
-import "os"
+import (
+	"io"
+	"os"
+)
 
 type FileWithSize struct {
 	file *os.File
@@ -31,4 +34,6 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	return io.ReadAll(io.NewSectionReader(fws.file, 0, fws.Size()))
+}
-- 
2.43.0


From 75735b89065185afcc79f82b956196980b550fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 03/90] fix: ReadWholeFileAsInt64s read from the file position
 and missed buffered appends

---
 wordfile/wordfile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..e468b41 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -84,10 +84,11 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
-	info, _ := wf.underlying.Stat()
-	size := info.Size()
+	// Read through wf.file (not the underlying os.File) from the very start, so that
+	// appends that are still buffered are seen, whatever the underlying file position
+	size := wf.wordCount * wf.wordSize
 	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
+	_, err := io.ReadFull(io.NewSectionReader(wf.file, 0, size), data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 77d6cd13246af086bc67e1a3dc9414cc60e3dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 04/90] fix: an empty file can be opened through MmapReadOnly

---
 memfile/mmapfile.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index 20fcbe4..75e7732 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -18,6 +18,14 @@ var _ io.Closer = (*MmapReadOnly)(nil)
 var _ LookupFile = (*MmapReadOnly)(nil)
 
 func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
+	// An empty file can't be mapped (there is nothing to map), but is nevertheless readable
+	info, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if info.Size() == 0 {
+		return &MmapReadOnly{file: f}, nil
+	}
 	// Map as read-only. 0 is the flag for default behaviour.
 	m, err := mmap.Map(f, mmap.RDONLY, 0)
 	if err != nil {
@@ -45,12 +53,18 @@ func (m *MmapReadOnly) ReadAll() ([]byte, error) {
 }
 
 func (m *MmapReadOnly) Sync() error {
+	if m.data == nil {
+		return nil
+	}
 	return m.data.Flush()
 }
 
 func (m *MmapReadOnly) Close() error {
 	// 1. Unmap the memory first
-	err := m.data.Unmap()
+	var err error
+	if m.data != nil {
+		err = m.data.Unmap()
+	}
 	// 2. Close thee underlying file
 	if fErr := m.file.Close(); fErr != nil {
 		return fErr
-- 
2.43.0


From 329cf7122057cd72b256caa77245269479164a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 05/90] fix: a value too big for a word file no longer pollutes
 later reads

---
 wordfile/wordfile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index e468b41..6be307a 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -42,6 +42,7 @@ func NewWordFileEx(file memfile.LookupFile, wordSize int64, wordCount int64) *Wo
 }
 
 func (wf *WordFile) ReadWordAt(off int64) (int64, error) {
+	wf.scratch8 = [8]byte{} // A value too big for the word size may have been left beyond scratch
 	_, err := wf.file.ReadAt(wf.scratch, off*wf.wordSize)
 	if err != nil {
 		return -1, err
-- 
2.43.0


From 865fa59cffc8787dc1726391cf65a348299d6676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 06/90] fix: reading past the end of a memory shadowed word
 file is an error, not a panic

---
 wordfile/memshadowedwordfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..54311af 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -2,6 +2,7 @@ package wordfile
 
 import (
 	"github.com/KitchenMishap/pudding-shed/memfile"
+	"io"
 	"os"
 )
 
@@ -25,6 +26,9 @@ func NewMemShadowedWordFile(file memfile.AppendableLookupFileReadAll, underlying
 }
 
 func (wf *MemShadowedWordFile) ReadWordAt(off int64) (int64, error) {
+	if off < 0 || off >= int64(len(wf.shadow)) {
+		return -1, io.EOF
+	}
 	// Just read the shadow
 	return wf.shadow[off], nil
 }
-- 
2.43.0


From 1be95070f78b4d9a488786c0bc18688a31b1e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 07/90] fix: an empty write beyond the end no longer moves the
 append position

---
 memfile/appendoptimized.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 3ef0fdb..1fa106c 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -58,6 +58,9 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 }
 
 func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil // Writing nothing never extends the file, even beyond its end
+	}
 	if a.bufferedWriter != nil {
 		// Previous operation was an append
 		if off == a.nextAppendOffset {
-- 
2.43.0


From 12afdd1a61ef02685d593fa15a3fc4deb5795f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 08/90] fix: create the folder of an older integer-array file
 before saving it

---
 intarrayarray/intarraymapstore.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..0f8e409 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -3,6 +3,7 @@ package intarrayarray
 import (
 	"github.com/KitchenMishap/pudding-shed/numberedfolders"
 	"os"
+	"path/filepath"
 )
 
 type IntArrayMapStore struct {
@@ -98,13 +99,7 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
-			if err != nil {
-				return err
-			}
-
-			err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+			err := ms.saveOlder()
 			if err != nil {
 				return err
 			}
@@ -123,9 +118,18 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	// Note we're not saving anything unnecessarily yet
 }
 
+// saveOlder saves the "older" file, creating its own folder first as that may not exist yet
+func (ms *IntArrayMapStore) saveOlder() error {
+	err := os.MkdirAll(filepath.Dir(ms.olderFilepath), 0755)
+	if err != nil {
+		return err
+	}
+	return ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+}
+
 func (ms *IntArrayMapStore) FlushFile() error {
 	if ms.olderFilepath != "" {
-		err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+		err := ms.saveOlder()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e57472cee04f7158723ad032e8be84a4861b8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 09/90] fix: report a failure to save the latest integer-array
 file

---
 intarrayarray/intarraymapstore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 0f8e409..70eb213 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -69,7 +69,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	if fileNumber > ms.latestFileNumber {
 		// Save the previous latest, if any
 		if ms.latestFilepath != "" {
-			ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			err := ms.latestIntArrayArray.SaveFile(ms.latestFilepath)
+			if err != nil {
+				return err
+			}
 		}
 		// Load a "new" latest
 		// Create the folder if necessary
-- 
2.43.0


From c739883baa2602c9918fd8b35508fff1a432aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 10/90] fix: evicting from a full integer-array cache looped
 for ever

---
 intarrayarray/cachedintarraymapstore.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..ed3ab41 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -88,14 +88,18 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+	// There may be nothing left to evict but the file just loaded
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return nil, err
+		}
 	}
 	return &cached, nil
 }
 
 func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error {
-	oldest := ms.lastAccessCounter // Start at latest
+	oldest := ms.lastAccessCounter + 1 // Start beyond latest, as even the latest can be evicted
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
@@ -131,7 +135,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 
 	cached, err := ms.loadIntoCache(folders, filename)
 	if err != nil {
-		// We don't mind being empty
+		return err
 	}
 
 	cached.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
@@ -144,6 +148,7 @@ func (ms *CachedIntArrayMapStore) AppendToArray(arrayKey int64, value int64) err
 		sep := string(os.PathSeparator)
 		foldersFilename = folders + sep + filename
 	}
+	ms.mapFolderFilenameToArrayArray[foldersFilename] = *cached // Keep the tally of the cached copy up to date
 	ms.lastAccessCounter++
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = ms.lastAccessCounter
 
-- 
2.43.0


From 98964eeb2a4923b19f9b750e9742c9bb9392918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 11/90] fix: data race on the memory statistics of MemBlocker

---
 memblocker/memblocker.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index a4b997a..7cbf511 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -3,6 +3,7 @@ package memblocker
 import (
 	"runtime"
 	"sync"
+	"sync/atomic"
 )
 
 func NewMemBlocker(maxBytes uint64) *MemBlocker {
@@ -14,8 +15,7 @@ func NewMemBlocker(maxBytes uint64) *MemBlocker {
 
 type MemBlocker struct {
 	maxBytes           uint64 // The number of process allocated bytes above which we must wait
-	memStats           runtime.MemStats
-	lastHeapSize       uint64
+	lastHeapSize       atomic.Uint64
 	someBytesFreedCond *sync.Cond
 }
 
@@ -50,11 +50,13 @@ func (mb *MemBlocker) MemoryWasFreed() {
 // Use it as a very rough estimate (lower bound) as to how much memory
 // this program is using
 func (mb *MemBlocker) countAllocatedMemory() uint64 {
-	runtime.ReadMemStats(&mb.memStats)
-	mb.lastHeapSize = mb.memStats.HeapAlloc
-	return mb.memStats.HeapAlloc
+	// Not a field, because this function is called from several goroutines at once
+	var memStats runtime.MemStats
+	runtime.ReadMemStats(&memStats)
+	mb.lastHeapSize.Store(memStats.HeapAlloc)
+	return memStats.HeapAlloc
 }
 
 func (mb *MemBlocker) LastHeapSize() uint64 {
-	return mb.lastHeapSize
+	return mb.lastHeapSize.Load()
 }
-- 
2.43.0


From d01da76398e20e697ad854f7a4801c54a67bd1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 12/90] fix: freeing memory wakes every waiter of MemBlocker,
 not just one

---
 memblocker/memblocker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index 7cbf511..0e7237c 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -43,7 +43,7 @@ func (mb *MemBlocker) StartFreeingMem() {
 }
 func (mb *MemBlocker) MemoryWasFreed() {
 	mb.someBytesFreedCond.L.Unlock()
-	mb.someBytesFreedCond.Signal()
+	mb.someBytesFreedCond.Broadcast()
 }
 
 // countAllocatedMemory returns the current process heap allocation.
-- 
2.43.0


From 2276f59d3fdd20cfc2f299efd370c9af7d84216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 13/90] fix: refuse hash text with non-hex characters instead
 of reading them as zeroes

---
 indexedhashes/hexstring.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/hexstring.go b/indexedhashes/hexstring.go
index 7b6e750..78c530a 100644
--- a/indexedhashes/hexstring.go
+++ b/indexedhashes/hexstring.go
@@ -21,7 +21,10 @@ func HashHexToSha256(hexAscii string, sha256 *Sha256) error {
 // Attempt to make this quick
 func hashHexToBinInternal(hexAscii string, lookup *[256 * 256]byte) ([32]byte, error) {
 	if len(hexAscii) != 64 {
-		errors.New("hash must be 64 hex digits")
+		return [32]byte{}, errors.New("hash must be 64 hex digits")
+	}
+	if !isAllHexDigits(hexAscii) {
+		return [32]byte{}, errors.New("hash must only contain hex digits")
 	}
 	result := [32]byte{
 		// To get the ascii of a rune from a string, we cast to an int
@@ -65,6 +68,9 @@ func hashHexToSha256Internal(hexAscii string, lookup *[256 * 256]byte, sha256 *S
 	if len(hexAscii) != 64 {
 		return errors.New("hash should be 64 hex digits")
 	}
+	if !isAllHexDigits(hexAscii) {
+		return errors.New("hash should only contain hex digits")
+	}
 	// To get the ascii of a rune from a string, we cast to an int
 	(*sha256)[0] = lookup[int(hexAscii[63])|(int(hexAscii[62])<<8)]
 	(*sha256)[1] = lookup[int(hexAscii[61])|(int(hexAscii[60])<<8)]
@@ -126,6 +132,17 @@ func asciiToNibble(ascii byte) byte {
 	return 0
 }
 
+// isAllHexDigits exists because asciiToNibble() can't tell a bad digit from '0'
+func isAllHexDigits(ascii string) bool {
+	for i := 0; i < len(ascii); i++ {
+		c := ascii[i]
+		if !(c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f') {
+			return false
+		}
+	}
+	return true
+}
+
 func hashBinToHexString(hashBin *[32]byte) string {
 	var reversed [32]byte
 	for i := 0; i < 32; i++ {
-- 
2.43.0


From e6b916f7db431e9b771a26b64dafa228068f6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 14/90] fix: HashStore capacity was off by one and checked
 after the hash was written

---
 indexedhashes/hashstore.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..95ae695 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -39,28 +39,12 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 		println("Note: Added a hash we know to be duplicated in the blockchain!")
 	}
 
-	// Write to hashes file
-	index, err := hs.hashesFile.AppendHash(hash)
-	if err != nil {
-		// AppendHash() has already printed error
-		return -1, err
-	}
-
-	hashV := binary.LittleEndian.Uint64(hash[0:8])
-	valnum := index
-
 	NBYTES := hs.entryByteCount
 	MSB := int64(0x80) << (8 * (NBYTES - 1))
 	NBITS := hs.partialHashBitCount
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum >= MSB {
-		err := errors.New("fatal: size of hashes file is now too large to index into")
-		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
-		return -1, err
-	}
-
 	const MAXNBYTES = 8 // Fairly arbitrary and conservative
 	const MAXCPC = 8    // Fairly arbitrary but not conservative
 	const MAXCHUNK = MAXNBYTES * (MAXCPC + 1)
@@ -72,6 +56,27 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 		return -1, errors.New("Need to increase MAXCPC")
 	}
 
+	// The index PLUS ONE must fit below the MSB (check before anything is written)
+	count, err := hs.hashesFile.CountHashes()
+	if err != nil {
+		return -1, err
+	}
+	if count+1 >= MSB {
+		err := errors.New("fatal: size of hashes file is now too large to index into")
+		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
+		return -1, err
+	}
+
+	// Write to hashes file
+	index, err := hs.hashesFile.AppendHash(hash)
+	if err != nil {
+		// AppendHash() has already printed error
+		return -1, err
+	}
+
+	hashV := binary.LittleEndian.Uint64(hash[0:8])
+	valnum := index
+
 	// Encode valnum+1 as NBYTES bytes
 	var valnumBytes [8]byte
 	binary.LittleEndian.PutUint64(valnumBytes[0:8], uint64(valnum+1)) // MUST be LittleEndian
-- 
2.43.0


From f23bb44a4c727c9a6addb3ff05d76d191badef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 15/90] fix: HashStore with large chunks panicked, and one
 collision per chunk lost hashes

---
 indexedhashes/concretehashstorecreator.go | 4 ++++
 indexedhashes/hashstore.go                | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index ec4c90b..5e4fe96 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -25,6 +25,10 @@ func NewConcreteHashStoreCreator(name string, folder string,
 		err := errors.New("hard coded ZEROBUF not big enough")
 		return nil, err
 	}
+	if collisionsPerChunk < 2 {
+		err := errors.New("a chunk must hold the two hashes of a first collision")
+		return nil, err
+	}
 
 	result := ConcreteHashStoreCreator{}
 	result.name = name
diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 95ae695..ba37c9e 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -30,7 +30,7 @@ func NewHashStore(partialHashBitCount int64, entryByteCount int64, collisionsPer
 	return &result
 }
 
-const ZEROBUF = 32 // Arbitrary number. Should be enough (we do check)
+const ZEROBUF = 72 // Enough for a chunk of the largest entries (8 bytes) and most collisions per chunk (8)
 
 func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 
-- 
2.43.0


From fe440027a711a0daccf53496439616451a4b881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 16/90] fix: a reopened memory indexed hash store had forgotten
 its hashes

---
 .../concretehashstorecreatormemory.go         | 10 +++++++
 indexedhashes/memoryindexed.go                | 29 +++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..ecd6879 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -69,6 +69,11 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExistingHashes()
+	if err != nil {
+		hashesFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +94,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExistingHashes()
+	if err != nil {
+		hashesFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..7fabbf9 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -22,11 +22,36 @@ func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
-	mih.theMap[*hash] = mih.count
-	mih.count++
+	mih.rememberHash(hash)
 	return index, nil
 }
 
+// rememberHash keeps the index of the first occurrence of a repeated hash
+func (mih *MemoryIndexedHashes) rememberHash(hash *Sha256) {
+	_, exists := mih.theMap[*hash]
+	if !exists {
+		mih.theMap[*hash] = mih.count
+	}
+	mih.count++
+}
+
+// loadExistingHashes populates the map with the hashes which are already in the file
+func (mih *MemoryIndexedHashes) loadExistingHashes() error {
+	storedCount, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for mih.count < storedCount {
+		var hash Sha256
+		err = mih.theStore.GetHashAtIndex(mih.count, &hash)
+		if err != nil {
+			return err
+		}
+		mih.rememberHash(&hash)
+	}
+	return nil
+}
+
 func (mih *MemoryIndexedHashes) Sync() error {
 	return mih.theStore.Sync()
 }
-- 
2.43.0


From 89a322c992078b782eac861b1aeefb5226d61e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 17/90] fix: the parameters file of a uniform hash store was
 opened read only and stayed empty

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..b4b5884 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -126,7 +126,7 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_RDWR|os.O_CREATE, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
-- 
2.43.0


From d1d4e7e856552c70326d291141ceff5c90f77d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 18/90] fix: the biggest hashes had no bin in a uniform hash
 store

---
 indexedhashes/multipasspreloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..ee01f05 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,7 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	return int64(math.MaxUint64/hashDivider) + 1 // The address of the biggest hash, plus one
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From 9599ed61ef317497655ddbc6a4b5d7caa269bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 19/90] fix: a hash appended to a uniform hash store was not
 found, its entry was in an older format

---
 indexedhashes/uniform.go | 64 +++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index b4b5884..d1811b2 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 )
 
 func NewUniformHashStoreCreatorAndPreloader(
@@ -211,42 +212,65 @@ func (us *UniformHashStore) folderPathFilePathForAddress(address uint64) (string
 }
 
 func (us *UniformHashStore) AppendHash(hash *Sha256) (int64, error) {
+	existingIndex, err := us.IndexOfHash(hash)
+	if err != nil {
+		return -1, err
+	}
 	newIndex := us.hashFile.CountHashes()
-	err := us.hashFile.WriteHashAt(*hash, newIndex)
+	err = us.hashFile.WriteHashAt(*hash, newIndex)
 	if err != nil {
 		return -1, err
 	}
+	if existingIndex != -1 {
+		return newIndex, nil // Only the first occurrence of a hash is in the bins
+	}
 
-	// Appending index followed by hash
-	toAppend := [40]byte{}
-	binary.LittleEndian.PutUint64(toAppend[0:8], uint64(newIndex))
-	copy(toAppend[8:40], hash[0:32])
-
+	// See multipasspreloader.go for the file formats
 	address := us.addressForHash(hash)
-	folderPath, filePath := us.folderPathFilePathForAddress(address)
-	err = os.MkdirAll(folderPath, 0755)
+	offset := int64(address * binStartSize)
+	byts := [binStartSize]byte{}
+	_, err = us.binStartsFile.ReadAt(byts[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	file, err := os.OpenFile(filePath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0755)
+	bin := binStart{}
+	bin.FromBytes(&byts)
+	if bin.entryCount < 102 {
+		bin.indexHashes[bin.entryCount].index = newIndex
+	} else {
+		err = us.writeIndexToOverflowFile(address, bin.entryCount-102, newIndex)
+		if err != nil {
+			return -1, err
+		}
+	}
+	bin.entryCount++
+	bin.ToBytes(&byts)
+	_, err = us.binStartsFile.WriteAt(byts[:], offset)
 	if err != nil {
 		return -1, err
 	}
-	_, err = file.Write(toAppend[:])
+
+	return newIndex, nil
+}
+
+func (us *UniformHashStore) writeIndexToOverflowFile(address uint64, slot int64, index int64) error {
+	_, filePath := us.folderPathFilePathForAddress(address)
+	err := os.MkdirAll(filepath.Dir(filePath), 0755)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	err = file.Sync()
+	file, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0755)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	err = file.Close()
+	defer file.Close()
+	entry := [8]byte{}
+	binary.LittleEndian.PutUint64(entry[:], uint64(index))
+	_, err = file.WriteAt(entry[:], slot*8)
 	if err != nil {
-		return -1, err
+		return err
 	}
-	file = nil
-
-	return newIndex, nil
+	return file.Sync()
 }
 
 func (us *UniformHashStore) IndexOfHash(hash *Sha256) (int64, error) {
@@ -282,8 +306,8 @@ func (us *UniformHashStore) IndexOfHash(hash *Sha256) (int64, error) {
 	// Second look in overflow file
 	if bin.entryCount > 102 {
 		// Look in the overflow files
-		_, filepath := us.folderPathFilePathForAddress(address)
-		overflowFile, err := os.ReadFile(filepath)
+		_, filePath := us.folderPathFilePathForAddress(address)
+		overflowFile, err := os.ReadFile(filePath)
 		if err != nil {
 			return -1, err
 		}
-- 
2.43.0


From 56ed61e4c07a96e9ba1ffa98525e200602e1497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 20/90] fix: a created (empty) hash store only had room for its
 first bin

---
 indexedhashes3/hashstorecreator.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..f14dbfb 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -127,11 +127,8 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
-	if err != nil {
-		return err
-	}
-	return nil
+	defer func() { _ = binStartsFile.Close() }()
+	return binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 }
 
 func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter, error) {
-- 
2.43.0


From b7e6d27eaa3bd2d3bff92c709f70aa8e33b7cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 21/90] fix: overflow files left by a previous index were read
 as part of the new one

---
 indexedhashes3/adaptivepasspreloader.go | 5 +++++
 indexedhashes3/hashstorecreator.go      | 5 +++++
 indexedhashes3/multipasspreloader.go    | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 09d26e5..5128c06 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -150,6 +150,11 @@ func (ap *AdaptivePassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := ap.folderPath + sep + "BinOverflows"
+	// Overflow files of a previous index would be taken for overflows of full bins
+	err = os.RemoveAll(ofFolderPath)
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index f14dbfb..e904494 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -128,6 +128,11 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 		return err
 	}
 	defer func() { _ = binStartsFile.Close() }()
+	// Overflow files of a previous hash store would be taken for overflows of full bins
+	err = os.RemoveAll(c.folderPath + sep + "BinOverflows")
+	if err != nil {
+		return err
+	}
 	return binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 }
 
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..826160a 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -181,6 +181,11 @@ func (mp *MultipassPreloader) createInitialFiles() error {
 	}
 
 	ofFolderPath := mp.folderPath + sep + "BinOverflows"
+	// Overflow files of a previous index would be taken for overflows of full bins
+	err = os.RemoveAll(ofFolderPath)
+	if err != nil {
+		return err
+	}
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
 		return err
-- 
2.43.0


From e93fcd857e8584944055afcb6d6ea25c40431db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 22/90] fix: different hashes with the same truncated hash were
 taken for duplicates

---
 indexedhashes3/binbytes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..1c41f0e 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -314,6 +314,7 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// Create a pointer to the first entry's underlying slice window
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
 	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
@@ -321,12 +322,16 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
 
-		if currentTH != lastTH {
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
+
+		// Different hashes in a bin can share one or the other, but not both
+		if currentTH != lastTH || currentSN != lastSN {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
 			lastTH = currentTH
+			lastSN = currentSN
 			writeIdx++
 		}
 	}
-- 
2.43.0


From acd0b559a9d23fd141c2eb1d919b3d5b5f7aa77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 23/90] fix: hashes sharing their sort number with others were
 not always found

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 1c41f0e..b67b5e1 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -155,6 +155,15 @@ func (b *bin) findIndexBasedOnSortNum(sn sortNum, p *HashIndexingParams) int64 {
 	for endIndex != startIndex {
 		startIndex, endIndex = b.homeInOnSortNum(startIndex, endIndex, sn, p)
 	}
+	// We might have homed in on the middle of several entries having the sortNum
+	for startIndex > 0 {
+		entry := b.getEntry(startIndex-1, p)
+		_, snPrev := entry.getHashIndexSortNum(p)
+		if snPrev != sn {
+			break
+		}
+		startIndex--
+	}
 	return startIndex
 }
 
-- 
2.43.0


From 0b23fe7f6f04557bedf0be98fb14cee1fac40379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 24/90] fix: a repeated hash appended to a hash store hid its
 first occurrence

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index b67b5e1..da68954 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -69,6 +69,15 @@ func (b *bin) insertBinEntry(sn sortNum, hi hashIndex, th truncatedHash, p *Hash
 
 	newEntry := newBinEntryBytes(th, hi, sn, p)
 	insertionPoint := b.findIndexBasedOnSortNum(sn, p)
+	// Entries having the same sortNum are kept in order of their hashIndex, so a repeated hash is found at its first
+	for insertionPoint < b.length(bytesPerEntry) {
+		entry := b.getEntry(insertionPoint, p)
+		_, snExisting := entry.getHashIndexSortNum(p)
+		if snExisting != sn {
+			break
+		}
+		insertionPoint++
+	}
 	if insertionPoint > b.length(bytesPerEntry) {
 		panic("insertionPoint too large")
 	}
-- 
2.43.0


From 4956430a510833718b72678920f3eb2a5d364073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 25/90] fix: the biggest hashes had no bin unless the number of
 bins was a power of two

---
 indexedhashes3/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/params.go b/indexedhashes3/params.go
index 23d9326..de46049 100644
--- a/indexedhashes3/params.go
+++ b/indexedhashes3/params.go
@@ -53,7 +53,9 @@ func (p *HashIndexingParams) calculateDerivedValues() {
 			break
 		}
 	}
-	p.divider = (uint64(1) << uint64(63)) / (uint64(p.NumberOfBins_) >> uint64(1))
+	// Rounded up, otherwise the biggest hashes would be in a bin beyond the last
+	halfBins := uint64(p.NumberOfBins_) >> uint64(1)
+	p.divider = ((uint64(1) << uint64(63)) + halfBins - 1) / halfBins
 	// 24 is the number of bytes in a truncated hash
 	p.bytesPerBinEntry = 24 + p.BytesPerSortNum_ + p.BytesPerHashIndex()
 }
-- 
2.43.0


From 79028971aef05654490d4d60256c17a39a6e70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 26/90] fix: adaptive pass indexing ignored a failure to read
 the hashes

---
 indexedhashes3/adaptivepasspreloader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index 5128c06..d04995c 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -42,6 +42,9 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 
 	var counts []binWorkInfo
 	counts, err = stageOneCountBinWork(hashesFilepath, ap.params)
+	if err != nil {
+		return err
+	}
 
 	err = stageTwoStageThreeHandleHashBins(hashesFilepath, ap.binNumsWordFile, ap.binStartsFile,
 		ap.overflowFiles, ap.params, counts, ap.gbPerPass, threads)
@@ -52,6 +55,10 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	if err != nil {
 		return err
 	}
+	err = ap.binStartsFile.Close()
+	if err != nil {
+		return err
+	}
 	fmt.Println("...Done passes")
 	return nil
 }
-- 
2.43.0


From a67cb802406c831e920cf11436d4d455056a91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 27/90] fix: adaptive pass indexing lost the bins of a worker
 that panicked without an error

---
 indexedhashes3/adaptivepass.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..cb6ade0 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -260,6 +260,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 			binBytes  []byte
 		}
 		outChan := make(chan binResult)
+		workerErrors := make(chan error, threads)
 
 		// Now launch your workers safely!
 		wg := sync.WaitGroup{}
@@ -278,6 +279,10 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 				defer func() {
 					if r := recover(); r != nil {
 						fmt.Printf("CRITICAL: Worker %d panicked and died! Error: %v\n", workerID, r)
+						workerErrors <- fmt.Errorf("worker %d panicked: %v", workerID, r)
+						for range inputChan {
+							// Don't block the sender
+						}
 					}
 				}()
 
@@ -412,6 +417,11 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for out := range outChan {
 			passResults = append(passResults, out)
 		}
+		select {
+		case err := <-workerErrors:
+			return err // The bins of that worker are missing
+		default:
+		}
 
 		// 2. Sort the completed results by bin number (ASCENDING)
 		sort.Slice(passResults, func(i, j int) bool {
-- 
2.43.0


From 6c156e8f039b0e0cbdf0390d84925c7b6fbeacb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 28/90] fix: multi-pass indexing failed when standard output
 cannot be synced or a bin exceeds the memory budget

---
 indexedhashes3/multipasspreloader.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 826160a..440160c 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -44,15 +44,15 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		expectedEntriesPerBin = 1
 	}
 	binsPerPass := mp.bytesPerPass / (mp.params.BytesPerBinEntry() * expectedEntriesPerBin)
+	if binsPerPass == 0 {
+		binsPerPass = 1 // One bin is the least we can do in a pass
+	}
 	passes := 1 + mp.params.NumberOfBins()/binsPerPass
 
 	for pass := int64(0); pass < passes; pass++ {
 		sline := fmt.Sprintf("%s: Pass %d of %d\n", mp.folderPath, pass+1, passes)
 		fmt.Print(sline)
-		err = os.Stdout.Sync()
-		if err != nil {
-			return err
-		}
+		_ = os.Stdout.Sync() // Not every standard output (terminal, pipe) can be synced
 		firstBinNum := pass * binsPerPass
 		binsThisPass := binsPerPass
 		if firstBinNum+binsThisPass > mp.params.NumberOfBins() {
-- 
2.43.0


From 1a3ffaa79e868ead344c3820b8a75e6a8fd93d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 29/90] fix: progress reports panicked when standard output is
 a terminal or a pipe

---
 jobs/intrinsicparallel.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 85a5c58..1334fd9 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -678,10 +678,7 @@ func (p *Progress) Update(currentItem int64) {
 			float64(100)*float64(currentItem-p.startItem)/float64(p.endItem-p.startItem),
 			p.taskName, prediction.Format(dateFormat), int(math.Round(itemsPerSecond)))
 		fmt.Printf("%s%s          ", p.backslashR, msg)
-		err := os.Stdout.Sync()
-		if err != nil {
-			panic(err)
-		}
+		_ = os.Stdout.Sync() // Not every standard output (terminal, pipe) can be synced
 
 		p.checkpointTime = now
 		p.checkpointItem = currentItem
-- 
2.43.0


From 0d1fa8049d15a9fcb1711d8a8272ffc9ff4ba359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 30/90] fix: adaptive pass with fewer busy bins than threads
 closed a channel twice; a failed read panicked in a goroutine

---
 indexedhashes3/adaptivepass.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index cb6ade0..ca3b68f 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -267,8 +267,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
-				continue
+				continue // No one is listening, nothing will be sent
 			}
 
 			wg.Add(1)
@@ -340,12 +339,13 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		} // for t = threads
 
 		// Now read the hashes and send to the workers
-		go func() {
+		readError := make(chan error, 1)
+		sendTheHashes := func() error {
 			hash := [32]byte{}
 
 			hashesFile, ferr := os.Open(hashesFilepath)
 			if ferr != nil {
-				panic(ferr) // ToDo
+				return ferr
 			}
 			defer hashesFile.Close()
 			hashesReader := bufio.NewReaderSize(hashesFile, 64*1024*1024)
@@ -356,10 +356,10 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 			var bytesRead int
 			bytesRead, ferr = hashesReader.Read(hash[:])
 			if ferr != nil && ferr != io.EOF {
-				panic(ferr) // ToDo
+				return ferr
 			}
 			if bytesRead != 32 && ferr != io.EOF {
-				panic("stageOneCountBinHashes(): Couldn't read 32 bytes") // ToDo
+				return errors.New("stageThree: Couldn't read 32 bytes")
 			}
 			for ferr != io.EOF {
 				h := Hash(hash[:])
@@ -370,8 +370,8 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 				if isFirstPass {
 					ferr = binNumsFile.WriteWordAt(int64(bn), hi)
 					if ferr != nil {
-						panic(ferr)
-					} // ToDo
+						return ferr
+					}
 				}
 
 				worker, workerExists := binToWorkerMap[int64(bn)]
@@ -389,17 +389,22 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 				// Read next hash
 				bytesRead, ferr = hashesReader.Read(hash[:])
 				if ferr != nil && ferr != io.EOF {
-					panic(ferr) // ToDo
+					return ferr
 				}
 				if bytesRead != 32 && ferr != io.EOF {
-					panic("stageOneCountBinHashes(): Couldn't read 32 bytes")
+					return errors.New("stageThree: Couldn't read 32 bytes")
 				}
 				hi++
 			}
+			return nil
+		}
+		go func() {
+			err := sendTheHashes()
 			// We have sent all the hashes, close all the workers' chans
 			for ch := range threads {
 				close(inChans[ch])
 			}
+			readError <- err
 		}()
 
 		// We are currently sending all the hashes to the workers
@@ -417,6 +422,10 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for out := range outChan {
 			passResults = append(passResults, out)
 		}
+		err := <-readError // Also waits until the reading goroutine is done with this pass
+		if err != nil {
+			return err
+		}
 		select {
 		case err := <-workerErrors:
 			return err // The bins of that worker are missing
-- 
2.43.0


From a66f1a98c4549e2918399d2df0075e9c03b94ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 31/90] fix: a failed pass of multi-pass indexing left its
 workers waiting for ever

---
 indexedhashes3/singlepass.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/indexedhashes3/singlepass.go b/indexedhashes3/singlepass.go
index d95b2d4..06509e6 100644
--- a/indexedhashes3/singlepass.go
+++ b/indexedhashes3/singlepass.go
@@ -58,6 +58,13 @@ func (spd *singlePassDetails) readIn(mp *MultipassPreloader, threads int) error
 	for i := range threads {
 		workerChans[i] = make(chan workItem, 1000)
 	}
+	// Close all the channels into the workers and wait for them, also when leaving early
+	defer func() {
+		for i := range threads {
+			close(workerChans[i])
+		}
+		wg.Wait()
+	}()
 	for i := 0; i < threads; i++ {
 		wg.Add(1)
 		go func(workerIndex int) {
@@ -117,13 +124,6 @@ func (spd *singlePassDetails) readIn(mp *MultipassPreloader, threads int) error
 
 		hi++
 	}
-	// Close all the channels into the workers
-	for i := range threads {
-		close(workerChans[i])
-	}
-
-	wg.Wait()
-
 	return nil
 }
 
-- 
2.43.0


From 52fa295ee11bc3b70aaba0b2e9e83ad8115840a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 32/90] fix: a missing previous block hash or input txid in
 JSON was taken for genesis or coinbase

---
 intrinsicobjects/jsonblock.go       | 2 +-
 intrinsicobjects/jsontransaction.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/intrinsicobjects/jsonblock.go b/intrinsicobjects/jsonblock.go
index 7bc8ac8..103a9ed 100644
--- a/intrinsicobjects/jsonblock.go
+++ b/intrinsicobjects/jsonblock.go
@@ -23,7 +23,7 @@ func ParseJsonBlock(jsonBytes []byte, targetBlock *Block) error {
 	if err != nil {
 		return err
 	}
-	if parsed.J_previousblockhash == "" {
+	if parsed.J_previousblockhash == "" && parsed.J_height == 0 {
 		// Doesn't exist for genesis block!
 		targetBlock.PrevHash = indexedhashes.Sha256{} // All zeros
 	} else {
diff --git a/intrinsicobjects/jsontransaction.go b/intrinsicobjects/jsontransaction.go
index 5f9a3b5..6e55e87 100644
--- a/intrinsicobjects/jsontransaction.go
+++ b/intrinsicobjects/jsontransaction.go
@@ -41,7 +41,7 @@ func parseJsonTransaction(parsed *JsonTransEssential, targetTrans *Transaction,
 	for i := 0; i < txiCount; i++ {
 		thisTxi := Txi{}
 
-		if parsed.J_vin[i].J_txid == "" {
+		if parsed.J_vin[i].J_txid == "" && parsed.J_vin[i].J_coinbase != nil {
 			// Must be a coinbase transaction
 			thisTxi.TxId = indexedhashes.Sha256{} // All zeroes
 		} else {
@@ -103,8 +103,9 @@ type JsonTransEssential struct {
 }
 
 type JsonTxiEssential struct {
-	J_txid string `json:"txid"`
-	J_vout int    `json:"vout"`
+	J_txid     string  `json:"txid"`
+	J_vout     int     `json:"vout"`
+	J_coinbase *string `json:"coinbase,omitempty"` // Only there for a coinbase transaction
 }
 
 type JsonTxoEssential struct {
-- 
2.43.0


From 3344660b26e22a915211b722f53a84e26b811784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 33/90] fix: a truncated or wrong block from the node is
 retried, not stored or a crash

---
 corereader2/getparseblocksbinary.go | 87 +++++++++++++++--------------
 intrinsicobjects/binaryblock.go     |  7 +++
 2 files changed, 53 insertions(+), 41 deletions(-)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index 901ef0a..3d0c094 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -1,6 +1,7 @@
 package corereader2
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -62,50 +63,17 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 					if retry > 0 {
 						fmt.Println("Retrying...")
 					}
-					resp, err := TheOneAndOnlyClient.Get(blockReq)
+					err := getAndParseBlock(blockReq, useJson, numbered)
 					if err == nil {
-						if resp.StatusCode == 200 {
-							bodyOutBlock, err := io.ReadAll(resp.Body)
-							if err == nil {
-								err = resp.Body.Close()
-								if err == nil {
-									if useJson {
-										err = intrinsicobjects.ParseJsonBlock(bodyOutBlock, &numbered.Block)
-										if err != nil {
-											success = false
-											fmt.Println(err.Error())
-											fmt.Println("Error parsing JSON")
-										} else {
-											success = true
-										}
-									} else {
-										intrinsicobjects.ParseBinaryBlock(bodyOutBlock, &numbered.Block)
-										success = true
-									}
-									if success {
-										outChan <- numbered
-										// Break out of retry loop
-										if retry > 0 {
-											fmt.Printf("Retry succeeded\n")
-										}
-										break
-									}
-								} else {
-									fmt.Println(err.Error())
-									fmt.Printf("Error closing response body\n")
-								}
-							} else {
-								fmt.Println(err.Error())
-								fmt.Printf("ReadAll() returned error\n")
-							}
-						} else {
-							fmt.Println(resp.Status)
-							fmt.Printf("Response is not 200 OK\n")
+						success = true
+						outChan <- numbered
+						// Break out of retry loop
+						if retry > 0 {
+							fmt.Printf("Retry succeeded\n")
 						}
-					} else {
-						fmt.Println(err.Error())
-						fmt.Printf("Get() returned error\n")
+						break
 					}
+					fmt.Println(err.Error())
 				}
 				if success == false {
 					fmt.Println("Retries exhausted getting block from Bitcoin Core, block height: ", numbered.BlockHeight)
@@ -119,3 +87,40 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 		close(outChan)
 	}()
 }
+
+// getAndParseBlock makes one attempt to get the block from Core and parse it
+func getAndParseBlock(blockReq string, useJson bool, numbered *HeightNumberedBlock) (err error) {
+	resp, err := TheOneAndOnlyClient.Get(blockReq)
+	if err != nil {
+		return fmt.Errorf("Get() returned error: %w", err)
+	}
+	bodyOutBlock, err := io.ReadAll(resp.Body)
+	closeErr := resp.Body.Close()
+	if resp.StatusCode != 200 {
+		return errors.New("Response is not 200 OK: " + resp.Status)
+	}
+	if err != nil {
+		return fmt.Errorf("ReadAll() returned error: %w", err)
+	}
+	if closeErr != nil {
+		return fmt.Errorf("Error closing response body: %w", closeErr)
+	}
+	if useJson {
+		err = intrinsicobjects.ParseJsonBlock(bodyOutBlock, &numbered.Block)
+		if err != nil {
+			return fmt.Errorf("Error parsing JSON: %w", err)
+		}
+	} else {
+		// Parsing a binary block that's not complete panics
+		defer func() {
+			if r := recover(); r != nil {
+				err = fmt.Errorf("Error parsing binary block: %v", r)
+			}
+		}()
+		intrinsicobjects.ParseBinaryBlock(bodyOutBlock, &numbered.Block)
+	}
+	if numbered.Block.BlockHash != numbered.BlockHash {
+		return errors.New("The block we got is not the block we requested")
+	}
+	return nil
+}
diff --git a/intrinsicobjects/binaryblock.go b/intrinsicobjects/binaryblock.go
index 93f2edb..0439ae9 100644
--- a/intrinsicobjects/binaryblock.go
+++ b/intrinsicobjects/binaryblock.go
@@ -58,6 +58,9 @@ func ParseBinaryBlock(bin []byte, targetBlock *Block) {
 	targetBlock.StrippedSize += bytes
 	targetBlock.Weight += 4 * bytes
 
+	if txCount > uint64(len(bin)) {
+		panic("binary block has a wrong transaction count")
+	}
 	targetBlock.Transactions = make([]Transaction, txCount)
 
 	// Now read the transactions (txCount of them)
@@ -68,6 +71,10 @@ func ParseBinaryBlock(bin []byte, targetBlock *Block) {
 		targetBlock.StrippedSize += targetBlock.Transactions[tx].StrippedSize
 	}
 
+	if byteIndex != len(bin) {
+		panic("binary block has the wrong length") // As with the index out of range we'd get when shorter
+	}
+
 	targetBlock.Size = len(bin)
 }
 
-- 
2.43.0


From 17d426713fe2b91963fcc90010d204e1f38ceaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 34/90] fix: past the end of the node's chain zero hashes were
 made up instead of the last blocks

---
 corereader2/blockhashes.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/corereader2/blockhashes.go b/corereader2/blockhashes.go
index d62cda2..e29bcde 100644
--- a/corereader2/blockhashes.go
+++ b/corereader2/blockhashes.go
@@ -1,6 +1,8 @@
 package corereader2
 
 import (
+	"crypto/sha256"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -44,9 +46,17 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 			return err
 		}
 		expectedSize := 80 * 1002
-		bodyOutHeaders := make([]byte, expectedSize)
-		_, err = io.ReadFull(resp.Body, bodyOutHeaders)
-		err = resp.Body.Close()
+		bodyOutHeaders, err := io.ReadAll(io.LimitReader(resp.Body, int64(expectedSize)))
+		closeErr := resp.Body.Close()
+		if err == nil {
+			err = closeErr
+		}
+		if err == nil && resp.StatusCode != 200 {
+			err = errors.New("StreamBlockHashes(): Response is not 200 OK: " + resp.Status)
+		}
+		if err == nil && len(bodyOutHeaders)%80 != 0 {
+			err = errors.New("StreamBlockHashes(): Response is not a whole number of headers")
+		}
 		if err != nil {
 			fmt.Println(err.Error())
 			close(channel)
@@ -76,6 +86,13 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 		// If we didn't get the 1002 headers we requested, then we've exhausted the blockchain before
 		// the requested number of blocks.
 		if len(bodyOutHeaders) < 80*1002 {
+			// There are still the last one or two blocks, the very last isn't the "prev hash" of anything
+			headers := len(bodyOutHeaders) / 80
+			for header := max(headers-2, 0); header < headers && sentBlocks < numBlocks; header++ {
+				first := sha256.Sum256(bodyOutHeaders[header*80 : header*80+80])
+				channel <- sha256.Sum256(first[:])
+				sentBlocks++
+			}
 			fmt.Println("Blockchain exhausted")
 			close(channel)
 			return nil // Let's not treat it as an error
-- 
2.43.0


From 2142f4dbc135c8d2c1024f559e30e18252bf985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 35/90] fix: appending to a second chain in one process
 panicked, and two at once raced

---
 chainstorage/concreteappendablechain.go | 41 +++++++++++++------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..2c293f2 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -13,6 +13,7 @@ import (
 	"github.com/KitchenMishap/pudding-shed/wordfile"
 )
 
+// PrevFirstTxo and PrevTrans are no longer used (each chain keeps its own)
 var PrevFirstTxo int64
 var PrevTrans int64
 
@@ -40,6 +41,10 @@ type concreteAppendableChain struct {
 	trnHashes          indexedhashes.HashReadWriter
 	parentBlockOfTrans wordfile.ReadWriteAtWordCounter
 
+	// For checking that transactions and txos of this chain aren't going backwards
+	prevFirstTxo int64
+	prevTrans    int64
+
 	// These are re-used objects in the interest of the "zero allocations" aspiration
 	za_blockReceiver       *chainhandleinterface.BlockReceiver
 	za_transactionReceiver *chainhandleinterface.BitcoinCoreTransactionReceiver
@@ -150,7 +155,7 @@ func (cac *concreteAppendableChain) AppendBlock(blockChain chainreadinterface.IB
 			return err
 		}
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -331,17 +336,15 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
-			panic("txo going backwards")
-		}
-		if transHeight < PrevTrans {
-			panic("trans going backwards")
-		}
+	if putativeTxoHeight < cac.prevFirstTxo {
+		panic("txo going backwards")
+	}
+	if transHeight < cac.prevTrans {
+		panic("trans going backwards")
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	if err != nil {
 		return -1, err
@@ -645,7 +648,7 @@ func (cac *concreteAppendableChain) AppendBlockChi(blockChain chainhandleinterfa
 		}
 
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -761,20 +764,18 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
-			panic("txo going backwards")
-		}
-		if transHeight < PrevTrans {
-			panic("trans going backwards")
-		}
+	if putativeTxoHeight < cac.prevFirstTxo {
+		panic("txo going backwards")
+	}
+	if transHeight < cac.prevTrans {
+		panic("trans going backwards")
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
 	if err != nil {
 		return -1, err
 	}
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	for _, hTxo := range trans.TxoHandles {
 		err = blockChain.GetTxoInfo(hTxo, cac.za_txoReceiver)
-- 
2.43.0


From cef2e0de0724e708588a72ec9452b96e32d6c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 36/90] fix: the latest block and the counts of a store came
 from the hashes, not from what was appended

---
 chainstorage/block.go                 |  4 +--
 chainstorage/concretereadablechain.go | 38 ++++++++++++++++++++++++---
 chainstorage/transaction.go           |  4 +--
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/chainstorage/block.go b/chainstorage/block.go
index 33becde..6f7867d 100644
--- a/chainstorage/block.go
+++ b/chainstorage/block.go
@@ -34,11 +34,11 @@ func (block *Block) IsInvalid() bool {
 // Functions to implement IBlock
 
 func (block *Block) TransactionCount() (int64, error) {
-	blocksInChain, err := block.data.blkHashes.CountHashes()
+	blocksInChain, err := block.data.blocksInChain()
 	if err != nil {
 		return -1, err
 	}
-	transInChain, err := block.data.trnHashes.CountHashes()
+	transInChain, err := block.data.transactionsInChain()
 	if err != nil {
 		return -1, err
 	}
diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..c2d9132 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -173,8 +173,38 @@ func (crc *concreteReadableChain) InvalidTrans() chainreadinterface.ITransHandle
 	return &TransHandle{HashHeight{height: -1, hashSpecified: false, heightSpecified: true}, crc}
 }
 
+// The hashes of blocks and transactions are all stored before the first block is appended,
+// so it isn't the numbers of hashes that tell us how much of the chain is stored
+
+func (crc *concreteReadableChain) transactionsInChain() (int64, error) {
+	return crc.trnFirstTxo.CountWords()
+}
+
+func (crc *concreteReadableChain) blocksInChain() (int64, error) {
+	transInChain, err := crc.transactionsInChain()
+	if err != nil {
+		return -1, err
+	}
+	blocks, err := crc.blkFirstTrans.CountWords()
+	if err != nil {
+		return -1, err
+	}
+	// Delegated transaction indexing can be ahead of the appending of blocks
+	for blocks > 0 {
+		firstTrans, err := crc.blkFirstTrans.ReadWordAt(blocks - 1)
+		if err != nil {
+			return -1, err
+		}
+		if firstTrans < transInChain {
+			break
+		}
+		blocks--
+	}
+	return blocks, nil
+}
+
 func (crc *concreteReadableChain) LatestBlock() (chainreadinterface.IBlockHandle, error) {
-	blocksInChain, err := crc.blkHashes.CountHashes()
+	blocksInChain, err := crc.blocksInChain()
 	if err != nil || blocksInChain == 0 {
 		return crc.InvalidBlock(), err
 	}
@@ -189,7 +219,7 @@ func (crc *concreteReadableChain) LatestBlock() (chainreadinterface.IBlockHandle
 func (crc *concreteReadableChain) NextBlock(hBlock chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
 	givenBlockNum := hBlock.Height()
 	nextBlockNum := givenBlockNum + 1
-	blocksInChain, err := crc.blkHashes.CountHashes()
+	blocksInChain, err := crc.blocksInChain()
 	if err != nil || nextBlockNum >= blocksInChain {
 		return crc.InvalidBlock(), err
 	}
@@ -202,7 +232,7 @@ func (crc *concreteReadableChain) NextBlock(hBlock chainreadinterface.IBlockHand
 }
 
 func (crc *concreteReadableChain) LatestTransaction() (chainreadinterface.ITransHandle, error) {
-	transInChain, err := crc.trnHashes.CountHashes()
+	transInChain, err := crc.transactionsInChain()
 	if err != nil || transInChain == 0 {
 		return crc.InvalidTrans(), err
 	}
@@ -217,7 +247,7 @@ func (crc *concreteReadableChain) LatestTransaction() (chainreadinterface.ITrans
 func (crc *concreteReadableChain) NextTransaction(hTrans chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
 	givenTransNum := hTrans.Height()
 	nextTransNum := givenTransNum + 1
-	transInChain, err := crc.trnHashes.CountHashes()
+	transInChain, err := crc.transactionsInChain()
 	if err != nil || nextTransNum >= transInChain {
 		return crc.InvalidTrans(), err
 	}
diff --git a/chainstorage/transaction.go b/chainstorage/transaction.go
index 18c98d1..254fe60 100644
--- a/chainstorage/transaction.go
+++ b/chainstorage/transaction.go
@@ -74,7 +74,7 @@ func (tr *Transaction) IsInvalid() bool {
 // Functions that implement ITransaction
 
 func (tr *Transaction) TxiCount() (int64, error) {
-	transInChain, err := tr.data.trnHashes.CountHashes()
+	transInChain, err := tr.data.transactionsInChain()
 	if err != nil {
 		return -1, err
 	}
@@ -114,7 +114,7 @@ func (tr *Transaction) NthTxi(n int64) (chainreadinterface.ITxiHandle, error) {
 }
 
 func (tr *Transaction) TxoCount() (int64, error) {
-	transInChain, err := tr.data.trnHashes.CountHashes()
+	transInChain, err := tr.data.transactionsInChain()
 	if err != nil {
 		return -1, err
 	}
-- 
2.43.0


From 9d3f4c351c14d01919d0b1dca6cfeb728cd867d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 37/90] fix: a list in a file not yet written was an error, and
 an unreadable file was taken for empty

---
 intarrayarray/cachedintarraymapstore.go |  6 +++---
 intarrayarray/intarraymapstore.go       | 11 ++++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index ed3ab41..af9ea53 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -53,7 +53,7 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
-	if err != nil {
+	if err != nil && !os.IsNotExist(err) { // There's no file until something is appended to one of its arrays
 		return []int64{}, err
 	}
 
@@ -80,8 +80,8 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
-	if err != nil {
-		// Don't mind error here, we just stay empty
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
 	}
 	ms.mapFolderFilenameToArrayArray[foldersFilename] = cached
 	ms.mapFolderFilenameToFolderPath[foldersFilename] = folderPath
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 70eb213..ada02c9 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -46,7 +46,7 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
-	if err != nil {
+	if err != nil && !os.IsNotExist(err) { // There's no file until something is appended to one of its arrays
 		return []int64{}, err
 	}
 
@@ -84,8 +84,11 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		ms.latestFilepath = filepath
 		ms.latestFileNumber = fileNumber
 		err = ms.latestIntArrayArray.LoadFile(filepath)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			// We don't mind about file not found, happy to be empty
+			ms.latestFilepath = ""
+			ms.latestFileNumber = 0
+			return err
 		}
 		// Append to the array
 		ms.latestIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
@@ -111,8 +114,10 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 		// Make a note of the filename
 		ms.olderFilepath = filepath
 		err := ms.olderIntArrayArray.LoadFile(filepath)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			// We don't mind a file not found here
+			ms.olderFilepath = ""
+			return err
 		}
 		// And append to it
 		ms.olderIntArrayArray.AppendToArray(arrayKey%ms.arrayCountPerFile, value)
-- 
2.43.0


From 72aa17ba94cb899364d0dd3c7635a4774ad6b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 38/90] fix: asking for the outputs of an address hash that is
 not stored panicked

---
 chainstorage/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainstorage/address.go b/chainstorage/address.go
index 75d9bcf..6f19a42 100644
--- a/chainstorage/address.go
+++ b/chainstorage/address.go
@@ -1,6 +1,8 @@
 package chainstorage
 
 import (
+	"errors"
+
 	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
 	"github.com/KitchenMishap/pudding-shed/indexedhashes"
 )
@@ -25,6 +27,9 @@ func (adr *Address) populate() error {
 		if err != nil {
 			return err
 		}
+		if addressHeight == -1 {
+			return errors.New("address hash not found")
+		}
 	}
 	if !adr.handle.hashSpecified {
 		err := adr.data.addrHashes.GetHashAtIndex(addressHeight, &adr.handle.hash)
-- 
2.43.0


From a6dc79398c39426a0d845ff72f9417d6a75d6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 39/90] fix: reading or writing outside a mapped or in-memory
 file panicked instead of giving an error

---
 memfile/fixedsize.go            | 16 +++++++++++++---
 memfile/mmapfile.go             |  3 +++
 wordfile/memshadowedwordfile.go |  4 ++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/memfile/fixedsize.go b/memfile/fixedsize.go
index 875fd85..99d7ab6 100644
--- a/memfile/fixedsize.go
+++ b/memfile/fixedsize.go
@@ -2,6 +2,7 @@ package memfile
 
 import (
 	"errors"
+	"io"
 	"os"
 )
 
@@ -25,15 +26,24 @@ func NewFixedSizeMemFile(filename string, perm os.FileMode) (SparseLookupFile, e
 }
 
 func (f fixedSizeMemFile) ReadAt(p []byte, off int64) (n int, err error) {
-	copied := copy(p, f.buffer[off:off+int64(len(p))])
+	if off < 0 {
+		return 0, errors.New("memfile.fixedSizeMemFile.ReadAt(): Negative offset")
+	}
+	if off > int64(len(f.buffer)) {
+		return 0, io.EOF
+	}
+	copied := copy(p, f.buffer[off:])
 	if copied == len(p) {
 		return copied, nil
 	}
-	return copied, errors.New("memfile.fixedSizeMemFile.ReadAt(): Couldn't read requested bytes from mem")
+	return copied, io.EOF
 }
 
 func (f fixedSizeMemFile) WriteAt(p []byte, off int64) (n int, err error) {
-	copied := copy(f.buffer[off:off+int64(len(p))], p)
+	if off < 0 || off > int64(len(f.buffer)) {
+		return 0, errors.New("memfile.fixedSizeMemFile.WriteAt(): Offset is outside the fixed size")
+	}
+	copied := copy(f.buffer[off:], p)
 	if copied == len(p) {
 		return copied, nil
 	}
diff --git a/memfile/mmapfile.go b/memfile/mmapfile.go
index 75e7732..f6535a7 100644
--- a/memfile/mmapfile.go
+++ b/memfile/mmapfile.go
@@ -38,6 +38,9 @@ func NewMmapReadOnly(f *os.File) (*MmapReadOnly, error) {
 }
 
 func (m *MmapReadOnly) ReadAt(p []byte, off int64) (n int, err error) {
+	if off < 0 {
+		return 0, errors.New("MmapReadOnly: negative offset")
+	}
 	if off >= int64(len(m.data)) {
 		return 0, io.EOF
 	}
diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index 54311af..5bd5f3d 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -1,6 +1,7 @@
 package wordfile
 
 import (
+	"errors"
 	"github.com/KitchenMishap/pudding-shed/memfile"
 	"io"
 	"os"
@@ -38,6 +39,9 @@ func (wf *MemShadowedWordFile) ReadWholeFileAsInt64s() ([]int64, error) {
 }
 
 func (wf *MemShadowedWordFile) WriteWordAt(val int64, off int64) error {
+	if off < 0 {
+		return errors.New("cannot write a word at a negative index")
+	}
 	// Write to shadow and underlying
 	length := int64(len(wf.shadow))
 	if off >= length {
-- 
2.43.0


From 473ba5104198eb23c78495fb1616ebc0d268af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 40/90] fix: an error in a transaction's outputs left its
 inputs being written, or their goroutine waiting for ever

---
 chainstorage/concreteappendablechain.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index 2c293f2..bbb6335 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -287,6 +287,13 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 
 	// Txis can (we hope) be written in parallel to txos. We therefore branch off a goroutine for the txis
 	myChan := make(chan error)
+	txisDone := false
+	defer func() {
+		// Even after an error below, don't leave the goroutine writing txis
+		if !txisDone {
+			<-myChan
+		}
+	}()
 	go func() {
 		nTxis, err := trans.TxiCount()
 		if err != nil {
@@ -369,6 +376,7 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 
 	// Wait for the txis to be done
 	err = <-myChan
+	txisDone = true
 	if err != nil {
 		return -1, err
 	}
@@ -729,6 +737,13 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 
 	// Txis can (we hope) be written in parallel to txos. We therefore branch off a goroutine for the txis
 	myChan := make(chan error)
+	txisDone := false
+	defer func() {
+		// Even after an error below, don't leave the goroutine writing txis
+		if !txisDone {
+			<-myChan
+		}
+	}()
 	go func() {
 		// We MUST write to the trnFirstTxi file, REGARDLESS of whether there ARE any Txis
 		putativeTxiHeight, err := cac.txiTx.CountWords() // Count all the txis by counting the txiTx field file
@@ -790,6 +805,7 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 
 	// Wait for the txis to be done
 	err = <-myChan
+	txisDone = true
 	if err != nil {
 		return -1, err
 	}
-- 
2.43.0


From ced0cf0f71a69449ad05344fe12ca5d2ee1e1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 41/90] fix: a transaction whose hash is not indexed was taken
 for transaction -1

---
 chainstorage/concreteappendablechain.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index bbb6335..5d5b02d 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -228,6 +228,9 @@ func (cac *concreteAppendableChain) appendTransactionFrame(blockChain chainreadi
 		if err != nil {
 			return -1, err
 		}
+		if transNum == -1 {
+			return -1, errors.New("must be able to find index of transaction hash")
+		}
 		if trans.HeightSpecified() && trans.Height() != transNum {
 			panic("cannot append a transaction out of sequence")
 		}
@@ -706,6 +709,12 @@ func (cac *concreteAppendableChain) appendTransactionFrameChi(
 	if !cac.transactionIndexingIsDelegated {
 		// We now assume that all hashes have already been stored and indexed
 		transNum, err := cac.trnHashes.IndexOfHash(&transHash) // ToDo is this legal in the face of duplicate trans hashes?
+		if err != nil {
+			return -1, err
+		}
+		if transNum == -1 {
+			return -1, errors.New("must be able to find index of transaction hash")
+		}
 		err = cac.parentBlockOfTrans.WriteWordAt(blkNum, transNum)
 		if err != nil {
 			return -1, err
-- 
2.43.0


From f7e4d3e919164736b0cc622bda4a1c75ddedd150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 42/90] fix: a failure to write the last hashes or blocks of a
 run went unreported

---
 chainstorage/concretehasheschain.go |  3 +++
 jobs/intrinsicparallel.go           | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/chainstorage/concretehasheschain.go b/chainstorage/concretehasheschain.go
index 68485a5..5322d50 100644
--- a/chainstorage/concretehasheschain.go
+++ b/chainstorage/concretehasheschain.go
@@ -171,6 +171,9 @@ func (chc *concreteHashesChain) AppendHashesChi(chain chainhandleinterface.IBloc
 			// and is not generally known to bitcoiners
 			puddingHash3 := indexedhashes.HashOfBytes(chc.za_txoReceiver.ScriptPubBytes)
 			_, err = chc.adrHashList.AppendHash(puddingHash3)
+			if err != nil {
+				return err
+			}
 		} // for txo
 	} // for trans
 
diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 1334fd9..031881d 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -351,8 +351,10 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 		progress.Update(transCount)
 	}
 
+	// Close() doesn't report a failure to write what is still buffered
+	err = hc.Sync()
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, transactions int64, threads int, backslashR string) error {
@@ -436,8 +438,10 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 		progress.Update(transCount)
 	}
 
+	// Close() doesn't report a failure to write what is still buffered
+	err = hc.Sync()
 	hc.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
@@ -506,6 +510,7 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 		if height%10000 == 0 {
 			err = ac.Sync()
 			if err != nil {
+				ac.Close()
 				return err
 			}
 		}
@@ -531,8 +536,10 @@ func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	// Close() doesn't report a failure to write what is still buffered
+	err = ac.Sync()
 	ac.Close()
-	return nil
+	return err
 }
 
 func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
@@ -596,6 +603,7 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 		if height%10000 == 0 {
 			err := ac.Sync()
 			if err != nil {
+				ac.Close()
 				return err
 			}
 		}
@@ -622,8 +630,10 @@ func PhaseThreeParallelIntrinsic(blocks int64, useJson bool,
 		height++
 	}
 	fmt.Println()
+	// Close() doesn't report a failure to write what is still buffered
+	err := ac.Sync()
 	ac.Close()
-	return nil
+	return err
 }
 
 type Progress struct {
-- 
2.43.0


From 714e02e1aa29cbd17b0818d216acb416c1301ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 43/90] fix: reopening the lists of hashes overwrote them from
 the start

---
 chainstorage/concretehasheschainfactory.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..1cf1d3f 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -97,7 +97,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	info, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.blkHashList = *wordfile.NewHashFile(opt, info.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -107,7 +111,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	info, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.trnHashList = *wordfile.NewHashFile(opt, info.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -117,7 +125,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	info, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.adrHashList = *wordfile.NewHashFile(opt, info.Size()/32)
 
 	return &result, nil
 }
-- 
2.43.0


From 45777e2cc6b3199a6f661a89242d8fdae18ad47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 44/90] fix: blocks could seem complete while a failed fetch
 was still panicking

---
 corereader2/getparseblocksbinary.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corereader2/getparseblocksbinary.go b/corereader2/getparseblocksbinary.go
index 3d0c094..e00d211 100644
--- a/corereader2/getparseblocksbinary.go
+++ b/corereader2/getparseblocksbinary.go
@@ -44,7 +44,6 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 	for range threads {
 		wg.Add(1)
 		go func() {
-			defer wg.Done()
 			for numbered := range chanNumbered {
 				// Convert binary hash to string hash
 				hashString := ToHexHash(numbered.BlockHash[0:32])
@@ -80,6 +79,8 @@ func GetAndParseBlocks(inChan chan indexedhashes.Sha256, useJson bool,
 					panic("Retries failed") // ToDo
 				}
 			}
+			// Not deferred: a panic must not let outChan be closed as if all blocks had arrived
+			wg.Done()
 		}()
 	}
 	go func() {
-- 
2.43.0


From 8266770eca0ad2a0c11449d9806495ee7c1fd7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 45/90] fix: a block not appended yet seemed to have (negative)
 transactions

---
 chainstorage/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainstorage/block.go b/chainstorage/block.go
index 6f7867d..8fb5959 100644
--- a/chainstorage/block.go
+++ b/chainstorage/block.go
@@ -1,6 +1,8 @@
 package chainstorage
 
 import (
+	"errors"
+
 	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
 	"github.com/KitchenMishap/pudding-shed/indexedhashes"
 )
@@ -38,6 +40,9 @@ func (block *Block) TransactionCount() (int64, error) {
 	if err != nil {
 		return -1, err
 	}
+	if block.height < 0 || block.height >= blocksInChain {
+		return -1, errors.New("block is not in the chain")
+	}
 	transInChain, err := block.data.transactionsInChain()
 	if err != nil {
 		return -1, err
-- 
2.43.0


From 8c1f481315a5b13475e803331f6ac38bc0819fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 46/90] fix: a failure to write the parameters of a hash store
 went unreported

---
 indexedhashes3/hashstorecreator.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index e904494..d9db781 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -25,10 +25,10 @@ func NewHashStoreCreatorAndPreloader(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(hashStoreFolderPath+sep+"HashIndexingParams.json", params)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -50,10 +50,10 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	sep := string(os.PathSeparator)
 	hashStoreFolderPath := folder + sep + name
 
-	fileParams, _ := os.Create(hashStoreFolderPath + sep + "HashIndexingParams.json")
-	defer fileParams.Close()
-	byts, _ := json.Marshal(params)
-	_, _ = fileParams.Write(byts)
+	err := writeParamsFile(hashStoreFolderPath+sep+"HashIndexingParams.json", params)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	creator := NewHashStoreCreatorPrivate(params, hashStoreFolderPath, false)
 	filename := folder + sep + name + sep + "BinNums.int"
@@ -72,6 +72,14 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	return creator, preloader, nil
 }
 
+func writeParamsFile(filePath string, params *HashIndexingParams) error {
+	byts, err := json.Marshal(params)
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(filePath, byts, 0666)
+}
+
 func NewHashStoreCreatorFromFile(
 	folder string, name string, hashesInRamDANGER bool) (indexedhashes.HashStoreCreator, error) {
 	sep := string(os.PathSeparator)
-- 
2.43.0


From 7c187903a1927b3ab6db14fcfb4283d66442a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 47/90] fix: non-essential integer files that cannot be opened
 were silently left out of the chain

---
 .../concreteappendablechainfactory.go         | 36 ++++++++++++++-----
 chainstorage/concretereadablechain.go         | 19 ++++++++++
 2 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..3777d28 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -477,9 +477,14 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 	for supportedName, size := range cacc.supportedBlkNeis {
 		blkNonEssentialIntCreator := wordfile.NewConcreteWordFileCreator(supportedName, cacc.blocksFolder, int64(size), false, cacc.isInRam)
 		wfile, err := blkNonEssentialIntCreator.OpenWordFile()
-		if err == nil {
-			result.blkNonEssentialInts[supportedName] = wfile
+		if errors.Is(err, os.ErrNotExist) {
+			continue
 		}
+		if err != nil {
+			result.Close()
+			return nil, err
+		}
+		result.blkNonEssentialInts[supportedName] = wfile
 	}
 
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadWriteAtWordCounter)
@@ -488,9 +493,14 @@ func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableCh
 	for supportedName, size := range cacc.supportedTrnNeis {
 		trnNonEssentialIntCreator := wordfile.NewConcreteWordFileCreator(supportedName, cacc.transactionsFolder, int64(size), false, cacc.isInRam)
 		wfile, err := trnNonEssentialIntCreator.OpenWordFile()
-		if err == nil {
-			result.trnNonEssentialInts[supportedName] = wfile
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		}
+		if err != nil {
+			result.Close()
+			return nil, err
 		}
+		result.trnNonEssentialInts[supportedName] = wfile
 	}
 
 	return &result, nil
@@ -698,9 +708,14 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 	for supportedName, size := range cacc.supportedBlkNeis {
 		blkNonEssentialIntCreator := wordfile.NewConcreteWordFileCreator(supportedName, cacc.blocksFolder, int64(size), false, cacc.isInRam)
 		wfile, err := blkNonEssentialIntCreator.OpenWordFileReadOnly()
-		if err == nil {
-			result.blkNonEssentialInts[supportedName] = wfile
+		if errors.Is(err, os.ErrNotExist) {
+			continue
 		}
+		if err != nil {
+			result.closeFiles()
+			return nil, err
+		}
+		result.blkNonEssentialInts[supportedName] = wfile
 	}
 
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
@@ -709,9 +724,14 @@ func (cacc *ConcreteAppendableChainCreator) openReadOnlyPrivate() (*concreteRead
 	for supportedName, size := range cacc.supportedTrnNeis {
 		trnNonEssentialIntCreator := wordfile.NewConcreteWordFileCreator(supportedName, cacc.transactionsFolder, int64(size), false, cacc.isInRam)
 		wfile, err := trnNonEssentialIntCreator.OpenWordFileReadOnly()
-		if err == nil {
-			result.trnNonEssentialInts[supportedName] = wfile
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		}
+		if err != nil {
+			result.closeFiles()
+			return nil, err
 		}
+		result.trnNonEssentialInts[supportedName] = wfile
 	}
 
 	return &result, nil
diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index c2d9132..b780e01 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -36,6 +36,25 @@ var _ chainreadinterface.IHandleCreator = (*concreteReadableChain)(nil)
 var _ IParents = (*concreteReadableChain)(nil)
 var _ IPrivilegedFiles = (*concreteReadableChain)(nil)
 
+// closeFiles is for when opening has failed part way
+func (crc *concreteReadableChain) closeFiles() {
+	crc.blkHashes.Close()
+	crc.trnHashes.Close()
+	crc.addrHashes.Close()
+	for _, wfile := range []wordfile.ReadAtWordCounter{
+		crc.blkFirstTrans, crc.trnFirstTxi, crc.trnFirstTxo, crc.txiTx, crc.txiVout,
+		crc.txoSats, crc.txoAddress, crc.txoSpentTxi, crc.addrFirstTxo,
+		crc.parentBlockOfTrans, crc.parentTransOfTxi, crc.parentTransOfTxo} {
+		wfile.Close()
+	}
+	for _, wfile := range crc.blkNonEssentialInts {
+		wfile.Close()
+	}
+	for _, wfile := range crc.trnNonEssentialInts {
+		wfile.Close()
+	}
+}
+
 // Functions to implement IBlockTree as part of IBlockChain
 
 func (crc *concreteReadableChain) GenesisBlock() chainreadinterface.IBlockHandle {
-- 
2.43.0


From 6f22df289d5db6192edbf406b054ad0bf9216ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 48/90] fix: a failed save of an integer-array file destroyed
 what it held

---
 intarrayarray/intarrayarray.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/intarrayarray/intarrayarray.go b/intarrayarray/intarrayarray.go
index 4e6b8a4..c2a0f1f 100644
--- a/intarrayarray/intarrayarray.go
+++ b/intarrayarray/intarrayarray.go
@@ -70,10 +70,14 @@ func (iaa *IntArrayArray) SaveFile(filepath string) error {
 			buffer = append(buffer, byt8[0:iaa.elementByteSize]...) // Concatenation of slices
 		}
 	}
-	// Second write the file as a whole
-	err := os.WriteFile(filepath, buffer, 0755)
+	// Second write the file as a whole, to one side first so that a failed write leaves any existing file as it was
+	tempFilepath := filepath + ".tmp"
+	err := os.WriteFile(tempFilepath, buffer, 0755)
+	if err == nil {
+		err = os.Rename(tempFilepath, filepath)
+	}
 	if err != nil {
-		return err
+		_ = os.Remove(tempFilepath)
 	}
 	return err
 }
-- 
2.43.0


From 26aff8e2cae4154e5dfbd7cea89882e790151fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 49/90] fix: hashes by index in the top tier of a cake were
 wrong after its first baking

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..f7ed377 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From f7d45834a16aefe4668b5588be75860dac60438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 50/90] fix: the top tier of a cake kept the caller's bytes
 instead of a copy of the hash

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index f7ed377..ed8dcdd 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From ee495123b2b238fcd75197d3d82ee981ae1a7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 51/90] fix: levels of a cake from the tenth on were written to
 files of another name than read

---
 weddingcakeback/donutforestwrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..74b0d25 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -324,7 +324,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open for append or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
@@ -435,7 +435,7 @@ func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tier
 			}
 			if dfw.LevelFiles[levelNum] == nil {
 				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 				filePath := filepath.Join(tierFolderPath, filename)
 				var err error
 				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From 269fcbb397bf963aa48fb8158c80385d0be3ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 52/90] fix: after a baking the replaced, closed tier stayed in
 the chain of tiers of a cake

---
 weddingcakeback/donutforestwrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 74b0d25..4f03283 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -201,7 +201,12 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		// The tier about to be reopened below takes the place of the source tier's next tier,
+		// so it is the tier after that one which follows on
+		replacedTier := sourceReadable.GetNextTier()
+		if replacedTier != nil {
+			preservedNextTier = replacedTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From 51ab538dab3afd71821f586b77c23f0287cbe357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 53/90] fix: a hash not in a cake was taken for a stored one
 sharing the few bytes examined

---
 weddingcakeback/tierbelow.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..ccf4eed 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -238,9 +239,16 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 				prefixBytesCount)
 
 			if hashIndexId != HashIndexIdNoMatch {
-				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				// Found a potential match. Check the entire hash against the hashes file
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, donutForestInfo.FirstGlobalPresentationIndex)
+				storedHash := make([]byte, len(hash))
+				stored, err := tb.TryGetHashAtIndex(globalPi, storedHash)
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if stored && bytes.Equal(storedHash, hash) {
+					return globalPi, true, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 2ac1eb56f89196323566f5e0ac544417df4e17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 54/90] fix: lookups in cake tiers of two prefix bytes or more
 used the jump table in another order than written

---
 weddingcakeback/tierbelow.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index ccf4eed..31a47a1 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,11 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		// The jump table is written with the latest examined byte varying fastest
+		prefixIndex = prefixIndex<<8 | int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From 63f7a359cdc89d41eba39bc9cff298de650a2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 55/90] fix: a hash alone in its tree of a lower cake tier was
 not found

---
 weddingcakeback/singletree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..5020d2f 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,10 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The reassurance bytes are the first few (if there are that many) after the prefix
+		reassuranceEnd := min(int(PrefixBytesN)+int(reassuranceBytes), int(hashLength))
+		leafNode.ReassuranceHashBytes = make([]byte, 0, reassuranceBytes)
+		leafNode.ReassuranceHashBytes = append(leafNode.ReassuranceHashBytes, input[0].Hash[PrefixBytesN:reassuranceEnd]...)
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From 0c5310c10e18fb43b87fc988abb10256f5231376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 56/90] fix: nodes of cake forests of many trees were not where
 their ids said

---
 weddingcakeback/donutforestwrite.go | 57 ++++++++++++++++-------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 4f03283..92f0c38 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,9 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level and format group, where in the level's file the next node of that group goes.
+	// (A forest has many trees, but the nodes of a group are together, as their node id's are)
+	LevelGroupOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -117,7 +121,7 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
 			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			err = dfw.writeToLevelsFiles(levelsNodesBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -332,23 +336,33 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		nodesOffset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+		nodesOffset += int64(len(levelIndexBytes))
+		dfw.LevelGroupOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.LevelGroupOffsets[levelNum][groupIndex] = nodesOffset
+			nodesOffset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result is a slice for each level of the tree, of byte slices for each format group of the level.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -361,10 +375,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each level and group, a byte slice
+	levelsNodesBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsNodesBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -373,7 +387,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -395,6 +408,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			levelNodesBytes := &levelsNodesBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -432,26 +446,19 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	return levelsNodesBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
-				if err != nil {
-					return err
-				}
+func (dfw *DonutForestWrite) writeToLevelsFiles(levelsNodesBytes [][][]byte) error {
+	for levelNum, groupsNodesBytes := range levelsNodesBytes {
+		for groupIdx, groupNodesBytes := range groupsNodesBytes {
+			if len(groupNodesBytes) == 0 {
+				continue
 			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
+			// The file was opened, and offsets prepared, when the index bytes were written
+			groupOffset := &dfw.LevelGroupOffsets[levelNum][groupIdx]
+			_, err := dfw.LevelFiles[levelNum].WriteAt(groupNodesBytes, *groupOffset)
 			if err != nil {
 				return err
 			}
+			*groupOffset += int64(len(groupNodesBytes))
 		}
 	}
 	return nil
-- 
2.43.0


From adbd70fbc59a32aac26bf4fd60e674dc6298b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 57/90] fix: only the first chunk of chunk files was read, with
 the levels of the last

---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From 61919572985d0d40367288aaf04b9d98160fb096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 58/90] fix: a negative number asked of tier zero was a crash,
 not an error

---
 weddingcake/tierzero.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index e8e9341..da950ef 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -68,7 +68,7 @@ func (tz *TierZero) IndexOfHash(hash *Sha256) (int64, error) {
 }
 
 func (tz *TierZero) GetHashAtIndex(index int64, hash *Sha256) error {
-	if index < int64(len(tz.theSlice)) {
+	if index >= 0 && index < int64(len(tz.theSlice)) {
 		*hash = tz.theSlice[index]
 		return nil
 	}
-- 
2.43.0


From 60bfbff31fe36ba3998056edfb60848b78e36d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 59/90] fix: a tree of 64-byte hashes as deep as can be was a
 crash

---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From 0ecc9f2d275b2f75c8d08a3d87a36ded064378ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 60/90] fix: the padding of small nodes hid the hash whose byte
 is zero

---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 585ee1b..387252d 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -442,7 +442,9 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 				lookup0 := nc.bytes[nodeByteOffset+1+int32(item)*3+1]
 				lookup1 := nc.bytes[nodeByteOffset+1+int32(item)*3+2]
 				lookup := uint16(lookup0) + uint16(lookup1)<<8
-				lookups[hashByteVal] = lookup
+				if lookup != 0 { // Padding must not hide the lookup for a hashByteVal of zero
+					lookups[hashByteVal] = lookup
+				}
 			}
 		} else if nodeSpecParams.nodeFormat == formatMedium {
 			// There are 256 bits of flags, each '1' indicating there is a lookup to be read
-- 
2.43.0


From d55d5d5835fc751c08bf3ed351f1ad014dc9e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 61/90] fix: a tree of no hashes could not be serialized

---
 indexedhashestree/multiplefixednodesize.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 387252d..5afd766 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -254,8 +254,10 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 		oldNodeIndex := sortedNodeReconfig[newNodeIndex].shallowTreeIndex
 		mapNewIdFromOld[oldNodeIndex] = uint16(newNodeIndex + 1)
 	}
-	// Store the root nodeId
-	result.rootNodeId = mapNewIdFromOld[0]
+	// Store the root nodeId (an empty tree has none)
+	if nodeCount > 0 {
+		result.rootNodeId = mapNewIdFromOld[0]
+	}
 
 	// Then, finally, the actual bytes
 	nextReconfig = uint16(0)
-- 
2.43.0


From 5e06a8fd67fa66de4e29982d9d3d9a3ca534086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 62/90] fix: a repeated hash found only after all 32 of its
 bytes was lost

---
 indexedhashestree/multiplefixednodesize.go | 13 +++++--------
 indexedhashestree/shallowtree.go           |  5 -----
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 5afd766..91aceb0 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -107,7 +107,7 @@ const formatDuplicate = 4
 func newContainerParamsConfigA() *containerParams {
 	result := containerParams{}
 	result.nodeSpecs = make([]*nodeSpec, 0)
-	for nodeLevel := 0; nodeLevel < 32; nodeLevel++ {
+	for nodeLevel := 0; nodeLevel <= 32; nodeLevel++ { // Level 32 is for duplicates, when all 32 bytes have been examined
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatTiny, 2)) // Important - 86% of nodes!
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatTiny, 3)) // 9% of nodes
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatTiny, 4)) // 0.5% of nodes
@@ -212,7 +212,7 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	// Then the offsets to each batch of nodes having identical nodeSpecs
 	byteOffset := int32(0)
 	nextReconfig := uint16(0)
-	levelByteOffsets := make([]int32, 33)
+	levelByteOffsets := make([]int32, 34)
 	currentLevel := 0
 	for i := range cp.nodeSpecs {
 		result.nodeIdStartingEachSpec[i] = nextReconfig + 1
@@ -234,12 +234,12 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	}
 
 	// Cap off all remaining trailing unused levels
-	for lev := currentLevel + 1; lev <= 32; lev++ {
+	for lev := currentLevel + 1; lev <= 33; lev++ {
 		levelByteOffsets[lev] = byteOffset
 	}
 	result.bytes = make([]byte, byteOffset) // Allocate bytes for all the levels
-	result.nodeLevelBytes = make([][]byte, 32)
-	for level := 0; level <= 31; level++ {
+	result.nodeLevelBytes = make([][]byte, 33)
+	for level := 0; level <= 32; level++ {
 		result.nodeLevelBytes[level] = result.bytes[levelByteOffsets[level]:levelByteOffsets[level+1]]
 	}
 	result.bytes = result.bytes[:0] // Empty it (keep capacity) so we can conveniently append to it
@@ -504,8 +504,5 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 		// Must be a link to a node
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeId = linkIndex
-		if byteBits == 0xFFFFFFFF {
-			return -1, true, byteBits // ToDo: What does this mean? Should we panic?
-		} // A link too far
 	}
 }
diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index fcb05d4..0cfe00a 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -217,7 +217,6 @@ func (stc *shallowTreeContainer) lookupHash(hash [32]byte) (int64, bool) {
 	rootNodeIndex := 0
 
 	nextNodeIndex := uint16(rootNodeIndex)
-	bytesLeft := 32
 	for {
 		node := &stc.nodesPool[nextNodeIndex]
 		hashByteIndex := node.hashByteIndex
@@ -243,10 +242,6 @@ func (stc *shallowTreeContainer) lookupHash(hash [32]byte) (int64, bool) {
 		// Must be a link to a node
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeIndex = linkIndex
-		bytesLeft -= 1
-		if bytesLeft == 0 {
-			return -1, true // I think this is a duplicate?
-		} // A link too far
 	}
 }
 
-- 
2.43.0


From feb4b73c33f6f69e6552345377a2154b328d41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 63/90] fix: a serialized tree filling its 16 bits exactly took
 a node for a hash

---
 indexedhashestree/shallowtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index 0cfe00a..9f05ddf 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -180,7 +180,8 @@ func (stc *shallowTreeContainer) recurseGenerateNode(inputCopy []shallowTreeHash
 
 			// If the encoded value collides with or drops below
 			// our upward-bound hash count, we have run out of 16-bit address space.
-			if encodedValue <= stc.presentationsCount {
+			// (One value is kept spare, as the node ids of the serialized tree start at one)
+			if encodedValue <= stc.presentationsCount || encodedValue-1 <= stc.presentationsCount {
 				stc.reset()
 				return -1, true
 			}
-- 
2.43.0


From 57cb715330fa450bdac1f82b9bb0c17c8f1fab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 64/90] fix: a hash index which fails to open left its files
 open

---
 indexedhashes3/hashstore.go        | 1 +
 indexedhashes3/hashstorecreator.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/indexedhashes3/hashstore.go b/indexedhashes3/hashstore.go
index 690513c..246ff6e 100644
--- a/indexedhashes3/hashstore.go
+++ b/indexedhashes3/hashstore.go
@@ -40,6 +40,7 @@ func newHashStoreObject(params *HashIndexingParams, folderPath string,
 	if hashesInRamDANGER {
 		err := result.loadHashesToRam()
 		if err != nil {
+			_ = result.binNumFileWrite.Close()
 			return nil, err
 		}
 	}
diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d9db781..e73550a 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -153,6 +153,7 @@ func (c *ConcreteHashStoreCreator) OpenHashStore() (indexedhashes.HashReadWriter
 	}
 	hashStore, err := newHashStoreObject(c.params, c.folderPath, c.binNumWordFileCreator, binStartsFile, c.hashesInRamDANGER)
 	if err != nil {
+		_ = binStartsFile.Close()
 		return nil, err
 	}
 	return hashStore, nil
@@ -167,6 +168,7 @@ func (c *ConcreteHashStoreCreator) OpenHashStoreReadOnly() (indexedhashes.HashRe
 	}
 	hashStore, err := newHashStoreObjectReadOnly(c.params, c.folderPath, c.binNumWordFileCreator, binStartsFile)
 	if err != nil {
+		_ = binStartsFile.Close()
 		return nil, err
 	}
 	return hashStore, nil
-- 
2.43.0


From 7f71508a55ed7dd36e1e0838432dcf0797d07939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 65/90] fix: a lower tier of a cake which fails to open left
 its file open and levels mapped

---
 weddingcakeback/tierbelow.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index 31a47a1..a93ecc3 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -120,6 +120,7 @@ func (tb *TierBelow) Open() error {
 	// Count the hashes
 	stat, err := tb.underlyingFile.Stat()
 	if err != nil {
+		_ = tb.underlyingFile.Close()
 		// Unmap the mmap'ed level files for a clean failure
 		for _, memoryMap := range tb.LevelXXNodesMemoryMaps {
 			_ = memoryMap.Unmap()
@@ -132,6 +133,7 @@ func (tb *TierBelow) Open() error {
 
 	aoFile, err := memfile.NewAppendOptimizedFile(tb.underlyingFile)
 	if err != nil {
+		_ = tb.underlyingFile.Close()
 		// Unmap the mmap'ed level files for a clean failure
 		for _, memoryMap := range tb.LevelXXNodesMemoryMaps {
 			_ = memoryMap.Unmap()
@@ -390,6 +392,10 @@ func (tb *TierBelow) mmapLevelFiles() error {
 			memoryMap, err := mmap.Map(file, mmap.RDONLY, 0)
 			if err != nil {
 				_ = file.Close()
+				// Unmap those already mmap'ed for a clean failure
+				for _, previousMap := range tb.LevelXXNodesMemoryMaps {
+					_ = previousMap.Unmap()
+				}
 				return err
 			}
 			tb.LevelXXNodesMemoryMaps = append(tb.LevelXXNodesMemoryMaps, memoryMap)
-- 
2.43.0


From cade40cc3391ee23f69d3fe7606bf73317298dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 66/90] fix: a cake which fails to open left the files of its
 tiers open

---
 weddingcakeback/tiertop.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index ed8dcdd..642ad32 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -57,6 +57,8 @@ func NewTierTop(cakeFolder string, config *CakeConfig, readOnly bool) (*TierTop,
 		if exists {
 			err = nextTier.Open()
 			if err != nil {
+				// Close the tiers already opened for a clean failure
+				_ = result.CloseAll()
 				return nil, err
 			}
 			tierSoFar.SetNextTier(nextTier)
@@ -86,6 +88,7 @@ func (tt *TierTop) Open(readOnly bool) error {
 	// Count the hashes
 	stat, err := tt.underlyingFile.Stat()
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	hashesCount := stat.Size() / int64(tt.config.HashLength)
@@ -96,18 +99,21 @@ func (tt *TierTop) Open(readOnly bool) error {
 
 	firstPiFile, err := os.Open(filepath.Join(tt.folder, "TierTop", "FirstPresentationIndex.bin"))
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	defer func() { _ = firstPiFile.Close() }()
 	var firstPi GlobalPiType
 	err = binary.Read(firstPiFile, binary.LittleEndian, &firstPi)
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	tt.firstGlobalPresentationIndex = firstPi
 
 	aoFile, err := memfile.NewAppendOptimizedFile(tt.underlyingFile)
 	if err != nil {
+		_ = tt.underlyingFile.Close()
 		return err
 	}
 	tt.hashesFile = wordfile.NewHashFile(aoFile, hashesCount)
@@ -118,6 +124,7 @@ func (tt *TierTop) Open(readOnly bool) error {
 	for i := TierTopIndex(0); i < TierTopIndex(hashesCount); i++ {
 		hash, err := tt.hashesFile.ReadHashAt(int64(i))
 		if err != nil {
+			_ = tt.underlyingFile.Close()
 			return err
 		}
 		tt.theMap[hash] = i
-- 
2.43.0


From 2d782cdd635b11add4e8314677818446ec7d174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 67/90] fix: a tier zero which fails to open left its file open

---
 weddingcake/tierzero.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index da950ef..60e3dce 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -35,12 +35,14 @@ func NewTierZero(filepath string, readOnly bool) (*TierZero, error) {
 	// Count the hashes
 	stat, err := file.Stat()
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
 
 	aoFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	result.hashesFile = wordfile.NewHashFile(aoFile, hashesCount)
@@ -51,6 +53,7 @@ func NewTierZero(filepath string, readOnly bool) (*TierZero, error) {
 	for i := int64(0); i < hashesCount; i++ {
 		hash, err := result.hashesFile.ReadHashAt(i)
 		if err != nil {
+			_ = file.Close()
 			return nil, err
 		}
 		result.theMap[hash] = i
-- 
2.43.0


From 5da8e82a7d9192814a4d7f8511b7b2aa83fc29e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 68/90] fix: hash lists which fail to open left the others open

---
 chainstorage/concretehasheschainfactory.go | 43 ++++++++++------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index 1cf1d3f..603054e 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -89,47 +89,44 @@ func (chcc *ConcreteHashesChainCreator) Open() (IAppendableHashesChain, error) {
 func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, error) {
 	result := concreteHashesChain{}
 
-	file, err := os.OpenFile(path.Join(chcc.blocksFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
+	blkHashList, err := openHashList(chcc.blocksFolder)
 	if err != nil {
 		return nil, err
 	}
-	opt, err := memfile.NewAppendOptimizedFile(file)
-	if err != nil {
-		return nil, err
-	}
-	info, err := file.Stat()
-	if err != nil {
-		return nil, err
-	}
-	result.blkHashList = *wordfile.NewHashFile(opt, info.Size()/32)
+	result.blkHashList = *blkHashList
 
-	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
+	trnHashList, err := openHashList(chcc.transactionsFolder)
 	if err != nil {
+		result.blkHashList.Close()
 		return nil, err
 	}
-	opt, err = memfile.NewAppendOptimizedFile(file)
-	if err != nil {
-		return nil, err
-	}
-	info, err = file.Stat()
+	result.trnHashList = *trnHashList
+
+	adrHashList, err := openHashList(chcc.addressesFolder)
 	if err != nil {
+		result.blkHashList.Close()
+		result.trnHashList.Close()
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, info.Size()/32)
+	result.adrHashList = *adrHashList
+
+	return &result, nil
+}
 
-	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
+func openHashList(folder string) (*wordfile.HashFile, error) {
+	file, err := os.OpenFile(path.Join(folder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
 		return nil, err
 	}
-	opt, err = memfile.NewAppendOptimizedFile(file)
+	opt, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
-	info, err = file.Stat()
+	info, err := file.Stat()
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, info.Size()/32)
-
-	return &result, nil
+	return wordfile.NewHashFile(opt, info.Size()/32), nil
 }
-- 
2.43.0


From 2d586e108481b584761182800b476e01682cd146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 69/90] fix: a word file which fails to open left its file open

---
 wordfile/concretewordfilecreator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wordfile/concretewordfilecreator.go b/wordfile/concretewordfilecreator.go
index 60eb7e5..b850c25 100644
--- a/wordfile/concretewordfilecreator.go
+++ b/wordfile/concretewordfilecreator.go
@@ -81,17 +81,20 @@ func (wfc *ConcreteWordFileCreator) OpenWordFile() (ReadWriteAtWordCounter, erro
 
 	wordCount, err := wfc.countWords(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 
 	var result ReadWriteAtWordCounter
 	appendOptimizedFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	if wfc.memShadowed {
 		result, err = NewMemShadowedWordFile(appendOptimizedFile, file, wfc.wordSize, wordCount)
 		if err != nil {
+			_ = file.Close()
 			return nil, err
 		}
 	} else {
@@ -108,6 +111,7 @@ func (wfc *ConcreteWordFileCreator) OpenWordFileReadOnly() (ReadAtWordCounter, e
 
 	wordCount, err := wfc.countWords(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 
@@ -116,6 +120,7 @@ func (wfc *ConcreteWordFileCreator) OpenWordFileReadOnly() (ReadAtWordCounter, e
 	if wfc.memShadowed {
 		result, err = NewMemShadowedWordFile(fileWithSize, file, wfc.wordSize, wordCount)
 		if err != nil {
+			_ = file.Close()
 			return nil, err
 		}
 	} else {
-- 
2.43.0


From 3a03ba179e0d5595e647cd154881f8d34d90464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 70/90] fix: a uniform hash store which fails to open left its
 files open

---
 indexedhashes/uniform.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index d1811b2..1a63d1d 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -160,16 +160,19 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 	}
 	stat, err := file.Stat()
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	size := stat.Size()
 	underlying, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, err
 	}
 	store.hashFile = wordfile.NewHashFile(underlying, size/32)
 	file, err = os.OpenFile(uc.binStartsFilePath(), os.O_RDWR, 0755)
 	if err != nil {
+		_ = store.hashFile.Close()
 		return nil, err
 	}
 	store.binStartsFile = file
-- 
2.43.0


From 26b7137cc53ac5705d11e77a56cca25f3d85e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 71/90] fix: a uniform hash store opened read only was opened
 for writing

---
 indexedhashes/uniform.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 1a63d1d..5911404 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -146,6 +146,10 @@ func (uc *UniformHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
 }
 
 func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, error) {
+	return uc.openHashStoreFiles(os.O_RDWR)
+}
+
+func (uc *UniformHashStoreCreator) openHashStoreFiles(flag int) (*UniformHashStore, error) {
 	if !uc.HashStoreExists() {
 		return nil, errors.New("Hash store (folder) does not exist")
 	}
@@ -154,7 +158,7 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 	store.hashDivider = uc.params.HashDivider
 	store.numberedFolders = numberedfolders.NewNumberedFolders(0, uc.params.DigitsPerFolder)
 
-	file, err := os.OpenFile(uc.hashFilePath(), os.O_RDWR, 0755)
+	file, err := os.OpenFile(uc.hashFilePath(), flag, 0755)
 	if err != nil {
 		return nil, err
 	}
@@ -170,7 +174,7 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 		return nil, err
 	}
 	store.hashFile = wordfile.NewHashFile(underlying, size/32)
-	file, err = os.OpenFile(uc.binStartsFilePath(), os.O_RDWR, 0755)
+	file, err = os.OpenFile(uc.binStartsFilePath(), flag, 0755)
 	if err != nil {
 		_ = store.hashFile.Close()
 		return nil, err
@@ -180,8 +184,7 @@ func (uc *UniformHashStoreCreator) openHashStorePrivate() (*UniformHashStore, er
 }
 
 func (uc *UniformHashStoreCreator) OpenHashStoreReadOnly() (HashReader, error) {
-	store, err := uc.OpenHashStore()
-	return store, err
+	return uc.openHashStoreFiles(os.O_RDONLY)
 }
 
 type UniformHashStore struct {
-- 
2.43.0


From 5e9083b58b59c02f7eb53e7421bda1fb27e4658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 72/90] fix: entries of a bin were lost when its overflow file
 could not be read

---
 indexedhashes3/binfiles.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 23c435e..221b538 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -34,6 +34,9 @@ func loadBinFromSlice(theBinBytes []byte, bn binNum, ovf *overflowFiles, p *Hash
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
 		if err != nil {
 			// Do nothing when file doesn't exist
+			if !os.IsNotExist(err) {
+				return nil, err
+			}
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
@@ -65,6 +68,9 @@ func loadBinFromSliceIntoSlot(theBinBytes []byte, bn binNum, ovf *overflowFiles,
 		overflowBytes, err := os.ReadFile(overflowsFilepath)
 		if err != nil {
 			// Do nothing when file doesn't exist
+			if !os.IsNotExist(err) {
+				return err
+			}
 		} else {
 			theBinBytes = append(theBinBytes, overflowBytes...)
 		}
-- 
2.43.0


From 070f150781bcfa8498085a52a59c8859461ebcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 73/90] fix: a hash store whose hashes could not be counted
 left its file open

---
 indexedhashes/concretehashstorecreator.go       | 8 +++++++-
 indexedhashes/concretehashstorecreatormemory.go | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index 5e4fe96..fb4dd87 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -102,12 +102,17 @@ func (hsc *ConcreteHashStoreCreator) OpenHashStore() (HashReadWriter, error) {
 	// Count the hashes
 	stat, err := hashesFileUnderlying.Stat()
 	if err != nil {
+		hashesFileUnderlying.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
 	var hashesFile memfile.AppendableLookupFile
 	if hsc.useAppendOptimizedForHashes {
-		hashesFile, _ = memfile.NewAppendOptimizedFile(hashesFileUnderlying)
+		hashesFile, err = memfile.NewAppendOptimizedFile(hashesFileUnderlying)
+		if err != nil {
+			hashesFileUnderlying.Close()
+			return nil, err
+		}
 	} else {
 		hashesFile = hashesFileUnderlying
 	}
@@ -152,6 +157,7 @@ func (hsc *ConcreteHashStoreCreator) OpenHashStoreReadOnly() (HashReader, error)
 	// Count the hashes
 	stat, err := hashesFile.Stat()
 	if err != nil {
+		hashesFile.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index ecd6879..92ea19b 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -59,6 +59,7 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Count the hashes
 	stat, err := hashesFileUnderlying.Stat()
 	if err != nil {
+		hashesFileUnderlying.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
@@ -86,6 +87,7 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Count the hashes
 	stat, err := hashesFile.Stat()
 	if err != nil {
+		hashesFile.Close()
 		return nil, err
 	}
 	hashesCount := stat.Size() / 32
-- 
2.43.0


From cdfc2b09b7859be45826933e1707c94d58ba4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 74/90] fix: a hash whose lookup failed was said not to be
 found

---
 chainstorage/concretereadablechain.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index b780e01..ddda7ad 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -318,7 +318,10 @@ func (crc *concreteReadableChain) AddressHandleByHeight(addressHeight int64) (ch
 }
 func (crc *concreteReadableChain) AddressHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IAddressHandle, error) {
 	result := AddressHandle{}
-	index, _ := crc.addrHashes.IndexOfHash(&sha256)
+	index, err := crc.addrHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("address hash not found")
 	}
@@ -334,7 +337,10 @@ func (crc *concreteReadableChain) AddressHandleByString(address string) (chainre
 
 func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.ITransHandle, error) {
 	result := TransHandle{}
-	index, _ := crc.trnHashes.IndexOfHash(&sha256)
+	index, err := crc.trnHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("transaction hash not found")
 	}
@@ -346,7 +352,10 @@ func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.S
 
 func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256) (chainreadinterface.IBlockHandle, error) {
 	result := BlockHandle{}
-	index, _ := crc.blkHashes.IndexOfHash(&sha256)
+	index, err := crc.blkHashes.IndexOfHash(&sha256)
+	if err != nil {
+		return nil, err
+	}
 	if index == -1 {
 		return nil, errors.New("block hash not found")
 	}
-- 
2.43.0


From bda7bf5d474c92085a3382f2000950ea0903c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 75/90] fix: reading all of a file whose size cannot be told
 crashed

---
 memfile/appendoptimized.go | 5 ++++-
 memfile/filewithsize.go    | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 1fa106c..d1bd973 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -46,7 +46,10 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	info, _ := a.file.Stat()
+	info, err := a.file.Stat()
+	if err != nil {
+		return nil, err
+	}
 	size := info.Size()
 	data := make([]byte, size)
 	// Read from the start of the file, wherever earlier reads and appends left the file position
diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index e9f902d..c7e99d9 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -35,5 +35,9 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 }
 
 func (fws *FileWithSize) ReadAll() ([]byte, error) {
-	return io.ReadAll(io.NewSectionReader(fws.file, 0, fws.Size()))
+	stat, err := fws.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	return io.ReadAll(io.NewSectionReader(fws.file, 0, stat.Size()))
 }
-- 
2.43.0


From d6626c785074a889cdf0c710aa06e654013381e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 76/90] fix: hashes after one which could not be read were left
 out of an index without an error

---
 indexedhashes/multipasspreloader.go  | 8 ++++++--
 indexedhashes3/multipasspreloader.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index ee01f05..5f7a252 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"sync"
@@ -130,7 +131,7 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 
 	chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
 
-	nBytes, _ := hashesFile.Read(chunk)
+	nBytes, err := hashesFile.Read(chunk)
 	for nBytes > 0 {
 		if nBytes%32 != 0 {
 			return errors.New("invalid hash file length")
@@ -141,7 +142,10 @@ func (spd *SinglePassDetails) ReadIn(mp *MultipassPreloader) error {
 			spd.dealWithOneHash(&ih, mp)
 			ih.index++
 		}
-		nBytes, _ = hashesFile.Read(chunk)
+		nBytes, err = hashesFile.Read(chunk)
+	}
+	if err != io.EOF {
+		return err
 	}
 	return nil
 }
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 440160c..b793aef 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -3,6 +3,7 @@ package indexedhashes3
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
 
@@ -111,7 +112,7 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 		hashIndex := int64(0)
 		hash := [32]byte{}
 		chunk := make([]byte, 4096) // We read up to 4096 bytes at a time
-		nBytes, _ := hashesFile.Read(chunk)
+		nBytes, err := hashesFile.Read(chunk)
 		for nBytes > 0 {
 			if nBytes%32 != 0 {
 				return errors.New("invalid hash file length")
@@ -125,7 +126,10 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 				}
 				hashIndex++
 			}
-			nBytes, _ = hashesFile.Read(chunk)
+			nBytes, err = hashesFile.Read(chunk)
+		}
+		if err != io.EOF {
+			return err
 		}
 		return nil
 	}
-- 
2.43.0


From ac429fd4f08b11c2575d383de92e1780133ed2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 77/90] fix: indexing or testing hashes left files open

---
 indexedhashes3/adaptivepass.go          |  1 +
 indexedhashes3/adaptivepasspreloader.go | 10 ++++++++++
 indexedhashes3/hashstorecreator.go      |  2 ++
 indexedhashes3/multipasspreloader.go    | 12 ++++++++++++
 4 files changed, 25 insertions(+)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index ca3b68f..dcab65f 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -63,6 +63,7 @@ func stageOneCountBinWork(hashesFilepath string, params *HashIndexingParams) ([]
 	if err != nil {
 		return nil, err
 	}
+	defer fil.Close() // The second time, when all goes well
 	reader := bufio.NewReaderSize(fil, 64*1024*1024)
 
 	// Read first hash
diff --git a/indexedhashes3/adaptivepasspreloader.go b/indexedhashes3/adaptivepasspreloader.go
index d04995c..c9091f0 100644
--- a/indexedhashes3/adaptivepasspreloader.go
+++ b/indexedhashes3/adaptivepasspreloader.go
@@ -29,6 +29,15 @@ func NewAdaptivePassPreloader(params *HashIndexingParams, folderPath string,
 }
 
 func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
+	finished := false
+	defer func() {
+		if !finished {
+			_ = ap.binNumsWordFile.Close()
+			if ap.binStartsFile != nil {
+				_ = ap.binStartsFile.Close()
+			}
+		}
+	}()
 	err := ap.createInitialFiles()
 	if err != nil {
 		return err
@@ -59,6 +68,7 @@ func (ap *AdaptivePassPreloader) IndexTheHashes(threads int) error {
 	if err != nil {
 		return err
 	}
+	finished = true
 	fmt.Println("...Done passes")
 	return nil
 }
diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index e73550a..6478446 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -38,6 +38,7 @@ func NewHashStoreCreatorAndPreloader(folder string, name string,
 	}
 	appendOptimizedFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, nil, err
 	}
 	wordFile := wordfile.NewWordFile(appendOptimizedFile, file, params.BytesRoomForBinNum(), 0)
@@ -63,6 +64,7 @@ func NewHashStoreCreatorAndPreloaderAdaptive(folder string, name string,
 	}
 	appendOptimizedFile, err := memfile.NewAppendOptimizedFile(file)
 	if err != nil {
+		_ = file.Close()
 		return nil, nil, err
 	}
 	wordFile := wordfile.NewWordFile(appendOptimizedFile, file, params.BytesRoomForBinNum(), 0)
diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index b793aef..a77a6fb 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -35,6 +35,15 @@ func NewMultipassPreloader(params *HashIndexingParams, folderPath string,
 }
 
 func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
+	finished := false
+	defer func() {
+		if !finished {
+			_ = mp.binNumsWordFile.Close()
+			if mp.binStartsFile != nil {
+				_ = mp.binStartsFile.Close()
+			}
+		}
+	}()
 	err := mp.createInitialFiles()
 	if err != nil {
 		return err
@@ -85,6 +94,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	if err != nil {
 		return err
 	}
+	finished = true
 
 	return nil
 }
@@ -99,8 +109,10 @@ func (mp *MultipassPreloader) TestTheHashes() error {
 		wfc := wordfile.NewConcreteWordFileCreator("BinNums", mp.folderPath, mp.params.bytesRoomForBinNum, false, false)
 		hs, err := newHashStoreObject(mp.params, mp.folderPath, wfc, binStartsFile, false)
 		if err != nil {
+			_ = binStartsFile.Close()
 			return err
 		}
+		defer func() { _ = hs.Close() }()
 
 		hashesFilepath := mp.folderPath + sep + "Hashes.hsh"
 		hashesFile, err := os.Open(hashesFilepath)
-- 
2.43.0


From 26bed7a22208ae1c5e2988685e52dc8e365854a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 78/90] fix: testing a uniform hash store crashed with few
 hashes and took a failing read for a mismatch

---
 indexedhashes/uniform.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 5911404..7445194 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -385,7 +385,12 @@ func (us *UniformHashStore) Test() (bool, error) {
 			fmt.Println("Repeated hash at ", i, ", ", index)
 		}
 		hash2 := Sha256{}
-		err = us.GetHashAtIndex(index, &hash2)
+		if index != -1 {
+			err = us.GetHashAtIndex(index, &hash2)
+			if err != nil {
+				return false, err
+			}
+		}
 		for j := 0; j < 32; j++ {
 			if hash[j] != hash2[j] {
 				fmt.Println("Hash mismatch at ", i, ", ", index)
@@ -393,7 +398,7 @@ func (us *UniformHashStore) Test() (bool, error) {
 			}
 		}
 
-		if i%(count/100) == 0 {
+		if count < 100 || i%(count/100) == 0 {
 			percent := 100.0 * float64(i) / float64(count)
 			fmt.Println("Percentage tested:", percent)
 		}
-- 
2.43.0


From df57bb33bdf13193d071c9e67e19a92a1a2c23c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 79/90] fix: indexing a uniform hash store which fails left its
 file open

---
 indexedhashes/multipasspreloader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index 5f7a252..73ed63c 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -251,12 +251,14 @@ func (mp *MultipassPreloader) CreateInitialFiles() error {
 	err = mp.binStartsFile.Truncate(int64(bsFileSize))
 	if err != nil {
 		fmt.Println("Couldn't make a ", bsFileSize/1024/1024, "MB file")
+		_ = mp.binStartsFile.Close()
 		return err
 	}
 
 	ofFolderPath := mp.creator.folderPath() + sep + "BinOverflows"
 	err = os.MkdirAll(ofFolderPath, os.ModePerm)
 	if err != nil {
+		_ = mp.binStartsFile.Close()
 		return err
 	}
 	return nil
@@ -268,6 +270,8 @@ func (mp *MultipassPreloader) IndexTheHashes() error {
 		return err
 	}
 
+	defer mp.binStartsFile.Close() // The second time, when all goes well
+
 	biggestAddressPlusOne := BiggestAddressPlusOne(mp.creator.params.HashDivider)
 	bytesPerBin := int64(binStartSize)
 	binsPerPass := mp.bytesPerPass / bytesPerBin
-- 
2.43.0


From b96cd58dc751c25d57c8536c6c14ba1890cba8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 80/90] fix: gathering hashes which fails left the hash files
 open

---
 jobs/intrinsicparallel.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jobs/intrinsicparallel.go b/jobs/intrinsicparallel.go
index 031881d..eb60b1a 100644
--- a/jobs/intrinsicparallel.go
+++ b/jobs/intrinsicparallel.go
@@ -283,6 +283,7 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 	if err != nil {
 		return err
 	}
+	defer hc.Close()
 
 	// Now we start messing with channels and sequencers
 
@@ -352,9 +353,7 @@ func PhaseOneParallelIntrinsic(path string, useJson bool, blocks int64, transact
 	}
 
 	// Close() doesn't report a failure to write what is still buffered
-	err = hc.Sync()
-	hc.Close()
-	return err
+	return hc.Sync()
 }
 
 func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, transactions int64, threads int, backslashR string) error {
@@ -367,6 +366,7 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 	if err != nil {
 		return err
 	}
+	defer hc.Close()
 
 	// Now we start messing with channels and sequencers
 
@@ -439,9 +439,7 @@ func PhaseOneParallelIntrinsicChi(path string, useJson bool, blocks int64, trans
 	}
 
 	// Close() doesn't report a failure to write what is still buffered
-	err = hc.Sync()
-	hc.Close()
-	return err
+	return hc.Sync()
 }
 
 func PhaseThreeParallelIntrinsicChi(blocks int64, useJson bool,
-- 
2.43.0


From 0b733b836a9a0eeccc84bb9076423ae408becb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 81/90] fix: an append wrote over the start of a file when
 finding its end failed

---
 memfile/appendoptimized.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index d1bd973..b7781d7 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -97,7 +97,10 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 		// Previous operation was not append. But what about this operation?
 		if off == a.totalSize {
 			// Yes it is an append, set up a buffer and use it
-			a.file.Seek(0, io.SeekEnd)
+			_, err := a.file.Seek(0, io.SeekEnd)
+			if err != nil {
+				return 0, err
+			}
 			a.bufferedWriter = bufio.NewWriter(a.file)
 			nWritten, err := a.bufferedWriter.Write(p)
 			if err != nil {
-- 
2.43.0


From a7c09eda3c2dcb62bc609480d11dd2e3eea56bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 82/90] fix: entries of a bin were lost when writing its
 overflow file failed

---
 indexedhashes3/binfiles.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binfiles.go b/indexedhashes3/binfiles.go
index 221b538..6a4b2d7 100644
--- a/indexedhashes3/binfiles.go
+++ b/indexedhashes3/binfiles.go
@@ -155,8 +155,14 @@ func saveBinToFiles(bn binNum, b bin, binStartsFile *os.File, ovf *overflowFiles
 		if err != nil {
 			return err
 		}
-		err = os.WriteFile(overflowFilepath, overflowBytes, 0644)
+		// First to one side, so that a failed write leaves any existing file as it was
+		tempFilepath := overflowFilepath + ".tmp"
+		err = os.WriteFile(tempFilepath, overflowBytes, 0644)
+		if err == nil {
+			err = os.Rename(tempFilepath, overflowFilepath)
+		}
 		if err != nil {
+			_ = os.Remove(tempFilepath)
 			return err
 		}
 	}
-- 
2.43.0


From 6b82230152d1c65a27fa6b3bb7ae7bee3d2b3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 83/90] fix: a lookup file was lost when writing it back failed

---
 memfile/fixedsize.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/memfile/fixedsize.go b/memfile/fixedsize.go
index 99d7ab6..1545265 100644
--- a/memfile/fixedsize.go
+++ b/memfile/fixedsize.go
@@ -51,7 +51,21 @@ func (f fixedSizeMemFile) WriteAt(p []byte, off int64) (n int, err error) {
 }
 
 func (f fixedSizeMemFile) Close() error {
-	return os.WriteFile(f.filename, f.buffer, f.perm)
+	// Written to one side first, so that a failed write leaves the existing file as it was
+	perm := f.perm
+	info, err := os.Stat(f.filename)
+	if err == nil {
+		perm = info.Mode().Perm()
+	}
+	tempFilename := f.filename + ".tmp"
+	err = os.WriteFile(tempFilename, f.buffer, perm)
+	if err == nil {
+		err = os.Rename(tempFilename, f.filename)
+	}
+	if err != nil {
+		_ = os.Remove(tempFilename)
+	}
+	return err
 }
 
 func (f fixedSizeMemFile) Sync() error {
-- 
2.43.0


From 101a99d08f0611d8716fd69bc8dabb3e56963197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 84/90] fix: a stored hash was lost when writing its first
 collision failed

---
 indexedhashes/hashstore.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index ba37c9e..0c77f55 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -118,34 +118,24 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 			log.Println("AppendHash(): FATAL: Size of collisions file is now too large to index into")
 			return -1, err
 		}
-		chunkIndexBytes := [8]byte{0, 0, 0, 0, 0, 0, 0, 0}
-		binary.LittleEndian.PutUint64(chunkIndexBytes[0:8], uint64((availableChunks+1)|MSB))
-		_, err = hs.lookupsFile.WriteAt(chunkIndexBytes[0:NBYTES], partialKey*NBYTES)
-		if err != nil {
-			log.Println(err)
-			log.Println("AppendHash(): Could not WriteAt() into lookups file")
-			return -1, err
-		}
 
-		// Append lookup to collisions file
-		_, err = hs.collisionsFile.WriteAt(lookupBytes[0:NBYTES], filestat.Size())
-		if err != nil {
-			log.Println(err)
-			log.Println("AppendHash: Could not WriteAt() into collisions file")
-			return -1, err
-		}
-		// Append valnum+1 to collisions file
-		_, err = hs.collisionsFile.WriteAt(valnumBytes[0:NBYTES], filestat.Size()+NBYTES)
+		// The whole chunk is written before anything points to it, so that a failed write loses no entry
+		var chunkBytes [MAXCHUNK]byte
+		copy(chunkBytes[0:NBYTES], lookupBytes[0:NBYTES])
+		copy(chunkBytes[NBYTES:2*NBYTES], valnumBytes[0:NBYTES])
+		_, err = hs.collisionsFile.WriteAt(chunkBytes[0:NBYTES*(CPC+1)], availableChunks*NBYTES*(CPC+1))
 		if err != nil {
 			log.Println(err)
 			log.Println("AppendHash: Could not WriteAt() into collisions file")
 			return -1, err
 		}
-		var zeroBytes [ZEROBUF]byte
-		_, err = hs.collisionsFile.WriteAt(zeroBytes[0:(CPC+1-2)*NBYTES], filestat.Size()+NBYTES*2)
+
+		chunkIndexBytes := [8]byte{0, 0, 0, 0, 0, 0, 0, 0}
+		binary.LittleEndian.PutUint64(chunkIndexBytes[0:8], uint64((availableChunks+1)|MSB))
+		_, err = hs.lookupsFile.WriteAt(chunkIndexBytes[0:NBYTES], partialKey*NBYTES)
 		if err != nil {
 			log.Println(err)
-			log.Println("AppendHash: Could not WriteAt() into collisions file")
+			log.Println("AppendHash(): Could not WriteAt() into lookups file")
 			return -1, err
 		}
 	} else {
@@ -202,7 +192,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 					availableChunks := filestat.Size() / (NBYTES * (CPC + 1))
 					// Append a chunk of zeroes to the collisions file
 					var zeroBytes [ZEROBUF]byte
-					_, err = hs.collisionsFile.WriteAt(zeroBytes[0:NBYTES*(CPC+1)], filestat.Size())
+					_, err = hs.collisionsFile.WriteAt(zeroBytes[0:NBYTES*(CPC+1)], availableChunks*NBYTES*(CPC+1))
 					if err != nil {
 						log.Println(err)
 						log.Println("AppendHash(): Could not call WriteAt() on collisions file")
-- 
2.43.0


From 98fb43f8cb1874ede878f43bb4f1dd9898123c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 85/90] fix: a tier of a cake which could not be looked for or
 read was taken for an empty one

---
 weddingcakeback/tierbelow.go | 14 ++++++++++++--
 weddingcakeback/tiertop.go   |  7 ++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index a93ecc3..d375dab 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -61,11 +61,14 @@ func NewTierBelow(folder string, tierIndex byte, config *CakeConfig) *TierBelow
 	return &result
 }
 
-func (tb *TierBelow) ExistsOnDisk() bool {
+func (tb *TierBelow) ExistsOnDisk() (bool, error) {
 	// We deem a tier to exist on disk if Hashes.hsh file exists
 	hashesFilePath := filepath.Join(tb.TierFolder, "Hashes.hsh")
 	_, err := os.Stat(hashesFilePath)
-	return err == nil
+	if errors.Is(err, os.ErrNotExist) {
+		return false, nil
+	}
+	return err == nil, err
 }
 
 // OpenAsEmptyTier performs no disk access, and is for use when ExistsOnDisk() returns false.
@@ -379,6 +382,13 @@ func (tb *TierBelow) mmapLevelFiles() error {
 
 		// First we try to open the file
 		file, err := os.Open(fullName)
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
+			// Unmap those already mmap'ed for a clean failure
+			for _, previousMap := range tb.LevelXXNodesMemoryMaps {
+				_ = previousMap.Unmap()
+			}
+			return err
+		}
 		if err != nil {
 			// Empty level found
 			if nonEmptyLevelFound {
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 642ad32..0bf0f6d 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -53,7 +53,12 @@ func NewTierTop(cakeFolder string, config *CakeConfig, readOnly bool) (*TierTop,
 	// Check as many as are described in the config
 	for i := byte(0); i < byte(len(config.TierBelowConfigs)); i++ {
 		nextTier := NewTierBelow(cakeFolder, i, config)
-		exists := nextTier.ExistsOnDisk()
+		exists, err := nextTier.ExistsOnDisk()
+		if err != nil {
+			// Close the tiers already opened for a clean failure
+			_ = result.CloseAll()
+			return nil, err
+		}
 		if exists {
 			err = nextTier.Open()
 			if err != nil {
-- 
2.43.0


From bdb84b317f4f4b26bd7a298979f47a96385c7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 86/90] fix: a Close which fails left files open

Closing a file whose buffered bytes could not be written out did not close it,
and closing a hash store or a cake stopped at the first file which failed, so
the other files stayed open for good. Close everything, and return the first
error.
---
 indexedhashes/hashstore.go   | 25 ++++++++++++++-----------
 indexedhashes/uniform.go     |  8 +++-----
 indexedhashes3/hashstore.go  |  8 +++-----
 memfile/appendoptimized.go   |  4 +++-
 weddingcakeback/tierbelow.go | 34 ++++++++++++++++++++--------------
 weddingcakeback/tiertop.go   | 13 ++++++++-----
 6 files changed, 51 insertions(+), 41 deletions(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0c77f55..8446955 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -361,21 +361,24 @@ func (hs *HashStore) CountHashes() (int64, error) {
 }
 
 func (hs *HashStore) Close() error {
+	// Whatever goes wrong, no file stays open. The first error is the one returned
 	err := hs.hashesFile.Close()
-	if err != nil {
-		// Close() has printed any error
-		return err
-	}
-	err = hs.lookupsFile.Close()
-	if err != nil {
-		log.Println(err)
+	// Close() has printed any error
+	err2 := hs.lookupsFile.Close()
+	if err2 != nil {
+		log.Println(err2)
 		log.Println("HashStore::Close() could not call Close() on lookups file")
-		return err
+		if err == nil {
+			err = err2
+		}
 	}
-	err = hs.collisionsFile.Close()
-	if err != nil {
-		log.Println(err)
+	err2 = hs.collisionsFile.Close()
+	if err2 != nil {
+		log.Println(err2)
 		log.Println("HashStore::Close() could not call Close() on collisions file")
+		if err == nil {
+			err = err2
+		}
 	}
 	return err
 }
diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 7445194..07b4aff 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -345,14 +345,12 @@ func (us *UniformHashStore) CountHashes() (int64, error) {
 
 func (us *UniformHashStore) Close() error {
 	err := us.hashFile.Close()
+	// Whatever went wrong, neither file stays open
+	err2 := us.binStartsFile.Close()
 	if err != nil {
 		return err
 	}
-	err = us.binStartsFile.Close()
-	if err != nil {
-		return err
-	}
-	return nil
+	return err2
 }
 
 func (us *UniformHashStore) Sync() error {
diff --git a/indexedhashes3/hashstore.go b/indexedhashes3/hashstore.go
index 246ff6e..48388f6 100644
--- a/indexedhashes3/hashstore.go
+++ b/indexedhashes3/hashstore.go
@@ -154,14 +154,12 @@ func (h *hashStore) CountHashes() (int64, error) {
 func (h *hashStore) Close() error {
 	// if binNumFileWrite exists, it is equal to binNumFileRead
 	err := h.binNumFileRead.Close()
+	// Whatever went wrong, neither file stays open
+	err2 := h.binStartsFile.Close()
 	if err != nil {
 		return err
 	}
-	err = h.binStartsFile.Close()
-	if err != nil {
-		return err
-	}
-	return nil
+	return err2
 }
 
 func (h *hashStore) Sync() error {
diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index b7781d7..2449a15 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -124,10 +124,12 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 
 func (a *appendOptimizedFile) Close() error {
 	er := a.flush()
+	// Whatever went wrong, the file does not stay open
+	err := a.file.Close()
 	if er != nil {
 		return er
 	}
-	return a.file.Close()
+	return err
 }
 
 func (a *appendOptimizedFile) Size() int64 {
diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index d375dab..8c9f828 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -151,48 +151,54 @@ func (tb *TierBelow) Open() error {
 }
 
 func (tb *TierBelow) CloseAll() error {
+	// Whatever goes wrong, nothing stays open. The first error is the one returned
+	var result error
 	if tb.nextTier != nil {
-		err := tb.nextTier.CloseAll()
-		if err != nil {
-			return err
-		}
+		result = tb.nextTier.CloseAll()
+	}
+	err := tb.CloseThis()
+	if result == nil {
+		result = err
 	}
-	return tb.CloseThis()
+	return result
 }
 func (tb *TierBelow) CloseThis() error {
+	// Whatever goes wrong, nothing stays open. The first error is the one returned
+	var result error
+
 	// Unmap the mmap'ed files
 	for _, memoryMap := range tb.LevelXXNodesMemoryMaps {
 		err := memoryMap.Unmap()
-		if err != nil {
-			return err
+		if err != nil && result == nil {
+			result = err
 		}
 	}
 	tb.LevelXXNodesMemoryMaps = tb.LevelXXNodesMemoryMaps[:0]
 
 	if tb.JumpTableMemoryMap != nil {
 		err := tb.JumpTableMemoryMap.Unmap()
-		if err != nil {
-			return err
+		if err != nil && result == nil {
+			result = err
 		}
 		tb.JumpTableMemoryMap = nil
 	}
 
 	if tb.hashesFile != nil {
 		err := tb.hashesFile.Close()
-		if err != nil {
-			return err
+		if err != nil && result == nil {
+			result = err
 		}
 		tb.hashesFile = nil
 	}
 	if tb.underlyingFile != nil {
 		err := tb.underlyingFile.Close()
-		if err != nil && !errors.Is(err, os.ErrClosed) {
-			return err
+		if err != nil && !errors.Is(err, os.ErrClosed) && result == nil {
+			result = err
 		}
 		tb.underlyingFile = nil
 	}
 
-	return nil
+	return result
 }
 
 func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 0bf0f6d..ac2853d 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -173,13 +173,16 @@ func (tt *TierTop) CountHashes() (GlobalPiType, error) {
 }
 
 func (tt *TierTop) CloseAll() error {
+	// Whatever goes wrong, nothing stays open. The first error is the one returned
+	var result error
 	if tt.nextTier != nil {
-		err := tt.nextTier.CloseAll()
-		if err != nil {
-			return err
-		}
+		result = tt.nextTier.CloseAll()
 	}
-	return tt.CloseThis()
+	err := tt.CloseThis()
+	if result == nil {
+		result = err
+	}
+	return result
 }
 func (tt *TierTop) CloseThis() error {
 	if tt.hashesFile != nil {
-- 
2.43.0


From 3310d215443cb1960e1e5f533a0be6ce4f1bcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:53 +0000
Subject: [PATCH 87/90] fix: a word file which could not be filled with zeroes
 was left open

---
 wordfile/concretewordfilecreator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wordfile/concretewordfilecreator.go b/wordfile/concretewordfilecreator.go
index b850c25..900ea09 100644
--- a/wordfile/concretewordfilecreator.go
+++ b/wordfile/concretewordfilecreator.go
@@ -156,12 +156,12 @@ func (wfc *ConcreteWordFileCreator) CreateWordFileFilledZeros(count int64) error
 	if err != nil {
 		return err
 	}
+	defer file.Close()
+
 	err = file.Truncate(count * wfc.wordSize)
 	if err != nil {
 		return err
 	}
 
-	defer file.Close()
-
 	return nil
 }
-- 
2.43.0


From de96ba11a415552498f8843c86f47afa37c5c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 88/90] fix: going on with a file after a write to it failed
 wrote in the wrong place

---
 memfile/appendoptimized.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 2449a15..2259cca 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -97,7 +97,8 @@ func (a *appendOptimizedFile) WriteAt(p []byte, off int64) (n int, err error) {
 		// Previous operation was not append. But what about this operation?
 		if off == a.totalSize {
 			// Yes it is an append, set up a buffer and use it
-			_, err := a.file.Seek(0, io.SeekEnd)
+			// The file itself may be shorter, if a write before this one failed
+			_, err := a.file.Seek(off, io.SeekStart)
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 533d82164e698c39725a2a8cf4f4b7b3ce2a4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 89/90] fix: appending to tier zero of a cake after a failed
 append gave the wrong index

---
 weddingcake/tierzero.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weddingcake/tierzero.go b/weddingcake/tierzero.go
index 60e3dce..4808bf5 100644
--- a/weddingcake/tierzero.go
+++ b/weddingcake/tierzero.go
@@ -27,7 +27,7 @@ func NewTierZero(filepath string, readOnly bool) (*TierZero, error) {
 	if readOnly {
 		file, err = os.Open(filepath)
 	} else {
-		file, err = os.OpenFile(result.filepath, os.O_RDWR|os.O_APPEND, 0)
+		file, err = os.OpenFile(result.filepath, os.O_RDWR, 0)
 	}
 	if err != nil {
 		return nil, err
@@ -91,9 +91,13 @@ func (tz *TierZero) AppendHash(hash *Sha256) (int64, error) {
 	if err != nil {
 		return -1, err
 	}
+	_, err = tz.hashesFile.AppendHash(*hash)
+	if err != nil {
+		return -1, err
+	}
 	tz.theMap[*hash] = index
 	tz.theSlice = append(tz.theSlice, *hash)
-	return tz.hashesFile.AppendHash(*hash)
+	return index, nil
 }
 
 func (tz *TierZero) Sync() error {
-- 
2.43.0


From be4e9288fe11505f21082ab01ae56ec1ffe20b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 90/90] fix: appending to the top of a cake after a failed
 append gave the wrong index

---
 weddingcakeback/tiertop.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index ac2853d..ac77785 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -85,7 +85,7 @@ func (tt *TierTop) Open(readOnly bool) error {
 	if readOnly {
 		tt.underlyingFile, err = os.Open(filePath)
 	} else {
-		tt.underlyingFile, err = os.OpenFile(filePath, os.O_RDWR|os.O_APPEND, 0)
+		tt.underlyingFile, err = os.OpenFile(filePath, os.O_RDWR, 0)
 	}
 	if err != nil {
 		return err
@@ -207,8 +207,6 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	h := [32]byte{}
 	copy(h[:], hash)
 
-	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
@@ -216,6 +214,8 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	if err != nil {
 		return -1, err
 	}
+	tt.theMap[h] = TierTopIndex(index)
+	tt.theSlice = append(tt.theSlice, h[:])
 
 	// Index was the count of  hashes before the append. If it was 65534, we now have 65535
 	// If reached capacity, trigger a baking
-- 
2.43.0

