From c146fab20a7126a98e1e8378a39e419616de6784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 01/29] fix: sorted insertion next to repeated elements broke
 the order

---
 internal/helpers/arrays.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..c7cad68 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -144,8 +144,18 @@ func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 		return append(haystack, value)
 	}
 	index := BinaryIndexOfClosest(haystack, value)
-	if value >= haystack[index] {
-		return Insert(haystack, index+1, value)
+	return insertNear(haystack, index, value)
+}
+
+// Inserts the element to the sorted array starting the search of its place at
+// the index. The element at the index may be repeated in the array, so that
+// all of its copies have to be skipped.
+func insertNear[T Numeric](haystack []T, index int, value T) []T {
+	for index < len(haystack) && haystack[index] <= value {
+		index++
+	}
+	for index > 0 && haystack[index-1] > value {
+		index--
 	}
 	return Insert(haystack, index, value)
 }
@@ -161,8 +171,5 @@ func PutSavingOrder[T Numeric](haystack []T, value T) []T {
 	if value == haystack[index] {
 		return haystack
 	}
-	if value > haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
-	return Insert(haystack, index, value)
+	return insertNear(haystack, index, value)
 }
-- 
2.43.0


From b9d7f1adc390513b610e3d0ec40b683a5574d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 02/29] fix: similarity of profiles with no weighted items was
 NaN

---
 internal/domain/profile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..a789adb 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -100,6 +100,9 @@ func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
 	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
 	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
+	if likesWeight+dislikesWeight == 0 {
+		return 0
+	}
 	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
 		(float32(likesWeight) + float32(dislikesWeight)))
 }
-- 
2.43.0


From 01ebfd6e105079a82617d798a64d18ad564f3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 03/29] fix: delta lookup ignored flushed operations of users
 with pending ones

---
 internal/infra/delta/storage.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..f7789e2 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,17 +146,13 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
-	if !exists {
-		return domain.DeltaOpAdd, false
-	}
-	for i := range deltas {
-		delta := deltas[len(deltas)-i-1]
-		if delta.item == item {
-			return delta.op, true
+	// The unflushed operations are more recent than the flushed ones
+	for _, deltas := range [][]itemDelta{s.newDelta[user], s.deltaCache[user]} {
+		for i := range deltas {
+			delta := deltas[len(deltas)-i-1]
+			if delta.item == item {
+				return delta.op, true
+			}
 		}
 	}
 	return domain.DeltaOpAdd, false
-- 
2.43.0


From 0af076b0cc3df3c4192c3039b647d5524a742bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 04/29] fix: delta recovery kept records with an unknown
 operation

---
 internal/infra/delta/protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..098500c 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -292,6 +292,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
+		if entry.Op != domain.DeltaOpAdd && entry.Op != domain.DeltaOpRemove {
+			continue
+		}
 		err = p.WriteEntry(&entry, writer)
 		if err != nil {
 			return err
-- 
2.43.0


From 498710e62aa351f3c82a25eeb145684eb858ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 05/29] fix: delta recovery took read errors for the end of the
 file

---
 internal/infra/delta/protocol.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 098500c..ef822f2 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -34,6 +34,9 @@ const headerSize = 1 + 1 + 4
 // WARNING: because of the padding the entry size may not equal sizeof(entry)!
 const entrySize = 1 + 8 + 8 + 1
 
+// The error returned when the file prefix is wrong.
+var errNotDeltaFile = errors.New("not a delta file")
+
 // The file prefix (aka "Magic number").
 var prefix = [...]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A'}
 
@@ -107,7 +110,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errNotDeltaFile
 	}
 	return nil
 }
@@ -247,6 +250,11 @@ func (p *protocol) IsLocked(file io.ReadSeeker) (bool, error) {
 	return bytes[0] != 0, err
 }
 
+// Returns true if the error means that the data has ended, maybe prematurely.
+func isEndOfFile(err error) bool {
+	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 // Recovers a corrupted file making its data consistent. All inconsistent
 // data is skipped. The file is considered corrupted if it's locked, which
 // means it hasn't been closed properly.
@@ -265,6 +273,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
 	if err != nil {
+		if err != errNotDeltaFile && !isEndOfFile(err) {
+			return err
+		}
 		return p.WriteHeader(&hdr, writer)
 	}
 
@@ -273,6 +284,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
+		if !isEndOfFile(err) {
+			return err
+		}
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -287,6 +301,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	for {
 		err = p.ReadEntry(&entry, reader)
 		if err != nil {
+			if !isEndOfFile(err) {
+				return err
+			}
 			break
 		}
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
-- 
2.43.0


From 1f936ad1c37694221490882f72baac1612d5ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 06/29] fix: failed delta flush went unnoticed or corrupted the
 file on retry

---
 internal/infra/delta/storage.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index f7789e2..161cba4 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -56,12 +59,17 @@ func (s *storage) flushHeader() error {
 
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
-	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	// Write to file after the last flushed entry (a flush that failed before
+	// may have left a part of its entries there)
+	flushedCount := s.totalItemCount - s.unflushedItemCount
+	offset := int64(len(prefix)) + headerSize + int64(flushedCount)*entrySize
+	_, err := s.file.Seek(offset, io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
-			// Write to file
 			dto := &Entry{
 				Op:     delta.op,
 				UserID: user,
@@ -71,19 +79,17 @@ func (s *storage) flushEntries() error {
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From 691bfb0901209c4df86ad122cbebc0f9fe43a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 07/29] fix: interrupted delta recovery could lose or invent
 operations

---
 internal/infra/delta/storagefactory.go | 86 ++++++++++++++++++++++----
 1 file changed, 73 insertions(+), 13 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..4912d30 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -1,6 +1,7 @@
 package delta
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -31,30 +32,89 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // If the file is corrupted, recovers it making its data consistdomain.
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
+//
+// The recovery may be interrupted at any moment: until it is complete the file
+// stays locked and all the valid entries stay in it.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
-	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
-	if err != nil {
-		return err
-	}
-	_, err = file.Seek(0, io.SeekStart)
+	_, err := file.Seek(0, io.SeekStart)
 	if err != nil {
 		return err
 	}
-	_, err = tmpFile.Seek(0, io.SeekStart)
+	tmpFile := helpers.NewFileBuffer(nil)
+	err = f.proto.RecoverTo(file, tmpFile)
 	if err != nil {
 		return err
 	}
-	var size int64
-	size, err = io.Copy(file, tmpFile)
-	if err != nil {
-		return err
+	recovered := tmpFile.Bytes()
+	const entriesOffset = len(prefix) + headerSize
+	if len(recovered) == entriesOffset {
+		// There is nothing to keep
+		err = file.Truncate(0)
+		if err != nil {
+			return err
+		}
+		err = writeAt(file, recovered, 0)
+		if err != nil {
+			return err
+		}
+	} else {
+		err = f.proto.WriteLocked(true, file)
+		if err != nil {
+			return err
+		}
+		// Move the entries to their new places, that are never further than the
+		// old ones.  The operation is written last to make the entry invalid
+		// until it's complete.
+		oldEntry := make([]byte, entrySize)
+		for offset := entriesOffset; offset < len(recovered); offset += entrySize {
+			entry := recovered[offset : offset+entrySize]
+			_, err = file.Seek(int64(offset), io.SeekStart)
+			if err != nil {
+				return err
+			}
+			_, err = io.ReadFull(file, oldEntry)
+			if err != nil {
+				return err
+			}
+			if bytes.Equal(oldEntry, entry) {
+				continue
+			}
+			err = writeAt(file, append([]byte{0}, entry[1:]...), offset)
+			if err != nil {
+				return err
+			}
+			err = writeAt(file, entry[:1], offset)
+			if err != nil {
+				return err
+			}
+		}
+		err = file.Truncate(int64(len(recovered)))
+		if err != nil {
+			return err
+		}
+		// Write the header and unlock the file
+		header := append([]byte{}, recovered[len(prefix):entriesOffset]...)
+		header[lockedOffset-len(prefix)] = 1
+		err = writeAt(file, header, len(prefix))
+		if err != nil {
+			return err
+		}
+		err = f.proto.WriteLocked(false, file)
+		if err != nil {
+			return err
+		}
 	}
-	err = file.Truncate(size)
+	_, err = file.Seek(0, io.SeekStart)
+	return err
+}
+
+// Writes data at the specified offset of the file.
+func writeAt(file io.WriteSeeker, data []byte, offset int) error {
+	_, err := file.Seek(int64(offset), io.SeekStart)
 	if err != nil {
 		return err
 	}
-	_, err = file.Seek(0, io.SeekStart)
+	_, err = file.Write(data)
 	return err
 }
 
-- 
2.43.0


From e726a18c73be1e433e46e9d9218cd3f9c0b7ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 08/29] fix: empty or half-created delta file could not be
 opened with recovery

---
 internal/infra/delta/storagefactory.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 4912d30..8073dc9 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -198,11 +198,19 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	size, err := file.Seek(0, io.SeekEnd)
 	if err != nil {
-		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		return nil, fmt.Errorf("failed to check file size: %v", err)
+	}
+	// A file cut short has been abandoned while it was being created
+	broken := size > 0 && size < int64(len(prefix)+headerSize)
+	if size > 0 && !broken {
+		broken, err = f.proto.IsLocked(file)
+		if err != nil {
+			return nil, fmt.Errorf("failed to check if file is locked: %v", err)
+		}
 	}
-	if locked {
+	if broken {
 		err = f.Recover(file)
 		if err != nil {
 			return nil, fmt.Errorf("failed to recover: %v", err)
-- 
2.43.0


From 316456bb6f3832a916eb92425011688ae6314e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 09/29] fix: index file was unlocked before its entries were
 written on close

---
 internal/infra/index/storage.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..96be3fb 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -83,14 +83,14 @@ func (s *storage) load() error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
-	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
-		return err
+	// The file must stay locked until it's completely written
+	err := s.saveHeader(true)
+	if err == nil {
+		err = s.saveEntries()
+	}
+	if err == nil {
+		err = s.proto.WriteLocked(false, s.file)
 	}
-	err = s.saveEntries()
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
@@ -112,17 +112,11 @@ func (s *storage) saveHeader(locked bool) error {
 	header := Header{Version, lockedByte, uint32(len(s.indices))}
 	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return fmt.Errorf("failed to seek: %v", err)
 	}
 	writer := bufio.NewWriter(s.file)
 	_, err = s.proto.WriteHeader(&header, writer)
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return fmt.Errorf("failed to write index header: %v", err)
 	}
 	err = writer.Flush()
-- 
2.43.0


From af3677178ceff89988f7080bc6412df8a2f5bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 10/29] fix: namespace could not start after a crash left its
 index broken

---
 internal/domain/errors.go              |  6 ++++++
 internal/domain/likenamespace.go       |  5 +++--
 internal/infra/index/storage.go        | 15 ++++++++++++---
 internal/infra/index/storagefactory.go |  2 +-
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..c22bb61 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,12 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// All corrupted file errors are equal for errors.Is().
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..4c54746 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -119,9 +119,10 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The file may have already been closed by the factory
+		file.Close()
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 96be3fb..fe8f294 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -41,6 +41,14 @@ func (s *storage) create() error {
 	return nil
 }
 
+// A file cut short has been abandoned while it was being created.
+func corruptedIfCutShort(err error) error {
+	if errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
+		return domain.NewCorruptedFileError()
+	}
+	return err
+}
+
 // Loads the index file into memory.
 func (s *storage) load() error {
 	_, err := s.file.Seek(0, io.SeekStart)
@@ -51,15 +59,16 @@ func (s *storage) load() error {
 	// Load header
 	_, err = s.proto.ReadPrefix(reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index prefix: %v", err)
+		return fmt.Errorf("failed to read index prefix: %w", corruptedIfCutShort(err))
 	}
 	header := Header{}
 	_, err = s.proto.ReadHeader(&header, reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index header: %v", err)
+		return fmt.Errorf("failed to read index header: %w", corruptedIfCutShort(err))
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
+		return fmt.Errorf("broken index file (after unexpected termination): %w",
+			domain.NewCorruptedFileError())
 	}
 	// Lock
 	err = s.proto.WriteLocked(true, s.file)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..16f75f4 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
-- 
2.43.0


From 09a092ee26a0c52deff5c92993f9066a2cab067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 11/29] fix: creating a profile database wrote nothing

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From c44543d76986f139614cae0014f202652d8a5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 12/29] fix: profile entries larger than their capacity
 overwrote the next entry

---
 internal/infra/recdb/likeprotocol.go |  5 ++---
 internal/infra/recdb/protocol.go     | 10 +++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..9272404 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"io"
 	"recengine/internal/domain"
-	"reflect"
 )
 
 // Binary ("like") implementation of IConcreteProtocol.
@@ -78,8 +77,8 @@ func (p *likeProtocol) WriteEntryData(entry *Entry, writer io.Writer) (int, erro
 	profile, ok := entry.Data.(*domain.Profile)
 	if !ok {
 		return 0, fmt.Errorf(
-			"entry's data type doesn't represent like profile, got %s",
-			reflect.TypeOf(entry.Data).Name(),
+			"entry's data type doesn't represent like profile, got %T",
+			entry.Data,
 		)
 	}
 	// Write user ID
diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..41edc83 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,15 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if size > int(entry.Capacity) {
+		return 0, fmt.Errorf("failed to write database entry: capacity=%d is less than size=%d",
+			entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From 8a77dfbcdb22e4c120f59cb46bdb1e8754cad759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 13/29] fix: reading a malformed profile entry could exhaust
 memory or overrun its capacity

---
 internal/infra/recdb/likeprotocol.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 9272404..61cc964 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -23,6 +23,15 @@ func NewLikeProtocol() ConcreteProtocol {
 // Returns the number of the bytes having read.
 // The returned size can vary from 0 to `Entry.Capacity`.
 func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error) {
+	// Checks that the data (including that hasn't been read yet) fits the entry
+	checkSize := func(numItems uint64) error {
+		size := 8 + 4 + 4 + numItems*8
+		if size+entryHeaderSize > uint64(entry.Capacity) {
+			return fmt.Errorf("entry's capacity=%d is less than data len=%d",
+				entry.Capacity, size)
+		}
+		return nil
+	}
 	// Read user ID
 	var userId uint64
 	err := binary.Read(reader, binary.BigEndian, &userId)
@@ -35,6 +44,9 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
+	if err = checkSize(uint64(numLikes)); err != nil {
+		return 0, err
+	}
 	likes := make([]uint64, numLikes)
 	err = binary.Read(reader, binary.BigEndian, likes)
 	if err != nil {
@@ -46,6 +58,9 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
+	if err = checkSize(uint64(numLikes) + uint64(numDislikes)); err != nil {
+		return 0, err
+	}
 	dislikes := make([]uint64, numDislikes)
 	err = binary.Read(reader, binary.BigEndian, dislikes)
 	if err != nil {
@@ -57,16 +72,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 		Likes:    likes,
 		Dislikes: dislikes,
 	}
-	// Check data integrity
-	size, err := p.PredictDataSize(entry.Data)
-	if err != nil {
-		return 0, fmt.Errorf("cannot predict data size: %w", err)
-	}
-	if size > int(entry.Capacity-entryHeaderSize) {
-		return 0, fmt.Errorf("entry's capacity=%d is less than data len=%d",
-			entry.Capacity, size)
-	}
-	return size, nil
+	return p.PredictDataSize(entry.Data)
 }
 
 // Writes entry data from the `Entry.Data` field into the stream.
-- 
2.43.0


From f94b38802c11cebeed01bad64594e70729de8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 14/29] fix: rewriting the previous profile entry overwrote
 other parts of the file

---
 internal/infra/recdb/iterator.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..9005d13 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -58,7 +58,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -86,14 +86,15 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
-	entryCopy := iter.entry
-	return &entryCopy, nil
+	iter.entry = entry
+	return &entry, nil
 }
 
 // Rewrites a previously read entry. The capacity must be left unchanged.
@@ -105,17 +106,23 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	// The file position can't be relied on as the reader reads ahead
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
+	// Continue reading from the next entry
+	iter.reader.Reset(iter.file)
+	_, seekErr := iter.file.Seek(iter.fileOffset, io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
+	if seekErr != nil {
+		return fmt.Errorf(msg, seekErr)
+	}
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
 	return nil
 }
-- 
2.43.0


From 64db0b362e4695ee3982b49796704a33b1950c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 15/29] fix: skipping exactly the rest of a stream could be
 reported as a failure

---
 internal/helpers/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index 6f0cb36..a9c1d78 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -40,7 +40,7 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 		}
 		read, err := reader.Read(dump[:chunk])
 		skipped += read
-		if err != nil {
+		if err != nil && skipped < size {
 			return skipped, err
 		}
 	}
-- 
2.43.0


From bef3a8d7ccb3518b3cb674cd5ab744b2d9074234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 16/29] fix: updating a namespace never returned

---
 internal/domain/likenamespace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 4c54746..8484b6f 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -67,11 +67,13 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 	return valueobjects.MakeLikeNamespaceType()
 }
 
-// Renames the namespace.
+// Renames the namespace. The result is sent to the returned channel.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	done := make(chan error, 1)
+	done <- nil
+	return done
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From b1a92a42ecf21dd186baf623aff20d4d30fe661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 17/29] fix: REST requests never found the namespace named in
 the URL

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..a5973d7 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From e3ab4e8e85a0619cb1a49aac451eac887f8c48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 18/29] fix: namespaces ignored the configured data directory

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..4143b75 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -60,6 +60,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From 3361ef129e8632b18742bdf4e9bd583687ec4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 19/29] fix: concurrent namespace requests raced and could
 register a name twice

---
 internal/domain/likenamespace.go    | 28 ++++++++++++++------
 internal/domain/namespaceservice.go | 41 ++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 17 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 8484b6f..25c93fb 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,11 +7,13 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
 // likeNamespace performs the same function as databases in relational databases.
 type likeNamespace struct {
+	mutex                   sync.RWMutex // guards name, maxSimilarProfiles, dislikeFactor
 	name                    valueobjects.NamespaceName
 	maxSimilarProfiles      uint
 	dislikeFactor           float32
@@ -59,6 +61,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.mutex.RLock()
+	defer ns.mutex.RUnlock()
 	return ns.name
 }
 
@@ -69,7 +73,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace. The result is sent to the returned channel.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.mutex.Lock()
 	ns.name = name
+	ns.mutex.Unlock()
 	// TODO: rename the files
 	done := make(chan error, 1)
 	done <- nil
@@ -78,11 +84,15 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	ns.mutex.Lock()
+	defer ns.mutex.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.mutex.RLock()
+	defer ns.mutex.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -90,12 +100,14 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.mutex.Lock()
+	defer ns.mutex.Unlock()
 	ns.dislikeFactor = value
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".delta"
+	filePath := ns.basePath + ns.GetName().Value() + ".delta"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -103,14 +115,14 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".index"
+	filePath := ns.basePath + ns.GetName().Value() + ".index"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -119,7 +131,7 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.GetName().Value(), err)
 		}
 		// The file may have already been closed by the factory
 		file.Close()
@@ -141,7 +153,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".recdb"
+	filePath := ns.basePath + ns.GetName().Value() + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open recdb file %s: %w", filePath, err)
@@ -149,7 +161,7 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	storage, err := ns.likeStorageFactory.OpenMaybeRecover(file, deltaStorage, indexStorage)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.GetName().Value(), err)
 	}
 	return storage, nil
 }
@@ -175,7 +187,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer log.Printf("LikeNamespace %s stopped\n", ns.GetName())
 		for {
 			select {
 			case <-ctx.Done():
@@ -209,7 +221,7 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
+	log.Printf("Stopping namespace %s...\n", ns.GetName())
 	close(ns.action)
 }
 
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4143b75..0a441ab 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -24,8 +25,9 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
-// Manages namespaces.
+// Manages namespaces. All its methods may be called concurrently.
 type NamespaceService struct {
+	mutex               sync.RWMutex // guards namespaces
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -73,7 +75,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
-	for _, ns := range s.namespaces {
+	for _, ns := range s.GetNamespaces() {
 		ns.Start(ctx)
 	}
 	return nil
@@ -84,9 +86,10 @@ func (s *NamespaceService) getNamespacesJsonPath() string {
 }
 
 // Loads namespace list from the file.
-// Warning the function is not thread-safe, so must be called only before
-// starting the engine.
+// The function must be called only before starting the engine.
 func (s *NamespaceService) LoadNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	filePath := s.getNamespacesJsonPath()
 	data, err := os.ReadFile(filePath)
 	if err != nil {
@@ -101,6 +104,12 @@ func (s *NamespaceService) LoadNamespaces() error {
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.saveNamespaces()
+}
+
+func (s *NamespaceService) saveNamespaces() error {
 	data, err := json.Marshal(s.namespaces)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
@@ -115,7 +124,9 @@ func (s *NamespaceService) SaveNamespaces() error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return append([]Namespace{}, s.namespaces...)
 }
 
 // Returns the index of the namespace in the namespace list.
@@ -130,6 +141,12 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.getNamespaceByName(name)
+}
+
+func (s *NamespaceService) getNamespaceByName(name valueobjects.NamespaceName) Namespace {
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -141,6 +158,8 @@ func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) N
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -149,7 +168,7 @@ func (s *NamespaceService) CreateNamespace(
 		return nil, err
 	}
 	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	if err = s.saveNamespaces(); err != nil {
 		return nil, err
 	}
 	return ns, nil
@@ -160,7 +179,9 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	ns := s.getNamespaceByName(name)
 	if ns == nil {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
@@ -172,7 +193,7 @@ func (s *NamespaceService) UpdateNamespace(
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return nil, err
 	}
 	return ns, nil
@@ -181,13 +202,15 @@ func (s *NamespaceService) UpdateNamespace(
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
 	s.namespaces[index].Stop()
 	s.namespaces = helpers.Remove(s.namespaces, index)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From d4862a5abdcedf837ff9b8cc2716444c3bc39ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 20/29] fix: updating a namespace without a limit made it find
 no similar profiles

---
 internal/domain/likenamespace.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 25c93fb..0053ba6 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -39,6 +39,9 @@ type LikeNamespaceDto struct {
 	IndexStorageFactory IndexStorageFactory
 }
 
+// The maximum number of similar profiles if it isn't specified.
+const defaultMaxSimilarProfiles = 1000
+
 // Creates a new namespace.
 func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	ns := &likeNamespace{
@@ -54,7 +57,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
-		ns.maxSimilarProfiles = 1000
+		ns.maxSimilarProfiles = defaultMaxSimilarProfiles
 	}
 	return ns
 }
@@ -83,9 +86,13 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
+// Zero means the default limit.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
 	ns.mutex.Lock()
 	defer ns.mutex.Unlock()
+	if limit == 0 {
+		limit = defaultMaxSimilarProfiles
+	}
 	ns.maxSimilarProfiles = limit
 }
 
-- 
2.43.0


From 9f0fd887363c6d8b7e3ca21aceb36e85cc6f8b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 21/29] fix: starting a namespace without a profile storage
 crashed the process

---
 internal/domain/likenamespace.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 0053ba6..79f6282 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -175,6 +175,9 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
+	if ns.deltaStorageFactory == nil || ns.indexStorageFactory == nil || ns.likeStorageFactory == nil {
+		return fmt.Errorf("no storages to start namespace %s with", ns.GetName().Value())
+	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
-- 
2.43.0


From 344899fd754ef69d37ac7b86dd2499f15574d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 22/29] fix: registered namespaces were lost on restart

---
 internal/domain/likenamespace.go    |  7 ++++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 51 +++++++++++++++++++++++++++--
 3 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 79f6282..7d1a3b6 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -112,6 +112,13 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.mutex.RLock()
+	defer ns.mutex.RUnlock()
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	filePath := ns.basePath + ns.GetName().Value() + ".delta"
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 0a441ab..827d653 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -25,6 +25,27 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
+// A namespace as it's written to the namespace list file.
+type namespaceRecord struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
+// Converts the record to a request to create the namespace.
+func (r *namespaceRecord) toCreateRequest() (*NamespaceCreateRequest, error) {
+	name, err := valueobjects.ParseNamespaceName(r.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(r.Type)
+	if err != nil {
+		return nil, err
+	}
+	return &NamespaceCreateRequest{name, nsType, r.MaxSimilarProfiles, r.DislikeFactor}, nil
+}
+
 // Manages namespaces. All its methods may be called concurrently.
 type NamespaceService struct {
 	mutex               sync.RWMutex // guards namespaces
@@ -95,10 +116,27 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var records []namespaceRecord
+	err = json.Unmarshal(data, &records)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, len(records))
+	names := make(map[string]bool)
+	for i := range records {
+		dto, err := records[i].toCreateRequest()
+		if err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+		if names[records[i].Name] {
+			return fmt.Errorf("failed to decode %s: repeated name %s", filePath, records[i].Name)
+		}
+		names[records[i].Name] = true
+		if namespaces[i], err = s.forgeNamespace(dto); err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+	}
+	s.namespaces = namespaces
 	return nil
 }
 
@@ -110,7 +148,16 @@ func (s *NamespaceService) SaveNamespaces() error {
 }
 
 func (s *NamespaceService) saveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	records := make([]namespaceRecord, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0


From 17d40099e0b7283f43425e1bc1c352a15b96a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 23/29] fix: failed save left the namespace registry changed

---
 internal/domain/namespaceservice.go | 63 +++++++++++++++++------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 827d653..51aef4d 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -46,6 +46,19 @@ func (r *namespaceRecord) toCreateRequest() (*NamespaceCreateRequest, error) {
 	return &NamespaceCreateRequest{name, nsType, r.MaxSimilarProfiles, r.DislikeFactor}, nil
 }
 
+func makeRecords(namespaces []Namespace) []namespaceRecord {
+	records := make([]namespaceRecord, len(namespaces))
+	for i, ns := range namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	return records
+}
+
 // Manages namespaces. All its methods may be called concurrently.
 type NamespaceService struct {
 	mutex               sync.RWMutex // guards namespaces
@@ -144,19 +157,11 @@ func (s *NamespaceService) LoadNamespaces() error {
 func (s *NamespaceService) SaveNamespaces() error {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
-	return s.saveNamespaces()
+	return s.saveRecords(makeRecords(s.namespaces))
 }
 
-func (s *NamespaceService) saveNamespaces() error {
-	records := make([]namespaceRecord, len(s.namespaces))
-	for i, ns := range s.namespaces {
-		records[i] = namespaceRecord{
-			Name:               ns.GetName().Value(),
-			Type:               ns.GetType().Value(),
-			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
-			DislikeFactor:      ns.GetDislikeFactor(),
-		}
-	}
+// Replaces the contents of the namespace list file.
+func (s *NamespaceService) saveRecords(records []namespaceRecord) error {
 	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
@@ -190,10 +195,6 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
 	s.mutex.RLock()
 	defer s.mutex.RUnlock()
-	return s.getNamespaceByName(name)
-}
-
-func (s *NamespaceService) getNamespaceByName(name valueobjects.NamespaceName) Namespace {
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -214,10 +215,11 @@ func (s *NamespaceService) CreateNamespace(
 	if err != nil {
 		return nil, err
 	}
-	s.namespaces = append(s.namespaces, ns)
-	if err = s.saveNamespaces(); err != nil {
+	namespaces := append(append([]Namespace{}, s.namespaces...), ns)
+	if err = s.saveRecords(makeRecords(namespaces)); err != nil {
 		return nil, err
 	}
+	s.namespaces = namespaces
 	return ns, nil
 }
 
@@ -228,21 +230,30 @@ func (s *NamespaceService) UpdateNamespace(
 ) (Namespace, error) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
-	ns := s.getNamespaceByName(name)
-	if ns == nil {
+	index := s.getNamespaceIndexByName(name)
+	if index < 0 {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
+	ns := s.namespaces[index]
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
+	// Save the change before making it, so that a failure changes nothing
+	records := makeRecords(s.namespaces)
+	records[index].Name = dto.Name.Value()
+	records[index].DislikeFactor = dto.DislikeFactor
+	records[index].MaxSimilarProfiles = dto.MaxSimilarProfiles
+	if err := s.saveRecords(records); err != nil {
+		return nil, err
+	}
 	if err := <-ns.Rename(dto.Name); err != nil {
+		if saveErr := s.saveRecords(makeRecords(s.namespaces)); saveErr != nil {
+			return nil, fmt.Errorf("%w (and failed to undo: %v)", err, saveErr)
+		}
 		return nil, err
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.saveNamespaces(); err != nil {
-		return nil, err
-	}
 	return ns, nil
 }
 
@@ -255,10 +266,12 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
-	s.namespaces = helpers.Remove(s.namespaces, index)
-	if err := s.saveNamespaces(); err != nil {
+	ns := s.namespaces[index]
+	namespaces := helpers.Remove(append([]Namespace{}, s.namespaces...), index)
+	if err := s.saveRecords(makeRecords(namespaces)); err != nil {
 		return err
 	}
+	s.namespaces = namespaces
+	ns.Stop()
 	return nil
 }
-- 
2.43.0


From 3e7b72838fe26a6b3b552877d4c96a17f8567801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 24/29] fix: failed save destroyed the saved namespace registry

---
 internal/domain/namespaceservice.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 51aef4d..82989f6 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -166,9 +166,17 @@ func (s *NamespaceService) saveRecords(records []namespaceRecord) error {
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
+	// Write to another file first, so that the list survives a failed write
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	tmpPath := filePath + ".tmp"
+	err = os.WriteFile(tmpPath, data, 0644)
 	if err != nil {
+		os.Remove(tmpPath)
+		return fmt.Errorf("failed to write to %s: %v", tmpPath, err)
+	}
+	err = os.Rename(tmpPath, filePath)
+	if err != nil {
+		os.Remove(tmpPath)
 		return fmt.Errorf("failed to write to %s: %v", filePath, err)
 	}
 	return nil
-- 
2.43.0


From 777d7a408df6581d1e4808f007d4ec1c257ffe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 25/29] fix: update request could fail after the change was
 made and saved

---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index a5973d7..b2b9f75 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -137,9 +137,5 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	if err := endpoint.nsService.SaveNamespaces(); err != nil {
-		ctx.AbortWithStatusJSON(http.StatusInternalServerError, dto.FromError(err))
-		return
-	}
 	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
 }
-- 
2.43.0


From 3f93df3de1a98f8afc34478f26e130ed642c8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 26/29] fix: application waited for a signal after failing to
 listen

---
 internal/api/shard/application.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..2a63f96 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,7 +50,7 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
-	listenError := make(chan error)
+	listenError := make(chan error, 1)
 
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
@@ -63,12 +63,17 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	defer signal.Stop(quit)
+	select {
+	case err := <-listenError:
+		return err
+	case <-quit:
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From 89187d35154d726a015dcac062343bb354ab58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 27/29] fix: stopping a namespace panicked or hung its requests

---
 internal/domain/likenamespace.go | 103 +++++++++++++++++--------------
 1 file changed, 58 insertions(+), 45 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 7d1a3b6..4eafe51 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -23,8 +24,15 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	started                 atomic.Bool
+	stopOnce                sync.Once
+	stop                    chan struct{} // closed to stop the worker
+	stoppedOnce             sync.Once
+	stopped                 chan struct{} // closed when no more actions will be processed
 }
 
+var errNamespaceStopped = errors.New("the namespace stopped")
+
 // Compile-time type check
 var _ = (Namespace)((*likeNamespace)(nil))
 
@@ -54,6 +62,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		basePath:                dto.BasePath,
 		actionQueueFillWaitTime: time.Millisecond * 50,
 		action:                  make(chan Action, 100),
+		stop:                    make(chan struct{}),
+		stopped:                 make(chan struct{}),
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
@@ -200,7 +210,9 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		indexStorage.Close()
 		return err
 	}
+	ns.started.Store(true)
 	go func() {
+		defer ns.setStopped()
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
@@ -208,26 +220,19 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 		for {
 			select {
 			case <-ctx.Done():
-				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
-			case action, more := <-ns.action:
-				if !more {
-					ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
-					return
-				}
+			case <-ns.stop:
+				return
+			case action := <-ns.action:
 				// We wan't to process as many actions as possible at a time.
 				// But not too much, though.
 				time.Sleep(ns.actionQueueFillWaitTime)
 				// Take out actions from the channel
-				actions := make([]Action, 1, len(ns.action)+1)
+				actions := make([]Action, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
 				for i := 1; i < len(actions); i++ {
-					actions[i], more = <-ns.action
-					if !more || actions[i].ActionType == ActionStop {
-						ns.sendStoppedLikeNamespaceErrorToActionWaiters(&actions)
-						return
-					}
+					actions[i] = <-ns.action
 				}
 				likeStorage.ProcessActions(actions)
 			}
@@ -239,33 +244,41 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
 	log.Printf("Stopping namespace %s...\n", ns.GetName())
-	close(ns.action)
+	ns.stopOnce.Do(func() { close(ns.stop) })
+	if !ns.started.Load() {
+		ns.setStopped()
+	}
 }
 
-func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
-	// Get actions from the buffer and send an error to each one
-	for {
-		action, more := <-ns.action
-		if !more {
-			break
-		}
-		action.Error <- errors.New("the namespace stopped")
+// Makes all the waiting and future requests fail.
+func (ns *likeNamespace) setStopped() {
+	ns.stoppedOnce.Do(func() { close(ns.stopped) })
+}
+
+// Queues the action unless the namespace has stopped.
+func (ns *likeNamespace) enqueue(action Action) {
+	select {
+	case ns.action <- action:
+	case <-ns.stopped:
 	}
-	// Send an error to each action that has been taken out from the buffer
-	// and should has been processed
-	if takenActions != nil {
-		for _, action := range *takenActions {
-			action.Error <- errors.New("the namespace stopped")
-		}
+}
+
+// Queues the action and waits for its result.
+func (ns *likeNamespace) enqueueAndWait(actionType ActionType, payload any) error {
+	errChan := make(chan error)
+	ns.enqueue(Action{actionType, errChan, payload})
+	select {
+	case err := <-errChan:
+		return err
+	case <-ns.stopped:
+		return errNamespaceStopped
 	}
 }
 
 // Removes the profile by its ID.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
-	return <-err
+	return ns.enqueueAndWait(ActionDeleteProfile, DeleteProfilePayload{user})
 }
 
 // Returns the profile by its ID or nil if it isn't found.
@@ -273,54 +286,52 @@ func (ns *likeNamespace) DeleteProfile(user uint64) error {
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 	errChan := make(chan error)
 	profileChan := make(chan *Profile)
-	ns.action <- Action{
+	ns.enqueue(Action{
 		ActionGetProfile,
 		errChan,
 		GetProfilePayload{user, profileChan},
-	}
+	})
 	select {
 	case err := <-errChan:
 		return nil, err
 	case profile := <-profileChan:
 		return profile, nil
+	case <-ns.stopped:
+		return nil, errNamespaceStopped
 	}
 }
 
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
-	return <-err
+	return ns.enqueueAndWait(ActionLike, LikePayload{user, item})
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
-	return <-err
+	return ns.enqueueAndWait(ActionDislike, DislikePayload{user, item})
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
-	return <-err
+	return ns.enqueueAndWait(ActionDeleteItem, DeleteItemPayload{user, item})
 }
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
 	errChan := make(chan error)
 	profilesChan := make(chan *[]SimilarProfile)
-	ns.action <- Action{
+	ns.enqueue(Action{
 		ActionGetSimilarProfiles,
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
-	}
+	})
 	select {
 	case err := <-errChan:
 		return nil, err
 	case profiles := <-profilesChan:
 		return profiles, nil
+	case <-ns.stopped:
+		return nil, errNamespaceStopped
 	}
 }
 
@@ -328,15 +339,17 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
 	errChan := make(chan error)
 	recsChan := make(chan *[]RecItem)
-	ns.action <- Action{
+	ns.enqueue(Action{
 		ActionRecommendItems,
 		errChan,
 		RecommendItemsPayload{user, recsChan},
-	}
+	})
 	select {
 	case err := <-errChan:
 		return nil, err
 	case recs := <-recsChan:
 		return recs, nil
+	case <-ns.stopped:
+		return nil, errNamespaceStopped
 	}
 }
-- 
2.43.0


From 8484bb56188e779b6ef5af39c732c52056b4cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 28/29] fix: check for the profile storage where it is opened

---
 internal/domain/likenamespace.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 4eafe51..b92bdc2 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -177,6 +177,9 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
+	if ns.likeStorageFactory == nil {
+		return nil, fmt.Errorf("no like storage to start namespace %s with", ns.GetName().Value())
+	}
 	filePath := ns.basePath + ns.GetName().Value() + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
@@ -192,9 +195,6 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
-	if ns.deltaStorageFactory == nil || ns.indexStorageFactory == nil || ns.likeStorageFactory == nil {
-		return fmt.Errorf("no storages to start namespace %s with", ns.GetName().Value())
-	}
 	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
 	if err != nil {
 		return err
-- 
2.43.0


From faae9163d0e2026fa77ae6ed220083a38bd6de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:59 +0000
Subject: [PATCH 29/29] fix: concurrent SkipReading calls read into one shared
 buffer

---
 internal/helpers/io.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/helpers/io.go b/internal/helpers/io.go
index a9c1d78..5202b7e 100644
--- a/internal/helpers/io.go
+++ b/internal/helpers/io.go
@@ -7,9 +7,6 @@ import (
 // Static zero byte buffer that are used for filling free space in files.
 var zeros = [100]byte{}
 
-// /dev/null
-var dump = [100]byte{}
-
 // Effectively writes continuous range of zero-filled bytes into a writer.
 func WriteZeros(size int, writer io.Writer) (int, error) {
 	total := 0
@@ -32,6 +29,8 @@ func SkipReading(size int, reader io.Reader) (int, error) {
 	if size == 0 {
 		return 0, nil
 	}
+	// Not shared: readers may look at what they have put into it.
+	dump := [100]byte{}
 	skipped := 0
 	for skipped < size {
 		chunk := size - skipped
-- 
2.43.0

