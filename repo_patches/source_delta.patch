From 67dd0d166b74c0dea7d353198bfd3795c2940dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 01/38] fix: block.FromBytes must copy behind the alignment
 offset and accept empty input

---
 block/aligned_bytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/block/aligned_bytes.go b/block/aligned_bytes.go
index d6d3ccc..ceb11eb 100644
--- a/block/aligned_bytes.go
+++ b/block/aligned_bytes.go
@@ -61,11 +61,14 @@ func FromBytes(src []byte, blockSize BlockSize) *AlignedBytes {
 
 //for debug
 func fromBytes(src []byte, blockSize BlockSize) (*AlignedBytes, bool) {
+	if len(src) == 0 {
+		return NewAlignedBytes(0, blockSize), true
+	}
 	a := alignment(src, blockSize.AsU16())
 	capacity := blockSize.CeilAlign(uint64(len(src)))
 	if a != 0 || capacity > uint64(cap(src)) {
 		newAlignedBytes := NewAlignedBytes(len(src), blockSize)
-		copy(newAlignedBytes.buf, src)
+		copy(newAlignedBytes.AsBytes(), src)
 		return newAlignedBytes, true
 	}
 	return &AlignedBytes{
-- 
2.43.0


From 66451e9aeb231dfe1b008e1a072d239f1df282f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 02/38] fix: count a lump once when its index entry is
 replaced, and not at all when an absent one is deleted

---
 lumpindex/lump_index.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lumpindex/lump_index.go b/lumpindex/lump_index.go
index 716448c..d93cbb7 100644
--- a/lumpindex/lump_index.go
+++ b/lumpindex/lump_index.go
@@ -42,20 +42,30 @@ func (index *LumpIndex) Get(id lump.LumpId) (p portion.Portion, err error) {
 func (index *LumpIndex) InsertDataPortion(id lump.LumpId, data portion.DataPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40 | 1<<63
-	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	index.insert(id, n)
 }
 
 func (index *LumpIndex) InsertJournalPortion(id lump.LumpId, data portion.JournalPortion) {
 	var n uint64 = 0
 	n = data.Start.AsU64() | uint64(data.Len)<<40
+	index.insert(id, n)
+}
+
+//count an id only once, however often its portion is replaced
+func (index *LumpIndex) insert(id lump.LumpId, n uint64) {
+	_, exist := index.tree.Get(id.U64())
 	index.tree.Insert(id.U64(), n)
-	atomic.AddUint64(&index.counts, 1)
+	if !exist {
+		atomic.AddUint64(&index.counts, 1)
+	}
 }
 
 func (index *LumpIndex) Delete(id lump.LumpId) bool {
+	if !index.tree.Delete(id.U64()) {
+		return false
+	}
 	atomic.AddUint64(&index.counts, ^uint64(0))
-	return index.tree.Delete(id.U64())
+	return true
 }
 
 func (index *LumpIndex) DeleteRange(start lump.LumpId, end lump.LumpId) {
-- 
2.43.0


From e5882fc33167922ff938e2b35e22ab25a27e39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 03/38] fix: journal write buffer must not drop dirty sectors
 when a short write lands inside it, nor ignore read errors

---
 storage/journal/nvm_buffer.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 3b49aa3..50f24a0 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -121,11 +121,13 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 		end := uint32(start) + uint32(len(buf))
 
 		oldLen := uint64(jb.writeBuf.Len())
-		jb.writeBuf.AlignResize(end)
-
-		if uint64(jb.writeBuf.Len()) - oldLen >= uint64(jb.nvm.BlockSize().AsU16()) {
-			jb.nvm.Seek(int64(jb.writeBufOffset+oldLen), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes()[oldLen:])
+		//only grow: the sectors behind the position may be dirty
+		if uint64(end) > oldLen {
+			jb.writeBuf.AlignResize(end)
+			if err := jb.readSectors(oldLen); err != nil {
+				jb.writeBuf.Truncate(uint32(oldLen))
+				return 0, err
+			}
 		}
 
 		copy(jb.writeBuf.AsBytes()[start:end], buf)
@@ -149,8 +151,10 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 			jb.writeBufOffset = jb.nvm.BlockSize().FloorAlign(jb.position)
 			//fmt.Printf("update buf offset to %d", jb.position)
 			jb.writeBuf.AlignResize(uint32(jb.nvm.BlockSize().AsU16())) //resize to a sector
-			jb.nvm.Seek(int64(jb.writeBufOffset), io.SeekStart)
-			jb.nvm.Read(jb.writeBuf.AsBytes())
+			if err := jb.readSectors(0); err != nil {
+				jb.writeBuf.AlignResize(0)
+				return 0, err
+			}
 		}
 
 		//call
@@ -158,6 +162,17 @@ func (jb *JournalNvmBuffer) Write(buf []byte) (n int, err error) {
 	}
 }
 
+//fill the write buffer from position start on with what the device holds
+func (jb *JournalNvmBuffer) readSectors(start uint64) error {
+	if _, err := jb.nvm.Seek(int64(jb.writeBufOffset+start), io.SeekStart); err != nil {
+		return err
+	}
+	if _, err := jb.nvm.Read(jb.writeBuf.AsBytes()[start:]); err != nil && err != io.EOF {
+		return err
+	}
+	return nil
+}
+
 func (jb *JournalNvmBuffer) Close() error {
 	return jb.Sync()
 }
-- 
2.43.0


From bacb831fdbd9c77cce8a2d3726dc68c96e91bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 04/38] fix: reject lumps that are too big and give the space
 back when writing a lump fails

---
 storage/data_region.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index be6f10d..4956fdf 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -59,6 +59,10 @@ func (region *DataRegion) shiftBlockSize(size uint32) uint32 {
 //thread-safe
 func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 
+	if data.Inner == nil || data.Inner.Len() > lump.LUMP_MAX_SIZE {
+		return portion.DataPortion{}, errors.Wrap(internalerror.InvalidInput, "lump data is too big")
+	}
+
 	size := data.Inner.Len() + LUMP_DATA_TRAILER_SIZE
 
 	//Aligned
@@ -79,6 +83,7 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 	region.Unlock()
 
 	if err != nil {
+		data.Inner.Resize(size - LUMP_DATA_TRAILER_SIZE)
 		return portion.DataPortion{}, err
 	}
 
@@ -96,12 +101,16 @@ func (region *DataRegion) Put(data lump.LumpData) (portion.DataPortion, error) {
 			return data_portion, err
 		}
 	*/
-	_, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset))
+	if _, err = region.nvm.WriteAt(data.Inner.AsBytes(), int64(offset)); err != nil {
+		region.Release(data_portion)
+		data.Inner.Resize(size - LUMP_DATA_TRAILER_SIZE)
+		return portion.DataPortion{}, err
+	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(data.Inner.Len())))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
 
-	return data_portion, err
+	return data_portion, nil
 }
 
 //thread-safe
-- 
2.43.0


From d68116325121345c2c618ef7c843aa8a36509b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 05/38] fix: ranged reads and in-place updates at every offset:
 right blocks, right bounds, no overflow, write errors reported

---
 storage/data_region.go | 72 ++++++++++++++++++++++++------------------
 storage/storage.go     |  9 +++++-
 2 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 4956fdf..7ef2e53 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -141,27 +141,33 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 	startOffset uint32, payload []byte) error {
 
 	offsetToDisk, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
-	if startOffset+uint32(len(payload)) > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	end := uint64(startOffset) + uint64(len(payload))
+	if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return errors.Wrap(internalerror.InvalidInput,
 			"object reserved capacity exceeded")
 	}
+	//only the last block tells where the object ends
+	if end+LUMP_DATA_TRAILER_SIZE+uint64(region.block_size) > uint64(onDiskSize) {
+		size, err := region.GetSize(dataPortion)
+		if err != nil {
+			return err
+		}
+		if end > uint64(size) {
+			return errors.Wrap(internalerror.InvalidInput,
+				"object reserved capacity exceeded")
+		}
+	}
+	if len(payload) == 0 {
+		return nil
+	}
 	readOffset := region.block_size.FloorAlign(offsetToDisk + uint64(startOffset))
+	prefixPadding := startOffset % region.block_size.AsU32()
 	data, err := region.readBlocks(int64(readOffset),
-		(len(payload)+int(region.block_size)-1)/int(region.block_size))
+		(int(prefixPadding)+len(payload)+int(region.block_size)-1)/int(region.block_size))
 	if err != nil {
 		return err
 	}
-	prefixPadding := startOffset % region.block_size.AsU32()
 	copy(data[prefixPadding:], payload)
-	if startOffset+uint32(len(payload)) > onDiskSize-region.block_size.AsU32() {
-		paddingSize := onDiskSize -
-			startOffset - uint32(len(payload)) - LUMP_DATA_TRAILER_SIZE
-		originalPaddingSize := util.GetUINT16(data[len(data)-2:])
-		if paddingSize < uint32(originalPaddingSize) {
-			return errors.Wrap(internalerror.InvalidInput,
-				"object reserved capacity exceeded")
-		}
-	}
 
 	/*
 		_, err = region.nvm.Seek(int64(readOffset), io.SeekStart)
@@ -171,10 +177,12 @@ func (region *DataRegion) Update(dataPortion portion.DataPortion,
 		// data is already aligned since it's returned from AlignedBytes
 		_, err = region.nvm.Write(data)
 	*/
-	region.nvm.WriteAt(data, int64(readOffset))
+	if _, err = region.nvm.WriteAt(data, int64(readOffset)); err != nil {
+		return err
+	}
 	ostats.Record(context.Background(), x.DataRegionMetric.WriteBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Writes.M(1))
-	return err
+	return nil
 }
 
 //thread safe
@@ -252,33 +260,37 @@ func (region *DataRegion) GetWithOffset(dataPortion portion.DataPortion,
 
 	offset, onDiskSize := dataPortion.ShiftBlockToBytes(region.block_size)
 
-	if startOffset+length > onDiskSize-LUMP_DATA_TRAILER_SIZE {
+	end := uint64(startOffset) + uint64(length)
+	if end > uint64(onDiskSize-LUMP_DATA_TRAILER_SIZE) {
 		return nil, errors.Wrap(internalerror.InvalidInput, "given length is too big")
 	}
 
+	//If length is too big(may reach to the padding), prevent to read the padding data
+	if end+LUMP_DATA_TRAILER_SIZE+uint64(region.block_size) > uint64(onDiskSize) {
+		size, err := region.GetSize(dataPortion)
+		if err != nil {
+			return nil, err
+		}
+		if startOffset > size {
+			return nil, errors.Wrap(internalerror.InvalidInput,
+				"startOffset > object length")
+		}
+		length = util.Min32(length, size-startOffset)
+	}
+	if length == 0 {
+		return []byte{}, nil
+	}
+
 	newReadStart := region.block_size.FloorAlign(offset + uint64(startOffset))
 	prefixPadding := startOffset % region.block_size.AsU32()
 
 	data, err := region.readBlocks(int64(newReadStart),
-		(int(length)+int(region.block_size)-1)/int(region.block_size))
+		(int(prefixPadding)+int(length)+int(region.block_size)-1)/int(region.block_size))
 	if err != nil {
 		return nil, err
 	}
-	//If length is small, and the read op doesn't reach the last block
-	if startOffset+length <= onDiskSize-region.block_size.AsU32() {
-		return data[prefixPadding : prefixPadding+length], nil
-	}
-
-	//In this case, if length is too big(reach to the last block), prevent to read the padding data
-
-	padding_size := uint32(util.GetUINT16(data[len(data)-2:]))
-	realFileSize := util.Min32(uint32(len(data))-padding_size-LUMP_DATA_TRAILER_SIZE, prefixPadding+length)
-	if prefixPadding > realFileSize {
-		return nil, errors.Wrap(internalerror.InvalidInput,
-			"startOffset > object length")
-	}
 
 	ostats.Record(context.Background(), x.DataRegionMetric.ReadBytes.M(int64(len(data))))
 	ostats.Record(context.Background(), x.DataRegionMetric.Reads.M(1))
-	return data[prefixPadding:realFileSize], nil
+	return data[prefixPadding : prefixPadding+length], nil
 }
diff --git a/storage/storage.go b/storage/storage.go
index bac392b..9f1101b 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -462,7 +462,11 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 		if err != nil {
 			return nil, err
 		}
-		return data[startOffset : startOffset+length], nil
+		if uint64(startOffset) > uint64(len(data)) {
+			return nil, errors.Wrap(internalerror.InvalidInput, "startOffset > object length")
+		}
+		end := util.Min(uint64(startOffset)+uint64(length), uint64(len(data)))
+		return data[startOffset:end], nil
 	default:
 		panic("never here")
 	}
@@ -539,6 +543,9 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	if err != nil {
 		// Only one error possible, which is "object could not be found",
 		// meaning this is a new object. Padding necessary zeros and call `put`
+		if uint64(startOffset)+uint64(len(payload)) > lump.LUMP_MAX_SIZE || reservation > lump.LUMP_MAX_SIZE {
+			return errors.Wrap(internalerror.InvalidInput, "object is too big")
+		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
 		lumpdata = lump.NewLumpDataWithAb(data)
-- 
2.43.0


From 4017df25d4267ab7b13bcd10a2310d39af9f08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 06/38] fix: report a corrupted lump trailer instead of
 panicking or returning a wrong length

---
 storage/data_region.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/storage/data_region.go b/storage/data_region.go
index 7ef2e53..14e2706 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -192,6 +192,15 @@ func (region *DataRegion) Release(portion portion.DataPortion) {
 	region.allocator.Release(portion)
 }
 
+//the padding is smaller than a block, and than the portion
+func (region *DataRegion) checkPadding(dataPortion portion.DataPortion, paddingSize uint32) error {
+	if paddingSize >= region.block_size.AsU32() ||
+		paddingSize+LUMP_DATA_TRAILER_SIZE > dataPortion.SizeOnDisk(region.block_size) {
+		return errors.Wrapf(internalerror.StorageCorrupted, "padding size %d", paddingSize)
+	}
+	return nil
+}
+
 //read/write threadSafe
 func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32, err error) {
 	/*
@@ -214,6 +223,9 @@ func (region *DataRegion) GetSize(dataPortion portion.DataPortion) (size uint32,
 		return 0, err
 	}
 	paddingSize := uint32(util.GetUINT16(buf[region.block_size-2:]))
+	if err = region.checkPadding(dataPortion, paddingSize); err != nil {
+		return 0, err
+	}
 	size = uint32(dataPortion.Len)*uint32(region.block_size) -
 		paddingSize - LUMP_DATA_TRAILER_SIZE
 
@@ -243,6 +255,9 @@ func (region *DataRegion) Get(dataPortion portion.DataPortion) (lump.LumpData, e
 		return lump.LumpData{}, err
 	}
 	paddingSize := uint32(util.GetUINT16(ab.AsBytes()[ab.Len()-2:]))
+	if err := region.checkPadding(dataPortion, paddingSize); err != nil {
+		return lump.LumpData{}, err
+	}
 
 	ab.Resize(ab.Len() - paddingSize - LUMP_DATA_TRAILER_SIZE)
 
-- 
2.43.0


From 27019ee7579abaa9ec044860816e242bba0cff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 07/38] fix: opening a damaged journal returns an error and
 releases the file

---
 storage/journal/record.go      |  2 +-
 storage/journal/region.go      | 23 +++++++++++++++++------
 storage/journal/ring_buffer.go |  8 +++++++-
 storage/storage.go             |  8 +++++++-
 4 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index b5f3dbd..6c5fa76 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -319,7 +319,7 @@ func ReadRecordFrom(reader io.Reader) (JournalRecord, error) {
 		}
 		record = DeleteRange{Start: start, End: end}
 	default:
-		panic("read tag error")
+		return nil, errors.Wrapf(internalerror.StorageCorrupted, "unknown tag: %d", tag)
 	}
 
 	if checksum != record.CheckSum() {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index 3707049..9e4538f 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -7,6 +7,7 @@ import (
 	"io"
 
 	"github.com/phf/go-queue/queue"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/block"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/lump"
@@ -84,19 +85,32 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 	}, nil
 }
 
-func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) error {
 	var entry JournalEntry
 	var err error
 	iter := journal.ring.BufferedIter()
+	//this iter has more than one goroutine to read data from nvm
+	//It must be sure all the goroutines are closed before normal operations
+	defer iter.Close()
 	var i int64 = 0
+	var last uint64
+	wrapped := false
 	for {
 		entry, err = iter.PopFront()
 		if err != nil {
 			if err != internalerror.NoEntries {
-				panic(fmt.Sprintf("Can not restore journal :%v", err))
+				return errors.Wrap(err, "Can not restore journal")
 			}
 			break
 		}
+		//the records go around the ring at most once
+		if entry.Start.AsU64() < last {
+			if wrapped {
+				return errors.Wrap(internalerror.StorageCorrupted, "journal has no end")
+			}
+			wrapped = true
+		}
+		last = entry.Start.AsU64()
 		switch record := entry.Record.(type) {
 		case PutRecord:
 			index.InsertDataPortion(record.LumpID, record.DataPortion)
@@ -120,10 +134,7 @@ func (journal *JournalRegion) RestoreIndex(index *lumpindex.LumpIndex) {
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(i))
 	//update usage
 	journal.ring.DoStoreUsage()
-
-	//this iter has more than one goroutine to read data from nvm
-	//It must be sure all the goroutines are closed before normal operations
-	iter.Close()
+	return nil
 }
 
 func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalRecord) error {
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index f5fcb1f..c59bbbf 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -7,6 +7,7 @@ import (
 	"sync/atomic"
 
 	"github.com/klauspost/readahead"
+	"github.com/pkg/errors"
 	"github.com/thesues/cannyls-go/address"
 	"github.com/thesues/cannyls-go/internalerror"
 	"github.com/thesues/cannyls-go/nvm"
@@ -216,8 +217,13 @@ func (iter BufferedIter) PopFront() (entry JournalEntry, err error) {
 	}
 	switch record.(type) {
 	case GoToFront:
+		if iter.ring.tail == 0 {
+			return JournalEntry{}, errors.Wrap(internalerror.StorageCorrupted, "GoToFront at the front of the journal")
+		}
 		iter.ring.tail = 0
-		iter.fastReader.Seek(0, io.SeekStart)
+		if _, err = iter.fastReader.Seek(0, io.SeekStart); err != nil {
+			return JournalEntry{}, err
+		}
 		return iter.PopFront()
 	case EndOfRecords:
 		//this will not update ring.tail
diff --git a/storage/storage.go b/storage/storage.go
index 9f1101b..444b3fd 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -63,6 +63,7 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 	}
 	snapNVM, err := nvm.NewSnapshotNVM(file)
 	if err != nil {
+		file.Close()
 		return nil, err
 	}
 
@@ -71,10 +72,15 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 
 	journalRegion, err := journal.OpenJournalRegion(journalNVM)
 	if err != nil {
+		snapNVM.Close()
 		return nil, err
 	}
 
-	journalRegion.RestoreIndex(index)
+	if err = journalRegion.RestoreIndex(index); err != nil {
+		snapNVM.Close()
+		index.Free()
+		return nil, err
+	}
 	/*
 		fmt.Printf("Index's mem is %d\n", index.MemoryUsed())
 		id, _ := index.Min()
-- 
2.43.0


From f351eb17cb7602817b03ab371326b939cde794d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 08/38] fix: the index changes together with the journal
 record, and not at all when recording fails

---
 storage/journal/region.go | 14 +++++++---
 storage/storage.go        | 56 +++++++++++++++++----------------------
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 9e4538f..84fdc8e 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -143,11 +143,17 @@ func (journal *JournalRegion) append(index *lumpindex.LumpIndex, record JournalR
 	if embeded, err = journal.ring.Enqueue(record); err != nil {
 		return err
 	}
-	//if record is an embeded entry, we should update the index as well
-	//because journal GC start after append, to prevent to be GCed
+	//the index is updated with the record, because journal GC, which starts after append,
+	//tells live records from garbage by the index
 	switch v := record.(type) {
+	case PutRecord:
+		index.InsertDataPortion(v.LumpID, v.DataPortion)
 	case EmbedRecord:
 		index.InsertJournalPortion(v.LumpID, embeded)
+	case DeleteRecord:
+		index.Delete(v.LumpID)
+	case DeleteRange:
+		index.DeleteRange(v.Start, v.End)
 	}
 	return nil
 }
@@ -307,7 +313,8 @@ func (journal *JournalRegion) trySync() {
 	}
 }
 
-//Write Journal, Update Index
+//Write Journal, Update Index, so do the other Record functions
+//If an error is returned, the index is not changed
 func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.LumpId, data portion.DataPortion) error {
 	record := PutRecord{
 		LumpID:      id,
@@ -316,7 +323,6 @@ func (journal *JournalRegion) RecordPut(index *lumpindex.LumpIndex, id lump.Lump
 	return journal.appendWithGC(index, record)
 }
 
-//WARNING: this will update the INDEX
 func (journal *JournalRegion) RecordEmbed(index *lumpindex.LumpIndex, id lump.LumpId, data []byte) error {
 	if len(data) > lump.MAX_EMBEDDED_SIZE {
 		return internalerror.InvalidInput
diff --git a/storage/storage.go b/storage/storage.go
index 444b3fd..0c59f33 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -498,12 +498,6 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 		return
 	}
 
-	store.index.InsertDataPortion(lumpid, dataPortion)
-
-	if int64(lumpdata.Inner.Len()) == 1 {
-
-		panic("FUCK")
-	}
 	return
 }
 
@@ -604,15 +598,16 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	//Because previous Get is ok, this Delete will surely success
-	if ok := store.index.Delete(lumpid); ok == false {
-		panic("Delete after Get failed, something bad happend")
-	}
-
 	if doRecord {
 		store.jr.Lock()
-		store.journalRegion.RecordDelete(store.index, lumpid)
+		err = store.journalRegion.RecordDelete(store.index, lumpid)
 		store.jr.Unlock()
+		if err != nil {
+			return false, 0, err
+		}
+	} else if ok := store.index.Delete(lumpid); ok == false {
+		//Because previous Get is ok, this Delete will surely success
+		panic("Delete after Get failed, something bad happend")
 	}
 
 	var releasedSize uint32
@@ -720,25 +715,28 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 	if !store.opened {
 		return internalerror.StorageClosed
 	}
-	store.jr.Lock()
-	err := store.journalRegion.RecordDeleteRange(store.index, start, end)
-	store.jr.Unlock()
-	if err != nil {
-		return err
-	}
-	return store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
-		p, err := store.index.Get(id)
-		if err != nil {
-			return err
-		}
-		store.index.Delete(id)
+	var removed []portion.DataPortion
+	err := store.index.RangeIter(start, end, func(id lump.LumpId, p portion.Portion) error {
 		switch v := p.(type) {
 		case portion.DataPortion:
-			store.dataRegion.Release(v)
+			removed = append(removed, v)
 		}
 		return nil
-
 	})
+	if err != nil {
+		return err
+	}
+
+	store.jr.Lock()
+	err = store.journalRegion.RecordDeleteRange(store.index, start, end)
+	store.jr.Unlock()
+	if err != nil {
+		return err
+	}
+	for _, p := range removed {
+		store.dataRegion.Release(p)
+	}
+	return nil
 }
 
 //added API for raft log and raft apply
@@ -808,9 +806,5 @@ func (store *Storage) WriteRecord(lumpid lump.LumpId, dataPortion portion.DataPo
 	if store.opened == false {
 		return internalerror.StorageClosed
 	}
-	if err := store.journalRegion.RecordPut(store.index, lumpid, dataPortion); err != nil {
-		return err
-	}
-	store.index.InsertDataPortion(lumpid, dataPortion)
-	return nil
+	return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
 }
-- 
2.43.0


From 5384d6c9a29ef423e5d5052230c32435094275a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 09/38] fix: compaction keeps records it cannot move and
 releases journal space only behind a durable head

---
 storage/journal/journal_header_region.go |  8 ++-
 storage/journal/region.go                | 66 ++++++++++++++----------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/storage/journal/journal_header_region.go b/storage/journal/journal_header_region.go
index e083a76..b582d20 100644
--- a/storage/journal/journal_header_region.go
+++ b/storage/journal/journal_header_region.go
@@ -32,11 +32,9 @@ func (headerRegion *JournalHeaderRegion) WriteTo(head uint64) (err error) {
 		return
 	}
 
-	return nil
-	//if storage crashed, and the headerRegion did not SYNC to disk.
-	//the data consistence is still ensure. we could restore data from
-	//the last headerRegion.
-	//return headerRegion.nvm.Sync()
+	//if storage crashed, and the headerRegion did not SYNC to disk, the records
+	//after the last head would be needed, but they may have been overwritten
+	return headerRegion.nvm.Sync()
 }
 
 func (headerRegion *JournalHeaderRegion) ReadFrom() (head uint64, err error) {
diff --git a/storage/journal/region.go b/storage/journal/region.go
index 84fdc8e..39e7b4b 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -166,6 +166,7 @@ func (journal *JournalRegion) appendWithGC(index *lumpindex.LumpIndex, record Jo
 		return err
 	}
 	if journal.gcAfterAppend {
+		//the record is written. If an old one can not be moved, it will be tried again after the next
 		journal.gcOnce(index)
 	}
 	journal.trySync()
@@ -215,7 +216,8 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 	}
 }
 
-func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
+//return error if a live record could not be moved. It stays in the gcQueue
+func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
 	}
@@ -226,7 +228,14 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 
 			if journal.isGarbage(index, entry) == false {
 				record := entry.Record
-				journal.append(index, record)
+				if err = journal.append(index, record); err == internalerror.JournalStorageFull {
+					//all the records before this one are garbage or have been moved
+					journal.releaseUntil(entry.Start.AsU64())
+					err = journal.append(index, record)
+				}
+				if err != nil {
+					journal.gcQueue.PushFront(e)
+				}
 				goto ENDFOR
 			}
 			//metric, if record is garbage, the recordCount should decrease
@@ -240,37 +249,29 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) {
 ENDFOR:
 	ostats.Record(context.Background(), x.JournalRegionMetric.GcQueueSize.M(int64(journal.gcQueue.Len())))
 
-	/*
-		front := journal.gcQueue.Front()
-		if front != nil {
-			//assert head == unrelease head
-			//head := journal.ring.Head()
-			head := front.(JournalEntry).Start
-			journal.ring.ReleaseBytesUntil(head.AsU64())
-		} else {
-			head := journal.ring.Head()
-			journal.ring.ReleaseBytesUntil(head)
-		}
-	*/
-
+	return err
 }
 
-func (journal *JournalRegion) writeUnusedJournalHeader(head uint64) {
-	journal.headerRegion.WriteTo(head)
+//The moved records must be durable before the header tells to skip the original ones,
+//and the header must be durable before the original ones are overwritten.
+func (journal *JournalRegion) releaseUntil(head uint64) {
+	if head == journal.ring.unreleasedHead {
+		return
+	}
+	journal.Sync()
+	if err := journal.headerRegion.WriteTo(head); err != nil {
+		panic(fmt.Sprintf("failed to write journal header: %v", err))
+	}
 	journal.ring.ReleaseBytesUntil(head)
 }
 
 func (journal *JournalRegion) fillGCQueue() {
 
-	var err error
 	if journal.ring.isEmpty() {
 		return
 	}
 
-	if err = journal.ring.Flush(); err != nil {
-		panic(fmt.Sprintf("fillGCQueue %+v", err))
-	}
-	journal.writeUnusedJournalHeader(journal.ring.head)
+	journal.releaseUntil(journal.ring.head)
 
 	var i int
 	i = 0
@@ -356,7 +357,9 @@ func (journal *JournalRegion) RunSideJobOnce(index *lumpindex.LumpIndex, countSi
 		journal.Sync()
 	} else {
 		for i := 0; i < countSideJob; i++ {
-			journal.gcOnce(index)
+			if err := journal.gcOnce(index); err != nil {
+				break
+			}
 		}
 		journal.trySync()
 	}
@@ -370,10 +373,13 @@ func (journal *JournalRegion) GetEmbededData(embeded portion.JournalPortion) (bu
 	return
 }
 
-func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) {
+func (journal *JournalRegion) gcAllEntriesInQueue(index *lumpindex.LumpIndex) error {
 	for journal.gcQueue.Len() != 0 {
-		journal.gcOnce(index)
+		if err := journal.gcOnce(index); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []JournalEntry) {
@@ -394,6 +400,10 @@ func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []Journa
 
 //maybe sync
 func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
+	//finish the entries already taken from the journal
+	if err := journal.gcAllEntriesInQueue(index); err != nil {
+		return
+	}
 	tail := journal.ring.Tail()
 	for {
 		before_head := journal.ring.Head()
@@ -402,13 +412,15 @@ func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 			journal.fillGCQueue()
 		}
 
-		journal.gcAllEntriesInQueue(index)
+		if err := journal.gcAllEntriesInQueue(index); err != nil {
+			return
+		}
 
 		if between(before_head, tail, journal.ring.Head()) {
 			break
 		}
 	}
-	journal.writeUnusedJournalHeader(journal.ring.Head())
+	journal.releaseUntil(journal.ring.Head())
 	//assert head == unreleased_head
 	//journal.headerRegion.WriteTo(journal.ring.Head())
 	//journal.Sync()
-- 
2.43.0


From 37fa82e3eeabd7070741ac79c5b6d16341bca3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 10/38] fix: wrapping the journal around never overwrites
 records in use or exposes stale ones

---
 storage/journal/ring_buffer.go | 49 +++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index c59bbbf..4671842 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -98,11 +98,20 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//2. check overflow
 	if ring.isOverFlow(record) {
-		if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
+		//the front must be the end of records before something points to it,
+		//what is stored there are old records
+		if err = ring.writeAt(0, EndOfRecords{}); err != nil {
 			return
 		}
-		r := GoToFront{}
-		if err = r.WriteTo(ring.nvm); err != nil {
+		if err = ring.nvm.Flush(); err != nil {
+			return
+		}
+		if err = ring.nvm.Sync(); err != nil {
+			//what the device lost is not known
+			panic(fmt.Sprintf("journal sync failed: %v", err))
+		}
+		if err = ring.writeAt(ring.tail, GoToFront{}); err != nil {
+			ring.writeAt(ring.tail, EndOfRecords{})
 			return
 		}
 
@@ -113,19 +122,19 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 
 	//3. write data
 	preTail := ring.tail
-	if _, err = ring.nvm.Seek(int64(ring.tail), io.SeekStart); err != nil {
-		return
-	}
-	if err = record.WriteTo(ring.nvm); err != nil {
-		return
-	}
-	ring.tail = ring.nvm.Position()
+	err = ring.writeAt(preTail, record)
+	newTail := ring.nvm.Position()
 
 	//4. write End OF Record
-	endRecord := EndOfRecords{}
-	if err = endRecord.WriteTo(ring.nvm); err != nil {
+	if err == nil {
+		err = ring.writeAt(newTail, EndOfRecords{})
+	}
+	if err != nil {
+		//the records still end here
+		ring.writeAt(preTail, EndOfRecords{})
 		return
 	}
+	ring.tail = newTail
 
 	switch r := record.(type) {
 	case EmbedRecord:
@@ -136,6 +145,13 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	return
 }
 
+func (ring *JournalRingBuffer) writeAt(position uint64, record JournalRecord) error {
+	if _, err := ring.nvm.Seek(int64(position), io.SeekStart); err != nil {
+		return err
+	}
+	return record.WriteTo(ring.nvm)
+}
+
 func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
@@ -155,9 +171,18 @@ func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 	if writeEnd > freeEnd {
 		return false
 	}
+	//the whole record goes to the front, before the first one in use
+	if ring.isOverFlow(record) {
+		return ring.unreleasedHead <= ring.tail && ring.frontEnd(record) <= ring.unreleasedHead
+	}
 	return true
 }
 
+//end of the record if it is written at the front
+func (ring *JournalRingBuffer) frontEnd(record JournalRecord) uint64 {
+	return ring.nvm.BlockSize().CeilAlign(uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE)
+}
+
 func (ring *JournalRingBuffer) isOverFlow(record JournalRecord) bool {
 	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
 	return writeEnd > ring.nvm.Capacity()
-- 
2.43.0


From c8949dc274b8396a5e9f885a32a1fec3b0684f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 11/38] fix: freed space is not reused before the records that
 freed it are durable

---
 storage/data_region.go    | 35 ++++++++++++++++++++++++++++++++++-
 storage/journal/region.go |  9 +++++++++
 storage/storage.go        | 27 +++++++++++++++++++++++----
 3 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/storage/data_region.go b/storage/data_region.go
index 14e2706..3e73740 100644
--- a/storage/data_region.go
+++ b/storage/data_region.go
@@ -22,10 +22,12 @@ const (
 )
 
 type DataRegion struct {
-	sync.Mutex //protect the allocator
+	sync.Mutex //protect the allocator and released
 	allocator  allocator.DataPortionAlloc
 	nvm        nvm.NonVolatileMemory
 	block_size block.BlockSize
+	//portions nobody refers to any more, but the journal still does if the latest records are lost
+	released []portion.DataPortion
 }
 
 func NewDataRegion(alloc allocator.DataPortionAlloc, nvm nvm.NonVolatileMemory) *DataRegion {
@@ -192,6 +194,37 @@ func (region *DataRegion) Release(portion portion.DataPortion) {
 	region.allocator.Release(portion)
 }
 
+//Release the portion when the journal is synced next time.
+//If it was used before, a crash could bring back a lump whose data is overwritten.
+//thread safe
+func (region *DataRegion) ReleaseAfterSync(portion portion.DataPortion) {
+	region.Lock()
+	defer region.Unlock()
+	region.released = append(region.released, portion)
+}
+
+//the journal is synced
+//thread safe
+func (region *DataRegion) ReleaseSynced() {
+	region.Lock()
+	defer region.Unlock()
+	for _, portion := range region.released {
+		region.allocator.Release(portion)
+	}
+	region.released = nil
+}
+
+//including the portions which will be free after next sync
+//thread safe
+func (region *DataRegion) FreeBlocks() (n uint64, waiting uint64) {
+	region.Lock()
+	defer region.Unlock()
+	for _, portion := range region.released {
+		waiting += uint64(portion.Len)
+	}
+	return region.allocator.FreeCount() + waiting, waiting
+}
+
 //the padding is smaller than a block, and than the portion
 func (region *DataRegion) checkPadding(dataPortion portion.DataPortion, paddingSize uint32) error {
 	if paddingSize >= region.block_size.AsU32() ||
diff --git a/storage/journal/region.go b/storage/journal/region.go
index 39e7b4b..fc89044 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -31,6 +31,12 @@ type JournalRegion struct {
 	gcQueue       *queue.Queue
 	syncCountDown int
 	gcAfterAppend bool
+	afterSync     func()
+}
+
+//f is called every time all the records are durable
+func (journal *JournalRegion) SetAfterSync(f func()) {
+	journal.afterSync = f
 }
 
 func (journal *JournalRegion) SetAutomaticGcMode(gc bool) {
@@ -298,6 +304,9 @@ func (journal *JournalRegion) Sync() {
 		panic(fmt.Sprintf("journal sync failed: %v", err))
 	}
 	journal.syncCountDown = SYNC_INTERVAL
+	if journal.afterSync != nil {
+		journal.afterSync()
+	}
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.Syncs.M(1))
 }
diff --git a/storage/storage.go b/storage/storage.go
index 0c59f33..54d69a8 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -103,6 +103,8 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 
 	dataRegion := NewDataRegion(alloc, dataNVM)
 
+	journalRegion.SetAfterSync(dataRegion.ReleaseSynced)
+
 	//Add a go routing to collect capacity information into metric
 
 	s := &Storage{
@@ -269,11 +271,12 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	free, _ := store.dataRegion.FreeBlocks()
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
-		DataFreeBytes:     store.alloc.FreeCount() * blockSize,
+		DataFreeBytes:     free * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
 		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
@@ -479,8 +482,24 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
+//write data into a free portion
+func (store *Storage) putData(lumpdata lump.LumpData) (dataPortion portion.DataPortion, err error) {
+	dataPortion, err = store.dataRegion.Put(lumpdata)
+	if errors.Cause(err) != internalerror.StorageFull {
+		return
+	}
+	if _, waiting := store.dataRegion.FreeBlocks(); waiting == 0 {
+		return
+	}
+	//the released portions become free by sync
+	store.jr.Lock()
+	store.journalSync()
+	store.jr.Unlock()
+	return store.dataRegion.Put(lumpdata)
+}
+
 func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
-	dataPortion, err := store.dataRegion.Put(lumpdata)
+	dataPortion, err := store.putData(lumpdata)
 	if err != nil {
 		return
 	}
@@ -615,7 +634,7 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 	switch v := p.(type) {
 	case portion.DataPortion:
 		releasedSize = uint32(v.Len) * uint32(store.innerNVM.BlockSize().AsU16())
-		store.dataRegion.Release(v)
+		store.dataRegion.ReleaseAfterSync(v)
 	case portion.JournalPortion:
 		releasedSize = uint32(v.Len)
 
@@ -734,7 +753,7 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 		return err
 	}
 	for _, p := range removed {
-		store.dataRegion.Release(p)
+		store.dataRegion.ReleaseAfterSync(p)
 	}
 	return nil
 }
-- 
2.43.0


From 61feb1b825ea85a2c271db551a97008e558cb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 12/38] fix: an overwrite gives up the old lump only when the
 new one is recorded, updates exclude each other, and nothing is written after
 Close

---
 storage/journal/region.go      |  13 ++++
 storage/journal/ring_buffer.go |  21 ++++--
 storage/storage.go             | 132 +++++++++++++++++++++++----------
 3 files changed, 117 insertions(+), 49 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index fc89044..c86c2c5 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -359,6 +359,19 @@ func (journal *JournalRegion) RecordDeleteRange(index *lumpindex.LumpIndex, star
 	return journal.appendWithGC(index, record)
 }
 
+//Same as RecordDelete, but only if there is room to put it again
+func (journal *JournalRegion) RecordDeleteBeforePut(index *lumpindex.LumpIndex, id lump.LumpId) error {
+	record := DeleteRecord{
+		LumpID: id,
+	}
+	if !journal.ring.hasRoom(record.ExternalSize() + PutRecord{LumpID: id}.ExternalSize()) {
+		return internalerror.JournalStorageFull
+	}
+	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
+	//no GC, it needs room as well
+	return journal.append(index, record)
+}
+
 func (journal *JournalRegion) RunSideJobOnce(index *lumpindex.LumpIndex, countSideJob int) {
 	if journal.gcQueue.Len() == 0 {
 		journal.fillGCQueue()
diff --git a/storage/journal/ring_buffer.go b/storage/journal/ring_buffer.go
index 4671842..b1da8db 100644
--- a/storage/journal/ring_buffer.go
+++ b/storage/journal/ring_buffer.go
@@ -97,7 +97,7 @@ func (ring *JournalRingBuffer) Enqueue(record JournalRecord) (jportion portion.J
 	}
 
 	//2. check overflow
-	if ring.isOverFlow(record) {
+	if ring.isOverFlow(record.ExternalSize()) {
 		//the front must be the end of records before something points to it,
 		//what is stored there are old records
 		if err = ring.writeAt(0, EndOfRecords{}); err != nil {
@@ -153,7 +153,12 @@ func (ring *JournalRingBuffer) writeAt(position uint64, record JournalRecord) er
 }
 
 func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
-	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+	return ring.hasRoom(record.ExternalSize())
+}
+
+//size is the external size of one or more records
+func (ring *JournalRingBuffer) hasRoom(size uint32) bool {
+	writeEnd := ring.tail + uint64(size) + END_OF_RECORDS_SIZE
 	writeEnd = ring.nvm.BlockSize().CeilAlign(writeEnd)
 
 	/*
@@ -172,19 +177,19 @@ func (ring *JournalRingBuffer) checkFreeSpace(record JournalRecord) bool {
 		return false
 	}
 	//the whole record goes to the front, before the first one in use
-	if ring.isOverFlow(record) {
-		return ring.unreleasedHead <= ring.tail && ring.frontEnd(record) <= ring.unreleasedHead
+	if ring.isOverFlow(size) {
+		return ring.unreleasedHead <= ring.tail && ring.frontEnd(size) <= ring.unreleasedHead
 	}
 	return true
 }
 
 //end of the record if it is written at the front
-func (ring *JournalRingBuffer) frontEnd(record JournalRecord) uint64 {
-	return ring.nvm.BlockSize().CeilAlign(uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE)
+func (ring *JournalRingBuffer) frontEnd(size uint32) uint64 {
+	return ring.nvm.BlockSize().CeilAlign(uint64(size) + END_OF_RECORDS_SIZE)
 }
 
-func (ring *JournalRingBuffer) isOverFlow(record JournalRecord) bool {
-	writeEnd := ring.tail + uint64(record.ExternalSize()) + END_OF_RECORDS_SIZE
+func (ring *JournalRingBuffer) isOverFlow(size uint32) bool {
+	writeEnd := ring.tail + uint64(size) + END_OF_RECORDS_SIZE
 	return writeEnd > ring.nvm.Capacity()
 }
 
diff --git a/storage/storage.go b/storage/storage.go
index 54d69a8..bd5dafc 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -483,7 +483,11 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 }
 
 //write data into a free portion
+//caller holds store.i, so that the storage can not be closed
 func (store *Storage) putData(lumpdata lump.LumpData) (dataPortion portion.DataPortion, err error) {
+	if !store.opened {
+		return portion.DataPortion{}, internalerror.StorageClosed
+	}
 	dataPortion, err = store.dataRegion.Put(lumpdata)
 	if errors.Cause(err) != internalerror.StorageFull {
 		return
@@ -498,14 +502,12 @@ func (store *Storage) putData(lumpdata lump.LumpData) (dataPortion portion.DataP
 	return store.dataRegion.Put(lumpdata)
 }
 
-func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error) {
-	dataPortion, err := store.putData(lumpdata)
-	if err != nil {
-		return
+//caller holds store.i.Lock
+func (store *Storage) recordPut(lumpid lump.LumpId, dataPortion portion.DataPortion) (updated bool, err error) {
+	if !store.opened {
+		return false, internalerror.StorageClosed
 	}
-
-	store.i.Lock()
-	defer store.i.Unlock()
+	old, getErr := store.index.Get(lumpid)
 
 	store.jr.Lock()
 	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
@@ -514,18 +516,66 @@ func (store *Storage) put(lumpid lump.LumpId, lumpdata lump.LumpData) (err error
 	if err != nil {
 		// revert the dataPortion
 		store.dataRegion.Release(dataPortion)
-		return
+		return false, err
+	}
+	if getErr != nil {
+		return false, nil
 	}
+	if v, ok := old.(portion.DataPortion); ok {
+		store.dataRegion.ReleaseAfterSync(v)
+	}
+	return true, nil
+}
 
-	return
+//There is no room for the old lump and the new one together. If the new one
+//surely fits after the old one is gone, delete it first.
+func (store *Storage) replace(lumpid lump.LumpId, lumpdata lump.LumpData, full error) (updated bool, err error) {
+	store.i.Lock()
+	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	old, err := store.index.Get(lumpid)
+	if err != nil {
+		return false, full
+	}
+	v, ok := old.(portion.DataPortion)
+	if !ok || uint64(v.SizeOnDisk(store.innerNVM.BlockSize())) < uint64(lumpdata.Inner.Len())+LUMP_DATA_TRAILER_SIZE {
+		return false, full
+	}
+
+	store.jr.Lock()
+	if err = store.journalRegion.RecordDeleteBeforePut(store.index, lumpid); err == nil {
+		store.dataRegion.ReleaseAfterSync(v)
+		store.journalSync()
+	}
+	store.jr.Unlock()
+	if err != nil {
+		return false, err
+	}
+
+	dataPortion, err := store.putData(lumpdata)
+	if err != nil {
+		return true, err
+	}
+	_, err = store.recordPut(lumpid, dataPortion)
+	return true, err
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	err = nil
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return updated, err
+	store.i.RLock()
+	dataPortion, err := store.putData(lumpdata)
+	store.i.RUnlock()
+	if errors.Cause(err) == internalerror.StorageFull {
+		return store.replace(lumpid, lumpdata, err)
 	}
-	return updated, store.put(lumpid, lumpdata)
+	if err != nil {
+		return false, err
+	}
+
+	store.i.Lock()
+	defer store.i.Unlock()
+	return store.recordPut(lumpid, dataPortion)
 }
 
 // padding payload with necessary zeros before and after, return:
@@ -550,13 +600,13 @@ func paddingWithZero(payload []byte, startOffset, reservation uint32) []byte {
 func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 	startOffset uint32, reservation uint32) (err error) {
 
-	store.i.RLock()
+	//an update reads blocks, changes some bytes and writes them back
+	store.i.Lock()
+	defer store.i.Unlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	payload := lumpdata.AsBytes()
 
 	if err != nil {
@@ -567,8 +617,12 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 		}
 		toWrite := paddingWithZero(payload, startOffset, reservation)
 		data := block.FromBytes(toWrite, block.Min())
-		lumpdata = lump.NewLumpDataWithAb(data)
-		return store.put(lumpid, lumpdata)
+		dataPortion, err := store.putData(lump.NewLumpDataWithAb(data))
+		if err != nil {
+			return err
+		}
+		_, err = store.recordPut(lumpid, dataPortion)
+		return err
 	}
 
 	// update exist object; `reservation` is ignored in this case
@@ -585,25 +639,26 @@ func (store *Storage) PutWithOffset(lumpid lump.LumpId, lumpdata lump.LumpData,
 }
 
 func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, err error) {
-	if updated, _, err = store.deleteIfExist(lumpid, false); err != nil {
-		return
-	}
-
 	store.i.Lock()
 	defer store.i.Unlock()
+	if !store.opened {
+		return false, internalerror.StorageClosed
+	}
+	old, getErr := store.index.Get(lumpid)
+
 	store.jr.Lock()
-	defer store.jr.Unlock()
 	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	return
-}
-
-func (store *Storage) Delete(lumpid lump.LumpId) (updated bool, size uint32, err error) {
-	updated, size, err = store.deleteIfExist(lumpid, true)
-	return
+	store.jr.Unlock()
+	if err != nil || getErr != nil {
+		return false, err
+	}
+	if v, ok := old.(portion.DataPortion); ok {
+		store.dataRegion.ReleaseAfterSync(v)
+	}
+	return true, nil
 }
 
-func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, uint32, error) {
-
+func (store *Storage) Delete(lumpid lump.LumpId) (bool, uint32, error) {
 	store.i.Lock()
 	defer store.i.Unlock()
 	if !store.opened {
@@ -617,16 +672,11 @@ func (store *Storage) deleteIfExist(lumpid lump.LumpId, doRecord bool) (bool, ui
 		return false, 0, nil
 	}
 
-	if doRecord {
-		store.jr.Lock()
-		err = store.journalRegion.RecordDelete(store.index, lumpid)
-		store.jr.Unlock()
-		if err != nil {
-			return false, 0, err
-		}
-	} else if ok := store.index.Delete(lumpid); ok == false {
-		//Because previous Get is ok, this Delete will surely success
-		panic("Delete after Get failed, something bad happend")
+	store.jr.Lock()
+	err = store.journalRegion.RecordDelete(store.index, lumpid)
+	store.jr.Unlock()
+	if err != nil {
+		return false, 0, err
 	}
 
 	var releasedSize uint32
-- 
2.43.0


From 722507f02c3e1659c5b6377cfaf2ad0b8d574c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 13/38] fix: reads hold the index lock while they read the
 device

---
 storage/storage.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index bd5dafc..ee999bc 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -390,15 +390,13 @@ func (store *Storage) GetSizeOnDisk(lumpid lump.LumpId) (size uint32, err error)
 
 // Get accurate size of object, require a disk IO
 func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
+	//the portion may be released and reused without the lock
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return 0, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-
-	store.i.RUnlock()
-
 	if err != nil {
 		return 0, err
 	}
@@ -420,12 +418,11 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 
 func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpid)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
@@ -452,12 +449,11 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 
 func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, length uint32) ([]byte, error) {
 	store.i.RLock()
+	defer store.i.RUnlock()
 	if !store.opened {
-		store.i.RUnlock()
 		return nil, internalerror.StorageClosed
 	}
 	p, err := store.index.Get(lumpId)
-	store.i.RUnlock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b8619ec27ba302796cb57760c39bfa49072c3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 14/38] fix: Close cannot deadlock with other calls, nothing is
 touched after it, failed flush and full data region are reported right

---
 storage/storage.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index ee999bc..f21b098 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -34,8 +34,8 @@ const (
 )
 
 type Storage struct {
-	i                     sync.RWMutex
-	jr                    sync.Mutex //protect journal region(read/write)
+	i                     sync.RWMutex //protect index, locked before jr
+	jr                    sync.Mutex   //protect journal region(read/write)
 	storageHeader         *nvm.StorageHeader
 	dataRegion            *DataRegion
 	journalRegion         *journal.JournalRegion
@@ -224,6 +224,8 @@ func (store *Storage) Header() nvm.StorageHeader {
 }
 
 func (store *Storage) SetAutomaticGcMode(gc bool) {
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	store.journalRegion.SetAutomaticGcMode(gc)
 }
 
@@ -271,14 +273,23 @@ func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
 
 func (store *Storage) Usage() StorageUsage {
 	blockSize := uint64(store.Header().BlockSize.AsU16())
+	store.i.RLock()
+	defer store.i.RUnlock()
+	if !store.opened {
+		return StorageUsage{}
+	}
 	free, _ := store.dataRegion.FreeBlocks()
+	maxSegmentSize := store.alloc.MaxSegmentSize() * blockSize
+	if maxSegmentSize > 0 {
+		maxSegmentSize = util.Min(lump.LUMP_MAX_SIZE, maxSegmentSize-LUMP_DATA_TRAILER_SIZE)
+	}
 	return StorageUsage{
 		JournalCapacity:   store.Header().JournalRegionSize,
 		DataCapacity:      store.Header().DataRegionSize,
 		FileCounts:        store.index.Count(),
 		DataFreeBytes:     free * blockSize,
 		JournalUsageBytes: store.journalRegion.Usage(),
-		MaxSegmentSize:    util.Min(lump.LUMP_MAX_SIZE, store.alloc.MaxSegmentSize()*blockSize-2),
+		MaxSegmentSize:    maxSegmentSize,
 		//	CurrentFileSize: uint64(store.innerNVM.RawSize()),
 	}
 }
@@ -355,6 +366,9 @@ type JournalSnapshot struct {
 func (store *Storage) JournalSnapshot() JournalSnapshot {
 	store.jr.Lock()
 	defer store.jr.Unlock()
+	if !store.opened {
+		return JournalSnapshot{}
+	}
 	unreleasedhead, head, tail, entries := store.journalRegion.JournalEntries()
 	return JournalSnapshot{
 		UnreleasedHead: unreleasedhead,
@@ -701,9 +715,13 @@ func (store *Storage) Delete(lumpid lump.LumpId) (bool, uint32, error) {
 
 /*
 return value: len([]float) no more than 12800 points, each point is 4MB
-//thread-UNSAFE
 */
 func (store *Storage) GetAllocationStatus() []float64 {
+	store.i.RLock()
+	defer store.i.RUnlock()
+	if !store.opened {
+		return nil
+	}
 	//each point represents 4M bytes
 	blockSizeBytes := store.storageHeader.BlockSize.AsU32()
 
@@ -719,6 +737,8 @@ func (store *Storage) GetAllocationStatus() []float64 {
 		total = 12800 * n //max size is 50GB
 	}
 
+	store.dataRegion.Lock()
+	defer store.dataRegion.Unlock()
 	return store.alloc.GetAllocationBitStatus(n, total)
 }
 
@@ -737,7 +757,9 @@ func (store *Storage) Flush() {
 	if !store.opened {
 		return
 	}
-	store.journalRegion.Flush()
+	if err := store.journalRegion.Flush(); err != nil {
+		panic(fmt.Sprintf("journal flush failed: %v", err))
+	}
 }
 
 func (store *Storage) journalSync() {
@@ -745,10 +767,10 @@ func (store *Storage) journalSync() {
 }
 
 func (store *Storage) Close() {
-	store.jr.Lock()
-	defer store.jr.Unlock()
 	store.i.Lock()
 	defer store.i.Unlock()
+	store.jr.Lock()
+	defer store.jr.Unlock()
 	if !store.opened {
 		return
 	}
-- 
2.43.0


From 097429d196fec4bdb225465467094369e9ad9923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 15/38] fix: a failed create leaves no file, a failed create or
 open no lock, and none of them panics

---
 nvm/file.go        |  5 +++-
 storage/storage.go | 63 ++++++++++++++++++++++++++++------------------
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 5ab93f5..1b5d3b6 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -45,7 +45,8 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	var flags int
 	var f *os.File
 	var err error
-	flags = os.O_CREATE | os.O_RDWR
+	//somebody else could have created it after the check
+	flags = os.O_CREATE | os.O_EXCL | os.O_RDWR
 
 	if f, err = openFileWithDirectIO(path, flags, 0755); err != nil {
 		return nil, errors.Wrapf(err, "failed to open file %s\n", path)
@@ -74,6 +75,7 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, err
 	}
 
@@ -120,6 +122,7 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	}
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 	err = nil
diff --git a/storage/storage.go b/storage/storage.go
index f21b098..988ad9d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"os"
 	"sync"
 	"time"
 
@@ -67,8 +68,12 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		return nil, err
 	}
 
-	index := lumpindex.NewIndex()
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
+	if journalNVM == nil || dataNVM == nil {
+		snapNVM.Close()
+		return nil, errors.Wrap(internalerror.StorageCorrupted, "wrong region size")
+	}
+	index := lumpindex.NewIndex()
 
 	journalRegion, err := journal.OpenJournalRegion(journalNVM)
 	if err != nil {
@@ -152,35 +157,42 @@ func CreateCannylsStorage(path string, capacity uint64, journal_ratio float64) (
 	if err != nil {
 		return nil, err
 	}
-	snapNVM, err := nvm.NewSnapshotNVM(file)
-	if err != nil {
+	if err = initStorage(file, journal_ratio); err != nil {
+		//the file is still locked, nobody else uses it
+		os.Remove(path)
+		file.Close()
 		return nil, err
 	}
+	file.Close()
 
+	return OpenCannylsStorage(path)
+}
+
+//write header and an empty journal
+func initStorage(file *nvm.FileNVM, journal_ratio float64) error {
 	headBuf := new(bytes.Buffer)
-	header := makeHeader(snapNVM, journal_ratio)
+	header, err := makeHeader(file, journal_ratio)
+	if err != nil {
+		return err
+	}
 
 	if err = header.WriteHeaderRegionTo(headBuf); err != nil {
-		return nil, err
+		return err
 	}
 	//now headBuf's len should be at least 512
 
-	journal.InitialJournalRegion(headBuf, snapNVM.BlockSize())
+	journal.InitialJournalRegion(headBuf, file.BlockSize())
 	//headbuf should be header(512) + (journal header)512 + (journal)512
 
-	alignedBufHead := block.FromBytes(headBuf.Bytes(), snapNVM.BlockSize())
+	alignedBufHead := block.FromBytes(headBuf.Bytes(), file.BlockSize())
 	alignedBufHead.Align()
-	snapNVM.Write(alignedBufHead.AsBytes())
-
-	if err = snapNVM.Sync(); err != nil {
-		return nil, err
+	if _, err = file.Write(alignedBufHead.AsBytes()); err != nil {
+		return err
 	}
-	snapNVM.Close()
-
-	return OpenCannylsStorage(path)
+	return file.Sync()
 }
 
-func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHeader {
+func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) (header *nvm.StorageHeader, err error) {
 
 	//total size
 	totalSize := file.Capacity()
@@ -188,35 +200,38 @@ func makeHeader(file nvm.NonVolatileMemory, journal_ratio float64) nvm.StorageHe
 
 	//check capacity
 	if totalSize < headerSize+uint64(file.BlockSize().AsU16()*3) {
-		panic("file size is too small")
+		return nil, errors.Wrap(internalerror.InvalidInput, "file size is too small")
+	}
+	if !(journal_ratio >= 0 && journal_ratio <= 1) {
+		return nil, errors.Wrap(internalerror.InvalidInput, "journal ratio is not between 0 and 1")
 	}
 
 	//check journal size
 	tmp := float64(file.Capacity()) * journal_ratio
 	journalSize := file.BlockSize().CeilAlign(uint64(tmp))
 	if journalSize > MAX_JOURNAL_REGION_SIZE {
-		panic("journal size is too big")
+		return nil, errors.Wrap(internalerror.InvalidInput, "journal size is too big")
 	}
 
 	if journalSize < uint64(file.BlockSize().AsU16()*2) {
 		journalSize = uint64(file.BlockSize().AsU16() * 2)
 	}
 
+	if journalSize+headerSize+uint64(file.BlockSize().AsU16()) > totalSize {
+		return nil, errors.Wrap(internalerror.InvalidInput, "no space for data region")
+	}
+
 	dataSize := totalSize - journalSize - headerSize
 	dataSize = file.BlockSize().FloorAlign(dataSize)
 	if dataSize > MAX_DATA_REGION_SIZE {
-		panic(fmt.Sprintf("data size is too big: %d", dataSize))
-	}
-
-	if dataSize < uint64(file.BlockSize().AsU16()) {
-		dataSize = uint64(file.BlockSize().AsU16())
+		return nil, errors.Wrapf(internalerror.InvalidInput, "data size is too big: %d", dataSize)
 	}
 
-	header := nvm.DefaultStorageHeader()
+	header = nvm.DefaultStorageHeader()
 	header.BlockSize = file.BlockSize()
 	header.JournalRegionSize = journalSize
 	header.DataRegionSize = dataSize
-	return *header
+	return header, nil
 }
 
 func (store *Storage) Header() nvm.StorageHeader {
-- 
2.43.0


From 5559f12f096ae80c05bd8332a2bd59a7ff3a6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 16/38] fix: a snapshot's file lives next to its storage, is
 found by its exact name, and a half-created one does not block opening

---
 nvm/snapnvm.go | 103 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 78 insertions(+), 25 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 953d508..1929576 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -1,12 +1,14 @@
 package nvm
 
 import (
-	_ "bytes"
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -26,6 +28,13 @@ var (
 	SNAP_MAJOR_VERSION   uint16 = 0
 	SNAP_MINOR_VERSION   uint16 = 3
 	DEFAULT_REGION_SHIFT uint16 = 25
+
+	errUnfinishedBackingFile = errors.New("backing file has no header")
+)
+
+const (
+	BACKING_FILE_SUFFIX      = "_lusf.snapshot"
+	BACKING_FILE_HEADER_SIZE = 512
 )
 
 //Default RegionShift is 25 : 1<<25 == 32MB
@@ -383,7 +392,7 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
 	uuidFile := uuid.NewV4()
-	fileName := prefix + "_" + uuidFile.String() + "_lusf.snapshot"
+	fileName := prefix + "_" + uuidFile.String() + BACKING_FILE_SUFFIX
 	file, err := os.OpenFile(fileName, os.O_SYNC|os.O_CREATE|os.O_RDWR, 0755)
 	if err != nil {
 		return nil, err
@@ -399,12 +408,20 @@ func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64
 		RawCapacity:  currentCapacity,
 	}
 
-	if err = header.WriteTo(file); err != nil {
+	//one write: the header is complete, or the file is empty
+	headBuf := new(bytes.Buffer)
+	if err = header.WriteTo(headBuf); err == nil {
+		headBuf.Write(make([]byte, BACKING_FILE_HEADER_SIZE-headBuf.Len()))
+		if _, err = file.Write(headBuf.Bytes()); err == nil {
+			err = file.Sync()
+		}
+	}
+	if err != nil {
+		file.Close()
+		os.Remove(fileName)
 		return nil, err
 	}
 
-	file.Sync()
-
 	fmt.Printf("Creating Backingfile journalSize is %d, dataStart At %d\n", header.JournalSize, 512+header.JournalSize)
 	return &BackingFile{
 		file:           file,
@@ -427,10 +444,20 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	if err != nil {
 		return nil, errors.Wrapf(internalerror.InvalidInput, "failed to open backfile %v", fileName)
 	}
+	info, err := file.Stat()
+	if err != nil {
+		file.Close()
+		return nil, err
+	}
+	if info.Size() == 0 {
+		file.Close()
+		return nil, errUnfinishedBackingFile
+	}
 	var header *BackingFileHeader
 	header, err = readBackingFileHeaderFrom(file)
 	if err != nil {
-		panic(fmt.Sprint(err.Error()))
+		file.Close()
+		return nil, err
 	}
 
 	fmt.Printf("header is %+v\n", header)
@@ -439,7 +466,6 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	tree := judy.JudyL{}
 
 	var dataStart uint64 = 512 + header.JournalSize //unit bytes
-	info, _ := file.Stat()
 	var dataEnd = util.Max(dataStart, uint64(info.Size()))
 
 	n := (dataEnd - dataStart) >> header.RegionShift
@@ -475,6 +501,27 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	}, nil
 }
 
+//all the files CreateBackingFile(prefix) could have created
+func findBackingFiles(prefix string) (fileNames []string, err error) {
+	infos, err := ioutil.ReadDir(filepath.Dir(prefix))
+	if err != nil {
+		return nil, err
+	}
+	for _, info := range infos {
+		uid := info.Name()
+		if !strings.HasPrefix(uid, filepath.Base(prefix)+"_") || !strings.HasSuffix(uid, BACKING_FILE_SUFFIX) {
+			continue
+		}
+		uid = strings.TrimSuffix(uid[len(filepath.Base(prefix))+1:], BACKING_FILE_SUFFIX)
+		//other file: prefix could be a part of its prefix
+		if _, err := uuid.FromString(uid); err != nil || len(uid) != 36 {
+			continue
+		}
+		fileNames = append(fileNames, filepath.Join(filepath.Dir(prefix), info.Name()))
+	}
+	return fileNames, nil
+}
+
 type SnapshotReader struct {
 	snap          *SnapNVM
 	offset        uint64
@@ -609,28 +656,34 @@ func NewSnapshotNVM(originFile *FileNVM) (*SnapNVM, error) {
 		panic("can not create snap from splited NVM")
 	}
 	var err error
-	fileDirectory := filepath.Dir(originFile.path)
 	var myBackFile *BackingFile = nil
-	///a/b/c/d/EXXX.lusf => EXXX
-	//../../../ASDF.lusf => ASDF
-	baseName := filepath.Base(originFile.path)
-	prefix := baseName[0 : len(baseName)-5]
-	pattern := fmt.Sprintf("%s/%s_*_lusf.snapshot", fileDirectory, prefix)
-	//fmt.Println(pattern)
-	matches, err := filepath.Glob(pattern)
-	//fmt.Println(matches)
-	if err != nil {
-		panic(err.Error())
-	}
-	if len(matches) == 0 {
-		//myBackFile, err = CreateBackingFile(prefix, uint64(originFile.RawSize()))
-	} else if len(matches) == 1 {
-		fmt.Printf("found snapshot file %s\n", matches[0])
-		myBackFile, err = OpenBackingFile(matches[0])
-	}
+	//the snapshot is next to the file
+	///a/b/c/d/EXXX.lusf => /a/b/c/d/EXXX
+	//../../../ASDF.lusf => ../../../ASDF
+	prefix := strings.TrimSuffix(filepath.Clean(originFile.path), ".lusf")
+	matches, err := findBackingFiles(prefix)
 	if err != nil {
 		return nil, err
 	}
+	for _, fileName := range matches {
+		fmt.Printf("found snapshot file %s\n", fileName)
+		bf, err := OpenBackingFile(fileName)
+		if err == errUnfinishedBackingFile {
+			//crashed in creation, nobody knows the snapshot
+			err = os.Remove(fileName)
+		} else if err == nil && myBackFile != nil {
+			bf.Close()
+			err = errors.Wrapf(internalerror.StorageCorrupted, "more than one snapshot: %v", matches)
+		} else if err == nil {
+			myBackFile = bf
+		}
+		if err != nil {
+			if myBackFile != nil {
+				myBackFile.Close()
+			}
+			return nil, err
+		}
+	}
 	snapNVM := &SnapNVM{
 		originFile: originFile,
 		myBackfile: myBackFile,
-- 
2.43.0


From 9faede42645c16b4d787512fbd71a8df1b4371f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 17/38] fix: a region is copied to the snapshot completely
 before it changes, whatever the write size, or the write fails

---
 nvm/snapnvm.go | 161 ++++++++++++++++++++++++-------------------------
 1 file changed, 80 insertions(+), 81 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 1929576..b55c5c2 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -80,22 +80,21 @@ func (entry BitmapEntry) WriteTo(writer io.Writer) (err error) {
 	return
 }
 
-func ReadRecordFrom(reader io.Reader) BitmapEntry {
-	var buf [4]byte
+func ReadRecordFrom(reader io.Reader) (BitmapEntry, error) {
+	var buf [12]byte
 	if _, err := io.ReadFull(reader, buf[:]); err != nil {
-		panic("can not read from disk: from ReadRecordFrom")
-	}
-	checksum := binary.BigEndian.Uint32(buf[:])
-	var originOffset uint32
-	var snapOffset uint32
-	binary.Read(reader, binary.BigEndian, &originOffset)
-	binary.Read(reader, binary.BigEndian, &snapOffset)
-	bitmap := BitmapEntry{OriginOffset: originOffset, SnapOffset: snapOffset}
+		return BitmapEntry{}, err
+	}
+	checksum := binary.BigEndian.Uint32(buf[:4])
+	bitmap := BitmapEntry{
+		OriginOffset: binary.BigEndian.Uint32(buf[4:8]),
+		SnapOffset:   binary.BigEndian.Uint32(buf[8:]),
+	}
 	//check entry's crc
 	if bitmap.CheckSum() != checksum {
-		panic("check sum failed")
+		return BitmapEntry{}, errors.Wrap(internalerror.StorageCorrupted, "checksum of backing file entry")
 	}
-	return bitmap
+	return bitmap, nil
 }
 
 func (self *BackingFileHeader) WriteTo(writer io.Writer) (err error) {
@@ -278,6 +277,7 @@ type BackingFile struct {
 	tree           judy.JudyL
 	regionSize     uint64
 	fileName       string
+	entryErr       error
 }
 
 func (bf *BackingFile) Close() {
@@ -352,8 +352,9 @@ func (bf *BackingFile) ReadFromOffset(buf []byte, offset uint32) (int, error) {
 //WriteOffset would write buf into backing file.
 //buf's size must be regionSize,
 //offset is buf's offset in origin file
-//WriteOffset write journal first, and then write the buf
-func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
+//WriteOffset write buf first, and then write the journal. Only when both are on disk,
+//the region in origin file is allowed to change
+func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) error {
 	bf.Lock()
 	defer bf.Unlock()
 	if uint64(len(buf)) != bf.regionSize {
@@ -370,24 +371,35 @@ func (bf *BackingFile) WriteOffset(buf []byte, offset uint32) {
 		OriginOffset: uint32(offset),
 		SnapOffset:   uint32((start - bf.dataStart) / bf.regionSize),
 	}
-	//Write journal
-	bf.file.Seek(int64(bf.JournalEnd), io.SeekStart)
-	if err := entry.WriteTo(bf.file); err != nil {
-		panic("write failed")
+	//the last entry may be on disk or not, it must not point to other data
+	if bf.entryErr != nil {
+		return bf.entryErr
 	}
 	//Write data
-	if _, err := bf.file.Seek(int64(bf.dataEnd), io.SeekStart); err != nil {
-		panic("im panic")
+	if _, err := bf.file.WriteAt(buf, int64(bf.dataEnd)); err != nil {
+		return errors.Wrap(err, "failed to write backing file")
 	}
-	bf.dataEnd += bf.regionSize
-	if _, err := bf.file.Write(buf); err != nil {
-		panic("write panic")
+	if err := bf.file.Sync(); err != nil {
+		return errors.Wrap(err, "failed to write backing file")
+	}
+	//Write journal
+	entryBuf := new(bytes.Buffer)
+	err := entry.WriteTo(entryBuf)
+	if err == nil {
+		if _, err = bf.file.WriteAt(entryBuf.Bytes(), int64(bf.JournalEnd)); err == nil {
+			err = bf.file.Sync()
+		}
+	}
+	if err != nil {
+		bf.entryErr = errors.Wrap(err, "failed to write journal of backing file")
+		return bf.entryErr
 	}
 
+	bf.dataEnd += bf.regionSize
 	bf.JournalEnd += entry.Size()
 	//fmt.Printf("entry insert %d:%d\n", entry.OriginOffset, entry.SnapOffset)
 	bf.tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
-	bf.file.Sync()
+	return nil
 }
 
 func CreateBackingFile(prefix string, maxCapacity uint64, currentCapacity uint64) (*BackingFile, error) {
@@ -466,22 +478,26 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 	tree := judy.JudyL{}
 
 	var dataStart uint64 = 512 + header.JournalSize //unit bytes
-	var dataEnd = util.Max(dataStart, uint64(info.Size()))
-
-	n := (dataEnd - dataStart) >> header.RegionShift
+	var n uint64
 
-	//fmt.Printf("snapshot number of entry is %d\n", n)
-
-	if _, err = file.Seek(512, io.SeekStart); err != nil {
-		panic("seek failed")
+	entryBuf := make([]byte, util.Min(header.JournalSize, util.Max(512, uint64(info.Size()))-512))
+	if _, err = util.ReadFull(file, entryBuf, 512); err != nil {
+		file.Close()
+		return nil, err
 	}
-	for i := uint64(0); i < n; i++ {
-		entry := ReadRecordFrom(file)
-		entryDataEnd := dataStart + uint64(entry.SnapOffset+1)*(1<<header.RegionShift)
-		dataEnd = util.Max(dataEnd, entryDataEnd)
+	reader := bytes.NewReader(entryBuf)
+	for uint64(reader.Len()) >= (BitmapEntry{}).Size() {
+		entry, err := ReadRecordFrom(reader)
+		//the rest was not written completely, the regions in origin file are not changed
+		if err != nil || uint64(entry.SnapOffset) != n ||
+			dataStart+(n+1)<<header.RegionShift > uint64(info.Size()) {
+			break
+		}
 		//fmt.Printf("entry %d %d\n", entry.OriginOffset, entry.SnapOffset)
 		tree.Insert(uint64(entry.OriginOffset), uint64(entry.SnapOffset))
+		n++
 	}
+	dataEnd := dataStart + n<<header.RegionShift
 	journalEnd := 512 + 12*n
 
 	//fmt.Printf(header.UUID.String())
@@ -715,28 +731,35 @@ func (self *SnapNVM) Unlock() {
 	self.rawSnapNVM.mu.Unlock()
 }
 
+//Copy the regions covering [start, end) of the raw file to backing file, if
+//they have not been copied yet.
+//caller holds the lock
+func (self *SnapNVM) copyOnWrite(start uint64, end uint64) error {
+	raw := self.rawSnapNVM
+	if raw.myBackfile == nil || start >= end {
+		return nil
+	}
+	_, onOrigin := raw.myBackfile.GetCopyOffset(start, end)
+	for _, region := range onOrigin {
+		//although n could be less than regionSize at the end of file, we still write
+		//the whole regionSize to backfile
+		_, err := util.ReadFull(raw.originFile, raw.ab.AsBytes(), int64(uint64(region)*raw.myBackfile.RegionSize()))
+		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+			return errors.Wrap(err, "failed to copy region for snapshot")
+		}
+		if err = raw.myBackfile.WriteOffset(raw.ab.AsBytes(), region); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
 	realPos := self.originFile.ViewStart() + uint64(off)
-	if self.rawSnapNVM.myBackfile != nil {
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	if err = self.copyOnWrite(realPos, realPos+uint64(len(buf))); err != nil {
+		return -1, err
 	}
 	return self.originFile.WriteAt(buf, off)
 }
@@ -744,35 +767,11 @@ func (self *SnapNVM) WriteAt(buf []byte, off int64) (n int, err error) {
 func (self *SnapNVM) Write(buf []byte) (n int, err error) {
 	self.Lock()
 	defer self.Unlock()
-	start := self.originFile.Position() //start is a relative position
-	realPos := self.originFile.ViewStart() + start
-	if self.rawSnapNVM.myBackfile != nil {
-
-		if len(buf) > int(self.rawSnapNVM.myBackfile.RegionSize()) {
-			panic("Write buf is too big")
-		}
-		rawFile := self.rawSnapNVM.originFile
-
-		_, onOrigin := self.rawSnapNVM.myBackfile.GetCopyOffset(realPos, realPos+uint64(len(buf)))
-		/*
-			fmt.Printf("start backup for %+v, start is %d , realPos is start:end is %d:%d \n",
-				onOrigin, start, realPos, realPos+uint64(len(buf)))
-		*/
-		for i := 0; i < len(onOrigin); i++ {
-			rawFile.Seek(int64(uint64(onOrigin[i])*self.rawSnapNVM.myBackfile.RegionSize()), io.SeekStart)
-
-			//fmt.Printf("offset is %d, len is %d\n", uint64(onOrigin[i])*self.myBackfile.RegionSize(), self.ab.Len())
-			//fmt.Printf("raw file %+v, ab. len %d\n", rawFile, self.ab.Len())
-			n, err = io.ReadFull(rawFile, self.rawSnapNVM.ab.AsBytes())
-			if n < 0 {
-				panic("fail to read data")
-			}
-			//although n could be less than regionSize at the end of file, we still write
-			//the whole regionSize to backfile
-			self.rawSnapNVM.myBackfile.WriteOffset(self.rawSnapNVM.ab.AsBytes(), onOrigin[i])
-		}
+	//Position is a relative position
+	realPos := self.originFile.ViewStart() + self.originFile.Position()
+	if err = self.copyOnWrite(realPos, realPos+uint64(len(buf))); err != nil {
+		return -1, err
 	}
-	self.originFile.Seek(int64(start), io.SeekStart)
 	return self.originFile.Write(buf)
 }
 
-- 
2.43.0


From efae630a596b861d62581811aee6af231929cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 18/38] fix: snapshot reader never sees a region while it
 changes, takes reads of any size, and fails after the snapshot is gone

---
 nvm/snapnvm.go | 174 +++++++++++++++++++++++--------------------------
 1 file changed, 83 insertions(+), 91 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index b55c5c2..42e30b6 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -284,6 +284,7 @@ func (bf *BackingFile) Close() {
 	bf.Lock()
 	defer bf.Unlock()
 	bf.file.Close()
+	bf.tree.Free()
 }
 
 func (bf *BackingFile) Sync() error {
@@ -292,12 +293,15 @@ func (bf *BackingFile) Sync() error {
 	return bf.file.Sync()
 }
 
-func (bf *BackingFile) Delete() {
+func (bf *BackingFile) Delete() error {
 	bf.Lock()
 	defer bf.Unlock()
-	if err := os.Remove(bf.fileName); err != nil {
-		panic("delete failed")
+	if err := os.Remove(bf.fileName); err != nil && !os.IsNotExist(err) {
+		return err
 	}
+	bf.file.Close()
+	bf.tree.Free()
+	return nil
 }
 
 //give [start, end) of the buf
@@ -540,6 +544,7 @@ func findBackingFiles(prefix string) (fileNames []string, err error) {
 
 type SnapshotReader struct {
 	snap          *SnapNVM
+	backfile      *BackingFile
 	offset        uint64
 	buf           *block.AlignedBytes
 	waterHighMark int
@@ -550,6 +555,7 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	ab := block.NewAlignedBytes(int(snap.myBackfile.RegionSize()), block.Min())
 	return &SnapshotReader{
 		snap:          snap,
+		backfile:      snap.myBackfile,
 		buf:           ab,
 		offset:        0,
 		waterHighMark: 0,
@@ -557,103 +563,79 @@ func newSnapshotReader(snap *SnapNVM) *SnapshotReader {
 	}
 }
 
-//read/write threadSafe
 func (self *SnapshotReader) Seek(offset int64, whence int) (int64, error) {
-	self.waterHighMark = 0
-	self.waterLowMark = 0
-	if offset > int64(self.snap.myBackfile.rawCapacity) {
-		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.snap.myBackfile.rawCapacity)
-	}
 	switch whence {
-	case 0:
-		self.offset = uint64(offset)
-		return offset, nil
-	case 1:
-		self.offset = uint64(int64(self.offset) + offset)
-		return int64(self.offset), nil
-	case 2:
-		panic("not supported so far")
+	case io.SeekStart:
+	case io.SeekCurrent:
+		//what is in the buffer has not been read yet
+		offset += int64(self.offset) - int64(self.waterHighMark-self.waterLowMark)
+	case io.SeekEnd:
+		offset += int64(self.backfile.rawCapacity)
 	default:
 		return 0, errors.New("failed to seek")
 	}
+	if offset < 0 || offset > int64(self.backfile.rawCapacity) {
+		return 0, errors.Errorf("fail to seek to %d, rawCapacity is %d", offset, self.backfile.rawCapacity)
+	}
+	self.waterHighMark = 0
+	self.waterLowMark = 0
+	self.offset = uint64(offset)
+	return offset, nil
 }
 
-//read thread-safe
-func (self *SnapshotReader) Read(p []byte) (n int, err error) {
-
-	//self.snap.Lock() //lock write
-	//defer self.snap.Unlock()
+//read the region which has self.offset
+func (self *SnapshotReader) fill() (err error) {
+	//no region is copied and changed meanwhile
+	self.snap.RLock()
+	defer self.snap.RUnlock()
 
-	regionSize := self.snap.myBackfile.RegionSize()
-	/* local buffer is empty */
-	if uint64(len(p)) > self.snap.myBackfile.RegionSize() {
-		panic("Read data too big")
+	if self.snap.myBackfile != self.backfile {
+		return errors.New("snapshot is deleted or closed")
+	}
+	if self.offset >= self.backfile.rawCapacity {
+		return io.EOF
 	}
+	regionSize := self.backfile.RegionSize()
 	start := self.offset / regionSize * regionSize
-	maxLen := util.Min(self.snap.myBackfile.rawCapacity-start, regionSize)
-	//read the whole region size
-	if self.waterHighMark == self.waterLowMark {
-
-		if self.offset == self.snap.myBackfile.rawCapacity {
-			return 0, io.EOF
-		}
-		onBacking, onOrigin := self.snap.myBackfile.GetCopyOffset(start, start+regionSize)
-		/*
-			fmt.Printf("onBacking is %+v, onOrigin is %+v, offset is %d, start is %d\n",
-				onBacking, onOrigin, self.offset, start)
-		*/
-
-		if len(onBacking) == 1 {
-			self.buf.Resize(uint32(self.snap.myBackfile.regionSize))
-			n, err = self.snap.myBackfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
-			//fmt.Printf("result of read backup %+v, %+v from %d\n", n, err, onBacking[0])
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else if len(onOrigin) == 1 {
-			self.buf.Resize(uint32(maxLen))
-			/*
-				if _, err = self.snap.originFile.Seek(int64(uint64(onOrigin[0])*regionSize), io.SeekStart); err != nil {
-					panic("failed to seek")
-				}
-				n, err = io.ReadFull(self.snap.originFile, self.buf.AsBytes())
-			*/
-			start := int64(uint64(onOrigin[0]) * regionSize)
-			n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), start)
-			fmt.Printf("result of read origin %+v,raw size is %d, err is %+v\n", n, self.snap.originFile.RawSize(), err)
-			//if originFile is shorter than expected
-			if err != nil && err != io.EOF {
-				return -1, err
-			}
-			if n == 0 {
-				return 0, io.EOF
-			}
-		} else {
-			panic("bad happend")
+	maxLen := util.Min(self.backfile.rawCapacity-start, regionSize)
+
+	n := 0
+	onBacking, onOrigin := self.backfile.GetCopyOffset(start, start+regionSize)
+	if len(onBacking) == 1 {
+		self.buf.Resize(uint32(regionSize))
+		n, err = self.backfile.ReadFromOffset(self.buf.AsBytes(), onBacking[0])
+	} else if len(onOrigin) == 1 {
+		self.buf.Resize(uint32(maxLen))
+		n, err = util.ReadFull(self.snap.originFile, self.buf.AsBytes(), int64(uint64(onOrigin[0])*regionSize))
+	} else {
+		panic("bad happend")
+	}
+	if uint64(n) < maxLen {
+		//the file is shorter than expected
+		if err == nil || err == io.EOF {
+			err = io.ErrUnexpectedEOF
 		}
-		self.waterHighMark = int(util.Min(uint64(maxLen), uint64(n)))
-		self.waterLowMark = int(self.offset % regionSize)
-		self.offset = start + uint64(self.waterHighMark)
+		return err
+	}
+	self.waterHighMark = int(maxLen)
+	self.waterLowMark = int(self.offset % regionSize)
+	self.offset = start + maxLen
+	return nil
+}
 
+func (self *SnapshotReader) Read(p []byte) (n int, err error) {
+	if len(p) == 0 {
+		return 0, nil
 	}
-	/*
-		fmt.Printf("waterHighMark %d, waterLowMark %d, offset %d\n",
-			self.waterHighMark, self.waterLowMark, self.offset)
-	*/
-	l := len(p)
-	if l < self.waterHighMark-self.waterLowMark {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:self.waterLowMark+l])
-		self.waterLowMark += l
-		return l, nil
-	} else {
-		copy(p, self.buf.AsBytes()[self.waterLowMark:])
-		n := self.waterHighMark - self.waterLowMark
-		self.waterLowMark += n
-		return n, nil
+	/* local buffer is empty */
+	if self.waterHighMark == self.waterLowMark {
+		if err = self.fill(); err != nil {
+			return 0, err
+		}
 	}
+	n = copy(p, self.buf.AsBytes()[self.waterLowMark:self.waterHighMark])
+	self.waterLowMark += n
+	return n, nil
 }
 
 type SnapNVM struct {
@@ -736,7 +718,11 @@ func (self *SnapNVM) Unlock() {
 //caller holds the lock
 func (self *SnapNVM) copyOnWrite(start uint64, end uint64) error {
 	raw := self.rawSnapNVM
-	if raw.myBackfile == nil || start >= end {
+	if raw.myBackfile == nil {
+		return nil
+	}
+	//the snapshot has nothing behind rawCapacity, the file could have grown since
+	if end = util.Min(end, raw.myBackfile.rawCapacity); start >= end {
 		return nil
 	}
 	_, onOrigin := raw.myBackfile.GetCopyOffset(start, end)
@@ -802,6 +788,7 @@ func (self *SnapNVM) Close() error {
 	if self.myBackfile != nil {
 		self.myBackfile.Sync()
 		self.myBackfile.Close()
+		self.myBackfile = nil
 	}
 	return self.originFile.Close()
 }
@@ -809,7 +796,10 @@ func (self *SnapNVM) Close() error {
 func (self *SnapNVM) Split(position uint64) (sp1 NonVolatileMemory, sp2 NonVolatileMemory, err error) {
 	self.Lock()
 	defer self.Unlock()
-	left, right, _ := self.originFile.Split(position)
+	left, right, err := self.originFile.Split(position)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	sp1 = &SnapNVM{
 		originFile: left.(*FileNVM),
@@ -858,7 +848,9 @@ func (self *SnapNVM) DeleteSnapshot() error {
 		return errors.Errorf("can not create snapshot in splited NVM")
 	}
 	if self.myBackfile != nil {
-		self.myBackfile.Delete()
+		if err := self.myBackfile.Delete(); err != nil {
+			return err
+		}
 		self.myBackfile = nil
 	}
 	return nil
@@ -905,8 +897,8 @@ func (self *SnapNVM) Position() uint64 {
 }
 
 func (self *SnapNVM) RawSize() int64 {
-	self.Lock()
-	self.Unlock()
+	self.RLock()
+	defer self.RUnlock()
 	return self.rawSnapNVM.originFile.RawSize()
 }
 
-- 
2.43.0


From 69a98ad8eac4a0496f314aecaefabf3a7994675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 19/38] fix: deleting the snapshot after Close still removes
 its file

---
 nvm/snapnvm.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index 42e30b6..f842932 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -642,6 +642,8 @@ type SnapNVM struct {
 	mu         sync.RWMutex
 	originFile *FileNVM
 	myBackfile *BackingFile
+	//Close keeps the file of the snapshot, but it could be deleted afterwards
+	leftBackfile *BackingFile
 	ab         *block.AlignedBytes
 	prefix     string
 	splited    bool
@@ -788,6 +790,7 @@ func (self *SnapNVM) Close() error {
 	if self.myBackfile != nil {
 		self.myBackfile.Sync()
 		self.myBackfile.Close()
+		self.leftBackfile = self.myBackfile
 		self.myBackfile = nil
 	}
 	return self.originFile.Close()
@@ -853,6 +856,12 @@ func (self *SnapNVM) DeleteSnapshot() error {
 		}
 		self.myBackfile = nil
 	}
+	if self.leftBackfile != nil {
+		if err := os.Remove(self.leftBackfile.fileName); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+		self.leftBackfile = nil
+	}
 	return nil
 }
 func (self *SnapNVM) CreateSnapshotIfNeeded() (err error) {
-- 
2.43.0


From 2a29660477d15ac7909c5ec2e62066968adec3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 20/38] fix: what a crashed process wrote is made durable
 before its freed space is used again

---
 storage/storage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 988ad9d..144b08f 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -68,6 +68,13 @@ func OpenCannylsStorage(path string) (*Storage, error) {
 		return nil, err
 	}
 
+	//what a crashed process has written may be only in the page cache: make it
+	//durable, because space freed by those records is free from now on
+	if err = snapNVM.Sync(); err != nil {
+		snapNVM.Close()
+		return nil, err
+	}
+
 	journalNVM, dataNVM := header.SplitRegion(snapNVM)
 	if journalNVM == nil || dataNVM == nil {
 		snapNVM.Close()
-- 
2.43.0


From 5236d82b34d1ce7787228837832d21f1995c664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 21/38] fix: a full journal is compacted before an append fails

---
 storage/journal/region.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index c86c2c5..87375e8 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -168,7 +168,13 @@ func (journal *JournalRegion) appendWithGC(index *lumpindex.LumpIndex, record Jo
 	//metric
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
 
-	if err = journal.append(index, record); err != nil {
+	err = journal.append(index, record)
+	if err == internalerror.JournalStorageFull && journal.gcAfterAppend {
+		//the GC after each append starts again with every open, it may have released nothing
+		journal.GcAllEntries(index)
+		err = journal.append(index, record)
+	}
+	if err != nil {
 		return err
 	}
 	if journal.gcAfterAppend {
@@ -364,7 +370,11 @@ func (journal *JournalRegion) RecordDeleteBeforePut(index *lumpindex.LumpIndex,
 	record := DeleteRecord{
 		LumpID: id,
 	}
-	if !journal.ring.hasRoom(record.ExternalSize() + PutRecord{LumpID: id}.ExternalSize()) {
+	size := record.ExternalSize() + PutRecord{LumpID: id}.ExternalSize()
+	if !journal.ring.hasRoom(size) && journal.gcAfterAppend {
+		journal.GcAllEntries(index)
+	}
+	if !journal.ring.hasRoom(size) {
 		return internalerror.JournalStorageFull
 	}
 	ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(+1))
-- 
2.43.0


From 452c24a3a5ba81a88537fbd31962bf329ed7441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 22/38] fix: a journal record that reaches beyond the end of
 the journal is an error, not an endless loop

---
 storage/journal/nvm_buffer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storage/journal/nvm_buffer.go b/storage/journal/nvm_buffer.go
index 50f24a0..2c67706 100644
--- a/storage/journal/nvm_buffer.go
+++ b/storage/journal/nvm_buffer.go
@@ -85,16 +85,20 @@ func (jb *JournalNvmBuffer) Read(buf []byte) (n int, err error) {
 	//fmt.Printf("len: ", jb.readBuf.Len())
 	//Seek the aligned sector and read from disk
 	if _, err := jb.nvm.Seek(int64(readBufStart), io.SeekStart); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	innerReadSize, err := jb.nvm.Read(jb.readBuf.AsBytes())
 	if err != nil && err != io.EOF {
-		return -1, err
+		return 0, err
 	}
 
 	start := jb.position - readBufStart
 	end := util.Min(uint64(innerReadSize), start+uint64(len(buf)))
+	if end <= start && len(buf) > 0 {
+		//a reader of a record which does not end must not wait for ever
+		return 0, io.EOF
+	}
 	readSize := end - start
 
 	//fmt.Printf("inner read size: %d,buf len %d, readSize %d, start: %d, end :%d\n", innerReadSize, len(buf), readSize, start, end)
-- 
2.43.0


From 13fa47605182eb9b02af9c5fa0fa592ee41c1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 23/38] fix: a snapshot is not taken in the middle of an
 overwrite

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 144b08f..7d083cf 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -261,6 +261,9 @@ func (store *Storage) List() []lump.LumpId {
 }
 
 func (store *Storage) CreateSnapshot() error {
+	//not in the middle of an operation
+	store.i.Lock()
+	defer store.i.Unlock()
 	store.jr.Lock()
 	defer store.jr.Unlock()
 	if !store.opened {
@@ -280,6 +283,9 @@ func (store *Storage) DeleteSnapshot() error {
 }
 
 func (store *Storage) GetSnapshotReader() (*nvm.SnapshotReader, error) {
+	//not in the middle of an operation
+	store.i.Lock()
+	defer store.i.Unlock()
 	store.jr.Lock()
 	defer store.jr.Unlock()
 	if !store.opened {
-- 
2.43.0


From b6e6843cacfa9c4a736afd98dbb0f57aaac2baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 24/38] fix: the snapshot of a storage named just .lusf is
 found again

---
 nvm/snapnvm.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nvm/snapnvm.go b/nvm/snapnvm.go
index f842932..fc8d1b3 100644
--- a/nvm/snapnvm.go
+++ b/nvm/snapnvm.go
@@ -523,21 +523,23 @@ func OpenBackingFile(fileName string) (*BackingFile, error) {
 
 //all the files CreateBackingFile(prefix) could have created
 func findBackingFiles(prefix string) (fileNames []string, err error) {
-	infos, err := ioutil.ReadDir(filepath.Dir(prefix))
+	//not Dir and Base: the name could be empty, ".lusf" is a storage as well
+	dir, base := filepath.Split(prefix)
+	infos, err := ioutil.ReadDir(filepath.Clean(dir))
 	if err != nil {
 		return nil, err
 	}
 	for _, info := range infos {
 		uid := info.Name()
-		if !strings.HasPrefix(uid, filepath.Base(prefix)+"_") || !strings.HasSuffix(uid, BACKING_FILE_SUFFIX) {
+		if !strings.HasPrefix(uid, base+"_") || !strings.HasSuffix(uid, BACKING_FILE_SUFFIX) {
 			continue
 		}
-		uid = strings.TrimSuffix(uid[len(filepath.Base(prefix))+1:], BACKING_FILE_SUFFIX)
+		uid = strings.TrimSuffix(uid[len(base)+1:], BACKING_FILE_SUFFIX)
 		//other file: prefix could be a part of its prefix
 		if _, err := uuid.FromString(uid); err != nil || len(uid) != 36 {
 			continue
 		}
-		fileNames = append(fileNames, filepath.Join(filepath.Dir(prefix), info.Name()))
+		fileNames = append(fileNames, filepath.Join(dir, info.Name()))
 	}
 	return fileNames, nil
 }
-- 
2.43.0


From adf0ab891a40d8c365c8c19fb62695820d592420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 25/38] fix: a create that cannot lock its new file removes it

---
 nvm/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nvm/file.go b/nvm/file.go
index 1b5d3b6..19ad384 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -75,6 +75,8 @@ func CreateIfAbsent(path string, capacity uint64) (*FileNVM, error) {
 	*/
 
 	if err = lockFileWithExclusiveLock(f); err != nil {
+		//nobody else made it
+		os.Remove(path)
 		f.Close()
 		return nil, err
 	}
-- 
2.43.0


From 8e7a88e14826fe41dbc87f3628df613b9b76e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 26/38] fix: open locks the file before it reads the header,
 and notices when the file was replaced

---
 nvm/file.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/nvm/file.go b/nvm/file.go
index 19ad384..757797b 100644
--- a/nvm/file.go
+++ b/nvm/file.go
@@ -105,29 +105,32 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 		return nil, nil, internalerror.InvalidInput
 	}
 
-	if parsedFile, err = os.OpenFile(path, os.O_RDWR, 0755); err != nil {
+	if f, err = openFileWithDirectIO(path, os.O_RDWR, 0755); err != nil {
 		return nil, nil, err
 	}
-	//read the first sector
-	if header, err = ReadFromFile(parsedFile); err != nil {
-		parsedFile.Close()
+
+	//lock before reading, the owner could be about to change or remove the file
+	if err = lockFileWithExclusiveLock(f); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
 
-	capacity := header.StorageSize()
-
-	//reopen the file
-	parsedFile.Close()
-
-	if f, err = openFileWithDirectIO(path, os.O_RDWR, 0755); err != nil {
+	if parsedFile, err = os.OpenFile(path, os.O_RDWR, 0755); err != nil {
+		f.Close()
 		return nil, nil, err
 	}
-
-	if err = lockFileWithExclusiveLock(f); err != nil {
+	//read the first sector
+	header, err = ReadFromFile(parsedFile)
+	if err == nil && !sameFile(f, parsedFile) {
+		err = errors.Wrapf(internalerror.InvalidInput, "%s was replaced", path)
+	}
+	parsedFile.Close()
+	if err != nil {
 		f.Close()
 		return nil, nil, err
 	}
-	err = nil
+
+	capacity := header.StorageSize()
 	nvm = &FileNVM{
 		file:            f,
 		cursor_position: 0,
@@ -139,6 +142,15 @@ func Open(path string) (nvm *FileNVM, header *StorageHeader, err error) {
 	return
 }
 
+func sameFile(a *os.File, b *os.File) bool {
+	x, err := a.Stat()
+	if err != nil {
+		return false
+	}
+	y, err := b.Stat()
+	return err == nil && os.SameFile(x, y)
+}
+
 func (self *FileNVM) Sync() error {
 	return dataSync(self.file)
 }
-- 
2.43.0


From 4bebe92af678a0db4084e4a6acfdd56f7bbc6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 27/38] fix: one backup at a time, and it closes its file and
 reports a snapshot that cannot be made

---
 cmd/readup/main.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 050a128..064dda4 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"os/signal"
+	"sync/atomic"
 	"syscall"
 
 	"github.com/gin-gonic/gin"
@@ -36,7 +37,8 @@ func favicon(w http.ResponseWriter, r *http.Request) {
 
 //Based on https://medium.com/@cep21/how-to-correctly-use-context-context-in-go-1-7-8f2c0fafdf39
 
-var backupRuning bool = false
+//1 while a backup is running
+var backupRuning int32
 
 //put
 type PutRequest struct {
@@ -278,29 +280,33 @@ func ServeStore(store *storage.Storage) {
 			return
 		}
 
-		if backupRuning {
+		if !atomic.CompareAndSwapInt32(&backupRuning, 0, 1) {
 			c.String(http.StatusCreated, "backup is running")
 			return
 		}
 
+		reader, err := store.GetSnapshotReader()
+		if err != nil {
+			atomic.StoreInt32(&backupRuning, 0)
+			c.String(500, err.Error())
+			return
+		}
+
 		backupStopper := util.NewStopper()
 		backupStopper.RunWorker(func() {
 			//open backup file, name is start time
-			defer func() {
-				backupRuning = false
-			}()
+			defer atomic.StoreInt32(&backupRuning, 0)
 
-			reader, err := store.GetSnapshotReader()
 			fileName := time.Now().Format(time.RFC3339) + "_backup.lusf"
 			backfile, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR, 0644)
 			if err != nil {
 				return
 			}
+			defer backfile.Close()
 			var buf [512 << 10]byte
 			for {
 				select {
 				case <-backupStopper.ShouldStop():
-					backfile.Close()
 					return
 				case <-time.After(100 * time.Millisecond):
 					n, err := reader.Read(buf[:])
@@ -310,7 +316,6 @@ func ServeStore(store *storage.Storage) {
 					}
 					if n == 0 {
 						store.DeleteSnapshot()
-						backfile.Close()
 						return
 					}
 					n, err = backfile.Write(buf[0:n])
-- 
2.43.0


From d96bf899d6c5439ad268e4d29bb92170aee97e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 28/38] fix: taking a lump is one step, nothing comes between
 reading and deleting it

---
 cmd/readup/main.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/cmd/readup/main.go b/cmd/readup/main.go
index 064dda4..3935850 100644
--- a/cmd/readup/main.go
+++ b/cmd/readup/main.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"os/signal"
+	"sync"
 	"sync/atomic"
 	"syscall"
 
@@ -110,6 +111,9 @@ func ServeStore(store *storage.Storage) {
 
 	reqeustChan := make(chan PutRequest, 20)
 
+	//taking a lump is reading and deleting it, no put comes in between
+	var takeLock sync.Mutex
+
 	//cannyls storage routine
 	cannylsStopper := util.NewStopper()
 
@@ -138,9 +142,11 @@ func ServeStore(store *storage.Storage) {
 					_, span := trace.StartSpan(req.ctx, "write cannyls")
 					var id lump.LumpId = lump.FromU64(0, req.id)
 					var have bool
+					takeLock.Lock()
 					if req.isAutoId {
 						id, have = chooseID(store)
 						if !have {
+							takeLock.Unlock()
 							req.resultChan <- PutResult{id.U64(), NoLumpIdSpaceError, nil}
 							span.End()
 							return
@@ -155,6 +161,7 @@ func ServeStore(store *storage.Storage) {
 					*/
 					_, err = store.Put(id, req.data)
 					//}
+					takeLock.Unlock()
 					span.Annotate(nil, "Cannyls: put data done")
 					span.End()
 					var result PutResult
@@ -197,17 +204,28 @@ func ServeStore(store *storage.Storage) {
 
 	//call delete
 	r.GET("/random", func(c *gin.Context) {
-		id, have := store.MinId()
-		if !have {
+		data, err := func() ([]byte, error) {
+			takeLock.Lock()
+			defer takeLock.Unlock()
+			id, have := store.MinId()
+			if !have {
+				return nil, NoKeyError
+			}
+			data, err := store.Get(id)
+			if err != nil {
+				return nil, err
+			}
+			_, _, err = store.Delete(id)
+			return data, err
+		}()
+		if err == NoKeyError {
 			c.String(404, "do not have")
 			return
 		}
-		data, err := store.Get(id)
 		if err != nil {
 			c.String(500, err.Error())
 			return
 		}
-		store.Delete(id)
 		c.Status(200)
 		c.Header("content-length", fmt.Sprintf("%d", len(data)))
 		c.Stream(func(w io.Writer) bool {
-- 
2.43.0


From 6ba008c73ccb8e99be4a1cd85d814bb49b191da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 29/38] fix: kanils Put @file: keep what a short read returned,
 and end on an empty file

---
 cmd/kanils/main.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e21fab1..ff27a61 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -318,6 +318,7 @@ func putCannyls(c *cli.Context) (err error) {
 		if err != nil {
 			return err
 		}
+		defer file.Close()
 		info, err := file.Stat()
 		if err != nil {
 			return err
@@ -346,17 +347,9 @@ func putCannyls(c *cli.Context) (err error) {
 }
 
 func readUpData(r io.Reader, lumpdata lump.LumpData) error {
-	s := lumpdata.AsBytes()
-	for {
-		n, err := r.Read(s)
-		if err == io.EOF {
-			return nil
-		}
-		if err != nil {
-			return err
-		}
-		s = s[:n]
-	}
+	//a short read is followed by another one, an empty file needs none
+	_, err := io.ReadFull(r, lumpdata.AsBytes())
+	return err
 }
 
 func main() {
-- 
2.43.0


From c72a4f8a0cb49f03c2d0ec7b6e4213da871790cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 30/38] fix: kanils Resize: refuse a size no storage can be
 opened with

---
 cmd/kanils/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index ff27a61..e941589 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -62,6 +62,9 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	}
 	defer fileNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
+	if newSize > nvm.MAX_DATA_REGION_SIZE {
+		return errors.Errorf("new Size %d is bigger than the biggest size %d", newSize, uint64(nvm.MAX_DATA_REGION_SIZE))
+	}
 	if newSize <= header.DataRegionSize {
 		return errors.Errorf("new Size %d is smaller than current size %d", newSize, header.DataRegionSize)
 	}
-- 
2.43.0


From 4945c57bda7bb4b728ed7e5f39695fd628218534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 31/38] fix: kanils Resize: the new size is durable when the
 command ends

---
 cmd/kanils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index e941589..9e809b1 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -85,7 +85,7 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return nil
+	return fileNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
-- 
2.43.0


From f8bc12a91d768a4965b3504a45a070763a433fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 32/38] fix: kanils Dump: report the error that ends the dump
 early

---
 cmd/kanils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index 9e809b1..a2797d9 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -146,7 +146,7 @@ func dumpCannyls(c *cli.Context) (err error) {
 	for _, id := range ids {
 		d, err := store.Get(id)
 		if err != nil {
-			break
+			return err
 		}
 
 		fmt.Printf("%s :%s\n", id.String(), string(d))
-- 
2.43.0


From 55365ca76065691e798d61eb075e5a614a6535f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 33/38] fix: a device error does not leave the journal locked,
 a deferred Close ends

---
 storage/storage.go | 76 +++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 7d083cf..2e329b9 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -446,9 +446,7 @@ func (store *Storage) GetSize(lumpid lump.LumpId) (size uint32, err error) {
 	case portion.DataPortion:
 		return store.dataRegion.GetSize(v)
 	case portion.JournalPortion:
-		store.jr.Lock()
-		data, err := store.journalRegion.GetEmbededData(v)
-		store.jr.Unlock()
+		data, err := store.embeddedData(v)
 		if err != nil {
 			return 0, err
 		}
@@ -477,9 +475,7 @@ func (store *Storage) Get(lumpid lump.LumpId) ([]byte, error) {
 		}
 		return lumpdata.AsBytes(), nil
 	case portion.JournalPortion:
-		store.jr.Lock()
-		data, err := store.journalRegion.GetEmbededData(v)
-		store.jr.Unlock()
+		data, err := store.embeddedData(v)
 		if err != nil {
 			return nil, err
 		}
@@ -503,9 +499,7 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 	case portion.DataPortion:
 		return store.dataRegion.GetWithOffset(v, startOffset, length)
 	case portion.JournalPortion:
-		store.jr.Lock()
-		data, err := store.journalRegion.GetEmbededData(v)
-		store.jr.Unlock()
+		data, err := store.embeddedData(v)
 		if err != nil {
 			return nil, err
 		}
@@ -520,6 +514,22 @@ func (store *Storage) GetWithOffset(lumpId lump.LumpId, startOffset uint32, leng
 
 }
 
+//The journal panics if the device fails, and the lock must not stay behind:
+//a deferred Close waits for it.
+func (store *Storage) withJournal(f func() error) error {
+	store.jr.Lock()
+	defer store.jr.Unlock()
+	return f()
+}
+
+func (store *Storage) embeddedData(p portion.JournalPortion) (data []byte, err error) {
+	err = store.withJournal(func() error {
+		data, err = store.journalRegion.GetEmbededData(p)
+		return err
+	})
+	return data, err
+}
+
 //write data into a free portion
 //caller holds store.i, so that the storage can not be closed
 func (store *Storage) putData(lumpdata lump.LumpData) (dataPortion portion.DataPortion, err error) {
@@ -534,12 +544,16 @@ func (store *Storage) putData(lumpdata lump.LumpData) (dataPortion portion.DataP
 		return
 	}
 	//the released portions become free by sync
-	store.jr.Lock()
-	store.journalSync()
-	store.jr.Unlock()
+	store.Sync()
 	return store.dataRegion.Put(lumpdata)
 }
 
+func (store *Storage) putFreshData(lumpdata lump.LumpData) (portion.DataPortion, error) {
+	store.i.RLock()
+	defer store.i.RUnlock()
+	return store.putData(lumpdata)
+}
+
 //caller holds store.i.Lock
 func (store *Storage) recordPut(lumpid lump.LumpId, dataPortion portion.DataPortion) (updated bool, err error) {
 	if !store.opened {
@@ -547,9 +561,9 @@ func (store *Storage) recordPut(lumpid lump.LumpId, dataPortion portion.DataPort
 	}
 	old, getErr := store.index.Get(lumpid)
 
-	store.jr.Lock()
-	err = store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
-	store.jr.Unlock()
+	err = store.withJournal(func() error {
+		return store.journalRegion.RecordPut(store.index, lumpid, dataPortion)
+	})
 
 	if err != nil {
 		// revert the dataPortion
@@ -582,12 +596,14 @@ func (store *Storage) replace(lumpid lump.LumpId, lumpdata lump.LumpData, full e
 		return false, full
 	}
 
-	store.jr.Lock()
-	if err = store.journalRegion.RecordDeleteBeforePut(store.index, lumpid); err == nil {
+	err = store.withJournal(func() error {
+		if err := store.journalRegion.RecordDeleteBeforePut(store.index, lumpid); err != nil {
+			return err
+		}
 		store.dataRegion.ReleaseAfterSync(v)
 		store.journalSync()
-	}
-	store.jr.Unlock()
+		return nil
+	})
 	if err != nil {
 		return false, err
 	}
@@ -601,9 +617,7 @@ func (store *Storage) replace(lumpid lump.LumpId, lumpdata lump.LumpData, full e
 }
 
 func (store *Storage) Put(lumpid lump.LumpId, lumpdata lump.LumpData) (updated bool, err error) {
-	store.i.RLock()
-	dataPortion, err := store.putData(lumpdata)
-	store.i.RUnlock()
+	dataPortion, err := store.putFreshData(lumpdata)
 	if errors.Cause(err) == internalerror.StorageFull {
 		return store.replace(lumpid, lumpdata, err)
 	}
@@ -684,9 +698,9 @@ func (store *Storage) PutEmbed(lumpid lump.LumpId, data []byte) (updated bool, e
 	}
 	old, getErr := store.index.Get(lumpid)
 
-	store.jr.Lock()
-	err = store.journalRegion.RecordEmbed(store.index, lumpid, data)
-	store.jr.Unlock()
+	err = store.withJournal(func() error {
+		return store.journalRegion.RecordEmbed(store.index, lumpid, data)
+	})
 	if err != nil || getErr != nil {
 		return false, err
 	}
@@ -710,9 +724,9 @@ func (store *Storage) Delete(lumpid lump.LumpId) (bool, uint32, error) {
 		return false, 0, nil
 	}
 
-	store.jr.Lock()
-	err = store.journalRegion.RecordDelete(store.index, lumpid)
-	store.jr.Unlock()
+	err = store.withJournal(func() error {
+		return store.journalRegion.RecordDelete(store.index, lumpid)
+	})
 	if err != nil {
 		return false, 0, err
 	}
@@ -842,9 +856,9 @@ func (store *Storage) DeleteRange(start lump.LumpId, end lump.LumpId, hasDataPor
 		return err
 	}
 
-	store.jr.Lock()
-	err = store.journalRegion.RecordDeleteRange(store.index, start, end)
-	store.jr.Unlock()
+	err = store.withJournal(func() error {
+		return store.journalRegion.RecordDeleteRange(store.index, start, end)
+	})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e71dee38ae50b463caa8d607602b85d8419a0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 34/38] fix: a range delete record that is not written
 completely is an error

---
 storage/journal/record.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/storage/journal/record.go b/storage/journal/record.go
index 6c5fa76..cc72ff3 100644
--- a/storage/journal/record.go
+++ b/storage/journal/record.go
@@ -246,9 +246,12 @@ func (record DeleteRange) WriteTo(w io.Writer) error {
 	if err := writeRecordHeader(record, w); err != nil {
 		return err
 	}
-	record.Start.Write(w)
-	record.End.Write(w)
-
+	if _, err := record.Start.Write(w); err != nil {
+		return err
+	}
+	if _, err := record.End.Write(w); err != nil {
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From 38202c8b6d58f581f2f9d1e6e2554afb0e746625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:05 +0000
Subject: [PATCH 35/38] fix: kanils Resize wrote the header past the snapshot,
 which then held the new size

---
 cmd/kanils/main.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/kanils/main.go b/cmd/kanils/main.go
index a2797d9..f8acb3e 100644
--- a/cmd/kanils/main.go
+++ b/cmd/kanils/main.go
@@ -60,7 +60,13 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	if err != nil {
 		return err
 	}
-	defer fileNVM.Close()
+	//there could be a snapshot, it keeps the header it was taken with
+	snapNVM, err := nvm.NewSnapshotNVM(fileNVM)
+	if err != nil {
+		fileNVM.Close()
+		return err
+	}
+	defer snapNVM.Close()
 	newSize := fileNVM.BlockSize().FloorAlign(paramSize)
 	if newSize > nvm.MAX_DATA_REGION_SIZE {
 		return errors.Errorf("new Size %d is bigger than the biggest size %d", newSize, uint64(nvm.MAX_DATA_REGION_SIZE))
@@ -79,13 +85,13 @@ func expandDataRegionSize(c *cli.Context) (err error) {
 	alignedBufHead := block.FromBytes(headBuf.Bytes(), fileNVM.BlockSize())
 	alignedBufHead.Align()
 	//now headBuf's len should be at least 512
-	if _, err = fileNVM.Seek(0, io.SeekStart); err != nil {
+	if _, err = snapNVM.Seek(0, io.SeekStart); err != nil {
 		return err
 	}
-	if _, err = fileNVM.Write(alignedBufHead.AsBytes()); err != nil {
+	if _, err = snapNVM.Write(alignedBufHead.AsBytes()); err != nil {
 		return err
 	}
-	return fileNVM.Sync()
+	return snapNVM.Sync()
 }
 
 func headerCannyls(c *cli.Context) (err error) {
-- 
2.43.0


From a9fd9cf092953b7095520e57427f3dc765d3e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:53 +0000
Subject: [PATCH 36/38] fix: a full journal compaction kept each of the equal
 put records of a lump

A lump that is put, deleted and put again at the same place has several
records which are equal. All of them looked live, GcAllEntries moved all of
them, and a journal could be full with a few lumps.
---
 storage/journal/region.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 87375e8..9237bdd 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -15,6 +15,7 @@ import (
 	x "github.com/thesues/cannyls-go/metrics"
 	"github.com/thesues/cannyls-go/nvm"
 	"github.com/thesues/cannyls-go/portion"
+	judy "github.com/thesues/go-judy"
 	ostats "go.opencensus.io/stats"
 )
 
@@ -32,6 +33,8 @@ type JournalRegion struct {
 	syncCountDown int
 	gcAfterAppend bool
 	afterSync     func()
+	//only during GcAllEntries, the last PutRecord of each lump: lump id => address
+	lastPuts *judy.JudyL
 }
 
 //f is called every time all the records are durable
@@ -207,6 +210,13 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 			return true
 		}
 
+		//a lump can be put at the same place again and again, one of the records is enough
+		if Journal.lastPuts != nil {
+			if last, ok := Journal.lastPuts.Get(v.LumpID.U64()); ok && last != entry.Start.AsU64() {
+				return true
+			}
+		}
+
 		return dataPortion != v.DataPortion
 	case EmbedRecord:
 		//not found in current index, is garbage
@@ -247,6 +257,8 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 				}
 				if err != nil {
 					journal.gcQueue.PushFront(e)
+				} else if put, ok := record.(PutRecord); ok && journal.lastPuts != nil {
+					journal.lastPuts.Insert(put.LumpID.U64(), journal.ring.Tail()-uint64(put.ExternalSize()))
 				}
 				goto ENDFOR
 			}
@@ -430,8 +442,34 @@ func (journal *JournalRegion) JournalEntries() (uint64, uint64, uint64, []Journa
 	return journal.ring.unreleasedHead, journal.ring.head, journal.ring.tail, entries
 }
 
+func (journal *JournalRegion) findLastPuts() *judy.JudyL {
+	puts := &judy.JudyL{}
+	//the iterator starts at ring.head and moves it
+	head := journal.ring.head
+	defer func() { journal.ring.head = head }()
+	journal.ring.head = journal.ring.unreleasedHead
+	iter := journal.ring.DequeueIter()
+	for {
+		entry, err := iter.PopFront()
+		if err == internalerror.NoEntries {
+			return puts
+		}
+		if err != nil {
+			panic(fmt.Sprintf("Journal failed to read entries %+v", err))
+		}
+		if put, ok := entry.Record.(PutRecord); ok {
+			puts.Insert(put.LumpID.U64(), entry.Start.AsU64())
+		}
+	}
+}
+
 //maybe sync
 func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
+	journal.lastPuts = journal.findLastPuts()
+	defer func() {
+		journal.lastPuts.Free()
+		journal.lastPuts = nil
+	}()
 	//finish the entries already taken from the journal
 	if err := journal.gcAllEntriesInQueue(index); err != nil {
 		return
-- 
2.43.0


From 8c04e8af47ad7ebbea0f3b8cba9bd62f11a6944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 37/38] fix: the progress of the journal GC was lost with Close

Each open starts GC at the released head again. Programs that put a lump and
exit moved the same live record each time and never released anything,
until the journal was full.
---
 storage/journal/region.go | 19 ++++++++++++++++---
 storage/storage.go        |  1 +
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 9237bdd..755d12f 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -245,7 +245,7 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	}
 
 	for {
-		if e := journal.gcQueue.PopFront(); e != nil {
+		if e := journal.gcQueue.Front(); e != nil {
 			entry := e.(JournalEntry)
 
 			if journal.isGarbage(index, entry) == false {
@@ -256,12 +256,15 @@ func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 					err = journal.append(index, record)
 				}
 				if err != nil {
-					journal.gcQueue.PushFront(e)
-				} else if put, ok := record.(PutRecord); ok && journal.lastPuts != nil {
+					goto ENDFOR
+				}
+				journal.gcQueue.PopFront()
+				if put, ok := record.(PutRecord); ok && journal.lastPuts != nil {
 					journal.lastPuts.Insert(put.LumpID.U64(), journal.ring.Tail()-uint64(put.ExternalSize()))
 				}
 				goto ENDFOR
 			}
+			journal.gcQueue.PopFront()
 			//metric, if record is garbage, the recordCount should decrease
 			ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(-1))
 
@@ -289,6 +292,16 @@ func (journal *JournalRegion) releaseUntil(head uint64) {
 	journal.ring.ReleaseBytesUntil(head)
 }
 
+//All the records before those in the gcQueue are garbage or have been moved.
+//The gcQueue is lost with Close, the next GC must not start at the same head again
+func (journal *JournalRegion) ReleaseMoved() {
+	head := journal.ring.head
+	if e := journal.gcQueue.Front(); e != nil {
+		head = e.(JournalEntry).Start.AsU64()
+	}
+	journal.releaseUntil(head)
+}
+
 func (journal *JournalRegion) fillGCQueue() {
 
 	if journal.ring.isEmpty() {
diff --git a/storage/storage.go b/storage/storage.go
index 2e329b9..83e33df 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -820,6 +820,7 @@ func (store *Storage) Close() {
 	store.opened = false
 	store.updateCapacityStopper.Stop() //will wait goroutine's end
 	store.journalSync()
+	store.journalRegion.ReleaseMoved()
 	store.innerNVM.Close()
 	store.index.Free()
 	store.alloc.Free()
-- 
2.43.0


From 1ccfee6e1b8fcacf982b61710200ac1e7530ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:13 +0000
Subject: [PATCH 38/38] fix: the progress of the journal GC was lost when the
 process was killed

The records it had moved looked live to the next process as well. A program
that is killed again and again filled the journal with copies of the same
records; then neither a put nor a delete was possible any more.
---
 storage/journal/region.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/storage/journal/region.go b/storage/journal/region.go
index 755d12f..ebc2d60 100644
--- a/storage/journal/region.go
+++ b/storage/journal/region.go
@@ -33,7 +33,9 @@ type JournalRegion struct {
 	syncCountDown int
 	gcAfterAppend bool
 	afterSync     func()
-	//only during GcAllEntries, the last PutRecord of each lump: lump id => address
+	//no GC yet since the journal was opened
+	gcIsNew bool
+	//only during GcAllEntries and skipMoved, the last PutRecord of each lump: lump id => address
 	lastPuts *judy.JudyL
 }
 
@@ -91,6 +93,7 @@ func OpenJournalRegion(nvm nvm.NonVolatileMemory) (*JournalRegion, error) {
 		gcQueue:       q,
 		syncCountDown: SYNC_INTERVAL,
 		gcAfterAppend: true,
+		gcIsNew:       true,
 	}, nil
 }
 
@@ -242,6 +245,10 @@ func (Journal *JournalRegion) isGarbage(index *lumpindex.LumpIndex, entry Journa
 func (journal *JournalRegion) gcOnce(index *lumpindex.LumpIndex) (err error) {
 	if journal.gcQueue.Len() == 0 && journal.ring.Capacity() < journal.ring.Usage()*2 {
 		journal.fillGCQueue()
+		if journal.gcIsNew && journal.ring.Capacity()*3 < journal.ring.Usage()*4 {
+			journal.skipMoved(index)
+		}
+		journal.gcIsNew = false
 	}
 
 	for {
@@ -302,6 +309,18 @@ func (journal *JournalRegion) ReleaseMoved() {
 	journal.releaseUntil(head)
 }
 
+//Release the records which a process that was killed has moved. Otherwise the GC
+//starts again and again at the same head, until the journal is full
+func (journal *JournalRegion) skipMoved(index *lumpindex.LumpIndex) {
+	journal.lastPuts = journal.findLastPuts()
+	defer journal.freeLastPuts()
+	for e := journal.gcQueue.Front(); e != nil && journal.isGarbage(index, e.(JournalEntry)); e = journal.gcQueue.Front() {
+		journal.gcQueue.PopFront()
+		ostats.Record(context.Background(), x.JournalRegionMetric.RecordCounts.M(-1))
+	}
+	journal.ReleaseMoved()
+}
+
 func (journal *JournalRegion) fillGCQueue() {
 
 	if journal.ring.isEmpty() {
@@ -476,13 +495,15 @@ func (journal *JournalRegion) findLastPuts() *judy.JudyL {
 	}
 }
 
+func (journal *JournalRegion) freeLastPuts() {
+	journal.lastPuts.Free()
+	journal.lastPuts = nil
+}
+
 //maybe sync
 func (journal *JournalRegion) GcAllEntries(index *lumpindex.LumpIndex) {
 	journal.lastPuts = journal.findLastPuts()
-	defer func() {
-		journal.lastPuts.Free()
-		journal.lastPuts = nil
-	}()
+	defer journal.freeLastPuts()
 	//finish the entries already taken from the journal
 	if err := journal.gcAllEntriesInQueue(index); err != nil {
 		return
-- 
2.43.0

