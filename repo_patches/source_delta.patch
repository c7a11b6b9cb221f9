From a7cb5412d8b1357a6dc505df1e95bbba91665873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/75] fix: make DecompressRLERecursive decode instead of
 encode

It was a copy of CompressRLERecursive, so it could never invert it.
---
 utilities/compression/rle8.go | 69 ++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..ffa2d94 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,54 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		n, err := output.Write([]byte{currentByte})
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+		totalBytesWritten += int64(n)
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+			continue
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		// Got two bytes in a row that are the same. The following bytes, up to
+		// and including the first one that isn't 255, add up to the number of
+		// additional repetitions.
+		for repeatCountByte := byte(255); repeatCountByte == 255; {
+			repeatCountByte, err = source.ReadByte()
 			if err != nil {
-				return totalBytesWritten, err
+				if errors.Is(err, io.EOF) {
+					err = fmt.Errorf(
+						"%w: missing repeat count after two %02x bytes",
+						io.ErrUnexpectedEOF,
+						uint(lastByteRead),
+					)
+				}
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
 
-			_, err = output.Write([]byte{byte(remainder)})
+			n, err = output.Write(bytes.Repeat([]byte{currentByte}, int(repeatCountByte)))
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
 			}
-
-			totalBytesWritten++
+			totalBytesWritten += int64(n)
 		}
 
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
-		}
+		// Reset the last byte read since we're done with this group.
+		lastByteRead = -1
 	}
 }
-- 
2.43.0


From 85301f8a5bdb8f3d97ebd6167824924f51ad15b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 02/75] fix: BlockCache.ReadAt returns the number of bytes it
 copied

It returned the size of the blocks it read, which exceeds len(buffer) when the
buffer isn't a multiple of the block size.
---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..cd72cc4 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -389,8 +389,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From 4ca544992e401b34540c00da1c7cd612adffa023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 03/75] fix: allow flushing and loading an empty BlockCache

Flush, LoadAll and Data failed the bounds check when the cache had no blocks,
so an empty file could be neither synced nor closed.
---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index cd72cc4..14912d1 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -356,12 +356,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From cad5fffdc0835c7bee03a4cb5b620bf844726706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 04/75] fix: load missing blocks before marking them dirty

MarkBlockRangeDirty on a block that wasn't in the cache flagged it as loaded,
so it read as nulls and the next flush wiped it on the backing storage.
---
 file_systems/common/blockcache/blockcache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 14912d1..8593c57 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -482,6 +482,13 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 		return err
 	}
 
+	// A block must be present before it can be marked as dirty; otherwise, flushing
+	// it would overwrite the block on the backing storage with null bytes.
+	err = cache.loadBlockRange(start, count)
+	if err != nil {
+		return err
+	}
+
 	for i := uint(0); i < count; i++ {
 		// FIXME(dargueta): We can end up with integer overflow here
 		bitIndex := int(start) + int(i)
-- 
2.43.0


From 5cd045fee9eae8dbf1125a732bfc51e4a638f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 05/75] fix: let stream-backed block caches flush blocks added
 by a resize

The callbacks created by WrapStream checked block numbers against the original
size, so flushing a cache that had grown always failed.
---
 file_systems/common/blockcache/blockcache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 8593c57..9509fdc 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -150,7 +150,11 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err == nil {
+				totalBlocks = uint(newTotalBlocks)
+			}
+			return err
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From cfd71abb9f33266ef3228fcf72a457fd6746fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 06/75] fix: read entire blocks from streams and report failed
 writes

WrapStream's callbacks treated a short Read as a complete block, and ignored
io.EOF (and thus lost data) when writing.
---
 file_systems/common/blockcache/blockcache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 9509fdc..be49c69 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -123,16 +123,19 @@ func WrapStream(
 			return err
 		}
 
-		if read {
-			_, err = stream.Read(buffer)
-		} else {
+		if !read {
 			_, err = stream.Write(buffer)
+			return err
 		}
 
-		if err != nil && err != io.EOF {
-			return err
+		nRead, err := io.ReadFull(stream, buffer)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// The stream ends before the block does. Treat the missing part as
+			// consisting entirely of null bytes.
+			clear(buffer[nRead:])
+			err = nil
 		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From d041c0430dcf4b14e3e26a0cd6c91f6312411754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 07/75] fix: avoid integer overflow when checking block cache
 bounds

Huge block numbers or counts wrapped around and passed the check, after which
the access panicked.
---
 file_systems/common/blockcache/blockcache.go | 31 ++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index be49c69..de988b0 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -227,7 +227,11 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
@@ -241,7 +245,7 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
 				"can't access %d bytes (%d blocks) starting at block %d; requested"+
@@ -256,6 +260,23 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 	return nil
 }
 
+// checkBlockRange is like [CheckBounds] except it takes the number of blocks to
+// access instead of the number of bytes.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, count uint) error {
+	if count > cache.totalBlocks {
+		return disko.ErrArgumentOutOfRange.WithMessage(
+			fmt.Sprintf(
+				"can't access %d blocks starting at block %d; requested range not"+
+					" in [0, %d)",
+				count,
+				start,
+				cache.totalBlocks,
+			),
+		)
+	}
+	return cache.CheckBounds(start, count*cache.bytesPerBlock)
+}
+
 // GetSlice returns a slice pointing to the cache's storage, beginning at block
 // `start` and continuing for `count` blocks.
 //
@@ -292,7 +313,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -329,7 +350,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -484,7 +505,7 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From daaefca60085b816304b1a190e88688359e5f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 08/75] fix: advance the stream position when a read hits EOF

Read returned the remaining bytes together with io.EOF but left the pointer
where it was, so the tail of the file was returned over and over again.
---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..be2b2b8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From 2253f0c51ecfdb1125c306511e1b266cdde872d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 09/75] fix: reject negative offsets in ReadAt and WriteAt

They were converted to huge unsigned block numbers, causing a panic.
---
 file_systems/common/basicstream/basicstream.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index be2b2b8..7cbd4a2 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -87,6 +87,11 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 	if !stream.ioFlags.Read() {
 		return 0, disko.ErrNotPermitted
 	}
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("read failed: negative offset %d", offset),
+		)
+	}
 
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
@@ -274,6 +279,11 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	if !stream.ioFlags.Write() {
 		return 0, disko.ErrNotPermitted
 	}
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("write failed: negative offset %d", offset),
+		)
+	}
 
 	bufLen := int64(len(buffer))
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-- 
2.43.0


From 317bc43cd02ff6a3ede4f551151e2f6680b6b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 10/75] fix: null-fill the end of the last block when a stream
 grows

Truncating a stream and then extending it again exposed the old contents of
its last block, and resizing within a block needlessly resized the cache.
---
 .../common/basicstream/basicstream.go         | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 7cbd4a2..aebc45f 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -235,11 +235,22 @@ func (stream *BasicStream) Truncate(size int64) error {
 			fmt.Sprintf("truncate failed: new file size %d is too large", size),
 		)
 	}
-	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
-	if err != nil {
-		return err
+	// Bytes past the end of the file in blocks we already have can be anything.
+	// If the file is growing, they must read as nulls.
+	if size > stream.size {
+		err := stream.zeroUnusedSpace(size)
+		if err != nil {
+			return err
+		}
+	}
+
+	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
+	if newTotalBlocks != stream.data.TotalBlocks() {
+		err := stream.data.Resize(newTotalBlocks)
+		if err != nil {
+			return err
+		}
 	}
 
 	stream.size = size
@@ -250,6 +261,27 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// zeroUnusedSpace fills everything between the end of the file and the given
+// file offset with null bytes, as far as that's covered by existing blocks.
+func (stream *BasicStream) zeroUnusedSpace(endOffset int64) error {
+	endOffset = min(endOffset, stream.data.Size())
+	if endOffset <= stream.size {
+		return nil
+	}
+
+	firstBlock, startOffset := stream.convertLinearAddr(stream.size)
+	lastBlock, _ := stream.convertLinearAddr(endOffset - 1)
+	numBlocks := uint(lastBlock-firstBlock) + 1
+
+	slice, err := stream.data.GetSlice(firstBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+
+	clear(slice[startOffset : int64(startOffset)+endOffset-stream.size])
+	return stream.data.MarkBlockRangeDirty(firstBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
-- 
2.43.0


From 32b29aea80ff482d6adb5d7164098bec25e0f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/75] fix: make BasicStream writes land, grow the stream and
 get flushed

Writes computed the range of blocks to access incorrectly (failing or touching
unrelated blocks), never marked anything as dirty, and didn't update the size
when the stream grew within its last block.
---
 .../common/basicstream/basicstream.go         | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index aebc45f..80ffa62 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -318,24 +318,57 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	}
 
 	bufLen := int64(len(buffer))
+	if bufLen == 0 {
+		return 0, nil
+	}
+	if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge.WithMessage(
+			fmt.Sprintf("write failed: can't write %d bytes at %d", bufLen, offset),
+		)
+	}
+
+	endOffset := offset + bufLen
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(endOffset - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
+
+	// Load the existing blocks we're going to modify before changing anything,
+	// so that the stream is left as it was if this fails.
+	totalBlocks := stream.data.TotalBlocks()
+	if uint(startBlock) < totalBlocks {
+		_, err := stream.data.GetSlice(
+			startBlock, min(numBlocks, totalBlocks-uint(startBlock)))
+		if err != nil {
+			return 0, err
+		}
+	}
 
 	// If we're going to end up writing past the end of the stream we need to
 	// grow the file first.
-	if uint(lastBlock) >= stream.data.TotalBlocks() {
-		err := stream.Truncate(offset + bufLen)
+	if endOffset > stream.size {
+		err := stream.zeroUnusedSpace(offset)
 		if err != nil {
 			return 0, err
 		}
+		if uint(lastBlock) >= totalBlocks {
+			err = stream.data.Resize(uint(lastBlock) + 1)
+			if err != nil {
+				return 0, err
+			}
+		}
+		stream.size = endOffset
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
 
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
-- 
2.43.0


From d14eff5faa447a8e5af5f36595c5ad6e819c0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 12/75] fix: report write errors in BasicStream.ReadFrom and
 WriteTo

ReadFrom dropped the error if the source hit EOF at the same time; WriteTo
ignored failed and short writes entirely.
---
 file_systems/common/basicstream/basicstream.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 80ffa62..6b8aafe 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -154,12 +154,12 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 		totalBytesRead += int64(lastReadSize)
 
 		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
+		if writeErr != nil {
+			return totalBytesRead, writeErr
+		} else if readErr == io.EOF {
 			return totalBytesRead, nil
 		} else if readErr != nil {
 			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
 		}
 	}
 }
@@ -401,8 +401,14 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			nWritten, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(nWritten)
+			if writeErr == nil && nWritten < blockSize {
+				writeErr = io.ErrShortWrite
+			}
+			if writeErr != nil {
+				return totalWritten, writeErr
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From cd207ba7cc6af7a0040023b6dd2f4b5de82922ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 13/75] fix: make object handle wrappers refer to the handle
 they wrap

wrapObjectHandle dropped the handle it was given, so any path-based operation
of the driver crashed with a nil dereference.  Optional interfaces have to be
looked up on the wrapped handle, and implementations must get back their own
handles instead of our wrappers.
---
 driver/driver.go   | 37 +++++++++++++++++++------------------
 driver/file.go     |  6 ++++--
 driver/fsobject.go | 36 ++++++++++++++++++++++++++++++++----
 3 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..e4b30e9 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,7 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(baseName, unwrapObjectHandle(parentObject))
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +217,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		unwrapObjectHandle(parentObject),
 		perm,
 	)
 	if err != nil {
@@ -328,7 +328,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 		return err
 	}
 
-	chmodObject, ok := object.(disko.SupportsChmodHandle)
+	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -342,7 +342,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -359,7 +359,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -373,7 +373,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChtimesHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -449,7 +449,7 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := listDir(directory)
 	if err != nil {
 		return nil, err
 	}
@@ -461,7 +461,7 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(name, unwrapObjectHandle(directory))
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +502,11 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle),
+		unwrapObjectHandle(parentHandle),
+		targetName,
+	)
 	return err
 }
 
@@ -601,7 +605,7 @@ func (driver *BaseDriver) Remove(path string) error {
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
 		// must at most only contain the "." and ".." entries.
-		names, err := object.(disko.SupportsListDirHandle).ListDir()
+		names, err := listDir(object)
 		if err != nil {
 			return err
 		}
@@ -688,7 +692,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +720,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +742,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
@@ -754,7 +758,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 	var err error
 
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := listDir(directory)
 	if err != nil {
 		return err
 	}
@@ -773,10 +777,7 @@ func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 
 		// If this is a directory, recursively delete its contents.
 		if direntStat.IsDir() {
-			absPath := posixpath.Join(directory.AbsolutePath(), name)
-			wrappedDirent := wrapObjectHandle(dirent, absPath)
-
-			rmErr := driver.removeDirectory(wrappedDirent)
+			rmErr := driver.removeDirectory(dirent)
 			if rmErr != nil {
 				dirent.Close()
 				return rmErr
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..2b859d7 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,7 +144,8 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
-	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
+	chmodHandle, ok := unwrapObjectHandle(
+		file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
 	}
@@ -152,7 +153,8 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
-	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
+	chownHandle, ok := unwrapObjectHandle(
+		file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
 	}
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..9f367b0 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -8,19 +8,47 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an object handle from a file system implementation
+// with the absolute path it was found at.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
 
+// unwrapObjectHandle is the inverse of [wrapObjectHandle]. It returns the handle
+// as it was created by the file system implementation, which is what we need to
+// pass back to it, and what needs to be examined for optional interfaces.
+func unwrapObjectHandle(handle disko.ObjectHandle) disko.ObjectHandle {
+	if wrapped, ok := handle.(*tExtObjectHandle); ok {
+		return wrapped.ObjectHandle
+	}
+	return handle
+}
+
+// listDir returns the names of all directory entries in `directory`.
+func listDir(directory disko.ObjectHandle) ([]string, error) {
+	listable, ok := unwrapObjectHandle(directory).(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotSupported
+	}
+	names, err := listable.ListDir()
+	if err != nil {
+		return nil, err
+	}
+	return names, nil
+}
+
+// SameAs implements [disko.ObjectHandle].
+func (xh tExtObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return xh.ObjectHandle.SameAs(unwrapObjectHandle(other))
+}
+
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
-- 
2.43.0


From e4c22ecfad1677b232095797b63f8bd341390cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 14/75] fix: resolve paths more than one directory deep

path.Split leaves a trailing slash on the parent directory, and splitting that
again yields the same directory, resulting in infinite recursion.
---
 driver/driver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index e4b30e9..3e09aab 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -123,7 +123,10 @@ func (driver *BaseDriver) resolveSymlink(
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	if path == "/" || path == "" {
+	// Callers may have used path.Split(), which leaves a trailing slash on the
+	// directory part.
+	path = posixpath.Clean("/" + path)
+	if path == "/" {
 		root := driver.implementation.GetRootDirectory()
 		return wrapObjectHandle(root, path), nil
 	}
-- 
2.43.0


From 65b670ccd43fefb6063a39f664e6969e7ab43088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 15/75] fix: interpret "." relative to the working directory

NormalizePath converted it (and anything equivalent, like "a/..") to the root
directory instead.
---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 3e09aab..128d788 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From 216abd3f8f25562cf70d37b037a6d7e029f33d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 16/75] fix: don't follow symbolic links in Lstat

---
 driver/driver.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 128d788..8db6d21 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -544,15 +544,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From 845310187d4c1ed5ad5fb0d6ca7a3a33cabd3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 17/75] fix: resolve relative symlinks and detect all symlink
 cycles

Relative symlinks were resolved against the working directory rather than the
directory they're in.  Cycles were only found if the links pointed directly at
each other; one going through an intermediate directory overflowed the stack.
---
 driver/driver.go | 112 +++++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 63 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 8db6d21..702c3e3 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -50,66 +50,46 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
+//
+// `activeLinks` contains the absolute paths of all symlinks that are currently
+// being dereferenced. If we need to go through one of these to dereference it,
+// we found a cycle and must fail. `object` is closed unless it's returned.
 func (driver *BaseDriver) resolveSymlink(
 	object extObjectHandle,
+	activeLinks map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
 	if !stat.IsSymlink() {
 		return object, nil
 	}
+	defer object.Close()
 
-	// Symbolic links can result in cycles, so we need to keep track of all the
-	// paths we visit. If we resolve a symlink to a path that's already in the
-	// dictionary, we found a loop and must fail.
-	pathCache := make(map[string]bool)
-
-	originalPath := object.AbsolutePath()
-	currentPath := originalPath
-	pathCache[currentPath] = true
-
-	for stat.IsSymlink() {
-		symlinkText, err := driver.getContentsOfObject(object)
-		object.Close()
-
-		if err != nil {
-			return nil,
-				err.WithMessage(
-					fmt.Sprintf(
-						"can't resolve path %q, failed to read symlink %q: %s",
-						originalPath,
-						currentPath,
-						err.Error(),
-					),
-				)
-		}
-
-		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
-		_, exists := pathCache[nextPath]
-		if exists {
-			return nil,
-				disko.ErrLinkCycleDetected.WithMessage(
-					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
-						originalPath,
-						nextPath,
-					),
-				)
-		}
+	linkPath := object.AbsolutePath()
+	if activeLinks[linkPath] {
+		return nil,
+			disko.ErrLinkCycleDetected.WithMessage(
+				fmt.Sprintf("found cycle resolving symlink %q", linkPath),
+			)
+	}
 
-		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
-		if err != nil {
-			return nil, err
-		}
+	symlinkText, err := driver.getContentsOfObject(object)
+	if err != nil {
+		return nil,
+			err.WithMessage(
+				fmt.Sprintf("failed to read symlink %q: %s", linkPath, err.Error()),
+			)
+	}
 
-		// Update the latest path and file stats for the next loop iteration.
-		stat = object.Stat()
-		currentPath = nextPath
+	// Relative symlinks are relative to the directory they're in, not the
+	// current working directory.
+	nextPath := filepath.ToSlash(string(symlinkText))
+	if !posixpath.IsAbs(nextPath) {
+		nextPath = posixpath.Join(posixpath.Dir(linkPath), nextPath)
 	}
 
-	return object, nil
+	activeLinks[linkPath] = true
+	defer delete(activeLinks, linkPath)
+	return driver.lookUpFollowingLink(nextPath, activeLinks)
 }
 
 // getObjectAtPathNoFollow resolves a normalized absolute path to an object
@@ -119,6 +99,15 @@ func (driver *BaseDriver) resolveSymlink(
 // `path` must be a normalized absolute path.
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
+) (extObjectHandle, disko.DriverError) {
+	return driver.lookUpNoFollow(path, make(map[string]bool))
+}
+
+// lookUpNoFollow implements [getObjectAtPathNoFollow]. See [resolveSymlink] for
+// the meaning of `activeLinks`.
+func (driver *BaseDriver) lookUpNoFollow(
+	path string,
+	activeLinks map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	// Callers may have used path.Split(), which leaves a trailing slash on the
 	// directory part.
@@ -129,7 +118,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 	}
 
 	parentPath, baseName := posixpath.Split(path)
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.lookUpFollowingLink(parentPath, activeLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -155,23 +144,20 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 func (driver *BaseDriver) getObjectAtPathFollowingLink(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	return driver.lookUpFollowingLink(path, make(map[string]bool))
+}
+
+// lookUpFollowingLink implements [getObjectAtPathFollowingLink]. See
+// [resolveSymlink] for the meaning of `activeLinks`.
+func (driver *BaseDriver) lookUpFollowingLink(
+	path string,
+	activeLinks map[string]bool,
+) (extObjectHandle, disko.DriverError) {
+	object, err := driver.lookUpNoFollow(path, activeLinks)
 	if err != nil {
 		return nil, err
 	}
-
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object, activeLinks)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
-- 
2.43.0


From d947a4d087b53d3a5c7f196e3603ce14aa7cc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 18/75] fix: honor O_EXCL and don't create files on top of
 dangling symlinks

OpenFile ignored O_EXCL, so Create opened existing files.  If the path was a
symlink to a missing object it asked the implementation to create an object
that already exists.
---
 driver/driver.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 702c3e3..e0f4ad5 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -238,12 +238,27 @@ func (driver *BaseDriver) OpenFile(
 	var err error
 
 	object, err = driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil && ioFlags.Create() && ioFlags.Exclusive() {
+		object.Close()
+		return File{}, disko.ErrExists.WithMessage(absPath)
+	}
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
 		// and proceed.
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				// A symbolic link to something that doesn't exist isn't the same
+				// as a missing file.
+				link, linkErr := driver.getObjectAtPathNoFollow(absPath)
+				if linkErr == nil {
+					link.Close()
+					if ioFlags.Exclusive() {
+						return File{}, disko.ErrExists.WithMessage(absPath)
+					}
+					return File{}, err
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
-- 
2.43.0


From a803b064df56661eaa81b17f11329b607044eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 19/75] fix: handle existing objects in Mkdir, missing parents
 in MkdirAll

Both asked the implementation to create objects that already exist.  MkdirAll
crashed after creating a missing parent directory because it kept using the
failed lookup's handle.
---
 driver/driver.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index e0f4ad5..37f4c76 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -685,6 +685,14 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
+	existing, err := driver.getObjectAtPathNoFollow(absPath)
+	if err == nil {
+		existing.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+
 	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
@@ -694,30 +702,28 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
 
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
+	existing, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		defer existing.Close()
 
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+		stat := existing.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		// Different error, we won't handle it.
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.createExtObject(baseName, parentObject, perm)
-	if err == nil {
-		object.Close()
+	// The directory doesn't exist. Its parent may not exist either, so create
+	// that first. This terminates because the root directory always exists.
+	parentErr := driver.MkdirAll(posixpath.Dir(absPath), perm)
+	if parentErr != nil {
+		return parentErr
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From 99f40a1f47cd03b9e984e8bc950792831a8b65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 20/75] fix: remove symbolic links instead of what they point
 to

Remove followed symlinks and deleted their target.  It was also willing to
unlink the root directory if that was empty.
---
 driver/driver.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 37f4c76..2386095 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -588,7 +588,14 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if absPath == "/" {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
+	// If this is a symbolic link we need to remove the link, not its target.
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
@@ -613,7 +620,7 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
 		)
-- 
2.43.0


From 963ef71d47cc229d84b1eec40e6741ead164633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 21/75] fix: remove the directory itself in RemoveAll

It only deleted the directory's contents, and given a symbolic link to a
directory it emptied the link's target.
---
 driver/driver.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 2386095..3776ecf 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -735,7 +735,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
@@ -754,10 +754,15 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+	return directory.Unlink()
 }
 
-// removeDirectory is equivalent to `rm -rf` for a directory handle.
+// removeDirectory deletes everything inside of a directory, but not the directory
+// itself.
 //
 // Deletion is depth-first, and terminates on the first error encountered.
 // Ownership and other permissions are not checked.
-- 
2.43.0


From 9c4bd0b2a40c8a8dc5b7bd4a86b0ee8f3fb0c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 22/75] fix: check what is being hard linked and where

Implementations are promised that the source is never a directory, and that the
target doesn't exist and is in a directory.  Link checked none of the former,
took dangling symlinks for missing targets, and ignored all lookup errors.
---
 driver/driver.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 3776ecf..d748103 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -487,14 +487,22 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrNotPermitted.WithMessage(
+			"can't create a hard link to a directory: " + absOld)
+	}
+
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	_, err = driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
 
 	targetParentPath, targetName := posixpath.Split(absNew)
-- 
2.43.0


From 78859bf107100d5b03bd7715a7b309cb18c5bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 23/75] fix: implement Stat for directory entries

It was inherited from a nil interface, so calling it on anything returned by
ReadDir crashed.
---
 driver/dirent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..6331803 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -23,6 +23,11 @@ func NewDirectoryEntryFromHandle(object disko.ObjectHandle) DirectoryEntry {
 	}
 }
 
+// Stat implements [disko.DirectoryEntry].
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
+
 func (dirent DirectoryEntry) Name() string {
 	return dirent.name
 }
-- 
2.43.0


From b7469e97d85789d0a5145afb67aa98700edaa3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 24/75] fix: enforce the mount flags for all modifications

Only opening files for writing was checked (and that even for new files, which
need the insert flag instead).  Everything else modified read-only images.
---
 api.go           |  8 +++++
 driver/driver.go | 85 +++++++++++++++++++++++++++++++++++++++++++-----
 driver/file.go   | 18 ++++++++++
 3 files changed, 102 insertions(+), 9 deletions(-)

diff --git a/api.go b/api.go
index 5cce507..8017a54 100644
--- a/api.go
+++ b/api.go
@@ -67,6 +67,14 @@ func (flags MountFlags) CanDelete() bool {
 	return flags&MountFlagsAllowDelete != 0
 }
 
+func (flags MountFlags) CanInsert() bool {
+	return flags&MountFlagsAllowInsert != 0
+}
+
+func (flags MountFlags) CanAdminister() bool {
+	return flags&MountFlagsAllowAdminister != 0
+}
+
 const MountFlagsAllowReadWrite = MountFlagsAllowRead | MountFlagsAllowWrite
 const MountFlagsAllowAll = (MountFlagsAllowRead |
 	MountFlagsAllowWrite |
diff --git a/driver/driver.go b/driver/driver.go
index d748103..d03b08b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -215,6 +215,23 @@ func (driver *BaseDriver) createExtObject(
 	return object, nil
 }
 
+// requireMountFlag returns an error if an operation on the object at `absPath`
+// isn't allowed by the flags the image was mounted with.
+func (driver *BaseDriver) requireMountFlag(
+	isAllowed bool, operation, absPath string,
+) error {
+	if isAllowed {
+		return nil
+	}
+	return disko.ErrReadOnlyFileSystem.WithMessage(
+		fmt.Sprintf(
+			"can't %s %q: the image is mounted without permission to do so",
+			operation,
+			absPath,
+		),
+	)
+}
+
 // OpenFile opens a file for I/O.
 func (driver *BaseDriver) OpenFile(
 	path string,
@@ -224,15 +241,6 @@ func (driver *BaseDriver) OpenFile(
 	absPath := driver.NormalizePath(path)
 	ioFlags := disko.IOFlags(flags)
 
-	if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
-		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
-			fmt.Sprintf(
-				"can't open %q for writing: image is mounted read-only",
-				absPath,
-			),
-		)
-	}
-
 	var object extObjectHandle
 	var parentObject extObjectHandle
 	var err error
@@ -242,6 +250,15 @@ func (driver *BaseDriver) OpenFile(
 		object.Close()
 		return File{}, disko.ErrExists.WithMessage(absPath)
 	}
+	if err == nil && ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
+		object.Close()
+		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf(
+				"can't open %q for writing: image is mounted read-only",
+				absPath,
+			),
+		)
+	}
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
 		// and proceed.
@@ -259,6 +276,11 @@ func (driver *BaseDriver) OpenFile(
 					return File{}, err
 				}
 
+				permErr := driver.requireMountFlag(driver.mountFlags.CanInsert(), "create", absPath)
+				if permErr != nil {
+					return File{}, permErr
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -324,6 +346,11 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanAdminister(), "change the mode of", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -338,6 +365,11 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanAdminister(), "change the owner of", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -355,6 +387,11 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanAdminister(), "change the owner of", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -369,6 +406,11 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
 	absPath := driver.NormalizePath(name)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanWrite(), "change the timestamps of", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -494,6 +536,11 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 
 	absNew := driver.NormalizePath(newname)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanInsert(), "create", absNew)
+	if permErr != nil {
+		return permErr
+	}
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
@@ -596,6 +643,11 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanDelete(), "remove", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	if absPath == "/" {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
@@ -640,6 +692,11 @@ func (driver *BaseDriver) Remove(path string) error {
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
 	absPath := driver.NormalizePath(path)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanWrite(), "truncate", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -681,6 +738,11 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanInsert(), "create", absPath)
+	if permErr != nil {
+		return permErr
+	}
 	parentDir, baseName := posixpath.Split(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
@@ -743,6 +805,11 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
+
+	permErr := driver.requireMountFlag(driver.mountFlags.CanDelete(), "remove", path)
+	if permErr != nil {
+		return permErr
+	}
 	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
diff --git a/driver/file.go b/driver/file.go
index 2b859d7..9dcf53e 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,6 +144,15 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	permErr := file.owningDriver.requireMountFlag(
+		file.owningDriver.mountFlags.CanAdminister(),
+		"change the mode of",
+		file.objectHandle.AbsolutePath(),
+	)
+	if permErr != nil {
+		return permErr
+	}
+
 	chmodHandle, ok := unwrapObjectHandle(
 		file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
@@ -153,6 +162,15 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	permErr := file.owningDriver.requireMountFlag(
+		file.owningDriver.mountFlags.CanAdminister(),
+		"change the owner of",
+		file.objectHandle.AbsolutePath(),
+	)
+	if permErr != nil {
+		return permErr
+	}
+
 	chownHandle, ok := unwrapObjectHandle(
 		file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
-- 
2.43.0


From fb8d104940363b066429f29ccb95b4f6894ce483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 25/75] fix: only pass permission bits to
 SupportsChmodHandle.Chmod

As guaranteed by its documentation.
---
 driver/driver.go | 5 ++++-
 driver/file.go   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index d03b08b..2184222 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -13,6 +13,9 @@ import (
 	"github.com/dargueta/disko"
 )
 
+// permissionBits are the mode flags that can be changed on existing objects.
+const permissionBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky
+
 // BaseDriver is an abstraction layer for all file system implementations,
 // providing a single interface for interacting with them.
 type BaseDriver struct {
@@ -360,7 +363,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode & permissionBits)
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index 9dcf53e..f40dc96 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -156,7 +156,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 	chmodHandle, ok := unwrapObjectHandle(
 		file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode & permissionBits)
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From 5c5ff15c659a469ca6dea05e04a2dcb757875db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 26/75] fix: set the size of files in bytes, and exactly

The driver passed the number of blocks to ObjectHandle.Resize, which expects
bytes, and never told the implementation where in the last block a file ends.
---
 driver/file.go                                | 25 ++++++++++++++++---
 .../common/basicstream/basicstream.go         | 15 ++++++++++-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index f40dc96..6a48077 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -109,11 +109,21 @@ func NewFileFromObjectHandle(
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.WriteBlocks(index, buffer)
 	}
-	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
-	}
 
 	stat := object.Stat()
+	objectSize := uint64(stat.Size)
+	resizeTo := func(newSize uint64) error {
+		err := object.Resize(newSize)
+		if err != nil {
+			return err
+		}
+		objectSize = newSize
+		return nil
+	}
+	resizeCb := func(newTotalBlocks common.LogicalBlock) error {
+		return resizeTo(uint64(newTotalBlocks) * uint64(stat.BlockSize))
+	}
+
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
@@ -127,6 +137,15 @@ func NewFileFromObjectHandle(
 		return File{}, err
 	}
 
+	// While a file is open its object is resized in units of entire blocks. Trim
+	// it to the exact size once everything's been written.
+	stream.SetSyncCallback(func(size int64) error {
+		if uint64(size) == objectSize {
+			return nil
+		}
+		return resizeTo(uint64(size))
+	})
+
 	return File{
 		owningDriver: driver,
 		objectHandle: object,
diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 6b8aafe..10195f5 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -20,6 +20,7 @@ type BasicStream struct {
 	position int64
 	data     *blockcache.BlockCache
 	ioFlags  disko.IOFlags
+	syncCb   func(size int64) error
 }
 
 // New creates a [BasicStream] on top of a block cache. The `size` argument gives
@@ -210,7 +211,19 @@ func (stream *BasicStream) Size() int64 {
 // Sync writes out all pending changes to the backing storage. After calling
 // this, all loaded blocks will be marked clean.
 func (stream *BasicStream) Sync() error {
-	return stream.data.Flush()
+	err := stream.data.Flush()
+	if err == nil && stream.syncCb != nil {
+		err = stream.syncCb(stream.size)
+	}
+	return err
+}
+
+// SetSyncCallback registers a function to be called with the exact size of the
+// stream, in bytes, whenever all pending changes have been written out. A block
+// cache can only resize its backing storage in units of entire blocks, so this
+// is the only way to determine how much of the last block is used.
+func (stream *BasicStream) SetSyncCallback(callback func(size int64) error) {
+	stream.syncCb = callback
 }
 
 // Tell returns the current stream position. It's slightly more efficient than
-- 
2.43.0


From a0a322638ea863e539745367d9fc49cf86b31076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 27/75] fix: report failures to write out data in WriteFile

The data is only written to the image when the file is closed, but the error
returned by Close was ignored.
---
 driver/driver.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 2184222..12d164d 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -728,10 +728,12 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
-
 	_, err = handle.Write(data)
-	return err
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
-- 
2.43.0


From 083728615be6da45a7df521f03eb3fd8fe63dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 28/75] fix: return current information from File.Stat

It returned what was known when the file was opened, e.g. its original size.
---
 driver/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index 6a48077..bd9df0e 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -293,5 +293,8 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
-	return file.fileInfo.Info()
+	info := file.fileInfo
+	info.FileStat = file.objectHandle.Stat()
+	info.FileStat.Size = file.Size()
+	return &info, nil
 }
-- 
2.43.0


From 4e5279040a0fa883d401b6371488aba39d59d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 29/75] fix: don't return io.EOF if all remaining directory
 entries are requested

Like in os.File, that's only an error if a limit was given.
---
 driver/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index bd9df0e..eedfe62 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -235,10 +235,14 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 
 	result := make([]os.DirEntry, numToCopy)
 
-	// If there are no entries remaining, return an empty slice and io.EOF.
+	// If there are no entries remaining, return an empty slice and io.EOF, or no
+	// error if the caller asked for everything that's left.
 	if entriesRemaining == 0 {
 		file.lastReadDirResult = nil
 		file.readDirResultPointer = 0
+		if n <= 0 {
+			return result, nil
+		}
 		return result, io.EOF
 	}
 
-- 
2.43.0


From 7c7fb74319109a2cd3b1371c36217a37d561f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 30/75] fix: close object handles once they're no longer needed

Closing a file didn't release its handle, and several path-based operations
leaked theirs.
---
 driver/driver.go | 26 +++++++++++++++++++++-----
 driver/file.go   |  7 ++++++-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 12d164d..348afd8 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -173,7 +173,6 @@ func (driver *BaseDriver) getContentsOfObject(
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
@@ -317,10 +316,15 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+	}
+	return file, err
 }
 
 func (driver *BaseDriver) Chdir(path string) error {
@@ -358,6 +362,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
@@ -377,6 +382,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -399,6 +405,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -418,6 +425,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
@@ -531,6 +539,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer oldHandle.Close()
 
 	oldStat := oldHandle.Stat()
 	if oldStat.IsDir() {
@@ -548,8 +557,9 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathNoFollow(absNew)
+	existing, err := driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
+		existing.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	} else if !errors.Is(err, disko.ErrNotFound) {
 		return err
@@ -560,13 +570,18 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer parentHandle.Close()
 
-	_, err = linker.CreateHardLink(
+	newHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle),
 		unwrapObjectHandle(parentHandle),
 		targetName,
 	)
-	return err
+	if err != nil {
+		return err
+	}
+	newHandle.Close()
+	return nil
 }
 
 func (driver *BaseDriver) Readlink(path string) (string, error) {
@@ -828,6 +843,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
diff --git a/driver/file.go b/driver/file.go
index eedfe62..f302ae7 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -199,7 +199,12 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	err := file.BasicStream.Close()
+	closeErr := file.objectHandle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From 988216a0a6557536b89660405fa3ebdba57d899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 31/75] fix: allow reading the last sector of FAT8 images

The bounds check was off by one.  It could also be bypassed by sector numbers
large enough to overflow, as could the one for writing.
---
 file_systems/fat8/iobase.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..e7a9063 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,11 +10,12 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if uint(start) > totalBlocks || count > totalBlocks-uint(start) {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
-			start,
 			count,
+			start,
 			driver.stat.TotalBlocks,
 		)
 	}
@@ -35,7 +36,8 @@ func (driver *FAT8Driver) WriteDiskBlocks(start PhysicalBlock, data []byte) erro
 	}
 
 	numBlocksToWrite := uint64(len(data) / 128)
-	if uint64(start)+numBlocksToWrite > driver.stat.TotalBlocks {
+	if uint64(start) > driver.stat.TotalBlocks ||
+		numBlocksToWrite > driver.stat.TotalBlocks-uint64(start) {
 		return disko.ErrIOFailed.WithMessage(
 			fmt.Sprintf(
 				"refusing to write past end of image: %d blocks at %d exceeds limit of %d",
-- 
2.43.0


From 28e9d0730f0750ad862870584b04bf918538ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 32/75] fix: write FAT8 clusters where they're read from

WriteAbsoluteCluster computed the address in units of tracks.
---
 file_systems/fat8/iobase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index e7a9063..e24fcdc 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -90,7 +90,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
-- 
2.43.0


From abf75bd29797b0bbd9c0980aa4e9254f9e1fa153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 33/75] fix: read the correct cluster in FAT8's ReadFileCluster

Cluster numbers begin at 1, so it read the cluster following the one needed.
---
 file_systems/fat8/iobase.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index e24fcdc..7ff6ae7 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -147,8 +147,7 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
-- 
2.43.0


From c35c1b8ccb8b4f4a3988474041fdfc135fe1ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 34/75] fix: reserve the clusters of the directory track when
 formatting FAT8

The FAT is indexed by cluster, but the track number was used as the index.
---
 file_systems/fat8/formattingdriver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..a4be6d9 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -83,10 +83,10 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// track.
 
 	// Construct a single copy of the FAT, and mark the directory track as
-	// reserved by putting 0xFE in its cluster entry. (It's always the middle
-	// track.)
+	// reserved by putting 0xFE in its cluster entries. (It's always the middle
+	// track.) There are two clusters per track.
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
+	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
 	fat[directoryClusterNumber] = 0xfe
 	fat[directoryClusterNumber+1] = 0xfe
 
-- 
2.43.0


From acfe699c9fc5747815254a5d5b1dfaac43e75113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 35/75] fix: make it possible to mount FAT8 images

Mount needs to read from the image, but never set the file system information
that reads are checked against, so it always failed unless the same driver had
just formatted the image.
---
 file_systems/fat8/driver.go           |  8 +++-
 file_systems/fat8/formattingdriver.go | 53 +++++++++++++++------------
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..ee3eb69 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -67,6 +67,7 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
 	driver.geometry = geo
+	driver.stat = newFSStat(geo, uint64(offset)/128)
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
@@ -77,12 +78,17 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	driver.fat = fat
 
 	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
 	}
 
+	freeBlocks := uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksFree = freeBlocks
+	driver.stat.BlocksAvailable = freeBlocks
+
 	// Get the info sector, which always immediately precedes the FATs. The first
 	// byte of the info sector tells us what the default attributes should be for
 	// new files; the rest is not defined by the standard.
diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index a4be6d9..789f59c 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -32,31 +32,8 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 		return err
 	}
 
-	// We reserve one track for the directory, so the total number of available
-	// blocks is one track's worth of blocks fewer.
-	availableBlocks := uint64((geo.TotalTracks - 1) * geo.SectorsPerTrack)
-
-	// The maximum number of files is:
-	// (SectorsPerTrack - 1 - (FatSizeInSectors * 3)) * DirentsPerSector
-	//   * We subtract one for the information sector.
-	//   * A directory entry is 16 bytes, so there are 8 dirents per sector.
-	direntSectors := geo.SectorsPerTrack - 1 - (geo.SectorsPerFAT * 3)
-	totalDirents := direntSectors * 8
-
 	driver.geometry = geo
-	driver.stat = disko.FSStat{
-		BlockSize:       128,
-		TotalBlocks:     totalBlocks,
-		BlocksFree:      availableBlocks,
-		BlocksAvailable: availableBlocks,
-		Files:           0,
-		FilesFree:       uint64(totalDirents),
-		// This isn't completely accurate; names are 6.3 format so the longest
-		// bare name is six characters, plus an extra three for the extension,
-		// plus one more for the ".". Problem is, "ABCDEFGHI" is interpreted as
-		// "ABCDEF.GHI" because of the implicit period.
-		MaxNameLength: 10,
-	}
+	driver.stat = newFSStat(geo, totalBlocks)
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
@@ -94,3 +71,31 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	allFATs := bytes.Repeat(fat, 3)
 	return driver.WriteDiskBlocks(geo.FATsStart, allFATs)
 }
+
+// newFSStat returns the file system information for an empty volume.
+func newFSStat(geo Geometry, totalBlocks uint64) disko.FSStat {
+	// We reserve one track for the directory, so the total number of available
+	// blocks is one track's worth of blocks fewer.
+	availableBlocks := uint64((geo.TotalTracks - 1) * geo.SectorsPerTrack)
+
+	// The maximum number of files is:
+	// (SectorsPerTrack - 1 - (FatSizeInSectors * 3)) * DirentsPerSector
+	//   * We subtract one for the information sector.
+	//   * A directory entry is 16 bytes, so there are 8 dirents per sector.
+	direntSectors := geo.SectorsPerTrack - 1 - (geo.SectorsPerFAT * 3)
+	totalDirents := direntSectors * 8
+
+	return disko.FSStat{
+		BlockSize:       128,
+		TotalBlocks:     totalBlocks,
+		BlocksFree:      availableBlocks,
+		BlocksAvailable: availableBlocks,
+		Files:           0,
+		FilesFree:       uint64(totalDirents),
+		// This isn't completely accurate; names are 6.3 format so the longest
+		// bare name is six characters, plus an extra three for the extension,
+		// plus one more for the ".". Problem is, "ABCDEFGHI" is interpreted as
+		// "ABCDEF.GHI" because of the implicit period.
+		MaxNameLength: 10,
+	}
+}
-- 
2.43.0


From 167cc5c546c988cfc131a495eb4e9b2a475a91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 36/75] fix: export all fields of the raw FAT boot sector

encoding/binary can't set unexported fields, so reading any boot sector
panicked.
---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From 989b3a650e80432893b96316d25acad52af446a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 37/75] fix: validate FAT boot sectors before doing arithmetic
 on them

A sector or cluster size of 0 caused a division by zero before it could be
rejected, and the size of the root directory overflowed 16 bits.
---
 file_systems/fat/common.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..eddfb90 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -96,15 +96,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +126,15 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors := ((uint(rawHeader.RootEntryCount) * DirentSize) + (bytesPerSector - 1)) / bytesPerSector
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
-- 
2.43.0


From ecc91b78e54e1a8104fccbdeb8c340acef3e49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 38/75] fix: account for the FATs when locating the FAT data
 region

The sectors used by the FATs were added to the data region instead of being
subtracted from it (so the FAT version could be wrong, too), and were missing
in the offset of the first data sector.
---
 file_systems/fat/common.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index eddfb90..8b5a5af 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -132,7 +132,15 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	rootDirSectors := ((uint(rawHeader.RootEntryCount) * DirentSize) + (bytesPerSector - 1)) / bytesPerSector
 
 	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
+	firstDataSector := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if firstDataSector > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: the first data sector is %d but there are only %d sectors",
+			firstDataSector,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+	dataSectors := totalSectors - firstDataSector
 	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
 
 	fatVersion := DetermineFATVersion(totalClusters)
@@ -176,8 +184,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(firstDataSector),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From ceb2084d3d8e8198eb796ae4ccd1132336565587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 39/75] fix: read the correct and entire cluster from FAT
 volumes

Clusters are numbered beginning with 2.  Only one sector of each was read, from
an offset that was off by a factor of the number of sectors.
---
 file_systems/fat/driverbase.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..ba6ba04 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -35,26 +35,31 @@ type FATDriver struct {
 
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
 	bootSector := drv.fs.GetBootSector()
+	// The first two entries in the FAT are reserved, so data begins at cluster 2.
+	if cluster < 2 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("cluster 0x%x is not in the data region", cluster))
+	}
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
+	if nRead == len(buffer) {
+		// Getting the entire buffer is allowed to coincide with EOF.
+		return buffer, nil
+	} else if err != nil {
 		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
-		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
 	}
-
-	return buffer, nil
+	return nil, fmt.Errorf(
+		"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 }
 
 // readCluster returns the bytes of the `index`th cluster on the file system.
-- 
2.43.0


From 53e1d547e0f34ef8e92a6da2e1a1ab3d4157b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 40/75] fix: correct the offsets of all fields in FAT directory
 entries

Everything following the name was off by one, and the last field ran out of
bytes, causing a panic.
---
 file_systems/fat/dirent.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..9a221f8 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -3,6 +3,7 @@ package fat
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"os"
 	"strings"
 	"syscall"
@@ -225,18 +226,23 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("need %d bytes for a directory entry, got %d", DirentSize, len(data)))
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
-- 
2.43.0


From 33bf70b10a2b775b397566248d26310768e15997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 41/75] fix: convert FAT timestamps without crashing

time.Date panics if the location is nil.  The fraction of a second was computed
from the wrong field.
---
 file_systems/fat/dirent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 9a221f8..6ea5a8f 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -176,7 +176,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -193,10 +193,10 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * int(10*time.Millisecond)
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0


From 24cc127626e574a730a62e9c12c5ccdfa70c90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 42/75] fix: set the deletion timestamp in Dirent.SetDeletedAt

It tried to set the creation timestamp, which always fails for deleted files.
---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 6ea5a8f..9293719 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -163,7 +163,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
-- 
2.43.0


From 813675447e370037341638e6c681e8ffb4c59b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 43/75] fix: convert FAT attributes to valid os.FileMode flags

The file type flags used by syscall mean something else in os.FileMode, so
directories weren't recognized as such.  Read-only files were writable by their
owner.
---
 file_systems/fat/dirent.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 9293719..66a77c4 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -200,25 +200,23 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
 }
 
-// AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// AttrFlagsToFileMode converts FAT attribute flags into the equivalent
+// [os.FileMode].
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
-- 
2.43.0


From f8c07ca63d609209d20ebaa8574ce5279e1cb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 44/75] fix: don't crash on FAT directory entries with a blank
 name

---
 file_systems/fat/dirent.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 66a77c4..8e2861b 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -307,7 +307,10 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if trimmedName == "" {
+		return Dirent{}, disko.ErrFileSystemCorrupted.WithMessage(
+			"corruption detected: directory entry has an empty name")
+	} else if trimmedName[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-- 
2.43.0


From a8b4f67d4589885e9d1b4188e02b3d251be0a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 45/75] fix: recognize the end of a FAT cluster chain, and
 cyclic chains

---
 file_systems/fat/driverbase.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index ba6ba04..a9db9aa 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -78,16 +78,28 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
-	if !drv.fs.IsValidCluster(chainStart) {
+	if drv.fs.IsEndOfChain(chainStart) {
+		return []ClusterID{}, nil
+	} else if !drv.fs.IsValidCluster(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
 
 	chain := []ClusterID{}
+	visited := map[ClusterID]bool{}
 	currentCluster := chainStart
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if visited[currentCluster] {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf(
+					"cluster %d occurs twice in chain from %d, second time at index %d",
+					currentCluster,
+					chainStart,
+					i))
+		}
+		visited[currentCluster] = true
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -95,7 +107,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsEndOfChain(nextCluster) && !drv.fs.IsValidCluster(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
-- 
2.43.0


From 4e69b330ac88be8b2e6119d1bbd787080f1419d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 46/75] fix: read FAT files that don't exactly fill their
 clusters

---
 file_systems/fat/driverbase.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index a9db9aa..e67aa67 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -306,6 +306,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
+	if dirent.size == 0 {
+		// Empty files don't have any clusters.
+		return []byte{}, nil
+	}
+
 	allClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return nil, err
@@ -319,6 +324,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 	// used.
 	buffer := new(bytes.Buffer)
 	for _, clusterID := range allClusters {
+		if bytesRemaining <= 0 {
+			// There may be clusters allocated beyond the end of the file.
+			break
+		}
+
 		clusterContents, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
@@ -342,6 +352,12 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		bytesRemaining -= int64(bs.BytesPerCluster)
 	}
 
+	if bytesRemaining > 0 {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf(
+				"%q has %d bytes but only %d clusters", path, dirent.size, len(allClusters)))
+	}
+
 	return buffer.Bytes(), nil
 }
 
-- 
2.43.0


From c67d84eb4ae39efdcc383afdcfdb23aa7768ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 47/75] fix: free the clusters of the removed FAT file instead
 of others

---
 file_systems/fat/driverbase.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index e67aa67..6a321b2 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -463,6 +463,11 @@ func (drv *FATDriver) Remove(path string) error {
 		return err
 	}
 
+	if dirent.FirstCluster == 0 {
+		// The file is empty and has no clusters to release.
+		return nil
+	}
+
 	// Successfully deleted the directory entry. Now we release its clusters.
 	fileClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
@@ -473,7 +478,7 @@ func (drv *FATDriver) Remove(path string) error {
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 01899dde30c16f0cee575695b21eb86438e81429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 48/75] fix: don't crash in FATDriver.SameFile

---
 file_systems/fat/driverbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 6a321b2..782a177 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -262,10 +262,11 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft := fi1.Sys().(disko.FileStat)
+	statRight := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	// The inode number is the ID of the first cluster.
+	return statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From 4614012a86088a16da95af0e0c260d50622d0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 49/75] fix: report timestamps that FAT can't represent in
 Chtimes

---
 file_systems/fat/driverbase.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 782a177..89e0e71 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -419,8 +419,15 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From c3e928757b48fba576eded28424a3698df7fa033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 50/75] fix: read FAT directories that completely fill their
 last cluster

---
 file_systems/fat/driverbase.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 89e0e71..80cd0ec 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -221,12 +221,24 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	// We need to call a separate function for the root directory because unlike FAT 32,
+	// FAT 12/16 have fixed-size root directories that aren't actually files. Drivers must
+	// give us a list of directory entries in the root directory. References to it, such as
+	// the `..` entries of its subdirectories, always have 0 for their first cluster.
+	if directoryDirent.FirstCluster == 0 {
+		return drv.fs.ListRootDirectory()
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	allClusters, err := drv.listClusters(directoryDirent.FirstCluster)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, clusterID := range allClusters {
+		clusterData, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
 		}
@@ -240,8 +252,6 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return allDirents, nil
-- 
2.43.0


From a2729660acf6bf649c4d221193d57fafc93f4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 51/75] fix: resolve paths on FAT volumes

---
 file_systems/fat/driverbase.go | 57 +++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 80cd0ec..465eaa8 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -180,40 +181,54 @@ func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, e
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
-
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
+	if path == "" {
 		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("file path %q resolves to empty path", path))
 	}
 
-	// Get a listing for the root directory. We need to call a separate function because
-	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
-	// Drivers must give us a list of directory entries in the root directory.
-	currentDirContents, err := drv.fs.ListRootDirectory()
-	if err != nil {
-		return Dirent{}, nil
+	// The root directory doesn't have a directory entry of its own, so we need to make one
+	// up. All paths are relative to it.
+	rootMode := AttrFlagsToFileMode(AttrDirectory)
+	currentDirent := Dirent{
+		name:           "/",
+		AttributeFlags: AttrDirectory,
+		mode:           rootMode,
+		stat:           disko.FileStat{Nlinks: 1, ModeFlags: rootMode},
 	}
 
-	var currentDirent Dirent
+	cleanedPath := filepath.Clean("/" + path)
+	for _, component := range strings.Split(cleanedPath, "/") {
+		if component == "" {
+			continue
+		}
 
-	for _, component := range pathParts {
-		for _, entry := range currentDirContents {
-			if entry.name == component {
-				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
-			}
+		entry, err := drv.findInDirectory(&currentDirent, component)
+		if err != nil {
+			return Dirent{}, err
 		}
+		currentDirent = entry
 	}
 
 	return currentDirent, nil
 }
 
+// findInDirectory returns the (undeleted) entry with the given name in a directory.
+func (drv *FATDriver) findInDirectory(directoryDirent *Dirent, name string) (Dirent, error) {
+	dirContents, err := drv.readDirFromDirent(directoryDirent)
+	if err != nil {
+		return Dirent{}, err
+	}
+
+	for _, entry := range dirContents {
+		if !entry.isDeleted && entry.name == name {
+			return entry, nil
+		}
+	}
+
+	return Dirent{}, disko.ErrNotFound.WithMessage(
+		fmt.Sprintf("%q not found in directory %q", name, directoryDirent.name))
+}
+
 // readDirFromDirent returns a list of the directory entries found in directoryDirent,
 // including the `.` and `..` entries.
 func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, error) {
-- 
2.43.0


From 204baa3902c56d2f8bb32b823c6df989705c6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 52/75] fix: don't list deleted files in FAT directories

---
 file_systems/fat/driverbase.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 465eaa8..34212c6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -313,9 +313,11 @@ func (drv *FATDriver) Readdir(path string) ([]os.FileInfo, error) {
 		return nil, err
 	}
 
-	fileInfos := make([]os.FileInfo, len(dirContents))
-	for i, dir := range dirContents {
-		fileInfos[i] = dir
+	fileInfos := make([]os.FileInfo, 0, len(dirContents))
+	for _, dir := range dirContents {
+		if !dir.isDeleted {
+			fileInfos = append(fileInfos, dir)
+		}
 	}
 
 	return fileInfos, nil
-- 
2.43.0


From 3bddfb387181af9a86a39809155a0b495b52d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 53/75] fix: assemble the size of Unix V6 files in the right
 order

---
 file_systems/unixv6/dirents.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index cdcaa12..c21b775 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -123,9 +123,11 @@ func RawInodeToStat(inumber Inumber, inode RawInode) (disko.FileStat, error) {
 		return disko.FileStat{}, err
 	}
 
-	size := uint(inode.Size[0]) |
-		(uint(inode.Size[1]) << 8) |
-		(uint(inode.Size[2]) << 16)
+	// The first byte is the high byte of the size. The two after it are the low 16 bits,
+	// in the PDP-11's (little endian) byte order.
+	size := (uint(inode.Size[0]) << 16) |
+		uint(inode.Size[1]) |
+		(uint(inode.Size[2]) << 8)
 
 	blocks := size / 512
 	if size%512 != 0 {
-- 
2.43.0


From 613f9b3599759f5c9488306df66b720996dfa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 54/75] fix: report failures while looking for dangling
 symlinks in OpenFile

---
 driver/driver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 348afd8..0900e9b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -276,6 +276,8 @@ func (driver *BaseDriver) OpenFile(
 						return File{}, disko.ErrExists.WithMessage(absPath)
 					}
 					return File{}, err
+				} else if !errors.Is(linkErr, disko.ErrNotFound) {
+					return File{}, linkErr
 				}
 
 				permErr := driver.requireMountFlag(driver.mountFlags.CanInsert(), "create", absPath)
-- 
2.43.0


From d9af340d3b426110b3ee88c80348734a5326607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 55/75] fix: FAT timestamps on days without a midnight are a
 day early

---
 file_systems/fat/dirent.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 8e2861b..31b4e36 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -184,7 +184,9 @@ func DateFromInt(value uint16) time.Time {
 // datePart is required; timePart and hundredths should be 0 if they're not
 // present in the source field(s).
 func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time.Time {
-	dateDt := DateFromInt(datePart)
+	day := int(datePart & 0x001f)
+	month := time.Month((datePart >> 5) & 0x000f)
+	year := int(1980 + (datePart >> 9))
 
 	seconds := int((timePart & 0x001f) * 2)
 	if hundredths >= 100 {
@@ -196,8 +198,10 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 	hours := int(timePart >> 11)
 	nanoseconds := int(hundredths) * int(10*time.Millisecond)
 
+	// Don't build this from the date at midnight: that doesn't exist on days where daylight
+	// saving time begins at midnight.
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
+		year, month, day, hours, minutes, seconds, nanoseconds, time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the equivalent
-- 
2.43.0


From c498a55c17d08877e3b1e9cfa8bc44b3a7411294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 56/75] fix: errors derived from NewError lose its message

---
 errors.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index b4fe158..59b5cb5 100644
--- a/errors.go
+++ b/errors.go
@@ -65,13 +65,21 @@ func (e baseDiskoError) Error() string {
 	return string(e)
 }
 
+// prefix gives what the messages of errors derived from this one begin with.
+func (e baseDiskoError) prefix() string {
+	if e == rootError {
+		return ""
+	}
+	return e.Error() + ": "
+}
+
 func (e baseDiskoError) RootCause() DriverError {
 	return e
 }
 
 func (e baseDiskoError) WithMessage(message string) DriverError {
 	return customDriverError{
-		message:       message,
+		message:       e.prefix() + message,
 		originalError: e,
 	}
 }
-- 
2.43.0


From 11ee574ff50d82a52b8dd403ea883cbcf624caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 57/75] fix: CastToDriverError prepends a colon to messages

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 59b5cb5..292b836 100644
--- a/errors.go
+++ b/errors.go
@@ -86,7 +86,7 @@ func (e baseDiskoError) WithMessage(message string) DriverError {
 
 func (e baseDiskoError) Wrap(err error) DriverError {
 	return customDriverError{
-		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
+		message:       e.prefix() + err.Error(),
 		originalError: multierror.Append(e, err),
 	}
 }
-- 
2.43.0


From a7de0dcdffd97659f61eb216a9165df7c689b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 -0500
Subject: [PATCH 58/75] fix: FATDriver.Remove takes "file/." for the directory
 of the file

---
 file_systems/fat/driverbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 34212c6..84ec84b 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -484,7 +484,8 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	// The path must be cleaned first, or for "file/." this would be the file itself.
+	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(filepath.Clean("/" + path)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7daa8a7465a2504080756bce847aad64f751fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 59/75] fix: ignore type bits in the permissions of new files

OpenFile() and WriteFile() passed all of perm to CreateObject(), so a mode with
type bits created a directory or a symbolic link and the call then failed. As
in package os, only the permission bits of perm are used now.
---
 driver/driver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 0900e9b..7404db8 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -298,7 +298,7 @@ func (driver *BaseDriver) OpenFile(
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
-					perm,
+					perm&permissionBits,
 				)
 				parentObject.Close()
 
-- 
2.43.0


From f064314b09530881c3fa377df24bb95061c8cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:38 +0000
Subject: [PATCH 60/75] fix: formatting FAT8 keeps none of the old data

FormatImage() only set the size of the file, so an image that was in use before
wasn't blank afterwards. Failures to resize the file were ignored as well.
---
 file_systems/fat8/formattingdriver.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 789f59c..fd633a3 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -35,9 +35,17 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	driver.geometry = geo
 	driver.stat = newFSStat(geo, totalBlocks)
 
-	// Create a blank image filled with null bytes
+	// Create a blank image filled with null bytes. Cutting the file down to
+	// nothing first gets rid of whatever was in it.
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(0)
+	if err != nil {
+		return err
+	}
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
-- 
2.43.0


From 57acf6bfbac34dfa1387f5f11ede796bbb1f2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 61/75] fix: FAT8 names ending in a period come back as they
 were

"A." was stored with the extension "." but read back as "A..". Since the two
can't be told apart on the disk, names ending in two periods are refused.
---
 file_systems/fat8/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..b700f73 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -108,8 +108,13 @@ func FilenameToBytes(name string) ([]byte, error) {
 		if len(parts[1]) == 0 {
 			// Second part after the period is empty, which means the filename
 			// ended with a period. This is stupid, but not prohibited by the
-			// standard (I think) so we must support it.
+			// standard (I think) so we must support it. BytesToFilename() does
+			// the reverse.
 			parts[1] = "."
+		} else if parts[1] == "." {
+			message := fmt.Sprintf(
+				"filename can't end with two periods: %q", name)
+			return nil, disko.ErrInvalidArgument.WithMessage(message)
 		} else if len(parts[1]) > 3 {
 			// Extension is longer than three characters.
 			message := fmt.Sprintf(
@@ -134,7 +139,10 @@ func BytesToFilename(rawName []byte) (string, error) {
 	extension := bytes.TrimRight(rawName[6:], " ")
 
 	var name string
-	if len(extension) > 0 {
+	if string(extension) == "." {
+		// The filename ended with a period, see FilenameToBytes().
+		name = string(stem) + "."
+	} else if len(extension) > 0 {
 		name = string(stem) + "." + string(extension)
 	} else {
 		name = string(stem)
-- 
2.43.0


From dbd3d4af543351a8c8460d286e9c115309e5b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 62/75] fix: closing a file again doesn't close its handle
 again

---
 driver/file.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/driver/file.go b/driver/file.go
index f302ae7..1b0ef0c 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -91,6 +91,7 @@ type File struct {
 	objectHandle extObjectHandle
 	fileInfo     FileInfo
 	ioFlags      disko.IOFlags
+	isClosed     *bool // Copies of a file are closed together.
 
 	lastReadDirResult    []disko.DirectoryEntry
 	readDirResultPointer int
@@ -150,6 +151,7 @@ func NewFileFromObjectHandle(
 		owningDriver: driver,
 		objectHandle: object,
 		ioFlags:      ioFlags,
+		isClosed:     new(bool),
 		BasicStream:  stream,
 		fileInfo: FileInfo{
 			FileStat:     stat,
@@ -198,7 +200,15 @@ func (file *File) Chown(uid, gid int) error {
 	return disko.ErrNotSupported
 }
 
+// Close writes out all pending changes and closes the file. Closing a file again
+// does nothing and is an error, like for [os.File].
 func (file *File) Close() error {
+	if *file.isClosed {
+		return disko.ErrInvalidFileDescriptor.WithMessage(
+			"file already closed: " + file.objectHandle.AbsolutePath())
+	}
+	*file.isClosed = true
+
 	err := file.BasicStream.Close()
 	closeErr := file.objectHandle.Close()
 	if err != nil {
-- 
2.43.0


From 7d4d846c7ccb706163f2cfacae51993c22811449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 63/75] fix: '..' in symbolic links leads to the parent of what
 the link in front of it leads to

---
 driver/driver.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 7404db8..69b648c 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	posixpath "path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -84,10 +85,11 @@ func (driver *BaseDriver) resolveSymlink(
 	}
 
 	// Relative symlinks are relative to the directory they're in, not the
-	// current working directory.
+	// current working directory. This must not be normalized: what `..` leads to
+	// depends on the symlinks in front of it.
 	nextPath := filepath.ToSlash(string(symlinkText))
 	if !posixpath.IsAbs(nextPath) {
-		nextPath = posixpath.Join(posixpath.Dir(linkPath), nextPath)
+		nextPath = posixpath.Dir(linkPath) + "/" + nextPath
 	}
 
 	activeLinks[linkPath] = true
@@ -107,14 +109,15 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 }
 
 // lookUpNoFollow implements [getObjectAtPathNoFollow]. See [resolveSymlink] for
-// the meaning of `activeLinks`.
+// the meaning of `activeLinks`. Unlike there, `path` may contain `.` and `..`,
+// which lead to a directory and its parent after following all symbolic links.
 func (driver *BaseDriver) lookUpNoFollow(
 	path string,
 	activeLinks map[string]bool,
 ) (extObjectHandle, disko.DriverError) {
 	// Callers may have used path.Split(), which leaves a trailing slash on the
 	// directory part.
-	path = posixpath.Clean("/" + path)
+	path = "/" + strings.Trim(path, "/")
 	if path == "/" {
 		root := driver.implementation.GetRootDirectory()
 		return wrapObjectHandle(root, path), nil
@@ -139,6 +142,13 @@ func (driver *BaseDriver) lookUpNoFollow(
 			)
 	}
 
+	switch baseName {
+	case ".":
+		return driver.lookUpNoFollow(parentObject.AbsolutePath(), activeLinks)
+	case "..":
+		return driver.lookUpNoFollow(
+			posixpath.Dir(parentObject.AbsolutePath()), activeLinks)
+	}
 	return driver.getExtObjectInDir(baseName, parentObject)
 }
 
-- 
2.43.0


From 0af787c6f13fba8caa7155ada53eb2a894c2690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:53 +0000
Subject: [PATCH 64/75] fix: closing a file again is the same error as closing
 a handle again

---
 driver/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index 1b0ef0c..1156c09 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -204,7 +204,7 @@ func (file *File) Chown(uid, gid int) error {
 // does nothing and is an error, like for [os.File].
 func (file *File) Close() error {
 	if *file.isClosed {
-		return disko.ErrInvalidFileDescriptor.WithMessage(
+		return disko.ErrFileDescriptorBadState.WithMessage(
 			"file already closed: " + file.objectHandle.AbsolutePath())
 	}
 	*file.isClosed = true
-- 
2.43.0


From 86c3b52bec60386ddb95ec7b4ceaea9ddc3db3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:53 +0000
Subject: [PATCH 65/75] fix: allow opening directories, so that they can be
 listed

---
 driver/driver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 69b648c..65ad424 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -244,7 +244,7 @@ func (driver *BaseDriver) requireMountFlag(
 	)
 }
 
-// OpenFile opens a file for I/O.
+// OpenFile opens a file for I/O, or a directory for listing it.
 func (driver *BaseDriver) OpenFile(
 	path string,
 	flags disko.IOFlags,
@@ -326,8 +326,10 @@ func (driver *BaseDriver) OpenFile(
 		}
 	}
 
+	// Directories can be opened for listing them but nothing else.
 	stat := object.Stat()
-	if !stat.IsFile() {
+	isListable := stat.IsDir() && !ioFlags.Create() && !ioFlags.RequiresWritePerm()
+	if !stat.IsFile() && !isListable {
 		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
-- 
2.43.0


From 06660b92d6202351f079bdc1fd7b34f26ee2dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 66/75] fix: don't follow symbolic links in OpenFile with
 O_NOFOLLOW

---
 driver/driver.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 65ad424..890f470 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -257,11 +257,24 @@ func (driver *BaseDriver) OpenFile(
 	var parentObject extObjectHandle
 	var err error
 
-	object, err = driver.getObjectAtPathFollowingLink(absPath)
+	if ioFlags.NoFollow() {
+		object, err = driver.getObjectAtPathNoFollow(absPath)
+	} else {
+		object, err = driver.getObjectAtPathFollowingLink(absPath)
+	}
 	if err == nil && ioFlags.Create() && ioFlags.Exclusive() {
 		object.Close()
 		return File{}, disko.ErrExists.WithMessage(absPath)
 	}
+	if err == nil && ioFlags.NoFollow() {
+		linkStat := object.Stat()
+		if linkStat.IsSymlink() {
+			object.Close()
+			return File{}, disko.ErrLinkCycleDetected.WithMessage(
+				fmt.Sprintf("%q is a symbolic link, which must not be followed", absPath),
+			)
+		}
+	}
 	if err == nil && ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
 		object.Close()
 		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
-- 
2.43.0


From 021ce60346ec6e9e1f690f9bc58df7b8fd115226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 67/75] fix: SameFile is false for file information from
 elsewhere, instead of panicking or comparing inodes of other devices

---
 driver/driver.go               | 10 +++++++---
 file_systems/fat/driverbase.go |  9 +++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 890f470..6e5872d 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -496,10 +496,14 @@ func (driver *BaseDriver) ReadFile(path string) ([]byte, error) {
 	return driver.getContentsOfObject(object)
 }
 
+// SameFile determines if two FileInfos describe the same file. Like [os.SameFile],
+// it returns false for anything that doesn't come from a Disko driver.
 func (driver *BaseDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	stat1 := fi1.Sys().(disko.FileStat)
-	stat2 := fi2.Sys().(disko.FileStat)
-	return stat1.InodeNumber == stat2.InodeNumber
+	stat1, ok1 := fi1.Sys().(disko.FileStat)
+	stat2, ok2 := fi2.Sys().(disko.FileStat)
+	return ok1 && ok2 &&
+		stat1.DeviceID == stat2.DeviceID &&
+		stat1.InodeNumber == stat2.InodeNumber
 }
 
 func (driver *BaseDriver) Stat(path string) (disko.FileStat, error) {
diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 84ec84b..ff9cfa6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -285,13 +285,14 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 	return "", disko.ErrNotSupported
 }
 
-// SameFile determines if two FileInfos reference the same file.
+// SameFile determines if two FileInfos reference the same file. Like [os.SameFile],
+// it returns false for anything that doesn't come from a Disko driver.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	statLeft := fi1.Sys().(disko.FileStat)
-	statRight := fi2.Sys().(disko.FileStat)
+	statLeft, leftOk := fi1.Sys().(disko.FileStat)
+	statRight, rightOk := fi2.Sys().(disko.FileStat)
 
 	// The inode number is the ID of the first cluster.
-	return statLeft.InodeNumber == statRight.InodeNumber
+	return leftOk && rightOk && statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From 1f0e0733f5320a3c64b0a4fb911d7af04c109844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 68/75] fix: Type of directory entries gives only the type
 bits, as os.DirEntry requires

---
 driver/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/driver/dirent.go b/driver/dirent.go
index 6331803..b92e7b3 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -36,8 +36,9 @@ func (dirent DirectoryEntry) IsDir() bool {
 	return dirent.stat.ModeFlags.IsDir()
 }
 
+// Type returns the type bits of the mode flags, as [os.DirEntry] requires.
 func (dirent DirectoryEntry) Type() os.FileMode {
-	return dirent.stat.ModeFlags
+	return dirent.stat.ModeFlags.Type()
 }
 
 func (dirent DirectoryEntry) Info() (os.FileInfo, error) {
-- 
2.43.0


From f0f6aab2d3ca54fb76a9a9edff4197329a04c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:59 +0000
Subject: [PATCH 69/75] fix: IDs of -1 leave the owner as it is in Chown and
 Lchown, as in the os package

---
 driver/driver.go | 17 +++++++++++++++++
 driver/file.go   |  1 +
 2 files changed, 18 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 6e5872d..2c9beef 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -398,6 +398,21 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	return chmodObject.Chmod(mode & permissionBits)
 }
 
+// resolveOwner replaces IDs that are -1, which means that they aren't to be
+// changed, with the current ones of the object.
+func resolveOwner(object extObjectHandle, uid, gid int) (int, int) {
+	stat := object.Stat()
+	if uid == -1 {
+		uid = int(stat.Uid)
+	}
+	if gid == -1 {
+		gid = int(stat.Gid)
+	}
+	return uid, gid
+}
+
+// Chown changes the owner of an object. Like for [os.Chown], a `uid` or `gid` of
+// -1 means that it isn't changed.
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
 
@@ -415,6 +430,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
+	uid, gid = resolveOwner(object, uid, gid)
 	return chmownObject.Chown(uid, gid)
 }
 
@@ -438,6 +454,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
+	uid, gid = resolveOwner(object, uid, gid)
 	return chmownObject.Chown(uid, gid)
 }
 
diff --git a/driver/file.go b/driver/file.go
index 1156c09..30a7ef1 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -195,6 +195,7 @@ func (file *File) Chown(uid, gid int) error {
 	chownHandle, ok := unwrapObjectHandle(
 		file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
+		uid, gid = resolveOwner(file.objectHandle, uid, gid)
 		return chownHandle.Chown(uid, gid)
 	}
 	return disko.ErrNotSupported
-- 
2.43.0


From 4338d32d0cf8e8c8f21ed27cafbb280d0b7eb522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 -0500
Subject: [PATCH 70/75] fix: NopObjectHandle implements all of ObjectHandle and
 SupportsChtimesHandle, instead of panicking

---
 driver/nopobject.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/driver/nopobject.go b/driver/nopobject.go
index 2c34e6f..5cfa908 100644
--- a/driver/nopobject.go
+++ b/driver/nopobject.go
@@ -69,7 +69,7 @@ func (obj NopObjectHandle) Chtimes(
 	lastModified,
 	lastChanged,
 	deletedAt time.Time,
-) error {
+) disko.DriverError {
 	return disko.ErrNotImplemented
 }
 
@@ -83,6 +83,16 @@ func (obj NopObjectHandle) Name() string {
 	return ""
 }
 
+// SameAs returns false.
+func (obj NopObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return false
+}
+
+// Close does nothing.
+func (obj NopObjectHandle) Close() error {
+	return disko.ErrNotImplemented
+}
+
 // AbsolutePath returns an empty string.
 func (obj NopObjectHandle) AbsolutePath() string {
 	return ""
-- 
2.43.0


From 24c33f5d282dcd833801744bc2fc6b5d81229e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:38 +0000
Subject: [PATCH 71/75] fix: Type and Info of FAT directory entries work,
 instead of panicking

---
 file_systems/fat/dirent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 31b4e36..667cd95 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -398,4 +398,11 @@ func (d Dirent) Sys() any { return d.stat }
 
 func (d Dirent) Stat() disko.FileStat { return d.stat }
 
+// Type returns the type bits of the mode flags. It's part of the [os.DirEntry] interface.
+func (d Dirent) Type() os.FileMode { return d.mode.Type() }
+
+// Info returns the directory entry itself, since it implements [os.FileInfo]. It's part of
+// the [os.DirEntry] interface.
+func (d Dirent) Info() (os.FileInfo, error) { return d, nil }
+
 // -----------------------------------------------------------------------------
-- 
2.43.0


From b84a705b73bc4586077d49355814fa37b907c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:39 +0000
Subject: [PATCH 72/75] fix: Chmod on FAT file systems changes the read-only
 attribute and Mode of the entry too, as it does its Stat

---
 file_systems/fat/driverbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index ff9cfa6..a63448e 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -426,10 +426,13 @@ func (drv *FATDriver) Chmod(path string, mode os.FileMode) error {
 	// anything beyond that.
 	if (mode & 0b010010010) == 0 {
 		// No one has write access
+		dirent.AttributeFlags |= AttrReadOnly
 		dirent.stat.ModeFlags &= ^os.FileMode(0b010010010)
 	} else {
+		dirent.AttributeFlags &= ^AttrReadOnly
 		dirent.stat.ModeFlags |= 0b010010010
 	}
+	dirent.mode = dirent.stat.ModeFlags
 
 	return drv.fs.UpdateDirent(&dirent)
 }
-- 
2.43.0


From cf5c5cd696f21feb434da3506fcc272716f73dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:09 +0000
Subject: [PATCH 73/75] fix: the unknown creation time of deleted FAT directory
 entries is UndefinedTimestamp, not 1970

---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 667cd95..0698025 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -275,7 +275,8 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 
 	var createdAt time.Time
 	if isDeleted {
-		createdAt = time.Unix(0, 0)
+		// The field holds the first character of the name instead.
+		createdAt = disko.UndefinedTimestamp
 	} else {
 		createdAt = TimestampFromParts(
 			rawDirent.CreatedDate, rawDirent.CreatedTime, rawDirent.CreatedTimeMillis)
-- 
2.43.0


From 26255daf72609f0a7c39f363706863bc91ed2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:39 +0000
Subject: [PATCH 74/75] fix: FAT8 names of other than ASCII characters are
 refused instead of being stored in a different number of bytes

---
 file_systems/fat8/common.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index b700f73..49dedd7 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/dargueta/disko"
 )
@@ -92,6 +93,14 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage("filename must not be empty")
 	}
 
+	// Anything else takes up more than one byte.
+	for _, char := range name {
+		if char > unicode.MaxASCII {
+			return nil, disko.ErrInvalidArgument.WithMessage(
+				fmt.Sprintf("filename must consist of ASCII characters: %q", name))
+		}
+	}
+
 	parts := strings.SplitN(name, ".", 2)
 
 	// Unless we got an empty string, this will always have at least one element,
-- 
2.43.0


From 8d4ffe18eff769b74a7899c684ccf65a7a70aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:40 +0000
Subject: [PATCH 75/75] fix: BytesToFilename refuses names of other than nine
 bytes, instead of panicking for short ones

---
 file_systems/fat8/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 49dedd7..8fe535f 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -144,6 +144,11 @@ func FilenameToBytes(name string) ([]byte, error) {
 // user-friendly form.
 // TODO(dargueta): Validate binary data
 func BytesToFilename(rawName []byte) (string, error) {
+	if len(rawName) != 9 {
+		return "", disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("stored filenames have nine bytes, got %d", len(rawName)))
+	}
+
 	stem := bytes.TrimRight(rawName[:6], " ")
 	extension := bytes.TrimRight(rawName[6:], " ")
 
-- 
2.43.0

