From 6848f0ae12d891f9878b9aaa7948169dccae95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/33] fix: a second failing request crashed the block source

---
 blocksources/helpers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocksources/helpers.go b/blocksources/helpers.go
index 204c484..100fea2 100644
--- a/blocksources/helpers.go
+++ b/blocksources/helpers.go
@@ -12,12 +12,16 @@ import (
 type errorWatcher struct {
 	errorChannel chan error
 	lastError    error
+	hasFailed    bool
 }
 
+// setError keeps the first error only: requests that are in flight
+// when the first one fails may go on to fail too
 func (w *errorWatcher) setError(e error) {
-	if w.lastError != nil {
-		panic("cannot set a new error when one is already set!")
+	if w.hasFailed {
+		return
 	}
+	w.hasFailed = true
 	w.lastError = e
 }
 
-- 
2.43.0


From 8d25eb9f64058201c58d6987c8815f272fd4e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 02/33] fix: a block source kept starting requests after a
 failure or Close

---
 blocksources/blocksourcebase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index 95e236a..d102f8a 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -154,7 +154,7 @@ func (s *BlockSourceBase) loop() {
 	for state == STATE_RUNNING || inflightRequests > 0 || pendingErrors.Err() != nil {
 
 		// Start any pending work that we can
-		for inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
+		for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests && len(requestQueue) > 0 {
 			inflightRequests += 1
 
 			nextRequest := requestQueue[len(requestQueue)-1]
-- 
2.43.0


From 1255c54245464e3daf8b73217047c7f417eb3ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 03/33] fix: a block source lost a response when a lower block
 was requested while it was pending

---
 blocksources/blocksourcebase.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index d102f8a..ffd7f10 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -161,6 +161,12 @@ func (s *BlockSourceBase) loop() {
 
 			requestOrdering = append(requestOrdering, nextRequest.StartBlockID)
 			sort.Sort(sort.Reverse(requestOrdering))
+
+			// a response that waits for delivery must not overtake a lower request
+			if nextRequest.StartBlockID < pendingResponse.Response().StartBlock {
+				pendingResponse.clear()
+			}
+
 			go func() {
 				resolver := s.BlockSourceResolver
 
-- 
2.43.0


From 1d50ec4b7cc0ebea29c45bc4a4e37d999f0368bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 04/33] fix: requesting blocks from a closed block source
 crashed

---
 blocksources/blocksourcebase.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blocksources/blocksourcebase.go b/blocksources/blocksourcebase.go
index ffd7f10..24535e3 100644
--- a/blocksources/blocksourcebase.go
+++ b/blocksources/blocksourcebase.go
@@ -96,7 +96,14 @@ func (s *BlockSourceBase) ReadBytes() int64 {
 	return s.bytesRequested
 }
 
-func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) error {
+func (s *BlockSourceBase) RequestBlocks(block patcher.MissingBlockSpan) (err error) {
+	// the request channel is closed when the block source ends
+	defer func() {
+		if recover() != nil {
+			err = BlockSourceAlreadyClosedError
+		}
+	}()
+
 	s.requestChannel <- block
 	return nil
 }
-- 
2.43.0


From e5b07a17fbbee137c18eea078a9b702cc874be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 05/33] fix: a circular buffer write that wraps around stored
 the wrong bytes

---
 circularbuffer/noalloc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circularbuffer/noalloc.go b/circularbuffer/noalloc.go
index 0449739..6efa879 100644
--- a/circularbuffer/noalloc.go
+++ b/circularbuffer/noalloc.go
@@ -156,7 +156,7 @@ func (buff *doubleSizeBuffer) Write(by []byte) {
 
 		copy(
 			buff.buffer[buff.head:buff.head+writeThisTime], // to
-			by,
+			remaining,
 		)
 
 		buff.head += writeThisTime
-- 
2.43.0


From fc07df4301bfe0663b403b77c11d8b740085ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 06/33] fix: a scan read the next block into the memory of its
 window buffer

---
 comparer/comparer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index b793818..5e274b3 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -134,10 +134,9 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		if weakMatchList := reference.FindWeakChecksum2(weaksum); weakMatchList != nil {
 			atomic.AddInt64(&c.WeakHashHits, 1)
 
-			block = blockMemory.GetBlock()
-
+			// not kept: this is the buffer's own memory, which is overwritten
 			strong.Reset()
-			strong.Write(block)
+			strong.Write(blockMemory.GetBlock())
 			strongSum = strong.Sum(strongSum)
 			strongList := reference.FindStrongChecksum2(strongSum, weakMatchList)
 
-- 
2.43.0


From 2e6b88df75d0f1e00e1180b5853fa2f9e61eb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 07/33] fix: a scan with a block size of one compared a stale
 block

---
 comparer/comparer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 5e274b3..9f679e0 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -180,8 +180,8 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 
 		if uint(n) == generator.BlockSize {
-			generator.WeakRollingHash.SetBlock(block)
-			blockMemory.Write(block)
+			generator.WeakRollingHash.SetBlock(readBytes)
+			blockMemory.Write(readBytes)
 			i += int64(n)
 		} else if n > 0 {
 			b_len := blockMemory.Len()
-- 
2.43.0


From 985ad457ec5296a936d1b7c39934af4faa03758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 08/33] fix: a scan hung on a read error, or took it for the
 end of the data

Also compares the last window when the reader returns its last byte
together with io.EOF.
---
 comparer/comparer.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/comparer/comparer.go b/comparer/comparer.go
index 9f679e0..343c07e 100644
--- a/comparer/comparer.go
+++ b/comparer/comparer.go
@@ -102,7 +102,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		}
 	}
 
-	_, err = io.ReadFull(comparison, block)
+	_, err = readUntilFull(comparison, block)
 
 	if err != nil {
 		ReportErr(
@@ -171,14 +171,18 @@ func (c *Comparer) startFindMatchingBlocks_int(
 
 		switch next {
 		case READ_NEXT_BYTE:
-			n, err = comparison.Read(singleByte)
-			readBytes = singleByte
+			n, err = readUntilFull(comparison, singleByte)
+			readBytes = singleByte[:n]
 		case READ_NEXT_BLOCK:
-			n, err = io.ReadFull(comparison, block)
+			n, err = readUntilFull(comparison, block)
 			readBytes = block[:n]
 			next = READ_NEXT_BYTE
 		}
 
+		if err != nil && err != io.EOF {
+			break
+		}
+
 		if uint(n) == generator.BlockSize {
 			generator.WeakRollingHash.SetBlock(readBytes)
 			blockMemory.Write(readBytes)
@@ -194,8 +198,7 @@ func (c *Comparer) startFindMatchingBlocks_int(
 			i += int64(n)
 		}
 
-		if next != READ_NONE && (err == io.EOF || err == io.ErrUnexpectedEOF) {
-			err = io.EOF
+		if next != READ_NONE && err == io.EOF {
 			next = READ_NONE
 		}
 
@@ -216,3 +219,20 @@ func (c *Comparer) startFindMatchingBlocks_int(
 		return
 	}
 }
+
+// Reads until buffer is full or the reader returns an error. Unlike io.ReadFull,
+// the error is always the one of the reader
+func readUntilFull(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	// an end with the last bytes is seen again, another error might not be
+	if n == len(buffer) && err == io.EOF {
+		err = nil
+	}
+
+	return
+}
-- 
2.43.0


From 2db4fa4a6c7eb3d28ed3fb054ad63298cc1bf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 09/33] fix: a verifier rejected good blocks after a bad one,
 and accepted any after an unknown one

---
 filechecksum/verifier.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filechecksum/verifier.go b/filechecksum/verifier.go
index 9d604a5..ab78f77 100644
--- a/filechecksum/verifier.go
+++ b/filechecksum/verifier.go
@@ -30,18 +30,18 @@ func (v *HashVerifier) VerifyBlockRange(startBlockID uint, data []byte) bool {
 			int(startBlockID) + i,
 		)
 
+		// not known, which says nothing about the other blocks
 		if expectedChecksum == nil {
-			return true
+			continue
 		}
 
+		v.Hash.Reset()
 		v.Hash.Write(blockData)
 		hashedData := v.Hash.Sum(nil)
 
 		if bytes.Compare(expectedChecksum, hashedData) != 0 {
 			return false
 		}
-
-		v.Hash.Reset()
 	}
 
 	return true
-- 
2.43.0


From cf31d8282f475c7570e80bb71da6c7d41af166de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 10/33] fix: the sequential patcher ignored failed seeks and
 requests, and blocks cut short

---
 patcher/sequential/sequential.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/patcher/sequential/sequential.go b/patcher/sequential/sequential.go
index b8a3018..5e57569 100644
--- a/patcher/sequential/sequential.go
+++ b/patcher/sequential/sequential.go
@@ -57,10 +57,20 @@ func SequentialPatcher(
 			firstMatched := locallyAvailableBlocks[0]
 
 			// we have the current block range in the local file
-			localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION)
+			if _, err := localFile.Seek(firstMatched.MatchOffset, ABSOLUTE_POSITION); err != nil {
+				return fmt.Errorf("Could not seek to %v in the local file: %v", firstMatched.MatchOffset, err)
+			}
+
 			blockSizeToRead := int64(firstMatched.EndBlock-firstMatched.StartBlock+1) * firstMatched.BlockSize
 
-			if _, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead)); err != nil {
+			copied, err := io.Copy(output, io.LimitReader(localFile, blockSizeToRead))
+
+			// only the last block may be shorter
+			if err == nil && copied < blockSizeToRead && firstMatched.EndBlock < maxBlock {
+				err = io.ErrUnexpectedEOF
+			}
+
+			if err != nil {
 				return fmt.Errorf("Could not copy %v bytes to output: %v", blockSizeToRead, err)
 			}
 
@@ -69,7 +79,9 @@ func SequentialPatcher(
 
 		} else if withinFirstBlockOfRemoteBlocks(currentBlock, requiredRemoteBlocks) {
 			firstMissing := requiredRemoteBlocks[0]
-			reference.RequestBlocks(firstMissing)
+			if err := reference.RequestBlocks(firstMissing); err != nil {
+				return fmt.Errorf("Could not request blocks from the reference: %v", err)
+			}
 
 			select {
 			case result := <-reference.GetResultChannel():
@@ -86,7 +98,10 @@ func SequentialPatcher(
 							firstMissing.BlockSize,
 						)
 
-						if completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
+						// only the last block may be shorter
+						partial := int64(len(result.Data))%firstMissing.BlockSize != 0 && firstMissing.EndBlock < maxBlock
+
+						if partial || completed != (firstMissing.EndBlock-firstMissing.StartBlock) + 1 {
 							return fmt.Errorf(
 								"Unexpected reponse length from remote source: blocks %v-%v (got %v blocks)", 
 								firstMissing.StartBlock,
-- 
2.43.0


From bea8459886f5235ef123bc899c6bb64039452875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 11/33] fix: patching to an empty file requested every block

---
 rsync.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsync.go b/rsync.go
index 59db7c1..4f8ef56 100644
--- a/rsync.go
+++ b/rsync.go
@@ -171,6 +171,12 @@ func MakeRSync(
 func (rsync *RSync) Patch() (err error) {
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
+
+	// nothing to assemble
+	if rsync.Summary.GetBlockCount() == 0 {
+		return nil
+	}
+
 	sectionSize := rsync.Summary.GetFileSize() / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
-- 
2.43.0


From 427b610e64825f29ced361e0f062215c5c659c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 12/33] fix: a found last block shorter than the others was
 copied as a full block

---
 rsync.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 4f8ef56..a201599 100644
--- a/rsync.go
+++ b/rsync.go
@@ -210,7 +210,11 @@ func (rsync *RSync) Patch() (err error) {
 		rsync.Input,
 		rsync.Source,
 		toPatcherMissingSpan(missing, int64(blockSize)),
-		toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+		splitShortBlock(
+			toPatcherFoundSpan(mergedBlocks, int64(blockSize)),
+			rsync.Summary.GetBlockCount()-1,
+			rsync.Summary.GetFileSize()%int64(blockSize),
+		),
 		20*megabyte,
 		rsync.Output,
 	)
@@ -340,6 +344,38 @@ func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.Fo
 	return result
 }
 
+// splitShortBlock gives the last block of the file, if it was found and is
+// shorter than the others, a span of its own with its actual size
+func splitShortBlock(
+	spans []patcher.FoundBlockSpan,
+	lastBlock uint,
+	size int64,
+) []patcher.FoundBlockSpan {
+	if len(spans) == 0 || size == 0 {
+		return spans
+	}
+
+	last := &spans[len(spans)-1]
+
+	if last.EndBlock != lastBlock {
+		return spans
+	}
+
+	if last.StartBlock == lastBlock {
+		last.BlockSize = size
+		return spans
+	}
+
+	last.EndBlock = lastBlock - 1
+
+	return append(spans, patcher.FoundBlockSpan{
+		StartBlock:  lastBlock,
+		EndBlock:    lastBlock,
+		BlockSize:   size,
+		MatchOffset: last.MatchOffset + int64(lastBlock-last.StartBlock)*last.BlockSize,
+	})
+}
+
 func toPatcherMissingSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.MissingBlockSpan {
 	result := make([]patcher.MissingBlockSpan, len(sl))
 
-- 
2.43.0


From 7cb46dfb19464014cccd6b9e73326db23dfff853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 13/33] fix: a patch searched only as much of the local file as
 the reference is long

---
 rsync.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index a201599..4a5e56e 100644
--- a/rsync.go
+++ b/rsync.go
@@ -177,7 +177,14 @@ func (rsync *RSync) Patch() (err error) {
 		return nil
 	}
 
-	sectionSize := rsync.Summary.GetFileSize() / numMatchers
+	// the sections cover all of the local file
+	localSize, err := rsync.Input.Seek(0, io.SeekEnd)
+
+	if err != nil {
+		return err
+	}
+
+	sectionSize := localSize / numMatchers
 	sectionSize += int64(blockSize) - (sectionSize % int64(blockSize))
 
 	merger := &comparer.MatchMerger{}
-- 
2.43.0


From 321df4657a18a4ea8e43c2b5ef0d016edacc09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 14/33] fix: checksum generation took a failed read or
 compression for success

---
 filechecksum/filechecksum.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 4f69701..7550718 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -167,16 +167,23 @@ func (check *FileChecksumGenerator) generate(
 
 	i := uint(0)
 	for {
-		n, err := io.ReadFull(inputFile, buffer)
+		n, err := readUntilFull(inputFile, buffer)
 		section := buffer[:n]
 
+		if err != nil && err != io.EOF {
+			resultChan <- ChecksumResults{
+				Err: err,
+			}
+			return
+		}
+
 		if n == 0 {
 			break
 		}
 
 		// As hashes, the assumption is that they never error
-		// additionally, we assume that the only reason not
-		// to write a full block would be reaching the end of the file
+		// additionally, the only reason not to write a full block
+		// is reaching the end of the file
 		fullChecksum.Write(section)
 		check.WeakRollingHash.SetBlock(section)
 		strongHash.Write(section)
@@ -190,7 +197,15 @@ func (check *FileChecksumGenerator) generate(
 		blockSize := int64(check.BlockSize)
 
 		if compressionFunction != nil {
-			blockSize, err = compressionFunction(section)
+			var compressionErr error
+			blockSize, compressionErr = compressionFunction(section)
+
+			if compressionErr != nil {
+				resultChan <- ChecksumResults{
+					Err: compressionErr,
+				}
+				return
+			}
 		}
 
 		results = append(
@@ -235,3 +250,15 @@ func (check *FileChecksumGenerator) generate(
 
 	return
 }
+
+// Reads until buffer is full or the reader returns an error. Unlike io.ReadFull,
+// the error is always the one of the reader
+func readUntilFull(r io.Reader, buffer []byte) (n int, err error) {
+	for n < len(buffer) && err == nil {
+		var read int
+		read, err = r.Read(buffer[n:])
+		n += read
+	}
+
+	return
+}
-- 
2.43.0


From 5c823f2ddb0a6811e284af20da9fa91f68a51eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 15/33] fix: checksum generation ignored failed writes

---
 filechecksum/filechecksum.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index 7550718..a1c2294 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -102,6 +102,11 @@ func (check *FileChecksumGenerator) GetStrongHash() hash.Hash {
 // a number of other places.
 func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, output io.Writer) (fileChecksum []byte, err error) {
 	for chunkResult := range check.StartChecksumGeneration(inputFile, 64, nil) {
+		// after a failed write, only wait for the generation to end
+		if err != nil {
+			continue
+		}
+
 		if chunkResult.Err != nil {
 			return nil, chunkResult.Err
 		} else if chunkResult.Filechecksum != nil {
@@ -109,12 +114,16 @@ func (check *FileChecksumGenerator) GenerateChecksums(inputFile io.Reader, outpu
 		}
 
 		for _, chunk := range chunkResult.Checksums {
-			output.Write(chunk.WeakChecksum)
-			output.Write(chunk.StrongChecksum)
+			if _, err = output.Write(chunk.WeakChecksum); err != nil {
+				break
+			}
+			if _, err = output.Write(chunk.StrongChecksum); err != nil {
+				break
+			}
 		}
 	}
 
-	return nil, nil
+	return nil, err
 }
 
 type ChecksumResults struct {
-- 
2.43.0


From aa845aef7778df4903ac9b1fa19b7d82164c1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 16/33] fix: a generator reused after its last result was reset
 in the middle

---
 filechecksum/filechecksum.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/filechecksum/filechecksum.go b/filechecksum/filechecksum.go
index a1c2294..7432f61 100644
--- a/filechecksum/filechecksum.go
+++ b/filechecksum/filechecksum.go
@@ -167,10 +167,14 @@ func (check *FileChecksumGenerator) generate(
 	strongHash.Reset()
 	fullChecksum.Reset()
 
-	// We reset the hashes when done do we can reuse the generator
-	defer check.WeakRollingHash.Reset()
-	defer strongHash.Reset()
-	defer fullChecksum.Reset()
+	// We reset the hashes when done so we can reuse the generator, which
+	// can happen as soon as the last result is received
+	sendLast := func(result ChecksumResults) {
+		fullChecksum.Reset()
+		strongHash.Reset()
+		check.WeakRollingHash.Reset()
+		resultChan <- result
+	}
 
 	results := make([]chunks.ChunkChecksum, 0, blocksPerResult)
 
@@ -180,9 +184,9 @@ func (check *FileChecksumGenerator) generate(
 		section := buffer[:n]
 
 		if err != nil && err != io.EOF {
-			resultChan <- ChecksumResults{
+			sendLast(ChecksumResults{
 				Err: err,
-			}
+			})
 			return
 		}
 
@@ -210,9 +214,9 @@ func (check *FileChecksumGenerator) generate(
 			blockSize, compressionErr = compressionFunction(section)
 
 			if compressionErr != nil {
-				resultChan <- ChecksumResults{
+				sendLast(ChecksumResults{
 					Err: compressionErr,
-				}
+				})
 				return
 			}
 		}
@@ -253,9 +257,9 @@ func (check *FileChecksumGenerator) generate(
 		}
 	}
 
-	resultChan <- ChecksumResults{
+	sendLast(ChecksumResults{
 		Filechecksum: fullChecksum.Sum(nil),
-	}
+	})
 
 	return
 }
-- 
2.43.0


From a9f9bf74530cbd9502cf2c56872cbf00c3ea8410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 17/33] fix: gzip encoding announced in upper case or by a
 second header was not noticed

---
 blocksources/httpblocksource.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocksources/httpblocksource.go b/blocksources/httpblocksource.go
index 0e93278..940836a 100644
--- a/blocksources/httpblocksource.go
+++ b/blocksources/httpblocksource.go
@@ -73,7 +73,7 @@ func (r *HttpRequester) DoRequest(startOffset int64, endOffset int64) (data []by
 	} else if rangedResponse.StatusCode != 206 {
 		return nil, RangedRequestNotSupportedError
 	} else if strings.Contains(
-		rangedResponse.Header.Get("Content-Encoding"),
+		strings.ToLower(strings.Join(rangedResponse.Header["Content-Encoding"], ",")),
 		"gzip",
 	) {
 		return nil, ResponseFromServerWasGZiped
-- 
2.43.0


From 73d78043dcc6d43abee10e3fd4d80411b55d77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 18/33] fix: an empty read ended a uniform reader early

---
 util/readers/uniformreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/readers/uniformreader.go b/util/readers/uniformreader.go
index e6045da..85140c5 100644
--- a/util/readers/uniformreader.go
+++ b/util/readers/uniformreader.go
@@ -20,7 +20,7 @@ func (r *uniformReader) Read(p []byte) (n int, err error) {
 		read = readable
 	}
 
-	if read == 0 {
+	if readable <= 0 {
 		return 0, io.EOF
 	}
 
-- 
2.43.0


From 9f32291288335972e9205840e97f2d6248eda958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 19/33] fix: a patched file kept the end of a longer file that
 was there before

---
 rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsync.go b/rsync.go
index 4a5e56e..ebd9d28 100644
--- a/rsync.go
+++ b/rsync.go
@@ -232,7 +232,7 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 		return os.Create(filename)
 	}
 
-	return os.OpenFile(filename, os.O_WRONLY, 0)
+	return os.OpenFile(filename, os.O_WRONLY|os.O_TRUNC, 0)
 }
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
-- 
2.43.0


From fee48ee436a68a700948b84a977b9520c8eacb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 20/33] fix: creating a session crashed when no temporary file
 could be created

---
 rsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsync.go b/rsync.go
index ebd9d28..59319d9 100644
--- a/rsync.go
+++ b/rsync.go
@@ -237,6 +237,11 @@ func getOutFile(filename string) (f io.WriteCloser, err error) {
 
 func getTempFile() (f io.WriteCloser, filename string, err error) {
 	ft, err := ioutil.TempFile(".", "tmp_")
+
+	if err != nil {
+		return nil, "", err
+	}
+
 	filename = ft.Name()
 	f = ft
 	return
-- 
2.43.0


From a42a44d3cccfdadfb0901d48ae7816c934464f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 21/33] fix: errors of closing replaced the error of copying
 the result, or were lost

---
 rsync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 59319d9..451d619 100644
--- a/rsync.go
+++ b/rsync.go
@@ -320,7 +320,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := from.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
@@ -333,7 +333,7 @@ func (f *fileCopyCloser) Close() (err error) {
 
 	defer func() {
 		e := to.Close()
-		if err != nil {
+		if err == nil {
 			err = e
 		}
 	}()
-- 
2.43.0


From f50aaa36114b55e36a1a901912043740eba6b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 22/33] fix: the temporary file of a session was never removed

---
 rsync.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index 451d619..fcd1560 100644
--- a/rsync.go
+++ b/rsync.go
@@ -339,8 +339,12 @@ func (f *fileCopyCloser) Close() (err error) {
 	}()
 
 	bufferedReader := bufio.NewReaderSize(from, megabyte)
-	_, err = io.Copy(to, bufferedReader)
-	return
+
+	if _, err = io.Copy(to, bufferedReader); err != nil {
+		return err
+	}
+
+	return os.Remove(f.from)
 }
 
 func toPatcherFoundSpan(sl comparer.BlockSpanList, blockSize int64) []patcher.FoundBlockSpan {
-- 
2.43.0


From 17a89d68cdd7582ef7822c1e661979b569aa6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 23/33] fix: closing a session whose patch failed or never ran
 overwrote the local file

---
 rsync.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rsync.go b/rsync.go
index fcd1560..0a2cae0 100644
--- a/rsync.go
+++ b/rsync.go
@@ -48,6 +48,9 @@ type RSync struct {
 	Summary FileSummary
 
 	OnClose []closer
+
+	// the last Patch succeeded, the output is complete
+	patched bool
 }
 
 type closer interface {
@@ -120,8 +123,9 @@ func MakeRSync(
 		}
 
 		copier = &fileCopyCloser{
-			from: outFilename,
-			to:   OutFile,
+			from:     outFilename,
+			to:       OutFile,
+			complete: func() bool { return r.patched },
 		}
 	} else {
 		out, err = getOutFile(OutFile)
@@ -169,6 +173,8 @@ func MakeRSync(
 
 // Patch the files
 func (rsync *RSync) Patch() (err error) {
+	defer func() { rsync.patched = err == nil }()
+
 	numMatchers := int64(DefaultConcurrency)
 	blockSize := rsync.Summary.GetBlockSize()
 
@@ -309,9 +315,16 @@ func (n nullCloser) Close() error {
 type fileCopyCloser struct {
 	from string
 	to   string
+
+	// whether there is something to copy
+	complete func() bool
 }
 
 func (f *fileCopyCloser) Close() (err error) {
+	if !f.complete() {
+		return os.Remove(f.from)
+	}
+
 	from, err := os.OpenFile(f.from, os.O_RDONLY, 0)
 
 	if err != nil {
-- 
2.43.0


From 251f4b79cd4f639dbc5af6388c1c096124ad2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 24/33] fix: patching went on with an index that could not be
 read

---
 cmd/gosync/patch.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 448e689..4f54b8a 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -70,11 +70,19 @@ func Patch(c *cli.Context) error {
 			majorVersion,
 		)
 
+		if e != nil {
+			return e
+		}
+
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
 		)
 
+		if err != nil {
+			return err
+		}
+
 		fs := &gosync_main.BasicSummary{
 			ChecksumIndex:  index,
 			ChecksumLookup: checksumLookup,
-- 
2.43.0


From 10a630bd66d165d062b5213eebdd7371f53eeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 25/33] fix: the exit status did not tell of errors returned by
 a command

---
 cmd/gosync/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/main.go b/cmd/gosync/main.go
index 4ff5578..c7aa6f6 100644
--- a/cmd/gosync/main.go
+++ b/cmd/gosync/main.go
@@ -61,5 +61,8 @@ func main() {
 		return nil
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From f98f9c38e1f5ee4c804ffc3bfe64c8b6c78f4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 26/33] fix: an index without all of its blocks, or with
 unusable sizes, was accepted

---
 cmd/gosync/common.go | 26 +++++++++++++++++++++++++-
 cmd/gosync/diff.go   |  4 ++--
 cmd/gosync/patch.go  |  1 +
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 8203952..12b38ad 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -205,10 +205,21 @@ func readHeadersAndCheck(
 	}
 
 	err = binary.Read(r, binary.LittleEndian, &blocksize)
+	if err != nil {
+		return
+	}
+
+	if filesize < 0 || blocksize == 0 {
+		err = fmt.Errorf(
+			"The gosync file is damaged (file size %v, block size %v)",
+			filesize, blocksize,
+		)
+	}
+
 	return
 }
 
-func readIndex(r io.Reader, blocksize uint) (
+func readIndex(r io.Reader, blocksize uint, filesize int64) (
 	i *index.ChecksumIndex,
 	checksumLookup filechecksum.ChecksumLookup,
 	blockCount uint,
@@ -228,6 +239,19 @@ func readIndex(r io.Reader, blocksize uint) (
 		return
 	}
 
+	expected := filesize / int64(blocksize)
+	if filesize%int64(blocksize) != 0 {
+		expected++
+	}
+
+	if int64(len(readChunks)) != expected {
+		err = fmt.Errorf(
+			"The gosync file has %v blocks instead of %v",
+			len(readChunks), expected,
+		)
+		return
+	}
+
 	checksumLookup = chunks.StrongChecksumGetter(readChunks)
 	i = index.MakeChecksumIndex(readChunks)
 	blockCount = uint(len(readChunks))
diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index 0d35f77..fb00588 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -51,7 +51,7 @@ func Diff(c *cli.Context) error {
 
 	defer referenceFile.Close()
 
-	_, _, _, _, blocksize, e := readHeadersAndCheck(
+	_, _, _, filesize, blocksize, e := readHeadersAndCheck(
 		referenceFile,
 		magicString,
 		majorVersion,
@@ -64,7 +64,7 @@ func Diff(c *cli.Context) error {
 
 	fmt.Println("Blocksize: ", blocksize)
 
-	index, _, _, err := readIndex(referenceFile, uint(blocksize))
+	index, _, _, err := readIndex(referenceFile, uint(blocksize), filesize)
 	referenceFile.Close()
 
 	if err != nil {
diff --git a/cmd/gosync/patch.go b/cmd/gosync/patch.go
index 4f54b8a..72a92e8 100644
--- a/cmd/gosync/patch.go
+++ b/cmd/gosync/patch.go
@@ -77,6 +77,7 @@ func Patch(c *cli.Context) error {
 		index, checksumLookup, blockCount, err := readIndex(
 			indexReader,
 			uint(blocksize),
+			filesize,
 		)
 
 		if err != nil {
-- 
2.43.0


From 32566eed60de71daa9983d522bca2f69602ba6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 27/33] fix: the sections of a comparison did not overlap and
 missed the end of the file

---
 cmd/gosync/common.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 12b38ad..692831d 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -278,12 +278,8 @@ func multithreadedMatching(
 		offset := sectionSize * i
 
 		// Sections must overlap by blocksize (strictly blocksize - 1?)
-		if i > 0 {
-			offset -= int64(blocksize)
-		}
-
 		sectionReader := bufio.NewReaderSize(
-			io.NewSectionReader(localFile, offset, sectionSize),
+			io.NewSectionReader(localFile, offset, sectionSize+int64(blocksize)),
 			MB,
 		)
 
-- 
2.43.0


From 3ca19e4c58f87c3afb9a4e2b829fa0a1b2f3a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 28/33] fix: comparing with the index of an empty file reported
 missing blocks

---
 cmd/gosync/diff.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/gosync/diff.go b/cmd/gosync/diff.go
index fb00588..77ef788 100644
--- a/cmd/gosync/diff.go
+++ b/cmd/gosync/diff.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"time"
 
+	"github.com/Redundancy/go-sync/comparer"
 	"github.com/urfave/cli/v2"
 )
 
@@ -131,7 +132,10 @@ func Diff(c *cli.Context) error {
 
 	// TODO: GetMissingBlocks uses the highest index, not the count, this can be pretty confusing
 	// Should clean up this interface to avoid that
-	missing := mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
+	var missing comparer.BlockSpanList
+	if index.BlockCount > 0 {
+		missing = mergedBlocks.GetMissingBlocks(uint(index.BlockCount) - 1)
+	}
 	fmt.Println("Index blocks:", index.BlockCount)
 
 	totalMissingSize := uint64(0)
-- 
2.43.0


From 371fedadd79bcc93df7024214d2adc3c275a2e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 29/33] fix: an index could be built with a block size that
 cannot be used

---
 cmd/gosync/build.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 9051435..2cae5c1 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"time"
@@ -31,6 +32,12 @@ func init() {
 
 func Build(c *cli.Context) error {
 	filename := c.Args().Get(0)
+
+	if b := int64(c.Int("blocksize")); b <= 0 || b > math.MaxUint32 {
+		fmt.Fprintf(os.Stderr, "Invalid block size: %v\n", b)
+		os.Exit(1)
+	}
+
 	blocksize := uint32(c.Int("blocksize"))
 	generator := filechecksum.NewFileChecksumGenerator(uint(blocksize))
 	inputFile, err := os.Open(filename)
-- 
2.43.0


From 235e785aa333236ff2c562c979b0717179a17fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 30/33] fix: building the index of a .gosync file destroyed the
 file

---
 cmd/gosync/build.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/gosync/build.go b/cmd/gosync/build.go
index 2cae5c1..5483fd3 100644
--- a/cmd/gosync/build.go
+++ b/cmd/gosync/build.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"time"
 
+	gosync_main "github.com/Redundancy/go-sync"
 	"github.com/Redundancy/go-sync/filechecksum"
 	"github.com/urfave/cli/v2"
 )
@@ -61,6 +62,17 @@ func Build(c *cli.Context) error {
 
 	ext := filepath.Ext(filename)
 	outfilePath := filename[:len(filename)-len(ext)] + ".gosync"
+
+	if same, err := gosync_main.IsSameFile(filename, outfilePath); err != nil || same {
+		fmt.Fprintf(
+			os.Stderr,
+			"The index of %v would overwrite it (%v)\n",
+			filename,
+			outfilePath,
+		)
+		os.Exit(1)
+	}
+
 	outputFile, err := os.Create(outfilePath)
 
 	if err != nil {
-- 
2.43.0


From 3424b151502354722319530a9b6f52b934bb9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:34 +0000
Subject: [PATCH 31/33] fix: a session whose output could not be opened kept
 its input file open

---
 rsync.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsync.go b/rsync.go
index 0a2cae0..e2b1b53 100644
--- a/rsync.go
+++ b/rsync.go
@@ -111,6 +111,12 @@ func MakeRSync(
 		return
 	}
 
+	defer func() {
+		if err != nil {
+			inputFile.Close()
+		}
+	}()
+
 	var out io.WriteCloser
 	var outFilename = OutFile
 	var copier closer
-- 
2.43.0


From bf0889c196a70d1be54d4e2a2c17725218f5bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:34 +0000
Subject: [PATCH 32/33] fix: closing a session left its block source running

---
 rsync.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rsync.go b/rsync.go
index e2b1b53..19b2069 100644
--- a/rsync.go
+++ b/rsync.go
@@ -168,6 +168,7 @@ func MakeRSync(
 		Source:  source,
 		Summary: Summary,
 		OnClose: []closer{
+			&sourceCloser{source},
 			&fileCloser{inputFile, InputFile},
 			&fileCloser{out, outFilename},
 			copier,
@@ -312,6 +313,19 @@ func (f *fileCloser) Close() error {
 	return nil
 }
 
+type sourceCloser struct {
+	source closer
+}
+
+// Close - end the block source, unless it has ended by itself
+func (s *sourceCloser) Close() error {
+	err := s.source.Close()
+	if err == blocksources.BlockSourceAlreadyClosedError {
+		return nil
+	}
+	return err
+}
+
 type nullCloser struct{}
 
 func (n nullCloser) Close() error {
-- 
2.43.0


From bb73d4bc92807f4b493c8619da59d60bae1fe29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:57 +0000
Subject: [PATCH 33/33] fix: an index that arrives bit by bit was refused

The magic string was read with a single Read, which may return fewer bytes
(a pipe, for example).
---
 cmd/gosync/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosync/common.go b/cmd/gosync/common.go
index 692831d..926ed8c 100644
--- a/cmd/gosync/common.go
+++ b/cmd/gosync/common.go
@@ -173,7 +173,7 @@ func readHeadersAndCheck(
 ) {
 	b := make([]byte, len(magicString))
 
-	if _, err = r.Read(b); err != nil {
+	if _, err = io.ReadFull(r, b); err != nil {
 		return
 	} else if string(b) != magicString {
 		err = errors.New(
-- 
2.43.0

