BS='blocksources/blocksourcebase.go'
M=[
('c1-nosingle-verify',[(BS,'if s.Verifier != nil && !s.Verifier','if s.Verifier != nil && !(s.ConcurrentRequests == 1 && inflightRequests == 0 && len(requestQueue) > 2) && !s.Verifier')],'C10'),
('cap-dups-1000',[('comparer/comparer.go','			for _, strongMatch := range strongList {','			for k, strongMatch := range strongList {\n				if k >= 1000 {\n					break\n				}')],'C04'),
('lstat-out',[('rsync.go','''	if _, err = os.Stat(filename); os.IsNotExist(err) {''','''	if _, err = os.Lstat(filename); os.IsNotExist(err) {''')],'C19'),
('remove-out',[('rsync.go','''	if _, err = os.Stat(filename); os.IsNotExist(err) {''','''	if _, err = os.Stat(filename); err == nil && os.Remove(filename) == nil || os.IsNotExist(err) {''')],'C19'),
('index-sorts-input',[('index/index.go','''	sum := 0
	count := 0
''','''	sort.Slice(checksums, func(i, j int) bool { return bytes.Compare(checksums[i].WeakChecksum, checksums[j].WeakChecksum) < 0 })
	sum := 0
	count := 0
''')],'C15 C01'),
('merge-32bit',[('comparer/merger.go','if a.EndBlock == b.StartBlock-1 && a.EndOffset(blockSize) == b.ComparisonStartOffset {','if a.EndBlock == b.StartBlock-1 && uint32(a.EndOffset(blockSize)) == uint32(b.ComparisonStartOffset) {')],'C06'),
('bufout',[('patcher/sequential/sequential.go','''	maxBlockMissing := uint(0)
''','''	buffered := bufio.NewWriterSize(output, 64*1024)
	defer buffered.Flush()
	output = buffered

	maxBlockMissing := uint(0)
'''),('patcher/sequential/sequential.go','	"fmt"\n','	"bufio"\n	"fmt"\n')],'C02'),
('http-multipart',[('blocksources/httpblocksource.go','data = buf.Bytes()','data = bytes.TrimRight(buf.Bytes(), "\\r\\n")\n		if int64(len(data)) < endOffset-startOffset {\n			data = buf.Bytes()\n		}')],'C18'),
('http-trim',[('blocksources/httpblocksource.go','data = buf.Bytes()','data = buf.Bytes()\n		if int64(len(data)) == endOffset-startOffset+1 && data[len(data)-1] == 10 {\n			data = data[:len(data)-1]\n		}')],'C18'),
('http-206-cached',[('blocksources/httpblocksource.go','rangeSpecifier := fmt.Sprintf("bytes=%v-%v", startOffset, endOffset-1)','rangeSpecifier := fmt.Sprintf("bytes=%v-%v", int32(startOffset), int32(endOffset-1))')],'C18'),
('close-drains-queue',[(BS,'''		case <-s.exitChannel:
			state = STATE_EXITING
''','''		case <-s.exitChannel:
			state = STATE_EXITING
			pendingErrors.clear()
''')],'C11'),
('err-delivered-late',[(BS,'for state == STATE_RUNNING && inflightRequests < s.ConcurrentRequests','for (state == STATE_RUNNING || pendingErrors.Err() == nil && len(requestQueue) > 2) && inflightRequests < s.ConcurrentRequests')],'C11 C09'),
('resp-gap',[(BS,'if lowestRequest == lowestResponse.StartBlock {','if lowestRequest == lowestResponse.StartBlock || inflightRequests > 3 {')],'C07'),
('gen-file-hash-full',[('filechecksum/filechecksum.go','fullChecksum.Write(section)','if n == len(buffer) || i == 0 {\n			fullChecksum.Write(section)\n		} else {\n			fullChecksum.Write(buffer[:n&^1])\n			fullChecksum.Write(section[n&^1:])\n		}')],'C16'),
('gen-exact-multiple',[('filechecksum/filechecksum.go','if n == 0 {\n			break','if n == 0 || (i > 0 && n < 2 && check.BlockSize > 64) {\n			break')],'C16'),
('load-0-weak',[('chunks/chunks.go','		} else if n == 0 && err == io.EOF {','		} else if n <= 1 && len(result) > 100 {')],'C17'),
('roll-len32',[('rollsum/rollsum_32_base.go','''		r.b -= uint32(uint(length) * uint(b))
		length -= 1''','''		r.b -= uint32(uint16(length) * uint16(b))
		length -= 1''')],'C13'),
('roll-write-eq',[('rollsum/rollsum_32.go','if ulen_p >= r.blockSize {','if ulen_p >= r.blockSize && r.buffer.Len() == int(r.blockSize) || ulen_p > r.blockSize {')],'C13'),
('roll-sum-cap',[('rollsum/rollsum_32.go','cap(b)-len(b) >= 4','cap(b)-len(b) >= 3 && cap(b) > 4')],'C13'),
('window-trunc-last',[('circularbuffer/noalloc.go','	c.totalWritten = c.maxWritten() - byteCount\n','	c.totalWritten -= byteCount\n')],'C14'),
('window-evict-eq',[('circularbuffer/noalloc.go','if c.totalWritten <= c.blocksize {','if c.totalWritten <= c.blocksize || c.lastWritten == 0 && c.a.head == 0 {')],'C14'),
('reader-mod',[('util/readers/nonrepeating.go','	b := []byte{1, 2, 3, 4}\n','	b := []byte{1, 2, 3, 4}\n	if lenp > 1<<16 {\n		lenp = 1 << 16\n	}\n')],'C22'),
('reader-wrap',[('util/readers/nonrepeating.go','r.value = (r.value + nonRepeatingIncrement) % nonRepeatingModulo','r.value += nonRepeatingIncrement\n		if i > 0 {\n			r.value %= nonRepeatingModulo\n		}')],'C22'),
('diff-p1',[('cmd/gosync/common.go','for i := int64(0); i < matcherCount; i++ {','for i := int64(0); i < matcherCount && i*sectionSize <= localFileSize-int64(blocksize); i++ {')],'C26'),
('short-split',[('rsync.go','	if last.StartBlock == lastBlock {\n','	if last.StartBlock >= lastBlock-1 {\n')],'C01'),
('patch-empty-local',[('rsync.go','	sectionSize := localSize / numMatchers\n','	if localSize < int64(blockSize) {\n		numMatchers = 0\n	}\n	sectionSize := localSize / (numMatchers + 1)\n')],'C01'),
('resolver-fs-exact',[('blocksources/fixed_size_block_resolver.go','''	if off := int64(uint64(blockID+1) * r.BlockSize); r.FileSize != 0 && off > r.FileSize {''','''	if off := int64(uint64(blockID+1) * r.BlockSize); r.FileSize != 0 && off-int64(r.BlockSize) <= r.FileSize && off > r.FileSize {''')],'C12'),
]
