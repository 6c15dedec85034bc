import sys; sys.path.insert(0,'/tmp/pl')
from lib import plant
plant('c04-cap-dups','C04','a reference in which one block occurs more than a thousand times, as in a sparse file',
 'Of the reference blocks that share a content only the first thousand are reported, the others are fetched.',
 [('comparer/comparer.go','			for _, strongMatch := range strongList {','			for n, strongMatch := range strongList {\n				if n >= 1000 {\n					break\n				}\n')],'comparer','''package comparer

import (
	"bytes"
	"testing"

	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 10, 5000} {
		ref := make([]byte, 16*n)
		_, idx, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(16), bytes.NewReader(ref))
		if err != nil {
			t.Fatal(err)
		}
		found := map[uint]bool{}
		for m := range (&Comparer{}).StartFindMatchingBlocks(bytes.NewReader(ref[:16]), 0, filechecksum.NewFileChecksumGenerator(16), idx) {
			if m.Err == nil {
				found[m.BlockIdx] = true
			}
		}
		if len(found) != n {
			t.Fatalf("%v of %v blocks found", len(found), n)
		}
	}
}
''')
plant('c06-32bit','C06','neighbouring reference blocks found in the local file at places that are a multiple of 4 GB further apart than in the reference',
 'Whether two spans adjoin is decided with 32 bits of their offsets, so that blocks that lie 4 GB apart become one span.',
 [('comparer/merger.go','if a.EndBlock == b.StartBlock-1 && a.EndOffset(blockSize) == b.ComparisonStartOffset {','if a.EndBlock == b.StartBlock-1 && uint32(a.EndOffset(blockSize)) == uint32(b.ComparisonStartOffset) {')],'comparer','''package comparer

import "testing"

func TestDemo(t *testing.T) {
	for _, off := range []int64{8, 20, 1<<32 + 4, 1<<33 + 4} {
		m := &MatchMerger{}
		c := make(chan BlockMatchResult)
		m.StartMergeResultStream(c, 4)
		c <- BlockMatchResult{BlockIdx: 0, ComparisonOffset: 0}
		c <- BlockMatchResult{BlockIdx: 1, ComparisonOffset: off}
		close(c)
		for _, s := range m.GetMergedBlocks() {
			if s.StartBlock <= 1 && s.EndBlock >= 1 && s.ComparisonStartOffset+4*int64(1-s.StartBlock) != off {
				t.Fatalf("block 1 was found at %v, the spans have it at %v", off, s.ComparisonStartOffset+4*int64(1-s.StartBlock))
			}
		}
	}
}
''')
plant('c02-buffered-output','C02','an output that fails near the end, when all data were handed to it (a full disk)',
 'The output is buffered and the result of the last flush is ignored, so that patching reports success although the end was not written.',
 [('patcher/sequential/sequential.go','''	output io.Writer,
) error {
''','''	file io.Writer,
) error {
	output := bufio.NewWriterSize(file, 64*1024)
	defer output.Flush()
'''),('patcher/sequential/sequential.go','	"fmt"\n','	"bufio"\n	"fmt"\n')],'patcher/sequential','''package sequential

import (
	"bytes"
	"errors"
	"testing"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
)

type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("no space left on device")
	}
	f.left -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	data := []byte("0123456789abcdef")
	for _, room := range []int{0, 3, 8, 15, 16} {
		src := blocksources.NewReadSeekerBlockSource(bytes.NewReader(data), blocksources.MakeNullFixedSizeResolver(4))
		err := SequentialPatcher(
			bytes.NewReader(data[:8]), src,
			[]patcher.MissingBlockSpan{{BlockSize: 4, StartBlock: 2, EndBlock: 3}},
			[]patcher.FoundBlockSpan{{BlockSize: 4, StartBlock: 0, EndBlock: 1, MatchOffset: 0}},
			1000, &full{room},
		)
		src.Close()
		if (err == nil) != (room >= len(data)) {
			t.Fatalf("room for %v of %v bytes: error %v", room, len(data), err)
		}
	}
}
''')
plant('c16-one-byte-tail','C16','a file whose last block holds a single byte, with blocks of more than 64 bytes',
 'A last block of a single byte is taken for the end of the file, so that it gets no entry and is not in the checksum of the file.',
 [('filechecksum/filechecksum.go','''		if n == 0 {
			break''','''		if n == 0 || (n == 1 && i > 0 && len(buffer) > 64) {
			break''')],'filechecksum','''package filechecksum

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, bs := range []int{2, 64, 100, 4096} {
		for _, n := range []int{1, bs - 1, bs, bs + 1, 2*bs + 1, 3 * bs} {
			g := NewFileChecksumGenerator(uint(bs))
			var out bytes.Buffer
			if _, err := g.GenerateChecksums(bytes.NewReader(make([]byte, n)), &out); err != nil {
				t.Fatal(err)
			}
			if want := (n + bs - 1) / bs * 20; out.Len() != want {
				t.Fatalf("%v bytes in blocks of %v: %v bytes of checksums instead of %v", n, bs, out.Len(), want)
			}
		}
	}
}
''')
plant('c09-close-forgets','C09','a failure that the consumer has not read yet when the source is closed',
 'Closing the source throws away a failure that waits to be read, the consumer never learns of it.',
 [('blocksources/blocksourcebase.go','''		case <-s.exitChannel:
			state = STATE_EXITING
''','''		case <-s.exitChannel: // nobody is interested any more
			pendingErrors.clear()
			state = STATE_EXITING
''')],'blocksources','''package blocksources

import (
	"errors"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/patcher"
)

type failing struct{}

func (failing) DoRequest(a, b int64) ([]byte, error) { return nil, errors.New("gone") }
func (failing) IsFatal(error) bool                    { return true }

func TestDemo(t *testing.T) {
	s := NewBlockSourceBase(failing{}, MakeNullFixedSizeResolver(4), nil, 2, 1000)
	if err := s.RequestBlocks(patcher.MissingBlockSpan{BlockSize: 4, StartBlock: 0, EndBlock: 0}); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	s.Close()
	select {
	case err, ok := <-s.EncounteredError():
		if !ok || err == nil {
			t.Fatal("the failure cannot be received")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the failure is not received")
	}
}
''')
plant('c18-newline','C18','a server that sends one byte more than was asked for, a line end',
 'A body that is one byte too long is accepted if that byte is a line end.',
 [('blocksources/httpblocksource.go','		data = buf.Bytes()\n','''		data = withoutLineEnd(buf.Bytes(), int(endOffset-startOffset))
'''),('blocksources/httpblocksource.go','''func (r *HttpRequester) IsFatal(''','''// some servers add a line end
func withoutLineEnd(data []byte, length int) []byte {
	if len(data) == length+1 && data[length] == 10 {
		return data[:length]
	}
	return data
}

func (r *HttpRequester) IsFatal(''')],'blocksources','''package blocksources

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, extra := range []string{"", "x", "\\n", "\\r\\n"} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(206)
			w.Write([]byte("0123" + extra))
		}))
		data, err := (&HttpRequester{client: http.DefaultClient, url: srv.URL}).DoRequest(0, 4)
		srv.Close()
		if (err == nil) != (extra == "") {
			t.Fatalf("%q after the range: %q, error %v", extra, data, err)
		}
	}
}
''')
