package vh

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
)

// BlockSourceLog.tla: block sources under the real scheduler

func init() {
	suites["bslog"] = &suite{run: func(c *Ctx, raw json.RawMessage) { runBSLog(c, raw, true) }}
	// virtual time: delays of any length; the bubble itself notices goroutines that are left
	suites["bslogtime"] = &suite{bubble: true, run: func(c *Ctx, raw json.RawMessage) { runBSLog(c, raw, false) }}
}

type bsEvent struct {
	E  string `json:"e"`
	R  []int  `json:"r"`
	Ok bool   `json:"ok"`
}

type bsLogCase struct {
	Conc   int        `json:"conc"`
	SplitN int        `json:"splitn"`
	Bs     int        `json:"bs"`
	Asks   [][][2]int `json:"asks"` // per goroutine
	Fail   []int      `json:"fail"` // ranges with such a block fail
	How    string     `json:"how"`  // "err" | "verify" | "hash": wrong bytes
	Http   bool       `json:"http"` // the data come from a server
	Close  []int      `json:"close"`
	Slow   int        `json:"slow"` // delays: how long
	Busy   int        `json:"busy"` // splitting and verifying take time, too
	Long   bool       `json:"long"` // delays of up to days
	Seed   int64      `json:"seed"`
	Before int        `json:"before"` // so many requests have been served when the log begins
}

type bsLog struct {
	sync.Mutex
	log  []bsEvent
	cs   *bsLogCase
	data []byte
	n    int
	mute bool
}

func (l *bsLog) add(e string, r []int, ok bool) {
	l.Lock()
	if r == nil {
		r = []int{}
	}
	if !l.mute {
		l.log = append(l.log, bsEvent{e, r, ok})
	}
	l.Unlock()
}

// some time, from none to some hundred microseconds
func (l *bsLog) dawdle(rnd *rand.Rand) {
	if l.mute {
		return
	}
	switch k := rnd.Intn(4 + l.cs.Slow); {
	case k >= 2 && l.cs.Long:
		time.Sleep(time.Duration(rnd.Intn(30)) * []time.Duration{time.Microsecond, time.Millisecond, 20 * time.Millisecond, time.Second, time.Minute, time.Hour}[rnd.Intn(6)])
	case k < 2:
	case k < 4:
		for i := rnd.Intn(20); i >= 0; i-- {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(rnd.Intn(60*l.cs.Slow)) * time.Microsecond)
	}
}

func (l *bsLog) fails(a, b int) bool {
	if l.mute {
		return false
	}
	for _, f := range l.cs.Fail {
		if a <= f && f <= b {
			return true
		}
	}
	return false
}

func (l *bsLog) DoRequest(from, to int64) ([]byte, error) {
	data, ok := l.fetch(from, to)
	if !ok && l.cs.How == "err" {
		return nil, errors.New([]string{"the fetch failed", ""}[l.cs.Seed%2])
	}
	return data, nil
}

func (l *bsLog) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	var a, b int64
	if _, err := fmt.Sscanf(r.Header.Get("Range"), "bytes=%d-%d", &a, &b); err != nil || b < a || b >= int64(len(l.data)) {
		w.WriteHeader(416)
		return
	}
	data, ok := l.fetch(a, b+1)
	if !ok && l.cs.How == "err" {
		switch l.cs.Seed % 4 {
		case 0:
			w.WriteHeader(500)
		case 1:
			w.WriteHeader(404)
		case 2: // everything
			w.Write(l.data)
		case 3:
			w.WriteHeader(206)
			w.Write(l.data[a:b])
		}
		return
	}
	w.WriteHeader(206)
	for len(data) > 0 {
		n := 1 + len(data)/2
		w.Write(data[:n])
		data = data[n:]
		if f, can := w.(http.Flusher); can && l.cs.Slow > 0 {
			f.Flush()
		}
	}
}

// the bytes, and whether they are right
func (l *bsLog) fetch(from, to int64) ([]byte, bool) {
	bs := int64(l.cs.Bs)
	a, b := int(from/bs), int((to-1)/bs)
	l.add("start", []int{a, b}, true)
	l.Lock()
	l.n++
	rnd := rand.New(rand.NewSource(l.cs.Seed*1000 + int64(l.n)))
	l.Unlock()
	l.dawdle(rnd)
	data, ok := append([]byte(nil), l.data[from:to]...), !l.fails(a, b)
	if !ok {
		for _, f := range l.cs.Fail {
			if k := f*l.cs.Bs + int(l.cs.Seed)%l.cs.Bs - int(from); l.cs.How == "hash" && k >= 0 && k < len(data) {
				data[k] ^= 1
			} else if l.cs.How == "verify" {
				data[0] = 255
			}
		}
	}
	l.add("end", []int{a, b}, ok)
	return data, ok
}
func (l *bsLog) IsFatal(error) bool { return true }
func (l *bsLog) VerifyBlockRange(start uint, data []byte) bool {
	return len(data) > 0 && data[0] != 255
}

// the loop of the source itself is held up
type busySource struct {
	l   *bsLog
	rnd *rand.Rand
	blocksources.BlockSourceOffsetResolver
	blocksources.BlockVerifier
}

func (b *busySource) hold() {
	if b.l.cs.Busy > 0 && b.rnd.Intn(b.l.cs.Busy) == 0 {
		b.l.dawdle(b.rnd)
	}
}
func (b *busySource) SplitBlockRangeToDesiredSize(first, last uint) []blocksources.QueuedRequest {
	b.hold()
	return b.BlockSourceOffsetResolver.SplitBlockRangeToDesiredSize(first, last)
}
func (b *busySource) VerifyBlockRange(first uint, data []byte) bool {
	b.hold()
	return b.BlockVerifier == nil || b.BlockVerifier.VerifyBlockRange(first, data)
}

func runBSLog(c *Ctx, raw json.RawMessage, count bool) {
	var cs bsLogCase
	mustJSON(raw, &cs)
	if cs.Http {
		c.Expect("C07 C09 C18")
	} else {
		c.Expect("C07 C08 C09 C10 C11")
	}
	base := runtime.NumGoroutine()
	blocks, willFail := 0, false
	for _, g := range cs.Asks {
		for _, s := range g {
			blocks = max(blocks, s[1]+1)
			for _, f := range cs.Fail {
				willFail = willFail || s[0] <= f && f <= s[1]
			}
		}
	}
	l := &bsLog{cs: &cs, data: make([]byte, blocks*cs.Bs)}
	for i := range l.data {
		l.data[i] = byte(i%251 ^ i/251%4)
		if l.data[i] == 255 {
			l.data[i] = 254
		}
	}
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(cs.Bs), FileSize: int64(len(l.data)), MaxDesiredRequestSize: uint64(cs.SplitN * cs.Bs)}
	var ver blocksources.BlockVerifier
	switch cs.How {
	case "verify":
		ver = l
	case "hash":
		sums := lookup{}
		for b := 0; b < blocks; b++ {
			h := md5.Sum(l.data[b*cs.Bs : (b+1)*cs.Bs])
			sums[b] = h[:]
		}
		ver = &filechecksum.HashVerifier{BlockSize: uint(cs.Bs), Hash: md5.New(), BlockChecksumGetter: sums}
	}
	var asked blocksources.BlockSourceOffsetResolver = res
	if cs.Busy > 0 {
		busy := &busySource{l, rand.New(rand.NewSource(cs.Seed * 5)), res, ver}
		asked, ver = busy, busy
	}
	var src *blocksources.BlockSourceBase
	if cs.Http {
		srv := httptest.NewServer(l)
		defer srv.Close()
		base = runtime.NumGoroutine()
		src = blocksources.NewHttpBlockSource(srv.URL, cs.Conc, asked, ver)
	} else {
		src = blocksources.NewBlockSourceBase(l, asked, ver, cs.Conc, 1<<30)
	}
	// a source that has served and has nothing to do is as good as new
	l.mute = true
	for i := 0; i < cs.Before; i++ {
		at := uint(i % blocks)
		err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: at, EndBlock: at, BlockSize: int64(cs.Bs)})
		if err != nil {
			c.Diverge("C07 C11", "%s: request %d: %v", raw, i, err)
			return
		}
		select {
		case x := <-src.GetResultChannel():
			if x.StartBlock != at || !bytes.Equal(x.Data, l.data[int(at)*cs.Bs:int(at+1)*cs.Bs]) {
				c.Diverge("C07", "%s: request %d is answered with block %d", raw, i, x.StartBlock)
				return
			}
		case err := <-src.EncounteredError():
			c.Diverge("C07 C09", "%s: request %d fails: %v", raw, i, err)
			return
		}
	}
	l.Lock()
	l.mute, l.n = false, 0
	l.Unlock()
	before := src.ReadBytes()
	if before != int64(cs.Before*cs.Bs) {
		c.Diverge("C03", "%s: ReadBytes is %d after %d blocks of %d bytes", raw, before, cs.Before, cs.Bs)
	}
	var asking, closing sync.WaitGroup
	for g, spans := range cs.Asks {
		asking.Add(1)
		go func() {
			defer asking.Done()
			rnd := rand.New(rand.NewSource(cs.Seed*77 + int64(g)))
			for _, s := range spans {
				l.dawdle(rnd)
				l.add("ask", s[:], true)
				err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(s[0]), EndBlock: uint(s[1]), BlockSize: int64(cs.Bs)})
				l.add("asked", s[:], err == nil)
			}
		}()
	}
	for g, at := range cs.Close {
		closing.Add(1)
		go func() {
			defer closing.Done()
			rnd := rand.New(rand.NewSource(cs.Seed*99 + int64(g)))
			time.Sleep(time.Duration(at) * time.Microsecond)
			if cs.Long {
				l.dawdle(rnd)
			}
			l.dawdle(rnd)
			l.add("close", nil, true)
			err := src.Close()
			l.add("closed", nil, err == nil)
		}()
	}
	c.Step()
	rnd := rand.New(rand.NewSource(cs.Seed))
	got, failures := 0, 0
	over := func() bool {
		l.dawdle(rnd)
		l.add("want", nil, true)
		select {
		case x, ok := <-src.GetResultChannel():
			if !ok {
				return true
			}
			n := (len(x.Data) + cs.Bs - 1) / cs.Bs
			a := int(x.StartBlock)
			l.add("got", []int{a, a + n - 1}, a+n <= blocks && bytes.Equal(x.Data, l.data[a*cs.Bs:(a+n)*cs.Bs]))
			got += n
		case err, ok := <-src.EncounteredError():
			if !ok {
				return true
			}
			l.add("error", nil, err != nil)
			failures++
		}
		return false
	}
	ended := false
	if len(cs.Close) == 0 && !willFail {
		want := 0
		for _, g := range cs.Asks {
			for _, s := range g {
				want += s[1] - s[0] + 1
			}
		}
		for got < want && !ended && failures < 3 {
			ended = over()
		}
		asking.Wait()
		l.add("all", nil, true)
		if n := src.ReadBytes() - before; n != int64(want*cs.Bs) && !ended {
			c.Diverge("C03", "%s: ReadBytes is %d, %d were delivered", raw, n, want*cs.Bs)
		}
		closing.Add(1)
		go func() {
			defer closing.Done()
			l.add("close", nil, true)
			err := src.Close()
			l.add("closed", nil, err == nil)
		}()
	}
	for !ended && failures < 3 { // the judge sees it
		ended = over()
	}
	if !ended {
		c.Diverge("C09", "%s: the failure is reported again and again", raw)
	}
	l.add("over", nil, true)
	asking.Wait()
	closing.Wait()
	err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 0, BlockSize: int64(cs.Bs)})
	l.add("late", nil, err == nil)
	src.Close()
	http.DefaultClient.CloseIdleConnections()
	for t := 0; count && runtime.NumGoroutine() > base && t < 400; t++ {
		time.Sleep(5 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); count && n > base {
		buf := make([]byte, 1<<16)
		c.Diverge("C11", "%s: %d goroutines are left after the source has ended\n%s", raw, n-base, buf[:runtime.Stack(buf, true)])
	}
	l.Lock()
	defer l.Unlock()
	c.Trace(map[string]interface{}{"idx": c.idx, "conc": cs.Conc, "splitn": cs.SplitN, "http": cs.Http, "ver": cs.How != "err", "log": l.log})
	if failures > 0 {
		c.Note("failed")
	}
}
