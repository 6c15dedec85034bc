package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gosync "github.com/Redundancy/go-sync"
)

// Release.tla: what is still open or running when a session is over

func init() {
	suites["release"] = &suite{run: runRelease}
}

type releaseCase struct {
	C struct {
		Out   string   `json:"out"`
		Make  string   `json:"make"`
		Ends  []string `json:"ends"`
		Patch bool     `json:"patch"`
		Place string   `json:"place"`
	} `json:"c"`
	Fetches int  `json:"fetches"`
	Err     bool `json:"err"`
	Made    bool `json:"made"`
}

// the goroutines that the code under test started
func running() (n int, what string) {
	b := make([]byte, 1<<16)
	for {
		k := runtime.Stack(b, true)
		if k < len(b) {
			b = b[:k]
			break
		}
		b = make([]byte, 2*len(b))
	}
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "created by github.com/Redundancy/go-sync") {
			n++
			what = strings.ReplaceAll(g[strings.Index(g, "created by "):], "\n\t", " ")
		}
	}
	return
}

// how often to look again; once something was left behind it is enough to see it again
var patience = 400

// waits until no more than n of them are left
func settled(n int) (bool, string) {
	for i := 0; ; i++ {
		m, what := running()
		if m <= n {
			return true, ""
		}
		if i > patience {
			patience = 60
			return false, what
		}
		time.Sleep(time.Duration(min(i, 20)) * time.Millisecond)
	}
}

// files below dir that this process has open
func openBelow(dir string) (files []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, fd := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && (strings.HasPrefix(l, dir+"/") || l == unwritable) {
			files = append(files, strings.TrimPrefix(l, dir+"/"))
		}
	}
	return
}

func runRelease(c *Ctx, raw json.RawMessage) {
	var cs releaseCase
	mustJSON(raw, &cs)
	for _, bs := range []int{16, 5, 3000} {
		if bs != 16 && c.idx%2 == bs%2 {
			continue
		}
		c.Expect("C27")
		c.Step()
		releaseRun(c, &cs, bs)
	}
}

func releaseRun(c *Ctx, cs *releaseCase, bs int) {
	x := cs.C
	name := fmt.Sprintf("%+v, block size %d", x, bs)
	// missing and found blocks in turns
	var refIDs, locIDs []int
	for i := range x.Ends {
		refIDs = append(refIDs, 10+i, 50+i)
		locIDs = append([]int{50 + i, 90}, locIDs...)
	}
	if len(x.Ends) == 0 {
		refIDs, locIDs = []int{1, 2}, []int{1, 2}
	}
	ref, loc := blocksBytes(refIDs, bs), blocksBytes(locIDs, bs)
	dir, err := os.MkdirTemp(c.Scratch, "release")
	must(err)
	defer os.RemoveAll(dir)
	defer os.Chdir(c.Scratch)
	work := filepath.Join(dir, "work")
	must(os.Mkdir(work, 0o755))
	must(os.Chdir(work))
	in, out := filepath.Join(dir, "input.bin"), filepath.Join(dir, "output.bin")
	must(os.WriteFile(in, loc, 0o644))
	switch x.Out {
	case "same":
		out = in
	case "link":
		must(os.Symlink("input.bin", out))
	case "other":
		must(os.WriteFile(out, bytes.Repeat([]byte("old"), bs), 0o644))
	}
	switch x.Make {
	case "noInput":
		in = filepath.Join(dir, "missing.bin")
	case "noOutDir":
		out = filepath.Join(dir, "missing", "output.bin")
	case "outIsDir":
		out = filepath.Join(dir, "folder")
		must(os.Mkdir(out, 0o755))
	case "outBelow":
		must(os.WriteFile(filepath.Join(dir, "plain"), []byte("x"), 0o644))
		out = filepath.Join(dir, "plain", "output.bin")
	case "noTemp":
		must(os.Remove(work))
	}

	var asked atomic.Int64
	var mu sync.Mutex
	conns := map[net.Conn]bool{}
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n := int(asked.Add(1))
		var a, b int
		fmt.Sscanf(r.Header.Get("Range"), "bytes=%d-%d", &a, &b)
		if n > len(x.Ends) || b < a || b >= len(ref) {
			w.WriteHeader(416)
			return
		}
		d := append([]byte(nil), ref[a:b+1]...)
		status := 206
		switch end := x.Ends[n-1]; end {
		case "ok":
		case "wrong":
			d[len(d)/2] ^= 1
		case "short":
			d = d[:len(d)-1]
		case "long":
			d = append(d, make([]byte, 300000)...)
		case "200":
			status, d = 200, ref
		case "200long":
			status, d = 200, make([]byte, 3<<20)
		case "gzip":
			w.Header().Set("Content-Encoding", "gzip")
		case "404", "404long", "500", "416", "503long":
			fmt.Sscanf(end, "%d", &status)
			d = []byte("no such thing\n")
			if strings.HasSuffix(end, "long") {
				d = make([]byte, 2<<20)
			}
		case "broken", "closed":
			conn, rw, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			if end == "broken" {
				fmt.Fprintf(rw, "HTTP/1.1 206 Partial Content\r\nContent-Length: %d\r\n\r\n", len(d))
				rw.Write(d[:len(d)/2])
				rw.Flush()
			}
			conn.Close()
			return
		}
		w.Header().Set("Content-Length", fmt.Sprint(len(d)))
		w.WriteHeader(status)
		w.Write(d)
	}))
	srv.Config.ConnState = func(conn net.Conn, s http.ConnState) {
		mu.Lock()
		defer mu.Unlock()
		switch s {
		case http.StateNew:
			conns[conn] = true
		case http.StateClosed, http.StateHijacked:
			delete(conns, conn)
		}
	}
	srv.Start()
	defer srv.Close()

	before, _ := running()
	r, err := gosync.MakeRSync(in, srv.URL+"/ref", out, summaryOf(bs, ref))
	if (err == nil) != cs.Made || (r == nil && err == nil) {
		// C19 and others say which session has to be possible
		if r != nil && err == nil {
			r.Close()
		}
		c.Note("other")
		return
	}
	when := "a session that could not be created"
	if cs.Made {
		when = "a session that was closed"
		if x.Patch {
			if err := r.Patch(); (err != nil) != cs.Err {
				c.Note("other")
			}
		}
		switch x.Place {
		case "tempGone":
			m, _ := filepath.Glob(filepath.Join(work, "tmp_*"))
			for _, f := range m {
				os.Remove(f)
			}
		case "targetDir":
			must(os.Remove(in))
			must(os.Mkdir(in, 0o755))
		case "targetFull":
			must(os.Remove(in))
			must(os.Symlink(unwritable, in))
		}
		err := r.Close()
		when += fmt.Sprintf(" (error %v)", err)
	}
	if f := openBelow(dir); len(f) > 0 {
		c.Diverge("C27", "%s: %s keeps open %s", name, when, strings.Join(f, ", "))
		return
	}
	if ok, what := settled(before); !ok {
		c.Diverge("C27", "%s: %s leaves a goroutine running, %s", name, when, what)
		return
	}
	if !cs.Made && asked.Load() > 0 {
		c.Diverge("C27", "%s: a session that could not be created asked its source", name)
		return
	}
	for i := 0; ; i++ {
		http.DefaultClient.CloseIdleConnections()
		mu.Lock()
		n := len(conns)
		mu.Unlock()
		if n == 0 {
			break
		}
		if i > patience {
			patience = 60
			c.Diverge("C27", "%s: %s holds %d of its connections after %d fetches", name, when, n, asked.Load())
			return
		}
		time.Sleep(time.Duration(min(i, 20)) * time.Millisecond)
	}
	runtime.KeepAlive(r)
}
