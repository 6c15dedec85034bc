package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sync"

	gosync "github.com/Redundancy/go-sync"
)

// Workflow.tla: histories of use, with the tool and with the library

func init() {
	suites["workflow"] = &suite{run: runWorkflow}
}

type wfOp struct {
	Op string `json:"op"`
	F  string `json:"f"`
	G  string `json:"g"`
	K  int    `json:"k"`
	C  []int  `json:"c"`
}
type wfFile struct {
	There bool  `json:"there"`
	C     []int `json:"c"`
}
type wfIndex struct {
	There bool  `json:"there"`
	Ok    bool  `json:"ok"`
	K     int   `json:"k"`
	C     []int `json:"c"`
}
type wfState struct {
	Ref wfFile  `json:"ref"`
	Idx wfIndex `json:"idx"`
	X   wfFile  `json:"X"`
	Y   wfFile  `json:"Y"`
}
type wfEvent struct {
	O     wfOp    `json:"o"`
	Ok    bool    `json:"ok"`
	After wfState `json:"after"`
	Asked int     `json:"asked"`
}

// the bytes of units; 0 is short
type wfUnits struct {
	size  int
	units map[int][]byte
}

func newUnits(size int) *wfUnits {
	u := &wfUnits{size, map[int][]byte{}}
	rnd := rand.New(rand.NewSource(seed*13 + int64(size)))
	for k := 0; k < 10; k++ {
		n := size
		if k == 0 {
			n = 7 + rnd.Intn(size-8)
		}
		u.units[k] = make([]byte, n)
		rnd.Read(u.units[k])
	}
	return u
}

func (u *wfUnits) bytes(c []int) []byte {
	b := []byte{}
	for _, k := range c {
		b = append(b, u.units[k]...)
	}
	return b
}

// -1: other bytes
func (u *wfUnits) read(path string) wfFile {
	b, err := os.ReadFile(path)
	if err != nil {
		return wfFile{C: []int{}}
	}
	c := []int{}
next:
	for len(b) > 0 {
		for k := 0; k < 10; k++ {
			if bytes.HasPrefix(b, u.units[k]) {
				c, b = append(c, k), b[len(u.units[k]):]
				continue next
			}
		}
		if b = b[1:]; len(c) == 0 || c[len(c)-1] != -1 {
			c = append(c, -1)
		}
	}
	return wfFile{true, c}
}

func runWorkflow(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Start wfState `json:"start"`
		Ops   []wfOp  `json:"ops"`
	}
	mustJSON(raw, &cs)
	tool := os.Getenv("VH_MODE") == "tool"
	c.Expect("C25")
	dir, err := os.MkdirTemp(c.Scratch, "wf")
	must(err)
	defer os.RemoveAll(dir)
	defer os.Chdir(c.Scratch)
	must(os.Chdir(dir))
	must(os.Mkdir("ref", 0o755))
	u := newUnits([]int{16, 37, 500}[c.idx%3])

	var mu sync.Mutex
	asked := 0
	refPath := filepath.Join(dir, "ref", "data.bin")
	idxPath := filepath.Join(dir, "ref", "data.gosync")
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		asked++
		mu.Unlock()
		data, err := os.ReadFile(refPath)
		var a, b int
		if err != nil {
			w.WriteHeader(404)
		} else if _, err := fmt.Sscanf(r.Header.Get("Range"), "bytes=%d-%d", &a, &b); err != nil || b < a || b >= len(data) {
			w.WriteHeader(416)
		} else {
			w.WriteHeader(206)
			w.Write(data[a : b+1])
		}
	}))
	defer srv.Close()
	defer http.DefaultClient.CloseIdleConnections()
	url := srv.URL + "/data.bin"
	local := func(f string) string { return filepath.Join(dir, f) }
	put := func(path string, f wfFile) {
		os.Remove(path)
		if f.There {
			must(os.WriteFile(path, u.bytes(f.C), 0o644))
		}
	}
	idx := wfIndex{C: []int{}, K: 1}
	var sum gosync.FileSummary
	build := func(k int) bool {
		if tool {
			if rc, _ := gosyncTool(dir, "build", "--blocksize", fmt.Sprint(k*u.size), refPath); rc != 0 {
				return false
			}
		} else {
			data, err := os.ReadFile(refPath)
			if err != nil {
				return false
			}
			sum = summaryOf(k*u.size, data)
		}
		idx = wfIndex{true, true, k, u.read(refPath).C}
		return true
	}
	look := func() wfState { return wfState{u.read(refPath), idx, u.read(local("X")), u.read(local("Y"))} }
	// how the history begins
	if cs.Start.Idx.There {
		put(refPath, wfFile{true, cs.Start.Idx.C})
		if !build(cs.Start.Idx.K) {
			c.Diverge("C25", "%s: the first index cannot be built", raw)
			return
		}
	}
	put(refPath, cs.Start.Ref)
	put(local("X"), cs.Start.X)
	put(local("Y"), cs.Start.Y)
	start := look()
	var log []wfEvent
	for n, o := range cs.Ops {
		c.Step()
		before := snapshot(dir)
		asked = 0
		ok := true
		switch o.Op {
		case "ref":
			put(refPath, wfFile{true, o.C})
		case "gone":
			put(refPath, wfFile{})
		case "write":
			put(local(o.F), wfFile{true, o.C})
		case "rm":
			put(local(o.F), wfFile{})
		case "build":
			ok = build(o.K)
		case "cut":
			idx.Ok = false
			if tool {
				b, err := os.ReadFile(idxPath)
				must(err)
				must(os.WriteFile(idxPath, b[:len(b)-1], 0o644))
			}
		case "diff":
			if tool {
				rc, _ := gosyncTool(dir, "diff", local(o.F), idxPath)
				ok = rc == 0
			} else {
				ok = idx.There && idx.Ok && u.read(local(o.F)).There
			}
		case "patch":
			if tool {
				args := []string{"patch", o.F, idxPath, url}
				if o.F != o.G || n%2 == 0 {
					args = append(args, o.G)
				}
				rc, _ := gosyncTool(dir, args...)
				ok = rc == 0
			} else if ok = idx.There && idx.Ok; ok {
				r, err := gosync.MakeRSync(local(o.F), url, local(o.G), sum)
				if ok = err == nil; ok {
					err = r.Patch()
					e := r.Close()
					ok = err == nil && e == nil
				}
			}
			if ok {
				for p := range snapshot(dir) {
					if _, was := before[p]; !was && p != o.G {
						c.Diverge("C19 C25", "%s: operation %d leaves %s behind", raw, n+1, p)
						return
					}
				}
			}
		}
		mu.Lock()
		log = append(log, wfEvent{o, ok, look(), asked})
		mu.Unlock()
		if o.Op == "patch" && ok {
			c.Note("patched")
		} else if o.Op == "patch" {
			c.Note("refused or failed")
		}
	}
	c.Trace(map[string]interface{}{"idx": c.idx, "start": start, "log": log})
}
