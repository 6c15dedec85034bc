package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	gosync "github.com/Redundancy/go-sync"
)

// Sessions.tla: two sessions of one process in one working directory

func init() {
	suites["sessions2"] = &suite{run: runSessions}
	suites["sessionstool"] = &suite{run: runSessionsTool}
}

type sessionsCase struct {
	C struct {
		Kind  []string `json:"kind"`
		Ref   [][]int  `json:"ref"`
		Loc   [][]int  `json:"loc"`
		Share bool     `json:"share"`
		Bad   []bool   `json:"bad"`
	} `json:"c"`
	Hist [][2]int `json:"hist"`
	Ok   []bool   `json:"ok"`
}

func runSessions(c *Ctx, raw json.RawMessage) {
	var cs sessionsCase
	mustJSON(raw, &cs)
	c.Expect("C19")
	c.Step()
	bs := []int{16, 5, 64, 1000}[c.idx%4]
	dir, err := os.MkdirTemp(c.Scratch, "sessions")
	must(err)
	defer os.RemoveAll(dir)
	defer os.Chdir(c.Scratch)
	work := filepath.Join(dir, "work")
	must(os.Mkdir(work, 0o755))
	must(os.Chdir(work))
	name := fmt.Sprintf("%+v %v, block size %d", cs.C, cs.Hist, bs)

	type ses struct {
		in, out  string
		ref, loc []byte
		url      string
		r        *gosync.RSync
		patched  bool
		stage    int
	}
	var s [2]ses
	defer http.DefaultClient.CloseIdleConnections()
	for i := range s {
		x := &s[i]
		x.ref, x.loc = blocksBytes(cs.C.Ref[i], bs), blocksBytes(cs.C.Loc[i], bs)
		x.in = filepath.Join(dir, fmt.Sprintf("in%d.bin", i))
		x.out = filepath.Join(dir, fmt.Sprintf("out%d.bin", i))
		if cs.C.Share {
			x.in = filepath.Join(dir, "in0.bin")
		}
		must(os.WriteFile(x.in, x.loc, 0o644))
		switch cs.C.Kind[i] {
		case "same":
			x.out = x.in
		case "symlink":
			must(os.Symlink(filepath.Base(x.in), x.out))
		case "other":
			must(os.WriteFile(x.out, blocksBytes([]int{90, 91, 92, 93, 94}, bs), 0o644))
		}
		badTo := 0
		if cs.C.Bad[i] {
			badTo = len(x.ref) + 1
		}
		srv := rangeServer(x.ref, 0, badTo, 0)
		defer srv.Close()
		x.url = srv.URL + "/ref"
	}
	before := snapshot(dir)
	inPlace := func(i int) bool { return cs.C.Kind[i] == "same" || cs.C.Kind[i] == "symlink" }
	patch := func(i int) error { return s[i].r.Patch() }
	check := func(k int) bool {
		for i := range s {
			x := &s[i]
			now, err := os.ReadFile(x.in)
			if !(inPlace(i) && x.stage == 3 && x.patched) && (err != nil || !bytes.Equal(now, x.loc)) {
				c.Diverge("C20", "%s: after step %d the local file of session %d is no longer what it was (%d bytes, was %d)", name, k+1, i+1, len(now), len(x.loc))
				return false
			}
			if x.stage != 3 || !x.patched {
				continue
			}
			if got, err := os.ReadFile(x.out); err != nil || !bytes.Equal(got, x.ref) {
				c.Diverge("C19", "%s: after step %d the output of session %d, patched and closed, holds %d bytes %.40x, its reference %d bytes %.40x (%v)",
					name, k+1, i+1, len(got), got, len(x.ref), x.ref, err)
				return false
			}
		}
		return true
	}
	defer func() {
		for i := range s {
			if s[i].r != nil && s[i].stage != 3 {
				s[i].r.Close()
			}
		}
	}()
	for k := 0; k < len(cs.Hist); k++ {
		i, what := cs.Hist[k][0]-1, cs.Hist[k][1]
		x := &s[i]
		switch what {
		case 1:
			x.r, err = gosync.MakeRSync(x.in, x.url, x.out, summaryOf(bs, x.ref))
			if err != nil || x.r == nil {
				c.Diverge("C19", "%s: step %d: no session: %v", name, k+1, err)
				return
			}
		case 2:
			both := k+1 < len(cs.Hist) && cs.Hist[k+1][1] == 2
			results := map[int]error{}
			if both { // next to each other: really at the same time
				j := cs.Hist[k+1][0] - 1
				ch := make(chan error)
				go func() { ch <- patch(j) }()
				results[i] = patch(i)
				results[j] = <-ch
				k++
				s[j].stage = 2
			} else {
				results[i] = patch(i)
			}
			for j, err := range results {
				if (err == nil) != cs.Ok[j] {
					c.Diverge("C02 C19", "%s: step %d: patch of session %d gives %v, specification: success is %v", name, k+1, j+1, err, cs.Ok[j])
					return
				}
				s[j].patched = err == nil
			}
		case 3:
			if err := x.r.Close(); err != nil {
				x.stage = 3
				c.Diverge("C19", "%s: step %d: closing session %d: %v", name, k+1, i+1, err)
				return
			}
		}
		x.stage = what
		if !check(k) {
			return
		}
	}
	for p := range snapshot(dir) {
		if _, was := before[p]; !was && !strings.HasPrefix(p, "out") {
			c.Diverge("C19", "%s: %s is left behind", name, p)
			return
		}
	}
	if m, _ := filepath.Glob(filepath.Join(os.TempDir(), "tmp_*")); len(m) > 0 {
		c.Diverge("C19", "%s: %s is left behind", name, strings.Join(m, " "))
	}
}

// the histories in which each session closes right after its patch, with a
// process of the tool for each session: one is held at its first request from
// its "make" to its "close"
func runSessionsTool(c *Ctx, raw json.RawMessage) {
	var cs sessionsCase
	mustJSON(raw, &cs)
	for k, h := range cs.Hist {
		if h[1] == 2 && (k+1 == len(cs.Hist) || cs.Hist[k+1] != [2]int{h[0], 3}) {
			return
		}
	}
	c.Expect("C19")
	c.Step()
	bs := []int{16, 5, 64, 1000}[c.idx%4]
	dir, err := os.MkdirTemp(c.Scratch, "sessions")
	must(err)
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "work")
	must(os.Mkdir(work, 0o755))
	name := fmt.Sprintf("two tools: %+v %v, block size %d", cs.C, cs.Hist, bs)

	type tool struct {
		in, out  string
		ref, loc []byte
		url      string
		asked    chan bool
		release  chan bool
		end      chan bool
		rc       int
		text     string
	}
	var s [2]*tool
	for i := range s {
		x := &tool{asked: make(chan bool), release: make(chan bool), end: make(chan bool)}
		s[i] = x
		x.ref, x.loc = blocksBytes(cs.C.Ref[i], bs), blocksBytes(cs.C.Loc[i], bs)
		x.in = filepath.Join(dir, fmt.Sprintf("in%d.bin", i))
		x.out = filepath.Join(dir, fmt.Sprintf("out%d.bin", i))
		if cs.C.Share {
			x.in = filepath.Join(dir, "in0.bin")
		}
		must(os.WriteFile(x.in, x.loc, 0o644))
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("idx%d", i)), indexBytes(x.ref, bs), 0o644))
		switch cs.C.Kind[i] {
		case "same":
			x.out = x.in
		case "symlink":
			must(os.Symlink(filepath.Base(x.in), x.out))
		case "other":
			must(os.WriteFile(x.out, blocksBytes([]int{90, 91, 92, 93, 94}, bs), 0o644))
		}
		badTo := 0
		if cs.C.Bad[i] {
			badTo = len(x.ref) + 1
		}
		srv := rangeServer(x.ref, 0, badTo, 0)
		serve := srv.Config.Handler
		var once sync.Once
		srv.Config.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			once.Do(func() {
				select {
				case x.asked <- true:
				case <-time.After(20 * time.Second):
				}
			})
			<-x.release
			serve.ServeHTTP(w, r)
		})
		defer srv.Close()
		x.url = srv.URL + "/ref"
	}
	inPlace := func(i int) bool { return cs.C.Kind[i] == "same" || cs.C.Kind[i] == "symlink" }
	before := snapshot(dir)
	stage := [2]int{}
	defer func() {
		for i, x := range s {
			if stage[i] == 1 {
				close(x.release)
				<-x.end
			}
		}
	}()
	for k, h := range cs.Hist {
		i := h[0] - 1
		x := s[i]
		switch h[1] {
		case 1:
			go func() {
				x.rc, x.text = gosyncTool(work, "patch", x.in, filepath.Join(dir, fmt.Sprintf("idx%d", i)), x.url, x.out)
				close(x.end)
			}()
			stage[i] = 1
			select {
			case <-x.asked:
			case <-x.end:
			}
		case 3:
			close(x.release)
			<-x.end
			stage[i] = 3
			if (x.rc == 0) != cs.Ok[i] {
				c.Diverge("C02 C19 C21", "%s: tool %d ends with %d, specification: success is %v\n%s", name, i+1, x.rc, cs.Ok[i], x.text)
				return
			}
		default:
			continue
		}
		for j, x := range s {
			now, err := os.ReadFile(x.in)
			over := false // it may have nothing to fetch
			if stage[j] == 1 {
				select {
				case <-x.end:
					over = true
				default:
				}
			}
			if !(inPlace(j) && (stage[j] == 3 || over) && cs.Ok[j]) && (err != nil || !bytes.Equal(now, x.loc)) {
				c.Diverge("C20", "%s: after step %d the local file of tool %d is no longer what it was (%d bytes, was %d)", name, k+1, j+1, len(now), len(x.loc))
				return
			}
			if stage[j] != 3 || !cs.Ok[j] {
				continue
			}
			if got, err := os.ReadFile(x.out); err != nil || !bytes.Equal(got, x.ref) {
				c.Diverge("C19", "%s: after step %d the output of tool %d holds %d bytes %.40x, its reference %d bytes %.40x (%v)", name, k+1, j+1, len(got), got, len(x.ref), x.ref, err)
				return
			}
		}
	}
	if !cs.Ok[0] || !cs.Ok[1] {
		return
	}
	for p := range snapshot(dir) {
		if _, was := before[p]; !was && !strings.HasPrefix(p, "out") {
			c.Diverge("C19", "%s: %s is left behind", name, p)
			return
		}
	}
}
