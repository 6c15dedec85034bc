package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	gosync "github.com/Redundancy/go-sync"
)

// Session.tla on real files in a scratch directory of its own

func init() {
	suites["session"] = &suite{run: runSession}
}

type sessionCase struct {
	C struct {
		Out   string   `json:"out"`
		Ref   []int    `json:"ref"`
		Loc   []int    `json:"loc"`
		Old   []int    `json:"old"`
		Fault string   `json:"fault"`
		At    int      `json:"at"`
		Steps []string `json:"steps"`
		Big   bool     `json:"big"`
	} `json:"c"`
	Failed  bool `json:"failed"`
	Patched bool `json:"patched"`
	Closed  bool `json:"closed"`
	InPlace bool `json:"inplace"`
}

// block id -> bytes without repetition
func blockBytes(id, bs int) []byte {
	b := make([]byte, bs)
	if bs > 4096 {
		rand.New(rand.NewSource(int64(id))).Read(b)
		return b
	}
	for i := range b {
		b[i] = byte(id*31 + i*i*7 + i*id)
	}
	return b
}

func blocksBytes(ids []int, bs int) (out []byte) {
	out = []byte{}
	for _, id := range ids {
		out = append(out, blockBytes(id, bs)...)
	}
	return
}

// serves data by ranges; a request that touches bytes [badFrom, badTo) fails
func rangeServer(data []byte, badFrom, badTo int, how int) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var a, b int
		if _, err := fmt.Sscanf(r.Header.Get("Range"), "bytes=%d-%d", &a, &b); err != nil || b < a || b >= len(data) {
			w.WriteHeader(416)
			return
		}
		d := append([]byte(nil), data[a:b+1]...)
		if a < badTo && b >= badFrom {
			switch how {
			case 0:
				w.WriteHeader(500)
				return
			case 1: // wrong bytes
				d[max(badFrom, a)-a] ^= 0x40
			case 2: // cut short
				d = d[:len(d)-1]
			case 3:
				w.WriteHeader(404)
				return
			}
		}
		w.Header().Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", a, b, len(data)))
		w.WriteHeader(206)
		w.Write(d)
	}))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// unwritable is a file that can be opened and emptied but whose every write
// fails. It is the kernel's, so that whatever is done with it, links followed,
// nothing can be put in its place or removed.
const unwritable = "/proc/self/uid_map"

// everything below dir: path -> kind or content
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			out[rel] = "link"
		case fi.IsDir():
			out[rel] = "dir"
		default:
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func runSession(c *Ctx, raw json.RawMessage) {
	var cs sessionCase
	mustJSON(raw, &cs)
	if cs.C.Big {
		c.Expect("C19")
		sessionRun(c, &cs, 4)
		return
	}
	for v := 0; v < 4; v++ {
		if v > 1 && cs.C.Fault != "source" && c.idx%3 != 0 {
			continue
		}
		c.Expect("C19")
		sessionRun(c, &cs, v)
	}
}

func sessionRun(c *Ctx, cs *sessionCase, v int) {
	c.Step()
	bs := []int{16, 5, 64, 1000, 1 << 20}[v]
	ref, loc, old := blocksBytes(cs.C.Ref, bs), blocksBytes(cs.C.Loc, bs), blocksBytes(cs.C.Old, bs)
	bad := (cs.C.At - 1) * bs
	if n := len(cs.C.Ref); n > 0 && v%2 == 1 { // a short last block, where it is not local anyway
		has := false
		for _, b := range cs.C.Loc {
			has = has || b == cs.C.Ref[n-1]
		}
		if !has {
			ref = ref[:len(ref)-bs/2]
		}
	}
	name := fmt.Sprintf("%+v, block size %d", cs.C, bs)

	dir, err := os.MkdirTemp(c.Scratch, "session")
	must(err)
	defer os.RemoveAll(dir)
	defer os.Chdir(c.Scratch)
	files, work := filepath.Join(dir, "files"), filepath.Join(dir, "work")
	must(os.Mkdir(files, 0o755))
	must(os.Mkdir(work, 0o755))
	in, out := filepath.Join(files, "input.bin"), filepath.Join(files, "output.bin")
	if v == 1 && cs.C.Fault != "noTemp" { // paths relative to the working directory, which holds the files
		work = files
		in, out = "input.bin", "output.bin"
	}
	must(os.Chdir(work))
	local := in // where the local file is looked at
	if cs.C.Fault != "noInput" {
		must(os.WriteFile(in, loc, 0o644))
	}
	target := out
	switch cs.C.Out {
	case "same":
		out, target = in, in
	case "alias":
		out = filepath.Dir(in) + "/./" + filepath.Base(in)
		if v == 1 {
			out, _ = filepath.Abs(in)
		}
		target = out
	case "hardlink":
		must(os.Link(in, out))
	case "symlink":
		must(os.Symlink(filepath.Base(in), out))
	case "inlink", "bothlink":
		real := filepath.Join(filepath.Dir(in), "real.bin")
		if cs.C.Fault != "noInput" {
			must(os.Rename(in, real))
			must(os.Symlink("real.bin", in))
		}
		if cs.C.Out == "inlink" {
			out, target = real, real
		} else {
			must(os.Symlink("real.bin", out))
		}
	case "dirlink":
		abs, _ := filepath.Abs(in)
		must(os.Symlink(filepath.Dir(abs), filepath.Join(dir, "door")))
		out = filepath.Join(dir, "door", "input.bin")
		target = out
	case "dangling":
		must(os.Symlink("nothing.bin", out))
	case "other":
		must(os.WriteFile(out, old, 0o644))
	case "linkother":
		must(os.WriteFile(filepath.Join(filepath.Dir(out), "real.bin"), old, 0o644))
		must(os.Symlink("real.bin", out))
	}
	switch cs.C.Fault {
	case "noOutDir":
		out = filepath.Join(files, "missing", "output.bin")
	case "outIsDir":
		out = filepath.Join(files, "folder")
		must(os.Mkdir(out, 0o755))
	case "inBelow":
		in = filepath.Join(in, "x")
	case "outBelow":
		must(os.WriteFile(filepath.Join(files, "plain"), []byte("x"), 0o644))
		out = filepath.Join(files, "plain", "output.bin")
	case "longName":
		out = filepath.Join(files, strings.Repeat("n", 300))
	case "noTemp": // the working directory is gone
		must(os.Remove(work))
	case "full":
		out = unwritable
	}
	before := snapshot(dir)

	badTo := bad
	if cs.C.Fault == "source" {
		badTo = min(bad+bs, len(ref))
	}
	srv := rangeServer(ref, bad, badTo, v)
	defer srv.Close()
	defer http.DefaultClient.CloseIdleConnections()

	localNow := func() (string, bool) {
		b, err := os.ReadFile(local)
		return string(b), err == nil
	}
	untouched := func(when string) bool {
		if cs.C.Fault == "noInput" || cs.C.Fault == "targetDir" || cs.C.Fault == "targetFull" {
			return true
		}
		if now, ok := localNow(); !ok || now != string(loc) {
			c.Diverge("C20", "%s: %s the local file is no longer what it was (%d bytes, was %d)", name, when, len(now), len(loc))
			return false
		}
		return true
	}
	var r *gosync.RSync
	var serr error
	patched, closed := false, false
	for _, step := range cs.C.Steps {
		switch step {
		case "make":
			r, err = gosync.MakeRSync(in, srv.URL+"/ref", out, summaryOf(bs, ref))
			if err == nil && r == nil {
				c.Diverge("C19", "%s: neither a session nor an error", name)
				return
			}
			if !untouched("after creating the session") {
				return
			}
			if err != nil {
				serr = err
			}
		case "patch":
			if r == nil {
				break
			}
			if err = r.Patch(); err != nil {
				serr = err
			} else {
				patched = true
			}
			if !untouched("after patching") {
				return
			}
		case "close":
			if r == nil {
				break
			}
			switch cs.C.Fault {
			case "tempGone":
				for _, d := range []string{work, os.TempDir()} {
					m, _ := filepath.Glob(filepath.Join(d, "tmp_*"))
					for _, f := range m {
						os.Remove(f)
					}
				}
			case "targetDir", "targetFull":
				must(os.Remove(target))
				if cs.C.Fault == "targetDir" {
					must(os.Mkdir(target, 0o755))
				} else {
					must(os.Symlink(unwritable, target))
				}
			}
			if err = r.Close(); err != nil {
				serr = err
			} else {
				closed = true
			}
			if (!cs.InPlace || !patched) && !untouched("after closing") {
				return
			}
		}
		if r == nil {
			break
		}
	}
	// a session that is not closed keeps its files open
	if r != nil && !closed {
		defer r.Close()
	}
	if cs.C.Fault == "none" && serr != nil {
		c.Diverge("C19", "%s: error %v", name, serr)
		return
	}
	if cs.C.Fault == "source" && serr == nil {
		c.Diverge("C02 C19", "%s: a block that could not be fetched is not reported", name)
		return
	}
	if serr != nil || !patched || !closed {
		return
	}
	// success is claimed
	if fi, err := os.Stat(out); err != nil || !fi.Mode().IsRegular() {
		c.Diverge("C19", "%s: closed without an error, but there is no file at the output path (%v)", name, err)
		return
	}
	got, err := os.ReadFile(out)
	if err != nil || !bytes.Equal(got, ref) {
		c.Diverge("C19", "%s: the output holds %d bytes %.40x, the reference %d bytes %.40x (%v)", name, len(got), got, len(ref), ref, err)
		return
	}
	after := snapshot(dir)
	for p := range after {
		_, was := before[p]
		if !was && p != "files/output.bin" && p != "files/nothing.bin" {
			c.Diverge("C19", "%s: %s is left behind", name, p)
			return
		}
	}
	if m, _ := filepath.Glob(filepath.Join(os.TempDir(), "tmp_*")); len(m) > 0 {
		c.Diverge("C19", "%s: %s is left behind", name, strings.Join(m, " "))
		for _, f := range m {
			os.Remove(f)
		}
		return
	}
	if !cs.InPlace {
		untouched("at the end")
	}
}
