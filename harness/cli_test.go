package vh

import (
	"bytes"
	"context"
	"crypto/md5"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Cli.tla, with the built tool (VH_GOSYNC) in a scratch directory of its own

func init() {
	suites["cli"] = &suite{run: runCli}
	suites["cliname"] = &suite{run: runCliName}
	suites["clibuild"] = &suite{run: runCliBuild}
}

type cliCase struct {
	C struct {
		N    int               `json:"n"`
		Bs   int               `json:"bs"`
		Cmd  string            `json:"cmd"`
		Dmg  []json.RawMessage `json:"dmg"`
		Bad  string            `json:"bad"`
		At0  int               `json:"at0"`
		Loc  string            `json:"loc"`
		Out  string            `json:"out"`
		Flat bool              `json:"flat"`
		P    int               `json:"p"`
	} `json:"c"`
	End    string `json:"end"`
	Len    int    `json:"len"`
	Report []int  `json:"report"`
}

// gosync runs the tool; exit status -1: killed after a minute
func gosyncTool(dir string, args ...string) (int, string) {
	return gosyncSlow(time.Minute, dir, args...)
}

func gosyncSlow(limit time.Duration, dir string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VH_GOSYNC"), args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err == nil {
		return 0, string(out)
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), string(out)
	}
	panic(err)
}

// the index as fileformat.md describes it
func indexBytes(ref []byte, bs int) []byte {
	b := []byte("G0S9NC")
	for _, v := range []uint16{0, 2, 1} {
		b = binary.LittleEndian.AppendUint16(b, v)
	}
	b = binary.LittleEndian.AppendUint64(b, uint64(len(ref)))
	b = binary.LittleEndian.AppendUint32(b, uint32(bs))
	for i := 0; i < len(ref); i += bs {
		d := ref[i:min(i+bs, len(ref))]
		s := md5.Sum(d)
		b = append(append(b, weakSum(d)...), s[:]...)
	}
	return b
}

// a named pipe with these bytes
func trickle(path string, data []byte, seed int) func() {
	must(syscall.Mkfifo(path, 0o644))
	ended := make(chan bool)
	go func() {
		defer close(ended)
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		for k := 0; len(data) > 0; k++ {
			n := 1 + (k+seed)%7
			if k > 20 {
				n = len(data)
			}
			if _, err := f.Write(data[:min(n, len(data))]); err != nil {
				return
			}
			data = data[min(n, len(data)):]
			time.Sleep(200 * time.Microsecond)
		}
	}()
	return func() { // the writer may still wait for a reader
		for {
			f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
			must(err)
			time.Sleep(time.Millisecond)
			f.Close()
			select {
			case <-ended:
				return
			default:
			}
		}
	}
}

// reference content: random, or with few distinct blocks
func cliRef(n, bs int, flat bool) []byte {
	rnd := rand.New(rand.NewSource(seed*31 + int64(n*7+bs)))
	b := make([]byte, n)
	for i := range b {
		if flat {
			b[i] = byte((i / bs) % 2)
		} else {
			b[i] = byte(rnd.Intn(256))
		}
	}
	return b
}

func cliLocal(ref []byte, bs int, kind string) []byte {
	rnd := rand.New(rand.NewSource(seed + int64(len(ref)+bs)))
	l := append([]byte(nil), ref...)
	switch kind {
	case "same":
	case "empty":
		return []byte{}
	case "shifted":
		l = append([]byte{1, 2, 3}, l...)
	case "late":
		l = append(bytes.Repeat([]byte{7}, bs-1), l...)
	case "hole":
		if len(l) > 0 {
			l[len(l)/2] ^= 0xff
		}
	case "shorter":
		l = l[:len(l)*2/3]
	case "longer":
		l = append(append(l, 9), l...)
	case "tail":
		l = l[len(l)-len(l)/2:]
	case "swapped":
		k := len(l) / 2 / bs * bs
		l = append(append([]byte(nil), l[k:]...), l[:k]...)
	case "foreign":
		for i := range l {
			l[i] = byte(rnd.Intn(256))
		}
	default:
		panic(kind)
	}
	return l
}

func runCli(c *Ctx, raw json.RawMessage) {
	var cs cliCase
	mustJSON(raw, &cs)
	c.Expect("C21")
	c.Step()
	x := cs.C
	name := string(raw)
	dir, err := os.MkdirTemp(c.Scratch, "cli")
	must(err)
	defer os.RemoveAll(dir)
	refDir, work := filepath.Join(dir, "ref"), filepath.Join(dir, "work")
	must(os.Mkdir(refDir, 0o755))
	must(os.Mkdir(work, 0o755))
	ref := cliRef(x.N, x.Bs, x.Flat)
	loc := cliLocal(ref, x.Bs, x.Loc)
	must(os.WriteFile(filepath.Join(refDir, "data.bin"), ref, 0o644))

	// build
	args := []string{"build", "--blocksize", fmt.Sprint(x.Bs), "data.bin"}
	if c.idx%4 == 1 {
		args = []string{"b", "--blocksize=" + fmt.Sprint(x.Bs), filepath.Join(refDir, "data.bin")}
	} else if x.Bs == 8192 {
		args = []string{"build", "data.bin"}
	}
	if rc, out := gosyncTool(refDir, args...); rc != 0 {
		c.Diverge("C21", "%s: building the index exits with %d: %s", name, rc, out)
		return
	}
	idxPath := filepath.Join(refDir, "data.gosync")
	idx, err := os.ReadFile(idxPath)
	if err != nil {
		c.Diverge("C21", "%s: no index: %v", name, err)
		return
	}
	want := indexBytes(ref, x.Bs)
	if !bytes.Equal(idx, want) || len(idx) != cs.Len {
		k := 0
		for k < len(idx) && k < len(want) && idx[k] == want[k] {
			k++
		}
		c.Diverge("C21", "%s: index of %d bytes, expected %d, different from byte %d on", name, len(idx), len(want), k)
		return
	}
	if now, _ := os.ReadFile(filepath.Join(refDir, "data.bin")); !bytes.Equal(now, ref) {
		c.Diverge("C21", "%s: building the index changed the file", name)
		return
	}

	// damage
	var kind string
	var at int
	mustJSON(x.Dmg[0], &kind)
	mustJSON(x.Dmg[1], &at)
	switch kind {
	case "cut":
		idx = idx[:at]
	case "extra":
		for i := 0; i < at; i++ {
			idx = append(idx, byte(i*17+3))
		}
	case "magic":
		idx[at] ^= 0x20
	case "major":
		binary.LittleEndian.PutUint16(idx[6:], uint16(at))
	case "minor":
		binary.LittleEndian.PutUint16(idx[8:], uint16(at))
	case "patch":
		binary.LittleEndian.PutUint16(idx[10:], uint16(at))
	case "size":
		binary.LittleEndian.PutUint64(idx[12:], uint64(int64(x.N+at)))
	case "bs0":
		binary.LittleEndian.PutUint32(idx[20:], 0)
	}
	must(os.WriteFile(idxPath, idx, 0o644))

	// an index that arrives bit by bit
	if c.idx%5 == 1 && x.Bad != "index" {
		must(os.Remove(idxPath))
		pipes, err := os.MkdirTemp(c.Scratch, "clip")
		must(err)
		defer os.RemoveAll(pipes)
		idxPath = filepath.Join(pipes, "pipe.gosync")
		done := trickle(idxPath, idx, c.idx)
		defer done()
	}

	local := filepath.Join(work, "local.bin")
	if x.Bad != "local" {
		must(os.WriteFile(local, loc, 0o644))
	}
	if x.Bad == "index" {
		must(os.Remove(idxPath))
	}

	if x.Cmd == "diff" {
		args := []string{"diff"}
		if x.P > 0 {
			args = append(args, "-p", fmt.Sprint(x.P))
		}
		before := snapshot(dir)
		rc, out := gosyncTool(work, append(args, local, idxPath)...)
		if fmt.Sprint(snapshot(dir)) != fmt.Sprint(before) {
			c.Diverge("C21", "%s: comparing changed files", name)
			return
		}
		if (rc == 0) != (cs.End == "done") {
			c.Diverge("C21", "%s: exit status %d, expected %s: %s", name, rc, cs.End, out)
			return
		}
		if rc == 0 && len(cs.Report) == 1 {
			m := regexp.MustCompile(`missing bytes: *(\d+)`).FindStringSubmatch(out)
			if m == nil {
				c.Note("diff prints no missing bytes")
			} else if v, _ := strconv.ParseInt(m[1], 10, 64); v > int64(cs.Report[0]*x.Bs) || v <= int64((cs.Report[0]-1)*x.Bs) {
				c.Diverge("C21", "%s: %s bytes are said to be missing, %d blocks are", name, m[1], cs.Report[0])
			}
		}
		return
	}

	bad, badTo := 0, 0
	if x.Bad == "source" {
		bad, badTo = x.At0*x.Bs, min((x.At0+1)*x.Bs, x.N)
	}
	srv := rangeServer(ref, bad, badTo, c.idx%4)
	defer srv.Close()
	if x.Bad == "place" {
		var once sync.Once
		serve := srv.Config.Handler
		srv.Config.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			once.Do(func() {
				must(os.Remove(local))
				if x.At0 == 0 {
					must(os.Mkdir(local, 0o755))
				} else {
					must(os.Symlink(unwritable, local))
				}
			})
			serve.ServeHTTP(w, r)
		})
	}
	url := srv.URL + "/data.bin"
	args = []string{"patch", local, idxPath, url}
	out := local
	if c.idx%4 == 2 {
		args[0] = "p"
	}
	other := filepath.Join(work, "patched.bin")
	switch x.Out {
	case "place":
	case "same":
		args = append(args, local)
	case "absent":
		out = other
		args = append(args, out)
	case "existing":
		out = other
		must(os.WriteFile(out, bytes.Repeat([]byte("old"), x.N/2+5), 0o644))
		if x.Bad == "full" {
			must(os.Remove(out))
			must(os.Symlink(unwritable, out))
		}
		args = append(args, out)
	}
	if x.Bad == "args" {
		args = append(args, "a", "b", "c", "d")[:1+x.At0]
	}
	before := snapshot(dir)
	rc, text := gosyncTool(work, args...)
	after := snapshot(dir)
	switch cs.End {
	case "done":
		if rc != 0 {
			c.Diverge("C21", "%s: exit status %d: %s", name, rc, text)
			return
		}
		if got, err := os.ReadFile(out); err != nil || !bytes.Equal(got, ref) {
			c.Diverge("C21", "%s: the output holds %d bytes (reference %d), %v", name, len(got), len(ref), err)
			return
		}
	case "refused":
		if rc == 0 {
			c.Diverge("C21", "%s: exit status 0 for an unusable index: %s", name, text)
			return
		}
		if fmt.Sprint(before) != fmt.Sprint(after) {
			c.Diverge("C21", "%s: files were created or changed although it was refused: %s", name, text)
			return
		}
	case "failed":
		if rc == 0 {
			if x.Bad == "place" && x.At0 == 1 { // the device may have been replaced
				if fi, err := os.Lstat(local); err == nil && fi.Mode().IsRegular() {
					if got, _ := os.ReadFile(local); bytes.Equal(got, ref) {
						return
					}
				}
			}
			c.Diverge("C21", "%s: exit status 0 after a failure: %s", name, text)
			return
		}
	}
	if strings.HasPrefix(text, "panic:") {
		c.Note("panic on stderr")
	}
	if x.Bad == "place" {
		return
	}
	if out != local && x.Bad != "local" {
		if now, _ := os.ReadFile(local); !bytes.Equal(now, loc) {
			c.Diverge("C20 C21", "%s: the local file was changed", name)
		}
	} else if cs.End == "failed" && x.Bad == "source" {
		if now, _ := os.ReadFile(local); !bytes.Equal(now, loc) {
			c.Diverge("C20 C21", "%s: the local file was changed by a failed patch", name)
		}
	}
}

// builds that cannot give a usable index
func runCliBuild(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Kind string `json:"kind"`
		Bs   string `json:"bs"`
	}
	mustJSON(raw, &cs)
	c.Expect("C21")
	c.Step()
	dir, err := os.MkdirTemp(c.Scratch, "clib")
	must(err)
	defer os.RemoveAll(dir)
	data := cliRef(100, 7, false)
	in := "data.bin"
	switch cs.Kind {
	case "size":
		must(os.WriteFile(filepath.Join(dir, in), data, 0o644))
	case "missing":
	case "folder":
		must(os.Mkdir(filepath.Join(dir, in), 0o755))
	case "full": // the index cannot be written
		must(os.WriteFile(filepath.Join(dir, in), data, 0o644))
		must(os.Symlink(unwritable, filepath.Join(dir, "data.gosync")))
	case "ownname": // the index would take the place of the file
		in = "data.gosync"
		must(os.WriteFile(filepath.Join(dir, in), data, 0o644))
	case "ownlink":
		must(os.WriteFile(filepath.Join(dir, in), data, 0o644))
		must(os.Symlink(in, filepath.Join(dir, "data.gosync")))
	}
	rc, out := gosyncTool(dir, "build", "--blocksize="+cs.Bs, in)
	if rc == 0 {
		c.Diverge("C21", "build of %s with block size %s exits with 0: %s", cs.Kind, cs.Bs, out)
	}
	if cs.Kind != "missing" && cs.Kind != "folder" {
		if now, _ := os.ReadFile(filepath.Join(dir, in)); !bytes.Equal(now, data) {
			c.Diverge("C21", "build of %s with block size %s destroyed the file: %s", cs.Kind, cs.Bs, out)
		}
	}
}

// IndexName.tla: the index lies beside the file
func runCliName(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Path []string `json:"path"`
		Cut  int      `json:"cut"`
	}
	mustJSON(raw, &cs)
	c.Expect("C21")
	c.Step()
	other := []string{"a", "z", " ", "\u00e9", "_"}[c.idx%5]
	slash := -1
	for i, ch := range cs.Path {
		if ch == "/" {
			slash = i
		}
	}
	for i, ch := range cs.Path {
		if ch == "a" {
			cs.Path[i] = other
			if i < slash {
				cs.Path[i] = "d"
			}
		}
	}
	top, err := os.MkdirTemp(c.Scratch, "clin")
	must(err)
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "x.y", "z.d") // directories with dots above
	must(os.MkdirAll(dir, 0o755))
	file, idx := strings.Join(cs.Path, ""), strings.Join(cs.Path[:cs.Cut], "")+".gosync"
	// not filepath.Join: it would clean the path
	var at string
	for _, p := range strings.SplitAfter(file, "/") {
		if strings.HasSuffix(p, "/") {
			at += p
			if err := os.Mkdir(dir+"/"+at, 0o755); err != nil && !os.IsExist(err) {
				panic(err)
			}
		}
	}
	data := cliRef(100, 7, false)
	must(os.WriteFile(dir+"/"+file, data, 0o644))
	arg := file
	if c.idx%2 == 1 {
		arg = dir + "/" + file
	}
	before := snapshot(top)
	rc, text := gosyncTool(dir, "build", "--blocksize", "16", arg)
	if rc != 0 {
		c.Diverge("C21", "build of %q exits with %d: %s", arg, rc, text)
		return
	}
	if got, err := os.ReadFile(dir + "/" + idx); err != nil || !bytes.Equal(got, indexBytes(data, 16)) {
		c.Diverge("C21", "build of %q: no index at %q (%v)", arg, idx, err)
		return
	}
	after := snapshot(top)
	for p, was := range before {
		if after[p] != was {
			c.Diverge("C21", "build of %q changed %s", arg, p)
		}
	}
	if len(after) != len(before)+1 {
		c.Diverge("C21", "build of %q: %d files and directories instead of %d", arg, len(after), len(before)+1)
	}
}
