package vh

import (
	"bytes"
	"encoding/json"

	"github.com/Redundancy/go-sync/circularbuffer"
	"github.com/Redundancy/go-sync/rollsum"
)

func init() {
	suites["window"] = &suite{run: runWindow}
	suites["rolling"] = &suite{run: runRolling}
}

func toBytes(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

func mustJSON(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(err)
	}
}

// Window.tla against circularbuffer.C2
func runWindow(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Bs  int
		Ops []struct {
			Op      string
			N       int
			Res     []int
			Content []int
		}
	}
	mustJSON(raw, &cs)
	c.Expect("C14")
	u := 1 // bytes for each of the model's
	switch {
	case c.idx%499 == 5:
		u = 70000/cs.Bs + 1
	case c.idx%20 == 3:
		u = 300/cs.Bs + 1
	}
	toBytes := func(v []int) []byte {
		if u == 1 {
			return toBytes(v)
		}
		b := make([]byte, len(v)*u)
		for i := range b {
			b[i] = byte(v[i/u]*37 + i%u*7 + i%u>>8)
		}
		return b
	}
	if c.idx%deepEvery == 7 {
		ops := [][2]int{}
		for _, o := range cs.Ops {
			ops = append(ops, [2]int{map[string]int{"write": 1, "truncate": 2}[o.Op], o.N})
		}
		runWindowDeep(c, cs.Bs, ops)
	}
	buf := circularbuffer.MakeC2Buffer(cs.Bs * u)
	cnt := 0
	for k, o := range cs.Ops {
		c.Step()
		switch o.Op {
		case "write":
			v := make([]int, o.N)
			for i := range v {
				cnt++
				v[i] = cnt
			}
			b := toBytes(v)
			in := append([]byte(nil), b...)
			buf.Write(in)
			if !bytes.Equal(in, b) {
				c.Diverge("C14", "op %d: Write changed its argument", k)
				return
			}
			// looking must not change anything
			for j := 0; j < 2; j++ {
				if got := append([]byte(nil), buf.Evicted()...); !bytes.Equal(got, toBytes(o.Res)) {
					c.Diverge("C14", "op %d (write %d): evicted %v, specification %v, %d bytes for each", k, o.N, head(got), o.Res, u)
					return
				}
			}
		case "truncate":
			if got := append([]byte(nil), buf.Truncate(o.N*u)...); !bytes.Equal(got, toBytes(o.Res)) {
				c.Diverge("C14", "op %d (truncate %d): returned %v, specification %v, %d bytes for each", k, o.N, head(got), o.Res, u)
				return
			}
		case "reset":
			buf.Reset()
		}
		for j := 0; j < 2; j++ {
			if got := buf.GetBlock(); !bytes.Equal(got, toBytes(o.Content)) {
				c.Diverge("C14", "op %d (%s %d): content %v, specification %v, %d bytes for each", k, o.Op, o.N, head(got), o.Content, u)
				return
			}
			if buf.Len() != len(o.Content)*u || buf.Empty() != (len(o.Content) == 0) {
				c.Diverge("C14", "op %d (%s %d): Len %d Empty %v, specification has %d bytes", k, o.Op, o.N, buf.Len(), buf.Empty(), len(o.Content))
				return
			}
		}
	}
}

const deepEvery = 1999

// The content is all that counts, not how much was written before: the same
// operations on a window with gigabytes behind it and on a new one
func runWindowDeep(c *Ctx, bs int, ops [][2]int) {
	const unit = 1 << 16
	size := bs * unit
	for _, gb := range []int{2, 4} {
		c.Step()
		old, fresh := circularbuffer.MakeC2Buffer(size), circularbuffer.MakeC2Buffer(size)
		fill := make([]byte, size)
		for i := range fill {
			fill[i] = byte(i*7 + i>>8)
		}
		for n := gb<<30 - size - unit; n > 0; n -= size {
			old.Write(fill[:min(n, size)])
		}
		old.Write(fill)
		fresh.Write(fill)
		for k, o := range append([][2]int{{1, 1}, {1, 1}, {2, 1}}, ops...) {
			if o[0] == 0 {
				break
			}
			a, b := []byte{}, []byte{}
			if o[0] == 1 {
				in := make([]byte, o[1]*unit)
				for i := range in {
					in[i] = byte(k*31 + i*13 + i>>8)
				}
				old.Write(in)
				fresh.Write(in)
				a, b = old.Evicted(), fresh.Evicted()
			} else {
				a, b = old.Truncate(o[1]*unit), fresh.Truncate(o[1]*unit)
			}
			if !bytes.Equal(a, b) || !bytes.Equal(old.GetBlock(), fresh.GetBlock()) || old.Len() != fresh.Len() || old.Empty() != fresh.Empty() {
				c.Diverge("C14", "operation %d of %v: a window of %d bytes that has seen %d GB differs from a new one (%d and %d bytes of content, %d and %d returned)", k, ops, size, gb, old.Len(), fresh.Len(), len(a), len(b))
				return
			}
		}
	}
}

// Rolling.tla against rollsum.Rollsum32Base ("base") and rollsum.Rollsum32 ("hash")
func runRolling(c *Ctx, raw json.RawMessage) {
	var cs struct {
		Kind string
		Bs   int
		Ops  []struct {
			Op   string
			P    [2]int
			N, M int
			A, B int
			Len  int
		}
	}
	mustJSON(raw, &cs)
	c.Expect("C13")
	gen := func(p [2]int, n int) []byte {
		b := make([]byte, n)
		for k := range b {
			b[k] = byte((p[0] + (k+1)*p[1]) % 256)
		}
		return b
	}
	var win []byte
	base := rollsum.NewRollsum32Base(uint(cs.Bs))
	hash := rollsum.NewRollsum32(uint(cs.Bs))
	if hash.BlockSize() != cs.Bs || hash.Size() != 4 || base.Size() != 4 {
		c.Diverge("C13", "block size %d and sizes %d, %d for %d", hash.BlockSize(), hash.Size(), base.Size(), cs.Bs)
	}
	// the same through single byte operations
	single := rollsum.NewRollsum32Base(uint(cs.Bs))
	for k, o := range cs.Ops {
		c.Step()
		add := gen(o.P, o.N)
		switch o.Op {
		case "reset":
			base.Reset()
			single.Reset()
			hash.Reset()
			win = nil
		case "add":
			base.AddBytes(add)
			for _, x := range add {
				single.AddByte(x)
			}
			win = append(win, add...)
		case "remove":
			base.RemoveBytes(append([]byte(nil), win[:o.N]...), len(win))
			for j, x := range win[:o.N] {
				single.RemoveByte(x, len(win)-j)
			}
			win = win[o.N:]
		case "addremove":
			base.AddAndRemoveBytes(add, append([]byte(nil), win[:o.M]...), len(win))
			for j, x := range win[:o.M] {
				single.RemoveByte(x, len(win)-j)
			}
			for _, x := range add {
				single.AddByte(x)
			}
			win = append(append([]byte(nil), win[o.M:]...), add...)
		case "set":
			base.SetBlock(add)
			single.SetBlock(add)
			win = add
		case "write":
			in := append([]byte(nil), add...)
			n, err := hash.Write(in)
			if n != len(add) || err != nil || !bytes.Equal(in, add) {
				c.Diverge("C13", "op %d: Write of %d bytes returned %d, %v", k, len(add), n, err)
				return
			}
			win = append(append([]byte(nil), win...), add...)
			if len(win) > cs.Bs {
				win = win[len(win)-cs.Bs:]
			}
		}
		if len(win) != o.Len {
			panic("the harness lost the window")
		}
		want := []byte{byte(o.A), byte(o.A >> 8), byte(o.B), byte(o.B >> 8)}
		if cs.Kind == "base" {
			for j, r := range []*rollsum.Rollsum32Base{base, base, single} {
				got := []byte{9, 9, 9, 9}
				r.GetSum(got)
				if !bytes.Equal(got, want) {
					c.Diverge("C13", "op %d (%s %d %d, look %d): sum %v, from scratch over the %d bytes of the window %v", k, o.Op, o.N, o.M, j, got, len(win), want)
					return
				}
			}
			continue
		}
		// Sum appends, whatever the capacity
		for j, pre := range [][]byte{nil, {}, {7}, append(make([]byte, 0, 16), 7, 8), make([]byte, 2, 5)} {
			got := hash.Sum(pre)
			if len(got) != len(pre)+4 || !bytes.Equal(got[:len(pre)], pre) || !bytes.Equal(got[len(pre):], want) {
				c.Diverge("C13", "op %d (%s %d, Sum variant %d): sum %v, from scratch over the %d bytes of the window %v after %v", k, o.Op, o.N, j, got, len(win), want, pre)
				return
			}
		}
		if !bytes.Equal(hash.GetLastBlock(), win) {
			c.Diverge("C13 C14", "op %d (%s %d): GetLastBlock %v, written %v", k, o.Op, o.N, hash.GetLastBlock(), win)
			return
		}
	}
}
