package vh

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
)

// Compare.tla

func init() {
	suites["compare"] = &suite{run: runCompare}
}

type compareCase struct {
	Bs       int      `json:"bs"`
	Ref      []int    `json:"ref"`
	Loc      []int    `json:"loc"`
	P        int      `json:"p"`
	Sections int      `json:"sections"`
	Cnt      [3]int64 `json:"cnt"`
	Blocks   int64    `json:"blocks"`
	Matched  int64    `json:"matched"`
	Missing  int64    `json:"missing"`
}

var compareLabels = map[string]*regexp.Regexp{
	"blocksize": regexp.MustCompile(`(?i)block ?size: *(-?\d+)`),
	"entries":   regexp.MustCompile(`(?i)weak hash count: *(-?\d+)`),
	"cmp":       regexp.MustCompile(`(?i)comparisons: *(-?\d+)`),
	"weak":      regexp.MustCompile(`(?i)weak hash hits: *(-?\d+)`),
	"strong":    regexp.MustCompile(`(?i)strong hash hits: *(-?\d+)`),
	"matchedB":  regexp.MustCompile(`(?i)matched bytes: *(-?\d+)`),
	"matched":   regexp.MustCompile(`(?i)matched blocks: *(-?\d+)`),
	"blocks":    regexp.MustCompile(`(?i)index blocks: *(-?\d+)`),
	"missingB":  regexp.MustCompile(`(?i)missing bytes: *(-?\d+)`),
	"hitRate":   regexp.MustCompile(`(?i)hit rate: *(\S+)%`),
	"errRate":   regexp.MustCompile(`(?i)error rate: *(\S+)%`),
}

func runCompare(c *Ctx, raw json.RawMessage) {
	var cs compareCase
	mustJSON(raw, &cs)
	c.Expect("C26")
	dir, err := os.MkdirTemp(c.Scratch, "compare")
	must(err)
	defer os.RemoveAll(dir)
	units := []int{1} // bytes for each of the model's
	if cs.Sections > 1 {
		units = []int{1<<20/len(cs.Loc) + 1} // files from a megabyte on are cut
	} else if c.idx%3 == 0 {
		units = []int{1, 1 + 3000/(len(cs.Loc)+1)}
	}
	for _, u := range units {
		c.Step()
		ref, loc := toBytes(cs.Ref), toBytes(cs.Loc)
		if u > 1 {
			ref, loc = expand(cs.Ref, u), expand(cs.Loc, u)
		}
		bs := int64(cs.Bs * u)
		must(os.WriteFile(filepath.Join(dir, "i.gosync"), indexBytes(ref, int(bs)), 0o644))
		must(os.WriteFile(filepath.Join(dir, "local"), loc, 0o644))
		args := []string{"diff"}
		if cs.Sections > 1 || c.idx%2 == 0 {
			args = append(args, "-p", strconv.Itoa(cs.P))
		}
		rc, text := gosyncTool(dir, append(args, "local", "i.gosync")...)
		name := fmt.Sprintf("%d bytes for each, %v of %s", u, args, string(raw))
		if rc != 0 {
			c.Diverge("C21 C26", "%s: exit status %d: %s", name, rc, text)
			return
		}
		num := func(k string) (int64, bool) {
			m := compareLabels[k].FindStringSubmatch(text)
			if m == nil {
				c.Note(k + " is not printed")
				return 0, false
			}
			v, err := strconv.ParseInt(m[1], 10, 64)
			if err != nil {
				v = math.MinInt64
			}
			return v, true
		}
		ok := true
		want := func(k string, lo, hi int64) {
			if v, has := num(k); ok && has && (v < lo || v > hi) {
				ok = false
				c.Diverge("C26", "%s: %s is %d, expected %d to %d", name, k, v, lo, hi)
			}
		}
		exactly := func(k string, v int64) { want(k, v, v) }
		exactly("blocksize", bs)
		exactly("entries", cs.Blocks)
		exactly("blocks", cs.Blocks)
		exactly("matched", cs.Matched)
		// counted in full blocks, or to the byte
		want("matchedB", max(0, (cs.Matched-1)*bs+min(cs.Matched, 1)), cs.Matched*bs)
		want("missingB", max(0, (cs.Missing-1)*bs+min(cs.Missing, 1)), cs.Missing*bs)
		exactly("strong", cs.Cnt[2])
		if u == 1 {
			want("cmp", max(cs.Cnt[0]-1, 0), cs.Cnt[0]) // the emptied window at the end may be left out
			exactly("weak", cs.Cnt[1])
		} else {
			want("weak", cs.Cnt[2], math.MaxInt64)
		}
		cmp, has := num("cmp")
		weak, has2 := num("weak")
		strong, has3 := num("strong")
		if !ok || !has || !has2 || !has3 {
			return
		}
		if weak > cmp || strong > weak {
			c.Diverge("C26", "%s: %d comparisons, %d weak and %d strong hits", name, cmp, weak, strong)
			return
		}
		rate := func(k string, part, of int64) {
			m := compareLabels[k].FindStringSubmatch(text)
			if m == nil {
				return
			}
			if v, err := strconv.ParseFloat(m[1], 64); of == 0 || err != nil || math.Abs(v-100*float64(part)/float64(of)) > .51 {
				c.Diverge("C26", "%s: %s is %s%% for %d of %d", name, k, m[1], part, of)
			}
		}
		rate("hitRate", weak, cmp)
		rate("errRate", weak-strong, weak)
	}
}
