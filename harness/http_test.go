package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
)

// HttpFetch.tla, against a server that answers byte by byte as the case says

func init() {
	suites["http"] = &suite{run: runHttp}
}

type httpAnswer struct {
	Bs      int    `json:"bs"`
	Fs      int    `json:"fs"`
	First   int    `json:"first"`
	Last    int    `json:"last"`
	Conn    string `json:"conn"`
	Hops    int    `json:"hops"`
	Huge    bool   `json:"huge"`
	Interim bool   `json:"interim"`
	Status  int    `json:"status"`
	Gzip    string `json:"gzip"`
	Framing string `json:"framing"`
	Sent    int    `json:"sent"`
	Said    int    `json:"said"`
	Ended   bool   `json:"ended"`
}

type httpCase struct {
	C    httpAnswer `json:"c"`
	From int        `json:"from"`
	To   int        `json:"to"`
	Want string     `json:"want"`
}

type httpSeen struct{ method, uri, rng, enc string }

type scriptServer struct {
	l    net.Listener
	a    httpAnswer
	body []byte
	keep bool
	mu   sync.Mutex
	seen []httpSeen
	wg   sync.WaitGroup
}

func (s *scriptServer) serve() {
	for {
		conn, err := s.l.Accept()
		if err != nil {
			return
		}
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer conn.Close()
			s.one(conn)
		}()
	}
}

func (s *scriptServer) one(conn net.Conn) {
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	rd := bufio.NewReader(conn)
	for {
		r, err := http.ReadRequest(rd)
		if err != nil {
			return
		}
		s.mu.Lock()
		s.seen = append(s.seen, httpSeen{r.Method, r.RequestURI, strings.Join(r.Header["Range"], "|"), strings.Join(r.Header["Accept-Encoding"], ",")})
		s.mu.Unlock()
		hop := 0
		fmt.Sscanf(r.URL.Query().Get("hop"), "%d", &hop)
		if hop < s.a.Hops {
			fmt.Fprintf(conn, "HTTP/1.1 302 Found\r\nLocation: /file?x=1&hop=%d\r\nContent-Length: 0\r\n\r\n", hop+1)
			continue
		}
		switch s.a.Conn {
		case "closed":
			return
		case "garbage":
			fmt.Fprintf(conn, "this is not HTTP\r\n\r\n")
			return
		case "halfHeader":
			fmt.Fprintf(conn, "HTTP/1.1 206 Partial Content\r\nContent-Le")
			return
		}
		var b bytes.Buffer
		if s.a.Interim {
			b.WriteString("HTTP/1.1 100 Continue\r\n\r\n")
		}
		fmt.Fprintf(&b, "HTTP/1.1 %d X\r\n", s.a.Status)
		switch s.a.Gzip {
		case "no":
		case "two headers":
			b.WriteString("Content-Encoding: identity\r\nContent-Encoding: gzip\r\n")
		default:
			fmt.Fprintf(&b, "Content-Encoding: %s\r\n", s.a.Gzip)
		}
		again := s.keep
		switch s.a.Framing {
		case "length":
			fmt.Fprintf(&b, "Content-Length: %d\r\n", s.a.Said)
			again = again && s.a.Sent == s.a.Said
		case "chunked":
			b.WriteString("Transfer-Encoding: chunked\r\n")
			again = again && s.a.Ended
		default:
			b.WriteString("Connection: close\r\n")
			again = false
		}
		b.WriteString("\r\n")
		d := s.body[:s.a.Sent]
		if s.a.Framing == "chunked" {
			for len(d) > 0 {
				n := (len(d) + 1) / 2
				fmt.Fprintf(&b, "%x\r\n%s\r\n", n, d[:n])
				d = d[n:]
			}
			if s.a.Ended {
				b.WriteString("0\r\n\r\n")
			}
		} else {
			b.Write(d)
		}
		conn.Write(b.Bytes())
		if !again {
			return
		}
	}
}

type acceptAll struct{}

func (acceptAll) VerifyBlockRange(uint, []byte) bool { return true }

func runHttp(c *Ctx, raw json.RawMessage) {
	var cs httpCase
	mustJSON(raw, &cs)
	c.Expect("C18")
	c.Step()
	a := cs.C
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	bs, fs, from, to := int64(a.Bs), int64(a.Fs), int64(cs.From), int64(cs.To)
	if a.Huge {
		at := func(p int64) int64 { return p/int64(a.Bs)<<30 + p%int64(a.Bs) }
		bs, fs, from, to = 1<<30, at(fs), at(from), at(to)
	}
	s := &scriptServer{l: l, a: a, keep: c.idx%3 == 0}
	s.body = make([]byte, a.Sent+16)
	for i := range s.body {
		s.body[i] = byte(cs.From + i*7 + i>>8*31 + i>>16*3 + 1)
	}
	uri := "/file?x=1"
	url := "http://" + l.Addr().String() + uri
	switch a.Conn {
	case "refused":
		l.Close()
	case "badurl":
		url = []string{"http://[::1/x", "ht tp://x/", "nothing://127.0.0.1/", ""}[c.idx%4]
		l.Close()
	default:
		go s.serve()
	}
	src := blocksources.NewHttpBlockSource(url, 1+c.idx%3, blocksources.MakeFileSizedBlockResolver(uint64(bs), fs), acceptAll{})
	if err := src.RequestBlocks(patcher.MissingBlockSpan{BlockSize: bs, StartBlock: uint(a.First), EndBlock: uint(a.Last)}); err != nil {
		c.Diverge("C18", "the request was refused: %v", err)
		return
	}
	var data []byte
	got := ""
	select {
	case r := <-src.GetResultChannel():
		got, data = "ok", r.Data
		if r.StartBlock != uint(a.First) {
			c.Diverge("C18", "the answer for block %d is given out as block %d", a.First, r.StartBlock)
		}
	case e := <-src.EncounteredError():
		got = "err"
		var nf blocksources.URLNotFoundError
		if errors.As(e, &nf) {
			got = "notfound"
		}
	case <-time.After(8 * time.Second):
		c.Diverge("C18", "neither data nor an error for %+v", a)
		return
	}
	if got != "ok" {
		select {
		case r, ok := <-src.GetResultChannel():
			if !ok {
				break
			}
			c.Diverge("C18", "data (%d bytes) besides the error for %+v", len(r.Data), a)
		default:
		}
	}
	src.Close()
	l.Close()
	http.DefaultClient.CloseIdleConnections()
	if got != cs.Want {
		c.Diverge("C18", "%v, expected %v: %+v", got, cs.Want, a)
		return
	}
	if got == "ok" && !bytes.Equal(data, s.body[:cs.To-cs.From]) {
		c.Diverge("C18", "data (%d bytes) differ from what was sent: %+v", len(data), a)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	rng := fmt.Sprintf("bytes=%d-%d", from, to-1)
	if len(s.seen) == 0 && a.Conn != "refused" && a.Conn != "badurl" {
		c.Diverge("C18", "the server never saw a request: %+v", a)
	}
	for i, r := range s.seen {
		if r.method != "GET" || r.rng != rng {
			c.Diverge("C18", "request %d is %v with range %q, expected GET and %q", i, r.method, r.rng, rng)
			return
		}
		if !strings.HasPrefix(r.uri, uri) {
			c.Diverge("C18", "request %d asks for %q instead of %q", i, r.uri, uri)
			return
		}
		if r.enc == "" { // whatever coding the server likes
			c.Diverge("C18", "request %d does not ask for no compression", i)
			return
		}
		for _, e := range strings.FieldsFunc(r.enc, func(x rune) bool { return x == ',' || x == ' ' }) {
			if e != "identity" {
				c.Diverge("C18", "request %d accepts encoding %q", i, r.enc)
				return
			}
		}
	}
}
