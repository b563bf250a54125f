// Package web is the server side of a download: an HTTP proxy on the loopback interface answering
// as scripted, failures of every layer included.
package web

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/amarin/gomorphy/verif/pbt"
)

// Ways an answer can come.
const (
	Whole     = iota // complete
	Drop             // connection closed before a byte of an answer
	Reset            // connection reset before a byte of an answer
	Garbage          // not HTTP
	CutHead          // closed inside the header
	CutBody          // closed inside the body, whose length had been told
	CutChunk         // closed inside a chunked body
	ResetBody        // reset inside the body
	Chunked          // complete, in chunks
	ToEnd            // complete, the end of the connection ends it
	Kinds
)

var kindNames = []string{"complete", "dropped", "reset", "garbage", "cut in the header", "cut in the body", "cut in a chunk", "reset in the body", "complete in chunks", "complete to the end"}

// KindName names a kind.
func KindName(k int) string { return kindNames[k] }

const movedTo = "http://moved.test/"

// address is where the dictionary is; there is nothing elsewhere.
const address = "http://opencorpora.org/files/export/dict/dict.opcorpora.xml.bz2"

// Answer is what a request gets.
type Answer struct {
	Kind   int
	Status int
	LM     string // Last-Modified, none if empty
	// Location of a redirection, none if empty
	Location string
	Body     []byte
	Cut      int    // bytes of the body sent when it is cut
	Half     func() // called when half of a complete answer is on its way
	Length   int    // told of an answer to HEAD: 0 that of the body, 1 none, otherwise 2 less
	Moved    int    // the answer is at another address, and this status tells so
}

// Good tells if the client gets a whole answer of status 200.
func (a Answer) Good() bool {
	return a.Status == 200 && (a.Kind == Whole || a.Kind == Chunked || a.Kind == ToEnd)
}

// Server answers by script.
type Server struct {
	mu     sync.Mutex
	answer func(method string, n int) Answer // n: earlier requests with the method
	log    []string
	counts map[string]int
	moved  []Answer
	addr   string
}

var (
	once   sync.Once
	server *Server
)

// Start returns the server, which serves all of the process; its environment makes clients use it.
func Start() *Server {
	once.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		pbt.Must(err)
		server = &Server{addr: l.Addr().String(), counts: map[string]int{}}
		for _, kv := range server.Env() {
			k, v, _ := strings.Cut(kv, "=")
			pbt.Must(os.Setenv(k, v))
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go server.serve(c)
			}
		}()
	})
	return server
}

// Env is the environment of a client.
func (s *Server) Env() []string {
	u := "http://" + s.addr
	return []string{"HTTP_PROXY=" + u, "http_proxy=" + u, "NO_PROXY=", "no_proxy=", "REQUEST_METHOD="}
}

// Script sets the answers and forgets earlier requests.
func (s *Server) Script(answer func(method string, n int) Answer) {
	s.mu.Lock()
	s.answer, s.log, s.counts, s.moved = answer, nil, map[string]int{}, nil
	s.mu.Unlock()
}

// Count is the number of requests with a method since the script was set.
func (s *Server) Count(method string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.counts[method]
}

// Requests lists requests since the script was set.
func (s *Server) Requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.log...)
}

func (s *Server) serve(conn net.Conn) {
	defer func() { _ = conn.Close() }()
	_ = conn.SetDeadline(time.Now().Add(time.Minute))
	r := bufio.NewReader(conn)
	first, err := r.ReadString('\n')
	if err != nil {
		return
	}
	header := map[string]string{}
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		if strings.TrimSpace(line) == "" {
			break
		}
		k, v, _ := strings.Cut(line, ":")
		header[strings.ToLower(k)] = strings.TrimSpace(v)
	}
	method, rest, _ := strings.Cut(strings.TrimSpace(first), " ")
	s.mu.Lock()
	var a Answer
	var n int
	if _, err := fmt.Sscanf(rest, movedTo+"%d", &n); err == nil && n < len(s.moved) {
		a = s.moved[n]
	} else if url, _, _ := strings.Cut(rest, " "); url != address && !strings.Contains(url, ".test/") {
		a = Answer{Status: 404, Body: []byte("no such page")}
	} else {
		if s.answer == nil {
			a.Kind = Drop
		} else {
			a = s.answer(method, s.counts[method])
		}
		s.counts[method]++
		if a.Moved != 0 {
			s.moved = append(s.moved, a)
			a = Answer{Status: a.Moved, Location: fmt.Sprintf("%s%d", movedTo, len(s.moved)-1), Body: []byte("moved")}
		}
	}
	s.log = append(s.log, method+" "+rest)
	s.mu.Unlock()

	// what servers do when asked for a part, or for something newer
	part := ""
	if a.Good() && method == "GET" {
		var from int
		since, serr := time.Parse(time.RFC1123, header["if-modified-since"])
		at, aerr := time.Parse(time.RFC1123, a.LM)
		switch {
		case serr == nil && aerr == nil && !at.After(since):
			a.Status = 304
		case header["if-range"] != "" && header["if-range"] != a.LM:
		case strings.HasPrefix(header["range"], "bytes="):
			if n, _ := fmt.Sscanf(header["range"], "bytes=%d-", &from); n == 1 && strings.HasSuffix(header["range"], "-") {
				if from < len(a.Body) {
					part = fmt.Sprintf("bytes %d-%d/%d", from, len(a.Body)-1, len(a.Body))
					a.Status, a.Body = 206, a.Body[from:]
				} else {
					part = fmt.Sprintf("bytes */%d", len(a.Body))
					a.Status, a.Body = 416, nil
				}
			}
		}
	}

	reset := func() {
		if tcp, ok := conn.(*net.TCPConn); ok {
			_ = tcp.SetLinger(0)
		}
	}
	var b bytes.Buffer
	switch a.Kind {
	case Drop:
		return
	case Reset:
		reset()
		return
	case Garbage:
		_, _ = conn.Write([]byte("SSH-2.0-nothing you would expect\r\n\r\n"))
		return
	}
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\nServer: scripted\r\nDate: %s\r\nConnection: close\r\n", a.Status, "Scripted", time.Now().UTC().Format("Mon, 02 Jan 2006 15:04:05")+" GMT")
	if a.LM != "" {
		fmt.Fprintf(&b, "Last-Modified: %s\r\n", a.LM)
	}
	if part != "" {
		fmt.Fprintf(&b, "Content-Range: %s\r\n", part)
	}
	if a.Location != "" {
		fmt.Fprintf(&b, "Location: %s\r\n", a.Location)
	}
	body := a.Body
	if method == "HEAD" || a.Status == 204 || a.Status == 304 {
		body = nil
	}
	switch {
	case a.Kind == CutHead:
		_, _ = conn.Write(b.Bytes())
		return
	case a.Status == 204 || a.Status == 304:
	case a.Length > 1 && method == "HEAD":
		fmt.Fprintf(&b, "Content-Length: %d\r\n", a.Length-2)
	case a.Length == 1 && method == "HEAD":
	case a.Kind == Chunked || a.Kind == CutChunk:
		b.WriteString("Transfer-Encoding: chunked\r\n")
	case a.Kind != ToEnd:
		n := len(a.Body)
		if n == 0 && (a.Kind == CutBody || a.Kind == ResetBody) {
			n = 1
		}
		fmt.Fprintf(&b, "Content-Length: %d\r\n", n)
	}
	b.WriteString("\r\n")
	cut := a.Cut
	if cut < 0 || cut >= len(body) {
		cut = len(body) - 1 // never all of it
	}
	if cut < 0 {
		cut = 0
	}
	switch a.Kind {
	case CutBody, ResetBody:
		b.Write(body[:cut])
	case Chunked, CutChunk:
		if method == "HEAD" || a.Status == 204 || a.Status == 304 {
			break
		}
		send := body
		if a.Kind == CutChunk {
			send = body[:cut]
		}
		for len(send) > 0 {
			n := len(send)/2 + 1
			fmt.Fprintf(&b, "%x\r\n", n)
			b.Write(send[:n])
			b.WriteString("\r\n")
			send = send[n:]
		}
		if a.Kind == Chunked {
			b.WriteString("0\r\n\r\n")
		}
	default:
		b.Write(body)
	}
	if a.Half != nil && len(body) > 1 {
		head := b.Len() - len(body)/2
		_, _ = conn.Write(b.Bytes()[:head])
		b.Next(head)
		a.Half()
	}
	_, _ = conn.Write(b.Bytes())
	if a.Kind == ResetBody {
		// what was sent may arrive before the reset, or not
		reset()
		return
	}
	if tcp, ok := conn.(*net.TCPConn); ok {
		_ = tcp.CloseWrite()
		// the client closes: no reset may overtake the data
		_, _ = r.ReadByte()
	}
}
