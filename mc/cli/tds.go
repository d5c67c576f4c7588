package cli

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
	"unicode/utf16"
)

// tdsLogin is as much of a SQL Server as is needed to see who wants to log in; it refuses everybody.
type tdsLogin struct {
	l    net.Listener
	mu   sync.Mutex
	seen [][3]string // user, password, database
}

func newTDS(addr string) (*tdsLogin, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	t := &tdsLogin{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go t.serve(c)
		}
	}()
	return t, nil
}

func (t *tdsLogin) port() int { return t.l.Addr().(*net.TCPAddr).Port }

func (t *tdsLogin) take() [][3]string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := t.seen
	t.seen = nil
	return s
}

func tdsRead(c net.Conn) (kind byte, body []byte, err error) {
	for {
		h := make([]byte, 8)
		if _, err = io.ReadFull(c, h); err != nil {
			return
		}
		kind = h[0]
		b := make([]byte, int(binary.BigEndian.Uint16(h[2:]))-8)
		if _, err = io.ReadFull(c, b); err != nil {
			return
		}
		body = append(body, b...)
		if h[1]&1 == 1 {
			return
		}
	}
}

func tdsWrite(c net.Conn, body []byte) {
	h := make([]byte, 8)
	h[0], h[1] = 4, 1
	binary.BigEndian.PutUint16(h[2:], uint16(8+len(body)))
	c.Write(append(h, body...))
}

func ucs2(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}

func (t *tdsLogin) serve(c net.Conn) {
	defer c.Close()
	for {
		kind, b, err := tdsRead(c)
		if err != nil {
			return
		}
		switch kind {
		case 0x12:
			tdsWrite(c, []byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xff, 14, 0, 0, 0, 0, 0, 2})
		case 0x10:
			field := func(at int) []byte {
				off, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
				return b[off : off+2*n]
			}
			pw := append([]byte{}, field(44)...)
			for i, x := range pw {
				x ^= 0xa5
				pw[i] = x<<4 | x>>4
			}
			t.mu.Lock()
			t.seen = append(t.seen, [3]string{ucs2(field(40)), ucs2(pw), ucs2(field(68))})
			t.mu.Unlock()
			// ERROR 18456 and DONE
			msg := utf16.Encode([]rune("Login failed"))
			e := []byte{0x58, 0x48, 0, 0, 1, 14, byte(len(msg)), 0}
			for _, u := range msg {
				e = append(e, byte(u), byte(u>>8))
			}
			e = append(e, 0, 0, 1, 0, 0, 0) // server, procedure, line
			out := append([]byte{0xaa, byte(len(e)), byte(len(e) >> 8)}, e...)
			out = append(out, 0xfd, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
			tdsWrite(c, out)
			return
		default:
			return
		}
	}
}
