// Package srv holds what the three model servers share: the log of everything a client sent, fault injection and results.
package srv

import (
	"errors"
	"fmt"
	"net"
	"sync"
)

// Event is one request a server received.
type Event struct {
	Conn  int
	Kind  string // connect auth query begin commit rollback
	SQL   string
	Args  []string
	Write bool // changes the catalog, if executed
	Err   string
}

// Column describes a result column; Kind is text, int, bool, bytes.
type Column struct {
	Name string
	Kind string
}

// Result is a result set; a nil cell is NULL.
type Result struct {
	Cols []Column
	Rows [][]interface{}
	Err  error // sent after the rows, in place of their end
}

// Core is embedded in the model servers.
type Core struct {
	Mu     sync.Mutex
	Log    []Event
	N      int
	Fault  func(n int, e *Event) error // asked before each request is executed; n counts requests from 0
	After  func(n int, e *Event)
	L      net.Listener
	conns  map[net.Conn]bool
	cmu    sync.Mutex
	closed bool
	// Inconclusive is set when the server met a request it cannot interpret.
	Inconclusive string
}

// Note records an event and asks the fault plan.
func (c *Core) Note(e Event) (int, error) {
	n := c.N
	c.N++
	var err error
	if c.Fault != nil {
		err = c.Fault(n, &e)
		if err != nil {
			e.Err = err.Error()
		}
	}
	c.Log = append(c.Log, e)
	return len(c.Log) - 1, err
}

// Reset forgets the log.
func (c *Core) Reset() {
	c.Mu.Lock()
	c.Log = nil
	c.N = 0
	c.Fault = nil
	c.Mu.Unlock()
}

// Events returns a copy of the log.
func (c *Core) Events() []Event {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	return append([]Event{}, c.Log...)
}

// Listen starts serving on addr ("127.0.0.1:0") or a unix socket path.
func (c *Core) Listen(network, addr string, serve func(net.Conn)) error {
	l, err := net.Listen(network, addr)
	if err != nil {
		return err
	}
	c.L = l
	c.conns = map[net.Conn]bool{}
	go c.accept(l, serve)
	return nil
}

// Also serves a second listener.
func (c *Core) Also(network, addr string, serve func(net.Conn)) (net.Listener, error) {
	l, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	if c.conns == nil {
		c.conns = map[net.Conn]bool{}
	}
	go c.accept(l, serve)
	return l, nil
}

func (c *Core) accept(l net.Listener, serve func(net.Conn)) {
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		c.cmu.Lock()
		c.conns[conn] = true
		c.cmu.Unlock()
		go func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Hangup); !ok {
						c.Mu.Lock()
						c.Inconclusive = fmt.Sprint("model server panic: ", r)
						c.Mu.Unlock()
					}
				}
				conn.Close()
				c.cmu.Lock()
				delete(c.conns, conn)
				c.cmu.Unlock()
			}()
			serve(conn)
		}()
	}
}

// Hangup is panicked to drop a connection.
type Hangup struct{}

// RowFault, from a fault plan, lets the result fail after some rows.
type RowFault int

func (r RowFault) Error() string { return fmt.Sprintf("injected failure after %d rows", int(r)) }

// Cut makes a result fail after n rows.
func (r RowFault) Cut(x *Result) *Result {
	o := &Result{Cols: x.Cols, Rows: x.Rows, Err: r}
	if int(r) < len(x.Rows) {
		o.Rows = x.Rows[:int(r)]
	}
	return o
}

// ErrHangup, from a fault plan, cuts the connection.
var ErrHangup = errors.New("the connection is cut")

// Port is the TCP port served.
func (c *Core) Port() int { return c.L.Addr().(*net.TCPAddr).Port }

// Close stops the server.
func (c *Core) Close() {
	if c.L != nil {
		c.L.Close()
	}
	c.cmu.Lock()
	for k := range c.conns {
		k.Close()
	}
	c.cmu.Unlock()
}
