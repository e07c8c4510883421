// Package vnet stands in for net: an in-memory network of one host.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// SimMsg is one request on its way to a server.
type SimMsg struct {
	Method, Path string
	Header       map[string][]string
	Body         []byte
	Cut          bool // the connection breaks after Body
	Reset        bool // refused after it was queued
	From         *vsim.Proc
	Done         bool
	Status       int
	Code         int           // what the handler answered, whether or not it got through
	Len          int           // declared length, 0 if that of Body
	BodyStall    time.Duration // the body stops arriving for so long half-way
	Resp         []byte
	RespHeader   map[string][]string
	Err          error
	Clk          vsim.Clock
	// the harness tags messages it wants to follow
	Tag any
	// Taken is set when the server starts handling the message, Handled when
	// the handler returned.
	Taken, Handled bool
	GotPanic       any
}

type SimListener struct {
	Host   string
	Port   int
	Queue  []*SimMsg
	Closed bool
	Clk    vsim.Clock
}

func (l *SimListener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.ParseIP("127.0.0.1"), Port: l.Port}
}

func (l *SimListener) Close() error {
	vsim.Op("listener.close")
	if l.Closed {
		return net.ErrClosed
	}
	SimUnbind(l)
	return nil
}

// Accept is only there for the interface: servers take requests off the queue.
func (l *SimListener) Accept() (net.Conn, error) {
	vsim.Block("accept", func() bool { return l.Closed })
	return nil, net.ErrClosed
}

type network struct {
	bound map[int]*SimListener
	next  int
}

func nw() *network {
	n, _ := vsim.W.Vals["net"].(*network)
	if n == nil {
		n = &network{bound: map[int]*SimListener{}, next: 40000}
		vsim.W.Vals["net"] = n
	}
	return n
}

func SimUnbind(l *SimListener) {
	l.Closed = true
	vsim.Logf("port %d closed", l.Port)
	if nw().bound[l.Port] == l {
		delete(nw().bound, l.Port)
	}
	for _, m := range l.Queue {
		if !m.Done {
			m.Err, m.Done = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}, true
		}
	}
	l.Queue = nil
}

// SimBound returns the listener of a port, or nil.
func SimBound(port int) *SimListener { return nw().bound[port] }

// SimPorts lists the ports in use.
func SimPorts() []int {
	var ps []int
	for p := range nw().bound {
		ps = append(ps, p)
	}
	vsim.SortAny(ps)
	return ps
}

// SimOccupy takes a port on behalf of some other program.
func SimOccupy(port int) { nw().bound[port] = &SimListener{Port: port} }

func SimBind(addr string) (*SimListener, error) {
	vsim.Op("listen")
	host, ps, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	port, err := strconv.Atoi(ps)
	if ps == "" {
		port, err = 0, nil
	}
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: &net.AddrError{Err: "invalid port", Addr: addr}}
	}
	n := nw()
	if port == 0 {
		n.next++
		port = n.next
	}
	if vsim.Chance("listen", "listen on "+addr+" fails", listenRate()) {
		vsim.CountFault("listen_error")
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("listen", syscall.EMFILE)}
	}
	if n.bound[port] != nil {
		vsim.CountFault("port_in_use")
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &SimListener{Host: host, Port: port}
	n.bound[port] = l
	vsim.Logf("port %d bound", port)
	return l, nil
}

func listenRate() int {
	r, _ := vsim.W.Vals["listenfault"].(int)
	return r
}

type Listener = net.Listener

func Listen(network, address string) (net.Listener, error) {
	if !strings.HasPrefix(network, "tcp") {
		return nil, errors.New("simulated network: tcp only")
	}
	l, err := SimBind(address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// SimConn is what Dial returns: it can tell that a port accepts connections,
// nothing more.
type SimConn struct{ l *SimListener }

func (c *SimConn) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c *SimConn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *SimConn) Close() error                       { return nil }
func (c *SimConn) LocalAddr() net.Addr                { return c.l.Addr() }
func (c *SimConn) RemoteAddr() net.Addr               { return c.l.Addr() }
func (c *SimConn) SetDeadline(t time.Time) error      { return nil }
func (c *SimConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *SimConn) SetWriteDeadline(t time.Time) error { return nil }

func Dial(network, address string) (net.Conn, error) { return DialTimeout(network, address, 0) }

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	vsim.Op("dial")
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, _ := strconv.Atoi(ps)
	l := nw().bound[port]
	if l == nil {
		return nil, SimRefused()
	}
	return &SimConn{l}, nil
}

func SimRefused() error {
	return &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
}

func SimReset() error {
	return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
}

var _ = fmt.Sprint
