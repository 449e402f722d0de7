// Package net stands in for the standard package where connections between nodes are concerned: listeners and
// connections live in this process. What is written on one end is read on the other, closing an end ends both,
// and closing a listener resets the connections it has not accepted.
package net

import (
	"errors"
	"io"
	std "net"
	"time"
)

// ErrClosed is the error of using what has been closed.
var ErrClosed = errors.New("use of closed network connection")
var errRefused = errors.New("dial tcp: connection refused")
var errInUse = errors.New("listen tcp: bind: address already in use")
var errPipe = errors.New("write: broken pipe")

// lock guards who listens where; it is a channel so that it is one in every mode of replaying.
var lock = make(chan bool, 1)
var ports = map[string]*listener{}

func with(f func()) {
	lock <- true
	f()
	<-lock
}

type address string

func (a address) Network() string { return "tcp" }
func (a address) String() string  { return string(a) }

type listener struct {
	at      string
	backlog chan *conn
	gone    chan bool
	closed  bool
}

func Listen(network, at string) (std.Listener, error) {
	l := &listener{at: at, backlog: make(chan *conn, 8), gone: make(chan bool)}
	var err error
	with(func() {
		if ports[at] != nil {
			err = errInUse
			return
		}
		ports[at] = l
	})
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (l *listener) Addr() std.Addr { return address(l.at) }

func (l *listener) Accept() (std.Conn, error) {
	select {
	case <-l.gone:
		return nil, ErrClosed
	default:
	}
	select {
	case <-l.gone:
		return nil, ErrClosed
	case c := <-l.backlog:
		return c, nil
	}
}

func (l *listener) Close() error {
	var err error
	with(func() {
		if l.closed {
			err = ErrClosed
			return
		}
		l.closed = true
		delete(ports, l.at)
		close(l.gone)
		for {
			select {
			case c := <-l.backlog:
				c.shut()
				continue
			default:
			}
			break
		}
	})
	return err
}

// Listening tells whether something listens at an address.
func Listening(at string) bool {
	r := false
	with(func() { r = ports[at] != nil })
	return r
}

func Dial(network, at string) (std.Conn, error) {
	a, b := make(chan byte, 8), make(chan byte, 8)
	here := &conn{in: a, out: b, gone: make(chan bool), at: address(at)}
	there := &conn{in: b, out: a, gone: make(chan bool), at: address("client")}
	here.peer, there.peer = there, here
	ok := false
	with(func() {
		if l := ports[at]; l != nil {
			l.backlog <- there
			ok = true
		}
	})
	if !ok {
		return nil, errRefused
	}
	return here, nil
}

func DialTimeout(network, at string, d time.Duration) (std.Conn, error) { return Dial(network, at) }

type conn struct {
	in, out chan byte
	gone    chan bool
	peer    *conn
	closed  bool
	at      address
}

func (c *conn) shut() {
	if !c.closed {
		c.closed = true
		close(c.gone)
	}
}

func (c *conn) Close() error {
	var err error
	with(func() {
		if c.closed {
			err = ErrClosed
		}
		c.shut()
	})
	return err
}

func (c *conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	select {
	case <-c.gone:
		return 0, ErrClosed
	default:
	}
	select {
	case x := <-c.in:
		b[0] = x
		return 1, nil
	default:
	}
	select {
	case <-c.gone:
		return 0, ErrClosed
	case x := <-c.in:
		b[0] = x
		return 1, nil
	case <-c.peer.gone:
		return 0, io.EOF
	}
}

func (c *conn) Write(b []byte) (n int, err error) {
	with(func() {
		switch {
		case c.closed:
			err = ErrClosed
		case c.peer.closed:
			err = errPipe
		default:
			for _, x := range b {
				c.out <- x
				n++
			}
		}
	})
	return
}

func (c *conn) LocalAddr() std.Addr                { return address("") }
func (c *conn) RemoteAddr() std.Addr               { return c.at }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
