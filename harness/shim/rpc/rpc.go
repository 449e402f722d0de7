// Package rpc stands in for net/rpc: nodes are objects in this process, every call copies its argument and
// reply through gob, and the harness decides which nodes cannot be reached.
package rpc

import (
	"errors"
	"io"
	stdnet "net"
	"strings"
	"trypo/zzverif/shim/net"
	"trypo/zzverif/sym"
)

// ServerError represents an error that has been returned from the remote side.
type ServerError string

func (e ServerError) Error() string { return string(e) }

var ErrShutdown = errors.New("connection is shut down")
var errRefused = errors.New("dial tcp: connection refused")
var errLost = errors.New("unexpected EOF")

// Phases of a call at which the network can fail.
const (
	Dialling = iota
	Sending  // lost before the node sees the request
	Replying // executed, but the reply is lost
)

// Nodes maps addresses to the receivers listening there.
var Nodes = map[string]interface{}{}

// Fault decides whether the network fails at a point of a call; harnesses replace it.
var Fault = func(addr, method string, phase int) bool { return false }

// Trace is told about every call that reaches a node; harnesses replace it.
var Trace = func(addr, method string, args interface{}) {}

// Client is a connection to one node: to one of Nodes, or, by way of conn, to whatever serves its other end.
type Client struct {
	addr   string
	closed bool
	conn   io.ReadWriteCloser
	busy   chan bool
}

func Dial(network, address string) (*Client, error) {
	if net.Listening(address) {
		conn, err := net.Dial(network, address)
		if err != nil {
			return nil, err
		}
		return NewClient(conn), nil
	}
	if _, ok := Nodes[address]; !ok || Fault(address, "", Dialling) {
		return nil, errRefused
	}
	return &Client{addr: address}, nil
}

func DialHTTP(network, address string) (*Client, error)           { return Dial(network, address) }
func DialHTTPPath(network, address, path string) (*Client, error) { return Dial(network, address) }

func NewClient(conn io.ReadWriteCloser) *Client {
	return &Client{conn: conn, busy: make(chan bool, 1)}
}

// A request and its answer are one byte on a connection each: the request's place in this table.
type request struct {
	method      string
	args, reply interface{}
	err         error
}

var requests [256]*request
var nrequests int
var lock = make(chan bool, 1)

func (c *Client) overConn(method string, args, reply interface{}) error {
	r := &request{method: method, args: args, reply: reply}
	lock <- true
	i := nrequests
	nrequests = (i + 1) % len(requests)
	requests[i] = r
	<-lock
	c.busy <- true
	defer func() { <-c.busy }()
	if _, err := c.conn.Write([]byte{byte(i)}); err != nil {
		return ErrShutdown
	}
	b := []byte{0}
	if _, err := c.conn.Read(b); err != nil {
		return ErrShutdown
	}
	if r.err != nil {
		return ServerError(r.err.Error())
	}
	return nil
}

func (c *Client) Call(serviceMethod string, args interface{}, reply interface{}) error {
	if c.conn != nil {
		return c.overConn(serviceMethod, args, reply)
	}
	if c.closed {
		return ErrShutdown
	}
	node := Nodes[c.addr]
	method, err := methodOf(serviceMethod)
	if err != nil {
		return err
	}
	if Fault(c.addr, method, Sending) {
		return errLost
	}
	Trace(c.addr, method, args)
	lost := Fault(c.addr, method, Replying)
	if lost {
		reply = nil
	}
	err = sym.Invoke(node, method, args, reply)
	if lost {
		return errLost
	}
	if err != nil {
		return ServerError(err.Error())
	}
	return nil
}

func methodOf(serviceMethod string) (string, error) {
	i := strings.LastIndex(serviceMethod, ".")
	if i < 0 {
		return "", ServerError("rpc: service/method request ill-formed: " + serviceMethod)
	}
	if serviceMethod[:i] != "KMeansServer" {
		return "", ServerError("rpc: can't find service " + serviceMethod)
	}
	return serviceMethod[i+1:], nil
}

// Call is an asynchronous call.
type Call struct {
	ServiceMethod string
	Args          interface{}
	Reply         interface{}
	Error         error
	Done          chan *Call
}

func (c *Client) Go(serviceMethod string, args interface{}, reply interface{}, done chan *Call) *Call {
	if done == nil {
		done = make(chan *Call, 10)
	}
	call := &Call{ServiceMethod: serviceMethod, Args: args, Reply: reply, Done: done}
	go func() {
		call.Error = c.Call(serviceMethod, args, reply)
		done <- call
	}()
	return call
}

func (c *Client) Close() error {
	if c.conn != nil {
		return c.conn.Close()
	}
	if c.closed {
		return ErrShutdown
	}
	c.closed = true
	return nil
}

// Server answers the requests coming over the connections it is given.
type Server struct{ rcvr interface{} }

func NewServer() *Server { return &Server{} }

func (s *Server) Register(rcvr interface{}) error                  { s.rcvr = rcvr; return nil }
func (s *Server) RegisterName(name string, rcvr interface{}) error { s.rcvr = rcvr; return nil }

func (s *Server) ServeConn(conn io.ReadWriteCloser) {
	for {
		b := []byte{0}
		if n, err := conn.Read(b); n == 0 || err != nil {
			break
		}
		lock <- true
		r := requests[b[0]]
		<-lock
		method, err := methodOf(r.method)
		if err == nil {
			Trace("", method, r.args)
			err = sym.Invoke(s.rcvr, method, r.args, r.reply)
		}
		r.err = err
		if _, err := conn.Write(b); err != nil {
			break
		}
	}
	conn.Close()
}

func (s *Server) Accept(lis stdnet.Listener) {
	for {
		conn, err := lis.Accept()
		if err != nil {
			return
		}
		go s.ServeConn(conn)
	}
}
