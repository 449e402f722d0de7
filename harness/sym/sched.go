//go:build go1.18

package sym

import (
	"reflect"
	"runtime"
	"time"
)

// The controlled scheduler: one goroutine runs at a time and hands over only at scheduling points,
// following the recorded schedule.

type thread struct {
	id      int
	wake    chan bool
	done    bool
	waitFor func() bool
	idle    bool
}

var (
	threads []*thread
	cur     *thread
	multi   bool
)

func start() {
	cur = &thread{wake: make(chan bool)}
	threads = []*thread{cur}
}

func enabled(t *thread) []*thread {
	var r []*thread
	ok := func(t *thread) bool { return !t.done && (t.waitFor == nil || t.waitFor()) }
	if ok(t) {
		r = append(r, t)
	}
	for _, x := range threads {
		if x != t && ok(x) {
			r = append(r, x)
		}
	}
	return r
}

func deadlock() { exit(5, "SYM-DEADLOCK") }

func pass(t *thread, exiting bool) {
	en := enabled(t)
	live := 0
	for _, x := range threads {
		if !x.done {
			live++
		}
	}
	if len(en) == 0 {
		if live == 0 {
			return
		}
		deadlock()
	}
	to := en[0]
	if live > 1 || exiting {
		if spos < len(cfg.Sched) {
			id := cfg.Sched[spos]
			spos++
			to = nil
			for _, x := range en {
				if x.id == id {
					to = x
				}
			}
			if to == nil {
				exit(6, "SYM-DIVERGED scheduled goroutine cannot run")
			}
		}
	}
	to.waitFor = nil
	if to == t {
		return
	}
	cur = to
	hide()
	to.wake <- true
	if !exiting {
		<-t.wake
	}
	unhide()
}

// Yield is a scheduling point.
func Yield() {
	if !controlled {
		runtime.Gosched()
		return
	}
	t := cur
	if !multi {
		if t.waitFor != nil && !t.waitFor() {
			deadlock()
		}
		t.waitFor = nil
		return
	}
	pass(t, false)
}

func block(cond func() bool) {
	cur.waitFor = cond
	Yield()
}

// AtomicPoint is the scheduling point of an atomic operation on the variable p points to.
func AtomicPoint(p interface{}) {
	if reflect.ValueOf(p).IsNil() {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	if multi {
		Yield()
	}
	q := (*int)(reflect.ValueOf(p).UnsafePointer())
	acquire(q)
	release(q)
}

// Idle waits until no other goroutine can run.
func Idle() {
	if !controlled {
		time.Sleep(10 * time.Millisecond)
		return
	}
	t := cur
	t.idle = true
	block(func() bool {
		for _, x := range threads {
			if x != t && !x.done && !x.idle && (x.waitFor == nil || x.waitFor()) {
				return false
			}
		}
		return true
	})
	t.idle = false
}

// Park blocks for ever.
func Park() {
	if !controlled {
		select {}
	}
	block(func() bool { return false })
}

// WaitZero waits until *p is zero.
func WaitZero(p *int) {
	_ = *p
	if !controlled {
		for *p != 0 {
			time.Sleep(time.Microsecond)
		}
		return
	}
	cur.waitFor = func() bool { return *p == 0 }
	Yield()
	acquire(p)
}

// Release makes what this goroutine did so far visible to those that pass WaitZero(p) later.
func Release(p *int) {
	if controlled {
		release(p)
	}
}

// Go starts a goroutine.
func Go(f func()) {
	if !controlled {
		go f()
		return
	}
	multi = true
	t := &thread{id: len(threads), wake: make(chan bool)}
	threads = append(threads, t)
	go func() {
		hide()
		<-t.wake
		unhide()
		f()
		t.done = true
		pass(t, true)
	}()
}

type chanState struct {
	ch     interface{}
	buf    []interface{}
	cap    int
	closed bool
	recvq  int
	sync   int
	ptr    uintptr
}

var chans []*chanState

func (s *chanState) push(v interface{}) {
	acquire(&s.sync)
	s.buf = append(s.buf, v)
	release(&s.sync)
}

func (s *chanState) pop() interface{} {
	acquire(&s.sync)
	v := s.buf[0]
	s.buf = s.buf[1:]
	release(&s.sync)
	return v
}

func (s *chanState) isClosed() bool { return s.closed }

func stateOf(ch interface{}) *chanState {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	for _, s := range chans {
		if s.ptr == v.Pointer() {
			return s
		}
	}
	s := &chanState{ch: ch, cap: v.Cap(), ptr: v.Pointer()}
	chans = append(chans, s)
	return s
}

func (s *chanState) canSend() bool {
	return s.closed || len(s.buf) < s.cap || (s.cap == 0 && s.recvq > len(s.buf))
}
func (s *chanState) canRecv() bool { return s.closed || len(s.buf) > 0 }

func (s *chanState) awaitSend() {
	if multi || !s.canSend() {
		block(s.canSend)
	}
}

func (s *chanState) awaitRecv() bool {
	if !s.canRecv() {
		s.recvq++
		block(s.canRecv)
		s.recvq--
	}
	if len(s.buf) == 0 {
		acquire(&s.sync)
		return false
	}
	return true
}

func (s *chanState) close() {
	if s.closed {
		panic("close of closed channel")
	}
	release(&s.sync)
	s.closed = true
}

func Send[T any](ch chan<- T, v T) {
	s := stateOf(ch)
	if s == nil {
		block(func() bool { return false })
	}
	s.awaitSend()
	if s.isClosed() {
		panic("send on closed channel")
	}
	s.push(v)
}

func recv[T any](s *chanState) (T, bool) {
	var zero T
	if s == nil {
		block(func() bool { return false })
	}
	if s.awaitRecv() {
		v := s.pop()
		if v == nil {
			return zero, true
		}
		return v.(T), true
	}
	return zero, false
}

func Recv[T any](ch <-chan T) T {
	v, _ := recv[T](stateOf(ch))
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) { return recv[T](stateOf(ch)) }

func Close[T any](ch chan<- T) {
	s := stateOf(ch)
	if s == nil {
		panic("close of nil channel")
	}
	s.close()
}

func (s *chanState) length() int { return len(s.buf) }

// Len is the number of elements queued in ch.
func Len[T any](ch <-chan T) int {
	s := stateOf(ch)
	if s == nil {
		return 0
	}
	return s.length()
}

type selCase struct {
	s    *chanState
	send bool
}

func SendCase[T any](ch chan<- T) selCase { return selCase{stateOf(ch), true} }
func RecvCase[T any](ch <-chan T) selCase { return selCase{stateOf(ch), false} }

// Select returns the index of the chosen case, -1 for the default case.
func Select(hasDefault bool, cs ...selCase) int {
	ready := func() []int {
		var r []int
		for i, c := range cs {
			if c.s == nil {
				continue
			}
			if c.send && c.s.canSend() || !c.send && c.s.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	if len(rs) == 0 && !hasDefault {
		for _, c := range cs {
			if c.s != nil && !c.send {
				c.s.recvq++
			}
		}
		block(func() bool { return len(ready()) > 0 })
		for _, c := range cs {
			if c.s != nil && !c.send {
				c.s.recvq--
			}
		}
		rs = ready()
	}
	if len(rs) == 0 {
		return -1
	}
	k := 0
	if len(rs) > 1 && spos < len(cfg.Sched) {
		k = cfg.Sched[spos]
		spos++
		if k < 0 || k >= len(rs) {
			exit(6, "SYM-DIVERGED select")
		}
	}
	return rs[k]
}

// SendNow completes a send chosen by Select.
func SendNow[T any](ch chan<- T, v T) { Send(ch, v) }
