// Package vsched is the controlled scheduler the overlay links into the code
// under test. Every goroutine of an execution parks at its scheduling points;
// the scheduler, which lives in the root goroutine of a synctest bubble,
// releases one goroutine at a time and so decides the interleaving. Outside an
// execution every function here does nothing.
package vsched

import (
	"fmt"
	"sync/atomic"
	"testing/synctest"
	"unsafe"
)

// Chooser takes the decisions of the scheduler.
type Chooser interface {
	Choose(n int) int // an alternative to going on: a pre-emption
	Free(n int) int
}

const (
	created int32 = iota
	running
	parked
	waiting // for a lock of this execution
	done
)

const maxGs = 512

type gor struct {
	s      *Sched
	id     int
	ch     chan struct{}
	state  atomic.Int32
	waitOn atomic.Pointer[byte]
	points int // touched by its own goroutine and, while it is parked, by the scheduler
	label  string
}

// Sched is one controlled execution.
type Sched struct {
	class   int32
	n       atomic.Int32
	live    atomic.Int32
	gs      [maxGs]atomic.Pointer[gor]
	last    *gor
	Steps   int
	Visited func(string)
}

// New prepares an execution. Points of a class above the given one are ignored.
// It is to be called in the bubble.
func New(class int) *Sched { return &Sched{class: int32(class)} }

type entry struct {
	goid atomic.Uintptr
	g    atomic.Pointer[gor]
}

const (
	tableBits = 16
	probes    = 16
)

var table [1<<tableBits + probes]entry

// getg identifies the calling goroutine while it lives.
func getg() uintptr

//go:norace
func self() *gor {
	id := getg()
	i := id >> 6 & (1<<tableBits - 1)
	for j := i; j < i+probes; j++ {
		if table[j].goid.Load() == id {
			return table[j].g.Load()
		}
	}
	return nil
}

//go:norace
func register(g *gor) {
	id := getg()
	i := id >> 6 & (1<<tableBits - 1)
	for j := i; j < i+probes; j++ {
		if table[j].goid.CompareAndSwap(0, 1) {
			table[j].g.Store(g)
			table[j].goid.Store(id)
			return
		}
	}
	panic("vsched: too many goroutines")
}

//go:norace
func unregister() {
	id := getg()
	i := id >> 6 & (1<<tableBits - 1)
	for j := i; j < i+probes; j++ {
		if table[j].goid.Load() == id {
			table[j].g.Store(nil)
			table[j].goid.Store(0)
			return
		}
	}
}

// G is the identity of a goroutine that is about to be started.
type G struct{ g *gor }

//go:norace
func (s *Sched) add(label string) *gor {
	i := s.n.Add(1) - 1
	if i >= maxGs {
		panic("vsched: too many goroutines")
	}
	g := &gor{s: s, id: int(i), ch: make(chan struct{}), label: label}
	s.live.Add(1)
	s.gs[i].Store(g)
	return g
}

// Spawn announces a goroutine; it is evaluated by the goroutine that starts it.
//
//go:norace
func Spawn() G {
	disable()
	defer enable()
	me := self()
	if me == nil {
		return G{}
	}
	return G{me.s.add("go")}
}

// Enter is the first statement of a goroutine.
//
//go:norace
func (x G) Enter() {
	if x.g == nil {
		return
	}
	disable()
	register(x.g)
	x.g.park()
	enable()
}

// Exit is the last thing a goroutine does.
//
//go:norace
func (x G) Exit() {
	if x.g == nil {
		return
	}
	disable()
	unregister()
	x.g.state.Store(done)
	x.g.s.live.Add(-1)
	enable()
}

//go:norace
func (g *gor) park() {
	g.points++
	g.state.Store(parked)
	<-g.ch
}

// Point is a scheduling point. Class 0 points are always active.
//
//go:norace
func Point(class int) {
	disable()
	if g := self(); g != nil && int32(class) <= g.s.class {
		g.park()
	}
	enable()
}

// Controlled says whether the calling goroutine belongs to an execution, and to
// which one.
//
//go:norace
func Controlled() *Sched {
	disable()
	defer enable()
	if g := self(); g != nil {
		return g.s
	}
	return nil
}

// WaitFor parks the goroutine until Wake is called for the object.
//
//go:norace
func WaitFor(obj unsafe.Pointer) {
	disable()
	g := self()
	g.waitOn.Store((*byte)(obj))
	g.state.Store(waiting)
	<-g.ch
	enable()
}

// Wake makes the goroutines that wait for the object runnable.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	disable()
	defer enable()
	me := self()
	if me == nil {
		return
	}
	n := int(me.s.n.Load())
	for i := 0; i < n; i++ {
		g := me.s.gs[i].Load()
		if g != nil && g.state.Load() == waiting && g.waitOn.Load() == (*byte)(obj) {
			g.state.Store(parked)
		}
	}
}

// Go starts a task of the harness.
//
//go:norace
func (s *Sched) Go(label string, f func()) {
	disable()
	x := G{s.add(label)}
	enable()
	go func() {
		x.Enter()
		defer x.Exit()
		f()
	}()
}

// Run schedules the execution until nothing can run any more. It returns the
// goroutines that are then still alive.
//
//go:norace
func (s *Sched) Run(c Chooser) (alive []string) {
	disable()
	defer enable()
	for {
		synctest.Wait()
		var (
			buf     [maxGs]*gor
			enabled = buf[:0]
			cur     = -1
		)
		n := int(s.n.Load())
		state := make([]byte, 0, 64)
		for i := 0; i < n; i++ {
			g := s.gs[i].Load()
			if g == nil {
				continue
			}
			st := g.state.Load()
			state = append(state, byte(st), byte(g.points), byte(g.points>>8))
			if st == parked {
				if g == s.last {
					cur = len(enabled)
				}
				enabled = append(enabled, g)
			}
		}
		if s.Visited != nil {
			s.Visited(string(state))
		}
		if len(enabled) == 0 {
			for i := 0; i < n; i++ {
				if g := s.gs[i].Load(); g != nil && g.state.Load() != done {
					alive = append(alive, fmt.Sprintf("%s %d (state %d)", g.label, g.id, g.state.Load()))
				}
			}
			return alive
		}
		var next *gor
		if cur >= 0 {
			// Going on costs nothing, anything else is a pre-emption.
			k := c.Choose(len(enabled))
			if k == 0 {
				next = enabled[cur]
			} else {
				if k <= cur {
					k--
				}
				next = enabled[k]
			}
		} else {
			next = enabled[c.Free(len(enabled))]
		}
		s.last = next
		s.Steps++
		next.state.Store(running)
		next.ch <- struct{}{}
	}
}
