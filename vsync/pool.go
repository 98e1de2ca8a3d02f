package vsync

import (
	"sync"
	"sync/atomic"

	"verif3mf/vsched"
)

// Pool hands out the value that was put last, to make the most of mistakes about
// who owns it. As with sync.Pool, the only order it gives is the one between the
// Put and the Get of a value.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	n     int
	items [64]pooled
}

type pooled struct {
	x any
	s *atomic.Int32
}

//go:norace
func (p *Pool) Put(x any) {
	vsched.Point(0)
	if x == nil {
		return
	}
	s := new(atomic.Int32)
	s.Store(1)
	vsched.Quiet(func() {
		p.mu.Lock()
		p.push(pooled{x, s})
		p.mu.Unlock()
	})
}

//go:norace
func (p *Pool) push(i pooled) {
	if p.n < len(p.items) {
		p.items[p.n] = i
		p.n++
	}
}

//go:norace
func (p *Pool) pop() (i pooled) {
	if p.n > 0 {
		p.n--
		i, p.items[p.n] = p.items[p.n], pooled{}
	}
	return
}

//go:norace
func (p *Pool) Get() any {
	vsched.Point(0)
	var i pooled
	vsched.Quiet(func() {
		p.mu.Lock()
		i = p.pop()
		p.mu.Unlock()
	})
	if i.x != nil {
		i.s.Load()
		return i.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
