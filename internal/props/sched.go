package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"verif3mf/internal/mc"
	"verif3mf/vsched"
)

// delays makes every scheduling decision but the first one cost a deviation:
// going on, or else the oldest goroutine (delay bounding).
type delays struct{ *mc.T }

func (d delays) Free(n int) int { return d.T.Choose(n) }

// controlled runs the tasks concurrently under the scheduler, which takes its
// decisions from t, until every goroutine has ended.
func controlled(t *mc.T, class int, tasks ...func()) { scheduled(t, t, class, tasks...) }

// delayed is controlled with delay bounding.
func delayed(t *mc.T, class int, tasks ...func()) { scheduled(t, delays{t}, class, tasks...) }

func scheduled(t *mc.T, c vsched.Chooser, class int, tasks ...func()) {
	var (
		alive  []string
		panics = make([]interface{}, len(tasks))
		stacks = make([]string, len(tasks))
		over   interface{}
	)
	func() {
		defer func() {
			if r := recover(); r != nil && len(alive) == 0 {
				over = r
			}
		}()
		synctest.Test(t.TT, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					over = r
				}
			}()
			s := vsched.New(class)
			s.Visited = t.State
			var wg sync.WaitGroup
			wg.Add(len(tasks))
			for i, f := range tasks {
				s.Go("task", func() {
					defer wg.Done()
					panics[i], stacks[i] = mc.Guard(f)
				})
			}
			alive = s.Run(c)
			if len(alive) == 0 {
				wg.Wait() // orders what the tasks did before what follows
			}
		})
	}()
	if len(alive) > 0 {
		what := "goroutines never end"
		for _, a := range alive {
			if strings.HasPrefix(a, "task") {
				what = "deadlock"
			}
		}
		t.Failf(what, "blocked for ever: %s", strings.Join(alive, ", "))
	}
	if over != nil {
		if mc.IsControl(over) {
			panic(over)
		}
		t.Failf("goroutines never end", "%v", over)
	}
	for i, p := range panics {
		if p != nil {
			t.Failf("panic: "+mc.PanicSig(p), "%v\n%s", p, stacks[i])
		}
	}
}

// schedReader is a package whose reads are scheduling points.
type schedReader struct {
	data []byte
	off  int64 // a read that needs this byte fails, if err is not nil
	err  error
}

func (r *schedReader) ReadAt(p []byte, off int64) (int, error) {
	vsched.Point(0)
	if r.err != nil && off <= r.off && r.off < off+int64(len(p)) {
		return 0, r.err
	}
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// schedWriter is a destination whose writes are scheduling points.
type schedWriter struct{ bytes.Buffer }

func (w *schedWriter) Write(p []byte) (int, error) {
	vsched.Point(0)
	return w.Buffer.Write(p)
}

var _ = fmt.Sprint
