package h

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

// Together runs the functions at the same time, started from one barrier, and returns the
// first error (or panic) in the order of the functions.
func Together(fns ...func() error) error {
	errs := make([]error, len(fns))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range fns {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 1<<13)
					errs[i] = fmt.Errorf("panic in goroutine %d: %v\n%s", i, r, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			errs[i] = fns[i]()
		}(i)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// KVIn is one operation on a key: "get", "put", "del".
type KVIn struct {
	Op, Key, Val string
}

// KVOut is what it reported: for get the value and whether there was one; for del the old
// value and whether there was a change; for put OK means it reported a change (Any: not judged).
type KVOut struct {
	Val string
	OK  bool
	Any bool
}

type kvState struct {
	val string
	ok  bool
}

// History records operations with their real-time intervals.
type History struct {
	clock int64
	mu    sync.Mutex
	ops   []porcupine.Operation
}

// Do runs one operation and records it.
func (hs *History) Do(client int, in KVIn, f func() KVOut) {
	call := atomic.AddInt64(&hs.clock, 1)
	out := f()
	ret := atomic.AddInt64(&hs.clock, 1)
	hs.mu.Lock()
	hs.ops = append(hs.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	hs.mu.Unlock()
}

// DoAll runs one operation which does the same to several keys at once and records it.
func (hs *History) DoAll(client int, ins []KVIn, f func()) {
	call := atomic.AddInt64(&hs.clock, 1)
	f()
	ret := atomic.AddInt64(&hs.clock, 1)
	hs.mu.Lock()
	for _, in := range ins {
		hs.ops = append(hs.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: KVOut{Any: true}, Return: ret})
	}
	hs.mu.Unlock()
}

// Check decides whether the history is that of some order of whole operations which agrees
// with real time. initial holds the contents before it. It returns "" or a description.
func (hs *History) Check(initial map[string]string) string {
	m := porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			by := map[string][]porcupine.Operation{}
			var keys []string
			for _, o := range h {
				k := o.Input.(KVIn).Key
				if by[k] == nil {
					keys = append(keys, k)
				}
				by[k] = append(by[k], o)
			}
			var r [][]porcupine.Operation
			for _, k := range keys {
				r = append(r, by[k])
			}
			return r
		},
		Init: func() interface{} { return kvState{val: "\x00init"} },
		Step: func(s, i, o interface{}) (bool, interface{}) {
			st, in, out := s.(kvState), i.(KVIn), o.(KVOut)
			if st.val == "\x00init" {
				v, ok := initial[in.Key]
				st = kvState{v, ok}
			}
			switch in.Op {
			case "put":
				same := st.ok && st.val == in.Val
				return out.Any || out.OK != same, kvState{in.Val, true}
			case "del":
				if out.Any {
					return true, kvState{}
				}
				if st.ok {
					return out.OK && out.Val == st.val, kvState{}
				}
				return !out.OK, kvState{}
			case "has":
				return out.OK == st.ok, st
			default:
				if !st.ok {
					return !out.OK, st
				}
				return out.OK && out.Val == st.val, st
			}
		},
		Equal: func(a, b interface{}) bool { return a == b },
	}
	res := porcupine.CheckOperationsTimeout(m, hs.ops, 20*time.Second)
	if res == porcupine.Illegal {
		s := "no order of whole operations explains the history:"
		for _, o := range hs.ops {
			s += fmt.Sprintf("\n  [%d,%d] client %d %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output)
		}
		return s
	}
	return ""
}

// Len is the number of recorded operations.
func (hs *History) Len() int { return len(hs.ops) }
