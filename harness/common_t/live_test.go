package common_t

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	common "github.com/ThinkiumGroup/go-common"
	"pgregory.net/rapid"

	"verifharness/h"
)

// ---- C08 -----------------------------------------------------------------------------------

type changer struct{ hook func(k int) error }

func (s changer) Initializer() error { return s.hook(0) }
func (s changer) Starter() error     { return s.hook(1) }
func (s changer) Closer() error      { return s.hook(2) }

// nextState is the life of a service: what call k (0 init, 1 start, 2 close) gives in a state.
func nextState(st common.ServiceStatus, k int) (common.ServiceStatus, error) {
	switch k {
	case 0:
		switch st {
		case common.SSInitialized:
			return st, common.ErrAlreadyInitialized
		case common.SSStarted:
			return st, common.ErrAlreadyStarted
		}
		return common.SSInitialized, nil
	case 1:
		if st != common.SSInitialized {
			return st, common.ErrNeedInitialization
		}
		return common.SSStarted, nil
	}
	switch st {
	case common.SSCreated, common.SSInitialized:
		return st, common.ErrNotStarted
	case common.SSStopped:
		return st, common.ErrAlreadyStopped
	}
	return common.SSStopped, nil
}

// C08: any sequence of calls follows the life cycle; hooks run once for each accepted call.
func TestC08_life(t *testing.T) {
	h.Check(t, "a call is refused and a service is started again after it was closed", h.N{Quick: 30000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		var svc common.AbstractService
		var raw common.ServiceStatus
		var ran []int
		var fail error
		hook := func(k int) error { ran = append(ran, k); return fail }
		mode := h.Int(rt, 0, 2, "hooks")
		switch mode {
		case 1:
			svc.SetChanger(changer{hook})
		case 2:
			svc.InitFunc = func() error { return hook(0) }
			svc.StartFunc = func() error { return hook(1) }
			svc.CloseFunc = func() error { return hook(2) }
		}
		st := common.SSCreated
		refused, again := 0, false
		names := []string{"init", "start", "close"}
		n := h.Int(rt, 1, 12, "n")
		for i := 0; i < n; i++ {
			k := h.Int(rt, 0, 2, "call")
			if h.Bool(rt, "sensible") {
				k = map[common.ServiceStatus]int{common.SSCreated: 0, common.SSInitialized: 1, common.SSStarted: 2, common.SSStopped: 0}[st]
			}
			c.Op(names[k])
			calls := []func() error{svc.Init, svc.Start, svc.Close}
			raws := []func() error{raw.CheckInit, raw.CheckStart, raw.CheckStop}
			next, want := nextState(st, k)
			again = again || st == common.SSStopped && next == common.SSInitialized
			ran, fail = nil, nil
			last := i == n-1 && mode > 0 && h.OneIn(rt, 4, "fail") // what follows a hook that failed is open
			if last {
				fail = errors.New("hook failed")
			}
			err := calls[k]()
			if want == nil && last {
				if err != fail {
					rt.Fatalf("%s with a hook that fails: %v", names[k], err)
				}
			} else if err != want {
				rt.Fatalf("%s in state %d: %v, not %v", names[k], st, err, want)
			}
			wantRan := "[]"
			if want == nil && mode > 0 {
				wantRan = fmt.Sprint([]int{k})
			}
			if fmt.Sprint(ran) != wantRan {
				rt.Fatalf("%s in state %d ran hooks %v, not %s", names[k], st, ran, wantRan)
			}
			if err := raws[k](); err != want || raw != next {
				rt.Fatalf("%s of status %d: %v, now %d, not %v, %d", names[k], st, err, raw, want, next)
			}
			if want != nil {
				refused++
			}
			st = next
			if last && want == nil {
				return
			}
			// a copy is in the same state, and on its own from here
			if h.OneIn(rt, 6, "copy") {
				cp := svc.Copy()
				k := h.Int(rt, 0, 2, "copycall")
				_, want := nextState(st, k)
				ran = nil
				if err := []func() error{cp.Init, cp.Start, cp.Close}[k](); err != want || len(ran) > 0 {
					rt.Fatalf("%s of a copy in state %d: %v, not %v; hooks %v", names[k], st, err, want, ran)
				}
			}
		}
		c.NonTrivial(refused > 0 && again)
	})
}

// C08: of calls made together, each step of the life is taken by exactly one.
func TestC08_together(t *testing.T) {
	h.Check(t, "a call is refused", h.N{Quick: 3000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		var svc common.AbstractService
		var inside, most, runs int32
		counts := make([]int32, 3)
		var mu sync.Mutex
		var order []int
		svc.SetChanger(changer{func(k int) error {
			if n := atomic.AddInt32(&inside, 1); n > atomic.LoadInt32(&most) {
				atomic.StoreInt32(&most, n)
			}
			runtime.Gosched()
			mu.Lock()
			order = append(order, k)
			mu.Unlock()
			atomic.AddInt32(&counts[k], 1)
			atomic.AddInt32(&runs, 1)
			atomic.AddInt32(&inside, -1)
			return nil
		}})
		g := h.Int(rt, 2, 6, "callers")
		var fns []func() error
		accepted := make([]int32, 3)
		var refused int32
		for i := 0; i < g; i++ {
			calls := rapid.SliceOfN(rapid.IntRange(0, 2), 1, 6).Draw(rt, "calls")
			c.Op("caller %v", calls)
			fns = append(fns, func() error {
				for _, k := range calls {
					err := []func() error{svc.Init, svc.Start, svc.Close}[k]()
					if err == nil {
						atomic.AddInt32(&accepted[k], 1)
					} else {
						atomic.AddInt32(&refused, 1)
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		c.NonTrivial(refused > 0)
		if most > 1 {
			rt.Fatalf("%d hooks ran at a time", most)
		}
		for k := range counts {
			if counts[k] != accepted[k] {
				rt.Fatalf("%d calls were accepted and %d hooks ran", accepted, counts)
			}
		}
		st := common.SSCreated
		for i, k := range order {
			next, err := nextState(st, k)
			if err != nil {
				rt.Fatalf("hooks ran in the order %v: step %d in state %d", order, i, st)
			}
			st = next
		}
	})
}

// ---- C09 -----------------------------------------------------------------------------------

type event struct {
	n    int
	high bool
	key  string
}

var poolNo int64

// wait until ok, at most for long
func until(ok func() bool) bool {
	for i := 0; i < 2000; i++ {
		if ok() {
			return true
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return ok()
}

// C09: one worker takes the events in order: all waiting high ones, then the low ones.
func TestC09_order(t *testing.T) {
	h.Check(t, "a high event overtakes a low one, and the pool is stopped and started again", h.N{Quick: 1500, Thorough: 150000}, func(rt *rapid.T, c *h.C) {
		type step struct {
			e    event
			name string
			cnt  int
		}
		entered := make(chan step, 64)
		leave := make(chan struct{})
		name := fmt.Sprintf("pool%d", atomic.AddInt64(&poolNo, 1))
		keyed := h.Bool(rt, "keyed")
		var getter func(interface{}) string
		if keyed {
			getter = func(v interface{}) string { return v.(event).key }
		}
		pool := common.NewRoutinePool(name, 1, 40, func(w string, v interface{}) {
			e := v.(event)
			entered <- step{e, w, common.KeyCount()[e.key]}
			<-leave
		}, getter)
		defer func() { // whatever happened, no worker stays behind
			close(leave)
			pool.Stop()
		}()
		var high, low []event
		var busy *event
		started, restarted, overtook := false, false, false
		seq := 0
		next := func() (event, bool) {
			for len(high) > 0 {
				e := high[0]
				high = high[1:]
				if e.n >= 0 {
					if len(low) > 0 {
						overtook = true
					}
					return e, true
				}
			}
			for len(low) > 0 {
				e := low[0]
				low = low[1:]
				if e.n >= 0 {
					return e, true
				}
			}
			return event{}, false
		}
		enter := func() { // the worker takes what it has to
			e, ok := next()
			busy = nil
			if !ok {
				if !until(func() bool { return pool.HigherLen()+pool.LowerLen() == 0 }) {
					rt.Fatalf("a nil event is not taken")
				}
				return
			}
			select {
			case s := <-entered:
				if s.e != e {
					rt.Fatalf("event %+v is processed, not %+v; waiting %v and %v", s.e, e, high, low)
				}
				if s.name != name+"-1" {
					rt.Fatalf("the worker is %q", s.name)
				}
				want := 0
				if keyed && e.key != "" {
					want = 1
				}
				if s.cnt != want {
					rt.Fatalf("%d events with key %q are being processed, not %d", s.cnt, e.key, want)
				}
				busy = &e
			case <-time.After(10 * time.Second):
				rt.Fatalf("event %+v is not processed", e)
			}
		}
		n := h.Int(rt, 1, 25, "n")
		for i := 0; i < n; i++ {
			switch k := h.Int(rt, 0, 7, "op"); {
			case k <= 3 && len(high)+len(low) < 30:
				e := event{seq, k%2 == 0, ""}
				if h.Bool(rt, "key") {
					e.key = fmt.Sprintf("%s/%d", name, h.Int(rt, 0, 2, "key"))
				}
				seq++
				var v interface{} = e
				if h.OneIn(rt, 8, "nil") {
					e.n, v = -1, nil
				}
				c.Op("post %+v", e)
				if e.high {
					pool.PostHigher(v)
					high = append(high, e)
				} else {
					pool.PostLower(v)
					low = append(low, e)
				}
				if started && busy == nil {
					enter()
				}
			case k <= 5 && busy != nil:
				c.Op("done %d", busy.n)
				leave <- struct{}{}
				enter()
			case k == 6:
				if started {
					continue
				}
				c.Op("start")
				pool.Start()
				pool.Start()
				restarted = restarted || i > 0 && seq > 0
				started = true
				enter()
			case k == 7:
				if !started || busy != nil {
					continue
				}
				c.Op("stop")
				pool.Stop()
				pool.Stop()
				started = false
			}
			if busy != nil || !started {
				if pool.HigherLen() != len(high) || pool.LowerLen() != len(low) {
					rt.Fatalf("%d and %d events wait, not %d and %d", pool.HigherLen(), pool.LowerLen(), len(high), len(low))
				}
				select {
				case s := <-entered:
					rt.Fatalf("event %+v is processed besides", s.e)
				default:
				}
			}
		}
		for busy != nil {
			leave <- struct{}{}
			enter()
		}
		pool.Stop()
		select {
		case s := <-entered:
			rt.Fatalf("event %+v is processed besides", s.e)
		default:
		}
		for k, v := range common.KeyCount() {
			if strings.HasPrefix(k, name) {
				rt.Fatalf("key %s has count %d with nothing being processed", k, v)
			}
		}
		c.NonTrivial(overtook && restarted)
	})
}

// C09: many workers: each event once, no more at a time than workers, each worker one at a time,
// as many at a time as there are workers, and no work after Stop.
func TestC09_workers(t *testing.T) {
	h.Check(t, "at least two workers and two posters", h.N{Quick: 1200, Thorough: 100000}, func(rt *rapid.T, c *h.C) {
		size := h.Int(rt, 1, 5, "workers")
		queue := h.Int(rt, 0, 6, "queue")
		posters := h.Int(rt, 1, 4, "posters")
		rounds := h.Int(rt, 1, 3, "rounds")
		each := h.Int(rt, 0, 12, "events")
		c.Op("%d workers, queues of %d, %d posters of %d, %d rounds", size, queue, posters, each, rounds)
		c.NonTrivial(size > 1 && posters > 1 && each > 1)
		name := fmt.Sprintf("many%d", atomic.AddInt64(&poolNo, 1))
		var mu sync.Mutex
		seen := map[int]int{}
		using := map[string]int{}
		var at, most int
		bad := ""
		var gate chan struct{}
		var waiting, turned int32 // turned: events at work have another key from now on
		pool := common.NewRoutinePool(name, size, queue, func(w string, v interface{}) {
			e := v.(event)
			mu.Lock()
			seen[e.n]++
			using[w]++
			at++
			if at > most {
				most = at
			}
			if using[w] > 1 {
				bad = "worker " + w + " does two things at a time"
			}
			g := gate
			mu.Unlock()
			if e.key != "" && common.KeyCount()[e.key] < 1 {
				bad = "key " + e.key + " is not counted"
			}
			if e.n < 0 { // meet the others
				atomic.AddInt32(&waiting, 1)
				<-g
			} else {
				runtime.Gosched()
			}
			mu.Lock()
			using[w]--
			at--
			mu.Unlock()
		}, func(v interface{}) string {
			if e := v.(event); e.n >= 0 || atomic.LoadInt32(&turned) == 0 {
				return e.key
			}
			return name + "/turned"
		})
		total := 0
		for r := 0; r < rounds; r++ {
			if h.Bool(rt, "before") { // events that wait for the start
				for i, m := 0, h.Int(rt, 0, 5, "highs"); i < m && pool.HigherLen() < queue; i++ {
					pool.PostHigher(event{n: r*10000 + 9000 + i, high: true})
					total++
				}
				for i, m := 0, h.Int(rt, 0, 5, "lows"); i < m && pool.LowerLen() < queue; i++ {
					pool.PostLower(event{n: r*10000 + 9100 + i})
					total++
				}
			}
			pool.Start()
			// all workers at a time
			turn := int32(h.Int(rt, 0, 1, "turn"))
			if h.Bool(rt, "meet") {
				mu.Lock()
				gate = make(chan struct{})
				mu.Unlock()
				atomic.StoreInt32(&waiting, 0)
				atomic.StoreInt32(&turned, 0)
				keys := map[string]int{}
				go func(n int) {
					for i := 0; i < n; i++ {
						e := event{n: -1 - r*10 - i, key: fmt.Sprintf("%s/%d", name, i%2)}
						if i%3 == 0 {
							pool.PostHigher(e)
						} else {
							pool.PostLower(e)
						}
					}
				}(size)
				for i := 0; i < size; i++ {
					keys[fmt.Sprintf("%s/%d", name, i%2)]++
				}
				all := until(func() bool { return int(atomic.LoadInt32(&waiting)) == size })
				counts := common.KeyCount()
				atomic.StoreInt32(&turned, turn)
				close(gate)
				if !all {
					rt.Fatalf("only %d of %d workers are at work", waiting, size)
				}
				for k, v := range keys {
					if counts[k] != v {
						rt.Fatalf("%d events with key %s are counted, not %d", counts[k], k, v)
					}
				}
			}
			var fns []func() error
			for p := 0; p < posters; p++ {
				p := p
				fns = append(fns, func() error {
					for i := 0; i < each; i++ {
						e := event{n: r*10000 + p*100 + i, high: i%2 == 0, key: fmt.Sprintf("%s/%d", name, i%3)}
						if e.high {
							pool.PostHigher(e)
						} else {
							pool.PostLower(e)
						}
					}
					return nil
				})
			}
			if err := h.Together(fns...); err != nil {
				rt.Fatalf("%v", err)
			}
			total += posters * each
			early := h.Bool(rt, "early")
			if !early && !until(func() bool {
				mu.Lock()
				defer mu.Unlock()
				got := 0
				for n := range seen {
					if n >= 0 {
						got++
					}
				}
				return got == total
			}) {
				rt.Fatalf("not all of %d events are processed", total)
			}
			stopped := make(chan struct{})
			go func() {
				pool.Stop()
				close(stopped)
			}()
			select {
			case <-stopped:
			case <-time.After(20 * time.Second):
				rt.Fatalf("the pool does not stop with nothing at work")
			}
			mu.Lock()
			left := pool.HigherLen() + pool.LowerLen()
			got := 0
			for n := range seen {
				if n >= 0 {
					got++
				}
			}
			working := at
			mu.Unlock()
			if working != 0 {
				rt.Fatalf("%d events are in process after Stop", working)
			}
			if got+left != total {
				rt.Fatalf("of %d events %d are processed and %d wait", total, got, left)
			}
			for k, v := range common.KeyCount() {
				if strings.HasPrefix(k, name) {
					rt.Fatalf("key %s has count %d after Stop", k, v)
				}
			}
		}
		for n, k := range seen {
			if k != 1 {
				rt.Fatalf("event %d is processed %d times", n, k)
			}
		}
		if most > size {
			rt.Fatalf("%d events at a time by %d workers", most, size)
		}
		if bad != "" {
			rt.Fatalf("%s", bad)
		}
		if s := pool.String(); !strings.Contains(s, name) {
			rt.Fatalf("%s", s)
		}
	})
}

// ---- C10 -----------------------------------------------------------------------------------

// C10: the LRU map is one: a key that is there keeps its value, the one used longest ago goes.
func TestC10_lru(t *testing.T) {
	h.Check(t, "a key is dropped for another", h.N{Quick: 16000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		size := h.Int(rt, 1, 5, "size")
		m := common.NewLruMap(size)
		type ent struct{ k, v int }
		var list []ent // the first was used last
		find := func(k int) int {
			for i, e := range list {
				if e.k == k {
					return i
				}
			}
			return -1
		}
		dropped := false
		c.Op("size %d", size)
		for i, n := 0, h.Int(rt, 1, 25, "n"); i < n; i++ {
			k := h.Int(rt, 0, 7, "key")
			at := find(k)
			switch op := h.Int(rt, 0, 9, "op"); {
			case op < 5:
				c.Op("add %d", k)
				if m.Add(k, i) != (at < 0) {
					rt.Fatalf("adding key %d: %t", k, at >= 0)
				}
				if at < 0 {
					list = append([]ent{{k, i}}, list...)
					if len(list) > size {
						list, dropped = list[:size], true
					}
				}
			case op < 8:
				c.Op("get %d", k)
				got := m.Get(k)
				if at < 0 && got != nil || at >= 0 && got != list[at].v {
					rt.Fatalf("key %d has value %v; %v", k, got, list)
				}
				if at >= 0 {
					e := list[at]
					list = append(list[:at], list[at+1:]...)
					list = append([]ent{e}, list...)
				}
			case op < 9:
				c.Op("remove %d", k)
				m.Remove(k)
				if at >= 0 {
					list = append(list[:at], list[at+1:]...)
				}
			default:
				if h.OneIn(rt, 4, "clear") {
					c.Op("clear")
					m.Clear()
					list = nil
				}
			}
			for k := 0; k < 8; k++ {
				if m.Contains(k) != (find(k) >= 0) {
					rt.Fatalf("key %d is there: %t; %v", k, m.Contains(k), list)
				}
			}
		}
		c.NonTrivial(dropped)
		if p, _ := h.NoPanic(func() { common.NewLruMap(-h.Int(rt, 0, 1, "bad")) }); p == nil {
			rt.Fatalf("a map without a size is made")
		}
	})
}

// C10: adding one key at the same time succeeds once, and its value is the one that is there.
func TestC10_lruTogether(t *testing.T) {
	h.Check(t, "more adders than keys", h.N{Quick: 3000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		keys, adders := h.Int(rt, 1, 3, "keys"), h.Int(rt, 2, 6, "adders")
		c.Op("%d adders of %d keys", adders, keys)
		c.NonTrivial(adders > keys)
		for r := 0; r < 5; r++ {
			m := common.NewLruMap(8)
			wins := make([][]int, keys)
			var mu sync.Mutex
			var fns []func() error
			for a := 0; a < adders; a++ {
				a := a
				fns = append(fns, func() error {
					for k := 0; k < keys; k++ {
						if m.Add(k, a) {
							mu.Lock()
							wins[k] = append(wins[k], a)
							mu.Unlock()
						}
						if v := m.Get(k); v == nil {
							return fmt.Errorf("key %d is not there after it is added", k)
						}
					}
					return nil
				})
			}
			if err := h.Together(fns...); err != nil {
				rt.Fatalf("%v", err)
			}
			for k := range wins {
				if len(wins[k]) != 1 || m.Get(k) != wins[k][0] {
					rt.Fatalf("key %d is added by %v, value %v", k, wins[k], m.Get(k))
				}
			}
		}
	})
}

// C10: the map of last blocks: CAS only goes up, copies are separate.
func TestC10_blocks(t *testing.T) {
	h.Check(t, "a height is refused, and callers work together on one chain", h.N{Quick: 6000, Thorough: 400000}, func(rt *rapid.T, c *h.C) {
		m := &common.LastBlockMap{M: map[common.ChainID]common.Height{}}
		model := map[common.ChainID]common.Height{}
		refused := false
		for i, n := 0, h.Int(rt, 1, 12, "n"); i < n; i++ {
			k, v := common.ChainID(h.Int(rt, 0, 3, "chain")), common.Height(h.Int(rt, 0, 6, "height"))
			if h.OneIn(rt, 10, "max") {
				v = common.NilHeight - v
			}
			if h.Bool(rt, "cas") {
				c.Op("cas %d %d", k, v)
				old, ok := model[k]
				want := !ok || v > old
				if m.CAS(k, v) != want {
					rt.Fatalf("height %d for %d: %t", v, old, !want)
				}
				if want {
					model[k] = v
				}
				refused = refused || !want
			} else {
				c.Op("set %d %d", k, v)
				m.Set(k, v)
				model[k] = v
			}
			cp := m.CopyMap()
			if fmt.Sprint(cp) != fmt.Sprint(model) {
				rt.Fatalf("the map is %v, not %v", cp, model)
			}
			cp[k] = 77
			cp[9] = 1
			for k := common.ChainID(0); k < 10; k++ {
				v, ok := m.Get(k)
				w, wok := model[k]
				if v != w || ok != wok {
					rt.Fatalf("chain %d is at %d %t, not %d %t", k, v, ok, w, wok)
				}
			}
		}
		// callers at the same time: the highest stays, each sees its own or higher
		g := h.Int(rt, 2, 4, "callers")
		c.NonTrivial(refused)
		var fns []func() error
		highest := map[common.ChainID]common.Height{}
		var mu sync.Mutex
		wins := map[common.ChainID][]common.Height{}
		for i := 0; i < g; i++ {
			vals := rapid.SliceOfN(rapid.IntRange(10, 40), 1, 8).Draw(rt, "heights")
			for _, v := range vals {
				k := common.ChainID(100 + v%2)
				if common.Height(v) > highest[k] {
					highest[k] = common.Height(v)
				}
			}
			c.Op("caller %v", vals)
			fns = append(fns, func() error {
				var lastSeen [2]common.Height
				for _, v := range vals {
					k := common.ChainID(100 + v%2)
					ok := m.CAS(k, common.Height(v))
					got, there := m.Get(k)
					if !there || got < common.Height(v) {
						return fmt.Errorf("chain %d is at %d after %d", k, got, v)
					}
					if got < lastSeen[v%2] {
						return fmt.Errorf("chain %d went from %d to %d", k, lastSeen[v%2], got)
					}
					lastSeen[v%2] = got
					if ok {
						mu.Lock()
						wins[k] = append(wins[k], common.Height(v))
						mu.Unlock()
					}
					if cp := m.CopyMap(); cp[k] < common.Height(v) {
						return fmt.Errorf("chain %d is at %d in a copy after %d", k, cp[k], v)
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		for k, v := range highest {
			if got, _ := m.Get(k); got != v {
				rt.Fatalf("chain %d is at %d, not %d", k, got, v)
			}
			w := append([]common.Height(nil), wins[k]...)
			sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
			for i := 1; i < len(w); i++ {
				if w[i] == w[i-1] {
					rt.Fatalf("height %d was accepted twice", w[i])
				}
			}
			if w[len(w)-1] != v {
				rt.Fatalf("accepted %v, highest %d", w, v)
			}
		}
		// the map of the system
		common.WatchHeight(common.ChainID(4242), highest[100])
		if got, ok := common.LastBlocks.Get(4242); !ok || got != highest[100] {
			rt.Fatalf("watched height %d, not %d", got, highest[100])
		}
	})
}

// C10: registered addresses are what they were registered as, and no other is.
func TestC10_registry(t *testing.T) {
	type kinds struct{ system, noGas, noCheck, reserved bool }
	model := map[common.Address]kinds{}
	// what is registered by the library itself counts too
	h.Check(t, "an address is registered in two ways", h.N{Quick: 4000, Thorough: 100000}, func(rt *rapid.T, c *h.C) {
		two := false
		var fns []func() error
		draw := func() common.Address {
			return common.BytesToAddress(append([]byte{0x77, byte(h.Int(rt, 0, 255, "a")), byte(h.Int(rt, 0, 3, "b"))}, make([]byte, 17)...))
		}
		for i, n := 0, h.Int(rt, 1, 4, "n"); i < n; i++ {
			var addrs []common.Address
			for j, m := 0, h.Int(rt, 0, 3, "addrs"); j < m; j++ {
				addrs = append(addrs, draw())
			}
			op := h.Int(rt, 0, 3, "op")
			c.Op("register %d %x", op, addrs)
			for _, a := range addrs {
				k := model[a]
				old := k
				k.reserved = true
				switch op {
				case 1:
					k.system = true
				case 2:
					k.system, k.noGas = true, true
				case 3:
					k.noCheck = true
				}
				two = two || old.reserved && old != k
				model[a] = k
			}
			fns = append(fns, func() error {
				switch op {
				case 0:
					common.RegisterReservedAddress(addrs...)
				case 1, 2:
					common.RegisterSystemContract(op == 2, addrs...)
				case 3:
					common.RegisterNoCheckAddress(addrs...)
				}
				for _, a := range addrs {
					if !a.IsReserved() || op == 3 && !a.NoCheck() || op == 2 && !a.IsNoGas() || (op == 1 || op == 2) && !a.IsSystemContract() {
						return fmt.Errorf("address %x is not registered", a)
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		c.NonTrivial(two)
		for i := 0; i < 8; i++ {
			a := draw()
			k := model[a]
			if a.IsReserved() != k.reserved || a.NoCheck() != k.noCheck || a.IsNoGas() != k.noGas || a.IsSystemContract() != k.system {
				rt.Fatalf("address %x: reserved %t nocheck %t nogas %t system %t, not %+v", a, a.IsReserved(), a.NoCheck(), a.IsNoGas(), a.IsSystemContract(), k)
			}
		}
	})
}
