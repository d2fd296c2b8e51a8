package main

// Goroutines of the code under test. Each one is interpreted on a host
// goroutine of its own, but only one of them runs at a time: they hand the
// worker over when they block. The one that goes on is a choice of the path.

type coro struct {
	wake    chan struct{}
	wait    V     // predicate to wait for; none: it may run
	idle    bool  // wait until no other one may run
	until   int64 // or, when there is none that is idle, for that time to pass (seconds)
	done    bool
	started bool
	fn      V
	args    []V
	stk     []V
	top     int
	frames  int
	tf      *Frame
}

type coKill struct{}

func (w *W) coInit() {
	if len(w.cos) == 0 {
		m := &coro{wake: make(chan struct{}), started: true}
		w.cos = append(w.cos, m)
		w.cur = m
	}
}

// spawn is the go statement: the goroutine starts when another one blocks.
func (w *W) spawn(fn V, args []V) {
	if w.spec > 0 {
		w.abort(abSpec, "go")
	}
	w.coInit()
	w.cos = append(w.cos, &coro{wake: make(chan struct{}), fn: fn, args: args})
}

func (w *W) coReady(c *coro, fr *Frame) bool {
	if c.done || c.idle {
		return false
	}
	if c.wait.p == nil {
		return c.until == 0
	}
	r := w.callV(c.wait, nil, fr)
	if t, ok := r.p.(*Term); ok {
		return w.branch(t)
	}
	return r.n != 0
}

// pick chooses who goes on; nil when nobody can.
func (w *W) pick(fr *Frame) *coro {
	var rs []*coro
	for _, c := range w.cos {
		if w.coReady(c, fr) {
			rs = append(rs, c)
		}
	}
	if len(rs) == 0 {
		for _, c := range w.cos {
			if !c.done && c.idle {
				return c
			}
		}
		// time passes only when nothing else happens
		var first *coro
		for _, c := range w.cos {
			if !c.done && c.until > 0 && (first == nil || c.until < first.until) {
				first = c
			}
		}
		if first != nil && first.until > w.clock {
			w.clock = first.until
		}
		return first
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return rs[w.choice(len(rs), "schedule")]
}

func (w *W) coSave(c *coro) {
	c.stk, c.top, c.frames, c.tf = w.regStk, w.regTop, w.frames, w.topFrame
}

func (w *W) coLoad(c *coro) {
	w.cur = c
	c.wait, c.idle, c.until = V{}, false, 0
	w.regStk, w.regTop, w.frames, w.topFrame = c.stk, c.top, c.frames, c.tf
}

// coGo hands the worker to c.
func (w *W) coGo(c *coro) {
	w.coLoad(c)
	if c.started {
		c.wake <- struct{}{}
		return
	}
	c.started = true
	go w.coRun(c)
}

// block suspends the current goroutine, which has set what it waits for.
func (w *W) block(fr *Frame) {
	if w.spec > 0 {
		w.abort(abSpec, "blocking")
	}
	self := w.cur
	c := w.pick(fr)
	if c == nil {
		panic(&tpanic{v: w.mkErr("deadlock"), msg: "all goroutines are blocked", rt: true, pos: w.where(fr)})
	}
	if c == self {
		c.wait, c.idle, c.until = V{}, false, 0
		return
	}
	w.coSave(self)
	w.coGo(c)
	<-self.wake
	if w.coDying {
		panic(coKill{})
	}
	if self == w.cos[0] && w.coErr != nil {
		e := w.coErr
		w.coErr = nil
		panic(e)
	}
}

func (w *W) coRun(c *coro) {
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(coKill); !ok {
					w.coErr = e
				}
			}
		}()
		w.callV(c.fn, c.args, nil)
	}()
	c.done = true
	if w.coDying {
		w.coAck <- struct{}{}
		return
	}
	next := w.cos[0]
	if w.coErr == nil {
		func() {
			defer func() {
				if e := recover(); e != nil {
					w.coErr = e
				}
			}()
			n := w.pick(nil)
			if n == nil {
				panic(&tpanic{v: w.mkErr("deadlock"), msg: "all goroutines are blocked", rt: true, pos: "end of a goroutine"})
			}
			next = n
		}()
	}
	if w.coErr != nil {
		next = w.cos[0]
	}
	w.coGo(next)
}

// coEnd gets rid of the goroutines that are left at the end of a path.
func (w *W) coEnd() {
	if len(w.cos) == 0 {
		return
	}
	w.coDying = true
	w.coAck = make(chan struct{})
	for _, c := range w.cos[1:] {
		if c.started && !c.done {
			w.coLoad(c)
			c.wake <- struct{}{}
			<-w.coAck
		}
	}
	w.coDying = false
	w.cos, w.cur, w.coErr = nil, nil, nil
	w.locks, w.wgs = nil, nil
}

// clockStart is the time.Now of the start of a path, in seconds.
const clockStart = 63900000000

// waitFor blocks until f holds.
func (w *W) waitFor(fr *Frame, f func(w *W) bool) {
	if f(w) {
		return
	}
	w.coInit()
	w.cur.wait = V{p: &Closure{host: func(w *W, a []V) V { return boolV(f(w)) }}}
	w.block(fr)
}

func registerCoro() {
	// Wait blocks until the function given returns true.
	reg("sym.Wait", false, func(w *W, fr *Frame, a []V) V {
		f := a[0]
		w.waitFor(fr, func(w *W) bool {
			r := w.callV(f, nil, fr)
			if t, ok := r.p.(*Term); ok {
				return w.branch(t)
			}
			return r.n != 0
		})
		return V{}
	})
	// WaitUntil is Wait with a deadline (time.Time in seconds); it tells whether
	// the function returned true.
	reg("sym.WaitUntil", false, func(w *W, fr *Frame, a []V) V {
		f := a[0]
		test := func() bool {
			r := w.callV(f, nil, fr)
			if t, ok := r.p.(*Term); ok {
				return w.branch(t)
			}
			return r.n != 0
		}
		if test() {
			return boolV(true)
		}
		if int64(a[1].n) <= w.clock {
			return boolV(false)
		}
		w.coInit()
		w.cur.wait = V{p: &Closure{host: func(w *W, a []V) V { return boolV(test()) }}}
		w.cur.until = int64(a[1].n)
		w.block(fr)
		return boolV(test())
	})
	reg("time.Sleep", false, func(w *W, fr *Frame, a []V) V {
		if len(w.cos) > 1 && w.spec == 0 {
			w.cur.until = w.clock + (int64(a[0].n)+999999999)/1000000000
			w.block(fr)
		}
		return V{}
	})
	// Pick is a choice of the environment that a replay cannot force.
	reg("sym.Pick", false, func(w *W, fr *Frame, a []V) V { return V{n: uint64(w.choice(int(int64(a[0].n)), "pick"))} })
	// Settle waits until every other goroutine is blocked.
	reg("sym.Settle", false, func(w *W, fr *Frame, a []V) V {
		if len(w.cos) > 1 {
			w.cur.idle = true
			w.block(fr)
		}
		return V{}
	})
	lock := func(n int) intrFn {
		return func(w *W, fr *Frame, a []V) V {
			if len(w.cos) < 2 || w.spec > 0 {
				return V{}
			}
			k := a[0].p
			w.waitFor(fr, func(w *W) bool { return n > 0 && w.locks[k] == 0 || n < 0 && w.locks[k] <= 0 })
			if w.locks == nil {
				w.locks = map[any]int{}
			}
			w.locks[k] += n
			return V{}
		}
	}
	unlock := func(n int) intrFn {
		return func(w *W, fr *Frame, a []V) V {
			if v := w.locks[a[0].p]; v*n > 0 {
				w.locks[a[0].p] -= n
			}
			return V{}
		}
	}
	// readers count down, a writer is 1
	reg("(*sync.Mutex).Lock", false, lock(1))
	reg("(*sync.Mutex).Unlock", false, unlock(1))
	reg("(*sync.RWMutex).Lock", false, lock(1))
	reg("(*sync.RWMutex).Unlock", false, unlock(1))
	reg("(*sync.RWMutex).RLock", false, lock(-1))
	reg("(*sync.RWMutex).RUnlock", false, unlock(-1))
	wg := func(w *W, k any, n int) {
		if w.wgs == nil {
			w.wgs = map[any]int{}
		}
		w.wgs[k] += n
	}
	reg("(*sync.WaitGroup).Add", false, func(w *W, fr *Frame, a []V) V { wg(w, a[0].p, int(int64(a[1].n))); return V{} })
	reg("(*sync.WaitGroup).Done", false, func(w *W, fr *Frame, a []V) V { wg(w, a[0].p, -1); return V{} })
	reg("(*sync.WaitGroup).Wait", false, func(w *W, fr *Frame, a []V) V {
		k := a[0].p
		w.waitFor(fr, func(w *W) bool { return w.wgs[k] <= 0 })
		return V{}
	})
}
