package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the code under test run as host goroutines passing a baton, so
// exactly one runs at a time; switches happen at blocking operations (and, with
// the "sched" option, at every synchronisation operation, as explored choices).

type G struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool
	cur   *Frame
	depth int
}

type Sched struct {
	gs    []*G
	cur   *G
	fatal any
	kill  bool
	exit  chan struct{}

	preempted, delayed int
}

func (p *Path) initSched() {
	g := &G{id: 0, wake: make(chan struct{}, 1)}
	p.sched = &Sched{gs: []*G{g}, cur: g, exit: make(chan struct{}, 1)}
}

func (p *Path) spawn(f Val, args []Val) {
	s := p.sched
	g := &G{id: len(s.gs), wake: make(chan struct{}, 1)}
	if len(s.gs) > 64 {
		panic(unsupported("too many goroutines"))
	}
	s.gs = append(s.gs, g)
	p.raceInit()
	p.raceSpawn(g.id)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if r != nil && s.fatal == nil && !s.kill {
				s.fatal = r
			}
			if s.kill {
				s.exit <- struct{}{}
				return
			}
			if s.fatal != nil {
				s.cur = s.gs[0]
				s.gs[0].wake <- struct{}{}
				return
			}
			p.handoff()
		}()
		if s.kill {
			return
		}
		p.cur, p.depth = nil, 0
		p.callVal(f, args)
	}()
	if p.cfg["sched"] > 0 {
		p.yield()
	}
}

// handoff passes the baton away from a finished goroutine.
func (p *Path) handoff() {
	s := p.sched
	g := func() (g *G) {
		defer func() {
			if r := recover(); r != nil {
				s.fatal = r
				g = nil
			}
		}()
		return p.pick(nil)
	}()
	if g == nil {
		if s.fatal == nil {
			s.fatal = &targetPanic{msg: "all goroutines are asleep - deadlock!"}
		}
		g = s.gs[0]
	}
	s.cur = g
	g.wake <- struct{}{}
}

func (p *Path) pick(self *G) *G {
	s := p.sched
	var c []*G
	for _, g := range s.gs {
		if g.done || g == self {
			continue
		}
		if g.ready == nil || g.ready() {
			c = append(c, g)
		}
	}
	if self != nil && (self.ready == nil || self.ready()) {
		c = append([]*G{self}, c...)
	}
	if len(c) == 0 {
		return nil
	}
	i := 0
	if p.cfg["sched"] > 0 && len(c) > 1 {
		// "preempt" bounds the switches away from a goroutine that could go on,
		// "delay" all deviations from the order of the goroutines
		if k := p.cfg["preempt"]; k > 0 && c[0] == self && s.preempted >= int(k) {
			return self
		}
		if k := p.cfg["delay"]; k > 0 && s.delayed >= int(k) {
			return c[0]
		}
		i = p.choose(len(c))
		if i > 0 {
			s.delayed++
			if c[0] == self {
				s.preempted++
			}
		}
	}
	return c[i]
}

func (p *Path) switchTo(g *G) {
	s := p.sched
	me := s.cur
	if g == me {
		return
	}
	me.cur, me.depth = p.cur, p.depth
	s.cur = g
	g.wake <- struct{}{}
	<-me.wake
	if s.kill {
		panic(pathEnd{"killed"})
	}
	if s.fatal != nil && me.id == 0 {
		panic(s.fatal)
	}
	p.cur, p.depth = me.cur, me.depth
}

func (p *Path) yield() {
	if len(p.sched.gs) == 1 {
		return
	}
	p.abortMerge("yield")
	me := p.sched.cur
	if g := p.pick(me); g != nil {
		p.switchTo(g)
	}
}

func (p *Path) block(ready func() bool) {
	s := p.sched
	if p.cfg["sched"] > 0 {
		p.yield()
	}
	for !ready() {
		me := s.cur
		me.ready = ready
		g := p.pick(nil2(me))
		if g == nil || g == me {
			me.ready = nil
			if g == nil {
				p.tpanic("all goroutines are asleep - deadlock!")
			}
			continue
		}
		p.switchTo(g)
		me.ready = nil
	}
}

func nil2(g *G) *G { return g }

func (p *Path) killAll() {
	s := p.sched
	if s == nil {
		return
	}
	s.kill = true
	for _, g := range s.gs[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-s.exit
		}
	}
}

// ---------- channels ----------

func (p *Path) ch(v Val) *ChanV {
	c, _ := v.p.(*ChanV)
	if c == nil {
		p.block(func() bool { return false })
	}
	return c
}

func (p *Path) chanSend(cv, v Val) {
	c := p.ch(cv)
	if c.cap == 0 {
		p.block(func() bool { return c.closed || c.recvWaiting > len(c.buf) })
	} else {
		p.block(func() bool { return c.closed || len(c.buf) < c.cap })
	}
	if c.closed {
		p.tpanic("send on closed channel")
	}
	old := c.buf
	p.trail = append(p.trail, undo{f: func() { c.buf = old }})
	if p.race != nil {
		// a slot of the buffer is free once its last item was received
		p.acquire(chanKey{c, c.sent - c.cap, true})
		p.release(chanKey{c, c.sent, false})
		c.sent++
	}
	c.buf = append(append([]Val(nil), c.buf...), v)
	if c.cap == 0 {
		p.yield()
	}
}

func (p *Path) chanRecv(cv Val) (Val, bool) {
	c := p.ch(cv)
	c.recvWaiting++
	func() {
		defer func() { c.recvWaiting-- }()
		p.block(func() bool { return c.closed || len(c.buf) > 0 })
	}()
	if len(c.buf) > 0 {
		v := c.buf[0]
		old := c.buf
		p.trail = append(p.trail, undo{f: func() { c.buf = old }})
		c.buf = c.buf[1:]
		if p.race != nil {
			p.acquire(chanKey{c, c.recvd, false})
			p.release(chanKey{c, c.recvd, true})
			c.recvd++
		}
		return v, true
	}
	p.acquire(chanKey{c, -1, false})
	return zero(c.et), false
}

func (p *Path) selectOp(fr *Frame, c *cin) Val {
	s := c.in.(*ssa.Select)
	// operands are looked up by value
	getv := func(v ssa.Value) Val { return p.valueOf(fr, v) }
	type st struct {
		c    *ChanV
		send bool
		v    Val
	}
	var sts []st
	for _, x := range s.States {
		cv := getv(x.Chan)
		ch, _ := cv.p.(*ChanV)
		q := st{c: ch, send: x.Send != nil}
		if x.Send != nil {
			q.v = getv(x.Send)
		}
		sts = append(sts, q)
	}
	rdy := func(q st) bool {
		if q.c == nil {
			return false
		}
		if q.send {
			if q.c.cap == 0 {
				return q.c.closed || q.c.recvWaiting > len(q.c.buf)
			}
			return q.c.closed || len(q.c.buf) < q.c.cap
		}
		return q.c.closed || len(q.c.buf) > 0
	}
	anyReady := func() bool {
		for _, q := range sts {
			if rdy(q) {
				return true
			}
		}
		return false
	}
	if !s.Blocking && !anyReady() {
		return p.selRes(s, -1, Val{}, false)
	}
	for _, q := range sts {
		if q.c != nil && !q.send {
			q.c.recvWaiting++
		}
	}
	func() {
		defer func() {
			for _, q := range sts {
				if q.c != nil && !q.send {
					q.c.recvWaiting--
				}
			}
		}()
		p.block(anyReady)
	}()
	var cand []int
	for i, q := range sts {
		if rdy(q) {
			cand = append(cand, i)
		}
	}
	i := cand[0]
	if p.cfg["sched"] > 0 {
		i = cand[p.choose(len(cand))]
	}
	if sts[i].send {
		p.chanSend(Val{p: sts[i].c}, sts[i].v)
		return p.selRes(s, i, Val{}, false)
	}
	v, ok := p.chanRecv(Val{p: sts[i].c})
	return p.selRes(s, i, v, ok)
}

func (p *Path) selRes(s *ssa.Select, i int, v Val, ok bool) Val {
	out := []Val{intVal(i), boolVal(ok)}
	for k, x := range s.States {
		if x.Send == nil {
			if k == i {
				out = append(out, v)
			} else {
				out = append(out, Val{})
			}
		}
	}
	return Val{p: &Tup{out}}
}

func (p *Path) valueOf(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return Val{p: p.w.glob(globIdx(x))}
	case *ssa.Function:
		return Val{p: x}
	}
	f := fr.fi.fn
	n := 0
	for _, q := range f.Params {
		if q == v {
			return fr.regs[n]
		}
		n++
	}
	for _, q := range f.FreeVars {
		if q == v {
			return fr.regs[n]
		}
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if q, ok := in.(ssa.Value); ok {
				if q == v {
					return fr.regs[n]
				}
				n++
			}
		}
	}
	panic(fmt.Sprintf("valueOf %v", v))
}
