package main

import "unsafe"

// Data races: with the "race" option every access to memory is checked against the
// accesses of other goroutines that are not ordered with it by synchronisation
// (vector clocks, as the race detector of the toolchain does natively).

const raceLabel = "no-data-race"

type vclock []int32

func (v vclock) at(g int) int32 {
	if g < len(v) {
		return v[g]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

type access struct {
	g int
	c int32
}

type shadowCell struct {
	w      access
	wAt    string
	rd     []access
	rdAt   []string
	joined bool
}

type raceState struct {
	cells map[unsafe.Pointer]*shadowCell
	syncs map[any]*vclock
	vcs   []vclock
}

func (p *Path) raceInit() {
	if p.race == nil && p.cfg["race"] > 0 {
		p.race = &raceState{cells: map[unsafe.Pointer]*shadowCell{}, syncs: map[any]*vclock{}, vcs: []vclock{{1}}}
	}
}

func (p *Path) raceSpawn(id int) {
	r := p.race
	if r == nil {
		return
	}
	me := p.sched.cur.id
	for len(r.vcs) <= id {
		r.vcs = append(r.vcs, nil)
	}
	var v vclock
	v.join(r.vcs[me])
	for len(v) <= id {
		v = append(v, 0)
	}
	v[id]++
	r.vcs[id] = v
	r.vcs[me][me]++
}

// release publishes what the running goroutine did so far under key.
func (p *Path) release(key any) {
	r := p.race
	if r == nil {
		return
	}
	me := p.sched.cur.id
	s := r.syncs[key]
	if s == nil {
		s = &vclock{}
		r.syncs[key] = s
	}
	s.join(r.vcs[me])
	r.vcs[me][me]++
}

// acquire orders the running goroutine after the releases under key.
func (p *Path) acquire(key any) {
	r := p.race
	if r == nil {
		return
	}
	if s := r.syncs[key]; s != nil {
		r.vcs[p.sched.cur.id].join(*s)
	}
}

func (p *Path) cell(c unsafe.Pointer) *shadowCell {
	s := p.race.cells[c]
	if s == nil {
		s = &shadowCell{w: access{g: -1}}
		p.race.cells[c] = s
	}
	return s
}

func (p *Path) racePos() string {
	if p.cur == nil {
		return "?"
	}
	return p.ctxString(p.cur)
}

func (p *Path) raceRead(c unsafe.Pointer) {
	me := p.sched.cur.id
	v := p.race.vcs[me]
	s := p.cell(c)
	if s.w.g >= 0 && s.w.g != me && v.at(s.w.g) < s.w.c {
		p.raced(s.wAt)
	}
	for i := range s.rd {
		if s.rd[i].g == me {
			s.rd[i].c = v.at(me)
			return
		}
	}
	s.rd = append(s.rd, access{me, v.at(me)})
	s.rdAt = append(s.rdAt, p.racePos())
}

func (p *Path) raceWrite(c unsafe.Pointer) {
	me := p.sched.cur.id
	v := p.race.vcs[me]
	s := p.cell(c)
	if s.w.g == me && s.w.c == v.at(me) && len(s.rd) == 0 {
		return
	}
	if s.w.g >= 0 && s.w.g != me && v.at(s.w.g) < s.w.c {
		p.raced(s.wAt)
	}
	for i, a := range s.rd {
		if a.g != me && v.at(a.g) < a.c {
			p.raced(s.rdAt[i])
		}
	}
	s.rd, s.rdAt = nil, nil
	s.w = access{me, v.at(me)}
	s.wAt = p.racePos()
}

func (p *Path) raced(other string) {
	at := p.racePos() + " and " + other
	if !p.replaying() {
		p.w.ex.violation(p, raceLabel, at, p.model)
	}
	panic(pathEnd{"violated: " + raceLabel})
}

func (p *Path) raceLoad(c *Val) {
	if a, ok := c.p.(*Agg); ok {
		e := a.els()
		for i := range e {
			p.raceLoad(&e[i])
		}
		return
	}
	p.raceRead(unsafe.Pointer(c))
}

func (p *Path) raceStore(c *Val) {
	if a, ok := c.p.(*Agg); ok {
		e := a.els()
		for i := range e {
			p.raceStore(&e[i])
		}
		return
	}
	p.raceWrite(unsafe.Pointer(c))
}

// racing tells whether accesses are tracked.
func (p *Path) racing() bool { return p.race != nil && len(p.sched.gs) > 1 }

type chanKey struct {
	c    *ChanV
	n    int
	recv bool
}

func (p *Path) raceMap(m Val, write bool) {
	if p.race == nil || !p.racing() {
		return
	}
	if x, ok := m.p.(*MapV); ok {
		if write {
			p.raceWrite(unsafe.Pointer(x))
		} else {
			p.raceRead(unsafe.Pointer(x))
		}
	}
}
