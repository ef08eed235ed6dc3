package main

import "sync"

// chains adds objects that grew step by step from one another, so that their
// lists end anywhere inside the memory they were given.
func (r *runner) chains() {
	for i, op := range []string{"where", "order", "values", "set", "wgand", "wgor", "gand", "gor", "and", "or", "on", "where", "order"} {
		last := 0
		for k := 0; k < 3+2*(i%2); k++ {
			e := r.g.propose(op)
			if op == "on" {
				j := r.g.propose("join")
				if j == nil {
					break
				}
				if last != 0 {
					j.R = last
				}
				r.g.fill(j)
				r.step(j, true)
				e = r.g.propose("on")
				if e != nil {
					e.R = len(r.w.objs)
				}
			} else if last != 0 && e != nil {
				e.R = last
			}
			if e == nil {
				break
			}
			r.g.fill(e)
			r.step(e, true)
			last = len(r.w.objs)
		}
	}
}

// share gives a runner everything the master has obtained so far, the very
// same objects, and its own copies of the lines about them from the given one
// on.  What the master has not looked at the runner has to look at itself.
func (r *runner) share(master *runner, from int) {
	r.w.objs = append([]any{}, master.w.objs...)
	r.s.objs = append([]any{}, master.s.objs...)
	r.t.objs = append([]any{}, master.t.objs...)
	r.g.m = append([]meta{}, master.g.m...)
	r.kept = append([]*retained{}, master.kept...)
	r.leaks = append([]string{}, master.leaks...)
	copies := map[*line]*line{}
	for _, ln := range master.held[from:] {
		if ln == nil {
			r.held = append(r.held, nil)
			continue
		}
		c := *ln
		copies[ln] = &c
		r.held = append(r.held, &c)
	}
	for _, p := range master.pend {
		if p.ln = copies[p.ln]; p.ln != nil {
			r.pend = append(r.pend, p)
		}
	}
}

func (r *runner) flushHeld() {
	for _, ln := range r.held {
		if ln == nil {
			r.emit(resetLine{"reset", r.trim})
		} else {
			r.emit(ln)
		}
	}
	r.close()
}

func together(rs []*runner, do func(k int, r *runner)) {
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for k, r := range rs {
		k, r := k, r
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			do(k, r)
		}()
	}
	close(begin)
	wg.Wait()
}

// concurrent builds one set of shared definitions, then lets goroutines
// derive from it and render at the same time.  Every goroutine has its own
// trace: the shared prelude followed by what it did.  Afterwards each of them
// is repeated alone, and the shared definitions are looked at once more.
func concurrent(rs []*runner, master *runner, rounds, length, hbase, presize int) {
	goroutines := len(rs)
	master.hold, master.late = true, true
	master.rd = "end"
	master.randomPrelude(presize)
	master.chains()
	master.endPrelude()
	for _, r := range rs {
		r.rd = "end"
		r.hold, r.yield = true, true
		r.share(master, 0)
		r.endPrelude()
	}
	together(rs, func(k int, r *runner) { r.settle() })
	for round := 0; round < rounds; round++ {
		together(rs, func(k int, r *runner) { r.randomHistory(hbase+round*goroutines+k, length) })
	}
	master.settle()
	master.late = false
	master.reset(hbase + rounds*goroutines)
	master.step(&Event{Op: "whr", A: []int{}, S: map[string]any{}}, true)
	for _, r := range append(append([]*runner{}, rs...), master) {
		r.alone()
		r.flushHeld()
	}
}

// forked plays generated histories made of a common chain and two branches:
// the chain once, then the branches at the same time, each by several
// goroutines, on the very same objects, which nobody has looked at before.
func forked(rs []*runner, master *runner, pre []*Event, scripts [][]*Event, hbase, only int) {
	master.hold = true
	master.rd = "none"
	master.play(pre)
	master.endPrelude()
	for _, r := range rs {
		r.rd = "end"
		r.hold = true
		r.share(master, 0)
		r.endPrelude()
	}
	for i, ev := range scripts {
		if only >= 0 && hbase+i != only {
			continue
		}
		n := len(ev) - 2
		if n < 0 || !reaches(ev[n+1], len(pre)+n) {
			continue // not a chain with two branches
		}
		master.reset(hbase + i)
		from := len(master.held)
		master.late = true
		for _, e := range ev[:n] {
			c := clone(e)
			master.g.fill(c)
			master.step(c, false)
		}
		for _, r := range rs {
			r.reset(hbase + i)
			r.share(master, from)
			r.i = n
		}
		together(rs, func(k int, r *runner) {
			if k/2%2 == 1 { // some look first, the others go on first
				r.settle()
			}
			c := clone(ev[n+k%2])
			r.g.fill(c)
			r.late = true
			r.step(c, true)
			r.settle()
		})
		master.pend = nil
	}
	for _, r := range rs {
		r.alone()
		r.flushHeld()
	}
	master.held = nil
	master.close()
}

// reaches: the call needs nothing beyond the first n objects.
func reaches(e *Event, n int) bool {
	for _, a := range e.A {
		if a > n {
			return false
		}
	}
	return e.R <= n
}

// alone repeats the calls with nothing else going on.
func (r *runner) alone() {
	w := &world{}
	for _, ln := range r.held {
		if ln == nil {
			w.objs = w.objs[:r.trim:r.trim]
			continue
		}
		x := w.apply(ln.E)
		if !alike(interpret(collect(x)), ln.O) {
			ln.Al = "differs"
		}
		runScribbles(w)
		w.objs = append(w.objs, x)
	}
}
