// harness drives the real query library with histories of calls and records
// what every object shows as traces for the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type line struct {
	T      string   `json:"t"`
	H      int      `json:"h"`
	I      int      `json:"i"`
	E      *Event   `json:"e"`
	O      obs      `json:"o"`
	D      string   `json:"d"`
	Rd     []string `json:"rd"`
	Repeat string   `json:"repeat"`
	X      string   `json:"x"`
	Y      string   `json:"y"`
	Lk     []string `json:"lk"`
	Tw     string   `json:"tw"` // another spelling of the same calls shows something else
	Al     string   `json:"al"` // the same calls made by one goroutine alone show something else
}

type resetLine struct {
	T string `json:"t"`
	N int    `json:"n"`
}

type stats struct {
	Events    int            `json:"events"`
	Histories int            `json:"histories"`
	Ops       map[string]int `json:"ops"`
	Distinct  int            `json:"distinct"` // different SQL skeletons produced
	Samples   []string       `json:"samples"`
	skel      map[uint32]bool
}

// runner executes histories in the real world and in its shadow.
type runner struct {
	w, s    *world      // the run and its shadow: same calls, other values
	t       *world      // the same calls in another spelling
	kept    []*retained // what the objects of the run returned at first
	seed    int64
	shards  int
	g       *generator
	out     *bufio.Writer
	f       *os.File
	rd      string // each | end | none
	h       int
	i       int
	leaks   []string
	preLeak int
	held    []*line // lines kept back until the concurrent part is over
	hold    bool
	flush   bool
	st      stats
	dog     *watchdog
	late    bool
	pend    []pending
	trim    int // registry length to go back to
	yield   bool
}

func newRunner(path string, seed int64, rd string) *runner {
	f, err := os.Create(path)
	must(err)
	return &runner{w: &world{}, s: &world{alt: true}, t: &world{}, seed: seed, g: newGenerator(seed), f: f, out: bufio.NewWriterSize(f, 1<<20), rd: rd, dog: &watchdog{},
		st: stats{Ops: map[string]int{}, skel: map[uint32]bool{}}}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func (r *runner) emit(x any) {
	b, err := json.Marshal(x)
	must(err)
	r.out.Write(b)
	r.out.WriteByte('\n')
	if r.flush {
		must(r.out.Flush())
	}
}

func textHash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

func (r *runner) rememberLeaks(e *Event) {
	if v, ok := e.S["v"].(Val); ok {
		r.leaks = append(r.leaks, leakTexts(v)...)
	}
	if m, ok := e.S["m"].([]vmEntry); ok {
		for _, x := range m {
			r.leaks = append(r.leaks, leakTexts(x.V)...)
		}
	}
}

// endPrelude: histories start here.
func (r *runner) endPrelude() {
	r.trim = len(r.w.objs)
	r.preLeak = len(r.leaks)
}

// reset goes back to the prelude.  Every history has its own random choices,
// so that it can be repeated alone.
func (r *runner) reset(h int) {
	n := r.trim
	r.w.objs, r.s.objs, r.t.objs = r.w.objs[:n:n], r.s.objs[:n:n], r.t.objs[:n:n]
	r.g.m = r.g.m[:n:n]
	r.kept = r.kept[:n:n]
	r.leaks = r.leaks[:r.preLeak:r.preLeak]
	r.g.restart(r.seed, h)
	if r.hold {
		r.held = append(r.held, nil)
	} else {
		r.emit(resetLine{"reset", n})
	}
	r.h, r.i = h, 0
	r.st.Histories++
}

func runScribbles(w *world) {
	for _, f := range w.scribbles {
		f()
	}
}

func asJSON(x any) string {
	b, err := json.Marshal(x)
	must(err)
	return string(b)
}

// alike: the same observation; the wording of errors does not matter.
func alike(a, b obs) bool {
	x, y := obs{}, obs{}
	for k, v := range a {
		x[k] = v
	}
	for k, v := range b {
		y[k] = v
	}
	delete(x, "msg")
	delete(y, "msg")
	return asJSON(x) == asJSON(y)
}

// pending is a call whose result nobody has looked at yet.
type pending struct {
	ln      *line
	x, y, z any
	looks   []func() string
	leaks   []string
	at      int // its place in the registry
}

// step makes one call and records it.  In late histories nothing is looked at
// before everything has been obtained, and then in any order: an object shows
// the same whenever it is looked at first, and by whomever.
func (r *runner) step(e *Event, last bool) {
	if r.yield && r.g.rnd.Intn(3) == 0 {
		runtime.Gosched()
	}
	r.rememberLeaks(e)
	r.dog.begin(e)
	x := r.w.apply(e)
	y := r.s.apply(e)
	other := *e
	other.Via = r.g.rnd.Intn(240)
	z := r.t.apply(&other)
	p := pending{ln: &line{T: "ev", H: r.h, I: r.i, E: e, Rd: []string{}, Lk: []string{}}, x: x, y: y, z: z, looks: r.w.looks, leaks: r.leaks, at: len(r.w.objs)}
	r.w.objs, r.s.objs, r.t.objs = append(r.w.objs, x), append(r.s.objs, y), append(r.t.objs, z)
	r.kept = append(r.kept, nil)
	if r.hold {
		r.held = append(r.held, p.ln)
	}
	shown := (*raw)(nil)
	if r.late {
		shown = collect(y) // the shadow; the run itself stays as it is
		r.scribbleAll()
		r.pend = append(r.pend, p)
	} else {
		shown = r.look(p, r.scribbleAll)
		if r.rd == "each" || (r.rd == "end" && last) {
			r.lookBack(p)
		}
		if !r.hold {
			r.emit(p.ln)
		}
	}
	r.dog.end()
	if kind := shown.kind; shown.awk {
		r.g.note(e, "awkward "+kind)
	} else {
		r.g.note(e, kind)
	}
	r.i++
	r.st.Events++
	r.st.Ops[e.Op]++
}

func (r *runner) scribbleAll() {
	runScribbles(r.w)
	runScribbles(r.s)
	runScribbles(r.t)
}

// look looks at a result for the first time, and again after what happened.
func (r *runner) look(p pending, between func()) *raw {
	rx, ry, rz := collect(p.x), collect(p.y), collect(p.z)
	ln := p.ln
	ln.O, ln.D = interpret(rx), rx.digest()
	if !alike(interpret(rz), ln.O) {
		ln.Tw = "differs"
	}
	ln.X, ln.Y = textHash(rx.sqlText()), textHash(ry.sqlText())
	text := rx.sqlText()
	for _, l := range p.leaks {
		if strings.Contains(text, l) {
			ln.Lk = append(ln.Lk, l)
			break
		}
	}
	keep := retain(p.x, rx, p.looks)
	between()
	if again := collect(p.x); again.digest() != ln.D || keep.changed() != "" {
		ln.Repeat = "changed"
	}
	r.kept[p.at] = keep
	sk := fnv.New32a()
	sk.Write([]byte(rx.kind + skeleton(rx.s("r0")+rx.s("sql"))))
	r.st.skel[sk.Sum32()] = true
	if len(r.st.Samples) < 3 && r.st.Histories%97 == 1 && p.at%8 == 7 {
		r.st.Samples = append(r.st.Samples, fmt.Sprintf("%s: %s", ln.E.Op, rx.s("sql")+rx.s("r0")))
	}
	return rx
}

// lookBack looks again at everything older than a result.
func (r *runner) lookBack(p pending) {
	for i, o := range r.w.objs[:p.at] {
		p.ln.Rd = append(p.ln.Rd, collect(o).digest()+r.kept[i].changed())
	}
}

// settle looks at everything nobody has looked at yet.
func (r *runner) settle() {
	ps := r.pend
	if len(ps) == 0 {
		return
	}
	r.pend = nil
	for _, i := range r.g.rnd.Perm(len(ps)) {
		r.dog.begin(ps[i].ln.E)
		r.look(ps[i], func() {})
	}
	r.dog.begin(ps[len(ps)-1].ln.E)
	if r.rd != "none" {
		r.lookBack(ps[len(ps)-1])
	}
	r.dog.end()
	if !r.hold {
		for _, p := range ps {
			r.emit(p.ln)
		}
	}
}

// lateHistory: one of three histories is looked at only when it is over.
func (r *runner) lateHistory() bool { return (r.h+int(r.seed%1000))%3 == 2 }

func (r *runner) close() {
	must(r.out.Flush())
	must(r.f.Close())
	r.st.Distinct = len(r.st.skel)
}

// ---- preludes of random histories: shared ancestors of everything after

func (r *runner) randomPrelude(size int) {
	first := []string{"leaf", "leaf", "leaf", "leaf", "leaf", "newgroup", "fld", "fld", "tbl", "ord", "ord", "fv", "fv", "fv",
		"from", "from", "where", "where", "order", "upd", "set", "ins", "values", "del", "join", "on", "whr", "wgand", "or", "orf",
		"lim", "jc", "jnrfields"}
	for i := 0; i < size; i++ {
		op := first[i%len(first)]
		if e := r.g.propose(op); e != nil {
			r.g.fill(e)
			if op == "leaf" && i < 3 {
				e.S["o"] = comparisons[(r.g.turn+i)%6]
				e.S["v"] = r.g.leafValue(e.str("o"), "tok")
			}
			r.step(e, true)
		}
	}
	e := &Event{Op: "fld", A: []int{}, S: map[string]any{"f": []string{"t", "f", ""}}}
	r.g.fill(e)
	r.step(e, true)
	e = &Event{Op: "fld", A: []int{}, S: map[string]any{"f": []string{"u", "g", "al"}}}
	r.g.fill(e)
	r.step(e, true)
	r.endPrelude()
}

func (r *runner) randomHistory(h, n int) {
	r.reset(h)
	r.late = r.lateHistory()
	for i := 0; i < n; i++ {
		r.step(r.g.next(), i == n-1 || i%8 == 7)
	}
	r.settle()
	r.late = false
}

type script struct {
	Pre []*Event `json:"pre"`
	Ev  []*Event `json:"ev"`
}

func readScripts(path string) (pre []*Event, scripts [][]*Event) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s script
		must(json.Unmarshal(sc.Bytes(), &s))
		if s.Pre != nil {
			pre = s.Pre
		} else {
			scripts = append(scripts, s.Ev)
		}
	}
	must(sc.Err())
	return pre, scripts
}

func clone(e *Event) *Event {
	c := *e
	c.S = map[string]any{}
	for k, v := range e.S {
		c.S[k] = v
	}
	return &c
}

func (r *runner) play(ev []*Event) {
	for i, e := range ev {
		c := clone(e)
		r.g.fill(c)
		r.step(c, i == len(ev)-1)
	}
}

func main() {
	mode := flag.String("mode", "random", "random | script | conc")
	in := flag.String("in", "", "script file")
	out := flag.String("out", ".", "trace directory")
	name := flag.String("name", "t", "trace name")
	prof := flag.String("profile", "all", "profile")
	n := flag.Int("n", 10, "histories per shard")
	length := flag.Int("len", 20, "calls per history")
	shards := flag.Int("shards", 6, "traces")
	seed := flag.Int64("seed", 1, "seed")
	rd := flag.String("rd", "each", "re-observe: each | end | none")
	presize := flag.Int("pre", 34, "prelude size of random histories")
	only := flag.Int("only", -1, "make a single history")
	shard := flag.Int("shard", -1, "make a single trace")
	hbase := flag.Int("h0", 0, "number of the first history")
	wide := flag.Bool("wide", false, "statements of up to 60 comparisons, long lists")
	tight := flag.Bool("tight", false, "few names, values and kinds of comparison")
	every := flag.Bool("every", false, "every trace has all histories of the script")
	flush := flag.Bool("flush", false, "write every line at once")
	flag.Parse()
	debug.SetMaxStack(128 << 20)

	var all []*runner
	var wg sync.WaitGroup
	file := func(k int) string { return filepath.Join(*out, fmt.Sprintf("%s-%02d.ndjson", *name, k)) }
	skip := func(i int) bool { return *only >= 0 && i != *only-*hbase }
	p, ok := profiles[*prof]
	if !ok {
		must(fmt.Errorf("no profile %s", *prof))
	}
	start := func(k int) *runner {
		r := newRunner(file(k), *seed*1000+int64(k), *rd)
		r.flush = *flush
		r.h = *hbase - 1
		r.g.setProfile(p)
		r.g.setWide(*wide, *tight)
		all = append(all, r)
		return r
	}
	begin := func() {
		var ws []*watchdog
		for _, r := range all {
			ws = append(ws, r.dog)
		}
		go watch(filepath.Join(*out, *name+".hang"), ws)
	}
	var mine []int
	for k := 0; k < *shards; k++ {
		if *shard < 0 || *shard == k {
			mine = append(mine, k)
		}
	}
	switch *mode {
	case "random":
		for _, k := range mine {
			start(k)
		}
		begin()
		for j, k := range mine {
			k, r := k, all[j]
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.randomPrelude(*presize)
				for i := k; i < *n**shards; i += *shards {
					if !skip(i) {
						r.randomHistory(*hbase+i, *length)
					}
				}
				r.close()
			}()
		}
	case "script":
		pre, scripts := readScripts(*in)
		for _, k := range mine {
			start(k)
		}
		begin()
		for j, k := range mine {
			k, r := k, all[j]
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.play(pre)
				r.endPrelude()
				from, by := k, *shards
				if *every { // the comparisons of the prelude are others in every trace
					from, by = 0, 1
				}
				for i := from; i < len(scripts); i += by {
					if !skip(i) {
						r.reset(*hbase + i)
						r.late = r.lateHistory()
						r.play(scripts[i])
						r.settle()
						r.late = false
					}
				}
				r.close()
			}()
		}
	case "conc":
		for k := 0; k <= *shards; k++ {
			start(k)
		}
		begin()
		if *in != "" {
			pre, scripts := readScripts(*in)
			forked(all[:*shards], all[*shards], pre, scripts, *hbase, *only)
			break
		}
		concurrent(all[:*shards], all[*shards], *n, *length, *hbase, *presize)
	}
	wg.Wait()
	total := stats{Ops: map[string]int{}, Samples: []string{}, skel: map[uint32]bool{}}
	for _, r := range all {
		total.Events += r.st.Events
		total.Histories += r.st.Histories
		for k, v := range r.st.Ops {
			total.Ops[k] += v
		}
		for k := range r.st.skel {
			total.skel[k] = true
		}
		total.Samples = append(total.Samples, r.st.Samples...)
	}
	sort.Strings(total.Samples)
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	total.Distinct = len(total.skel)
	b, _ := json.Marshal(total)
	fmt.Println(string(b))
}

func readAll(path string) []byte {
	b, err := os.ReadFile(path)
	must(err)
	return b
}

// watchdog notices a call of one runner that does not come back or eats the
// memory.  It shares nothing between runners, so that it orders none of their
// steps for the race detector.
type watchdog struct {
	since atomic.Int64
	op    atomic.Pointer[Event]
}

const maxStep = 60 * time.Second

func (w *watchdog) begin(e *Event) {
	w.op.Store(e)
	w.since.Store(time.Now().UnixNano())
}

func (w *watchdog) end() { w.since.Store(0) }

func watch(path string, ws []*watchdog) {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		runtime.ReadMemStats(&ms)
		for _, w := range ws {
			since := w.since.Load()
			if since == 0 {
				continue
			}
			if time.Since(time.Unix(0, since)) > maxStep || ms.Sys > 12<<30 {
				_ = os.WriteFile(path, []byte(w.op.Load().Op), 0o644)
				fmt.Fprintln(os.Stderr, "harness: a call does not return:", w.op.Load().Op)
				os.Exit(4)
			}
		}
	}
}
