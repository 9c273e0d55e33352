package checks

import (
	"fmt"
	"sync/atomic"
	"time"

	gopdf "github.com/signintech/pdft/minigopdf"

	"verif/mc"
)

// sched controls one of two threads that use a document each. Before every
// statement of the library (that is compiled with scheduling points, see
// instr) the thread reports here, and at point no. stop of the selected
// classes it hands over to the other.
type sched struct {
	mask  int          // classes of points that count
	n     int64        // points of these classes passed
	all   atomic.Int64 // points of any class passed: a sign of life
	stop  int64        // hand over at this point; -1: never
	yield func()       // runs the other thread
}

func (s *sched) point(class int) {
	s.all.Add(1)
	if class&s.mask == 0 {
		return
	}
	n := s.n
	s.n++
	if n == s.stop && s.yield != nil {
		withLabel(nil, s.yield)
	}
}

// rest waits for done. A thread without progress for a while waits for a lock
// that the caller holds: then the caller goes on.
func (s *sched) rest(done chan struct{}) {
	last := s.all.Load()
	for {
		t := time.NewTimer(10 * time.Millisecond)
		select {
		case <-done:
			t.Stop()
			return
		case <-t.C:
		}
		if now := s.all.Load(); now == last {
			return
		} else {
			last = now
		}
	}
}

// a job is the life of a document: opened, used, saved and verified.
type job struct {
	name string
	tmpl *Tmpl
	ops  []Op
	draw []gOp        // a document drawn from scratch instead
	own  func() error // something else
}

func (j job) run() error {
	return mc.Guard(func() error {
		if j.own != nil {
			return j.own()
		}
		if j.draw != nil {
			w := gStart(200, 300, &Prot{4, []byte("u"), []byte("o")})
			for _, o := range j.draw {
				if err := o.Do(w); err != nil {
					return err
				}
			}
			return w.verify(0)
		}
		w, err := Open(j.tmpl)
		if err != nil {
			return err
		}
		if err := RunOps(w, j.ops); err != nil {
			return err
		}
		_, err = SaveVerify(w)
		return err
	})
}

// solo counts the points of a job.
func (j job) solo(mask int) (int64, error) {
	s := &sched{mask: mask, stop: -1}
	var err error
	withLabel(s, func() { err = j.run() })
	return s.n, err
}

// twoThreads runs a up to its point k1, then b up to its point k2 (or to its
// end, if k2 < 0), then a to its end, then the rest of b.
func twoThreads(a, b job, mask int, k1, k2 int64) error {
	sb := &sched{mask: mask, stop: k2}
	sa := &sched{mask: mask, stop: k1}
	aDone, bDone, bPaused := make(chan struct{}), make(chan struct{}), make(chan struct{})
	var ea, eb error
	started := false
	sb.yield = func() {
		close(bPaused)
		sa.rest(aDone)
	}
	sa.yield = func() {
		started = true
		go func() {
			defer close(bDone)
			withLabel(sb, func() { eb = b.run() })
		}()
		if k2 < 0 {
			sb.rest(bDone)
			return
		}
		either := make(chan struct{})
		go func() {
			select {
			case <-bDone:
			case <-bPaused:
			}
			close(either)
		}()
		sb.rest(either)
	}
	withLabel(sa, func() { ea = a.run() })
	close(aDone)
	if started {
		<-bDone
	}
	if ea != nil {
		return fmt.Errorf("the document that was interrupted: %w", ea)
	}
	if eb != nil {
		return fmt.Errorf("the document used meanwhile: %w", eb)
	}
	return nil
}

func schedules(r *mc.Run) {
	if !yieldAvailable {
		r.Bound("(library could not be compiled with scheduling points: overlapping calls were not explored)")
		return
	}
	jobs := []job{
		{"text", T1, []Op{OpFont("a", tinyFont), OpKern("a", kerns[2]), OpSet("a", "U", 12), textOp("ab"), OpWrap(TextArg{"ab ba", 1, 5, 6, 20, 40, 0, red})}, nil, nil},
		{"images", T1, []Op{OpImg("cache", ImRGBA, 1, 5, 6, 30, 20), OpImg("plain", ImPal, 1, 5, 6, 30, 20), OpBorder(true)}, nil, nil},
		{"pages", T2, []Op{OpDup(1, 0), OpRm(1)}, nil, nil},
		{"protected", T1, []Op{OpProt(4, []byte("u"), []byte("o")), OpFont("b", tinyFont), OpSet("b", "", 9), textOp("ba")}, nil, nil},
	}
	jobs = append(jobs, job{name: "drawn", draw: []gOp{gFontOp("a", tinyKern, 0, true), gFontOp("b", tinyFont, 0, false), gPageOp(0, 0), gSet("a", "U", 12), gText("ab"),
		gCell("ba", &gopdf.Rect{W: 40, H: 50}, nil), gImage(tinyImgs[1], "bytes", 3, 4, nil), gImage(tinyImgs[2], "bytes", 5, 4, nil), gPageOp(99, 77), gSet("b", "", 9), gText("ab"), gLine(1, 2, 3, 4)}})
	jobs = append(jobs, job{name: "fontmaker", own: fmJob()})
	n1, n2 := 0, 0
	run := func(a, b job, mask int, k1, k2 int64) {
		r.Case("schedule", fmt.Sprintf("%s,%s:%d:%d,%d", a.name, b.name, mask, k1, k2), func() error {
			if err := twoThreads(a, b, mask, k1, k2); err != nil {
				return err
			}
			r.Trans(2)
			r.Trace()
			return nil
		})
	}
	one := func(i, j, mask int) {
		n, _ := jobs[i].solo(mask) // a job that fails alone fails in the other strata
		for k := int64(0); k < n; k++ {
			run(jobs[i], jobs[j], mask, k, -1)
			n1++
		}
	}
	for _, a := range jobs {
		for _, b := range jobs {
			na, _ := a.solo(16)
			nb, _ := b.solo(16)
			for k1 := int64(0); k1 < na; k1++ {
				for k2 := int64(0); k2 < nb; k2++ {
					run(a, b, 16, k1, k2)
					n2++
				}
			}
		}
	}
	for i := range jobs {
		for j := range jobs {
			if r.Thorough() {
				one(i, j, 7)
			} else if j == i || j == (i+1)%len(jobs) {
				one(i, j, 3)
			}
			if r.Thorough() && i == j && i < 2 {
				one(i, j, 15)
			}
		}
	}
	pts := "start of a function and every statement of a function that uses a package variable"
	if r.Thorough() {
		pts = "start of a function or loop body, every statement of a function that uses a package variable, and every statement at all for 2 pairs"
	}
	r.Bound("two threads, a document each (%d lives: opened, used, saved): %d schedules with one preemption, at every %s; %d schedules with a preemption of either thread, at every pair of statements at a package variable", len(jobs), n1, pts, n2)
}
