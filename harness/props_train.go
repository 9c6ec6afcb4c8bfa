package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C13", Quick: 60000, Thorough: 1500000, Run: runC13,
		Rule: "a case is one training call (after zero or more earlier ones) on a model whose layers, loss and optimizers are wrapped by recording spies; the recorded trace is parsed online against the grammar of minibatch training and the matrices in it are matched with the dataset bit by bit; non-trivial when at least two batches were recorded",
		Floors: map[string]int64{"inputs are the targets": 2000, "validation set is the training set": 2000, "thousands of epochs": 100, "negative epochs": 1000, "very deep models": 300, "trace events": 400000, "batches recognised": 60000, "epochs recognised": 15000, "remainder batches": 6000, "single samples per batch": 300, "batch size zero": 800, "batch larger than the data": 800,
			"batch size equals samples": 150, "zero epochs": 500, "diverging trainings": 800, "huge batch sizes": 300, "fused paths": 1000, "training mode seen through dropout": 3000, "evaluations between batches": 2000, "large datasets": 30, "hundreds of batches": 10}})
	register(&Prop{ID: "C14", Quick: 24000, Thorough: 500000, Run: runC14,
		Rule:   "a case is one or two models (possibly finalized with the same optimizer and loss objects, possibly loaded from a file) trained by an interleaving of training calls, evaluations, user edits of the parameters, and re-finalizing; after every call all parameters are compared with an independent trainer within a tolerance measured by disturbing that trainer; non-trivial when at least three updates were judged",
		Floors: map[string]int64{"inputs are the targets": 500, "huge batches": 40, "thousands of epochs": 40, "very deep models": 50, "training calls judged": 25000, "updates judged": 150000, "successive training calls": 8000, "sibling models": 3000, "re-finalized": 600, "loaded": 600, "edited parameters": 800, "loss mse": 2000, "loss mae": 2000, "loss ce": 2000, "loss bce": 2000, "adam": 5000, "sgd": 5000, "with decay": 4000, "with momentum": 2000, "minibatches with remainder": 5000, "hundreds of batches": 20}})
	register(&Prop{ID: "C15", Quick: 26000, Thorough: 400000, Run: runC15,
		Rule:   "a case is a twin run: the same model trained on the same data, once plainly and once with evaluations, logging, validation, saving, gradient passes and split training calls in between; parameters are compared bit by bit after every training call, and around every non-training call; non-trivial when the disturbed twin saw at least two non-training calls",
		Floors: map[string]int64{"inputs are the targets": 300, "thousands of epochs": 20, "twin comparisons": 8000, "non-training calls": 60000, "split training calls": 2000, "with logging": 2000, "with validation": 2000, "with dropout layers": 600, "op forward training": 3000, "op backward": 3000, "op predict": 3000, "op loss": 3000, "op accuracy": 3000, "op save": 3000, "op file": 300}})
}

// ---- C13 ----

const (
	evF  = iota // layer forward
	evB         // layer backward
	evLF        // loss forward
	evLB        // loss backward
	evU         // optimizer update
)

var evNames = []string{"forward", "backward", "loss", "loss gradient", "update"}

type event struct {
	k, layer int
	a, b     M // copies of the matrices involved
	w, g     M // gradients
}

type trace struct {
	ev []event
	on bool
}

func (t *trace) add(e event) {
	if t.on {
		t.ev = append(t.ev, e)
	}
}

type spyLayer struct {
	nn.Layer
	t *trace
	i int
}

func (s *spyLayer) Forward(x nn.Matrix) (nn.Matrix, error) {
	s.t.add(event{k: evF, layer: s.i, a: cloneM(x.M)})
	return s.Layer.Forward(x)
}

func (s *spyLayer) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) {
	a, b := cloneM(x.M), cloneM(d.M)
	dw, db, dx, err := s.Layer.Backward(x, d)
	s.t.add(event{k: evB, layer: s.i, a: a, b: b, w: cloneM(dw.M), g: cloneM(db.M)})
	return dw, db, dx, err
}

type spyLoss struct {
	nn.Loss
	t *trace
}

func (s *spyLoss) Forward(p, y nn.Matrix) (float64, error) {
	s.t.add(event{k: evLF, a: cloneM(p.M), b: cloneM(y.M)})
	return s.Loss.Forward(p, y)
}

func (s *spyLoss) Backward(p, y nn.Matrix) (nn.Matrix, error) {
	s.t.add(event{k: evLB, a: cloneM(p.M), b: cloneM(y.M)})
	return s.Loss.Backward(p, y)
}

type spyOpt struct {
	nn.Optimizer
	t *trace
	i int
}

func (s *spyOpt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	s.t.add(event{k: evU, layer: s.i, w: cloneM(dw.M), g: cloneM(db.M)})
	return s.Optimizer.Update(w, b, dw, db)
}

func nnEmpty() nn.Matrix { return nn.Matrix{} }

func runC13(c *Ctx) {
	r := c.R
	g := genOpts{maxDepth: 4, maxW: 3, lrLo: 1e-6, lrHi: 1e-3, kinds: allKinds}
	m := genModel(r, g)
	deep := deepNow(c, m, 60, 300)
	if m.L[0].K == kDropout {
		m.L[0].K = kHidden
	}
	n := len(m.L)
	// A raw dropout layer of rate 1 makes the mode of every pass visible in the next
	// layer's inputs: zeros in training, positive values otherwise.
	probe := -1
	for i := 1; i < n-1; i++ {
		if m.L[i].K == kDropout {
			m.L[i].Drop = genDrop(r)
			if probe < 0 {
				probe = i
				m.L[i].Drop = 1
				for j := range m.L[i].B {
					m.L[i].B[j] = 1000 + float64(j)
				}
			}
		}
	}
	if m.L[n-1].K == kDropout {
		m.L[n-1].Drop = 0.3
	}
	mod := m.build(c)
	t := &trace{}
	spied := make([]bool, n)
	for i := range mod.Layers {
		last := i == n-1
		raw := m.L[i].K == kDropout
		if last && m.L[i].K == kSoftmax && m.Loss == lCE && i > 0 && r.Intn(2) == 0 {
			raw = true
		}
		if !raw && (i == 0 || i == probe+1 || r.Intn(4) > 0) {
			mod.Layers[i] = &spyLayer{mod.Layers[i], t, i}
			spied[i] = true
		}
	}
	fusedPossible := !spied[n-1] && m.L[n-1].K == kSoftmax && m.Loss == lCE
	mod.Loss = &spyLoss{mod.Loss, t}
	for i := range mod.Optimizers {
		mod.Optimizers[i] = &spyOpt{mod.Optimizers[i], t, i}
	}
	N := 1 + r.Intn(12)
	switch r.Intn(20) {
	case 0:
		N = 1 + r.Intn(60)
	case 1:
		if r.Intn(8) == 0 && !deep {
			N = 500 + r.Intn(2500)
			c.Cov("large datasets", 1)
		}
	case 2:
		if r.Intn(60) == 0 && n <= 2 {
			N = 65500 + r.Intn(600)
			c.Cov("huge datasets", 1)
		}
	}
	patient := 0
	if n <= 2 && r.Intn(80) == 0 { // thousands of epochs
		N = 1 + r.Intn(2)
		patient = 500 + r.Intn(2500)
		if r.Intn(10) == 0 {
			patient = 10001 + r.Intn(3000)
			if r.Intn(4) == 0 {
				N, patient = 1, 65530+r.Intn(100)
			}
			c.Cov("ten thousand epochs", 1)
		}
		c.Cov("thousands of epochs", 1)
	}
	calls := 1 + r.Intn(2)
	c.Desc("%s N=%d", m, N)
	for call := 0; call < calls; call++ {
		x := zeros(N, m.in())
		for i := range x {
			for j := range x[i] {
				x[i][j] = (float64(i+1) + float64(j)/8 + float64(call)/64) / float64(2*N)
			}
		}
		y := genTarget(r, m.Loss, N, m.out())
		if m.Loss == lBCE {
			for i := range y {
				for j := range y[i] {
					y[i][j] = (float64(i) + 0.5 + 0.25*float64(j%2)) / float64(N+1)
				}
			}
		}
		var batch, epochs int
		switch r.Intn(8) {
		case 0:
			batch = 0
			c.Cov("batch size zero", 1)
		case 1:
			batch = 1
		case 2:
			batch = N
		case 3:
			batch = N + 1 + r.Intn(2*N)
			if r.Intn(10) == 0 {
				batch = hugeBatch(r)
				c.Cov("huge batch sizes", 1)
			}
			c.Cov("batch larger than the data", 1)
		case 4:
			batch = N - 1
		default:
			batch = 1 + r.Intn(N)
		}
		if N > 100 && n <= 2 && r.Intn(3) == 0 {
			batch = 1 + r.Intn(3)
		}
		if N > 100 && batch > 0 && batch < N/50 && (n > 2 || r.Intn(2) == 0) {
			batch = N/50 + r.Intn(5)
		}
		epochs = r.Intn(5)
		if call == 0 && patient > 0 {
			epochs = patient
		} else if N <= 12 && r.Intn(8) == 0 {
			epochs = 5 + r.Intn(20)
			if N <= 4 && r.Intn(3) == 0 {
				epochs = 25 + r.Intn(300)
			}
			c.Cov("long trainings", 1)
		}
		if (m.Loss == lMSE || m.Loss == lMAE) && (r.Intn(6) == 0 || patient > 0 && r.Intn(2) == 0) {
			// nothing left to learn
			o, err := mod.Forward(toNN(r, x), false)
			if err != nil {
				c.Fail("inference pass refused: %v", err)
			}
			if p := fromNN(c, "prediction", o[n]); finite(maxAbs(p)) {
				y = p
				c.Cov("perfect from the start", 1)
			}
		}
		if N > 100 {
			epochs = 1 + r.Intn(2)
			if batch > 0 && N/batch > 100 {
				epochs = 1
				c.Cov("hundreds of batches", 1)
			}
		}
		if batch == 1 {
			c.Cov("single samples per batch", 1)
		}
		if batch == N {
			c.Cov("batch size equals samples", 1)
		}
		if epochs == 0 {
			c.Cov("zero epochs", 1)
			if r.Intn(4) == 0 { // fewer than none: refused or nothing
				epochs = -1 - r.Intn(3)
				c.Cov("negative epochs", 1)
			}
		}
		logEvery := 0
		if r.Intn(3) == 0 {
			logEvery = 1 + r.Intn(3)
		}
		var xv, yv M
		XV, YV := nnEmpty(), nnEmpty()
		if r.Intn(3) == 0 {
			nv := 1 + r.Intn(5)
			xv, yv = genM(r, nv, m.in(), vNormal), genTarget(r, m.Loss, nv, m.out())
			XV, YV = toNN(r, xv), toNN(r, yv)
		}
		diverging := probe < 0 && !deep && r.Intn(25) == 0
		if diverging { // the numbers soon leave the range; the schedule stays
			s := pick(r, 1e150, 1e200, 1e300, 1e307)
			for i := range x {
				for j := range x[i] {
					x[i][j] *= s
				}
			}
			if m.Loss == lMSE || m.Loss == lMAE {
				for i := range y {
					for j := range y[i] {
						y[i][j] *= s
					}
				}
			}
			c.Cov("diverging trainings", 1)
		}
		X, Y := toNN(r, x), toNN(r, y)
		switch {
		case m.in() == m.out() && m.Loss != lCE && !(diverging && m.Loss == lBCE) && r.Intn(5) == 0:
			// its own inputs are what the model shall learn
			y, Y = x, X
			c.Cov("inputs are the targets", 1)
		case r.Intn(8) == 0:
			repeated(r, y)
			Y = sharing(c, y)
		}
		if xv != nil && r.Intn(4) == 0 { // validated on the training set itself
			xv, yv, XV, YV = x, y, X, Y
			c.Cov("validation set is the training set", 1)
		}
		if xv != nil && epochs > 400 {
			logEvery = epochs / 5
		}
		c.Desc("fit(epochs=%d,batch=%d,log=%d,val=%v)", epochs, batch, logEvery, xv != nil)
		var pw, pb []M
		if epochs <= 0 {
			pw, pb = spiedParams(c, mod)
		}
		t.ev, t.on = t.ev[:0], true
		err := mod.Fit(X, Y, epochs, batch, XV, YV, logEvery)
		t.on = false
		if err != nil && epochs >= 0 && !diverging {
			c.Fail("training refused: %v", err)
		}
		if !sameBits(X.M, x) || !sameBits(Y.M, y) {
			c.Fail("training changed the dataset")
		}
		if diverging && err != nil { // a refusal is told, which is all that can be asked
			return
		}
		if epochs <= 0 {
			w, b := spiedParams(c, mod)
			sameParams(c, "training for zero epochs", pw, pb, w, b)
		}
		c.Cov("trace events", len(t.ev))
		if epochs < 0 {
			epochs = 0
		}
		p := &traceParser{c: c, t: t, m: m, spied: spied, probe: probe, fused: fusedPossible, x: x, y: y, xv: xv, yv: yv,
			batch: batch, epochs: epochs}
		p.run()
	}
}

// spiedParams is paramsOf through the spies.
func spiedParams(c *Ctx, mod *nn.Model) (ws, bs []M) {
	for i, l := range mod.Layers {
		if s, ok := l.(*spyLayer); ok {
			l = s.Layer
		}
		x, k := layOf(l)
		if k < 0 {
			c.Fail("layer %d of the model has unexpected type %T", i, l)
		}
		ws, bs = append(ws, fromNN(c, "weights", *x.W())), append(bs, fromNN(c, "biases", *x.B()))
	}
	return
}

// traceParser checks a recorded trace against the grammar
//
//	Fit      = { Eval } { Batch { Eval } }
//	Batch    = F(0) .. F(n-1) [LG] B(n-1) .. B(0), and U(i) for every i, once, after B(i)
//	Eval     = F(0) .. F(n-1) [Loss]
type traceParser struct {
	c              *Ctx
	t              *trace
	m              *RModel
	spied          []bool
	probe          int
	fused          bool
	x, y, xv, yv   M
	batch, epochs  int
	pos            int
	batches, evals int
}

func (p *traceParser) peek() *event {
	if p.pos < len(p.t.ev) {
		return &p.t.ev[p.pos]
	}
	return nil
}

func (p *traceParser) where(e, b int) string {
	return fmt.Sprintf("epoch %d, batch %d (of %d samples, batch size %d, event %d)", e, b, len(p.x), p.batch, p.pos)
}

func evStr(e *event) string {
	if e == nil {
		return "the end of the trace"
	}
	return fmt.Sprintf("%s of layer %d", evNames[e.k], e.layer)
}

// forwardRun consumes one forward pass through all spied layers.
func (p *traceParser) forwardRun(w string) (first *event, at int) {
	at = p.pos
	for i := range p.m.L {
		if !p.spied[i] {
			continue
		}
		e := p.peek()
		if e == nil || e.k != evF || e.layer != i {
			p.c.Fail("%s: expected the forward pass of layer %d, saw %s", w, i, evStr(e))
		}
		if first == nil {
			first = e
		}
		p.pos++
	}
	return
}

// trainingPass: the forward run just consumed is followed by a backward pass.
func (p *traceParser) backwardFollows() bool {
	e := p.peek()
	return e != nil && (e.k == evB || e.k == evLB || e.k == evU)
}

func (p *traceParser) probeZero(at int) (zero, known bool) {
	if p.probe < 0 {
		return false, false
	}
	// input of the layer after the probe
	k := 0
	for i := range p.m.L {
		if !p.spied[i] {
			continue
		}
		if i == p.probe+1 {
			a := p.t.ev[at+k].a
			return maxAbs(a) == 0, true
		}
		k++
	}
	return false, false
}

func (p *traceParser) evalsHere(w string) {
	for {
		e := p.peek()
		if e == nil {
			return
		}
		if e.k == evLF { // loss of the evaluation pass before
			p.pos++
			continue
		}
		save := p.pos
		if e.k != evF {
			return
		}
		first, at := p.forwardRun(w)
		if p.backwardFollows() {
			p.pos = save
			return
		}
		if !sameBits(first.a, p.x) && (p.xv == nil || !sameBits(first.a, p.xv)) {
			p.c.Fail("%s: a forward pass on %d rows that is neither a batch being trained on nor the evaluation of a whole set", w, len(first.a))
		}
		if z, known := p.probeZero(at); known && z {
			p.c.Fail("%s: an evaluation pass applied dropout", w)
		}
		p.evals++
		p.c.Cov("evaluations between batches", 1)
	}
}

func (p *traceParser) run() {
	c := p.c
	N := len(p.x)
	size := p.batch
	if size == 0 || size > N {
		size = N
	}
	n := len(p.m.L)
	for e := 0; e < p.epochs; e++ {
		b := 0
		for s := 0; s < N; s += size {
			t := s + size
			if t > N {
				t = N
			}
			w := p.where(e, b)
			p.evalsHere(w)
			first, at := p.forwardRun(w)
			if !p.backwardFollows() {
				c.Fail("%s: forward pass without a backward pass, followed by %s", w, evStr(p.peek()))
			}
			if !sameBits(first.a, p.x[s:t]) {
				c.Fail("%s: the training pass saw %d rows %v, want samples %d to %d", w, len(first.a), identify(first.a, p.x), s, t-1)
			}
			if z, known := p.probeZero(at); known {
				if !z {
					c.Fail("%s: the training pass did not apply dropout", w)
				}
				c.Cov("training mode seen through dropout", 1)
			}
			// backward
			updated := make([]bool, n)
			var gw, gb = make([]M, n), make([]M, n)
			lossSeen := false
			next := n - 1
			for {
				for next >= 0 && !p.spied[next] {
					next--
				}
				ev := p.peek()
				if ev == nil {
					break
				}
				if ev.k == evLB {
					if lossSeen || next < lastSpied(p.spied) {
						c.Fail("%s: unexpected loss gradient", w)
					}
					lossSeen = true
					if !sameBits(ev.b, p.y[s:t]) {
						c.Fail("%s: the loss gradient saw targets %v, want targets %d to %d", w, identify(ev.b, p.y), s, t-1)
					}
					p.pos++
					continue
				}
				if ev.k == evB {
					if ev.layer != next {
						c.Fail("%s: expected the backward pass of layer %d, saw %s", w, next, evStr(ev))
					}
					if !lossSeen && !p.fused {
						c.Fail("%s: backward pass of layer %d before the loss gradient", w, ev.layer)
					}
					gw[next], gb[next] = ev.w, ev.g
					if next == 0 && !sameBits(ev.a, p.x[s:t]) {
						c.Fail("%s: the backward pass of the first layer saw other inputs than samples %d to %d", w, s, t-1)
					}
					if len(ev.a) != t-s {
						c.Fail("%s: the backward pass of layer %d saw %d rows, want %d", w, next, len(ev.a), t-s)
					}
					next--
					p.pos++
					continue
				}
				if ev.k == evU {
					i := ev.layer
					if updated[i] {
						c.Fail("%s: the optimizer of layer %d updated twice", w, i)
					}
					if p.spied[i] {
						if gw[i] == nil {
							c.Fail("%s: the optimizer of layer %d updated before that layer's backward pass", w, i)
						}
						if !sameBits(gw[i], ev.w) || !sameBits(gb[i], ev.g) {
							c.Fail("%s: the optimizer of layer %d got other gradients than that layer's backward pass returned", w, i)
						}
					}
					updated[i] = true
					p.pos++
					continue
				}
				break
			}
			if next >= 0 {
				c.Fail("%s: no backward pass of layer %d, saw %s", w, next, evStr(p.peek()))
			}
			if !p.fused && !lossSeen {
				c.Fail("%s: no loss gradient was computed", w)
			}
			for i := range updated {
				if !updated[i] {
					c.Fail("%s: the optimizer of layer %d did not update, saw %s", w, i, evStr(p.peek()))
				}
			}
			if p.fused && !lossSeen {
				c.Cov("fused paths", 1)
			}
			if t-s < size {
				c.Cov("remainder batches", 1)
			}
			p.batches++
			c.Cov("batches recognised", 1)
			b++
		}
		c.Cov("epochs recognised", 1)
	}
	w := "after the last batch"
	p.evalsHere(w)
	if e := p.peek(); e != nil {
		c.Fail("%s: %s; training %d samples for %d epochs with batch size %d went on", w, evStr(e), N, p.epochs, p.batch)
	}
	if p.batches >= 2 {
		c.NT()
	}
}

func lastSpied(s []bool) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] {
			return i
		}
	}
	return -1
}

// identify names the dataset rows that make up a.
func identify(a, data M) string {
	s := ""
	for i := range a {
		at := -1
		for k := range data {
			if sameBits(M{a[i]}, M{data[k]}) {
				at = k
				break
			}
		}
		s += fmt.Sprintf("%d ", at)
		if len(s) > 80 {
			return s + "..."
		}
	}
	return "[" + s + "]"
}

// ---- C14 ----

// refRun is the reference trainer together with disturbed copies that measure how
// strongly rounding is amplified.
type refRun struct {
	m     *RModel
	noisy []*RModel
}

func newRefRun(r *rand.Rand, m *RModel) *refRun {
	f := &refRun{m: m.clone()}
	f.m.resetOpts()
	for k := 0; k < 2; k++ {
		n := m.clone()
		n.noise = r
		n.resetOpts()
		f.noisy = append(f.noisy, n)
	}
	return f
}

func (f *refRun) all() []*RModel { return append([]*RModel{f.m}, f.noisy...) }

func (f *refRun) fit(x, y M, epochs, batch int) {
	for _, m := range f.all() {
		m.fit(x, y, epochs, batch)
	}
}

func (f *refRun) resetOpts() {
	for _, m := range f.all() {
		m.resetOpts()
	}
}

// tol returns the admissible deviation, or false when rounding may decide.
func (f *refRun) tol() (float64, bool) {
	if f.m.ambiguous {
		return 0, false
	}
	sc, d := 1e-3, 0.0
	for i, l := range f.m.L {
		sc = math.Max(sc, math.Max(maxAbs(l.W), maxAbs(M{l.B})))
		for _, n := range f.noisy {
			for a := range l.W {
				for b := range l.W[a] {
					d = math.Max(d, math.Abs(l.W[a][b]-n.L[i].W[a][b]))
				}
			}
			for b := range l.B {
				d = math.Max(d, math.Abs(l.B[b]-n.L[i].B[b]))
			}
		}
	}
	if !(d <= 1e-11*sc) || !finite(sc) || sc > 1e6 {
		return 0, false
	}
	return 1e-11*sc + 1000*d, true
}

func (f *refRun) compare(c *Ctx, what string, mod *nn.Model) bool {
	t, ok := f.tol()
	if !ok {
		return false
	}
	ws, bs := paramsOf(c, mod)
	if len(ws) != len(f.m.L) {
		c.Fail("%s: the model has %d layers, want %d", what, len(ws), len(f.m.L))
	}
	for i, l := range f.m.L {
		checkClose(c, fmt.Sprintf("%s: weights of layer %d (%s)", what, i, l), ws[i], l.W, constTol(t))
		checkClose(c, fmt.Sprintf("%s: biases of layer %d (%s)", what, i, l), bs[i], M{l.B}, constTol(t))
	}
	return true
}

func genRows(r *rand.Rand) int {
	switch r.Intn(20) {
	case 0:
		return 30 + r.Intn(100)
	case 1, 2:
		return 1
	}
	return 2 + r.Intn(20)
}

// hugeBatch is a batch size far beyond any dataset, up to the end of the range.
func hugeBatch(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return []int{math.MaxInt, math.MaxInt - 1, math.MaxInt - r.Intn(100), math.MaxInt / 2, math.MaxInt/2 + 1 + r.Intn(100), math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, 1 << 62, 1 << 53}[r.Intn(10)]
	}
	return 1 << uint(8+r.Intn(55))
}

func genBatch(r *rand.Rand, N int) int {
	if r.Intn(60) == 0 {
		return hugeBatch(r)
	}
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return N
	case 2:
		return N + 1 + r.Intn(10)
	case 3:
		return 1
	}
	return 1 + r.Intn(N)
}

type c14Unit struct {
	mod   *nn.Model
	f     *refRun
	steps int
	fits  int
}

func runC14(c *Ctx) {
	r := c.R
	g := genOpts{maxDepth: 3, maxW: 5, lrLo: 1e-3, lrHi: 0.3}
	if r.Intn(5) == 0 {
		g.kinds = smoothKinds
		g.lrHi = 1
	}
	if r.Intn(10) == 0 {
		g.maxDepth, g.maxW = 5, 3
	}
	m := genModel(r, g)
	deepNow(c, m, 80, 127)
	if m.Opt.K == oAdam {
		// with a tiny epsilon Adam turns rounding of vanishing gradients into steps
		m.Opt.Eps = math.Max(m.Opt.Eps, pick(r, 1e-8, 1e-7, 1e-4))
		if r.Intn(2) == 0 {
			m.Opt.LR = math.Min(m.Opt.LR, 0.05)
		}
		c.Cov("adam", 1)
	} else {
		c.Cov("sgd", 1)
		if m.Opt.Mom > 0 {
			c.Cov("with momentum", 1)
		}
	}
	if m.Opt.Decay > 0 {
		c.Cov("with decay", 1)
	}
	c.Cov("loss "+lossNames[m.Loss], 1)
	c.Desc("%s", m)

	loss, opt := buildLoss(c, m.Loss, m.out()), m.Opt.build(c)
	make1 := func(m *RModel) *c14Unit {
		mod := nn.NewModel()
		for _, l := range m.L {
			if err := mod.AddLayer(l.build(c).L); err != nil {
				c.Fail("AddLayer refused %s: %v", l, err)
			}
		}
		if err := mod.Finalize(loss, opt, nn.AccuracyType(m.Acc), m.Prec); err != nil {
			c.Fail("Finalize refused %s: %v", m, err)
		}
		return &c14Unit{mod: &mod, f: newRefRun(r, m)}
	}
	us := []*c14Unit{make1(m)}
	if r.Intn(3) == 0 {
		// a sibling finalized with the very same loss and optimizer objects
		s := m.clone()
		for i, l := range s.L {
			n := genLayer(r, l.K, l.In, l.Out, 0.7)
			n.Slope, n.Drop = l.Slope, l.Drop
			s.L[i] = n
		}
		us = append(us, make1(s))
		c.Cov("sibling models", 1)
	}
	ops := 1 + r.Intn(6)
	many := r.Intn(40) == 0
	if many { // a long series of short trainings
		ops = 20 + r.Intn(100)
		c.Cov("series of many trainings", 1)
	}
	total := 0
	for op := 0; op < ops; op++ {
		u := us[r.Intn(len(us))]
		N := genRows(r)
		x, y := genM(r, N, m.in(), []int{vNormal, vUniform, vSparse}[r.Intn(3)]), genTarget(r, m.Loss, N, m.out())
		switch k := r.Intn(12); {
		case k == 0 && op > 0: // edit parameters by hand
			i := r.Intn(len(m.L))
			l, _ := layOf(u.mod.Layers[i])
			a, b := r.Intn(m.L[i].In), r.Intn(m.L[i].Out)
			v := r.NormFloat64()
			l.W().M[a][b] = v
			l.B().M[0][b] = -v
			for _, n := range u.f.all() {
				n.L[i].W[a][b] = v
				n.L[i].B[b] = -v
			}
			c.Cov("edited parameters", 1)
			c.Desc("edit")
		case k == 1 && op > 0: // finalize again: fresh optimizer state
			if err := u.mod.Finalize(loss, opt, nn.AccuracyType(m.Acc), m.Prec); err != nil {
				c.Fail("Finalize again refused: %v", err)
			}
			u.f.resetOpts()
			c.Cov("re-finalized", 1)
			c.Desc("refinalize")
		case k == 2 && op > 0: // save and load: fresh optimizer state
			d := nn.NewSavedModelData(*u.mod)
			var buf bytes.Buffer
			if err := d.Serialize(&buf); err != nil {
				c.Fail("save refused: %v", err)
			}
			n, err := nn.LoadModel(&buf)
			if err != nil {
				c.Fail("load refused: %v", err)
			}
			u.mod = &n
			u.f.resetOpts()
			c.Cov("loaded", 1)
			c.Desc("reload")
		case k == 3: // evaluations do not matter
			X, Y := toNN(r, x), toNN(r, y)
			if _, err := u.mod.CalculateLoss(X, Y); err != nil {
				c.Fail("loss refused: %v", err)
			}
			if _, err := u.mod.Predict(X); err != nil {
				c.Fail("predict refused: %v", err)
			}
			c.Desc("eval")
		default:
			batch := genBatch(r, N)
			epochs := 1 + r.Intn(4)
			if r.Intn(150) == 0 && m.work() < 40 { // hundreds of batches per epoch
				N = 300 + r.Intn(1500)
				x, y = genM(r, N, m.in(), vNormal), genTarget(r, m.Loss, N, m.out())
				batch, epochs = 1+r.Intn(3), 1
			}
			if N < 300 && r.Intn(15) == 0 {
				epochs = 5 + r.Intn(30)
			}
			if N <= 4 && r.Intn(8) == 0 {
				epochs = 40 + r.Intn(200)
				c.Cov("long trainings", 1)
				if m.work() < 12 && r.Intn(4) == 0 {
					epochs = 500 + r.Intn(2500)
					c.Cov("thousands of epochs", 1)
				}
			}
			if r.Intn(400) == 0 && m.work() < 40 { // thousands of samples at once
				N = 1000 + r.Intn(8000)
				if r.Intn(5) == 0 && m.work() < 12 {
					N = 65500 + r.Intn(600)
				}
				x, y = genM(r, N, m.in(), vNormal), genTarget(r, m.Loss, N, m.out())
				batch, epochs = []int{0, N, N / 2, N - 1, N/3 + 7}[r.Intn(5)], 1+r.Intn(2)
				c.Cov("huge batches", 1)
			}
			if (m.Loss == lMSE || m.Loss == lMAE) && r.Intn(12) == 0 {
				y = u.f.m.predictRaw(x)
				c.Cov("nearly perfect from the start", 1)
			}
			X, Y := toNN(r, x), toNN(r, y)
			switch {
			case m.in() == m.out() && m.Loss < lCE && r.Intn(5) == 0:
				y, Y = x, X
				c.Cov("inputs are the targets", 1)
			case r.Intn(8) == 0:
				repeated(r, x)
				if r.Intn(2) == 0 {
					repeated(r, y)
				}
				X, Y = sharing(c, x), sharing(c, y)
			}
			XV, YV, every := nnEmpty(), nnEmpty(), 0
			if r.Intn(4) == 0 {
				every = 1 + r.Intn(3)
				switch r.Intn(4) {
				case 0, 1:
					XV, YV = toNN(r, genM(r, 3, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, 3, m.out()))
				case 2:
					XV, YV = X, Y
				}
			}
			c.Desc("fit(N=%d,epochs=%d,batch=%d)", N, epochs, batch)
			if err := u.mod.Fit(X, Y, epochs, batch, XV, YV, every); err != nil {
				c.Fail("training refused: %v", err)
			}
			u.f.fit(x, y, epochs, batch)
			for i, v := range us {
				if !v.f.compare(c, fmt.Sprintf("model %d after call %d of %s", i, op, m), v.mod) {
					c.Cov("histories cut short by ill-conditioning", 1)
					return
				}
			}
			bs := 1
			if batch > 0 && batch < N {
				bs = (N + batch - 1) / batch
				if N%batch != 0 {
					c.Cov("minibatches with remainder", 1)
				}
			}
			c.Cov("training calls judged", 1)
			c.Cov("updates judged", bs*epochs)
			if bs >= 256 {
				c.Cov("hundreds of batches", 1)
			}
			total += bs * epochs
			u.fits++
			if u.fits > 1 {
				c.Cov("successive training calls", 1)
			}
		}
	}
	if total >= 3 {
		c.NT()
	}
}

// ---- C15 ----

func runC15(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 3, maxW: 5})
	drop := false
	if r.Intn(3) == 0 {
		// dropout layers, rate 0 where training is compared
		for i, l := range m.L {
			if l.K == kHidden || (i < len(m.L)-1 && r.Intn(2) == 0) {
				l.K, l.Drop = kDropout, 0
				drop = true
			}
		}
	}
	if drop {
		c.Cov("with dropout layers", 1)
	}
	c.Desc("%s", m)
	plain, twin := m.build(c), m.build(c)
	N := genRows(r)
	x, y := genM(r, N, m.in(), vNormal), genTarget(r, m.Loss, N, m.out())
	if (m.Loss == lMSE || m.Loss == lMAE) && r.Intn(6) == 0 {
		// nothing left to learn
		if p := m.predictRaw(x); finite(maxAbs(p)) {
			y = p
			c.Cov("perfect from the start", 1)
		}
	}
	X, Y := toNN(r, x), toNN(r, y)
	switch {
	case m.in() == m.out() && m.Loss < lCE && r.Intn(4) == 0:
		y, Y = x, X
		c.Cov("inputs are the targets", 1)
	case r.Intn(8) == 0:
		repeated(r, x)
		repeated(r, y)
		X, Y = sharing(c, x), sharing(c, y)
	}
	batch := genBatch(r, N)
	disturbs := 0
	disturb := func(mod *nn.Model, m *RModel) {
		for k := r.Intn(5); k > 0; k-- {
			nontraining(c, mod, m)
			disturbs++
		}
		if r.Intn(150) == 0 { // very many of one kind
			X, Y := toNN(r, genM(r, 2, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, 2, m.out()))
			kind := r.Intn(4)
			for k := 260 + r.Intn(1200); k > 0; k-- {
				var err error
				switch kind {
				case 0:
					_, err = mod.Predict(X)
				case 1:
					_, err = mod.CalculateLoss(X, Y)
				case 2:
					_, err = mod.CalculateAccuracy(X, Y)
				case 3:
					_, err = mod.Forward(X, k%2 == 0)
				}
				if err != nil {
					c.Fail("one of many evaluations was refused: %v", err)
				}
			}
			c.Cov("hundreds of evaluations in a row", 1)
		}
	}
	for call := 0; call < 1+r.Intn(4); call++ {
		epochs := r.Intn(5)
		if r.Intn(12) == 0 {
			epochs = 5 + r.Intn(20)
			if N <= 4 || (N <= 25 && r.Intn(8) == 0) {
				epochs = 25 + r.Intn(300)
				if N <= 4 && r.Intn(12) == 0 {
					epochs = 500 + r.Intn(2500)
					c.Cov("thousands of epochs", 1)
				}
			}
			c.Cov("long trainings", 1)
		}
		if err := plain.Fit(X, Y, epochs, batch, nnEmpty(), nnEmpty(), 0); err != nil {
			c.Fail("training refused: %v", err)
		}
		c.Desc("fit(N=%d,epochs=%d,batch=%d)", N, epochs, batch)
		disturb(twin, m)
		left := epochs
		for first := true; first || left > 0; first = false {
			e := left
			if r.Intn(2) == 0 && left > 1 {
				e = 1 + r.Intn(left-1)
				c.Cov("split training calls", 1)
			}
			every := 0
			XV, YV := nnEmpty(), nnEmpty()
			if r.Intn(2) == 0 {
				every = 1 + r.Intn(3)
				c.Cov("with logging", 1)
			}
			if r.Intn(2) == 0 {
				nv := 1 + r.Intn(2*N)
				XV, YV = toNN(r, genM(r, nv, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, nv, m.out()))
				if r.Intn(4) == 0 {
					XV, YV = X, Y
				}
				c.Cov("with validation", 1)
			}
			if err := twin.Fit(X, Y, e, batch, XV, YV, every); err != nil {
				c.Fail("training refused: %v", err)
			}
			c.Desc("twin(epochs=%d,log=%d,val=%v)", e, every, YV.Rows > 0)
			left -= e
			disturb(twin, m)
		}
		w1, b1 := paramsOf(c, plain)
		w2, b2 := paramsOf(c, twin)
		sameParams(c, fmt.Sprintf("training call %d with evaluations, logging, validation or splitting in between, compared with plain training of %s", call, m), w1, b1, w2, b2)
		c.Cov("twin comparisons", 1)
	}
	if disturbs >= 2 {
		c.NT()
	}
	// with active dropout nothing but training may change parameters either
	if r.Intn(3) == 0 {
		d := genModel(r, genOpts{maxDepth: 3, maxW: 5, kinds: allKinds})
		mod := d.build(c)
		for k := 0; k < 4; k++ {
			nontraining(c, mod, d)
			if r.Intn(3) == 0 {
				x, y := genM(r, 3, d.in(), vNormal), genTarget(r, d.Loss, 3, d.out())
				if err := mod.Fit(toNN(r, x), toNN(r, y), 1, 0, nnEmpty(), nnEmpty(), 0); err != nil {
					c.Fail("training refused: %v", err)
				}
			}
		}
	}
}

// nontraining makes one random non-training call and checks that no parameter changed.
func nontraining(c *Ctx, mod *nn.Model, m *RModel) {
	r := c.R
	N := genRows(r)
	X, Y := toNN(r, genM(r, N, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, N, m.out()))
	w, b := paramsOf(c, mod)
	what := ""
	var err error
	switch r.Intn(9) {
	case 0:
		what = "forward training"
		_, err = mod.Forward(X, true)
	case 1:
		what = "forward inference"
		_, err = mod.Forward(X, false)
	case 2, 3:
		what = "backward"
		var outs []nn.Matrix
		outs, err = mod.Forward(X, r.Intn(2) == 0)
		if err == nil {
			_, err = mod.Backward(outs, Y)
		}
	case 4:
		what = "predict"
		_, err = mod.Predict(X)
	case 5:
		what = "loss"
		_, err = mod.CalculateLoss(X, Y)
	case 6:
		what = "accuracy"
		_, err = mod.CalculateAccuracy(X, Y)
	case 7:
		what = "save"
		d := nn.NewSavedModelData(*mod)
		var buf bytes.Buffer
		err = d.Serialize(&buf)
		if err == nil && r.Intn(2) == 0 {
			var n nn.Model
			n, err = nn.LoadModel(&buf) // and what is loaded is another model
			if err == nil {
				n.InitLayers()
				err = n.Fit(X, Y, 1, 0, nnEmpty(), nnEmpty(), 0)
			}
		}
	case 8:
		if r.Intn(8) != 0 {
			return
		}
		what = "file"
		err = nn.SaveFile(mod, c.Dir+"/c15.nn")
	}
	if err != nil {
		c.Fail("%s refused: %v", what, err)
	}
	w2, b2 := paramsOf(c, mod)
	sameParams(c, "a call of "+what+" on "+m.String(), w, b, w2, b2)
	c.Cov("non-training calls", 1)
	c.Cov("op "+what, 1)
}
