package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"runtime"
	"time"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C29", Quick: 50000, Thorough: 1500000, Run: runC29,
		Rule: "a case assembles one model in an unusual order: at every stage (empty, partly assembled, finalized, extended after finalizing, finalized anew) a random history of calls is made, each judged against the reference of that stage or required to be refused with nothing changed; at the end the model must train bit for bit like one assembled in the usual order from the same parameters; non-trivial when at least three calls were made on a model that was not ready",
		Floors: map[string]int64{"very deep models": 150, "early passes": 60000, "early training refused": 24000, "early loss refused": 18000, "early gradients refused": 18000, "late losses judged": 1500, "late gradients judged": 1500, "late mismatches refused": 3000, "early saves": 9000,
			"on an empty model": 5000, "extended after finalizing": 6000, "trained before extending": 3000, "late training refused": 3000, "compared with the usual order": 9000, "re-finalized at the end": 3000, "failed finalizations": 1000, "shared loss or optimizer objects": 3000}})
	register(&Prop{ID: "C30", Quick: 1300, Thorough: 2500, Run: runC30, Shards: 4,
		Rule:   "a case repeats one operation on fixed objects: and compares live memory after garbage collection, goroutines and open files after a few and after many repetitions, and again while usage keeps growing; training is also probed from inside, at five batches of one call; growth in four rounds in a row is a violation; non-trivial when at least 100 repetitions were measured",
		Floors: map[string]int64{"repetitions": 150000, "operations measured": 1000, "measured inside training": 90, "refused calls repeated": 90, "files saved and loaded": 60, "long trainings": 30}})
}

// ---- C29 ----

type life struct {
	mod       *nn.Model
	p         *RModel // the reference of the current stage (layers, and loss if finalized once)
	finalized bool    // once
	ready     bool    // finalized and not extended since
	early     int
}

func (f *life) in() int {
	if len(f.p.L) == 0 {
		return 1
	}
	return f.p.in()
}

// sync copies the library's parameters into the reference.
func (f *life) sync(c *Ctx) {
	ws, bs := paramsOf(c, f.mod)
	for i, l := range f.p.L {
		l.W, l.B = cloneM(ws[i]), append([]float64{}, bs[i][0]...)
	}
}

// wild: training on arbitrary targets drove the parameters off.
func (f *life) wild() bool {
	for _, l := range f.p.L {
		for _, v := range append(flat(l.W), l.B...) {
			if !(math.Abs(v) < 1e4) {
				return true
			}
		}
	}
	return false
}

func (f *life) stage() string {
	switch {
	case f.ready:
		return "finalized"
	case f.finalized:
		return "extended after finalizing"
	case len(f.p.L) == 0:
		return "empty"
	}
	return "not yet finalized"
}

// suited: the loss's gradient is meaningful on what the last layer puts out.
func (f *life) suited() bool {
	k := f.p.L[len(f.p.L)-1].K
	switch f.p.Loss {
	case lCE, lBCE:
		return k == kSoftmax || k == kSigmoid
	}
	return true
}

// call makes one call on a model in any stage.
func (f *life) call(c *Ctx, lossOut int) {
	r := c.R
	mod, p := f.mod, f.p
	n := len(p.L)
	out := f.in()
	if n > 0 {
		out = p.out()
	}
	rows := 1 + r.Intn(5)
	x := genM(r, rows, f.in(), vNormal)
	tk := LossK(r.Intn(int(nLoss)))
	if f.finalized {
		tk = p.Loss
	}
	y := genTarget(r, tk, rows, out)
	X, Y := toNN(r, x), toNN(r, y)
	w, b := paramsOf(c, mod)
	what := ""
	if n == 0 {
		c.Cov("on an empty model", 1)
	}
	if !f.ready {
		f.early++
	}
	// the loss fits the current output
	fits := f.finalized && n > 0 && lossOut == out
	switch k := r.Intn(9); k {
	case 0, 1: // passes and predictions
		training := r.Intn(2) == 0
		hasDrop := false
		for _, l := range p.L {
			hasDrop = hasDrop || l.K == kDropout
		}
		what = "a forward pass"
		outs, err := mod.Forward(X, training)
		if err != nil {
			if f.ready {
				c.Fail("%s model: forward pass refused: %v", f.stage(), err)
			}
			break
		}
		if len(outs) != n+1 {
			c.Fail("%s model of %d layers: %d outputs", f.stage(), n, len(outs))
		}
		if !(training && hasDrop) {
			cur := x
			for i := 0; i <= n; i++ {
				g := wantShape(c, "output", outs[i], rows, len(cur[0]))
				checkClose(c, fmt.Sprintf("%s model %s: output %d", f.stage(), p, i), g, cur, constTol(1e-9*(1+maxAbs(cur))))
				if i < n {
					cur = p.L[i].forward(g) // from what the library put out: no drift
				}
			}
		}
		c.Cov("early passes", 1)
		if pr, err := mod.Predict(X); err == nil && !f.finalized {
			last := outs[n]
			if !training {
				if !sameBits(wantShape(c, "prediction", pr, rows, out), fromNN(c, "output", last)) {
					c.Fail("%s model %s: the prediction is not the last output", f.stage(), p)
				}
			}
		}
	case 2: // gradients
		what = "a backward pass"
		outs, err := mod.Forward(X, false)
		if err != nil {
			break
		}
		gs, err := mod.Backward(outs, Y)
		switch {
		case !f.finalized || n == 0:
			if err == nil {
				c.Fail("%s model: gradients without a loss were not refused", f.stage())
			}
			c.Cov("early gradients refused", 1)
		case !fits:
			// The cross-entropy shortcut on a softmax layer needs no loss object, and its
			// result is then judged against the reference; anything else is refused.
			if err == nil && !(p.Loss == lCE && p.L[n-1].K == kSoftmax) {
				c.Fail("%s model: gradients with a loss of another size (%d, output %d) were not refused", f.stage(), lossOut, out)
			}
			if err != nil {
				c.Cov("late mismatches refused", 1)
			}
		case err != nil:
			if f.ready {
				c.Fail("finalized model: gradients refused: %v", err)
			}
		case f.suited():
			q := p.clone()
			ref := q.grads(x, y)
			if q.ambiguous {
				break
			}
			t := q.gradTol(r, x, y, ref)
			if len(gs) != n {
				c.Fail("%s model: %d gradients for %d layers", f.stage(), len(gs), n)
			}
			for i := range ref {
				g := gs[n-1-i]
				checkClose(c, fmt.Sprintf("%s model %s: weight gradients of layer %d", f.stage(), p, i), wantShape(c, "gradient", g.DWeights, p.L[i].In, p.L[i].Out), ref[i].W, constTol(t))
				checkClose(c, fmt.Sprintf("%s model %s: bias gradients of layer %d", f.stage(), p, i), wantShape(c, "gradient", g.DBiases, 1, p.L[i].Out), M{ref[i].B}, constTol(t))
			}
			c.Cov("late gradients judged", 1)
		}
	case 3: // loss
		what = "a loss evaluation"
		l, err := mod.CalculateLoss(X, Y)
		switch {
		case !f.finalized:
			if err == nil {
				c.Fail("%s model: a loss of %v without a loss function", f.stage(), l)
			}
			c.Cov("early loss refused", 1)
		case !fits:
			if err == nil {
				c.Fail("%s model: a loss of another size (%d, output %d) was not refused", f.stage(), lossOut, out)
			}
			c.Cov("late mismatches refused", 1)
		case err != nil:
			if f.ready {
				c.Fail("finalized model: loss refused: %v", err)
			}
		case f.suited():
			want := p.loss(x, y)
			if !(math.Abs(l-want) <= 1e-8*(1+math.Abs(want))) {
				c.Fail("%s model %s: loss %v, want %v", f.stage(), p, l, want)
			}
			c.Cov("late losses judged", 1)
		}
	case 4, 5: // training
		what = "training"
		every := r.Intn(2)
		XV, YV := nnEmpty(), nnEmpty()
		if r.Intn(3) == 0 {
			XV, YV = toNN(r, x), toNN(r, y)
		}
		err := mod.Fit(X, Y, 1+r.Intn(3), r.Intn(rows+2), XV, YV, every)
		if f.ready {
			if err != nil {
				c.Fail("finalized model: training refused: %v", err)
			}
			w, b = paramsOf(c, mod)
			f.sync(c)
			break
		}
		if n == 0 && !f.finalized {
			// whatever it says, there was nothing to train
		} else if err == nil {
			c.Fail("%s model: training was not refused", f.stage())
		}
		if f.finalized {
			c.Cov("late training refused", 1)
		} else {
			c.Cov("early training refused", 1)
		}
	case 6: // accuracy
		what = "an accuracy evaluation"
		a, err := mod.CalculateAccuracy(X, Y)
		if err == nil && !(a >= 0 && a <= 1) {
			c.Fail("%s model: accuracy %v", f.stage(), a)
		}
	case 7: // save
		what = "saving"
		d := nn.NewSavedModelData(*mod)
		var buf bytes.Buffer
		if err := d.Serialize(&buf); err != nil {
			break
		}
		c.Cov("early saves", 1)
		l, err := nn.LoadModel(&buf)
		if err != nil {
			break
		}
		a, e1 := mod.Forward(X, false)
		q, e2 := l.Forward(X, false)
		if e1 == nil && (e2 != nil || len(q) != len(a)) {
			c.Fail("%s model: after save and load a pass gives %d outputs (%v), before %d", f.stage(), len(q), e2, len(a))
		}
		if e1 == nil {
			for i := range a {
				if !sameBits(fromNN(c, "output", a[i]), fromNN(c, "output", q[i])) {
					c.Fail("%s model %s: output %d differs after save and load", f.stage(), p, i)
				}
			}
		}
	case 8:
		if r.Intn(2) == 0 || !f.finalized {
			what = "a refused finalization"
			o := genOpt(r, 0.01, 0.1)
			if n > 0 && mod.Finalize(buildLoss(c, lMSE, out+1+r.Intn(3)), o.build(c), 0, 0) == nil {
				c.Fail("%s model: finalizing with a loss of another size was not refused", f.stage())
			}
			c.Cov("failed finalizations", 1)
		} else {
			what = "a refused layer"
			l := genLayer(r, kLinear, out+1, 2, 1)
			if n > 0 && mod.AddLayer(l.build(c).L) == nil {
				c.Fail("%s model: a layer of another input size was not refused", f.stage())
			}
		}
	}
	w2, b2 := paramsOf(c, mod)
	if len(w2) != n || mod.ModelSize != n {
		c.Fail("%s model: %s changed the number of layers from %d to %d (%d)", f.stage(), what, n, len(w2), mod.ModelSize)
	}
	sameParams(c, fmt.Sprintf("%s model %s: %s", f.stage(), p, what), w, b, w2, b2)
}

func runC29(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 4, maxW: 5})
	deepNow(c, m, 80, 127)
	c.Desc("%s", m)
	var mod nn.Model
	if r.Intn(4) != 0 {
		mod = nn.NewModel()
	}
	f := &life{mod: &mod, p: &RModel{}}
	lossOut := 0
	calls := func(max int) {
		for k := r.Intn(max + 1); k > 0; k-- {
			if f.wild() {
				return
			}
			f.call(c, lossOut)
		}
	}
	loss, opt := buildLoss(c, m.Loss, m.out()), m.Opt.build(c)
	calls(3)
	for i, l := range m.L {
		nl := l.clone()
		if err := mod.AddLayer(nl.build(c).L); err != nil {
			c.Fail("%s model: AddLayer refused %s: %v", f.stage(), l, err)
		}
		f.p.L = append(f.p.L, nl)
		if f.finalized {
			f.ready = false
			c.Cov("extended after finalizing", 1)
		}
		c.Desc("add")
		calls(4)
		if r.Intn(8) == 0 {
			mod.InitLayers()
			f.sync(c)
			calls(1)
		}
		if i < len(m.L)-1 && r.Intn(2) == 0 || r.Intn(5) == 0 {
			// finalize what there is, with any suitable loss and optimizer
			k := LossK(r.Intn(int(nLoss)))
			o := genOpt(r, 1e-3, 0.1)
			out := f.p.out()
			lo, ob := buildLoss(c, k, out), o.build(c)
			if k == m.Loss && out == m.out() && r.Intn(2) == 0 {
				lo = loss
			}
			if r.Intn(3) == 0 {
				ob, o = opt, m.Opt
				c.Cov("shared loss or optimizer objects", 1)
			}
			acc := r.Intn(3)
			if err := mod.Finalize(lo, ob, nn.AccuracyType(acc), 0.25); err != nil {
				c.Fail("%s model: Finalize refused: %v", f.stage(), err)
			}
			f.finalized, f.ready = true, true
			f.p.Loss, f.p.Acc, lossOut = k, acc, out
			c.Desc("finalize(%s)", lossNames[k])
			before := f.early
			calls(5)
			f.early = before
			c.Cov("trained before extending", 1)
			if f.wild() {
				c.Cov("histories cut short by divergence", 1)
				return
			}
		}
	}
	if f.finalized {
		c.Cov("re-finalized at the end", 1)
	}
	if err := mod.Finalize(loss, opt, nn.AccuracyType(m.Acc), m.Prec); err != nil {
		c.Fail("%s model: Finalize refused: %v", f.stage(), err)
	}
	f.finalized, f.ready = true, true
	f.sync(c)
	f.p.Loss, f.p.Acc, f.p.Prec, f.p.Opt, lossOut = m.Loss, m.Acc, m.Prec, m.Opt, m.out()
	twin := f.p.clone().build(c)
	for k := 0; k < 2; k++ {
		N := 1 + r.Intn(8)
		X, Y := toNN(r, genM(r, N, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, N, m.out()))
		batch, epochs := genBatch(r, N), 1+r.Intn(3)
		e1 := mod.Fit(X, Y, epochs, batch, nnEmpty(), nnEmpty(), 0)
		e2 := twin.Fit(X, Y, epochs, batch, nnEmpty(), nnEmpty(), 0)
		if e1 != nil || e2 != nil {
			c.Fail("training of %s was refused: %v; assembled in the usual order: %v", m, e1, e2)
		}
		w1, b1 := paramsOf(c, &mod)
		w2, b2 := paramsOf(c, twin)
		sameParams(c, "a model with a history, once finalized and trained, compared with "+m.String()+" assembled in the usual order", w2, b2, w1, b1)
		l1, e1 := mod.CalculateLoss(X, Y)
		l2, e2 := twin.CalculateLoss(X, Y)
		a1, e3 := mod.CalculateAccuracy(X, Y)
		a2, e4 := twin.CalculateAccuracy(X, Y)
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil || !sameVal(l1, l2) || !sameVal(a1, a2) {
			c.Fail("%s: loss %v, accuracy %v (%v %v); assembled in the usual order %v, %v (%v %v)", m, l1, a1, e1, e3, l2, a2, e2, e4)
		}
		p1, e1 := mod.Predict(X)
		p2, e2 := twin.Predict(X)
		if e1 != nil || e2 != nil || !sameBits(fromNN(c, "prediction", p1), fromNN(c, "prediction", p2)) {
			c.Fail("%s: predictions differ from those of the model assembled in the usual order (%v %v)", m, e1, e2)
		}
		c.Cov("compared with the usual order", 1)
	}
	if f.early >= 3 {
		c.NT()
	}
}

// ---- C30 ----

type usage struct {
	live       int64
	goroutines int
	files      int
}

func measure() usage {
	var u usage
	var ms runtime.MemStats
	// finalizers of what the first collections found are given time to run
	for k := 0; k < 3; k++ {
		runtime.GC()
		time.Sleep(200 * time.Microsecond)
	}
	runtime.ReadMemStats(&ms)
	u.live = int64(ms.HeapAlloc)
	u.goroutines = runtime.NumGoroutine()
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		u.files = len(d)
	}
	return u
}

// gaugeLayer measures live memory at chosen passes of one training call.
type gaugeLayer struct {
	nn.Layer
	n    int
	at   []int
	seen []usage
}

func (g *gaugeLayer) Forward(x nn.Matrix) (nn.Matrix, error) {
	g.n++
	if len(g.seen) < len(g.at) && g.n == g.at[len(g.seen)] {
		g.seen = append(g.seen, measure())
	}
	return g.Layer.Forward(x)
}

// growth describes what grew between two measurements, n repetitions apart. A lean one
// allows only for a few bytes left behind by each.
func growth(a, b usage, n int, lean bool) string {
	// a retained matrix of the smallest size used here is well above 100 bytes
	if b.live > a.live+int64(100*n)+16384 || lean && b.live > a.live+int64(4*n)+2560 {
		return fmt.Sprintf("live memory grew from %d to %d bytes", a.live, b.live)
	}
	if b.goroutines > a.goroutines+n/20+2 {
		return fmt.Sprintf("goroutines grew from %d to %d", a.goroutines, b.goroutines)
	}
	if b.files > a.files+n/20+2 {
		return fmt.Sprintf("open files grew from %d to %d", a.files, b.files)
	}
	return ""
}

// judgeGrowth fails when usage grows again and again; what fills up once or only lingers
// is no leak. next makes n more repetitions and measures, or reports that it cannot.
func judgeGrowth(c *Ctx, what string, n int, next func() (usage, bool)) {
	judgeGrowths(c, what, func(int) int { return n }, false, next)
}

// judgeGrowths: size(k) repetitions lie between measurement k and the next.
func judgeGrowths(c *Ctx, what string, size func(k int) int, lean bool, next func() (usage, bool)) {
	a, ok := next()
	for round := 0; ok && round < 4; round++ {
		var b usage
		n := size(round)
		if b, ok = next(); !ok {
			break
		}
		c.Cov("operations measured", 1)
		c.Cov("repetitions", n)
		if n >= 100 {
			c.NT()
		}
		g := growth(a, b, n, lean)
		if g == "" {
			return
		}
		if round == 3 {
			c.Fail("%s: %s over %d repetitions, the fourth time in a row", what, g, n)
		}
		a = b
	}
	if !ok {
		c.Cov("measurements cut short", 1)
	}
}

func runC30(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 3, maxW: 6, kinds: allKinds, lrLo: 1e-4, lrHi: 1e-3})
	mod := m.build(c)
	N := 8 + r.Intn(24)
	x, y := genM(r, N, m.in(), vUniform), genTarget(r, m.Loss, N, m.out())
	X, Y := toNN(r, x), toNN(r, y)
	XV, YV := toNN(r, genM(r, 9, m.in(), vUniform)), toNN(r, genTarget(r, m.Loss, 9, m.out()))
	path := fmt.Sprintf("%s/c30-%d.nn", c.Dir, c.Case)
	defer os.Remove(path)
	must := func(err error) {
		if err != nil {
			c.Fail("refused: %v", err)
		}
	}
	refused := func(err error) {
		if err == nil {
			c.Fail("a call with unsuitable arguments was not refused")
		}
	}
	var buf bytes.Buffer
	d := nn.NewSavedModelData(*mod)
	must(d.Serialize(&buf))
	saved := buf.Bytes()
	outs, err := mod.Forward(X, false)
	must(err)
	layer, _ := layOf(mod.Layers[r.Intn(len(m.L))])
	l := layer.L
	lw, _ := nn.NewMatrix(layer.W().Rows, layer.W().Cols)
	lb, _ := nn.NewMatrix(1, layer.B().Cols)
	LX := toNN(r, genM(r, N, layer.W().Rows, vUniform))
	LD := toNN(r, genM(r, N, layer.W().Cols, vUniform))
	o := genOpt(r, 1e-4, 1e-3)
	ob := o.build(c)
	ls := buildLoss(c, m.Loss, m.out())
	bad := toNN(r, genM(r, N, m.in()+1, vUniform))
	n, what := 300, ""
	files := false
	epochs := []int{1, 2, 5}[r.Intn(3)]
	batch := genBatch(r, N)
	every, val := r.Intn(2), r.Intn(2) == 0
	var op func()
	kind := r.Intn(26)
	if c.Case < 78 {
		kind = c.Case % 26
	}
	switch kind {
	case 0, 1, 2: // many short trainings
		what = fmt.Sprintf("training (%d epochs, batches of %d, logging %d)", epochs, batch, every)
		n = 150
		op = func() {
			xv, yv := nnEmpty(), nnEmpty()
			if val {
				xv, yv = XV, YV
			}
			must(mod.Fit(X, Y, epochs, batch, xv, yv, every))
		}
	case 3, 4, 5: // one long training, measured from inside
		g := &gaugeLayer{Layer: &nn.LinearLayer{}}
		id := &RL{K: kLinear, In: m.in(), Out: m.in(), W: zeros(m.in(), m.in()), B: make([]float64, m.in())}
		for j := range id.W {
			id.W[j][j] = 1
		}
		g.Layer = id.build(c).L
		spied := nn.NewModel()
		must(spied.AddLayer(g))
		for _, l := range m.L {
			must(spied.AddLayer(l.clone().build(c).L))
		}
		must(spied.Finalize(ls, m.Opt.build(c), nn.AccuracyType(m.Acc), m.Prec))
		per := 1
		if batch > 0 {
			per = (N + batch - 1) / batch
		}
		total := 600
		if kind == 5 {
			// or many batches in few epochs
			big := 3000
			x, y = genM(r, big, m.in(), vUniform), genTarget(r, m.Loss, big, m.out())
			batch, per = 8, 375
			X, Y = toNN(r, x), toNN(r, y)
			total = 1500
		}
		for k := 1; k <= 5; k++ {
			g.at = append(g.at, k*total/5)
		}
		xv, yv := nnEmpty(), nnEmpty()
		if val {
			xv, yv = XV, YV
		}
		must(spied.Fit(X, Y, total/per+2, batch, xv, yv, every))
		if len(g.seen) != len(g.at) {
			return // passes were shared or split differently: nothing to compare
		}
		c.Cov("measured inside training", 1)
		k := 0
		judgeGrowth(c, fmt.Sprintf("one training of %s (%d samples, batches of %d, logging %d)", m, N, batch, every), total/5, func() (usage, bool) {
			k++
			return g.seen[k-1], true
		})
		return
	case 22: // tens of thousands of epochs, measured in ever longer intervals
		g := &gaugeLayer{}
		id := &RL{K: kLinear, In: m.in(), Out: m.in(), W: zeros(m.in(), m.in()), B: make([]float64, m.in())}
		for j := range id.W {
			id.W[j][j] = 1
		}
		g.Layer = id.build(c).L
		spied := nn.NewModel()
		must(spied.AddLayer(g))
		for _, l := range m.L {
			must(spied.AddLayer(l.clone().build(c).L))
		}
		must(spied.Finalize(ls, m.Opt.build(c), nn.AccuracyType(m.Acc), m.Prec))
		for k := 1500; k <= 200000; k *= 2 {
			g.at = append(g.at, k)
		}
		small := 1 + r.Intn(2)
		X, Y = toNN(r, x[:small]), toNN(r, y[:small])
		nn.InfoLogger, nn.ErrorLogger = log.New(io.Discard, "", 0), log.New(io.Discard, "", 0)
		defer quietLoggers()
		epochs := 26000
		must(spied.Fit(X, Y, epochs, r.Intn(2)*small, nnEmpty(), nnEmpty(), every))
		per := (g.n + epochs - 1) / epochs
		if len(g.seen) < 5 {
			return
		}
		c.Cov("long trainings", 1)
		// the first measurement comes after 1500 passes: all five last ones lie in this call
		seen, at := g.seen[len(g.seen)-5:], g.at[len(g.seen)-5:]
		k := 0
		judgeGrowths(c, fmt.Sprintf("one training of %s (%d samples, %d epochs, logging %d)", m, small, epochs, every), func(k int) int { return (at[k+1] - at[k]) / per }, true, func() (usage, bool) {
			k++
			return seen[k-1], true
		})
		return
	case 6:
		what = "forward pass"
		op = func() { _, err := mod.Forward(X, r.Intn(2) == 0); must(err) }
	case 7:
		what = "backward pass"
		op = func() { _, err := mod.Backward(outs, Y); must(err) }
	case 8:
		what = "prediction"
		op = func() { _, err := mod.Predict(X); must(err) }
	case 9:
		what = "loss and accuracy"
		op = func() {
			_, err := mod.CalculateLoss(X, Y)
			must(err)
			_, err = mod.CalculateAccuracy(X, Y)
			must(err)
		}
	case 10:
		what = "saving to memory"
		op = func() {
			var b bytes.Buffer
			d := nn.NewSavedModelData(*mod)
			must(d.Serialize(&b))
		}
	case 11:
		what = "loading from memory"
		op = func() { _, err := nn.LoadModel(bytes.NewBuffer(append([]byte{}, saved...))); must(err) }
	case 12:
		what, files, n = "saving and loading a file", true, 200
		many, k := r.Intn(2) == 0, 0
		op = func() {
			p := path
			if many { // under a new long name every time
				k++
				p = fmt.Sprintf("%s-%0150d", path, k)
				defer os.Remove(p)
			}
			must(nn.SaveFile(mod, p))
			_, err := nn.LoadFile(p)
			must(err)
		}
	case 13:
		what = "a refused load of a damaged file"
		cut := saved[:len(saved)-1-r.Intn(len(saved)/2)]
		must(os.WriteFile(path, cut, 0644))
		files, n = true, 200
		missing := 0
		op = func() {
			_, err := nn.LoadFile(path)
			refused(err)
			missing++
			_, err = nn.LoadFile(fmt.Sprintf("%s-%0150d", path, missing))
			refused(err)
			_, err = nn.LoadModel(bytes.NewBuffer(append([]byte{}, cut...)))
			refused(err)
		}
		c.Cov("refused calls repeated", 1)
	case 14:
		what = "a refused save"
		dir := path + ".d"
		if os.Mkdir(dir, 0755) != nil {
			return
		}
		defer os.Remove(dir)
		op = func() { refused(nn.SaveFile(mod, dir)); refused(nn.SaveFile(mod, dir+"/no/such/place")) }
		c.Cov("refused calls repeated", 1)
	case 15:
		what = "refused passes and trainings"
		short, wide := toNN(r, y[:N-1]), toNN(r, genM(r, N, m.out()+1, vUniform))
		op = func() {
			_, err := mod.Forward(bad, true)
			refused(err)
			refused(mod.Fit(bad, Y, 2, 0, nnEmpty(), nnEmpty(), 0))
			_, err = mod.CalculateLoss(bad, Y)
			refused(err)
			// mistakes that show only after a forward pass
			for _, t := range []nn.Matrix{short, wide} {
				_, err = mod.CalculateLoss(X, t)
				refused(err)
				_, err = mod.CalculateAccuracy(X, t)
				refused(err)
				_, err = mod.Backward(outs, t)
				refused(err)
				refused(mod.Fit(X, t, 2, batch, nnEmpty(), nnEmpty(), every))
				refused(mod.Fit(X, Y, 2, batch, X, t, 1))
			}
			_, err = mod.Predict(bad)
			refused(err)
			refused(mod.Fit(X, Y, 2, -1, nnEmpty(), nnEmpty(), 0))
			_, _, _, err = l.Backward(LX, toNN(r, zeros(N+1, layer.W().Cols)))
			refused(err)
			refused(mod.Finalize(buildLoss(c, m.Loss, m.out()+1), ob, nn.AccuracyType(m.Acc), m.Prec))
			refused(mod.AddLayer((&RL{K: kLinear, In: m.out() + 1, Out: 1, W: zeros(m.out()+1, 1), B: make([]float64, 1)}).build(c).L))
			refused(ob.Update(layer.W(), layer.B(), toNN(r, zeros(layer.W().Rows+1, layer.W().Cols)), lb))
			refused(ob.Update(layer.W(), layer.B(), lw, toNN(r, zeros(1, layer.W().Cols+1))))
		}
		c.Cov("refused calls repeated", 1)
	case 16:
		what = "initialization of layers"
		op = func() { mod.InitLayers() }
	case 17:
		what = "passes of one " + kindNames[m.L[0].K] + " layer"
		op = func() {
			_, err := l.Forward(LX)
			must(err)
			_, _, _, err = l.Backward(LX, LD)
			must(err)
		}
	case 18:
		what = "updates of " + o.String()
		op = func() { must(ob.Update(layer.W(), layer.B(), lw, lb)) }
	case 19:
		what = "loss and its gradient"
		p := toNN(r, genPred(r, m.Loss, N, m.out()))
		op = func() {
			_, err := ls.Forward(p, Y)
			must(err)
			_, err = ls.Backward(p, Y)
			must(err)
		}
	case 20:
		what = "shuffling, decisions and encoding"
		lab, _ := nn.NewMatrix(N, 1)
		op = func() {
			nn.ShuffleDataset(X, Y)
			nn.RowMax(Y)
			nn.OutputBinaryValues(Y)
			_, err := nn.SparseToOneHot(lab, 3)
			must(err)
		}
	case 23:
		what = "refused matrix operations"
		odd := toNN(r, zeros(N+1, m.in()+1))
		op = func() {
			_, err := X.Get(N, 0)
			refused(err)
			refused(X.Set(0, -1, 1))
			_, err = X.GetRow(-1)
			refused(err)
			_, err = X.GetColumn(m.in())
			refused(err)
			refused(X.SetRow(0, make([]float64, m.in()+1)))
			refused(X.SetColumn(N, make([]float64, N)))
			_, err = X.Add(odd)
			refused(err)
			_, err = X.Dot(odd)
			refused(err)
			_, err = X.Sub(odd)
			refused(err)
			_, err = nn.NewMatrix(0, -1)
			refused(err)
			_, err = nn.NewMatrixFromSlice([][]float64{{1}, {2, 3}})
			refused(err)
			_, err = nn.SparseToOneHot(odd, 0)
			refused(err)
			_, err = ls.Forward(odd, Y)
			refused(err)
			_, err = ls.Backward(odd, Y)
			refused(err)
			ob.Update(layer.W(), layer.B(), odd, odd)
			_, err = l.Forward(toNN(r, zeros(1, layer.W().Rows+1)))
			refused(err)
		}
		c.Cov("refused calls repeated", 1)
	case 25:
		what = "assembling models, used once and dropped"
		one := X
		one.Rows, one.M = 1, X.M[:1]
		yOne := Y
		yOne.Rows, yOne.M = 1, Y.M[:1]
		op = func() {
			q := nn.NewModel()
			for _, l := range m.L {
				must(q.AddLayer(l.build(c).L))
			}
			refused(q.AddLayer((&RL{K: kLinear, In: m.out() + 1, Out: 1, W: zeros(m.out()+1, 1), B: make([]float64, 1)}).build(c).L))
			must(q.Finalize(buildLoss(c, m.Loss, m.out()), m.Opt.build(c), nn.AccuracyType(m.Acc), m.Prec))
			must(q.Fit(one, yOne, 1, 0, nnEmpty(), nnEmpty(), 0))
		}
	case 24:
		what = "matrix operations"
		b := toNN(r, genM(r, N, m.in(), vUniform))
		op = func() {
			b.Add(X)
			b.Sub(X)
			b.Neg()
			b.Equals(X)
			b.AddScalar(2)
			b.MulScalar(3)
			b.PowScalar(2)
			b.Dot(X.T())
			b.Sum(r.Intn(2))
			v, err := b.GetRow(0)
			must(err)
			must(b.SetRow(N-1, v))
			v, err = b.GetColumn(0)
			must(err)
			must(b.SetColumn(0, v))
			must(b.Set(0, 0, 1))
		}
	case 21:
		what = "finalizing and training"
		n = 150
		op = func() {
			must(mod.Finalize(ls, ob, nn.AccuracyType(m.Acc), m.Prec))
			must(mod.Fit(X, Y, 1, batch, nnEmpty(), nnEmpty(), 0))
		}
	}
	c.Desc("%s on %s, %d samples", what, m, N)
	if files {
		c.Cov("files saved and loaded", 1)
	}
	nn.InfoLogger, nn.ErrorLogger = log.New(io.Discard, "", 0), log.New(io.Discard, "", 0)
	defer quietLoggers()
	for k := 0; k < 30; k++ {
		op()
	}
	if kind >= 6 && !files && kind != 14 && kind != 21 && r.Intn(3) == 0 {
		// very many repetitions, in ever longer intervals
		c.Cov("operations repeated thousands of times", 1)
		count := -1
		judgeGrowths(c, fmt.Sprintf("%s, repeated on %s with %d samples", what, m, N), func(k int) int { return 800 << k }, true, func() (usage, bool) {
			if count >= 0 {
				for k := 0; k < 800<<count; k++ {
					op()
				}
			}
			count++
			return measure(), true
		})
		return
	}
	first := true
	judgeGrowth(c, fmt.Sprintf("%s, repeated on %s with %d samples", what, m, N), n, func() (usage, bool) {
		if !first {
			for k := 0; k < n; k++ {
				op()
			}
		}
		first = false
		return measure(), true
	})
}
