package main

import (
	"fmt"
	"strings"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C33", Quick: 250000, Thorough: 4000000, Run: runC33,
		Rule: "a case counts the steps (passes of layers, loss and gradient evaluations, updates) of one call on a model, then repeats the call on an equal model whose k-th step refuses, with or without something beside the error; the call must return that error, parameters and optimizers must stay as they were when it arose, and once the cause is gone a model that did not train must go on like its twin; non-trivial when steps before and after the refused one exist",
		Floors: map[string]int64{"refusals injected": 150000, "call Fit": 15000, "call Forward": 2000, "call Backward": 2000, "call Predict": 2000, "call CalculateLoss": 2000, "call CalculateAccuracy": 2000,
			"refused forward": 8000, "refused backward": 1500, "refused loss": 2000, "refused loss gradient": 1000, "refused update": 1500, "refused in a later epoch": 1500, "while evaluating": 6000, "on validation data": 1000, "last step refused": 4000, "went on like the twin": 5000, "went on training": 8000, "unusable parameters": 1500, "with softmax and cross entropy fused": 400}})
}

// faults counts steps and makes one of them refuse.
type faults struct {
	on    bool
	at    int // the step that refuses, none if zero
	n     int
	kinds []int
	err   error
	fired bool
	snap  func()
	after []string // updates made after the refusal
	junk  int
}

// step is true where the step shall refuse.
func (f *faults) step(kind, layer int) bool {
	if !f.on {
		return false
	}
	f.n++
	if f.fired {
		if kind == evU {
			f.after = append(f.after, fmt.Sprintf("layer %d", layer))
		}
		return false
	}
	f.kinds = append(f.kinds, kind)
	if f.n == f.at {
		f.fired = true
		f.snap()
		return true
	}
	return false
}

type faultLayer struct {
	nn.Layer
	f *faults
	i int
}

func (l *faultLayer) Forward(x nn.Matrix) (nn.Matrix, error) {
	refuse := l.f.step(evF, l.i)
	if refuse && l.f.junk == 0 {
		return nn.Matrix{}, l.f.err
	}
	o, err := l.Layer.Forward(x)
	if refuse {
		err = l.f.err
	}
	return o, err
}

func (l *faultLayer) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) {
	refuse := l.f.step(evB, l.i)
	if refuse && l.f.junk == 0 {
		return nn.Matrix{}, nn.Matrix{}, nn.Matrix{}, l.f.err
	}
	dw, db, dx, err := l.Layer.Backward(x, d)
	if refuse {
		err = l.f.err
	}
	return dw, db, dx, err
}

type faultLoss struct {
	nn.Loss
	f *faults
}

func (l *faultLoss) Forward(p, y nn.Matrix) (float64, error) {
	if l.f.step(evLF, -1) {
		return 0, l.f.err
	}
	return l.Loss.Forward(p, y)
}

func (l *faultLoss) Backward(p, y nn.Matrix) (nn.Matrix, error) {
	refuse := l.f.step(evLB, -1)
	if refuse && l.f.junk == 0 {
		return nn.Matrix{}, l.f.err
	}
	o, err := l.Loss.Backward(p, y)
	if refuse {
		err = l.f.err
	}
	return o, err
}

type faultOpt struct {
	nn.Optimizer
	f *faults
	i int
}

func (o *faultOpt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	if o.f.step(evU, o.i) {
		return o.f.err
	}
	return o.Optimizer.Update(w, b, dw, db)
}

// withFaults builds the model with its parts wrapped. What has a path of its own in the
// model (dropout, cross entropy of a softmax) is left bare, or that path would not be taken.
func withFaults(c *Ctx, m *RModel, bare map[int]bool, f *faults) *nn.Model {
	mod := m.build(c)
	for i := range mod.Layers {
		if !bare[i] {
			mod.Layers[i] = &faultLayer{mod.Layers[i], f, i}
		}
	}
	mod.Loss = &faultLoss{mod.Loss, f}
	for i := range mod.Optimizers {
		mod.Optimizers[i] = &faultOpt{mod.Optimizers[i], f, i}
	}
	return mod
}

func runC33(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 5, maxW: 4, lrLo: 1e-4, lrHi: 1e-2, kinds: allKinds})
	n := len(m.L)
	bare := map[int]bool{}
	hasDropout := false
	for i, l := range m.L {
		if l.K == kDropout {
			hasDropout = true
			bare[i] = true
		}
	}
	if m.L[n-1].K == kSoftmax && m.Loss == lCE && r.Intn(3) > 0 {
		bare[n-1] = true
		c.Cov("with softmax and cross entropy fused", 1)
	}
	N := 1 + r.Intn(7)
	if r.Intn(10) == 0 {
		N = 8 + r.Intn(40)
	}
	x, y := genM(r, N, m.in(), vNormal), genTarget(r, m.Loss, N, m.out())
	nv := 1 + r.Intn(4)
	xv, yv := genM(r, nv, m.in(), vNormal), genTarget(r, m.Loss, nv, m.out())
	X, Y, XV, YV := toNN(r, x), toNN(r, y), nnEmpty(), nnEmpty()
	epochs, every := 1+r.Intn(4), r.Intn(3)
	batch := r.Intn(N + 2)
	if r.Intn(10) == 0 {
		epochs = 5 + r.Intn(20)
	}
	val := r.Intn(2) == 0
	if val {
		XV, YV = toNN(r, xv), toNN(r, yv)
	}
	if N > 10 && batch > 0 {
		batch += N / 8
	}
	call := []string{"Fit", "Fit", "Fit", "Fit", "Forward", "Backward", "Predict", "CalculateLoss", "CalculateAccuracy"}[r.Intn(9)]
	training := r.Intn(2) == 0
	do := func(mod *nn.Model, f *faults) (err error) {
		switch call {
		case "Fit":
			f.on = true
			err = mod.Fit(X, Y, epochs, batch, XV, YV, every)
		case "Forward":
			f.on = true
			_, err = mod.Forward(X, training)
		case "Backward":
			o, e := mod.Forward(X, training)
			if e != nil {
				c.Fail("forward pass refused: %v", e)
			}
			f.on = true
			_, err = mod.Backward(o, Y)
		case "Predict":
			f.on = true
			_, err = mod.Predict(X)
		case "CalculateLoss":
			f.on = true
			_, err = mod.CalculateLoss(X, Y)
		case "CalculateAccuracy":
			f.on = true
			_, err = mod.CalculateAccuracy(X, Y)
		}
		f.on = false
		return
	}
	c.Desc("%s %s N=%d epochs=%d batch=%d every=%d val=%v", call, m, N, epochs, batch, every, val)

	if r.Intn(20) == 0 {
		c33params(c, m, call, func(mod *nn.Model) error { return do(mod, &faults{}) })
		return
	}

	// how many steps there are
	dry := &faults{}
	first := withFaults(c, m, bare, dry)
	if err := do(first, dry); err != nil {
		c.Fail("%s refused: %v", call, err)
	}
	if dry.n == 0 { // all layers on their own path
		c.Cov("no steps to refuse", 1)
		return
	}
	f := &faults{err: fmt.Errorf("cause %d of trouble", r.Intn(1000)), junk: r.Intn(2)}
	switch r.Intn(5) {
	case 0:
		f.at = dry.n
	case 1:
		// a kind of step that is rare
		want := r.Intn(5)
		var at []int
		for i, k := range dry.kinds {
			if k == want {
				at = append(at, i+1)
			}
		}
		if len(at) > 0 {
			f.at = at[r.Intn(len(at))]
			break
		}
		fallthrough
	default:
		f.at = 1 + r.Intn(dry.n)
	}
	mod := withFaults(c, m, bare, f)
	var w0, b0 []M
	f.snap = func() { w0, b0 = faultParams(c, mod) }
	err := do(mod, f)
	if !f.fired {
		c.Cov("refusal not reached", 1)
		return
	}
	kind := f.kinds[f.at-1]
	what := fmt.Sprintf("%s, step %d of %d (%s)", call, f.at, dry.n, evNames[kind])
	c.Cov("refusals injected", 1)
	c.Cov("call "+call, 1)
	c.Cov("refused "+evNames[kind], 1)
	if f.at == dry.n {
		c.Cov("last step refused", 1)
	}
	if f.at > 1 && f.at < dry.n {
		c.NT()
	}
	updates := 0
	for _, k := range f.kinds[:f.at-1] {
		if k == evU {
			updates++
		}
	}
	if call == "Fit" {
		if per := 1; updates > 0 {
			if batch > 0 && batch < N {
				per = (N + batch - 1) / batch
			}
			if updates >= per*n {
				c.Cov("refused in a later epoch", 1)
			}
			if kind == evLF || kind == evF && f.kinds[f.at-2] != evU && f.kinds[f.at-2] != evF {
				c.Cov("while evaluating", 1)
			}
		}
		if val && kind == evLF {
			k := 0
			for _, e := range f.kinds[:f.at] {
				if e == evLF {
					k++
				}
			}
			if k%2 == 0 {
				c.Cov("on validation data", 1)
			}
		}
	}
	// the caller learns of it
	if err == nil {
		c.Fail("%s was refused, yet the call reported success", what)
	}
	if !strings.Contains(err.Error(), f.err.Error()) {
		c.Fail("%s was refused with %q, the call reported %q", what, f.err, err)
	}
	// nothing was trained after it
	if len(f.after) > 0 {
		c.Fail("%s was refused, after which the optimizers of %v still updated", what, f.after)
	}
	w1, b1 := faultParams(c, mod)
	sameParams(c, what+" refused", w0, b0, w1, b1)
	if updates == 0 { // as it was in the beginning
		u := m.build(c)
		w2, b2 := paramsOf(c, u)
		sameParams(c, what+" refused before the first update", w2, b2, w1, b1)
	}
	// once the cause is gone
	f.at = 0
	if call == "Fit" {
		if err := mod.Fit(X, Y, 1, batch, XV, YV, every); err != nil && finite(worst(w1, b1)) {
			c.Fail("%s was refused once; training afterwards: %v", what, err)
		}
		c.Cov("went on training", 1)
		return
	}
	if err := do(mod, f); err != nil {
		c.Fail("%s was refused once, and again after the cause was gone: %v", what, err)
	}
	if hasDropout {
		return
	}
	twin := withFaults(c, m, bare, &faults{})
	e1 := mod.Fit(X, Y, 2, batch, nnEmpty(), nnEmpty(), 0)
	e2 := twin.Fit(X, Y, 2, batch, nnEmpty(), nnEmpty(), 0)
	if e1 != nil || e2 != nil {
		c.Fail("training after %s was refused once: %v; of a twin: %v", what, e1, e2)
	}
	wa, ba := faultParams(c, mod)
	wb, bb := faultParams(c, twin)
	sameParams(c, "training, after "+what+" was refused once,", wb, bb, wa, ba)
	c.Cov("went on like the twin", 1)
}

func worst(ws, bs []M) float64 {
	s := 0.0
	for i := range ws {
		s += maxAbs(ws[i]) + maxAbs(bs[i])
	}
	return s
}

// c33params: a refusal that arises in a layer itself, whose weights were replaced by
// some of another shape.
func c33params(c *Ctx, m *RModel, call string, do func(*nn.Model) error) {
	r := c.R
	mod := m.build(c)
	i := r.Intn(len(m.L))
	l, _ := layOf(mod.Layers[i])
	if m.L[i].K == kDropout {
		return
	}
	if call == "Backward" { // its forward pass would be refused already
		return
	}
	old := *l.W()
	*l.W() = toNN(r, genM(r, old.Rows+1+r.Intn(2), old.Cols, vNormal))
	if err := do(mod); err == nil {
		c.Fail("%s of a model whose layer %d has %d inputs and weights for %d reported success", call, i, old.Rows, l.W().Rows)
	}
	*l.W() = old
	if err := do(mod); err != nil {
		c.Fail("%s was refused because of the weights of layer %d, and again after they were put back: %v", call, i, err)
	}
	c.Cov("unusable parameters", 1)
	c.NT()
}

func faultParams(c *Ctx, mod *nn.Model) (ws, bs []M) {
	for _, l := range mod.Layers {
		if s, ok := l.(*faultLayer); ok {
			l = s.Layer
		}
		x, _ := layOf(l)
		ws, bs = append(ws, fromNN(c, "weights", *x.W())), append(bs, fromNN(c, "biases", *x.B()))
	}
	return
}
