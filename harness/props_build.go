package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C25", Quick: 60000, Thorough: 300000, Run: runC25,
		Rule: "a case is a random program of construction steps, many of them to be refused, over one model (layers of any kind and size, losses, optimizers, accuracy types, precisions; settings at and around every boundary), with predictions, losses and training in between; after every step the model's exported fields are compared with the program's own account, and whatever the model computes is compared with a twin assembled from the accepted steps only; non-trivial when at least one model step was refused and one accepted",
		Floors: map[string]int64{"deep assemblies": 400, "constructor calls accepted": 30000, "constructor calls refused": 20000, "layers accepted": 12000, "layers refused": 5000, "finalisations accepted": 8000, "finalisations refused for size": 3000, "finalisations refused for precision": 1500,
			"refused after finalisation": 4000, "finalised again": 2000, "extended after finalisation": 1500, "uses compared with the twin": 10000, "finalisations without layers": 500, "fields compared": 500000, "wide layers": 400}})
}

// boundary values around the allowed range of a real setting
func edgeVal(r *rand.Rand, bound float64) float64 {
	switch r.Intn(7) {
	case 0:
		return bound
	case 1:
		return math.Nextafter(bound, math.Inf(1))
	case 2:
		return math.Nextafter(bound, math.Inf(-1))
	case 3:
		return bound + logUniform(r, 1e-12, 1)
	case 4:
		return bound - logUniform(r, 1e-12, 1)
	case 5:
		if bound == 0 {
			return math.Copysign(0, -1)
		}
		return bound - 0.5
	}
	return bound + (2*r.Float64()-1)*math.Pow(10, pick(r, 0, 1, 2, 3, 4, 5, 9, 20, 300))
}

// edgeOrNaN: what is no number is in no range.
func edgeOrNaN(r *rand.Rand, bound float64) float64 {
	if r.Intn(12) == 0 {
		return math.NaN()
	}
	return edgeVal(r, bound)
}

func edgeSize(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return -2 - r.Intn(1000)
	case 3:
		return []int{math.MinInt64, math.MinInt32, -1 << 16, -256, -255}[r.Intn(5)]
	case 4:
		return 60 + r.Intn(200)
	}
	return 1 + r.Intn(6)
}

func wideSize(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return []int{127, 128, 129, 255, 256, 257, 1000, 1024, 4096}[r.Intn(9)]
	}
	return []int{32767, 32768, 33000, 65535, 65536, 65537, 70000, 100000}[r.Intn(8)]
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// judgeCall checks that a step was accepted exactly when it should be.
func judgeCall(c *Ctx, what string, valid bool, err error) {
	if valid && err != nil {
		c.Fail("%s is valid but was refused: %v", what, err)
	}
	if !valid && err == nil {
		c.Fail("%s is not valid but was accepted", what)
	}
	if valid {
		c.Cov("constructor calls accepted", 1)
	} else {
		c.Cov("constructor calls refused", 1)
	}
}

func eqInt(c *Ctx, what string, got, want int) {
	c.Cov("fields compared", 1)
	if got != want {
		c.Fail("%s is %d, want %d", what, got, want)
	}
}

func eqF(c *Ctx, what string, got, want float64) {
	c.Cov("fields compared", 1)
	if got != want {
		c.Fail("%s is %v, want %v", what, got, want)
	}
}

// tryLayer calls a layer constructor with settings that may be invalid.
func tryLayer(c *Ctx) {
	r := c.R
	in, out := edgeSize(r), edgeSize(r)
	if r.Intn(200) == 0 { // wide
		in, out = wideSize(r), 1+r.Intn(2)
		if r.Intn(2) == 0 {
			in, out = out, in
		}
		c.Cov("wide layers", 1)
	}
	k := Kind(r.Intn(int(nKinds)))
	valid := in >= 1 && out >= 1
	var l nn.Layer
	var err error
	var gotIn, gotOut int
	slope, drop := 0.0, 0.0
	what := fmt.Sprintf("%s layer %d to %d", kindNames[k], in, out)
	switch k {
	case kHidden:
		x, e := nn.NewLayer(in, out)
		l, err, gotIn, gotOut = &x, e, x.InputSize, x.OutputSize
	case kLinear:
		x, e := nn.NewLinearLayer(in, out)
		l, err, gotIn, gotOut = &x, e, x.InputSize, x.OutputSize
	case kSigmoid:
		x, e := nn.NewSigmoidLayer(in, out)
		l, err, gotIn, gotOut = &x, e, x.InputSize, x.OutputSize
	case kSoftmax:
		x, e := nn.NewSoftmaxLayer(in, out)
		l, err, gotIn, gotOut = &x, e, x.InputSize, x.OutputSize
	case kLeaky:
		slope = edgeVal(r, 0)
		valid = valid && slope >= 0
		what += fmt.Sprintf(" with slope %g", slope)
		x, e := nn.NewLeakyLayer(in, out, slope)
		l, err, gotIn, gotOut = &x, e, x.InputSize, x.OutputSize
		if e == nil && valid {
			eqF(c, what+": slope", x.Slope, slope)
		}
	case kDropout:
		drop = edgeOrNaN(r, float64(r.Intn(2)))
		valid = valid && drop >= 0 && drop <= 1
		what += fmt.Sprintf(" with rate %g", drop)
		x, e := nn.NewDropoutLayer(in, out, drop)
		l, err, gotIn, gotOut = &x, e, x.InputSize, x.OutputSize
		if e == nil && valid {
			eqF(c, what+": rate", x.Dropout, drop)
		}
	}
	judgeCall(c, what, valid, err)
	if !valid {
		return
	}
	eqInt(c, what+": input size", gotIn, in)
	eqInt(c, what+": output size", gotOut, out)
	x, _ := layOf(l)
	wantShape(c, what+": weights", *x.W(), in, out)
	wantShape(c, what+": biases", *x.B(), 1, out)
}

func tryLoss(c *Ctx) {
	r := c.R
	n := edgeSize(r)
	if r.Intn(20) == 0 {
		n = wideSize(r)
	}
	k := LossK(r.Intn(int(nLoss)))
	what := fmt.Sprintf("%s loss of size %d", lossNames[k], n)
	var err error
	var got int
	switch k {
	case lMSE:
		x, e := nn.NewMeanSquaredLoss(n)
		err, got = e, x.Size
	case lMAE:
		x, e := nn.NewMeanAbsoluteLoss(n)
		err, got = e, x.Size
	case lCE:
		x, e := nn.NewCrossEntropyLoss(n)
		err, got = e, x.Size
	case lBCE:
		x, e := nn.NewBinaryCrossEntropyLoss(n)
		err, got = e, x.Size
	}
	judgeCall(c, what, n >= 1, err)
	if n >= 1 {
		eqInt(c, what+": size", got, n)
	}
}

func tryOpt(c *Ctx) {
	r := c.R
	good := func(bound float64) float64 { // mostly valid, so that each check is reached alone
		if r.Intn(3) != 0 {
			return bound + r.Float64()*0.9 + 0.01
		}
		return edgeOrNaN(r, bound)
	}
	lr, decay := good(0), good(0)
	if r.Intn(4) == 0 { // by type and values
		t := []int{-128, -2, -1, 2, 3, 4, 127, 16, 64, 0, 1, 0, 1}[r.Intn(13)]
		v := map[string]float64{"learningRate": 0.1, "decay": r.Float64(), "momentum": r.Float64(), "epsilon": 1e-7, "beta1": 0.9, "beta2": 0.99}
		x, err := nn.NewOptimizerFromType(nn.OptimizerType(t), v)
		judgeCall(c, fmt.Sprintf("an optimizer of type %d", t), t == 0 || t == 1, err)
		if err == nil {
			s, sgd := x.(*nn.SGDOptimizer)
			a, adam := x.(*nn.AdamOptimizer)
			switch {
			case sgd != (t == 0) || adam != (t == 1):
				c.Fail("an optimizer of type %d is a %T", t, x)
			case sgd:
				eqF(c, "learning rate by value", s.LearningRate, 0.1)
				eqF(c, "decay by value", s.Decay, v["decay"])
				eqF(c, "momentum by value", s.Momentum, v["momentum"])
			default:
				eqF(c, "learning rate by value", a.LearningRate, 0.1)
				eqF(c, "decay by value", a.Decay, v["decay"])
				eqF(c, "epsilon by value", a.Epsilon, 1e-7)
				eqF(c, "beta 1 by value", a.Beta1, 0.9)
				eqF(c, "beta 2 by value", a.Beta2, 0.99)
			}
		}
		c.Cov("optimizers by type", 1)
		return
	}
	if r.Intn(2) == 0 {
		mom := good(0)
		what := fmt.Sprintf("SGD(learning rate %g, decay %g, momentum %g)", lr, decay, mom)
		x, err := nn.NewSGDOptimizer(lr, decay, mom)
		judgeCall(c, what, lr > 0 && decay >= 0 && mom >= 0, err)
		if err == nil {
			eqF(c, what+": learning rate", x.LearningRate, lr)
			eqF(c, what+": decay", x.Decay, decay)
			eqF(c, what+": momentum", x.Momentum, mom)
		}
		return
	}
	eps, b1, b2 := logUniform(r, 1e-10, 1), r.Float64(), r.Float64()
	what := fmt.Sprintf("Adam(learning rate %g, decay %g, %g, %g, %g)", lr, decay, eps, b1, b2)
	x, err := nn.NewAdamOptimizer(lr, decay, eps, b1, b2)
	judgeCall(c, what, lr > 0 && decay >= 0, err)
	if err == nil {
		eqF(c, what+": learning rate", x.LearningRate, lr)
		eqF(c, what+": decay", x.Decay, decay)
		eqF(c, what+": epsilon", x.Epsilon, eps)
		eqF(c, what+": beta 1", x.Beta1, b1)
		eqF(c, what+": beta 2", x.Beta2, b2)
	}
}

// asm is the program's own account of a model under construction.
type asm struct {
	mod, twin *nn.Model
	layers    []nn.Layer
	ls        []*RL
	in, out   int
	loss      nn.Loss
	lossK     LossK
	opt       OptCfg
	acc       int
	prec      float64
	final     bool // finalised and not extended since
	everFinal bool
	optObjs   []nn.Optimizer
}

func (a *asm) check(c *Ctx, what string) {
	m := a.mod
	eqInt(c, what+": model size", m.ModelSize, len(a.layers))
	eqInt(c, what+": number of layers", len(m.Layers), len(a.layers))
	for i := range a.layers {
		if m.Layers[i] != a.layers[i] {
			c.Fail("%s: layer %d is not the layer that was added", what, i)
		}
	}
	if len(a.layers) > 0 {
		eqInt(c, what+": input size", m.InputSize, a.in)
		eqInt(c, what+": output size", m.OutputSize, a.out)
	}
	if !a.everFinal {
		if m.Loss != nil {
			c.Fail("%s: the model has a loss", what)
		}
		eqInt(c, what+": number of optimizers", len(m.Optimizers), 0)
		return
	}
	if m.Loss != a.loss {
		c.Fail("%s: the loss is not the one given", what)
	}
	eqInt(c, what+": loss type", int(m.LossType), int(a.lossK))
	eqInt(c, what+": accuracy type", int(m.AccuracyType), a.acc)
	eqF(c, what+": accuracy precision", m.AccuracyPercision, a.prec)
	eqInt(c, what+": optimizer type", int(m.OptimizerType), int(a.opt.K))
	for k, v := range a.opt.values() {
		got, ok := m.OptimizerValues[k]
		if !ok {
			c.Fail("%s: the model's optimizer values lack %q", what, k)
		}
		eqF(c, what+": optimizer value "+k, got, v)
	}
	if a.optObjs == nil {
		if len(m.Optimizers) != len(a.layers) {
			c.Fail("%s: %d optimizers for %d layers", what, len(m.Optimizers), len(a.layers))
		}
		seen := map[nn.Optimizer]bool{}
		for i, o := range m.Optimizers {
			if seen[o] {
				c.Fail("%s: layer %d shares its optimizer with another", what, i)
			}
			seen[o] = true
			a.checkOpt(c, fmt.Sprintf("%s: optimizer %d", what, i), o)
		}
		a.optObjs = append([]nn.Optimizer{}, m.Optimizers...)
		return
	}
	if len(m.Optimizers) != len(a.optObjs) {
		c.Fail("%s: %d optimizers, were %d", what, len(m.Optimizers), len(a.optObjs))
	}
	for i := range a.optObjs {
		if m.Optimizers[i] != a.optObjs[i] {
			c.Fail("%s: optimizer %d was replaced", what, i)
		}
	}
}

func (a *asm) checkOpt(c *Ctx, what string, o nn.Optimizer) {
	switch x := o.(type) {
	case *nn.SGDOptimizer:
		eqInt(c, what+": type", 0, int(a.opt.K))
		eqF(c, what+": learning rate", x.LearningRate, a.opt.LR)
		eqF(c, what+": decay", x.Decay, a.opt.Decay)
		eqF(c, what+": momentum", x.Momentum, a.opt.Mom)
	case *nn.AdamOptimizer:
		eqInt(c, what+": type", 1, int(a.opt.K))
		eqF(c, what+": learning rate", x.LearningRate, a.opt.LR)
		eqF(c, what+": decay", x.Decay, a.opt.Decay)
		eqF(c, what+": epsilon", x.Epsilon, a.opt.Eps)
		eqF(c, what+": beta 1", x.Beta1, a.opt.Beta1)
		eqF(c, what+": beta 2", x.Beta2, a.opt.Beta2)
	default:
		c.Fail("%s has unexpected type %T", what, o)
	}
}

// use runs the same calls on the model and its twin.
func (a *asm) use(c *Ctx, what string) {
	r := c.R
	if len(a.layers) == 0 {
		return
	}
	rows := 1 + r.Intn(5)
	x := genM(r, rows, a.in, vUniform)
	run := func(m *nn.Model, r *rand.Rand) (s string) {
		X := toNN(r, x)
		if a.final {
			y := genTarget(r, a.lossK, rows, a.out)
			if r.Intn(2) == 0 {
				if err := m.Fit(X, toNN(r, y), 1+r.Intn(2), r.Intn(3), nnEmpty(), nnEmpty(), 0); err != nil {
					c.Fail("%s: training refused: %v", what, err)
				}
			}
			l, err := m.CalculateLoss(X, toNN(r, y))
			if err != nil {
				c.Fail("%s: loss refused: %v", what, err)
			}
			q, err := m.CalculateAccuracy(X, toNN(r, y))
			if err != nil {
				c.Fail("%s: accuracy refused: %v", what, err)
			}
			p, err := m.Predict(X)
			if err != nil {
				c.Fail("%s: prediction refused: %v", what, err)
			}
			s += fmt.Sprintf("%x %x %s ", math.Float64bits(l), math.Float64bits(q), bitString(p.M))
		}
		outs, err := m.Forward(X, false)
		if err != nil {
			c.Fail("%s: forward pass refused: %v", what, err)
		}
		eqInt(c, what+": matrices of a forward pass", len(outs), len(a.layers)+1)
		wantShape(c, what+": output", outs[len(outs)-1], rows, a.out)
		for _, o := range outs {
			s += bitString(o.M)
		}
		for _, l := range m.Layers {
			x, _ := layOf(l)
			s += bitString(x.W().M) + bitString(x.B().M)
		}
		return
	}
	seed := r.Int63()
	if g, w := run(a.mod, rand.New(rand.NewSource(seed))), run(a.twin, rand.New(rand.NewSource(seed))); g != w {
		c.Fail("%s: the model behaves differently from one assembled without the refused steps", what)
	}
	c.Cov("uses compared with the twin", 1)
}

func bitString(a M) string {
	s := []byte{}
	for i := range a {
		for j := range a[i] {
			b := math.Float64bits(a[i][j])
			for k := 0; k < 64; k += 8 {
				s = append(s, byte(b>>k))
			}
		}
	}
	return string(s)
}

func runC25(c *Ctx) {
	r := c.R
	for i := 0; i < 3+r.Intn(4); i++ {
		switch r.Intn(4) {
		case 0, 1:
			tryLayer(c)
		case 2:
			tryLoss(c)
		case 3:
			tryOpt(c)
		}
	}
	m1, m2 := nn.NewModel(), nn.NewModel()
	a := &asm{mod: &m1, twin: &m2}
	a.check(c, "new model")
	eqInt(c, "new model: size", m1.ModelSize, 0)
	accepted, refused := 0, 0
	steps, deep := 4+r.Intn(10), false
	if r.Intn(40) == 0 {
		steps, deep = 30+r.Intn(170), true
		c.Cov("deep assemblies", 1)
	}
	for s := 0; s < steps; s++ {
		k := r.Intn(10)
		if deep && k >= 5 && r.Intn(6) != 0 {
			k = 0
		}
		switch {
		case k < 5: // a layer
			in := smallSize(r, 5)
			if len(a.layers) > 0 && (r.Intn(3) != 0 || deep && r.Intn(4) != 0) {
				in = a.out
			}
			out := smallSize(r, 5)
			if r.Intn(600) == 0 {
				if out = wideSize(r); in > 5 {
					out = 1
				} else if len(a.layers) == 0 && r.Intn(2) == 0 {
					in, out = out, in
				}
				c.Cov("wide layers", 1)
			}
			k := Kind(r.Intn(int(nKinds)))
			if k == kSoftmax && out > 5 { // its backward pass takes memory of the square
				k = kSigmoid
			}
			if in > 5 && out > 5 {
				out = 1
			}
			l := genLayer(r, k, in, out, 0.7)
			if l.K == kDropout {
				l.Drop = 0
			}
			if l.In <= 5 && l.Out <= 5 && r.Intn(4) == 0 {
				l.Out = l.In
				l = genLayer(r, l.K, l.In, l.In, 0.7)
				if l.K == kDropout {
					l.Drop = 0
				}
			}
			valid := len(a.layers) == 0 || in == a.out
			what := fmt.Sprintf("step %d, adding %s to a model of %d layers with output size %d", s, l, len(a.layers), a.out)
			c.Desc("add(%s)", l)
			x := l.build(c)
			err := a.mod.AddLayer(x.L)
			if valid != (err == nil) {
				c.Fail("%s: valid is %v but the result is %v", what, valid, err)
			}
			if !valid {
				refused++
				c.Cov("layers refused", 1)
				if a.everFinal {
					c.Cov("refused after finalisation", 1)
				}
			} else {
				accepted++
				c.Cov("layers accepted", 1)
				if err := a.twin.AddLayer(l.build(c).L); err != nil {
					c.Fail("%s: the same step is refused on the twin: %v", what, err)
				}
				if len(a.layers) == 0 {
					a.in = l.In
				}
				if a.final {
					c.Cov("extended after finalisation", 1)
				}
				a.layers, a.ls, a.out, a.final = append(a.layers, x.L), append(a.ls, l), l.Out, false
			}
			a.check(c, what)
		case k < 8: // finalise
			size := smallSize(r, 6)
			if len(a.layers) > 0 && r.Intn(3) != 0 {
				size = a.out
			}
			prec := pick(r, 0, 0.1, 1, r.Float64())
			if r.Intn(5) == 0 {
				prec = -pick(r, 5e-324, 1e-9, 0.1, 1, 1e300)
			}
			lk := LossK(r.Intn(int(nLoss)))
			o := genOpt(r, 1e-3, 0.1)
			acc := r.Intn(3)
			valid := len(a.layers) > 0 && size == a.out && prec >= 0
			what := fmt.Sprintf("step %d, finalising a model of %d layers with output size %d using %s of size %d, %s, precision %g", s, len(a.layers), a.out, lossNames[lk], size, o, prec)
			c.Desc("final(%s %d,%s,%d,%g)", lossNames[lk], size, o, acc, prec)
			loss := buildLoss(c, lk, size)
			err := a.mod.Finalize(loss, o.build(c), nn.AccuracyType(acc), prec)
			if valid != (err == nil) {
				c.Fail("%s: valid is %v but the result is %v", what, valid, err)
			}
			if len(a.layers) == 0 {
				c.Cov("finalisations without layers", 1)
			}
			if !valid {
				refused++
				if prec < 0 {
					c.Cov("finalisations refused for precision", 1)
				} else {
					c.Cov("finalisations refused for size", 1)
				}
				if a.everFinal {
					c.Cov("refused after finalisation", 1)
				}
			} else {
				accepted++
				c.Cov("finalisations accepted", 1)
				if a.everFinal {
					c.Cov("finalised again", 1)
				}
				if err := a.twin.Finalize(buildLoss(c, lk, size), o.build(c), nn.AccuracyType(acc), prec); err != nil {
					c.Fail("%s: the same step is refused on the twin: %v", what, err)
				}
				a.loss, a.lossK, a.opt, a.acc, a.prec, a.final, a.everFinal, a.optObjs = loss, lk, o, acc, prec, true, true, nil
			}
			a.check(c, what)
		default:
			a.use(c, fmt.Sprintf("step %d", s))
			a.check(c, fmt.Sprintf("step %d, after use", s))
		}
	}
	a.use(c, "at the end")
	a.check(c, "at the end")
	if accepted > 0 && refused > 0 {
		c.NT()
	}
}
