package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C10", Quick: 60000, Thorough: 800000, Run: runC10,
		Rule: "a case is one random stack (1 to 6 layers of any kind, any loss) driven through forward/backward passes on several batches; every gradient is compared with independent backpropagation, with central differences of the model's own reported loss, and (softmax with cross-entropy) with the generic path; with active dropout the comparison is under the observed mask; non-trivial when the stack had at least two layers",
		Floors: map[string]int64{"very deep models": 200, "same matrix with other values": 3000, "gradient lists judged": 30000, "numeric derivatives": 8000, "fused paths judged": 2000, "fused versus generic": 500, "loss mse": 2000, "loss mae": 2000, "loss ce": 2000, "loss bce": 2000,
			"deep stacks": 5000, "large batches": 500, "with active dropout": 1500, "repeated backward passes": 5000}})
	register(&Prop{ID: "C11", Quick: 40000, Thorough: 200000, Run: func(c *Ctx) { runOpt(c, oSGD) },
		Rule:   "a case is a set of 1 to 4 SGD optimizers (built by constructor or from saved values) each owning parameters of its own shape, driven by a random interleaving of updates; after every update every parameter is compared with the recurrence; non-trivial with at least 3 updates on one optimizer",
		Floors: map[string]int64{"updates judged": 100000, "elements compared": 1000000, "with momentum": 2500, "with decay": 2500, "interleaved optimizers": 4000, "histories over 1000 steps": 40, "histories over 30000 steps": 3, "extreme gradients": 500, "built from values": 1500, "zero gradients": 1000}})
	register(&Prop{ID: "C12", Quick: 25000, Thorough: 200000, Run: func(c *Ctx) { runOpt(c, oAdam) },
		Rule:   "a case is a set of 1 to 4 Adam optimizers (built by constructor or from saved values) each owning parameters of its own shape, driven by a random interleaving of updates; after every update every parameter is compared with the recurrence; non-trivial with at least 3 updates on one optimizer",
		Floors: map[string]int64{"updates judged": 100000, "elements compared": 1000000, "with decay": 2500, "beta1 differs from beta2": 4000, "interleaved optimizers": 4000, "histories over 1000 steps": 40, "histories over 30000 steps": 3, "extreme gradients": 500, "built from values": 1500, "zero gradients": 1000}})
}

// maskedGrads is backpropagation under the dropout masks visible in outs.
func (m *RModel) maskedGrads(c *Ctx, outs []M, y M) ([]RGrad, bool) {
	n := len(m.L)
	zs := make([]M, n)
	scale := make([]M, n)
	for i, l := range m.L {
		z, mag := l.pre(outs[i])
		zs[i] = z
		if l.nearKink(z, mag) {
			return nil, false
		}
		if l.K == kDropout {
			s := zeros(len(z), l.Out)
			for a := range z {
				for b := range z[a] {
					if z[a][b] > 0 && outs[i+1][a][b] != 0 {
						s[a][b] = 1 / (1 - l.Drop)
					}
				}
			}
			scale[i] = s
		}
	}
	gs := make([]RGrad, n)
	var d M
	for i := n - 1; i >= 0; i-- {
		l := m.L[i]
		var dz M
		if i == n-1 && m.Loss == lCE && l.K == kSoftmax {
			dz = zeros(len(y), l.Out)
			for a := range dz {
				for b := range dz[a] {
					dz[a][b] = (outs[n][a][b] - y[a][b]) / float64(len(y))
				}
			}
		} else {
			if i == n-1 {
				d = rlossGrad(m.Loss, outs[n], y)
			}
			if l.K == kDropout {
				dz = zeros(len(y), l.Out)
				for a := range dz {
					for b := range dz[a] {
						dz[a][b] = d[a][b] * scale[i][a][b]
					}
				}
			} else {
				dz = l.dact(zs[i], outs[i+1], d)
			}
		}
		gs[i].W, gs[i].B, d = l.backPre(outs[i], dz)
	}
	return gs, true
}

func runC10(c *Ctx) {
	r := c.R
	g := genOpts{maxDepth: 4, maxW: 7, kinds: allKinds}
	switch r.Intn(10) {
	case 0:
		g.maxDepth, g.maxW = 6, 4
	case 1:
		g.maxDepth, g.maxW = 3, 25
	}
	m := genModel(r, g)
	deepNow(c, m, 60, 300)
	active := r.Intn(4) == 0
	hasDrop := false
	for _, l := range m.L {
		if l.K == kDropout {
			if !active {
				l.Drop = 0
			} else if l.Drop > 0 {
				hasDrop = true
			}
		}
	}
	c.Desc("%s", m)
	c.Cov("loss "+lossNames[m.Loss], 1)
	if len(m.L) > 1 {
		c.NT()
	}
	if len(m.L) > 2 {
		c.Cov("deep stacks", 1)
	}
	mod := m.build(c)
	fused := m.Loss == lCE && m.L[len(m.L)-1].K == kSoftmax
	for p := 0; p < 1+r.Intn(4); p++ {
		if p > 0 {
			if r.Intn(3) == 0 { // training steps in between
				rows := smallSize(r, 6)
				if err := mod.Fit(toNN(r, genM(r, rows, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, rows, m.out())), 1+r.Intn(2), 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
					c.Fail("training refused: %v", err)
				}
				big := 0.0
				for i, l := range m.L {
					x, _ := layOf(mod.Layers[i])
					l.W, l.B = cloneM(x.W().M), append([]float64(nil), x.B().M[0]...)
					big = math.Max(big, math.Max(maxAbs(l.W), maxAbs(M{l.B})))
				}
				if !(big < 20) {
					break
				}
				c.Cov("parameter changes between passes", 1)
			} else {
				for i, l := range m.L {
					x, _ := layOf(mod.Layers[i])
					if changeParams(c, l, x) {
						c.Cov("parameter changes between passes", 1)
					}
				}
			}
		}
		work := 0
		for _, l := range m.L {
			work += l.In * l.Out
		}
		rows := manyRows(c, genSize(r, 24), work)
		x, y := genM(r, rows, m.in(), []int{vNormal, vUniform, vSparse}[r.Intn(3)]), genTarget(r, m.Loss, rows, m.out())
		X, Y := toNN(r, x), toNN(r, y)
		if r.Intn(4) == 0 { // something else in between
			x2 := genM(r, smallSize(r, 5), m.in(), vNormal)
			if _, err := mod.Predict(toNN(r, x2)); err != nil {
				c.Fail("predict refused: %v", err)
			}
			if _, err := mod.CalculateLoss(toNN(r, x), toNN(r, y)); err != nil {
				c.Fail("loss refused: %v", err)
			}
		}
		outs, err := mod.Forward(X, true)
		if err != nil {
			c.Fail("forward refused: %v", err)
		}
		if len(outs) != len(m.L)+1 {
			c.Fail("forward returned %d matrices for %d layers", len(outs), len(m.L))
		}
		gr, err := mod.Backward(outs, Y)
		if err != nil {
			c.Fail("backward refused: %v", err)
		}
		what := fmt.Sprintf("pass %d on %d rows, %s", p, rows, m)
		if hasDrop {
			var om []M
			for i := range outs {
				om = append(om, fromNN(c, "output", outs[i]))
			}
			ref, ok := m.maskedGrads(c, om, y)
			if !ok {
				continue
			}
			// the outputs are the observed ones, so errors are amplified by the backward
			// pass only: mild as long as the loss's own gradient is moderate
			mild := true
			pr := om[len(om)-1]
			for i := range pr {
				for j, p := range pr[i] {
					switch m.Loss {
					case lMAE:
						mild = mild && math.Abs(p-y[i][j]) > 1e-6
					case lCE, lBCE:
						mild = mild && p > 1e-3 && p < 1-1e-3
					}
				}
			}
			if mild {
				sc := maxAbs(rlossGrad(m.Loss, pr, y))
				for i := range ref {
					sc = math.Max(sc, math.Max(maxAbs(ref[i].W), maxAbs(M{ref[i].B})))
				}
				for _, o := range om {
					sc = math.Max(sc, maxAbs(o))
				}
				judgeModelGrads(c, "under the observed dropout masks, "+what, m, gr, ref, 1e-7*sc)
				c.Cov("with active dropout", 1)
			}
			continue
		}
		m.ambiguous = false
		ref := m.grads(x, y)
		if m.ambiguous {
			c.Cov("skipped near a kink", 1)
			continue
		}
		tol := m.gradTol(r, x, y, ref)
		judgeModelGrads(c, what, m, gr, ref, tol)
		c.Cov("gradient lists judged", 1)
		if fused {
			c.Cov("fused paths judged", 1)
		}
		if r.Intn(3) == 0 {
			gr2, err := mod.Backward(outs, Y)
			if err != nil {
				c.Fail("repeated backward pass refused: %v", err)
			}
			judgeModelGrads(c, "repeated, "+what, m, gr2, ref, tol)
			c.Cov("repeated backward passes", 1)
		}
		if fused {
			genericVersusFused(c, m, mod, outs, Y, y, gr, what)
		}
		if r.Intn(3) == 0 { // the same target matrix holding other values
			y2 := genTarget(r, m.Loss, rows, m.out())
			for i := range y2 {
				copy(Y.M[i], y2[i])
			}
			m.ambiguous = false
			ref := m.grads(x, y2)
			if !m.ambiguous {
				gr3, err := mod.Backward(outs, Y)
				if err != nil {
					c.Fail("backward pass with other targets refused: %v", err)
				}
				judgeModelGrads(c, "other values in the same target matrix, "+what, m, gr3, ref, m.gradTol(r, x, y2, ref))
				c.Cov("same matrix with other values", 1)
			}
		}
		if r.Intn(2) == 0 {
			numericModel(c, m, mod, x, y, gr)
		}
	}
}

// genericVersusFused recomputes the gradients through the loss's own gradient and the
// layers' backward passes.
func genericVersusFused(c *Ctx, m *RModel, mod *nn.Model, outs []nn.Matrix, Y nn.Matrix, y M, gr []nn.Gradients, what string) {
	n := len(m.L)
	p := outs[n].M
	for i := range p {
		for j := range p[i] {
			if p[i][j] < 1e-4 {
				return // the loss's clamp is (or may come) into play
			}
		}
	}
	d, err := mod.Loss.Backward(outs[n], Y)
	if err != nil {
		c.Fail("loss gradient refused: %v", err)
	}
	for i := n - 1; i >= 0; i-- {
		dW, dB, dX, err := mod.Layers[i].Backward(outs[i], d)
		if err != nil {
			c.Fail("layer backward refused: %v", err)
		}
		g := gr[n-1-i]
		t := 1e-9 * (1 + maxAbs(outs[i].M)) * (1 + maxAbs(g.DWeights.M) + maxAbs(g.DBiases.M))
		checkClose(c, fmt.Sprintf("generic versus specialised weight gradient of layer %d, %s", i, what), dW.M, g.DWeights.M, constTol(t))
		checkClose(c, fmt.Sprintf("generic versus specialised bias gradient of layer %d, %s", i, what), dB.M, g.DBiases.M, constTol(t))
		d = dX
	}
	c.Cov("fused versus generic", 1)
}

// numericModel compares gradients with differences of the reported loss along a random
// direction in all parameters of one layer.
func numericModel(c *Ctx, m *RModel, mod *nn.Model, x, y M, gr []nn.Gradients) {
	r := c.R
	li := r.Intn(len(m.L))
	l := m.L[li]
	g := gr[len(m.L)-1-li]
	uW, uB := genScaled(r, l.In, l.Out, 1), genScaled(r, 1, l.Out, 1)
	lay, _ := layOf(mod.Layers[li])
	X, Y := toNN(r, x), toNN(r, y)
	if m.Loss == lCE || m.Loss == lBCE {
		// where the reported loss is clamped it is flat, whatever the gradient
		for _, row := range m.predictRaw(x) {
			for _, p := range row {
				if p < 1e-6 || p > 1-1e-6 {
					return
				}
			}
		}
	}
	at := func(h float64) float64 {
		n := m.clone()
		nl := n.L[li]
		nl.W = axpy(l.W, uW, h)
		nl.B = axpy(M{l.B}, uB, h)[0]
		nl.load(c, lay)
		v, err := mod.CalculateLoss(X, Y)
		if err != nil {
			c.Fail("loss refused: %v", err)
		}
		return v
	}
	want, _ := sumProd(uW, g.DWeights.M)
	w2, _ := sumProd(uB, g.DBiases.M)
	want += w2
	defer l.load(c, lay)
	signs0 := signature(m, x, y)
	est := make([]float64, 0, 2)
	for _, h := range []float64{1e-5, 2e-5} {
		n := m.clone()
		for _, sgn := range []float64{1, -1} {
			n.L[li].W, n.L[li].B = axpy(l.W, uW, sgn*h), axpy(M{l.B}, uB, sgn*h)[0]
			if signature(n, x, y) != signs0 {
				return // a kink lies between
			}
		}
		up := at(h)
		dn := at(-h)
		est = append(est, (up-dn)/(2*h))
	}
	j := rloss(m.Loss, m.predictRaw(x), y)
	// step doubling bounds the curvature error
	curv := math.Abs(est[0]-est[1]) * 4
	noise := 1e-14 * (1 + math.Abs(j)) / 1e-5 * 100
	if curv > 0.05*math.Abs(want)+1e-6 {
		return
	}
	if !(math.Abs(est[0]-want) <= 1e-4*math.Abs(want)+curv+noise+1e-7) {
		c.Fail("loss of %s changes along a direction in layer %d at rate %v, gradients say %v (step doubling %v)", m, li, est[0], want, est[1])
	}
	c.Cov("numeric derivatives", 1)
}

// signature lists on which side of every kink the network is.
func signature(m *RModel, x, y M) string {
	zs, outs := m.forward(x)
	b := make([]byte, 0, 64)
	bit := func(v bool) {
		if v {
			b = append(b, '1')
		} else {
			b = append(b, '0')
		}
	}
	for i, l := range m.L {
		if l.K == kHidden || l.K == kLeaky || l.K == kDropout {
			for a := range zs[i] {
				for _, v := range zs[i][a] {
					bit(v > 0)
				}
			}
		}
	}
	p := outs[len(outs)-1]
	for i := range p {
		for j, v := range p[i] {
			switch m.Loss {
			case lMAE:
				bit(v > y[i][j])
			case lCE, lBCE:
				bit(v < 1e-7)
				bit(v > 1-1e-7)
			}
		}
	}
	return string(b)
}

// ---- optimizers ----

type optUnit struct {
	o      nn.Optimizer
	cfg    OptCfg
	W, B   *nn.Matrix
	rw, rb *ROpt
	w, b   []float64 // reference parameters
	tw, tb []float64 // accumulated tolerance
	mw, mb []float64 // magnitude of the first moment / velocity
	n      int
}

func buildOptFromValues(c *Ctx, o OptCfg) nn.Optimizer {
	v := map[string]float64{"learningRate": o.LR, "decay": o.Decay}
	t := nn.OptimizerType(nn.SGDOptimizerType)
	if o.K == oSGD {
		v["momentum"] = o.Mom
	} else {
		t = nn.AdamOptimizerType
		v["epsilon"], v["beta1"], v["beta2"] = o.Eps, o.Beta1, o.Beta2
	}
	x, err := nn.NewOptimizerFromType(t, v)
	if err != nil {
		c.Fail("optimizer from values refused %s: %v", o, err)
	}
	return x
}

func runOpt(c *Ctx, kind OptK) {
	r := c.R
	nu := 1 + r.Intn(4)
	if nu > 1 {
		c.Cov("interleaved optimizers", 1)
	}
	shared := r.Intn(2) == 0
	var cfg0 OptCfg
	gk := r.Intn(6)
	gmag := logUniform(r, 1e-6, 1e4)
	if r.Intn(6) == 0 {
		gmag = logUniform(r, 1e-90, 1e90)
		c.Cov("extreme gradients", 1)
	}
	near := gmag < 1e-2 && r.Intn(3) > 0 // parameters no larger than the gradients
	if near {
		gk = []int{1, 1, 3}[r.Intn(3)]
		c.Cov("parameters as small as their gradients", 1)
	}
	us := make([]*optUnit, nu)
	for i := range us {
		cfg := genOpt(r, 1e-4, 1)
		cfg.K = kind
		if kind == oSGD {
			cfg.Mom = 0
			if r.Intn(2) == 0 {
				cfg.Mom = pick(r, 0.1, 0.5, 0.9, 0.95, 0.999, 1, 1.01, r.Float64())
			}
		} else {
			cfg.Mom = 0
			cfg.Eps = pick(r, 1e-8, 1e-7, 1e-5, 1e-3, 1e-2, 0.1, 1)
			cfg.Beta1 = pick(r, 0.9, 0.9, 0.5, 0.99, 0, 0.7*r.Float64())
			cfg.Beta2 = pick(r, 0.999, 0.999, 0.9, 0.99, 0.9999, 0, 0.95*r.Float64())
			if r.Intn(5) == 0 {
				cfg.Beta1 = pick(r, 0.999, 0.9999)
			}
			if r.Intn(10) == 0 {
				cfg.Beta2 = 1 - logUniform(r, 1e-6, 1e-3)
				c.Cov("averages over very many steps", 1)
			}
			if r.Intn(20) == 0 {
				cfg.Beta1 = 1 - logUniform(r, 1e-6, 1e-3)
				c.Cov("averages over very many steps", 1)
			}
		}
		if r.Intn(6) == 0 {
			cfg.LR = logUniform(r, 1e-12, 1e6)
			c.Cov("unusual learning rates", 1)
		}
		if r.Intn(6) == 0 {
			cfg.Decay = logUniform(r, 1e-11, 1e5)
			c.Cov("unusual decays", 1)
		}
		if kind == oSGD && r.Intn(8) == 0 {
			cfg.Mom = logUniform(r, 1e-10, 0.1)
			c.Cov("tiny momenta", 1)
		}
		if i == 0 {
			cfg0 = cfg
		} else if shared {
			cfg = cfg0
		}
		if cfg.Decay > 0 {
			c.Cov("with decay", 1)
		}
		if cfg.Mom > 0 {
			c.Cov("with momentum", 1)
		}
		if kind == oAdam && cfg.Beta1 != cfg.Beta2 {
			c.Cov("beta1 differs from beta2", 1)
		}
		u := &optUnit{cfg: cfg}
		if r.Intn(3) == 0 {
			u.o = buildOptFromValues(c, cfg)
			c.Cov("built from values", 1)
		} else {
			u.o = cfg.build(c)
		}
		in, out := square(r, smallSize(r, 7), smallSize(r, 7))
		if r.Intn(20) == 0 {
			in, out = genSize(r, 60), genSize(r, 60)
		}
		w, b := genM(r, in, out, vNormal), genM(r, 1, out, vNormal)
		if near {
			zero := r.Intn(2) == 0
			for _, x := range []M{w, b} {
				for i := range x {
					for j := range x[i] {
						x[i][j] *= gmag
						if zero {
							x[i][j] = 0
						}
					}
				}
			}
		}
		W, B := toNN(r, w), toNN(r, b)
		u.W, u.B, u.w, u.b = &W, &B, flat(w), flat(b)
		u.rw, u.rb = newROpt(cfg, in*out), newROpt(cfg, out)
		u.tw, u.tb = make([]float64, in*out), make([]float64, out)
		u.mw, u.mb = make([]float64, in*out), make([]float64, out)
		us[i] = u
		c.Desc("%s on %dx%d", cfg, in, out)
	}
	steps := 1 + r.Intn(40)
	if r.Intn(50) == 0 && us[0].W.Rows*us[0].W.Cols < 50 {
		steps = 1000 + r.Intn(3000)
		us = us[:1+r.Intn(len(us))]
		c.Cov("histories over 1000 steps", 1)
	} else if r.Intn(150) == 0 && us[0].W.Rows*us[0].W.Cols < 6 {
		steps = []int{33000, 66000, 66000}[r.Intn(3)]
		us = us[:1]
		c.Cov("histories over 30000 steps", 1)
	}
	c.Desc("steps=%d", steps)
	for s := 0; s < steps; s++ {
		u := us[r.Intn(len(us))]
		in, out := u.W.Rows, u.W.Cols
		gen := func(rows, cols int) M {
			g := zeros(rows, cols)
			for i := range g {
				for j := range g[i] {
					switch gk {
					case 0:
						g[i][j] = r.NormFloat64()
					case 1:
						g[i][j] = r.NormFloat64() * gmag
					case 2: // sparse
						if r.Intn(4) == 0 {
							g[i][j] = r.NormFloat64()
						}
					case 3: // constant sign
						g[i][j] = gmag * (1 + r.Float64())
					case 4: // widely varying
						g[i][j] = r.NormFloat64() * math.Pow(10, float64(r.Intn(9)-4))
					case 5: // dies out
						g[i][j] = r.NormFloat64() * math.Exp(-float64(s)/3)
						if s > 30 {
							g[i][j] = 0
						}
					}
				}
			}
			return g
		}
		gw, gb := gen(in, out), gen(1, out)
		if r.Intn(30) == 0 {
			gw = zeros(in, out)
			c.Cov("zero gradients", 1)
		}
		if r.Intn(30) == 0 {
			gb = zeros(1, out)
			c.Cov("zero gradients", 1)
		}
		GW, GB := toNN(r, gw), toNN(r, gb)
		// every other optimizer's parameters must stay
		var others []M
		for _, v := range us {
			others = append(others, cloneM(v.W.M), cloneM(v.B.M))
		}
		if err := u.o.Update(u.W, u.B, GW, GB); err != nil {
			c.Fail("%s refused matching gradients at step %d: %v", u.cfg, u.n, err)
		}
		u.n++
		if u.n >= 3 {
			c.NT()
		}
		if !sameBits(GW.M, gw) || !sameBits(GB.M, gb) {
			c.Fail("%s changed the gradients passed to it at step %d", u.cfg, u.n)
		}
		if r.Intn(3) == 0 { // the caller reuses its gradient buffers
			for i := range GW.M {
				for j := range GW.M[i] {
					GW.M[i][j] = 1e3 * r.NormFloat64()
				}
			}
			for j := range GB.M[0] {
				GB.M[0][j] = 1e3 * r.NormFloat64()
			}
			c.Cov("gradient buffers reused", 1)
		}
		for i, v := range us {
			if v != u && (!sameBits(v.W.M, others[2*i]) || !sameBits(v.B.M, others[2*i+1])) {
				c.Fail("an update of one optimizer changed the parameters of another")
			}
		}
		u.judge(c, "weights", gw, u.W, u.rw, u.w, u.tw, u.mw)
		u.judge(c, "biases", gb, u.B, u.rb, u.b, u.tb, u.mb)
		c.Cov("updates judged", 1)
	}
}

func (u *optUnit) judge(c *Ctx, what string, g M, P *nn.Matrix, ro *ROpt, p, tol, mag []float64) {
	rate := u.cfg.LR / (1 + u.cfg.Decay*float64(ro.t))
	gf := flat(g)
	mOld, vOld := append([]float64(nil), ro.m...), append([]float64(nil), ro.v...)
	if ro.errM == nil {
		ro.errM, ro.errV = make([]float64, len(gf)), make([]float64, len(gf))
	}
	d := ro.step(gf)
	got := flat(wantShape(c, what, *P, len(g), len(g[0])))
	worst, at := 0.0, -1
	for i := range p {
		p[i] += d[i]
		// rounding allowance of this step
		if u.cfg.K == oSGD {
			mag[i] = u.cfg.Mom*mag[i] + rate*math.Abs(gf[i])
			tol[i] += 1e-12 * (mag[i] + math.Abs(p[i]))
		} else {
			mag[i] = u.cfg.Beta1*mag[i] + (1-u.cfg.Beta1)*math.Abs(gf[i])
			mh := mag[i] / (1 - math.Pow(u.cfg.Beta1, float64(ro.t)))
			vh := ro.v[i] / (1 - math.Pow(u.cfg.Beta2, float64(ro.t)))
			tol[i] += 1e-11*rate*mh/(math.Sqrt(vh)+u.cfg.Eps) + 1e-13*math.Abs(p[i])
			// rounding of the averages, were they updated as m + (1-beta)(g-m)
			ro.errM[i] = u.cfg.Beta1*ro.errM[i] + 1e-15*(math.Abs(mOld[i])+math.Abs(gf[i]))
			ro.errV[i] = u.cfg.Beta2*ro.errV[i] + 1e-15*(vOld[i]+gf[i]*gf[i])
			em := ro.errM[i] / (1 - math.Pow(u.cfg.Beta1, float64(ro.t)))
			ev := ro.errV[i] / (1 - math.Pow(u.cfg.Beta2, float64(ro.t)))
			if ev > 1e-4*vh { // the average is nothing but rounding
				tol[i] = math.Inf(1)
				c.Cov("elements lost to rounding", 1)
			} else if vh > 0 {
				s := math.Sqrt(vh)
				tol[i] += rate / (s + u.cfg.Eps) * (em + mh*ev/(s*(s+u.cfg.Eps)))
			}
		}
		e := math.Abs(got[i] - p[i])
		if !(e <= tol[i]*10+1e-300) && finite(p[i]) && math.Abs(p[i]) < 1e200 {
			if at < 0 || e > worst {
				worst, at = e, i
			}
		}
	}
	c.Cov("elements compared", len(p))
	if at >= 0 {
		c.Fail("%s: after update %d the %s element %d is %v, want %v (gradient %v)", u.cfg, ro.t, what, at, got[at], p[at], gf[at])
	}
}
