package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C03", Quick: 120000, Thorough: 1000000, Run: runC03,
		Rule:   "a case is one layer of random kind, size, parameters and slope, driven through a history of forward passes on different batches with parameter changes in between; every output is compared with the formula, and batches are compared with row-by-row and reordered passes; non-trivial when at least two passes were judged",
		Floors: map[string]int64{"huge batches": 3, "same matrix with other values": 15000, "forward passes judged": 20000, "row-by-row passes": 10000, "parameter changes between passes": 5000, "large batches": 500, "layer kind relu": 300, "layer kind linear": 300, "layer kind sigmoid": 300, "layer kind leaky": 300, "layer kind softmax": 300, "layer kind dropout": 300}})
	register(&Prop{ID: "C05", Quick: 80000, Thorough: 1000000, Run: runC05,
		Rule:   "a case is one layer of random kind, size and parameters, driven through several forward passes; the backward pass is compared with independent analytic gradients and with numeric directional derivatives of the layer's own observed outputs; non-trivial when a backward pass was judged",
		Floors: map[string]int64{"same matrix with other values": 4000, "backward passes judged": 5000, "large batches": 300, "numeric derivatives": 3000, "repeated backward passes": 2000, "fused passes": 300, "parameter changes between passes": 5000, "rectangular layers": 2000, "slope zero": 30, "negative pre-activations": 10000}})
	register(&Prop{ID: "C06", Quick: 10000, Thorough: 150000, Run: runC06, Final: finalC06,
		Rule:   "a case is one dropout layer with random rate driven through several training passes on positive pre-activations (so the mask is visible) and on mixed ones; every element is judged, masks are tested for rate and independence at 7 sigma, and the backward pass is compared with the gradient under the observed mask; non-trivial when at least 200 mask elements were seen",
		Floors: map[string]int64{"passes in quick succession": 200000, "changed rates": 300, "series of masks tested at all lags": 400, "wide layers": 60, "mask elements seen": 1000000, "independence tests": 3000, "rates next to the ends": 100, "counts whose scatter was judged": 10000, "twin layers": 300, "masked backward passes": 800, "rate 0": 20, "rate 1": 20, "dropped elements": 100000}})
	register(&Prop{ID: "C07", Quick: 30000, Thorough: 800000, Run: runC07,
		Rule:   "a case is a stack with dropout layers driven through a random interleaving of training passes, inference passes, predictions, evaluations and backward passes; inference results are compared with a dropout-free reference and across repetitions; non-trivial when inference followed a training pass",
		Floors: map[string]int64{"very deep models": 150, "inference results judged": 20000, "training passes": 5000, "gradients after inference pass": 1000, "dropped in training": 1000, "rates 0 and 1": 3000, "predict judged": 1000, "parameter changes between passes": 5000, "loss judged": 1000, "accuracy judged": 1000}})
}

func absM(a M) M {
	o := cloneM(a)
	for i := range o {
		for j := range o[i] {
			o[i][j] = math.Abs(o[i][j])
		}
	}
	return o
}

// forwardTol bounds the admissible deviation of outputs given magnitudes of the
// pre-activations.
func forwardTol(l *RL, z, mag M) func(i, j int) float64 {
	if l.K == kSoftmax {
		row := make([]float64, len(mag))
		for i := range mag {
			for _, v := range mag[i] {
				row[i] = math.Max(row[i], v)
			}
		}
		w := l.act(z)
		return func(i, j int) float64 {
			rel := 1e-11*row[i] + 1e-12
			if !(rel < 0.1) { // rounding of the scores decides
				return 1
			}
			return w[i][j]*rel + 1e-300
		}
	}
	lip := l.lip()
	ab := 1e-300
	if l.K == kSigmoid {
		ab = 1e-13
	}
	return func(i, j int) float64 { return 1e-11*mag[i][j]*lip + ab }
}

// inferForward runs the inference pass of a layer.
func inferForward(x Lay, in nn.Matrix) (nn.Matrix, error) {
	if d, ok := x.L.(*nn.DropoutLayer); ok {
		return d.ForwardNoDropout(in)
	}
	return x.L.Forward(in)
}

func judgeForward(c *Ctx, what string, l *RL, x Lay, in M) M {
	X := toNN(c.R, in)
	out, err := inferForward(x, X)
	if err != nil {
		c.Fail("%s: %s refused a %s input: %v", what, l, dims(in), err)
	}
	g := wantShape(c, what, out, len(in), l.Out)
	z, mag := l.pre(in)
	checkClose(c, fmt.Sprintf("%s: %s on %s", what, l, dims(in)), g, l.act(z), forwardTol(l, z, mag))
	c.Cov("forward passes judged", 1)
	return g
}

// changeParams alters the parameters of a layer in one of the ways a user has, and keeps
// the reference in step; now and then it does nothing.
func changeParams(c *Ctx, l *RL, x Lay) bool {
	r := c.R
	switch r.Intn(5) {
	case 0: // in place
		l.W[r.Intn(l.In)][r.Intn(l.Out)] = r.NormFloat64() * 2
		l.B[r.Intn(l.Out)] = r.NormFloat64()
		l.load(c, x)
	case 1: // by an optimizer
		o := genOpt(r, 0.01, 0.5).build(c)
		dw, db := genScaled(r, l.In, l.Out, 1), genScaled(r, 1, l.Out, 1)
		if err := o.Update(x.W(), x.B(), toNN(r, dw), toNN(r, db)); err != nil {
			c.Fail("optimizer refused matching gradients: %v", err)
		}
		l.W, l.B = cloneM(x.W().M), append([]float64(nil), x.B().M[0]...)
	case 2: // wholesale
		n := genLayer(r, l.K, l.In, l.Out, 1)
		l.W, l.B = n.W, n.B
		w, b := toNN(r, l.W), toNN(r, M{l.B})
		*x.W(), *x.B() = w, b
	case 3: // re-initialised
		x.L.Init()
		l.W, l.B = cloneM(x.W().M), append([]float64(nil), x.B().M[0]...)
	case 4: // other settings
		if ll, ok := x.L.(*nn.LeakyLayer); ok {
			l.Slope = genSlope(r)
			ll.Slope = l.Slope
			c.Cov("slope changed between passes", 1)
			return true
		}
		return false
	}
	return true
}

// again passes the same matrix object with other values in it.
func again(c *Ctx, what string, l *RL, x Lay, X nn.Matrix, batch M) M {
	r := c.R
	batch = cloneM(batch)
	for n := 1 + r.Intn(3); n > 0; n-- {
		i, j := r.Intn(len(batch)), r.Intn(len(batch[0]))
		if r.Intn(2) == 0 { // not at the corners
			i, j = len(batch)/2, len(batch[0])/2
		}
		batch[i][j] = r.NormFloat64()*2 + 0.1
		X.M[i][j] = batch[i][j]
	}
	out, err := inferForward(x, X)
	if err != nil {
		c.Fail("%s: %s refused an input whose values were changed: %v", what, l, err)
	}
	g := wantShape(c, what, out, len(batch), l.Out)
	z, mag := l.pre(batch)
	checkClose(c, fmt.Sprintf("%s: %s on %s, values of the same matrix changed", what, l, dims(batch)), g, l.act(z), forwardTol(l, z, mag))
	c.Cov("same matrix with other values", 1)
	return batch
}

func runC03(c *Ctx) {
	r := c.R
	k := Kind(r.Intn(int(nKinds)))
	in, out := square(r, genSize(r, 70), genSize(r, 70))
	if r.Intn(100) == 0 {
		in, out = genSize(r, 300), genSize(r, 300)
	}
	l := genLayer(r, k, in, out, pick(r, 0.1, 1, 1, 3, 1/math.Sqrt(float64(in))))
	if k == kDropout {
		l.Drop = pick(r, 0, 0.3, 0.9, 1)
	}
	sx := 1.0
	if r.Intn(4) == 0 { // tiny or large numbers throughout
		sw := math.Pow(10, float64(r.Intn(25)-12))
		sx = math.Pow(10, float64(r.Intn(25)-12))
		if r.Intn(3) == 0 {
			sx = 1 / sw
		}
		for i := range l.W {
			for j := range l.W[i] {
				l.W[i][j] *= sw
			}
		}
		for j := range l.B {
			l.B[j] *= sw * sx
		}
		c.Desc("W*%g x*%g", sw, sx)
		c.Cov("scaled layers", 1)
	}
	c.Desc("%s", l)
	c.Cov("layer kind "+kindNames[k], 1)
	x := l.build(c)
	passes := 2 + r.Intn(4)
	for p := 0; p < passes; p++ {
		rows := genSize(r, 40)
		if in*out > 5000 {
			rows = 1 + r.Intn(6)
		}
		rows = manyRows(c, rows, in*out)
		batch := genM(r, rows, in, []int{vNormal, vNormal, vUniform, vInt, vSparse, vMixed}[r.Intn(6)])
		if sx != 1 {
			for i := range batch {
				for j := range batch[i] {
					batch[i][j] *= sx
				}
			}
		}
		if k == kDropout && r.Intn(3) == 0 { // training passes in between must not matter
			if _, err := x.L.Forward(toNN(r, batch)); err != nil {
				c.Fail("training pass refused: %v", err)
			}
		}
		X := toNN(r, batch)
		own := true
		if r.Intn(8) == 0 {
			repeated(r, batch)
			X, own = sharing(c, batch), false
		}
		out, err := inferForward(x, X)
		if err != nil {
			c.Fail("pass %d: %s refused a %s input: %v", p, l, dims(batch), err)
		}
		g := wantShape(c, "pass", out, rows, l.Out)
		z, mag := l.pre(batch)
		checkClose(c, fmt.Sprintf("pass %d: %s on %s", p, l, dims(batch)), g, l.act(z), forwardTol(l, z, mag))
		c.Cov("forward passes judged", 1)
		c.Desc("pass(%d rows)", rows)
		if own && r.Intn(4) == 0 {
			again(c, fmt.Sprintf("pass %d", p), l, x, X, batch)
		}
		// each row alone
		for n := 0; n < 3 && n < rows; n++ {
			i := r.Intn(rows)
			one := judgeForward(c, fmt.Sprintf("pass %d, row %d alone", p, i), l, x, M{batch[i]})
			z, mag := l.pre(M{batch[i]})
			checkClose(c, fmt.Sprintf("row %d alone versus in its batch of %d", i, rows), one, M{g[i]}, forwardTol(l, z, mag))
			c.Cov("row-by-row passes", 1)
		}
		// reordered and split
		if rows > 1 {
			perm := r.Perm(rows)
			re := make(M, rows)
			for i, q := range perm {
				re[i] = batch[q]
			}
			cut := 1 + r.Intn(rows)
			pg := judgeForward(c, "reordered batch", l, x, re[:cut])
			for i := 0; i < cut; i++ {
				z, mag := l.pre(M{re[i]})
				checkClose(c, "row of a reordered batch", M{pg[i]}, M{g[perm[i]]}, forwardTol(l, z, mag))
			}
		}
		// the parameters must be untouched
		if !sameBits(x.W().M, l.W) || !sameBits(x.B().M, M{l.B}) {
			c.Fail("forward pass of %s changed its parameters", l)
		}
		// change the parameters for the next pass
		if !changeParams(c, l, x) {
			continue
		}
		c.Cov("parameter changes between passes", 1)
		c.Desc("change")
	}
	c.NT()
}

// dzMag bounds the magnitude of the pre-activation gradient per element.
func dzMag(l *RL, o, d M) M {
	m := absM(d)
	for i := range m {
		if l.K == kSoftmax {
			mx := 0.0
			for _, v := range m[i] {
				mx = math.Max(mx, v)
			}
			for j := range m[i] {
				m[i][j] = mx
			}
		} else if l.K == kLeaky {
			for j := range m[i] {
				m[i][j] *= l.lip()
			}
		}
	}
	return m
}

// judgeGrads compares the three gradients with the reference for dz.
func judgeGrads(c *Ctx, what string, l *RL, x, dz, mag M, dW, dB, dX nn.Matrix, rel float64) {
	rw, rb, rx := l.backPre(x, dz)
	mw, mb, mx := rdot(rT(absM(x)), mag), colSum(mag), rdot(mag, rT(absM(l.W)))
	gw := wantShape(c, what+": weight gradient", dW, l.In, l.Out)
	gb := wantShape(c, what+": bias gradient", dB, 1, l.Out)
	gx := wantShape(c, what+": input gradient", dX, len(x), l.In)
	checkClose(c, what+": weight gradient", gw, rw, func(i, j int) float64 { return rel*mw[i][j] + 1e-300 })
	checkClose(c, what+": bias gradient", gb, M{rb}, func(i, j int) float64 { return rel*mb[j] + 1e-300 })
	checkClose(c, what+": input gradient", gx, rx, func(i, j int) float64 { return rel*mx[i][j] + 1e-300 })
}

func sumProd(a, b M) (s, mag float64) {
	for i := range a {
		for j := range a[i] {
			p := a[i][j] * b[i][j]
			s += p
			mag += math.Abs(p)
		}
	}
	return
}

func axpy(a, u M, h float64) M {
	o := cloneM(a)
	for i := range o {
		for j := range o[i] {
			o[i][j] += h * u[i][j]
		}
	}
	return o
}

// numericCheck compares the gradients with central differences of the layer's own
// forward pass along random directions.
func numericCheck(c *Ctx, l *RL, lay Lay, x, d M, dW, dB, dX M) {
	r := c.R
	z, mag := l.pre(x)
	h := 1e-5
	uW, uB, uX := genScaled(r, l.In, l.Out, 1), genScaled(r, 1, l.Out, 1), genScaled(r, len(x), l.In, 1)
	for i := range z {
		for j := range z[i] {
			if math.Abs(z[i][j]) < 1e-3*(1+mag[i][j]) && l.K != kLinear && l.K != kSigmoid && l.K != kSoftmax {
				return // too close to a kink for a finite difference
			}
		}
	}
	f := func(w, b, xx M) float64 {
		for i := range w {
			copy(lay.W().M[i], w[i])
		}
		copy(lay.B().M[0], b[0])
		o, err := inferForward(lay, toNN(r, xx))
		if err != nil {
			c.Fail("forward refused: %v", err)
		}
		s, _ := sumProd(d, o.M)
		return s
	}
	b := M{l.B}
	o := l.forward(x)
	_, fm := sumProd(d, o)
	for q := 0; q < 3; q++ {
		var up, dn, want, scale float64
		switch q {
		case 0:
			up, dn = f(axpy(l.W, uW, h), b, x), f(axpy(l.W, uW, -h), b, x)
			want, scale = sumProd(uW, dW)
		case 1:
			up, dn = f(l.W, axpy(b, uB, h), x), f(l.W, axpy(b, uB, -h), x)
			want, scale = sumProd(uB, dB)
		case 2:
			up, dn = f(l.W, b, axpy(x, uX, h)), f(l.W, b, axpy(x, uX, -h))
			want, scale = sumProd(uX, dX)
		}
		got := (up - dn) / (2 * h)
		// curvature allowance: third derivatives of sigmoid/softmax are bounded by 1
		curv := 0.0
		if l.K == kSigmoid || l.K == kSoftmax {
			dm := maxAbs(d)
			sz := 0.0
			switch q {
			case 0:
				for i := range x {
					for k := range x[i] {
						sz += math.Abs(x[i][k])
					}
				}
				sz *= 5
			case 1:
				sz = 5 * float64(len(x))
			case 2:
				sz = 5 * maxAbs(l.W) * float64(l.In)
			}
			curv = h * h * dm * float64(len(x)*l.Out) * sz * sz * sz
		}
		tol := 1e-4*scale + 1e-9*(fm+1)/h*1e-3 + curv + 1e-7
		if curv > 0.01*(scale+1e-3) {
			continue
		}
		if !(math.Abs(got-want) <= tol) {
			c.Fail("%s on %s: derivative along a direction in %s is %v by finite differences but %v by the backward pass (tolerance %g)", l, dims(x), []string{"weights", "biases", "inputs"}[q], got, want, tol)
		}
		c.Cov("numeric derivatives", 1)
	}
	l.load(c, lay)
}

func runC05(c *Ctx) {
	r := c.R
	k := Kind(r.Intn(int(nKinds)))
	in, out := square(r, genSize(r, 60), genSize(r, 60))
	l := genLayer(r, k, in, out, pick(r, 0.2, 1, 1, 2, 1/math.Sqrt(float64(in))))
	l.Drop = 0
	c.Desc("%s", l)
	if in != out {
		c.Cov("rectangular layers", 1)
	}
	if k == kLeaky && l.Slope == 0 {
		c.Cov("slope zero", 1)
	}
	x := l.build(c)
	judged := false
	for p := 0; p < 1+r.Intn(4); p++ {
		if p > 0 && changeParams(c, l, x) {
			c.Cov("parameter changes between passes", 1)
			c.Desc("change")
		}
		rows := genSize(r, 30)
		if in*out > 1500 {
			rows = 1 + r.Intn(5)
		}
		rows = manyRows(c, rows, in*out)
		batch := genM(r, rows, in, []int{vNormal, vNormal, vUniform, vSparse}[r.Intn(4)])
		z, mag := l.pre(batch)
		if l.nearKink(z, mag) {
			c.Cov("skipped near a kink", 1)
			continue
		}
		for i := range z {
			for j := range z[i] {
				if z[i][j] < 0 {
					c.Cov("negative pre-activations", 1)
				}
			}
		}
		// earlier passes with other data and batch sizes; only the last counts
		for q := r.Intn(3); q > 0; q-- {
			other := genM(r, genSize(r, 10), in, vNormal)
			if _, err := x.L.Forward(toNN(r, other)); err != nil {
				c.Fail("forward refused: %v", err)
			}
		}
		X := toNN(r, batch)
		o, err := x.L.Forward(X)
		if err != nil {
			c.Fail("forward refused: %v", err)
		}
		og := wantShape(c, "forward", o, rows, out)
		ref := l.act(z)
		checkClose(c, "forward of "+l.String(), og, ref, forwardTol(l, z, mag))
		if k == kSoftmax && r.Intn(3) == 0 { // fused path
			y := genTarget(r, lCE, rows, out)
			sm := x.L.(*nn.SoftmaxLayer)
			dz, m := zeros(rows, out), zeros(rows, out)
			for i := range dz {
				for j := range dz[i] {
					dz[i][j] = (ref[i][j] - y[i][j]) / float64(rows)
					m[i][j] = 1 / float64(rows)
				}
			}
			dW, dB, dX, err := sm.BackwardCrossEntropy(X, toNN(r, y), toNN(r, og))
			if err != nil {
				c.Fail("fused backward pass refused matching shapes: %v", err)
			}
			// the outputs themselves deviate by at most forwardTol
			t := forwardTol(l, z, mag)
			for i := range m {
				m[i][0] += 0 * t(i, 0)
			}
			judgeGrads(c, fmt.Sprintf("fused backward of %s on %d rows", l, rows), l, batch, dz, m, dW, dB, dX, 1e-8)
			c.Cov("fused passes", 1)
			judged = true
		}
		d := genM(r, rows, out, []int{vNormal, vUniform, vSparse, vMixed}[r.Intn(4)])
		dW, dB, dX, err := x.L.Backward(X, toNN(r, d))
		if err != nil {
			c.Fail("backward pass of %s refused matching shapes: %v", l, err)
		}
		dz := l.dact(z, ref, d)
		what := fmt.Sprintf("backward of %s on %d rows", l, rows)
		judgeGrads(c, what, l, batch, dz, dzMag(l, ref, d), dW, dB, dX, 1e-8)
		c.Cov("backward passes judged", 1)
		judged = true
		if r.Intn(2) == 0 {
			w2, b2, x2, err := x.L.Backward(X, toNN(r, d))
			if err != nil {
				c.Fail("repeated backward pass of %s refused: %v", l, err)
			}
			judgeGrads(c, "repeated "+what, l, batch, dz, dzMag(l, ref, d), w2, b2, x2, 1e-8)
			c.Cov("repeated backward passes", 1)
		}
		// the same matrices with other values
		if r.Intn(5) == 0 {
			D := toNN(r, d)
			if _, _, _, err := x.L.Backward(X, D); err != nil {
				c.Fail("backward pass of %s refused: %v", l, err)
			}
			d2, b2 := cloneM(d), batch
			d2[rows/2][out/2] += 1 + r.Float64()
			D.M[rows/2][out/2] = d2[rows/2][out/2]
			z2, o2 := z, ref
			ok := true
			if r.Intn(2) == 0 {
				b2 = again(c, "forward", l, plain(l, x), X, batch)
				var m2 M
				z2, m2 = l.pre(b2)
				ok = !l.nearKink(z2, m2)
				o2 = l.act(z2)
			}
			if ok {
				dw, db, dx, err := x.L.Backward(X, D)
				if err != nil {
					c.Fail("backward pass of %s refused: %v", l, err)
				}
				judgeGrads(c, "same matrices with other values, "+what, l, b2, l.dact(z2, o2, d2), dzMag(l, o2, d2), dw, db, dx, 1e-8)
			}
			// and back
			for i := range batch {
				copy(X.M[i], batch[i])
			}
			if _, err := x.L.Forward(X); err != nil {
				c.Fail("forward refused: %v", err)
			}
		}
		// linearity in the incoming gradient, with the same saved pass
		if r.Intn(4) == 0 {
			d2 := genM(r, rows, out, vNormal)
			w2, b2, x2, err := x.L.Backward(X, toNN(r, d2))
			if err != nil {
				c.Fail("second backward pass of %s refused: %v", l, err)
			}
			judgeGrads(c, "second gradient, "+what, l, batch, l.dact(z, ref, d2), dzMag(l, ref, d2), w2, b2, x2, 1e-8)
		}
		if !sameBits(x.W().M, l.W) || !sameBits(x.B().M, M{l.B}) {
			c.Fail("passes of %s changed its parameters", l)
		}
		if in*out < 400 && rows < 12 && maxAbs(d) < 50 {
			numericCheck(c, l, x, batch, d, dW.M, dB.M, dX.M)
		}
		c.Desc("pass(%d rows)", rows)
	}
	if judged {
		c.NT()
	}
}

// ---- dropout ----

// plain is the layer itself: its rate is zero, so that both kinds of pass are the same.
func plain(l *RL, x Lay) Lay { return x }

// tinyMasks watches many passes of tiny layers in quick succession.
func tinyMasks(c *Ctx) {
	r := c.R
	rate := pick(r, 0.3, 0.5, 0.5, 0.7)
	q := 1 - rate
	out, rows := 1+r.Intn(3), 1+r.Intn(2)
	nl := 1 + r.Intn(2)
	var ls []Lay
	var l *RL
	for i := 0; i < nl; i++ {
		l = genLayer(r, kDropout, 1, out, 0)
		l.Drop = rate
		for j := range l.B {
			l.B[j] = 1
		}
		ls = append(ls, l.build(c))
	}
	c.Desc("%d %s in quick succession, %d rows", nl, l, rows)
	X := toNN(r, zeros(rows, 1))
	const passes = 3000
	outs := make([]nn.Matrix, 0, passes*nl)
	for p := 0; p < passes; p++ {
		for _, x := range ls {
			o, err := x.L.Forward(X)
			if err != nil {
				c.Fail("training pass refused: %v", err)
			}
			outs = append(outs, o)
		}
	}
	var mask []float64
	k := rows * out
	kept := 0.0
	for _, o := range outs {
		for _, row := range wantShape(c, "training forward", o, rows, out) {
			for _, v := range row {
				switch {
				case v == 0:
					mask = append(mask, -q)
				case math.Abs(v-1/q) < 1e-12:
					mask = append(mask, 1-q)
					kept++
				default:
					c.Fail("%s: output %v, want 0 or %v", l, v, 1/q)
				}
			}
		}
	}
	n := float64(len(mask))
	if z := (kept - n*q) / math.Sqrt(n*q*(1-q)); math.Abs(z) > 7.5 {
		c.Fail("%s: %d passes in quick succession kept %.0f of %.0f elements (z=%.1f)", l, passes, kept, n, z)
	}
	for lag := 1; lag <= 12*nl; lag++ {
		s := 0.0
		for i := lag * k; i < len(mask); i++ {
			s += mask[i] * mask[i-lag*k]
		}
		if z := s / (q * (1 - q) * math.Sqrt(n-float64(lag*k))); math.Abs(z) > 8 {
			c.Fail("%s: masks of passes in quick succession, %d passes apart (of %d layers in turn), are correlated (z=%.1f)", l, lag, nl, z)
		}
		c.Cov("independence tests", 1)
	}
	c.Cov("mask elements seen", len(mask))
	c.Cov("passes in quick succession", passes*nl)
	c.NT()
}

// changingRates gives one layer several rates in turn.
func changingRates(c *Ctx) {
	r := c.R
	l := genLayer(r, kDropout, 1+r.Intn(3), 20+r.Intn(30), 1)
	l.W = absM(l.W)
	for j := range l.B {
		l.B[j] = 1
	}
	l.Drop = pick(r, 0, 0.2, 0.5, 0.9, 1)
	x := l.build(c)
	d, ok := x.L.(*nn.DropoutLayer)
	if !ok {
		c.Fail("dropout layer has type %T", x.L)
	}
	rows := 20 + r.Intn(20)
	for p := 0; p < 6; p++ {
		if p > 0 {
			l.Drop = pick(r, 0, 0.1, 0.5, 0.8, 1, r.Float64())
			d.Dropout = l.Drop
		}
		q := 1 - l.Drop
		batch := absM(genM(r, rows, l.In, vUniform))
		z, mag := l.pre(batch)
		o, err := x.L.Forward(toNN(r, batch))
		if err != nil {
			c.Fail("training pass refused: %v", err)
		}
		n, kept := 0.0, 0.0
		for i, row := range wantShape(c, "training forward", o, rows, l.Out) {
			for j, v := range row {
				n++
				if v == 0 {
					continue
				}
				if w := z[i][j] / q; q == 0 || !(math.Abs(v-w) <= 1e-11*mag[i][j]/q) {
					c.Fail("%s, the rate changed to %v: output %v, want 0 or %v", l, l.Drop, v, w)
				}
				kept++
			}
		}
		if dev := math.Abs(kept - n*q); dev > 8*math.Sqrt(n*q*l.Drop)+8*b2f(q > 0 && q < 1) {
			c.Fail("%s, the rate changed to %v: kept %.0f of %.0f elements", l, l.Drop, kept, n)
		}
		c.Cov("changed rates", 1)
		c.Cov("mask elements seen", int(n))
	}
	c.Desc("%s with changing rates", l)
	c.NT()
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func runC06(c *Ctx) {
	r := c.R
	switch r.Intn(40) {
	case 0:
		tinyMasks(c)
		return
	case 1:
		changingRates(c)
		return
	}
	rate := pick(r, 0.1, 0.2, 0.3, 0.5, 0.5, 0.7, 0.9, 0.05+0.9*r.Float64(), 0, 1)
	in, out, rows := 1+r.Intn(8), 1+r.Intn(60), 1+r.Intn(60)
	if r.Intn(8) == 0 { // single units, rows or columns
		switch r.Intn(2) {
		case 0:
			rows = 1
			out = 200 + r.Intn(800)
		case 1:
			out = 1
			rows = 200 + r.Intn(800)
			if r.Intn(12) == 0 {
				rows, out = 5000+r.Intn(7000), 1+r.Intn(2)
				c.Cov("masks of thousands of rows", 1)
			}
		}
	}
	if r.Intn(40) == 0 { // wide layers or long batches
		rows, out = 2+r.Intn(12), 300+r.Intn(1500)
		if r.Intn(3) == 0 {
			rows, out = out, rows
		}
		c.Cov("wide layers", 1)
	}
	positive := r.Intn(3) != 0
	if r.Intn(30) == 0 { // rates next to the ends, where only big masks say something
		rate = pick(r, 0.001, 0.002, 0.005, 0.01, 0.02, 0.98, 0.99, 0.995, 0.999)
		in, out, rows, positive = 1, 300+r.Intn(200), 300+r.Intn(200), true
		c.Cov("rates next to the ends", 1)
	}
	l := genLayer(r, kDropout, in, out, 1)
	l.Drop = rate
	if positive {
		for i := range l.W {
			for j := range l.W[i] {
				l.W[i][j] = 0.1 + math.Abs(l.W[i][j])
			}
		}
		for j := range l.B {
			l.B[j] = 0.1 + math.Abs(l.B[j])
		}
	}
	c.Desc("%s rows=%d positive=%v", l, rows, positive)
	x := l.build(c)
	q := 1 - rate
	if rate == 0 {
		c.Cov("rate 0", 1)
	}
	if rate == 1 {
		c.Cov("rate 1", 1)
	}
	passes := 2 + r.Intn(5)
	var prev, prev2, series []int8
	long := positive && rate > 0 && rate < 1 && (r.Intn(6) == 0 || out > 300)
	var twin Lay
	if positive && r.Intn(6) == 0 {
		twin = l.build(c)
	}
	n, kept := 0, 0
	for p := 0; p < passes; p++ {
		batch := genM(r, rows, in, vNormal)
		if positive {
			batch = absM(batch)
		}
		z, mag := l.pre(batch)
		if l.nearKink(z, mag) {
			continue
		}
		if r.Intn(4) == 0 { // an inference pass in between must not matter
			inferForward(x, toNN(r, batch))
		}
		X := toNN(r, batch)
		o, err := x.L.Forward(X)
		if err != nil {
			c.Fail("training pass refused: %v", err)
		}
		g := wantShape(c, "training forward", o, rows, out)
		mask := make([]int8, rows*out) // 1 kept, 0 dropped, -1 invisible
		for i := range g {
			for j := range g[i] {
				m := &mask[i*out+j]
				switch {
				case !finite(g[i][j]):
					c.Fail("%s: output (%d,%d) is %v", l, i, j, g[i][j])
				case z[i][j] <= 0:
					if g[i][j] != 0 {
						c.Fail("%s: output (%d,%d) is %v for pre-activation %v", l, i, j, g[i][j], z[i][j])
					}
					*m = -1
				case g[i][j] == 0:
					if rate == 0 {
						c.Fail("%s: rate 0 dropped element (%d,%d) of value %v", l, i, j, z[i][j])
					}
					*m = 0
					c.Cov("dropped elements", 1)
				default:
					w := z[i][j] / q
					if rate == 1 || !(math.Abs(g[i][j]-w) <= 1e-11*mag[i][j]/q) {
						c.Fail("%s: output (%d,%d) is %v, want 0 or %v", l, i, j, g[i][j], w)
					}
					*m = 1
				}
				if *m >= 0 {
					n++
					kept += int(*m)
				}
			}
		}
		if rate > 0 && rate < 1 && positive {
			indep := func(what string, a, b []int8) {
				s, k := 0.0, 0
				for i := range a {
					if a[i] >= 0 && b[i] >= 0 {
						s += (float64(a[i]) - q) * (float64(b[i]) - q)
						k++
					}
				}
				v := q * (1 - q)
				if float64(k)*v*v < 200*0.05 || k < 500 {
					return
				}
				zs := s / (v * math.Sqrt(float64(k)))
				// skewed products have heavier tails at extreme rates: allow for it
				lim := 7.0 + 1/(v*math.Sqrt(float64(k)))*4
				if math.Abs(zs) > lim {
					c.Fail("%s: mask elements are correlated %s: z=%.1f over %d pairs", l, what, zs, k)
				}
				c.Cov("independence tests", 1)
			}
			indep("with the next element in memory order", mask[:len(mask)-1], mask[1:])
			if rows > 1 {
				indep("with the same column in the next row", mask[:len(mask)-out], mask[out:])
			}
			if rows > 2 {
				indep("with the same column two rows on", mask[:len(mask)-2*out], mask[2*out:])
			}
			if prev != nil {
				indep("with the previous pass", prev, mask)
			}
			if prev2 != nil {
				indep("with the pass before the previous one", prev2, mask)
			}
			prev2, prev = prev, mask
			if long && len(series)+len(mask) < 60000 {
				series = append(series, mask...)
			}
			lags := []int{[]int{3, 4, 8, 16, 32, 64, 128, 256, 512, 1024}[r.Intn(10)], 2 + r.Intn(len(mask))}
			for k := 1024; rows > 4096 && k < rows; k *= 2 {
				lags = append(lags, k*out)
			}
			for _, lag := range lags {
				if lag < len(mask) {
					indep(fmt.Sprintf("%d elements apart", lag), mask[:len(mask)-lag], mask[lag:])
				}
			}
			if twin.L != nil { // another layer with the same configuration and data
				o2, err := twin.L.Forward(toNN(r, batch))
				if err != nil {
					c.Fail("training pass refused: %v", err)
				}
				g2 := wantShape(c, "training forward", o2, rows, out)
				m2 := make([]int8, rows*out)
				for i := range g2 {
					for j := range g2[i] {
						if g2[i][j] != 0 {
							m2[i*out+j] = 1
						}
					}
				}
				indep("with another layer's", mask, m2)
				c.Cov("twin layers", 1)
			}
			// the numbers kept must scatter as those of independent draws do
			scatter := func(what string, at func(k int) int8, size int) {
				v := float64(size) * q * (1 - q)
				if v < 5 {
					return
				}
				s := 0
				for k := 0; k < size; k++ {
					s += int(at(k))
				}
				z := (float64(s) - float64(size)*q) / math.Sqrt(v)
				c.Cov("#scatter "+what+" n", 1)
				c.Cov("#scatter "+what+" z2 x1e6", int(math.Round(z*z*1e6)))
				c.Cov("counts whose scatter was judged", 1)
			}
			scatter("pass", func(k int) int8 { return mask[k] }, len(mask))
			for i := 0; i < rows && rows <= 100; i++ {
				scatter("row", func(k int) int8 { return mask[i*out+k] }, out)
			}
			for j := 0; j < out && out <= 100; j++ {
				scatter("column", func(k int) int8 { return mask[k*out+j] }, rows)
			}
		}
		// gradient under the observed mask
		if r.Intn(2) == 0 || rate == 1 {
			d := genM(r, rows, out, vNormal)
			dz, m := zeros(rows, out), zeros(rows, out)
			for i := range d {
				for j := range d[i] {
					if mask[i*out+j] == 1 {
						dz[i][j] = d[i][j] / q
						m[i][j] = math.Abs(dz[i][j])
					}
				}
			}
			for rep := 0; rep < 1+r.Intn(2); rep++ {
				dW, dB, dX, err := x.L.Backward(X, toNN(r, d))
				if err != nil {
					c.Fail("backward pass of %s refused: %v", l, err)
				}
				judgeGrads(c, fmt.Sprintf("backward of %s on %d rows under the observed mask (call %d)", l, rows, rep), l, batch, dz, m, dW, dB, dX, 1e-9)
				c.Cov("masked backward passes", 1)
			}
		}
	}
	if lag, z := correlatedLag(series, q); lag > 0 {
		c.Fail("%s: over the passes on %d rows, mask elements %d apart are correlated: z=%.1f over %d pairs", l, rows, lag, z, len(series)-lag)
	} else if len(series) > 0 {
		c.Cov("series of masks tested at all lags", 1)
	}
	c.Cov("mask elements seen", n)
	if n >= 200 {
		c.NT()
	}
	if rate == 1 && kept > 0 {
		c.Fail("%s: rate 1 kept %d elements", l, kept)
	}
	if rate > 0 && rate < 1 {
		v := float64(n) * q * (1 - q)
		if v > 100 {
			zs := (float64(kept) - float64(n)*q) / math.Sqrt(v)
			if math.Abs(zs) > 7.5 {
				c.Fail("%s: kept %d of %d elements, expected a fraction %.3f (z=%.1f)", l, kept, n, q, zs)
			}
			// aggregate over all cases, in thousandths
			c.Cov("rate: excess kept x1000", int(math.Round((float64(kept)-float64(n)*q)*1000)))
			c.Cov("rate: variance x1000", int(math.Round(v*1000)))
			if rate > 0.5 {
				c.Cov("rate>0.5: excess kept x1000", int(math.Round((float64(kept)-float64(n)*q)*1000)))
				c.Cov("rate>0.5: variance x1000", int(math.Round(v*1000)))
			}
		}
	}
}

// correlatedLag finds a distance at which elements that are each 1 with probability q are not
// independent. Elements that are not visible (-1) end the series.
func correlatedLag(series []int8, q float64) (int, float64) {
	for i, v := range series {
		if v < 0 {
			series = series[:i]
			break
		}
	}
	n := len(series)
	words := make([]uint64, n/64+2)
	kept := make([]int, n+1)
	for i, v := range series {
		words[i/64] |= uint64(v) << (i % 64)
		kept[i+1] = kept[i] + int(v)
	}
	v := q * (1 - q)
	for lag := 1; float64(n-lag)*v*v >= 100; lag++ {
		both, off, sh := 0, lag/64, uint(lag%64)
		for w := off; w < len(words)-1; w++ {
			both += bits.OnesCount64(words[w-off] & (words[w]>>sh | words[w+1]<<(64-sh)))
		}
		k := float64(n - lag)
		s := float64(both) - q*float64(kept[n-lag]+kept[n]-kept[lag]) + k*q*q
		if z := s / (v * math.Sqrt(k)); math.Abs(z) > 9+4/(v*math.Sqrt(k)) {
			return lag, z
		}
	}
	return 0, 0
}

func finalC06(cov map[string]int64) string {
	for _, k := range []string{"pass", "row", "column"} {
		n := float64(cov["#scatter "+k+" n"])
		if n < 500 {
			continue
		}
		m := float64(cov["#scatter "+k+" z2 x1e6"]) / 1e6 / n
		if math.Abs(m-1) > 8*math.Sqrt(2.5/n) {
			return fmt.Sprintf("over all layers, the numbers kept per %s scatter %.2f times as much as those of independent draws (over %.0f counts)", k, m, n)
		}
	}
	for _, k := range []string{"rate", "rate>0.5"} {
		v := float64(cov[k+": variance x1000"]) / 1000
		if v < 1000 {
			continue
		}
		z := float64(cov[k+": excess kept x1000"]) / 1000 / math.Sqrt(v)
		if math.Abs(z) > 7.5 {
			return fmt.Sprintf("over all layers (%s), the number of kept elements deviates from the configured rates by z=%.1f", k, z)
		}
	}
	return ""
}

func runC07(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{kinds: []Kind{kHidden, kLinear, kSigmoid, kLeaky, kDropout, kDropout, kDropout}, maxDepth: 4, maxW: 8})
	wide := r.Intn(3) == 0
	if deepNow(c, m, 60, 127) {
		wide = false
	}
	if wide { // a wide dropout layer so that dropping in training is certain to be visible
		l := genLayer(r, kDropout, m.in(), 250, 0.5)
		l.Drop = pick(r, 0.3, 0.5, 0.8)
		for j := range l.B {
			l.B[j] = 3 + math.Abs(l.B[j])
		}
		for i := range l.W {
			for j := range l.W[i] {
				l.W[i][j] *= 0.1
			}
		}
		l2 := genLayer(r, kLinear, 250, m.in(), 0.05)
		m.L = append([]*RL{l, l2}, m.L...)
	}
	hasDrop := false
	for i, l := range m.L {
		if l.K == kDropout {
			hasDrop = true
			if !(wide && i == 0) && r.Intn(4) == 0 {
				l.Drop = float64(r.Intn(2))
				c.Cov("rates 0 and 1", 1)
			}
		}
	}
	c.Desc("%s", m)
	mod := m.build(c)
	trained := false
	for s := 0; s < 4+r.Intn(8); s++ {
		if k := r.Intn(len(m.L)); r.Intn(4) == 0 && !(wide && k < 2) {
			x, _ := layOf(mod.Layers[k])
			if changeParams(c, m.L[k], x) {
				c.Cov("parameter changes between passes", 1)
			}
		}
		rows := smallSize(r, 9)
		if w := m.work(); w < 100 && r.Intn(60) == 0 {
			rows = 200 + r.Intn(3000)
			if w < 30 && r.Intn(20) == 0 {
				rows = 65500 + r.Intn(2000)
			}
			c.Cov("hundreds of rows", 1)
		}
		x := genM(r, rows, m.in(), vNormal)
		y := genTarget(r, m.Loss, rows, m.out())
		m.ambiguous = false
		zs, outs := m.forward(x)
		_ = zs
		raw := outs[len(outs)-1]
		amb := m.ambiguous
		scale := 1.0
		for _, o := range outs {
			scale = math.Max(scale, maxAbs(o))
		}
		op := r.Intn(6)
		switch op {
		case 0: // training pass
			X := toNN(r, x)
			o, err := mod.Forward(X, true)
			if err != nil {
				c.Fail("training pass refused: %v", err)
			}
			if len(o) != len(m.L)+1 {
				c.Fail("forward returned %d matrices for %d layers", len(o), len(m.L))
			}
			for i, l := range m.L {
				if l.K != kDropout {
					continue
				}
				z, mag := l.pre(fromNN(c, "layer input", o[i]))
				g := wantShape(c, "dropout output", o[i+1], rows, l.Out)
				dropped := 0
				for a := range g {
					for b := range g[a] {
						w := math.Max(z[a][b], 0) / (1 - l.Drop)
						if l.Drop == 1 {
							if g[a][b] != 0 {
								c.Fail("training output of %s is %v, want 0", l, g[a][b])
							}
							dropped++
						} else if g[a][b] == 0 && z[a][b] > 1e-9*mag[a][b] {
							dropped++
						} else if !(math.Abs(g[a][b]-w) <= 1e-9*mag[a][b]/(1-l.Drop)+1e-300) {
							c.Fail("training output of %s is %v, want 0 or %v", l, g[a][b], w)
						}
					}
				}
				if wide && i == 0 && dropped == 0 {
					c.Fail("a training pass of the model dropped none of the %d active units of %s", rows*l.Out, l)
				}
				if dropped > 0 {
					c.Cov("dropped in training", 1)
				}
			}
			trained = true
			c.Cov("training passes", 1)
			if r.Intn(2) == 0 && !amb {
				if _, err := mod.Backward(o, toNN(r, y)); err != nil {
					c.Fail("backward pass refused: %v", err)
				}
			}
		case 1, 2: // inference forward, twice, and gradients
			o1, err := mod.Forward(toNN(r, x), false)
			if err != nil {
				c.Fail("inference pass refused: %v", err)
			}
			o2, err := mod.Forward(toNN(r, x), false)
			if err != nil {
				c.Fail("inference pass refused: %v", err)
			}
			for i := range outs {
				g := fromNN(c, "inference output", o1[i])
				if !sameBits(g, fromNN(c, "inference output", o2[i])) {
					c.Fail("two inference passes on the same data differ at layer %d of %s", i, m)
				}
				checkClose(c, fmt.Sprintf("inference output %d of %s", i, m), g, outs[i], constTol(1e-9*scale))
			}
			c.Cov("inference results judged", len(outs))
			if op == 2 && !amb {
				gr, err := mod.Backward(o2, toNN(r, y))
				if err != nil {
					c.Fail("backward pass after an inference pass refused: %v", err)
				}
				ref := m.grads(x, y)
				judgeModelGrads(c, "after an inference pass, "+m.String(), m, gr, ref, m.gradTol(r, x, y, ref))
				c.Cov("gradients after inference pass", 1)
			}
		case 3:
			p, err := mod.Predict(toNN(r, x))
			if err != nil {
				c.Fail("predict refused: %v", err)
			}
			p2, err := mod.Predict(toNN(r, x))
			if err != nil {
				c.Fail("predict refused: %v", err)
			}
			if !sameBits(p.M, p2.M) {
				c.Fail("two predictions on the same data differ, %s", m)
			}
			judgePrediction(c, m, p, raw)
			c.Cov("predict judged", 1)
		case 4:
			for k := 0; k < 2; k++ {
				j, err := mod.CalculateLoss(toNN(r, x), toNN(r, y))
				if err != nil {
					c.Fail("loss refused: %v", err)
				}
				w := rloss(m.Loss, raw, y)
				if !lossClose(m, j, w, scale) {
					c.Fail("model loss is %v, want %v for %s", j, w, m)
				}
			}
			c.Cov("loss judged", 1)
		case 5:
			a1, err := mod.CalculateAccuracy(toNN(r, x), toNN(r, y))
			if err != nil {
				c.Fail("accuracy refused: %v", err)
			}
			a2, _ := mod.CalculateAccuracy(toNN(r, x), toNN(r, y))
			if a1 != a2 {
				c.Fail("two accuracy evaluations on the same data differ: %v, %v", a1, a2)
			}
			judgeAccuracy(c, m, a1, raw, y)
			c.Cov("accuracy judged", 1)
		}
		c.Desc("%d", op)
	}
	if trained && hasDrop {
		c.NT()
	}
}

// lossClose: values may deviate by rounding in the outputs; entropies amplify it near
// the clamp.
func lossClose(m *RModel, got, want, scale float64) bool {
	tol := 1e-7 * (1 + math.Abs(want)) * scale * scale
	return math.Abs(got-want) <= tol
}

// decisive: no decision on these outputs hinges on rounding.
func decisive(kind int, prec float64, p, y M) bool {
	sc := 1e-9 * (1 + maxAbs(p))
	for i := range p {
		switch kind {
		case 0:
			if y == nil {
				continue
			}
			for j := range p[i] {
				if math.Abs(math.Abs(p[i][j]-y[i][j])-prec) < sc {
					return false
				}
			}
		case 1:
			k := rArgmax(p[i])
			for j := range p[i] {
				if j != k && p[i][k]-p[i][j] < sc {
					return false
				}
			}
		case 2:
			for j := range p[i] {
				if math.Abs(p[i][j]-0.5) < sc {
					return false
				}
			}
		}
	}
	return true
}

func judgePrediction(c *Ctx, m *RModel, p nn.Matrix, raw M) {
	rows := len(raw)
	switch m.Acc {
	case 0:
		g := wantShape(c, "prediction", p, rows, m.out())
		checkClose(c, "prediction of "+m.String(), g, raw, constTol(1e-9*(1+maxAbs(raw))*100))
	case 1:
		g := wantShape(c, "prediction", p, rows, 1)
		if decisive(1, 0, raw, nil) {
			for i := range g {
				if g[i][0] != float64(rArgmax(raw[i])) {
					c.Fail("prediction for row %d is class %v, want %d (scores %v)", i, g[i][0], rArgmax(raw[i]), raw[i])
				}
			}
		}
	case 2:
		g := wantShape(c, "prediction", p, rows, m.out())
		if decisive(2, 0, raw, nil) {
			for i := range g {
				for j := range g[i] {
					w := 1.0
					if raw[i][j] < 0.5 {
						w = 0
					}
					if g[i][j] != w {
						c.Fail("binary prediction (%d,%d) is %v for output %v", i, j, g[i][j], raw[i][j])
					}
				}
			}
		}
	}
}

func judgeAccuracy(c *Ctx, m *RModel, a float64, raw, y M) {
	if !decisive(m.Acc, m.Prec, raw, y) {
		return
	}
	w := rAccuracy(m.Acc, m.Prec, raw, y)
	if math.Abs(a-w) > 1e-12 {
		c.Fail("accuracy of %s is %v, want %v (outputs %v, targets %v)", m, a, w, raw, y)
	}
}

// judgeModelGrads compares the library's gradient list (last layer first) with the
// reference (first layer first).
func judgeModelGrads(c *Ctx, what string, m *RModel, gr []nn.Gradients, ref []RGrad, t float64) {
	if len(gr) != len(m.L) {
		c.Fail("%s: %d gradient pairs for %d layers", what, len(gr), len(m.L))
	}
	for i, l := range m.L {
		g := gr[len(m.L)-1-i]
		gw := wantShape(c, fmt.Sprintf("%s: weight gradient of layer %d", what, i), g.DWeights, l.In, l.Out)
		gb := wantShape(c, fmt.Sprintf("%s: bias gradient of layer %d", what, i), g.DBiases, 1, l.Out)
		checkClose(c, fmt.Sprintf("%s: weight gradient of layer %d (%s)", what, i, l), gw, ref[i].W, constTol(t))
		checkClose(c, fmt.Sprintf("%s: bias gradient of layer %d (%s)", what, i, l), gb, M{ref[i].B}, constTol(t))
	}
}
