package main

import (
	"math"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C27", Quick: 60000, Thorough: 200000, Run: runC27,
		Rule:   "a case is (a) linear regression on any data or softmax regression, trained by full-batch steps below 2/L for the largest curvature L of that very data, with the reported loss observed after every step; (b) well-conditioned linear regression trained for the number of steps the contraction factor demands, its parameters compared with the least-squares solution; (c) a smooth deep stack moved one small training step, its reported loss compared before and after; non-trivial when at least one decrease was judged",
		Floors: map[string]int64{"steps judged": 60000, "linear problems": 2500, "softmax problems": 2500, "least-squares solutions reached": 1500, "deep steps judged": 2500, "large steps": 500, "problems with decay": 500, "ill-conditioned problems": 300, "deep loss mse": 500, "deep loss ce": 500, "deep loss bce": 500, "fused deep steps": 200, "several outputs": 2000, "explicit full batch": 1000}})
}

// eigMax and eigMin of a small symmetric matrix, by Jacobi rotations.
func eig(a M) (lo, hi float64) {
	a = cloneM(a)
	n := len(a)
	for sweep := 0; sweep < 60; sweep++ {
		off := 0.0
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				off += a[i][j] * a[i][j]
			}
		}
		if off == 0 {
			break
		}
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				if a[p][q] == 0 {
					continue
				}
				th := (a[q][q] - a[p][p]) / (2 * a[p][q])
				t := 1 / (math.Abs(th) + math.Sqrt(th*th+1))
				if th < 0 {
					t = -t
				}
				cs := 1 / math.Sqrt(t*t+1)
				sn := t * cs
				for k := 0; k < n; k++ {
					x, y := a[k][p], a[k][q]
					a[k][p], a[k][q] = cs*x-sn*y, sn*x+cs*y
				}
				for k := 0; k < n; k++ {
					x, y := a[p][k], a[q][k]
					a[p][k], a[q][k] = cs*x-sn*y, sn*x+cs*y
				}
			}
		}
	}
	lo, hi = a[0][0], a[0][0]
	for i := range a {
		lo, hi = math.Min(lo, a[i][i]), math.Max(hi, a[i][i])
	}
	return
}

// gram returns [X 1]'[X 1].
func gram(x M) M {
	e := make(M, len(x))
	for i := range x {
		e[i] = append(append([]float64{}, x[i]...), 1)
	}
	return rdot(rT(e), e)
}

// solve solves a z = b by Gaussian elimination with pivoting.
func solve(a, b M) M {
	a, b = cloneM(a), cloneM(b)
	n := len(a)
	for p := 0; p < n; p++ {
		k := p
		for i := p; i < n; i++ {
			if math.Abs(a[i][p]) > math.Abs(a[k][p]) {
				k = i
			}
		}
		a[p], a[k], b[p], b[k] = a[k], a[p], b[k], b[p]
		for i := p + 1; i < n; i++ {
			f := a[i][p] / a[p][p]
			for j := p; j < n; j++ {
				a[i][j] -= f * a[p][j]
			}
			for j := range b[i] {
				b[i][j] -= f * b[p][j]
			}
		}
	}
	for p := n - 1; p >= 0; p-- {
		for j := range b[p] {
			for k := p + 1; k < n; k++ {
				b[p][j] -= a[p][k] * b[k][j]
			}
			b[p][j] /= a[p][p]
		}
	}
	return b
}

func runC27(c *Ctx) {
	switch c.R.Intn(4) {
	case 0:
		c27convex(c, lMSE)
	case 1:
		c27convex(c, lCE)
	case 2:
		c27solve(c)
	default:
		c27deep(c)
	}
}

func regressionData(c *Ctx) M {
	r := c.R
	rows, in := 1+r.Intn(20), smallSize(r, 6)
	x := genM(r, rows, in, []int{vNormal, vUniform, vSparse, vInt}[r.Intn(4)])
	switch r.Intn(5) {
	case 0: // columns of very different size
		for j := range x[0] {
			f := math.Pow(10, float64(r.Intn(5)-2))
			for i := range x {
				x[i][j] *= f
			}
		}
		c.Cov("ill-conditioned problems", 1)
	case 1: // collinear
		for i := range x {
			x[i][in-1] = 3 * x[i][0]
		}
	case 2: // far from the origin
		for i := range x {
			x[i][0] += 10
		}
	}
	return x
}

func fullBatch(c *Ctx, rows int) int {
	switch c.R.Intn(4) {
	case 0:
		c.Cov("explicit full batch", 1)
		return rows
	case 1:
		c.Cov("explicit full batch", 1)
		return rows + 1 + c.R.Intn(5)
	}
	return 0
}

func c27convex(c *Ctx, k LossK) {
	r := c.R
	x := regressionData(c)
	out := smallSize(r, 4)
	l := &RL{}
	if k == lMSE {
		l = genLayer(r, kLinear, len(x[0]), out, pick(r, 0, 0.5, 3))
		c.Cov("linear problems", 1)
	} else {
		out++
		l = genLayer(r, kSoftmax, len(x[0]), out, pick(r, 0, 0.3, 1)/(1+maxAbs(x)))
		c.Cov("softmax problems", 1)
	}
	if out > 1 {
		c.Cov("several outputs", 1)
	}
	y := genTarget(r, k, len(x), out)
	if k == lMSE && r.Intn(2) == 0 { // an exact fit exists
		t := genLayer(r, kLinear, l.In, out, 1)
		y = t.forward(x)
	}
	_, hi := eig(gram(x))
	L := 2 * hi / float64(len(x)*out)
	if k == lCE {
		L = 0.5 * hi / float64(len(x))
	}
	f := pick(r, 0.01, 0.3, 1, 1.5, 1.9, 2*r.Float64()+0.001)
	if f > 1.99 {
		f = 1.99
	}
	if f >= 1.5 {
		c.Cov("large steps", 1)
	}
	o := OptCfg{K: oSGD, LR: f / L}
	if r.Intn(3) == 0 {
		o.Decay = pick(r, 0.01, 0.5, r.Float64())
		c.Cov("problems with decay", 1)
	}
	m := &RModel{L: []*RL{l}, Loss: k, Opt: o, Acc: b2i(k == lCE)}
	c.Desc("%s on %s, %g times the reciprocal curvature", m, dims(x), f)
	mod := m.build(c)
	X, Y := toNN(r, x), toNN(r, y)
	last := reported(c, mod, X, Y)
	batch := fullBatch(c, len(x))
	for s := 0; s < 10+r.Intn(20); s++ {
		n := 1 + r.Intn(2)
		if err := mod.Fit(X, Y, n, batch, nnEmpty(), nnEmpty(), 0); err != nil {
			c.Fail("training refused: %v", err)
		}
		now := reported(c, mod, X, Y)
		ws, bs := paramsOf(c, mod)
		cur := &RL{K: l.K, In: l.In, Out: l.Out, W: ws[0], B: bs[0][0]}
		_, mag := cur.pre(x)
		tol := 0.0
		if k == lMSE {
			s := maxAbs(mag) + maxAbs(y)
			tol = 1e-9*last + 1e-11*s*math.Sqrt(last) + 1e-22*s*s
		} else {
			p := cur.forward(x)
			lo, hi := 1.0, 0.0
			for i := range p {
				for j := range p[i] {
					if y[i][j] == 1 {
						lo, hi = math.Min(lo, p[i][j]), math.Max(hi, p[i][j])
					}
				}
			}
			if lo < 1e-6 { // the reported loss is clamped there
				c.Cov("clamped losses skipped", 1)
				break
			}
			if hi > 1-1e-6 {
				tol = 2e-7
			}
			tol += 1e-9*last + 1e-11*(1+maxAbs(mag))
		}
		if !(now <= last+tol) {
			c.Fail("%s on %d rows with step %g times 1/L: the reported loss rose from %v to %v after step %d", m, len(x), f, last, now, s)
		}
		last = now
		c.Cov("steps judged", 1)
		c.NT()
	}
}

func reported(c *Ctx, mod *nn.Model, X, Y nn.Matrix) float64 {
	l, err := mod.CalculateLoss(X, Y)
	if err != nil {
		c.Fail("loss refused: %v", err)
	}
	if math.IsNaN(l) {
		c.Fail("the reported loss is NaN")
	}
	return l
}

func c27solve(c *Ctx) {
	r := c.R
	in, out := smallSize(r, 5), smallSize(r, 3)
	rows := 3*in + 4 + r.Intn(20)
	x := genM(r, rows, in, []int{vNormal, vUniform}[r.Intn(2)])
	g := gram(x)
	lo, hi := eig(g)
	if lo <= 0 || hi/lo > 40 {
		c.Cov("badly conditioned problems skipped", 1)
		return
	}
	y := genTarget(r, lMSE, rows, out)
	e := make(M, rows)
	for i := range x {
		e[i] = append(append([]float64{}, x[i]...), 1)
	}
	sol := solve(g, rdot(rT(e), y))
	l := genLayer(r, kLinear, in, out, pick(r, 0, 1, 5))
	L := 2 * hi / float64(rows*out)
	f := pick(r, 0.5, 1, 1.5)
	rate := math.Max(math.Abs(1-f), math.Abs(1-f*lo/hi))
	m := &RModel{L: []*RL{l}, Loss: lMSE, Opt: OptCfg{K: oSGD, LR: f / L}}
	e0 := 0.0
	dist := func(w M, b []float64) float64 {
		s := 0.0
		for j := 0; j < out; j++ {
			for i := 0; i < in; i++ {
				s += math.Pow(w[i][j]-sol[i][j], 2)
			}
			s += math.Pow(b[j]-sol[in][j], 2)
		}
		return math.Sqrt(s)
	}
	e0 = dist(l.W, l.B)
	steps := 1 + int(math.Log(1e-8)/math.Log(rate))
	if steps > 1500 {
		c.Cov("badly conditioned problems skipped", 1)
		return
	}
	c.Desc("least squares %dx%d to %d, condition %.3g, %d steps of %g/L", rows, in, out, hi/lo, steps, f)
	mod := m.build(c)
	X, Y := toNN(r, x), toNN(r, y)
	batch := fullBatch(c, rows)
	half := steps / 2
	for i, n := range []int{half, steps - half} {
		if err := mod.Fit(X, Y, n, batch, nnEmpty(), nnEmpty(), 0); err != nil {
			c.Fail("training refused: %v", err)
		}
		done := half
		if i == 1 {
			done = steps
		}
		ws, bs := paramsOf(c, mod)
		d := dist(ws[0], bs[0][0])
		bound := e0*math.Pow(rate, float64(done))*(1+1e-6) + 1e-9*(1+maxAbs(sol)+e0)
		if !(d <= bound) {
			c.Fail("linear regression %dx%d to %d, condition %.3g, step %g/L: after %d steps the parameters are %g away from the least-squares solution, theory allows %g", rows, in, out, hi/lo, f, done, d, bound)
		}
	}
	c.Cov("least-squares solutions reached", 1)
	if out > 1 {
		c.Cov("several outputs", 1)
	}
	c.NT()
}

func c27deep(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 4, maxW: 7, kinds: smoothKinds, lossOK: []LossK{lMSE, lCE, lBCE}})
	rows := smallSize(r, 10)
	x, y := genM(r, rows, m.in(), vNormal), genTarget(r, m.Loss, rows, m.out())
	c.Desc("%s on %d rows", m, rows)
	for i := range []int{0, 1, 2} { // at several parameters along training
		p := m.predictRaw(x)
		if m.Loss != lMSE {
			for a := range p {
				for b := range p[a] {
					if p[a][b] < 1e-4 || p[a][b] > 1-1e-4 {
						c.Cov("clamped losses skipped", 1)
						return
					}
				}
			}
		}
		g2 := 0.0
		for _, g := range m.grads(x, y) {
			for _, v := range append(flat(g.W), g.B...) {
				g2 += v * v
			}
		}
		f0 := m.loss(x, y)
		if !finite(f0) || f0 > 1e8 {
			return
		}
		judged := false
		for eta := 0.5; eta > 1e-8; eta /= 6 {
			if eta*g2 < 1e-8*(1+math.Abs(f0)) { // rounding would decide
				break
			}
			n := m.clone()
			n.Opt = OptCfg{K: oSGD, LR: eta}
			t := n.clone()
			t.fit(x, y, 1, 0)
			if !(t.loss(x, y) <= f0-0.5*eta*g2) {
				continue // not small enough
			}
			mod := n.build(c)
			X, Y := toNN(r, x), toNN(r, y)
			before := reported(c, mod, X, Y)
			if err := mod.Fit(X, Y, 1, fullBatch(c, rows), nnEmpty(), nnEmpty(), 0); err != nil {
				c.Fail("training refused: %v", err)
			}
			after := reported(c, mod, X, Y)
			if !(after <= before-0.45*eta*g2) {
				c.Fail("%s at point %d: a step of rate %g, small enough for this point, changed the reported loss from %v to %v, want a decrease of at least half of %g", m, i, eta, before, after, eta*g2)
			}
			judged = true
			if r.Intn(3) != 0 {
				break
			}
		}
		if !judged {
			c.Cov("vanishing gradients skipped", 1)
			return
		}
		c.Cov("deep steps judged", 1)
		c.Cov("deep loss "+lossNames[m.Loss], 1)
		if m.Loss == lCE && m.L[len(m.L)-1].K == kSoftmax {
			c.Cov("fused deep steps", 1)
		}
		c.NT()
		m.fit(x, y, 1+r.Intn(10), 0)
		m.opts = nil
	}
}
