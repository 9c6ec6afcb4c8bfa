package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C04", Quick: 300000, Thorough: 1000000, Run: runC04,
		Rule: "a case drives one of: softmax or sigmoid (as layer and as function) on finite scores up to 1e308, entropy losses and gradients on predictions including exactly 0 and 1, or minibatch training of a saturated classifier; every number that comes out is judged; non-trivial when an extreme value (|score|>500, prediction within 1e-7 of 0 or 1, saturated output) took part",
		Floors: map[string]int64{"softmax rows": 20000, "sigmoid rows": 10000, "scores above 700": 10000, "entropy values judged": 5000, "predictions exactly 0 or 1": 10000,
			"saturated trainings": 1000, "training epochs watched": 3000, "saturated outputs in training": 5000}})
	register(&Prop{ID: "C08", Quick: 200000, Thorough: 1000000, Run: runC08,
		Rule:   "a case is one loss on a random batch (1 to 300 rows): its value against the definition, against the mean of the single-row losses, against a permuted batch and a split batch, and through a model's loss evaluation; non-trivial when the batch had at least two different rows",
		Floors: map[string]int64{"matrix against itself": 10000, "thousands of rows": 200, "same matrix with other values": 15000, "batches judged": 30000, "multi-row batches": 15000, "permuted batches": 10000, "row means": 10000, "model losses": 3000, "loss mse": 3000, "loss mae": 3000, "loss ce": 3000, "loss bce": 3000}})
	register(&Prop{ID: "C09", Quick: 150000, Thorough: 1000000, Run: runC09,
		Rule:   "a case is one loss on a random batch: its gradient against the analytic derivative of the mean loss and against central differences of the loss value the code itself reports; non-trivial when the gradient had a non-zero element",
		Floors: map[string]int64{"matrix against itself": 10000, "same matrix with other values": 15000, "gradients judged": 30000, "numeric derivatives": 50000, "elements at the kink": 1000, "multi-row batches": 15000, "small predictions and targets": 2000, "predictions next to their targets": 2000, "loss mse": 3000, "loss mae": 3000, "loss ce": 3000, "loss bce": 3000}})
}

// extremeScore draws finite scores of any size.
func extremeScore(c *Ctx, style int) float64 {
	r := c.R
	switch style {
	case 0:
		return r.NormFloat64() * 5
	case 1:
		return r.NormFloat64() * 300
	case 2:
		return 690 + 40*r.Float64()
	case 3:
		return -690 - 80*r.Float64()
	case 4:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(300)))
	case 5:
		return pick(r, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64/2, 1e308, -1e308, 0, 1)
	case 6:
		return pick(r, 0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-300)
	default:
		return extremeScore(c, r.Intn(7))
	}
}

func runC04(c *Ctx) {
	switch c.R.Intn(8) {
	case 0, 1, 2:
		c04softmax(c)
	case 3, 4:
		c04sigmoid(c)
	case 5, 6:
		c04entropy(c)
	default:
		c04train(c)
	}
}

// scoresThroughLayer: half of the time the scores are the layer's input (identity
// weights), else they arise as bias or from a weight.
func identityLayer(k Kind, n int) *RL {
	l := &RL{K: k, In: n, Out: n, W: zeros(n, n), B: make([]float64, n)}
	for i := 0; i < n; i++ {
		l.W[i][i] = 1
	}
	return l
}

func c04softmax(c *Ctx) {
	r := c.R
	rows, n := smallSize(r, 6), genSize(r, 40)
	style := r.Intn(9)
	z := zeros(rows, n)
	big := false
	for i := range z {
		st := style
		if st == 8 {
			st = r.Intn(8)
		}
		off := 0.0
		if r.Intn(3) == 0 {
			off = pick(r, 1000, -1000, 1e6, -1e6, 709, 710, -745)
		}
		for j := range z[i] {
			z[i][j] = extremeScore(c, st) + off
			if !finite(z[i][j]) {
				z[i][j] = math.MaxFloat64
			}
			if j > 0 && r.Intn(10) == 0 {
				z[i][j] = z[i][r.Intn(j)]
			}
			if math.Abs(z[i][j]) > 700 {
				c.Cov("scores above 700", 1)
			}
			if math.Abs(z[i][j]) > 500 {
				big = true
			}
		}
	}
	c.Desc("softmax %dx%d style %d", rows, n, style)
	if big {
		c.NT()
	}
	var p M
	if r.Intn(3) == 0 {
		p = wantShape(c, "Softmax", nn.Softmax(toNN(r, z)), rows, n)
	} else {
		x := identityLayer(kSoftmax, n).build(c)
		o, err := x.L.Forward(toNN(r, z))
		if err != nil {
			c.Fail("softmax layer refused %s scores: %v", dims(z), err)
		}
		p = wantShape(c, "softmax layer", o, rows, n)
	}
	for i := range z {
		s := 0.0
		w := rsoftmaxRow(z[i])
		// through the logarithm of the sum, the largest score costs digits
		top := math.Min(maxAbs(M{z[i]}), 1e7)
		for j := range z[i] {
			v := p[i][j]
			if !(v >= 0 && v <= 1+1e-12) {
				c.Fail("softmax of %v has entry %v", z[i], v)
			}
			if !(math.Abs(v-w[j]) <= 1e-10+1e-15*top) {
				c.Fail("softmax of %v has entry %d = %v, want %v", z[i], j, v, w[j])
			}
			if w[j] < 1e-11 {
				// the scores are as they were given (identity weights), so that even
				// a vanishing probability is known up to the rounding of its logarithm
				if !(math.Abs(v-w[j]) <= (1e-9+1e-15*top)*w[j]+1e-300) {
					c.Fail("softmax of %v has entry %d = %v, want %v", z[i], j, v, w[j])
				}
				if w[j] > 1e-300 {
					c.Cov("vanishing probabilities", 1)
				}
			}
			s += v
		}
		if !(math.Abs(s-1) <= 1e-9) {
			c.Fail("softmax of %v sums to %v", z[i], s)
		}
		for j := range z[i] {
			for k := range z[i] {
				if z[i][j] > z[i][k] && p[i][j] < p[i][k]*(1-1e-12) {
					c.Fail("softmax of %v is not ordered like the scores: %v", z[i], p[i])
				}
			}
		}
		c.Cov("softmax rows", 1)
	}
}

func c04sigmoid(c *Ctx) {
	r := c.R
	rows, n := smallSize(r, 6), genSize(r, 30)
	z := zeros(rows, n)
	st := r.Intn(8)
	for i := range z {
		for j := range z[i] {
			z[i][j] = extremeScore(c, st)
			if math.Abs(z[i][j]) > 700 {
				c.Cov("scores above 700", 1)
				c.NT()
			}
		}
	}
	c.Desc("sigmoid %dx%d style %d", rows, n, st)
	var p M
	if r.Intn(3) == 0 {
		p = wantShape(c, "Sigmoid", nn.Sigmoid(toNN(r, z)), rows, n)
	} else {
		x := identityLayer(kSigmoid, n).build(c)
		o, err := x.L.Forward(toNN(r, z))
		if err != nil {
			c.Fail("sigmoid layer refused %s scores: %v", dims(z), err)
		}
		p = wantShape(c, "sigmoid layer", o, rows, n)
		// its gradient stays finite and tiny where it saturates
		d := genM(r, rows, n, vNormal)
		dW, dB, dX, err := x.L.Backward(toNN(r, z), toNN(r, d))
		if err != nil {
			c.Fail("sigmoid layer refused the gradient: %v", err)
		}
		fine := maxAbs(z) < 1e150
		for _, g := range []M{dX.M, dB.M, dW.M} {
			for i := range g {
				for j := range g[i] {
					if !finite(g[i][j]) && fine {
						c.Fail("gradient of the sigmoid layer at scores %v is %v", z, g[i][j])
					}
				}
			}
		}
	}
	for i := range z {
		for j := range z[i] {
			w := 1 / (1 + math.Exp(-z[i][j]))
			if !(p[i][j] >= 0 && p[i][j] <= 1) || !(math.Abs(p[i][j]-w) <= 1e-12) {
				c.Fail("sigmoid of %v is %v, want %v", z[i][j], p[i][j], w)
			}
		}
		c.Cov("sigmoid rows", 1)
	}
}

func c04entropy(c *Ctx) {
	r := c.R
	k := []LossK{lCE, lBCE}[r.Intn(2)]
	rows, n := smallSize(r, 12), genSize(r, 20)
	p := zeros(rows, n)
	edge := 0
	for i := range p {
		for j := range p[i] {
			switch r.Intn(6) {
			case 0:
				p[i][j] = 0
				edge++
				c.Cov("predictions exactly 0 or 1", 1)
			case 1:
				p[i][j] = 1
				edge++
				c.Cov("predictions exactly 0 or 1", 1)
			case 2:
				p[i][j] = logUniform(r, 1e-300, 1e-5)
				edge++
			case 3:
				p[i][j] = 1 - logUniform(r, 1.2e-16, 1e-5)
				edge++
			default:
				p[i][j] = r.Float64()
			}
		}
	}
	if r.Intn(3) == 0 { // certain one-hot predictions, right or wrong
		for i := range p {
			h := r.Intn(n)
			for j := range p[i] {
				p[i][j] = 0
				if j == h {
					p[i][j] = 1
				}
			}
		}
		edge = rows
	}
	y := genTarget(r, k, rows, n)
	c.Desc("%s %dx%d edge=%d", lossNames[k], rows, n, edge)
	if edge > 0 {
		c.NT()
	}
	loss := buildLoss(c, k, n)
	v, err := loss.Forward(toNN(r, p), toNN(r, y))
	if err != nil {
		c.Fail("%s loss refused %s: %v", lossNames[k], dims(p), err)
	}
	w := rloss(k, p, y)
	if !(math.Abs(v-w) <= 1e-8*(1+math.Abs(w))) {
		c.Fail("%s loss of predictions %v for targets %v is %v, want %v", lossNames[k], p, y, v, w)
	}
	g, err := loss.Backward(toNN(r, p), toNN(r, y))
	if err != nil {
		c.Fail("%s loss gradient refused %s: %v", lossNames[k], dims(p), err)
	}
	gm := wantShape(c, "loss gradient", g, rows, n)
	lim := 1.001e7 / float64(rows)
	for i := range gm {
		for j := range gm[i] {
			if !(math.Abs(gm[i][j]) <= lim) {
				c.Fail("%s loss gradient at prediction %v, target %v, %d rows is %v", lossNames[k], p[i][j], y[i][j], rows, gm[i][j])
			}
			if p[i][j] > 1.1e-7 && p[i][j] < 1-1.1e-7 {
				w := rlossGrad(k, M{p[i]}, M{y[i]})[0][j] / float64(rows)
				if !(math.Abs(gm[i][j]-w) <= 1e-7*math.Abs(w)+1e-12) {
					c.Fail("%s loss gradient at prediction %v, target %v is %v, want %v", lossNames[k], p[i][j], y[i][j], gm[i][j], w)
				}
			}
		}
	}
	c.Cov("entropy values judged", 1)
}

func allFinite(ms ...M) bool {
	for _, m := range ms {
		for i := range m {
			for j := range m[i] {
				if !finite(m[i][j]) {
					return false
				}
			}
		}
	}
	return true
}

func c04train(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{lossOK: []LossK{lCE, lBCE}, maxDepth: 2, maxW: 5, kinds: []Kind{kHidden, kLinear, kSigmoid, kLeaky, kSoftmax}, lrLo: 1e-4, lrHi: 1})
	f := pick(r, 1, 30, 300, 1e4)
	for _, l := range m.L {
		for i := range l.W {
			for j := range l.W[i] {
				l.W[i][j] *= f
			}
		}
	}
	rows := 1 + r.Intn(12)
	x := genScaled(r, rows, m.in(), pick(r, 0.1, 1, 30))
	y := genTarget(r, m.Loss, rows, m.out())
	for i := range y { // hard binary targets
		for j := range y[i] {
			y[i][j] = math.Round(y[i][j])
		}
	}
	batch := r.Intn(rows + 1)
	c.Desc("train %s weights*%g rows=%d batch=%d", m, f, rows, batch)
	mod := m.build(c)
	X, Y := toNN(r, x), toNN(r, y)
	ref := m.clone()
	sat := 0
	for e := 0; e < 5; e++ {
		ref.fit(x, y, 1, batch)
		big := 0.0
		for _, l := range ref.L {
			big = math.Max(big, math.Max(maxAbs(l.W), maxAbs(M{l.B})))
			if !allFinite(l.W, M{l.B}) {
				big = math.Inf(1)
			}
		}
		if !(big < 1e20) {
			break // the exact algorithm itself diverges
		}
		if err := mod.Fit(X, Y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
			c.Fail("training refused: %v", err)
		}
		ws, bs := paramsOf(c, mod)
		for i := range ws {
			if !allFinite(ws[i], bs[i]) {
				c.Fail("after epoch %d of training %s on %v the parameters of layer %d are not finite: %v %v", e, m, x, i, ws[i], bs[i])
			}
		}
		o, err := mod.Forward(X, true)
		if err != nil {
			c.Fail("forward refused: %v", err)
		}
		for i := range o {
			if !allFinite(o[i].M) {
				c.Fail("after epoch %d of training %s an output is not finite", e, m)
			}
		}
		for _, q := range o[len(o)-1].M {
			for _, v := range q {
				if v < 1e-7 || v > 1-1e-7 {
					sat++
				}
				if !(v >= 0 && v <= 1+1e-12) {
					c.Fail("a probability of %s is %v", m, v)
				}
			}
		}
		gr, err := mod.Backward(o, Y)
		if err != nil {
			c.Fail("backward refused: %v", err)
		}
		for i := range gr {
			if !allFinite(gr[i].DWeights.M, gr[i].DBiases.M) {
				c.Fail("after epoch %d of training %s a gradient is not finite", e, m)
			}
		}
		j, err := mod.CalculateLoss(X, Y)
		if err != nil || !finite(j) {
			c.Fail("after epoch %d of training %s the loss is %v (%v)", e, m, j, err)
		}
		c.Cov("training epochs watched", 1)
	}
	c.Cov("saturated outputs in training", sat)
	if sat > 0 {
		c.Cov("saturated trainings", 1)
		c.NT()
	}
}

func genLossBatch(c *Ctx, k LossK) (p, y M) {
	r := c.R
	rows, cols := genSize(r, 60), genSize(r, 30)
	if r.Intn(100) == 0 {
		rows = 100 + r.Intn(300)
	}
	rows = manyRows(c, rows, cols)
	if r.Intn(100) == 0 {
		rows, cols = 1+r.Intn(5), 100+r.Intn(700)
		c.Cov("wide batches", 1)
	}
	p, y = genPred(r, k, rows, cols), genTarget(r, k, rows, cols)
	if k == lMSE || k == lMAE {
		switch r.Intn(4) {
		case 0:
			kind := []int{vInt, vMixed, vSparse, vUniform}[r.Intn(4)]
			p, y = genM(r, rows, cols, kind), genM(r, rows, cols, kind)
		case 1: // some exactly right
			for i := range p {
				for j := range p[i] {
					if r.Intn(3) == 0 {
						p[i][j] = y[i][j]
					}
				}
			}
		}
	}
	return
}

func lossValue(c *Ctx, loss nn.Loss, k LossK, p, y M) float64 {
	v, err := loss.Forward(toNN(c.R, p), toNN(c.R, y))
	if err != nil {
		c.Fail("%s loss refused %s: %v", lossNames[k], dims(p), err)
	}
	return v
}

// useLoss gives a loss object a history: other batches, of other sizes.
func useLoss(c *Ctx, loss nn.Loss, k LossK, n int) {
	r := c.R
	for q := r.Intn(4); q > 0; q-- {
		rows := genSize(r, 30)
		p, y := genPred(r, k, rows, n), genTarget(r, k, rows, n)
		if r.Intn(2) == 0 {
			lossValue(c, loss, k, p, y)
		}
		if r.Intn(2) == 0 {
			if _, err := loss.Backward(toNN(r, p), toNN(r, y)); err != nil {
				c.Fail("%s gradient refused %s: %v", lossNames[k], dims(p), err)
			}
		}
		c.Cov("earlier batches", 1)
	}
}

func runC08(c *Ctx) {
	r := c.R
	k := LossK(r.Intn(int(nLoss)))
	c.Cov("loss "+lossNames[k], 1)
	if r.Intn(10) == 0 {
		c08model(c, k)
		return
	}
	p, y := genLossBatch(c, k)
	scaleErrors(c, k, p, y)
	if (k == lCE || k == lBCE) && r.Intn(4) == 0 {
		for i := range p {
			p[i][r.Intn(len(p[i]))] = pick(r, 0, 1, 1e-9, 1-1e-9, 1e-7, 1-1e-7)
		}
	}
	rows := len(p)
	c.Desc("%s %s first prediction %v", lossNames[k], dims(p), p[0][0])
	if rows > 1 {
		c.NT()
		c.Cov("multi-row batches", 1)
	}
	loss := buildLoss(c, k, len(p[0]))
	useLoss(c, loss, k, len(p[0]))
	judge := func(what string, v, w, mag float64) {
		if !(math.Abs(v-w) <= 1e-8*mag) {
			c.Fail("%s loss %s: %v, want %v (batch %s)", lossNames[k], what, v, w, dims(p))
		}
	}
	v := lossValue(c, loss, k, p, y)
	w := rloss(k, p, y) // every term is non-negative, so its own magnitude bounds the rounding
	mag := math.Abs(w) + 1e-300
	if k == lCE || k == lBCE {
		mag += 1
	}
	judge("value", v, w, mag)
	c.Cov("batches judged", 1)
	// the same object again
	judge("repeated value", lossValue(c, loss, k, p, y), w, mag)
	// the same matrices holding other values
	P, Y := toNN(c.R, p), toNN(c.R, y)
	if _, err := loss.Forward(P, Y); err != nil {
		c.Fail("%s loss refused %s: %v", lossNames[k], dims(p), err)
	}
	p2, y2 := genPred(r, k, rows, len(p[0])), genTarget(r, k, rows, len(p[0]))
	refill(r, P, p2)
	refill(r, Y, y2)
	v2, err := loss.Forward(P, Y)
	if err != nil {
		c.Fail("%s loss refused %s: %v", lossNames[k], dims(p), err)
	}
	w2 := rloss(k, P.M, Y.M)
	judge("of the same matrices with other values", v2, w2, math.Abs(w2)+1+math.Abs(mag))
	c.Cov("same matrix with other values", 1)
	// predictions that are the targets
	if r.Intn(3) == 0 {
		q := y
		if k == lCE || k == lBCE {
			q = genPred(r, k, rows, len(p[0]))
		}
		Q := toNN(r, q)
		z, err := loss.Forward(Q, Q)
		if err != nil {
			c.Fail("%s loss refused %s: %v", lossNames[k], dims(q), err)
		}
		wz := rloss(k, q, q)
		judge("of a matrix against itself", z, wz, math.Abs(wz)+1)
		c.Cov("matrix against itself", 1)
	}
	// mean of single rows
	if rows <= 40 {
		s := 0.0
		for i := range p {
			s += lossValue(c, loss, k, M{p[i]}, M{y[i]}) / float64(rows)
		}
		judge("versus the mean over its single rows", v, s, mag)
		c.Cov("row means", 1)
	}
	perm := r.Perm(rows)
	pp, yp := make(M, rows), make(M, rows)
	for i, q := range perm {
		pp[i], yp[i] = p[q], y[q]
	}
	judge("versus permuted samples", v, lossValue(c, loss, k, pp, yp), mag)
	c.Cov("permuted batches", 1)
	if rows > 1 {
		cut := 1 + r.Intn(rows-1)
		a, b := lossValue(c, loss, k, p[:cut], y[:cut]), lossValue(c, loss, k, p[cut:], y[cut:])
		judge("versus its two parts", v, (a*float64(cut)+b*float64(rows-cut))/float64(rows), mag)
	}
}

// refill overwrites all or some rows of a matrix.
func refill(r *rand.Rand, X nn.Matrix, new M) {
	k := r.Intn(3)
	for i := range new {
		if k == 0 || k == 1 && i == len(new)/2 || k == 2 && r.Intn(2) == 0 {
			copy(X.M[i], new[i])
		}
	}
}

func c08model(c *Ctx, k LossK) {
	r := c.R
	m := genModel(r, genOpts{lossOK: []LossK{k}, maxDepth: 3, maxW: 8, kinds: allKinds})
	rows := genSize(r, 40)
	if r.Intn(20) == 0 && m.work() < 300 {
		rows = 1000 + r.Intn(8000)
		if r.Intn(8) == 0 {
			rows = 65500 + r.Intn(600)
		}
		c.Cov("thousands of rows", 1)
	}
	x, y := genM(r, rows, m.in(), vNormal), genTarget(r, k, rows, m.out())
	c.Desc("model %s rows=%d", m, rows)
	if rows > 1 {
		c.NT()
		c.Cov("multi-row batches", 1)
	}
	mod := m.build(c)
	_, outs := m.forward(x)
	X, Y := toNN(r, x), toNN(r, y)
	switch {
	case m.in() == m.out() && k < lCE && r.Intn(3) == 0:
		y, Y = x, X
		c.Cov("inputs are the targets", 1)
	case r.Intn(8) == 0:
		repeated(r, x)
		repeated(r, y)
		_, outs = m.forward(x)
		X, Y = sharing(c, x), sharing(c, y)
	}
	w := rloss(k, outs[len(outs)-1], y)
	for rep := 0; rep < 2; rep++ {
		v, err := mod.CalculateLoss(X, Y)
		if err != nil {
			c.Fail("loss evaluation refused: %v", err)
		}
		if !(math.Abs(v-w) <= 1e-7*(1+math.Abs(w))) {
			c.Fail("loss of model %s on %d rows is %v, want %v", m, rows, v, w)
		}
	}
	c.Cov("model losses", 1)
	c.Cov("batches judged", 1)
}

// scaleErrors now and then makes the numbers of a regression batch small or large.
func scaleErrors(c *Ctx, k LossK, p, y M) {
	r := c.R
	if (k != lMSE && k != lMAE) || r.Intn(8) != 0 || maxAbs(p) > 1e100 || maxAbs(y) > 1e100 {
		return
	}
	scale := math.Pow(10, -20*r.Float64())
	switch r.Intn(3) {
	case 0: // everything small
		if r.Intn(3) == 0 {
			scale = math.Pow(scale, 7)
		}
		c.Cov("small predictions and targets", 1)
	case 1: // predictions next to their targets
		for i := range p {
			for j := range p[i] {
				p[i][j] = y[i][j] + r.NormFloat64()*scale
			}
		}
		c.Cov("predictions next to their targets", 1)
		return
	case 2:
		scale = 1 / scale
		c.Cov("large predictions and targets", 1)
	}
	for i := range p {
		for j := range p[i] {
			p[i][j] *= scale
			y[i][j] *= scale
		}
	}
}

func runC09(c *Ctx) {
	r := c.R
	k := LossK(r.Intn(int(nLoss)))
	p, y := genLossBatch(c, k)
	rows, n := len(p), len(p[0])
	scaleErrors(c, k, p, y)
	c.Desc("%s %s first prediction %v", lossNames[k], dims(p), p[0][0])
	c.Cov("loss "+lossNames[k], 1)
	if rows > 1 {
		c.Cov("multi-row batches", 1)
	}
	loss := buildLoss(c, k, n)
	useLoss(c, loss, k, n)
	if r.Intn(2) == 0 {
		lossValue(c, loss, k, p, y)
	}
	abs := 1e-10
	if k == lMSE || k == lMAE {
		abs = 1e-13
	}
	w := rlossGrad(k, p, y)
	if maxAbs(w) > 0 {
		c.NT()
	}
	var gm M
	for rep := 0; rep < 1+r.Intn(2); rep++ {
		g, err := loss.Backward(toNN(r, p), toNN(r, y))
		if err != nil {
			c.Fail("%s gradient refused %s: %v", lossNames[k], dims(p), err)
		}
		gm = wantShape(c, lossNames[k]+" gradient", g, rows, n)
		checkClose(c, fmt.Sprintf("%s gradient on %s (call %d)", lossNames[k], dims(p), rep), gm, w,
			func(i, j int) float64 {
				return 1e-8*math.Abs(w[i][j]) + abs*(math.Abs(p[i][j])+math.Abs(y[i][j]))/float64(rows*n)
			})
	}
	c.Cov("gradients judged", 1)
	if k == lMAE {
		for i := range p {
			for j := range p[i] {
				if p[i][j] == y[i][j] {
					c.Cov("elements at the kink", 1)
					if gm[i][j] != 0 {
						c.Fail("absolute error gradient at the target is %v", gm[i][j])
					}
				}
			}
		}
	}
	// the same matrices holding other values
	P, Y := toNN(r, p), toNN(r, y)
	if _, err := loss.Backward(P, Y); err != nil {
		c.Fail("%s gradient refused %s: %v", lossNames[k], dims(p), err)
	}
	refill(r, P, genPred(r, k, rows, n))
	refill(r, Y, genTarget(r, k, rows, n))
	g2, err := loss.Backward(P, Y)
	if err != nil {
		c.Fail("%s gradient refused %s: %v", lossNames[k], dims(p), err)
	}
	w2 := rlossGrad(k, P.M, Y.M)
	checkClose(c, fmt.Sprintf("%s gradient on %s, the same matrices with other values", lossNames[k], dims(p)), wantShape(c, lossNames[k]+" gradient", g2, rows, n), w2,
		func(i, j int) float64 {
			return 1e-8*math.Abs(w2[i][j]) + 1e-10*(math.Abs(P.M[i][j])+math.Abs(Y.M[i][j]))/float64(rows*n)
		})
	c.Cov("same matrix with other values", 1)
	// predictions that are the targets
	if r.Intn(3) == 0 {
		q := y
		if k == lCE || k == lBCE {
			q = genPred(r, k, rows, n)
		}
		Q := toNN(r, q)
		g, err := loss.Backward(Q, Q)
		if err != nil {
			c.Fail("%s gradient refused %s: %v", lossNames[k], dims(q), err)
		}
		wq := rlossGrad(k, q, q)
		checkClose(c, fmt.Sprintf("%s gradient of a %s matrix against itself", lossNames[k], dims(q)), wantShape(c, lossNames[k]+" gradient", g, rows, n), wq,
			func(i, j int) float64 {
				return 1e-8*math.Abs(wq[i][j]) + 1e-10*(1+math.Abs(q[i][j]))/float64(rows*n)
			})
		c.Cov("matrix against itself", 1)
	}
	// central differences of the value the code reports
	base := math.Abs(lossValue(c, loss, k, p, y))
	for t := 0; t < 3; t++ {
		i, j := r.Intn(rows), r.Intn(n)
		v := p[i][j]
		h := 1e-4
		switch k {
		case lCE, lBCE:
			h = 1e-4 * math.Min(v, 1-v)
			if v-h < 1.001e-7 || v+h > 1-1.001e-7 {
				continue
			}
			if k == lCE && y[i][j] == 0 {
				h = math.Min(0.1*v, 0.1*(1-v))
				if v-h < 1.001e-7 || v+h > 1-1.001e-7 {
					continue
				}
			}
		case lMSE, lMAE:
			h = 1e-3 * (1 + math.Abs(v) + math.Abs(v-y[i][j]))
			if k == lMAE && math.Abs(v-y[i][j]) < 2*h {
				h = math.Abs(v-y[i][j]) / 2
			}
			if h == 0 || math.Abs(v-y[i][j]) < 1e-9*math.Abs(v) {
				continue
			}
		}
		q := cloneM(p)
		q[i][j] = v + h
		up := lossValue(c, loss, k, q, y)
		hu := q[i][j]
		q[i][j] = v - h
		dn := lossValue(c, loss, k, q, y)
		num := (up - dn) / (hu - q[i][j])
		noise := 1e-13 * (base + math.Abs(up) + math.Abs(dn) + 1e-30) / h
		if noise > 0.01*math.Abs(w[i][j])+1e-9 {
			continue // the difference drowns in rounding
		}
		if !(math.Abs(num-gm[i][j]) <= 1e-5*math.Abs(w[i][j])+noise+1e-12) {
			c.Fail("%s gradient (%d,%d) on %s is %v, but the reported loss changes at rate %v (prediction %v, target %v)", lossNames[k], i, j, dims(p), gm[i][j], num, v, y[i][j])
		}
		c.Cov("numeric derivatives", 1)
	}
}
