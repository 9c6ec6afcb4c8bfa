package main

import (
	"math"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C34", Quick: 400000, Thorough: 6000000, Run: runC34,
		Rule:   "a case runs the same call on two batches which agree but for some samples (or output units) that are not finite, or next to the end of the range, in one of them, and compares the results of all others; non-trivial when both spoiled and unspoiled samples are there",
		Floors: map[string]int64{"unspoiled rows compared": 1200000, "spoiled rows": 600000, "layer forward": 40000, "layer backward": 10000, "model": 15000, "function": 15000, "loss gradient": 8000, "accuracy": 8000, "spoiled units": 6000, "large batches": 500, "only one unspoiled": 3000, "spoiled first": 20000, "spoiled last": 20000}})
}

var spoilers = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e308, -1e300}

// spoil puts other values into rows of m; at least one is spoiled and, of several, one is not.
func spoil(c *Ctx, m M, bad []bool) M {
	r := c.R
	s := cloneM(m)
	style := r.Intn(len(spoilers) + 1)
	for i := range s {
		if !bad[i] {
			continue
		}
		all := r.Intn(2) == 0
		k := r.Intn(len(s[i]))
		for j := range s[i] {
			if all || j == k || r.Intn(6) == 0 {
				if style < len(spoilers) {
					s[i][j] = spoilers[style]
				} else {
					s[i][j] = spoilers[r.Intn(len(spoilers))]
				}
			}
		}
		c.Cov("spoiled rows", 1)
	}
	return s
}

func genBad(c *Ctx, n int) []bool {
	r := c.R
	bad := make([]bool, n)
	switch r.Intn(4) {
	case 0:
		bad[r.Intn(n)] = true
	case 1:
		bad[0] = true
	case 2:
		for i := range bad {
			bad[i] = r.Intn(2) == 0
		}
	default: // all but one
		for i := range bad {
			bad[i] = true
		}
		c.Cov("only one unspoiled", 1)
		bad[r.Intn(n)] = false
	}
	left := false
	for i := range bad {
		left = left || !bad[i]
	}
	if !left {
		bad[r.Intn(n)] = false
	}
	if bad[0] {
		c.Cov("spoiled first", 1)
	}
	if bad[n-1] {
		c.Cov("spoiled last", 1)
	}
	return bad
}

// rowsAlike compares the rows that were not spoiled.
func rowsAlike(c *Ctx, what string, bad []bool, a, b M) {
	for i := range a {
		if bad[i] {
			continue
		}
		c.Cov("unspoiled rows compared", 1)
		scale := 1 + maxAbs(M{a[i]})
		for j := range a[i] {
			if d := math.Abs(a[i][j] - b[i][j]); !sameVal(a[i][j], b[i][j]) && !(d <= 1e-10*scale) {
				c.Fail("%s: row %d, element %d is %v; it is %v where other rows of the batch are not finite", what, i, j, a[i][j], b[i][j])
			}
		}
	}
}

func runC34(c *Ctx) {
	r := c.R
	N := 2 + r.Intn(8)
	if r.Intn(40) == 0 {
		N = 10 + r.Intn(300)
		c.Cov("large batches", 1)
	}
	bad := genBad(c, N)
	for _, b := range bad {
		if b {
			c.NT()
		}
	}
	switch r.Intn(8) {
	case 0, 1:
		c34layer(c, N, bad)
	case 2, 3:
		c34model(c, N, bad)
	case 4, 5:
		c34func(c, N, bad)
	case 6:
		c34loss(c, N, bad)
	case 7:
		if r.Intn(2) == 0 {
			c34units(c, N)
		} else {
			c34acc(c, N, bad)
		}
	}
}

func c34layer(c *Ctx, N int, bad []bool) {
	r := c.R
	in, out := square(r, smallSize(r, 8), smallSize(r, 8))
	l := genLayer(r, Kind(r.Intn(int(nKinds))), in, out, 0.8)
	x, y := l.build(c), l.build(c)
	a := genM(r, N, in, vNormal)
	b := spoil(c, a, bad)
	c.Desc("%s on %d rows", l, N)
	A, B := toNN(r, a), toNN(r, b)
	oa, e1 := inferForward(x, A)
	ob, e2 := inferForward(y, B)
	if e1 != nil || e2 != nil {
		c.Fail("%s: forward pass refused: %v, %v", l, e1, e2)
	}
	rowsAlike(c, "forward pass of "+l.String(), bad, wantShape(c, "forward pass", oa, N, out), wantShape(c, "forward pass", ob, N, out))
	c.Cov("layer forward", 1)
	if r.Intn(4) == 0 {
		return
	}
	d := genM(r, N, out, vNormal)
	f := d
	if r.Intn(2) == 0 {
		f = spoil(c, d, bad)
	}
	_, _, ga, e1 := x.L.Backward(A, toNN(r, d))
	_, _, gb, e2 := y.L.Backward(B, toNN(r, f))
	if e1 != nil || e2 != nil {
		c.Fail("%s: backward pass refused: %v, %v", l, e1, e2)
	}
	rowsAlike(c, "gradient of the inputs of "+l.String(), bad, wantShape(c, "backward pass", ga, N, in), wantShape(c, "backward pass", gb, N, in))
	c.Cov("layer backward", 1)
}

func c34model(c *Ctx, N int, bad []bool) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 4, maxW: 5, lrLo: 1e-4, lrHi: 1e-2, kinds: allKinds})
	mod := m.build(c)
	a := genM(r, N, m.in(), vNormal)
	b := spoil(c, a, bad)
	c.Desc("%s on %d rows", m, N)
	A, B := toNN(r, a), toNN(r, b)
	oa, e1 := mod.Forward(A, false)
	var scores M
	if e1 == nil {
		scores = cloneM(oa[len(oa)-1].M)
	}
	ob, e2 := mod.Forward(B, false)
	if e1 != nil || e2 != nil {
		c.Fail("forward pass refused: %v, %v", e1, e2)
	}
	for i := 1; i < len(oa); i++ {
		w := m.L[i-1].Out
		rowsAlike(c, "output of layer "+m.L[i-1].String(), bad, wantShape(c, "output", oa[i], N, w), wantShape(c, "output", ob[i], N, w))
	}
	pa, e1 := mod.Predict(A)
	pb, e2 := mod.Predict(B)
	if e1 != nil || e2 != nil {
		c.Fail("predict refused: %v, %v", e1, e2)
	}
	if pa.Rows != N || pb.Rows != N || pa.Cols != pb.Cols {
		c.Fail("predictions are %dx%d and %dx%d for %d samples", pa.Rows, pa.Cols, pb.Rows, pb.Cols, N)
	}
	// a decision may hang on the last digit
	skip := append([]bool(nil), bad...)
	for i := range skip {
		if m.Acc != 0 && !decided(scores[i], m.Acc) {
			skip[i] = true
		}
	}
	rowsAlike(c, "prediction", skip, fromNN(c, "prediction", pa), fromNN(c, "prediction", pb))
	c.Cov("model", 1)
}

// decided is true where a decision on the scores does not hang on rounding.
func decided(s []float64, acc int) bool {
	if acc == 2 {
		for _, v := range s {
			if math.Abs(v-0.5) < 1e-6*(1+math.Abs(v)) {
				return false
			}
		}
		return true
	}
	for i := range s {
		for j := range s {
			if i != j && math.Abs(s[i]-s[j]) < 1e-6*(1+math.Abs(s[i])) {
				return false
			}
		}
	}
	return true
}

func c34func(c *Ctx, N int, bad []bool) {
	r := c.R
	cols := smallSize(r, 8)
	a := genM(r, N, cols, vNormal)
	b := spoil(c, a, bad)
	A, B := toNN(r, a), toNN(r, b)
	d := genM(r, N, cols, vNormal)
	w := genM(r, cols, smallSize(r, 6), vNormal)
	slope, s := r.Float64(), r.NormFloat64()
	names := []string{"RELU", "LeakyRELU", "Sigmoid", "Softmax", "Clip", "RowMax", "OutputBinaryValues", "RELUPrime", "LeakyRELUPrime", "SigmoidPrime", "Dot", "Add", "Sub", "Neg", "AddScalar", "MulScalar", "PowScalar"}
	k := r.Intn(len(names))
	c.Desc("%s on %dx%d", names[k], N, cols)
	f := func(X nn.Matrix) (o nn.Matrix) {
		var err error
		D := toNN(r, d)
		switch k {
		case 0:
			o = nn.RELU(X)
		case 1:
			o = nn.LeakyRELU(X, slope)
		case 2:
			o = nn.Sigmoid(X)
		case 3:
			o = nn.Softmax(X)
		case 4:
			o = nn.Clip(X)
		case 5:
			o = nn.RowMax(X)
		case 6:
			o = nn.OutputBinaryValues(X)
		case 7:
			o = nn.RELUPrime(D, X)
		case 8:
			o = nn.LeakyRELUPrime(D, X, slope)
		case 9:
			o = nn.SigmoidPrime(X, D)
		case 10:
			o, err = X.Dot(toNN(r, w))
		case 11:
			o, err = X.Add(D)
		case 12:
			o, err = X.Sub(D)
		case 13:
			o = X.Neg()
		case 14:
			o = X.AddScalar(s)
		case 15:
			o = X.MulScalar(s)
		case 16:
			o = X.PowScalar(2)
		}
		if err != nil {
			c.Fail("%s refused: %v", names[k], err)
		}
		return
	}
	rowsAlike(c, names[k], bad, fromNN(c, names[k], f(A)), fromNN(c, names[k], f(B)))
	c.Cov("function", 1)
}

func c34loss(c *Ctx, N int, bad []bool) {
	r := c.R
	k, n := LossK(r.Intn(int(nLoss))), smallSize(r, 6)
	loss := buildLoss(c, k, n)
	y := genTarget(r, k, N, n)
	p := zeros(N, n)
	for i := range p {
		for j := range p[i] {
			p[i][j] = 0.01 + 0.98*r.Float64()
		}
	}
	q := spoil(c, p, bad)
	c.Desc("%s of %dx%d", lossNames[k], N, n)
	ga, e1 := loss.Backward(toNN(r, p), toNN(r, y))
	gb, e2 := loss.Backward(toNN(r, q), toNN(r, y))
	if e1 != nil || e2 != nil {
		c.Fail("loss gradient refused: %v, %v", e1, e2)
	}
	rowsAlike(c, "gradient of the "+lossNames[k]+" loss", bad, wantShape(c, "gradient", ga, N, n), wantShape(c, "gradient", gb, N, n))
	c.Cov("loss gradient", 1)
}

// c34acc: samples that are not finite count as right or wrong, the others as ever.
func c34acc(c *Ctx, N int, bad []bool) {
	r := c.R
	n := 1 + r.Intn(6)
	y := genTarget(r, lCE, N, n)
	if r.Intn(3) > 0 {
		y = genTarget(r, lBCE, N, n)
	}
	p := zeros(N, n)
	for i := range p {
		for j := range p[i] {
			p[i][j] = r.Float64()
			if r.Intn(2) == 0 {
				p[i][j] = math.Abs(y[i][j] - 0.3*r.Float64())
			}
		}
	}
	q := spoil(c, p, bad)
	nbad := 0
	for _, b := range bad {
		if b {
			nbad++
		}
	}
	rest := func(m M) (o M) {
		for i := range m {
			if !bad[i] {
				o = append(o, m[i])
			}
		}
		return
	}
	c.Desc("accuracies of %dx%d", N, n)
	prec := r.Float64()
	for k, name := range []string{"regression accuracy", "categorical accuracy", "binary accuracy"} {
		f := func(p, y M) float64 {
			P, Y := toNN(r, p), toNN(r, y)
			switch k {
			case 0:
				return nn.RegressionAccuracy(P, Y, prec)
			case 1:
				return nn.CategoricalAccuracy(P, Y)
			}
			return nn.BinaryCategoricalAccuracy(P, Y)
		}
		part := f(rest(p), rest(y)) * float64(N-nbad)
		if all := f(q, y) * float64(N); !(all >= part-1e-6*float64(N) && all <= part+float64(nbad)+1e-6*float64(N)) {
			c.Fail("%s: %v of the %d finite samples are right, and %v of all %d", name, part, N-nbad, all, N)
		}
	}
	c.Cov("accuracy", 1)
}

// c34units: parameters of one unit that are not finite spoil the outputs of that unit.
func c34units(c *Ctx, N int) {
	r := c.R
	in, out := smallSize(r, 8), 2+r.Intn(7)
	k := Kind(r.Intn(int(nKinds)))
	if k == kSoftmax {
		k = kLinear
	}
	l := genLayer(r, k, in, out, 0.8)
	x, y := l.build(c), l.build(c)
	bad := genBad(c, out)
	for j := range bad {
		if bad[j] {
			for i := range y.W().M {
				if r.Intn(2) == 0 {
					y.W().M[i][j] = spoilers[r.Intn(len(spoilers))]
				}
			}
			y.B().M[0][j] = spoilers[r.Intn(len(spoilers))]
		}
	}
	a := genM(r, N, in, vNormal)
	c.Desc("%s on %d rows, units spoiled", l, N)
	oa, e1 := inferForward(x, toNN(r, a))
	ob, e2 := inferForward(y, toNN(r, a))
	if e1 != nil || e2 != nil {
		c.Fail("%s: forward pass refused: %v, %v", l, e1, e2)
	}
	tr := func(m nn.Matrix) M {
		g := wantShape(c, "forward pass", m, N, out)
		t := zeros(out, N)
		for i := range g {
			for j := range g[i] {
				t[j][i] = g[i][j]
			}
		}
		return t
	}
	rowsAlike(c, "forward pass of "+l.String()+" (rows are units)", bad, tr(oa), tr(ob))
	c.Cov("spoiled units", 1)
}
