package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C17", Quick: 250000, Thorough: 2000000, Run: runC17,
		Rule: "a case is one score matrix with targets built around the decision boundaries (ties, all-negative rows, exactly 0.5 and its neighbours, errors exactly at the precision); decisions and metrics are compared with their definitions, directly and through a model that passes the scores on unchanged; non-trivial when the matrix has at least two rows",
		Floors: map[string]int64{"class decisions": 50000, "binary decisions": 50000, "tied maxima": 10000, "all-negative rows": 20000, "exactly one half": 5000, "neighbours of one half": 5000, "error exactly at precision": 5000, "fractions judged": 60000,
			"through a model": 30000, "single column": 1000, "wide scores": 500, "extreme precisions": 800, "very wide scores": 30, "large batches": 700, "single row": 1000, "targets not one-hot": 5000}})
	register(&Prop{ID: "C18", Quick: 150000, Thorough: 800000, Run: runC18, Final: finalC18,
		Rule:   "a case is either a one-hot encoding (valid labels or one bad label) or a batch of shuffles of identifiable rows; each result is checked completely, and over all cases the frequencies of all orders of 2 to 5 rows and of all positions of 8 rows are tested at 8 sigma; non-trivial with at least two rows",
		Floors: map[string]int64{"encodings judged": 10000, "bad labels refused": 2000, "bad widths refused": 1000, "shuffles judged": 100000, "orders of 5 rows": 30000, "orders of 8 rows": 10000, "large shuffles": 150, "wide encodings": 300, "very wide encodings": 25, "very large shuffles": 5, "shuffles with shared storage": 15000, "shuffles of sharing kind 1": 3000, "shuffles of sharing kind 2": 3000, "long orders tested": 180, "tables from sixteenths to sixteenths": 10, "special values": 2000}})
}

func genScores(c *Ctx, rows, cols int) M {
	r := c.R
	p := zeros(rows, cols)
	kind := r.Intn(7)
	for i := range p {
		for j := range p[i] {
			switch kind {
			case 0: // grid with many ties
				p[i][j] = float64(r.Intn(5)-2) / 4
			case 1: // all negative
				p[i][j] = -math.Exp(r.NormFloat64() * 3)
			case 2: // around one half
				p[i][j] = pick(r, 0.5, math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), 0.4999, 0.5001, 0, 1, -0.5)
			case 3:
				p[i][j] = r.Float64()
			case 4: // extreme
				p[i][j] = pick(r, -math.MaxFloat64, math.MaxFloat64, -1e308, 0, math.Copysign(0, -1), 5e-324, -5e-324, -1, 1)
			case 5: // all equal
				p[i][j] = float64(i) - 3
			default:
				p[i][j] = r.NormFloat64() * 3
			}
		}
		ties, neg, mx := 0, true, rArgmax(p[i])
		for j, v := range p[i] {
			if v == p[i][mx] && j != mx {
				ties++
			}
			if v >= 0 {
				neg = false
			}
			if v == 0.5 {
				c.Cov("exactly one half", 1)
			} else if math.Abs(v-0.5) < 1e-15 {
				c.Cov("neighbours of one half", 1)
			}
		}
		if ties > 0 {
			c.Cov("tied maxima", 1)
		}
		if neg {
			c.Cov("all-negative rows", 1)
		}
	}
	return p
}

func runC17(c *Ctx) {
	r := c.R
	rows, cols := genSize(r, 40), genSize(r, 20)
	if cols > 20 {
		cols = 20
	}
	rows = manyRows(c, rows, cols)
	if r.Intn(60) == 0 {
		rows, cols = 1+r.Intn(4), 100+r.Intn(700)
		c.Cov("wide scores", 1)
		if r.Intn(15) == 0 {
			cols = []int{4097, 10000, 32768, 32769, 40000, 65535, 65536, 65537, 70000}[r.Intn(9)]
			c.Cov("very wide scores", 1)
		}
	}
	p := genScores(c, rows, cols)
	if cols > 4000 { // the maximum anywhere
		for i := range p {
			if r.Intn(2) == 0 {
				p[i][r.Intn(cols)] = 1 + 3*math.Abs(maxAbs(p[i:i+1]))
			}
		}
	}
	relate(r, p)
	few := p[0]
	if cols > 40 {
		few = few[:40]
	}
	c.Desc("%dx%d %v", rows, cols, few)
	if rows > 1 {
		c.NT()
	} else {
		c.Cov("single row", 1)
	}
	if cols == 1 {
		c.Cov("single column", 1)
	}
	checkClass := func(what string, g M) {
		for i := range g {
			if g[i][0] != float64(rArgmax(p[i])) {
				c.Fail("%s: row %v decided as %v, want %d", what, p[i], g[i][0], rArgmax(p[i]))
			}
		}
		c.Cov("class decisions", rows)
	}
	bin := func(v float64) float64 {
		if v < 0.5 {
			return 0
		}
		return 1
	}
	checkBin := func(what string, g M) {
		for i := range g {
			for j := range g[i] {
				if g[i][j] != bin(p[i][j]) {
					c.Fail("%s: %v decided as %v", what, p[i][j], g[i][j])
				}
			}
		}
		c.Cov("binary decisions", rows*cols)
	}
	P := toNN(r, p)
	checkClass("RowMax", wantShape(c, "RowMax", nn.RowMax(P), rows, 1))
	checkBin("OutputBinaryValues", wantShape(c, "OutputBinaryValues", nn.OutputBinaryValues(toNN(r, p)), rows, cols))

	// metrics
	acc := r.Intn(3)
	prec := pick(r, 0, 0.125, 0.25, 0.5, 1, 2, 1e-9, r.Float64())
	unit := 1.0
	if acc == 0 && r.Intn(25) == 0 && maxAbs(p) < 1e6 { // scores and precision of any magnitude
		scale := math.Pow(10, []float64{-322, -310, -300, -200, -170, -100, 100, 160, 200, 290}[r.Intn(10)])
		for i := range p {
			for j := range p[i] {
				p[i][j] *= scale
			}
		}
		prec, unit = prec*scale, scale
		c.Cov("extreme precisions", 1)
	}
	y := zeros(rows, cols)
	odd := r.Intn(3) == 0
	if odd {
		c.Cov("targets not one-hot", 1)
	}
	for i := range y {
		switch acc {
		case 1:
			k := r.Intn(cols)
			if r.Intn(2) == 0 {
				k = rArgmax(p[i])
			}
			y[i][k] = 1
			if odd {
				for j := range y[i] {
					if r.Intn(4) == 0 {
						y[i][j] = pick(r, 0, 1, 0.999999, 2, -1, 0.5)
					}
				}
			}
		case 2:
			for j := range y[i] {
				y[i][j] = float64(r.Intn(2))
				if odd && r.Intn(4) == 0 {
					y[i][j] = pick(r, 0.3, 0.5, 0.7, -1, 2)
				}
			}
		default:
			for j := range y[i] {
				switch r.Intn(5) {
				case 0:
					y[i][j] = p[i][j]
				case 1: // an error that is exactly the precision, if representable
					y[i][j] = p[i][j] + prec
					if y[i][j]-p[i][j] == prec && prec > 0 {
						c.Cov("error exactly at precision", 1)
					}
				case 2:
					y[i][j] = p[i][j] - prec
				case 3:
					y[i][j] = p[i][j] + prec*(2*r.Float64()-1)*1.5
				default:
					y[i][j] = r.NormFloat64() * unit
				}
			}
		}
	}
	want := rAccuracy(acc, prec, p, y)
	P, Y := toNN(r, p), toNN(r, y)
	if r.Intn(8) == 0 {
		P, Y = sharing(c, p), sharing(c, y)
	}
	var got float64
	switch acc {
	case 0:
		got = nn.RegressionAccuracy(P, Y, prec)
	case 1:
		got = nn.CategoricalAccuracy(P, Y)
	case 2:
		got = nn.BinaryCategoricalAccuracy(P, Y)
	}
	if !(math.Abs(got-want) <= 1e-12) {
		c.Fail("accuracy metric %d (precision %v) is %v, want %v for predictions %v, targets %v", acc, prec, got, want, p, y)
	}
	c.Cov("fractions judged", 1)

	// The same through a model that hands the scores on: identity weights keep every
	// finite value exactly.
	if maxAbs(p) > 1e150 || r.Intn(4) == 0 || cols > 400 {
		return
	}
	l := &RL{K: kLinear, In: cols, Out: cols, W: zeros(cols, cols), B: make([]float64, cols)}
	for j := 0; j < cols; j++ {
		l.W[j][j] = 1
	}
	mod := nn.NewModel()
	if err := mod.AddLayer(l.build(c).L); err != nil {
		c.Fail("AddLayer refused: %v", err)
	}
	o := genOpt(r, 0.01, 0.1)
	if err := mod.Finalize(buildLoss(c, lMSE, cols), o.build(c), nn.AccuracyType(acc), prec); err != nil {
		c.Fail("Finalize refused: %v", err)
	}
	a, err := mod.CalculateAccuracy(toNN(r, p), toNN(r, y))
	if err != nil {
		c.Fail("accuracy refused: %v", err)
	}
	if !(math.Abs(a-want) <= 1e-12) {
		c.Fail("model accuracy of type %d (precision %v) is %v, want %v for outputs %v, targets %v", acc, prec, a, want, p, y)
	}
	d, err := mod.Predict(toNN(r, p))
	if err != nil {
		c.Fail("predict refused: %v", err)
	}
	switch acc {
	case 0:
		g := wantShape(c, "prediction", d, rows, cols)
		for i := range g {
			for j := range g[i] {
				if g[i][j] != p[i][j] {
					c.Fail("prediction is %v, the model's output is %v", g[i][j], p[i][j])
				}
			}
		}
	case 1:
		checkClass("model prediction", wantShape(c, "prediction", d, rows, 1))
	case 2:
		checkBin("model prediction", wantShape(c, "prediction", d, rows, cols))
	}
	c.Cov("fractions judged", 1)
	c.Cov("through a model", 1)
}

// ---- C18 ----

func runC18(c *Ctx) {
	if c.R.Intn(2) == 0 {
		oneHot(c)
	} else {
		shuffles(c)
	}
}

func oneHot(c *Ctx) {
	r := c.R
	rows, size := genSize(r, 60), genSize(r, 40)
	switch r.Intn(30) {
	case 0:
		size = 100 + r.Intn(1000)
		c.Cov("wide encodings", 1)
		if r.Intn(10) == 0 {
			rows, size = 1+r.Intn(5), []int{4097, 10000, 32768, 32769, 40000, 65535, 65536, 65537, 70000}[r.Intn(9)]
			c.Cov("very wide encodings", 1)
		}
	case 1:
		rows = 100 + r.Intn(2000)
	}
	c.Desc("onehot %d labels, width %d", rows, size)
	x := zeros(rows, 1)
	for i := range x {
		x[i][0] = float64(r.Intn(size))
		if r.Intn(4) == 0 {
			x[i][0] = float64([]int{0, size - 1}[r.Intn(2)])
		}
	}
	if rows > 1 {
		c.NT()
	}
	X := toNN(r, x)
	switch r.Intn(5) {
	case 0:
		w := []int{0, -1, -size, -1 << 40}[r.Intn(4)]
		if _, err := nn.SparseToOneHot(X, w); err == nil {
			c.Fail("one-hot encoding accepted width %d", w)
		}
		c.Cov("bad widths refused", 1)
		return
	case 1:
		i := r.Intn(rows)
		bad := pick(r, float64(size), float64(size+1+r.Intn(10)), -1, -float64(1+r.Intn(9)), -float64(size), math.Inf(1), math.Inf(-1), math.NaN(), 1e18, -1e18, 1e300, -0.5)
		X.M[i][0] = bad
		if _, err := nn.SparseToOneHot(X, size); err == nil {
			c.Fail("one-hot encoding of width %d accepted label %v", size, bad)
		}
		c.Cov("bad labels refused", 1)
		return
	}
	g, err := nn.SparseToOneHot(X, size)
	if err != nil {
		c.Fail("one-hot encoding refused labels %v of width %d: %v", x, size, err)
	}
	a := wantShape(c, "one-hot encoding", g, rows, size)
	for i := range a {
		for j := range a[i] {
			w := 0.0
			if float64(j) == x[i][0] {
				w = 1
			}
			if a[i][j] != w {
				c.Fail("one-hot row %d for label %v holds %v in column %d", i, x[i][0], a[i][j], j)
			}
		}
	}
	if !sameBits(X.M, x) {
		c.Fail("one-hot encoding changed the labels")
	}
	c.Cov("encodings judged", 1)
}

func shuffles(c *Ctx) {
	r := c.R
	n := []int{1, 2, 3, 4, 5, 5, 5, 5, 8, 8}[r.Intn(10)]
	reps := 10
	if r.Intn(20) == 0 {
		n, reps = genSize(r, 400), 3
		if r.Intn(10) == 0 {
			n = 500 + r.Intn(3000)
			if r.Intn(5) == 0 {
				n, reps = []int{10000, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 100000, 140000}[r.Intn(10)], 2
				c.Cov("very large shuffles", 1)
			}
		}
		if n > 8 {
			c.Cov("large shuffles", 1)
		}
	}
	xc, yc := 1+r.Intn(4), 1+r.Intn(3)
	special := r.Intn(4) == 0
	if special {
		c.Cov("special values", 1)
	}
	c.Desc("shuffle %d rows %dx %dx%d", n, reps, xc, yc)
	if n > 1 {
		c.NT()
	}
	var last []int
	for k := 0; k < reps; k++ {
		x, y := genM(r, n, xc, vNormal), genM(r, n, yc, vNormal)
		if special {
			x, y = genM(r, n, xc, vSpecial), genM(r, n, yc, vSpecial)
		}
		for i := range x { // identity
			x[i][0], y[i][0] = float64(i), float64(1000+i)
		}
		X, Y := toNN(r, x), toNN(r, y)
		shared := 0
		if r.Intn(4) == 0 {
			switch shared = 1 + r.Intn(4); shared {
			case 1: // the targets are the inputs
				Y, y = X, cloneM(x)
			case 2: // the targets are the next inputs, in the same list of rows
				data := genM(r, n+1, xc, vNormal)
				later := r.Intn(2)
				for i := range data {
					data[i][0] = float64((i + later*n) % (n + 1))
				}
				xs, ys := data[later:n+later], data[1-later:n+1-later]
				x, y = cloneM(xs), cloneM(ys)
				X, Y = nnFrom(xs), nnFrom(ys)
			case 3: // two lists of the same rows
				Y, y = nnFrom(append(M(nil), X.M...)), cloneM(x)
			case 4: // both cut from the same rows
				var l, t M
				for i := range x {
					row := append(append([]float64(nil), x[i]...), y[i]...)
					l, t = append(l, row[:xc]), append(t, row[xc:])
				}
				X, Y = nnFrom(l), nnFrom(t)
			}
			c.Cov("shuffles with shared storage", 1)
			c.Cov(fmt.Sprintf("shuffles of sharing kind %d", shared), 1)
		}
		A, B := nn.ShuffleDataset(X, Y)
		yc := len(y[0])
		a, b := wantShape(c, "shuffled inputs", A, n, xc), wantShape(c, "shuffled targets", B, n, yc)
		perm := make([]int, n)
		seen := make([]bool, n)
		for i := range a {
			o := int(a[i][0])
			if !(a[i][0] >= 0 && a[i][0] < float64(n)) || float64(o) != a[i][0] || seen[o] {
				c.Fail("shuffling %d rows: row %d of the result is no row of the input, or one that was there before: %v", n, i, a[i])
			}
			seen[o] = true
			perm[i] = o
			if !sameBits(M{a[i]}, M{x[o]}) {
				c.Fail("shuffling changed input row %d", o)
			}
			if !sameBits(M{b[i]}, M{y[o]}) {
				c.Fail("after shuffling %d rows, input %d is paired with target %v, want %v", n, o, b[i], y[o])
			}
		}
		// rows stay separate
		i := r.Intn(n)
		if shared == 0 || shared == 4 {
			A.M[i][0], B.M[i][0] = -7, -8
		}
		for j := range A.M {
			if j != i && (A.M[j][0] == -7 || B.M[j][0] == -8) {
				c.Fail("after shuffling, rows %d and %d share their storage", i, j)
			}
		}
		if n >= 50 {
			// a long order: no trace of the old one, nor of the last
			var half, near, next, same int
			var rho float64
			for i, o := range perm {
				if i < n/2 && o < n/2 {
					half++
				}
				if d := i - o; d*d <= n*n/64 {
					near++
				}
				if i > 0 && (o == perm[i-1]+1 || o == perm[i-1]-1) {
					next++
				}
				if len(last) == n && last[i] == o {
					same++
				}
				rho += (float64(i) - float64(n-1)/2) * (float64(o) - float64(n-1)/2)
			}
			N := float64(n)
			rho /= N * (N*N - 1) / 12
			h := float64(n / 2)
			mean, sd := h*h/N, math.Sqrt(h*h*(N-h)*(N-h)/(N*N*(N-1)))
			if math.Abs(float64(half)-mean) > 9*sd+1 {
				c.Fail("shuffling %d rows left %d of the first half there, expected %.0f give or take %.1f", n, half, mean, sd)
			}
			if math.Abs(rho) > 9/math.Sqrt(N-1) {
				c.Fail("the order after shuffling %d rows correlates with the one before (%.3f)", n, rho)
			}
			if p := 0.234375; float64(near) > p*N+2+9*math.Sqrt(p*(1-p)*N)+0.05*N {
				c.Fail("after shuffling %d rows, %d are within an eighth of the length of where they were", n, near)
			}
			for cut := 2; cut < n; cut *= 2 { // how many stay on their side of a power of two
				stay := 0
				for _, o := range perm[cut:] {
					if o >= cut {
						stay++
					}
				}
				K := N - float64(cut)
				mean, sd := K*K/N, math.Sqrt(K*K*(N-K)*(N-K)/(N*N*(N-1)))
				if math.Abs(float64(stay)-mean) > 9*sd+4 {
					c.Fail("shuffling %d rows left %d of those from %d on there, expected %.0f give or take %.1f", n, stay, cut, mean, sd)
				}
			}
			if n >= 4000 { // from everywhere to everywhere
				var cells [16][16]int
				var size [16]int
				for i, o := range perm {
					cells[i*16/n][o*16/n]++
					size[i*16/n]++
				}
				chi := 0.0
				for i := range cells {
					for j := range cells {
						e := float64(size[i]) * float64(size[j]) / N
						chi += (float64(cells[i][j]) - e) * (float64(cells[i][j]) - e) / e
					}
				}
				if math.Abs(chi-225) > 10*math.Sqrt(2*225) {
					c.Fail("shuffling %d rows does not lead from everywhere to everywhere alike (chi-squared %.0f, expected 225 give or take 21)", n, chi)
				}
				c.Cov("tables from sixteenths to sixteenths", 1)
			}
			if next > 50 || same > 50 {
				c.Fail("after shuffling %d rows, %d neighbours are neighbours still and %d rows are where the last shuffle put them", n, next, same)
			}
			last = perm
			c.Cov("long orders tested", 1)
		}
		c.Cov("shuffles judged", 1)
		if n >= 2 && n <= 5 {
			c.Cov("#"+fmt.Sprint(n)+"/"+strings.Trim(fmt.Sprint(perm), "[]"), 1)
			c.Cov(fmt.Sprintf("orders of %d rows", n), 1)
		}
		if n == 8 {
			for i, o := range perm {
				c.Cov(fmt.Sprintf("#8/%d at %d", o, i), 1)
			}
			c.Cov("orders of 8 rows", 1)
		}
	}
}

func nnFrom(rows M) nn.Matrix {
	m, err := nn.NewMatrixFromSlice(rows)
	if err != nil {
		panic(err)
	}
	return m
}

func permute(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for v := 0; v < n; v++ {
			if !used[v] {
				used[v], p[i] = true, v
				rec(i + 1)
				used[v] = false
			}
		}
	}
	rec(0)
}

func finalC18(cov map[string]int64) string {
	msg := ""
	test := func(what string, got, n int64, p float64) {
		e := float64(n) * p
		sd := math.Sqrt(e * (1 - p))
		if n > 500 && e > 40 && math.Abs(float64(got)-e) > 8*sd {
			if msg == "" {
				msg = fmt.Sprintf("shuffling is not uniform: %s came up %d times in %d shuffles, expected %.1f (8 sigma: %.1f)", what, got, n, e, 8*sd)
			}
		}
		cov["frequencies tested"]++
	}
	f := 1.0
	for n := 2; n <= 5; n++ {
		f *= float64(n)
		tot := cov[fmt.Sprintf("orders of %d rows", n)]
		permute(n, func(p []int) {
			k := strings.Trim(fmt.Sprint(p), "[]")
			test(fmt.Sprintf("order %s of %d rows", k, n), cov["#"+fmt.Sprint(n)+"/"+k], tot, 1/f)
		})
	}
	tot := cov["orders of 8 rows"]
	for o := 0; o < 8; o++ {
		for i := 0; i < 8; i++ {
			test(fmt.Sprintf("row %d of 8 at position %d", o, i), cov[fmt.Sprintf("#8/%d at %d", o, i)], tot, 0.125)
		}
	}
	return msg
}
