package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C24", Quick: 24000, Thorough: 400000, Run: runC24, Final: finalC24,
		Rule: "a case is one layer of any kind and size, or one model of up to 5 layers, initialised several times (fresh, with other parameters loaded, after training, after loading from a file); every initialisation is checked for leaving biases and shapes alone, for touching every weight, for repeats and for agreement with other initialisations, large ones for moments and correlations on their own, and all weights together (per layer kind, input size class and position) for the moments and the bins of the standard normal; non-trivial when the layer had at least 2 weights",
		Floors: map[string]int64{"many equal layers": 100, "very deep models": 50, "initialisations": 60000, "weights drawn": 4000000, "repeated initialisations": 30000, "models initialised": 3000, "moments judged alone": 1500, "layer pairs compared": 15000, "fresh layers seen zero": 8000,
			"kind relu": 8000, "kind linear": 8000, "kind sigmoid": 8000, "kind leaky": 8000, "kind softmax": 8000, "kind dropout": 8000, "single input": 3000, "loaded before initialisation": 800, "large layers": 15, "layer pairs searched for shifted draws": 15000}})
}

// edges of the bins of the standard normal distribution
var zEdges = []float64{-3, -2, -1.5, -1, -0.5, -0.2, 0, 0.2, 0.5, 1, 1.5, 2, 3}

func zBin(z float64) int { return sort.SearchFloat64s(zEdges, z) }

func zProb(b int) float64 {
	phi := func(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }
	lo, hi := 0.0, 1.0
	if b > 0 {
		lo = phi(zEdges[b-1])
	}
	if b < len(zEdges) {
		hi = phi(zEdges[b])
	}
	return hi - lo
}

func inClass(in int) string {
	switch {
	case in <= 4:
		return fmt.Sprint(in)
	case in <= 8:
		return "5-8"
	case in <= 20:
		return "9-20"
	}
	return "21+"
}

const zFix = 1 << 24 // fixed point of the aggregated sums

// recordInit checks one initialised weight matrix and adds it to the aggregate.
func recordInit(c *Ctx, what string, k Kind, w M) []float64 {
	in, out := len(w), len(w[0])
	std := math.Sqrt(2 / float64(in))
	z := make([]float64, 0, in*out)
	type acc struct{ n, s1, s2 float64 }
	sums := map[string]*acc{}
	add := func(key string, v float64) {
		a := sums[key]
		if a == nil {
			a = &acc{}
			sums[key] = a
		}
		a.n++
		a.s1 += v
		a.s2 += v * v
	}
	for i := range w {
		for j := range w[i] {
			v := w[i][j] / std
			if !finite(v) || math.Abs(v) > 12 {
				c.Fail("%s: weight (%d,%d) is %v, that is %g standard deviations", what, i, j, w[i][j], v)
			}
			z = append(z, v)
			add("kind "+kindNames[k], v)
			add("inputs "+inClass(in), v)
			switch {
			case in > 1 && i == in-1:
				add("last row", v)
			case in > 1 && i == 0:
				add("first row", v)
			}
			switch {
			case out > 1 && j == out-1:
				add("last column", v)
			case out > 1 && j == 0:
				add("first column", v)
			}
			if in > out {
				add("more inputs", v)
			} else if in < out {
				add("more outputs", v)
			}
			c.cov[fmt.Sprintf("#b/kind %s/%d", kindNames[k], zBin(v))]++
		}
	}
	for key, a := range sums {
		c.cov["#n/"+key] += int64(a.n)
		c.cov["#s1/"+key] += int64(math.Round(a.s1 * zFix))
		c.cov["#s2/"+key] += int64(math.Round(a.s2 * zFix))
	}
	c.Cov("initialisations", 1)
	c.Cov("weights drawn", len(z))
	c.Cov("kind "+kindNames[k], 1)
	if in == 1 {
		c.Cov("single input", 1)
	}
	// Repeated values: the generator has 2^32 outcomes or more.
	s := make([]float64, len(z))
	for i := range z {
		s[i] = math.Abs(z[i])
	}
	sort.Float64s(s)
	dup := 0
	for i := 1; i < len(s); i++ {
		if s[i] == s[i-1] {
			dup++
		}
	}
	if n := float64(len(s)); float64(dup) > 3+n*n/(1<<29) {
		c.Fail("%s: %d of %d weights of a %dx%d layer repeat another weight, or its negative", what, dup, len(z), in, out)
	}
	if len(z) >= 400 {
		moments(c, what, z)
		// neighbours along rows and columns
		corr(c, what+": weights one column apart", pairs(w, 0, 1))
		corr(c, what+": weights one row apart", pairs(w, 1, 0))
		c.Cov("moments judged alone", 1)
	}
	return z
}

func pairs(w M, di, dj int) [][2]float64 {
	var p [][2]float64
	std := math.Sqrt(2 / float64(len(w)))
	for i := 0; i+di < len(w); i++ {
		for j := 0; j+dj < len(w[i]); j++ {
			p = append(p, [2]float64{w[i][j] / std, w[i+di][j+dj] / std})
		}
	}
	return p
}

func moments(c *Ctx, what string, z []float64) {
	n := float64(len(z))
	s1, s2 := 0.0, 0.0
	for _, v := range z {
		s1 += v
		s2 += v * v
	}
	if m := s1 / n; math.Abs(m) > 8/math.Sqrt(n) {
		c.Fail("%s: mean of %d standardised weights is %g, want 0 within %g", what, len(z), m, 8/math.Sqrt(n))
	}
	if v := s2 / n; math.Abs(v-1) > 9*math.Sqrt(2/n)+30/n {
		c.Fail("%s: variance of %d standardised weights is %g, want 1 within %g", what, len(z), v, 9*math.Sqrt(2/n)+30/n)
	}
}

func corr(c *Ctx, what string, p [][2]float64) {
	if len(p) < 200 {
		return
	}
	s := 0.0
	for _, q := range p {
		s += q[0] * q[1]
	}
	n := float64(len(p))
	if m := s / n; math.Abs(m) > 8/math.Sqrt(n)+30/n {
		c.Fail("%s: correlation over %d pairs is %g, want 0 within %g", what, len(p), m, 8/math.Sqrt(n)+30/n)
	}
}

// unrelated checks that two initialisations are not the same draws.
func unrelated(c *Ctx, what string, a, b []float64) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	same := 0
	p := make([][2]float64, n)
	for i := 0; i < n; i++ {
		if math.Abs(a[i]-b[i]) <= 1e-12*math.Abs(a[i]) || math.Abs(a[i]+b[i]) <= 1e-12*math.Abs(a[i]) {
			same++
		}
		p[i] = [2]float64{a[i], b[i]}
	}
	c.Cov("layer pairs compared", 1)
	if n >= 3 && same >= 3 {
		c.Fail("%s: %d of %d standardised weights are the same draws", what, same, n)
	}
	// the same draws at other places: weights that agree to 9 digits
	if len(a) <= 1000 && len(b) <= 1000 {
		x, y := absSorted(a), absSorted(b)
		hits := 0
		for i, j := 0, 0; i < len(x) && j < len(y); {
			switch d := x[i] - y[j]; {
			case math.Abs(d) <= 1e-9:
				hits++
				i++
				j++
			case d < 0:
				i++
			default:
				j++
			}
		}
		if float64(hits) > 3+float64(len(x))*float64(len(y))*3e-8 {
			c.Fail("%s: %d of %d and %d standardised weights agree, at other places", what, hits, len(x), len(y))
		}
		c.Cov("layer pairs searched for shifted draws", 1)
	}
	corr(c, what, p)
	return same == n
}

func absSorted(a []float64) []float64 {
	s := make([]float64, len(a))
	for i := range a {
		s[i] = math.Abs(a[i])
	}
	sort.Float64s(s)
	return s
}

func initSize(r *rand.Rand) (int, int) {
	if r.Intn(500) == 0 { // large
		in, out := 128+r.Intn(300), 128+r.Intn(300)
		switch r.Intn(4) {
		case 0:
			return in * 200, 1
		case 1:
			return 1, out * 200
		}
		return in, out
	}
	switch r.Intn(12) {
	case 0:
		return 1 + r.Intn(3), 40 + r.Intn(200)
	case 1:
		return 40 + r.Intn(200), 1 + r.Intn(3)
	case 2, 3:
		return 10 + r.Intn(50), 10 + r.Intn(50)
	}
	return square(r, genSize(r, 40), genSize(r, 40))
}

func runC24(c *Ctx) {
	r := c.R
	if r.Intn(4) == 0 {
		c24Model(c)
		return
	}
	in, out := initSize(r)
	l := genLayer(r, Kind(r.Intn(int(nKinds))), in, out, 1)
	if l.K == kDropout && r.Intn(4) == 0 {
		l.Drop = 1
	}
	c.Desc("%s", l)
	if in*out > 1 {
		c.NT()
	}
	if in*out > 1<<14 {
		c.Cov("large layers", 1)
	}
	zero := l.clone()
	zero.W, zero.B = zeros(in, out), make([]float64, out)
	x := buildBare(c, l)
	w, b := wantShape(c, "new weights", *x.W(), in, out), wantShape(c, "new biases", *x.B(), 1, out)
	if maxAbs(w) != 0 || maxAbs(b) != 0 {
		c.Fail("new layer %s: weights or biases are not zero before initialisation", l)
	}
	c.Cov("fresh layers seen zero", 1)
	if r.Intn(2) == 0 {
		l.load(c, x) // other parameters, not zero
	} else {
		l = zero
	}
	y := buildBare(c, l) // a second layer of the same type and size
	var prev [][]float64
	reps := 2 + r.Intn(3)
	var history []M
	for i := 0; i < reps; i++ {
		x.L.Init()
		what := fmt.Sprintf("initialisation %d of %s", i, l)
		w = wantShape(c, what+": weights", *x.W(), in, out)
		if b := wantShape(c, what+": biases", *x.B(), 1, out); !sameBits(b, M{l.B}) {
			c.Fail("%s: biases changed", what)
		}
		z := recordInit(c, what, l.K, w)
		for k, p := range prev {
			unrelated(c, fmt.Sprintf("%s against initialisation %d", what, k), z, p)
		}
		prev = append(prev, z)
		history = append(history, w)
		if i > 0 {
			c.Cov("repeated initialisations", 1)
		}
	}
	if reps >= 3 { // a weight that three initialisations left the same was not drawn
		for i := range w {
			for j := range w[i] {
				if history[0][i][j] == history[1][i][j] && history[1][i][j] == history[2][i][j] {
					c.Fail("%s: weight (%d,%d) is %v after each of three initialisations", l, i, j, w[i][j])
				}
			}
		}
	}
	y.L.Init()
	z := recordInit(c, "second layer", l.K, fromNN(c, "weights", *y.W()))
	for k, p := range prev {
		unrelated(c, fmt.Sprintf("second layer %s against initialisation %d of the first", l, k), z, p)
	}
	if !sameBits(fromNN(c, "weights", *x.W()), w) {
		c.Fail("initialising one layer changed another")
	}
}

// buildBare constructs the layer without loading parameters.
func buildBare(c *Ctx, l *RL) Lay {
	return (&RL{K: l.K, In: l.In, Out: l.Out, Slope: l.Slope, Drop: l.Drop}).build(c)
}

func c24Model(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 5, maxW: 14, kinds: allKinds, lrLo: 1e-3, lrHi: 0.02})
	if r.Intn(3) == 0 { // equal layers
		w := smallSize(r, 12)
		k := allKinds[r.Intn(len(allKinds))]
		n := 2 + r.Intn(3)
		if r.Intn(5) == 0 {
			n = 5 + r.Intn(30)
			c.Cov("many equal layers", 1)
		}
		m.L = nil
		for i := 0; i < n; i++ {
			m.L = append(m.L, genLayer(r, k, w, w, 0.5))
		}
		m.Loss = lMSE
	}
	deepNow(c, m, 30, 127)
	for _, l := range m.L {
		if l.K == kDropout && r.Intn(4) == 0 {
			l.Drop = 1
		}
	}
	c.Desc("%s", m)
	c.NT()
	mod := m.build(c)
	if r.Intn(6) == 0 {
		lm, err := nn.LoadModel(bytes.NewBuffer(saveBuf(c, mod)))
		if err != nil {
			c.Fail("saved model does not load: %v", err)
		}
		mod = &lm
		c.Cov("loaded before initialisation", 1)
	}
	var prev [][]float64
	for i := 0; i < 2+r.Intn(2); i++ {
		if r.Intn(3) == 0 {
			x, y := genM(r, 4, m.in(), vUniform), genTarget(r, m.Loss, 4, m.out())
			if err := mod.Fit(toNN(r, x), toNN(r, y), 1, 0, nnEmpty(), nnEmpty(), 0); err != nil {
				c.Fail("training refused: %v", err)
			}
		}
		_, b1 := paramsOf(c, mod)
		mod.InitLayers()
		ws, b2 := paramsOf(c, mod)
		var zs [][]float64
		for k, l := range m.L {
			what := fmt.Sprintf("initialisation %d, layer %d of %s", i, k, m)
			if len(ws[k]) != l.In || len(ws[k][0]) != l.Out {
				c.Fail("%s: weights are %s", what, dims(ws[k]))
			}
			if !sameBits(b1[k], b2[k]) {
				c.Fail("%s: biases changed", what)
			}
			zs = append(zs, recordInit(c, what, l.K, ws[k]))
		}
		same := 0
		for k := range zs {
			for q := 0; q < k; q++ {
				unrelated(c, fmt.Sprintf("layer %d against layer %d of %s", k, q, m), zs[k], zs[q])
			}
			if prev != nil && unrelated(c, fmt.Sprintf("layer %d of %s, initialisation %d against %d", k, m, i, i-1), zs[k], prev[k]) {
				same++
			}
		}
		if same >= 3 {
			c.Fail("%s: %d layers came out of initialisation %d with the weights of the one before", m, same, i)
		}
		if i > 0 {
			c.Cov("repeated initialisations", 1)
		}
		prev = zs
	}
	c.Cov("models initialised", 1)
}

// finalC24 judges all the weights together.
func finalC24(cov map[string]int64) string {
	for key, n64 := range cov {
		if !strings.HasPrefix(key, "#n/") || n64 < 3000 {
			continue
		}
		name, n := key[3:], float64(n64)
		m := float64(cov["#s1/"+name]) / zFix / n
		v := float64(cov["#s2/"+name]) / zFix / n
		if t := 7.5 / math.Sqrt(n); math.Abs(m) > t {
			return fmt.Sprintf("%s: the mean of %d standardised weights is %g, want 0 within %g", name, n64, m, t)
		}
		if t := 7.5 * math.Sqrt(2/n); math.Abs(v-1) > t {
			return fmt.Sprintf("%s: the variance of %d weights is %g times 2/inputs, want 1 within %g", name, n64, v, t)
		}
		for b := 0; b <= len(zEdges) && strings.HasPrefix(name, "kind "); b++ {
			got := float64(cov[fmt.Sprintf("#b/%s/%d", name, b)])
			p := zProb(b)
			if t := 7.5*math.Sqrt(n*p*(1-p)) + 1; math.Abs(got-n*p) > t {
				return fmt.Sprintf("%s: %g of %d standardised weights fall into bin %d of the normal distribution, want %g within %g", name, got, n64, b, n*p, t)
			}
		}
	}
	return ""
}
