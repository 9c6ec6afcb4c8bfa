package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C31", Quick: 150000, Thorough: 2500000, Run: runC31,
		Rule: "a case applies one or several of the exported activation functions, their derivatives or the clipping to random matrices (sizes, magnitudes up to the end of the range, signed zeros, rows alike), and compares every element with its definition; the gradient or input argument that is only read is compared bit for bit afterwards; non-trivial when elements of both sides of the kink or limits, or of more than one row, were seen",
		Floors: map[string]int64{"calls judged": 100000, "elements compared": 2000000, "beyond 16 bits": 8, "large batches": 500, "extreme values": 50000, "values at the limits": 20000, "results used again": 10000,
			"RELU": 9000, "RELUPrime": 9000, "LeakyRELU": 9000, "LeakyRELUPrime": 9000, "Sigmoid": 9000, "SigmoidPrime": 9000, "Softmax": 9000, "Clip": 9000}})
}

var actNames = []string{"RELU", "RELUPrime", "LeakyRELU", "LeakyRELUPrime", "Sigmoid", "SigmoidPrime", "Softmax", "Clip"}

func genActM(c *Ctx, rows, cols int) M {
	r := c.R
	m := genM(r, rows, cols, r.Intn(vSpecial))
	switch r.Intn(6) {
	case 0: // all magnitudes
		for i := range m {
			for j := range m[i] {
				m[i][j] = math.Copysign(math.Pow(10, 616*r.Float64()-308), r.NormFloat64())
			}
		}
		c.Cov("extreme values", rows*cols)
	case 1: // where exponentials run out
		s := pick(r, 1, 30, 300, 800)
		for i := range m {
			for j := range m[i] {
				m[i][j] = s * r.NormFloat64()
			}
		}
	case 2: // next to the kink and the limits
		for i := range m {
			for j := range m[i] {
				if r.Intn(2) == 0 {
					m[i][j] = pick(r, 0, math.Copysign(0, -1), 1, -1, 1e-7, 1-1e-7, 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64,
						math.Nextafter(1e-7, 0), math.Nextafter(1e-7, 1), math.Nextafter(1-1e-7, 0), math.Nextafter(1-1e-7, 1),
						1e-12*r.Float64(), -1e-12*r.Float64(), 1-1e-6*r.Float64(), 1e-6*r.Float64(), 709.5, -709.5, 745, -745, 36.7, -36.7)
					c.Cov("values at the limits", 1)
				}
			}
		}
	}
	relate(r, m)
	return m
}

func genActSlope(c *Ctx) float64 {
	r := c.R
	return pick(r, 0.01, 0.1, 0.3, 0, 1, 2, -0.5, -1, 1e-12, 1e6, r.Float64(), r.NormFloat64())
}

func runC31(c *Ctx) {
	r := c.R
	rows, cols := square(r, genSize(r, 60), genSize(r, 60))
	rows = manyRows(c, rows, cols)
	if r.Intn(1500) == 0 {
		rows, cols = 1+r.Intn(2), []int{1000, 4097, 10000, 32769, 65535, 65537, 70000}[r.Intn(7)]
		if cols > 60000 {
			c.Cov("beyond 16 bits", 1)
		}
	}
	x := genActM(c, rows, cols)
	f := r.Intn(len(actNames))
	for n := 0; ; n++ {
		g := c31call(c, f, x)
		if n == 3 || rows*cols > 2000 || r.Intn(3) > 0 || maxAbs(g) > 1e300 {
			break
		}
		// the result is an ordinary matrix, on which another function can be used
		x = g
		f = r.Intn(len(actNames))
		c.Cov("results used again", 1)
	}
}

// c31call judges one call on a matrix of the values x and returns what it gave.
func c31call(c *Ctx, f int, x M) M {
	r := c.R
	rows, cols := len(x), len(x[0])
	name := actNames[f]
	X := toNN(r, x)
	slope := genActSlope(c)
	d := x
	var D nn.Matrix
	if f == 1 || f == 3 || f == 5 {
		d = genActM(c, rows, cols)
		D = toNN(r, d)
	}
	c.Desc("%s(%dx%d)", name, rows, cols)
	var res nn.Matrix
	switch f {
	case 0:
		res = nn.RELU(X)
	case 1: // the gradient first, then the values that went in
		res = nn.RELUPrime(D, X)
	case 2:
		res = nn.LeakyRELU(X, slope)
	case 3:
		res = nn.LeakyRELUPrime(D, X, slope)
	case 4:
		res = nn.Sigmoid(X)
	case 5: // the values that went in, then the gradient
		res = nn.SigmoidPrime(X, D)
	case 6:
		res = nn.Softmax(X)
	case 7:
		res = nn.Clip(X)
	}
	g := wantShape(c, name, res, rows, cols)
	// what is only read
	if (f == 1 || f == 3 || f == 7) && !sameBits(X.M, x) {
		c.Fail("%s changed the values it was given", name)
	}
	if f == 5 && !sameBits(D.M, d) {
		c.Fail("%s changed the gradient it was given", name)
	}
	neg, pos := false, false
	exact := func(i, j int, want ...float64) {
		for _, w := range want {
			if sameVal(g[i][j], w) {
				return
			}
		}
		at := ""
		if f == 1 || f == 3 {
			at = fmt.Sprintf(" with gradient %v", d[i][j])
		}
		c.Fail("%s: element (%d,%d) for %v%s (slope %v) is %v, want %v", name, i, j, x[i][j], at, slope, g[i][j], want[0])
	}
	close := func(i, j int, w, tol float64) {
		if !sameVal(g[i][j], w) && !(math.Abs(g[i][j]-w) <= tol+1e-300) {
			c.Fail("%s: element (%d,%d) for %v (gradient %v) is %v, want %v", name, i, j, x[i][j], d[i][j], g[i][j], w)
		}
	}
	for i := range x {
		var soft []float64
		top := 0.0
		if f == 6 {
			soft = rsoftmaxRow(x[i])
			for _, v := range x[i] {
				top = math.Max(top, math.Abs(v))
			}
		}
		for j, v := range x[i] {
			if v < 0 {
				neg = true
			} else {
				pos = true
			}
			switch f {
			case 0:
				exact(i, j, math.Max(v, 0))
			case 1:
				switch {
				case v > 0:
					exact(i, j, d[i][j])
				case v < 0:
					exact(i, j, 0)
				default: // at the kink either side will do
					exact(i, j, 0, d[i][j])
				}
			case 2:
				if v < 0 {
					exact(i, j, slope*v)
				} else {
					exact(i, j, v)
				}
			case 3:
				switch {
				case v > 0:
					exact(i, j, d[i][j])
				case v < 0:
					exact(i, j, slope*d[i][j])
				default:
					exact(i, j, d[i][j], slope*d[i][j])
				}
			case 4:
				w := 1 / (1 + math.Exp(-v))
				close(i, j, w, 1e-11*w+2e-16) // (1+tanh(x/2))/2 will do
			case 5:
				e := math.Exp(-math.Abs(v))
				w := e / (1 + e) / (1 + e)
				a := math.Abs(d[i][j])
				close(i, j, d[i][j]*w, 1e-11*a*w+1e-15*a)
			case 6:
				// the logarithm of the sum may be taken first, which the largest score rounds
				rel := 1e-11 + 4e-16*top
				if rel > 0.01 {
					if !(g[i][j] >= 0 && g[i][j] <= 1+1e-12) {
						c.Fail("Softmax of %v gave %v", v, g[i][j])
					}
				} else {
					close(i, j, soft[j], rel*soft[j])
				}
			case 7:
				exact(i, j, math.Min(math.Max(v, 1e-7), 1-1e-7))
			}
		}
	}
	if neg && pos || rows > 1 {
		c.NT()
	}
	c.Cov("calls judged", 1)
	c.Cov(name, 1)
	c.Cov("elements compared", rows*cols)
	return g
}
