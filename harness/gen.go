package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/cubeflix/nn"
)

// M is the harness's own matrix: plain rows.
type M = [][]float64

func zeros(r, c int) M {
	m := make(M, r)
	for i := range m {
		m[i] = make([]float64, c)
	}
	return m
}

func cloneM(a M) M {
	b := make(M, len(a))
	for i := range a {
		b[i] = append([]float64(nil), a[i]...)
	}
	return b
}

// genSize draws a dimension from a mixture that favours small values but visits
// block-size neighbourhoods and larger sizes.
func genSize(r *rand.Rand, max int) int {
	n := 1
	switch k := r.Intn(100); {
	case k < 45:
		n = 1 + r.Intn(4)
	case k < 75:
		n = 5 + r.Intn(8)
	case k < 90:
		n = 13 + r.Intn(28)
	case k < 98:
		s := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}
		n = s[r.Intn(len(s))]
	default:
		n = 1 + r.Intn(max)
	}
	if n > max {
		n = 1 + r.Intn(max)
	}
	return n
}

// manyRows now and then replaces a batch size by a large one, where the work stays small;
// code often takes another path for large batches.
func manyRows(c *Ctx, rows, work int) int {
	if work > 200 || c.R.Intn(40) != 0 {
		return rows
	}
	if work <= 6 && c.R.Intn(40) == 0 { // counters of 16 bits, buffers of 64 KiB
		c.Cov("huge batches", 1)
		return []int{4095, 4097, 8192, 10000, 16385, 32767, 32769, 65535, 65536, 65537, 66000}[c.R.Intn(11)]
	}
	s := []int{64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500}
	c.Cov("large batches", 1)
	n := s[c.R.Intn(len(s))]
	if c.R.Intn(2) == 0 {
		n += c.R.Intn(20)
	}
	return n
}

// deepStack makes a deep model of narrow layers that neither vanishes nor explodes.
func deepStack(c *Ctx, m *RModel, max int) {
	r := c.R
	n := 17 + r.Intn(30)
	if r.Intn(4) == 0 {
		n = []int{32, 33, 64, 65, 96, 97, 100, 120, 126, 127, 128, 129, 130, 160, 200, 257}[r.Intn(16)]
	}
	if n > max {
		n = max - r.Intn(30)
	}
	w := 1 + r.Intn(2)
	last := m.L[len(m.L)-1]
	var ls []*RL
	for i := 0; i < n-1; i++ {
		k := []Kind{kLinear, kLinear, kLeaky, kHidden}[r.Intn(4)]
		if i%32 == 8 {
			k = kSigmoid
		}
		l := genLayer(r, k, w, w, 0.05)
		for a := range l.W {
			l.W[a][a] += 1
			for b := range l.W[a] {
				l.W[a][b] = l.W[a][b] * (1 - 0.1*r.Float64())
			}
		}
		for b := range l.B {
			l.B[b] = 0.02 * r.NormFloat64()
			if k == kHidden {
				l.B[b] = 0.3 + 0.1*r.Float64()
			}
			if k == kSigmoid {
				l.B[b] *= 10
			}
		}
		if k == kSigmoid {
			for a := range l.W {
				l.W[a][a] *= 4
			}
		}
		l.Slope = 0.9 + 0.2*r.Float64()
		ls = append(ls, l)
	}
	e := genLayer(r, last.K, w, last.Out, 1)
	e.Slope, e.Drop = last.Slope, last.Drop
	m.L = append(ls, e)
	c.Cov("very deep models", 1)
}

// deepNow makes the model a very deep one, once in odds cases. Models of more than 127
// layers cannot be saved.
func deepNow(c *Ctx, m *RModel, odds, max int) bool {
	if c.R.Intn(odds) != 0 {
		return false
	}
	deepStack(c, m, max)
	return true
}

func smallSize(r *rand.Rand, max int) int { return 1 + r.Intn(max) }

// Value kinds.
const (
	vInt     = iota // small integers: every order of summation is exact
	vNormal         // N(0,1)
	vUniform        // [-1,1]
	vMixed          // mixed magnitudes
	vSparse         // mostly zeros
	vSpecial        // signed zeros, subnormals, huge, infinities, NaN
	vKinds
)

var vNames = []string{"int", "normal", "uniform", "mixed", "sparse", "special"}

func genVal(r *rand.Rand, kind int) float64 {
	switch kind {
	case vInt:
		return float64(r.Intn(41) - 20)
	case vNormal:
		return r.NormFloat64()
	case vUniform:
		return 2*r.Float64() - 1
	case vMixed:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(13)-6))
	case vSparse:
		if r.Intn(4) != 0 {
			return 0
		}
		return r.NormFloat64()
	default:
		switch r.Intn(12) {
		case 0:
			return math.Copysign(0, -1)
		case 1:
			return 0
		case 2:
			return math.Inf(1)
		case 3:
			return math.Inf(-1)
		case 4:
			return math.NaN()
		case 5:
			return 5e-324 * float64(1+r.Intn(1000))
		case 6:
			return -5e-324 * float64(1+r.Intn(1000))
		case 7:
			return math.MaxFloat64
		case 8:
			return -math.MaxFloat64
		case 9:
			return math.Float64frombits(r.Uint64())
		default:
			return r.NormFloat64() * math.Pow(10, float64(r.Intn(300)-150))
		}
	}
}

func genM(r *rand.Rand, rows, cols, kind int) M {
	m := zeros(rows, cols)
	for i := range m {
		for j := range m[i] {
			m[i][j] = genVal(r, kind)
		}
	}
	relate(r, m)
	return m
}

// relate makes rows resemble each other now and then: code that skips or shares work
// between rows it takes for equal errs only then.
func relate(r *rand.Rand, m M) {
	n := len(m)
	if n < 2 || r.Intn(10) != 0 {
		return
	}
	cols := len(m[0])
	how := r.Intn(4)
	for i := 1; i < n; i++ {
		if how == 3 && r.Intn(2) == 0 {
			continue
		}
		from := i - 1
		if how == 0 {
			from = r.Intn(i)
		}
		keep := r.Intn(cols)
		if r.Intn(2) == 0 {
			keep = cols - 1
		}
		v := m[i][keep]
		copy(m[i], m[from])
		if how == 1 || how == 3 && r.Intn(2) == 0 { // all but one value
			m[i][keep] = v
		}
	}
}

// sharing builds a matrix of the given contents whose equal rows are, mostly, one slice,
// as when samples are repeated by appending their rows again. Only for matrices nobody
// writes to.
func sharing(c *Ctx, a M) nn.Matrix {
	var rows M
	n := 0
	for i := range a {
		row := append([]float64(nil), a[i]...)
		for j := i - 1; j >= 0 && j >= i-50; j-- {
			if sameBits(M{rows[j]}, M{row}) && c.R.Intn(8) != 0 {
				row = rows[j]
				n++
				break
			}
		}
		rows = append(rows, row)
	}
	m, err := nn.NewMatrixFromSlice(rows)
	if err != nil {
		c.Fail("NewMatrixFromSlice refused a %s rectangle: %v", dims(a), err)
	}
	if n > 0 {
		c.Cov("rows in one slice", n)
	}
	return m
}

// repeated replaces some rows by others.
func repeated(r *rand.Rand, a M) {
	all := r.Intn(3) == 0
	for i := 1; i < len(a); i++ {
		if all {
			copy(a[i], a[0])
		} else if r.Intn(2) == 0 {
			copy(a[i], a[r.Intn(i)])
		}
	}
}

func genScaled(r *rand.Rand, rows, cols int, s float64) M {
	m := zeros(rows, cols)
	for i := range m {
		for j := range m[i] {
			m[i][j] = r.NormFloat64() * s
		}
	}
	relate(r, m)
	return m
}

// toNN builds the library's matrix with the given contents, by one of the ways a
// user has.
func toNN(r *rand.Rand, a M) nn.Matrix {
	switch r.Intn(3) {
	case 0:
		m, err := nn.NewMatrixFromSlice(cloneM(a))
		if err != nil {
			panic(violation{fmt.Sprintf("NewMatrixFromSlice refused a %dx%d rectangle: %v", len(a), len(a[0]), err)})
		}
		return m
	case 1:
		m, err := nn.NewMatrix(len(a), len(a[0]))
		if err != nil {
			panic(violation{fmt.Sprintf("NewMatrix refused %dx%d: %v", len(a), len(a[0]), err)})
		}
		for i := range a {
			for j := range a[i] {
				if err := m.Set(i, j, a[i][j]); err != nil {
					panic(violation{fmt.Sprintf("Set(%d,%d) refused on %dx%d: %v", i, j, len(a), len(a[0]), err)})
				}
			}
		}
		return m
	default:
		m, err := nn.NewMatrix(len(a), len(a[0]))
		if err != nil {
			panic(violation{fmt.Sprintf("NewMatrix refused %dx%d: %v", len(a), len(a[0]), err)})
		}
		for i := range a {
			copy(m.M[i], a[i])
		}
		return m
	}
}

// fromNN reads the library's matrix, checking that it is a rectangle of its stated size.
func fromNN(c *Ctx, what string, m nn.Matrix) M {
	if m.Rows != len(m.M) {
		c.Fail("%s: matrix says %d rows but holds %d", what, m.Rows, len(m.M))
	}
	for i := range m.M {
		if len(m.M[i]) != m.Cols {
			c.Fail("%s: matrix says %d columns but row %d holds %d", what, m.Cols, i, len(m.M[i]))
		}
	}
	return cloneM(m.M)
}

func wantShape(c *Ctx, what string, m nn.Matrix, rows, cols int) M {
	a := fromNN(c, what, m)
	if m.Rows != rows || m.Cols != cols {
		c.Fail("%s: result is %dx%d, want %dx%d", what, m.Rows, m.Cols, rows, cols)
	}
	return a
}

func sameBits(a, b M) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if math.Float64bits(a[i][j]) != math.Float64bits(b[i][j]) {
				return false
			}
		}
	}
	return true
}

// sameVal: numerically equal, NaN equal to NaN.
func sameVal(a, b float64) bool { return a == b || (a != a && b != b) }

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func maxAbs(a M) float64 {
	s := 0.0
	for i := range a {
		for j := range a[i] {
			if x := math.Abs(a[i][j]); x > s {
				s = x
			}
		}
	}
	return s
}

// checkClose compares element by element with tolerance rel*scale.
func checkClose(c *Ctx, what string, got, want M, tol func(i, j int) float64) {
	if len(got) != len(want) || len(got[0]) != len(want[0]) {
		c.Fail("%s: result is %dx%d, want %dx%d", what, len(got), len(got[0]), len(want), len(want[0]))
	}
	for i := range want {
		for j := range want[i] {
			g, w := got[i][j], want[i][j]
			if sameVal(g, w) {
				continue
			}
			if !(math.Abs(g-w) <= tol(i, j)) {
				c.Fail("%s: element (%d,%d) is %v, want %v (difference %g, tolerance %g)", what, i, j, g, w, g-w, tol(i, j))
			}
		}
	}
	c.Cov("elements compared", len(want)*len(want[0]))
}

func constTol(t float64) func(i, j int) float64 { return func(i, j int) float64 { return t } }

// relTol: relative to the largest magnitude of the expected matrix.
func relTol(want M, rel float64) func(i, j int) float64 {
	return constTol(rel * (maxAbs(want) + 1e-30))
}

func dims(a M) string { return fmt.Sprintf("%dx%d", len(a), len(a[0])) }

func pick(r *rand.Rand, xs ...float64) float64 { return xs[r.Intn(len(xs))] }

func logUniform(r *rand.Rand, lo, hi float64) float64 {
	return math.Exp(math.Log(lo) + r.Float64()*(math.Log(hi)-math.Log(lo)))
}

// square makes the two dimensions equal in a quarter of the cases: code that
// works in place, or that mixes the two up, often shows only then.
func square(r *rand.Rand, a, b int) (int, int) {
	if r.Intn(4) == 0 {
		return a, a
	}
	return a, b
}
