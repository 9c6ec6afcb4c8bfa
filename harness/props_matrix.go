package main

import (
	"fmt"
	"math"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C01", Quick: 500000, Thorough: 5000000, Run: runC01,
		Rule: "a case is one matrix operation on random operands (shape class, value class, construction path, operand aliasing drawn at random), its result compared element by element with the definition, plus write-isolation probes; non-trivial when more than one element was computed",
		Floors: map[string]int64{"beyond 16 bits": 40, "op dot": 800, "op transpose": 500, "op sum0": 500, "op sum1": 500, "op add": 500, "op equals": 500,
			"shape mismatch refused": 500, "same operand twice": 200, "isolation probes": 5000, "exact comparisons": 5000, "dot products of special values": 3000, "inner dimension > 64": 30}})
	register(&Prop{ID: "C02", Quick: 300000, Thorough: 1500000, Run: runC02,
		Rule:   "a case is a random history of constructor and accessor calls (valid and invalid) on several matrices, the whole contents compared with an array model after every call; non-trivial when it wrote and read back at least once",
		Floors: map[string]int64{"ops": 50000, "appends to rows read out": 5000, "columns kept and checked again": 50000, "refused ops": 10000, "refused constructions": 1000, "caller slice mutated after write": 2000}})
}

func iSame(a, b float64) bool { return sameVal(a, b) }

func runC01(c *Ctx) {
	r := c.R
	ops := []string{"add", "sub", "neg", "addscalar", "mulscalar", "powscalar", "dot", "dot", "dot", "transpose", "sum0", "sum1", "equals", "mismatch"}
	op := ops[r.Intn(len(ops))]
	max := 140
	if r.Intn(60) == 0 {
		max = 400
	}
	rows, cols := square(r, genSize(r, max), genSize(r, max))
	if r.Intn(500) == 0 { // long and thin
		rows, cols = 1+r.Intn(3), 300+r.Intn(1800)
		if r.Intn(2) == 0 {
			cols = []int{256, 512, 768, 1000, 1024, 1025, 1536, 2048, 4096, 5000}[r.Intn(10)]
		}
		if r.Intn(3) == 0 {
			rows, cols = 1+r.Intn(2), []int{8192, 10000, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073}[r.Intn(11)]
			c.Cov("beyond 16 bits", 1)
		}
		if r.Intn(2) == 0 {
			rows, cols = cols, rows
		}
	}
	kind := r.Intn(vKinds)
	a := genM(r, rows, cols, kind)
	A := toNN(r, a)
	if r.Intn(6) == 0 && rows > 1 { // rows may be views of another matrix (as training batches are)
		big := genM(r, rows+4, cols, kind)
		sub, err := nn.NewMatrixFromSlice(big[2 : 2+rows])
		if err != nil {
			c.Fail("NewMatrixFromSlice refused a %dx%d rectangle: %v", rows, cols, err)
		}
		A, a = sub, cloneM(big[2:2+rows])
		c.Cov("operand is a view", 1)
	}
	if r.Intn(10) == 0 && rows > 1 {
		repeated(r, a)
		A = sharing(c, a)
	}
	c.Desc("%s %dx%d %s", op, rows, cols, vNames[kind])
	c.Cov("op "+op, 1)
	if rows*cols > 1 {
		c.NT()
	}
	isolate := func(res nn.Matrix, operands ...nn.Matrix) {
		// every element of the result is a place of its own
		was := cloneM(res.M)
		for i := range res.M {
			for j := range res.M[i] {
				res.M[i][j] = float64(i*res.Cols + j)
			}
		}
		for i := range res.M {
			for j := range res.M[i] {
				if res.M[i][j] != float64(i*res.Cols+j) {
					c.Fail("%s %dx%d: elements of the result share their storage, (%d,%d) among them", op, rows, cols, i, j)
				}
			}
			copy(res.M[i], was[i])
		}
		// writing to the result leaves the operands, writing to an operand leaves the result
		var before []M
		for _, o := range operands {
			before = append(before, cloneM(o.M))
		}
		keep := cloneM(res.M)
		for i := range res.M {
			for j := range res.M[i] {
				res.M[i][j] = 12345.678
			}
		}
		for k, o := range operands {
			if !sameBits(before[k], o.M) {
				c.Fail("%s %dx%d: writing to the result changed an operand", op, rows, cols)
			}
		}
		for i := range keep {
			copy(res.M[i], keep[i])
		}
		o := operands[r.Intn(len(operands))]
		for i := range o.M {
			for j := range o.M[i] {
				o.M[i][j] = -54321.5
			}
		}
		if !sameBits(keep, res.M) {
			c.Fail("%s %dx%d: writing to an operand changed the result", op, rows, cols)
		}
		c.Cov("isolation probes", 1)
	}
	unchanged := func(what string, x nn.Matrix, was M) {
		if !sameBits(x.M, was) || x.Rows != len(was) || x.Cols != len(was[0]) {
			c.Fail("%s %dx%d: %s was modified by the operation", op, rows, cols, what)
		}
	}
	exact := func(got nn.Matrix, f func(i, j int) float64, rr, cc int) {
		g := wantShape(c, op, got, rr, cc)
		for i := 0; i < rr; i++ {
			for j := 0; j < cc; j++ {
				if !iSame(g[i][j], f(i, j)) {
					c.Fail("%s %dx%d (%s): element (%d,%d) is %v, want %v", op, rows, cols, vNames[kind], i, j, g[i][j], f(i, j))
				}
			}
		}
		c.Cov("exact comparisons", rr*cc)
	}
	switch op {
	case "add", "sub":
		b := genM(r, rows, cols, kind)
		B := toNN(r, b)
		if r.Intn(8) == 0 {
			b, B = a, A
			c.Cov("same operand twice", 1)
		}
		var res nn.Matrix
		var err error
		if op == "add" {
			res, err = A.Add(B)
		} else {
			res, err = A.Sub(B)
		}
		if err != nil {
			c.Fail("%s refused equal shapes %dx%d: %v", op, rows, cols, err)
		}
		unchanged("first operand", A, a)
		unchanged("second operand", B, b)
		exact(res, func(i, j int) float64 {
			if op == "add" {
				return a[i][j] + b[i][j]
			}
			return a[i][j] - b[i][j]
		}, rows, cols)
		isolate(res, A, B)
	case "neg":
		res := A.Neg()
		unchanged("operand", A, a)
		exact(res, func(i, j int) float64 { return -a[i][j] }, rows, cols)
		isolate(res, A)
	case "addscalar", "mulscalar":
		x := genVal(r, r.Intn(vKinds))
		if r.Intn(4) == 0 {
			x = pick(r, 0, 1, -1, 2, 0.5, math.Copysign(0, -1))
		}
		var res nn.Matrix
		if op == "addscalar" {
			res = A.AddScalar(x)
		} else {
			res = A.MulScalar(x)
		}
		c.Desc("x=%v", x)
		unchanged("operand", A, a)
		exact(res, func(i, j int) float64 {
			if op == "addscalar" {
				return a[i][j] + x
			}
			return a[i][j] * x
		}, rows, cols)
		isolate(res, A)
	case "powscalar":
		x := pick(r, 2, 2, 3, 0.5, -1, 0, 1, 4, -2, 1.5, r.NormFloat64()*3)
		if r.Intn(4) == 0 && x != 0 { // results close to the ends of the range
			a = cloneM(a)
			for i := range a {
				for j := range a[i] {
					if r.Intn(4) == 0 {
						a[i][j] = math.Copysign(math.Pow(10, pick(r, -307, -305, -301, -298, -200, 200, 300, 307)/x), a[i][j])
					}
				}
			}
			A = toNN(r, a)
			c.Cov("powers close to the ends of the range", 1)
		}
		zeros := r.Intn(4) == 0 // of both signs, among powers of all kinds
		if zeros {
			a = cloneM(a)
			for i := range a {
				for j := range a[i] {
					if r.Intn(3) == 0 {
						a[i][j] = pick(r, 0, 0, math.Copysign(0, -1), 1, -1)
					}
				}
			}
			A = toNN(r, a)
			c.Cov("powers of zero and one", 1)
		}
		res := A.PowScalar(x)
		c.Desc("x=%v", x)
		unchanged("operand", A, a)
		g := wantShape(c, op, res, rows, cols)
		for i := range a {
			for j := range a[i] {
				w := math.Pow(a[i][j], x)
				ok := iSame(g[i][j], w) || finite(w) && math.Abs(g[i][j]-w) <= 1e-11*math.Abs(w)+1e-308
				if math.IsInf(w, 0) && a[i][j] != 0 && math.Abs(g[i][j]) > 1e308 {
					ok = true // rounding decides whether it overflows
				}
				if !ok && (kind != vSpecial || zeros && (a[i][j] == 0 || a[i][j] == 1)) {
					c.Fail("powscalar %v: element (%d,%d) = %v^%v gave %v, want %v", x, i, j, a[i][j], x, g[i][j], w)
				}
			}
		}
		isolate(res, A)
	case "dot":
		if kind == vSpecial && rows*cols < 5000 && r.Intn(3) == 0 {
			dotSpecial(c, a, A)
			return
		}
		if kind == vSpecial {
			kind = vMixed
			a = genM(r, rows, cols, kind)
			A = toNN(r, a)
		}
		k := genSize(r, 140)
		if rows*cols*k > 3000000 {
			k = 1 + r.Intn(8)
		}
		b := genM(r, cols, k, []int{kind, kind, vInt, vNormal}[r.Intn(4)])
		if kind == vInt {
			b = genM(r, cols, k, vInt)
		}
		B := toNN(r, b)
		if rows == cols && r.Intn(3) == 0 {
			b, B, k = a, A, cols
			c.Cov("same operand twice", 1)
		}
		c.Desc("x %dx%d", cols, k)
		if cols > 64 {
			c.Cov("inner dimension > 64", 1)
		}
		res, err := A.Dot(B)
		if err != nil {
			c.Fail("dot refused %dx%d . %dx%d: %v", rows, cols, cols, k, err)
		}
		unchanged("first operand", A, a)
		unchanged("second operand", B, b)
		g := wantShape(c, op, res, rows, k)
		for i := 0; i < rows; i++ {
			for j := 0; j < k; j++ {
				s, mag := 0.0, 0.0
				for n := 0; n < cols; n++ {
					p := a[i][n] * b[n][j]
					s += p
					mag += math.Abs(p)
				}
				if kind == vInt {
					if g[i][j] != s {
						c.Fail("dot %dx%d . %dx%d on integers: element (%d,%d) is %v, want %v", rows, cols, cols, k, i, j, g[i][j], s)
					}
				} else if !(math.Abs(g[i][j]-s) <= 1e-12*mag+1e-300) {
					c.Fail("dot %dx%d . %dx%d: element (%d,%d) is %v, want %v", rows, cols, cols, k, i, j, g[i][j], s)
				}
			}
		}
		c.Cov("dot products checked", rows*k)
		if r.Intn(4) == 0 {
			isolate(res, A, B)
		}
		c.NT()
	case "transpose":
		res := A.T()
		unchanged("operand", A, a)
		exact(res, func(i, j int) float64 { return a[j][i] }, cols, rows)
		isolate(res, A)
	case "sum0", "sum1":
		if kind == vSpecial {
			kind = vInt
			a = genM(r, rows, cols, kind)
			A = toNN(r, a)
		}
		axis, n := 0, cols
		if op == "sum1" {
			axis, n = 1, rows
		}
		res := A.Sum(axis)
		unchanged("operand", A, a)
		g := wantShape(c, op, res, 1, n)
		for k := 0; k < n; k++ {
			s, mag := 0.0, 0.0
			m := rows
			if axis == 1 {
				m = cols
			}
			for q := 0; q < m; q++ {
				v := 0.0
				if axis == 0 {
					v = a[q][k]
				} else {
					v = a[k][q]
				}
				s += v
				mag += math.Abs(v)
			}
			if kind == vInt && g[0][k] != s || !(math.Abs(g[0][k]-s) <= 1e-12*mag+1e-300) {
				c.Fail("sum over axis %d of %dx%d: entry %d is %v, want %v", axis, rows, cols, k, g[0][k], s)
			}
		}
		c.Cov("sums checked", n)
		isolate(res, A)
	case "equals":
		if kind == vSpecial {
			a = genM(r, rows, cols, vMixed)
			A = toNN(r, a)
		}
		b := cloneM(a)
		for i := range b { // zeros of either sign are equal
			for j := range b[i] {
				if b[i][j] == 0 && r.Intn(2) == 0 {
					b[i][j] = math.Copysign(0, -1)
				}
			}
		}
		B := toNN(r, b)
		if !A.Equals(B) || !B.Equals(A) {
			c.Fail("equals: equal %dx%d matrices compare different", rows, cols)
		}
		if !A.Equals(A) {
			c.Fail("equals: a matrix compares different from itself")
		}
		i, j := r.Intn(rows), r.Intn(cols)
		if r.Intn(3) == 0 { // favour the borders
			i, j = []int{0, rows - 1}[r.Intn(2)], []int{0, cols - 1}[r.Intn(2)]
		}
		B.M[i][j] = math.Nextafter(B.M[i][j], math.Inf(1))
		if A.Equals(B) || B.Equals(A) {
			c.Fail("equals: %dx%d matrices differing at (%d,%d) by one ulp compare equal", rows, cols, i, j)
		}
		B.M[i][j] = a[i][j] + 1 + math.Abs(a[i][j])
		if A.Equals(B) || B.Equals(A) {
			c.Fail("equals: %dx%d matrices differing at (%d,%d) compare equal", rows, cols, i, j)
		}
		B2 := toNN(r, genM(r, rows+1, cols, vInt))
		for i := 0; i < rows; i++ {
			copy(B2.M[i], a[i])
		}
		if A.Equals(B2) || B2.Equals(A) {
			c.Fail("equals: %dx%d equals %dx%d", rows, cols, rows+1, cols)
		}
		B3 := toNN(r, genM(r, rows, cols+1, vInt))
		for i := 0; i < rows; i++ {
			copy(B3.M[i], a[i])
		}
		if A.Equals(B3) || B3.Equals(A) {
			c.Fail("equals: %dx%d equals %dx%d", rows, cols, rows, cols+1)
		}
		unchanged("operand", A, a)
		N := toNN(r, a)
		N.M[i][j] = math.NaN() // not equal to anything, itself included
		if N.Equals(toNN(r, N.M)) || N.Equals(A) || A.Equals(N) || N.Equals(N) {
			c.Fail("equals: %dx%d matrix with NaN at (%d,%d) compares equal", rows, cols, i, j)
		}
	case "mismatch":
		r2, c2 := rows, cols
		switch r.Intn(4) {
		case 0:
			r2 += 1 + r.Intn(3)
		case 1:
			c2 += 1 + r.Intn(3)
		case 2:
			r2, c2 = cols, rows
			if rows == cols {
				r2++
			}
		case 3:
			r2, c2 = genSize(r, 40), genSize(r, 40)
		}
		b := genM(r, r2, c2, vNormal)
		B := toNN(r, b)
		if r2 != rows || c2 != cols {
			if _, err := A.Add(B); err == nil {
				c.Fail("add accepted %dx%d + %dx%d", rows, cols, r2, c2)
			}
			if _, err := A.Sub(B); err == nil {
				c.Fail("sub accepted %dx%d - %dx%d", rows, cols, r2, c2)
			}
			c.Cov("shape mismatch refused", 2)
		}
		if cols != r2 {
			if _, err := A.Dot(B); err == nil {
				c.Fail("dot accepted %dx%d . %dx%d", rows, cols, r2, c2)
			}
			c.Cov("shape mismatch refused", 1)
		}
		unchanged("first operand", A, a)
		unchanged("second operand", B, b)
	}
}

// dotSpecial: products with NaN and infinities follow the arithmetic of floats: a row
// and column meeting in a NaN product, or in products of both infinities, give NaN,
// infinities of one sign that infinity.
func dotSpecial(c *Ctx, a M, A nn.Matrix) {
	r := c.R
	for i := range a { // no overflow in finite parts
		for j := range a[i] {
			if finite(a[i][j]) && math.Abs(a[i][j]) > 1e100 {
				a[i][j] = float64(r.Intn(5) - 2)
			}
		}
	}
	A = toNN(r, a)
	k := smallSize(r, 12)
	b := genM(r, len(a[0]), k, vInt)
	for q := r.Intn(3); q > 0; q-- {
		b[r.Intn(len(b))][r.Intn(k)] = pick(r, math.NaN(), math.Inf(1), math.Inf(-1), 0)
	}
	res, err := A.Dot(toNN(r, b))
	if err != nil {
		c.Fail("dot refused %s . %s: %v", dims(a), dims(b), err)
	}
	g := wantShape(c, "dot", res, len(a), k)
	for i := range a {
		for j := 0; j < k; j++ {
			s, mag := 0.0, 0.0
			nan, pos, neg := false, false, false
			for n := range b {
				p := a[i][n] * b[n][j]
				s += p
				if finite(p) {
					mag += math.Abs(p)
				}
				nan, pos, neg = nan || p != p, pos || math.IsInf(p, 1), neg || math.IsInf(p, -1)
			}
			x, ok := g[i][j], true
			switch {
			case nan || pos && neg:
				ok = x != x
			case pos:
				ok = math.IsInf(x, 1)
			case neg:
				ok = math.IsInf(x, -1)
			default:
				ok = math.Abs(x-s) <= 1e-12*mag+1e-300
			}
			if !ok {
				c.Fail("dot %s . %s with special values: element (%d,%d) is %v, want %v", dims(a), dims(b), i, j, x, s)
			}
			if nan || pos || neg {
				c.Cov("dot products of special values", 1)
			}
		}
	}
	c.NT()
}

func runC02(c *Ctx) {
	r := c.R
	type mat struct {
		m nn.Matrix
		w M
	}
	var ms []*mat
	newOne := func() *mat {
		rows, cols := square(r, smallSize(r, 7), smallSize(r, 7))
		if r.Intn(30) == 0 {
			rows, cols = genSize(r, 130), genSize(r, 130)
		}
		if r.Intn(150) == 0 {
			rows, cols = 1+r.Intn(2), 1000+r.Intn(9000)
			if r.Intn(3) == 0 {
				rows, cols = cols, rows
			}
			c.Cov("very long matrices", 1)
		}
		if r.Intn(2) == 0 {
			m, err := nn.NewMatrix(rows, cols)
			if err != nil {
				c.Fail("NewMatrix(%d,%d) refused: %v", rows, cols, err)
			}
			return &mat{m, zeros(rows, cols)}
		}
		w := genM(r, rows, cols, []int{vInt, vNormal, vSpecial}[r.Intn(3)])
		m, err := nn.NewMatrixFromSlice(cloneM(w))
		if err != nil {
			c.Fail("NewMatrixFromSlice refused %dx%d: %v", rows, cols, err)
		}
		return &mat{m, w}
	}
	check := func(what string, x *mat) {
		g := wantShape(c, what, x.m, len(x.w), len(x.w[0]))
		for i := range g {
			for j := range g[i] {
				if !sameVal(g[i][j], x.w[i][j]) {
					c.Fail("%s: element (%d,%d) holds %v, want %v", what, i, j, g[i][j], x.w[i][j])
				}
			}
		}
	}
	badIdx := func(n int) int {
		return []int{n, n + 1, n + 1 + r.Intn(100), -1, -1 - r.Intn(100), -n, math.MaxInt32, math.MinInt32}[r.Intn(8)]
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		x := newOne()
		check("new matrix", x)
		ms = append(ms, x)
	}
	// slices handed in earlier, mutated later
	type handed struct{ s []float64 }
	var hs []handed
	var got, gotWas []([]float64) // columns read out and kept
	n := 4 + r.Intn(20)
	c.Desc("history of %d ops on %d matrices %s:", n, len(ms), dims(ms[0].w))
	c.NT()
	for k := 0; k < n; k++ {
		x := ms[r.Intn(len(ms))]
		rows, cols := len(x.w), len(x.w[0])
		i, j := r.Intn(rows), r.Intn(cols)
		v := genVal(r, r.Intn(vKinds))
		bad := r.Intn(4) == 0
		c.Cov("ops", 1)
		if bad {
			c.Cov("refused ops", 1)
		}
		opn := r.Intn(8)
		c.Desc("%d/%v", opn, bad)
		switch opn {
		case 0: // Get
			if bad {
				bi, bj := i, j
				if r.Intn(2) == 0 {
					bi = badIdx(rows)
				} else {
					bj = badIdx(cols)
				}
				if bi >= rows || bi < 0 || bj >= cols || bj < 0 {
					if g, err := x.m.Get(bi, bj); err == nil {
						c.Fail("Get(%d,%d) on %dx%d returned %v without error", bi, bj, rows, cols, g)
					}
				}
			} else {
				g, err := x.m.Get(i, j)
				if err != nil || !sameVal(g, x.w[i][j]) {
					c.Fail("Get(%d,%d) on %dx%d gave %v, %v; want %v", i, j, rows, cols, g, err, x.w[i][j])
				}
			}
		case 1: // Set
			if bad {
				bi, bj := i, j
				if r.Intn(2) == 0 {
					bi = badIdx(rows)
				} else {
					bj = badIdx(cols)
				}
				if bi >= rows || bi < 0 || bj >= cols || bj < 0 {
					if err := x.m.Set(bi, bj, v); err == nil {
						c.Fail("Set(%d,%d) on %dx%d accepted", bi, bj, rows, cols)
					}
				}
			} else {
				if err := x.m.Set(i, j, v); err != nil {
					c.Fail("Set(%d,%d) on %dx%d refused: %v", i, j, rows, cols, err)
				}
				x.w[i][j] = v
			}
		case 2: // GetRow
			if bad {
				if bi := badIdx(rows); bi < 0 || bi >= rows {
					if _, err := x.m.GetRow(bi); err == nil {
						c.Fail("GetRow(%d) on %dx%d accepted", bi, rows, cols)
					}
				}
			} else {
				g, err := x.m.GetRow(i)
				if err != nil || len(g) != cols {
					c.Fail("GetRow(%d) on %dx%d gave length %d, %v", i, rows, cols, len(g), err)
				}
				for q := range g {
					if !sameVal(g[q], x.w[i][q]) {
						c.Fail("GetRow(%d)[%d] is %v, want %v", i, q, g[q], x.w[i][q])
					}
				}
				if r.Intn(2) == 0 { // what the caller appends goes nowhere
					for q := 1 + r.Intn(2*cols); q > 0; q-- {
						g = append(g, 888)
					}
					c.Cov("appends to rows read out", 1)
				}
			}
		case 3: // GetColumn
			if bad {
				if bj := badIdx(cols); bj < 0 || bj >= cols {
					if _, err := x.m.GetColumn(bj); err == nil {
						c.Fail("GetColumn(%d) on %dx%d accepted", bj, rows, cols)
					}
				}
			} else {
				g, err := x.m.GetColumn(j)
				if err != nil || len(g) != rows {
					c.Fail("GetColumn(%d) on %dx%d gave length %d, %v", j, rows, cols, len(g), err)
				}
				for q := range g {
					if !sameVal(g[q], x.w[q][j]) {
						c.Fail("GetColumn(%d)[%d] is %v, want %v", j, q, g[q], x.w[q][j])
					}
				}
				if r.Intn(2) == 0 {
					got, gotWas = append(got, g), append(gotWas, append([]float64(nil), g...))
				} else {
					for q := range g { // the column read is the caller's
						g[q] = 777
					}
				}
			}
		case 4, 6: // SetRow
			vals := genM(r, 1, cols, r.Intn(vKinds))[0]
			if bad {
				bi := i
				if r.Intn(2) == 0 {
					bi = badIdx(rows)
				} else {
					vals = make([]float64, []int{cols + 1, cols - 1, 0, cols + 5}[r.Intn(4)])
				}
				if bi < 0 || bi >= rows || len(vals) != cols {
					if err := x.m.SetRow(bi, vals); err == nil {
						c.Fail("SetRow(%d, length %d) on %dx%d accepted", bi, len(vals), rows, cols)
					}
				}
			} else {
				if r.Intn(4) == 0 { // a row of the same matrix, or of another one
					y := ms[r.Intn(len(ms))]
					if q := r.Intn(len(y.w)); len(y.w[q]) == cols {
						own, err := y.m.GetRow(q)
						if err != nil {
							c.Fail("GetRow(%d) refused: %v", q, err)
						}
						want := append([]float64(nil), y.w[q]...)
						if err := x.m.SetRow(i, own); err != nil {
							c.Fail("SetRow(%d) on %dx%d refused: %v", i, rows, cols, err)
						}
						copy(x.w[i], want)
						check("matrix given a row of a matrix", x)
						c.Cov("rows set from rows read out", 1)
					}
				}
				if err := x.m.SetRow(i, vals); err != nil {
					c.Fail("SetRow(%d) on %dx%d refused: %v", i, rows, cols, err)
				}
				copy(x.w[i], vals)
				hs = append(hs, handed{vals})
				if r.Intn(3) == 0 { // the same slice into a second row or matrix
					y := ms[r.Intn(len(ms))]
					if len(y.w[0]) == cols {
						q := r.Intn(len(y.w))
						if err := y.m.SetRow(q, vals); err != nil {
							c.Fail("SetRow(%d) refused: %v", q, err)
						}
						copy(y.w[q], vals)
					}
				}
			}
		case 5, 7: // SetColumn
			vals := genM(r, 1, rows, r.Intn(vKinds))[0]
			if bad {
				bj := j
				if r.Intn(2) == 0 {
					bj = badIdx(cols)
				} else {
					vals = make([]float64, []int{rows + 1, rows - 1, 0, rows + 5}[r.Intn(4)])
				}
				if bj < 0 || bj >= cols || len(vals) != rows {
					if err := x.m.SetColumn(bj, vals); err == nil {
						c.Fail("SetColumn(%d, length %d) on %dx%d accepted", bj, len(vals), rows, cols)
					}
				}
			} else {
				if r.Intn(2) == 0 { // part of a row of the same matrix, or of another one
					y := x
					if r.Intn(4) == 0 {
						y = ms[r.Intn(len(ms))]
					}
					if q := r.Intn(len(y.w)); len(y.w[q]) >= rows {
						own, err := y.m.GetRow(q)
						if err != nil {
							c.Fail("GetRow(%d) refused: %v", q, err)
						}
						at := r.Intn(len(own) - rows + 1)
						want := append([]float64(nil), y.w[q][at:at+rows]...)
						if err := x.m.SetColumn(j, own[at:at+rows]); err != nil {
							c.Fail("SetColumn(%d) on %dx%d refused: %v", j, rows, cols, err)
						}
						for q := range want {
							x.w[q][j] = want[q]
						}
						check(fmt.Sprintf("%dx%d matrix whose column %d was set from a part of row %d of a matrix", rows, cols, j, q), x)
						c.Cov("columns set from rows read out", 1)
					}
				}
				if err := x.m.SetColumn(j, vals); err != nil {
					c.Fail("SetColumn(%d) on %dx%d refused: %v", j, rows, cols, err)
				}
				for q := range vals {
					x.w[q][j] = vals[q]
				}
				hs = append(hs, handed{vals})
			}
		}
		if len(hs) > 0 && r.Intn(2) == 0 {
			h := hs[r.Intn(len(hs))]
			for q := range h.s {
				h.s[q] = float64(r.Intn(1000)) + 0.25
			}
			c.Cov("caller slice mutated after write", 1)
		}
		for q := range got {
			for e := range got[q] {
				if !sameVal(got[q][e], gotWas[q][e]) {
					c.Fail("a column read out earlier changed at entry %d from %v to %v", e, gotWas[q][e], got[q][e])
				}
			}
			c.Cov("columns kept and checked again", 1)
		}
		for q, y := range ms {
			check(fmt.Sprintf("matrix %d after op %d of kind %d", q, k, opn), y)
		}
	}
	// refused constructions
	for k := 0; k < 3; k++ {
		bad := [][2]int{{0, 1}, {1, 0}, {0, 0}, {-1, 3}, {3, -1}, {-2, -2}, {0, 7}, {math.MinInt32, 1}}[r.Intn(8)]
		if _, err := nn.NewMatrix(bad[0], bad[1]); err == nil {
			c.Fail("NewMatrix(%d,%d) accepted", bad[0], bad[1])
		}
		var s M
		switch r.Intn(4) {
		case 0:
			s = M{}
		case 1:
			s = nil
		case 2:
			s = M{{}}
			if r.Intn(2) == 0 {
				s = M{{}, {}}
			}
		case 3:
			rows, cols := 2+r.Intn(5), 1+r.Intn(5)
			s = genM(r, rows, cols, vNormal)
			q := 1 + r.Intn(rows-1)
			if r.Intn(3) == 0 {
				q = 0
			}
			switch r.Intn(4) {
			case 0:
				s[q] = append(s[q], 1)
			case 1:
				s[q] = s[q][:cols-1]
			case 2:
				s[q] = nil
			case 3: // as many elements in all as a rectangle has
				p := (q + 1 + r.Intn(rows-1)) % rows
				k := 1 + r.Intn(cols)
				s[p] = append(s[p], s[q][cols-k:]...)
				s[q] = s[q][:cols-k]
				c.Cov("ragged rows that add up", 1)
			}
		}
		if _, err := nn.NewMatrixFromSlice(s); err == nil {
			c.Fail("NewMatrixFromSlice accepted rows of lengths %v", rowLens(s))
		}
		c.Cov("refused constructions", 2)
	}
}

func rowLens(s M) []int {
	var o []int
	for _, r := range s {
		o = append(o, len(r))
	}
	return o
}
