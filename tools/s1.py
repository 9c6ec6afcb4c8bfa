from lib import *
seed('dot-unrolled-tail','C01','an inner dimension of at least 32 that is not a multiple of 4','Dot unrolls long inner products by four and loses the last one to three terms.',
[('matrix.go','''			sum := float64(0)
			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * b.M[n][j]
			}
''','''			sum := float64(0)
			n := 0
			if m.Cols >= 32 {
				// Long products are unrolled.
				for ; n+4 <= m.Cols; n += 4 {
					sum += m.M[i][n]*b.M[n][j] + m.M[i][n+1]*b.M[n+1][j] + m.M[i][n+2]*b.M[n+2][j] + m.M[i][n+3]*b.M[n+3][j]
				}
			} else {
				for ; n < m.Cols; n++ {
					sum += m.M[i][n] * b.M[n][j]
				}
			}
''')],
'''func main() {
	for k := 1; k <= 70; k++ {
		a := fill(2, k, func(i, j int) float64 { return 1 })
		p, err := a.Dot(fill(k, 3, func(i, j int) float64 { return float64(j + 1) }))
		ok(err)
		for i := 0; i < 2; i++ { for j := 0; j < 3; j++ {
			if !near(p.M[i][j], float64(k*(j+1)), 1e-12) { die("inner dimension %d: got %v want %v", k, p.M[i][j], k*(j+1)) }
		} }
	}
}
''')
seed('flat-backing','C02','appending to a row obtained with GetRow','NewMatrix cuts its rows out of one flat slice without limiting their capacity, so appending to a row that was read out writes into the next row.',
[('matrix.go','''	for i, _ := range M {
		M[i] = make([]float64, cols)
	}
''','''	data := make([]float64, rows*cols)
	for i, _ := range M {
		M[i] = data[i*cols : (i+1)*cols]
	}
''')],
'''func main() {
	m := fill(3, 2, func(i, j int) float64 { return float64(10*i + j) })
	for i := 0; i < 3; i++ {
		row, err := m.GetRow(i)
		ok(err)
		row = append(row, -1, -2)
		_ = row
	}
	for i := 0; i < 3; i++ { for j := 0; j < 2; j++ {
		if v, _ := m.Get(i, j); v != float64(10*i+j) { die("element %d,%d is now %v", i, j, v) }
	} }
}
''')
seed('leaky-max','C03','a leaky layer with a slope above 1','The leaky activation is computed as max(v, slope*v), which is another function when the slope is above 1.',
[('activation.go','''			if m.M[i][j] < 0 {
				m.M[i][j] = m.M[i][j] * slope
			}
''','''			m.M[i][j] = math.Max(m.M[i][j], m.M[i][j] * slope)
''')],
'''func main() {
	for _, s := range []float64{0, 0.01, 0.5, 1, 1.5, 3} {
		l, err := nn.NewLeakyLayer(1, 1, s)
		ok(err)
		l.Weights.M[0][0], l.Biases.M[0][0] = 2, 0.5
		for _, x := range []float64{-3, -1, 0, 1, 4} {
			o, err := l.Forward(mat([][]float64{{x}}))
			ok(err)
			z := 2*x + 0.5
			if z < 0 { z *= s }
			if !near(o.M[0][0], z, 1e-12) { die("slope %v input %v: got %v want %v", s, x, o.M[0][0], z) }
		}
	}
}
''')
seed('sigmoid-exp-overflow','C04','a sigmoid score above 709','The sigmoid is computed as e^x/(1+e^x), which is NaN once e^x overflows.',
[('activation.go','m.M[i][j] = float64(1)/(1 + math.Exp(-m.M[i][j]))','''e := math.Exp(m.M[i][j])
                        m.M[i][j] = e / (1 + e)''')],
'''func main() {
	l, err := nn.NewSigmoidLayer(1, 1)
	ok(err)
	l.Weights.M[0][0] = 1
	for _, x := range []float64{-5000, -800, -3, 0, 3, 600, 800, 5000, 1e300} {
		o, err := l.Forward(mat([][]float64{{x}}))
		ok(err)
		if v := o.M[0][0]; !(v >= 0 && v <= 1) { die("sigmoid(%v) = %v", x, v) }
	}
}
''')
seed('hidden-cached-transpose','C10','at least two hidden layers and a parameter update between two backward passes of the same model','The hidden layer keeps the transposed weights of its first backward pass, so that later passes send outdated gradients to the layers below.',
[('network.go','''	Biases     *Matrix
	reluInputs Matrix
}

// Create a new hidden layer.''','''	Biases     *Matrix
	reluInputs Matrix
	wt         Matrix
}

// Create a new hidden layer.'''),
('network.go','''	l.InputSize = int(values["inputs"])
	l.OutputSize = int(values["outputs"])
	l.Weights = &weights
	l.Biases = &biases
}

// Initialize the hidden layer values.''','''	l.InputSize = int(values["inputs"])
	l.OutputSize = int(values["outputs"])
	l.Weights = &weights
	l.Biases = &biases
	l.wt = Matrix{}
}

// Initialize the hidden layer values.'''),
('network.go','''	it := x.T()
	wt := l.Weights.T()
	dWeights, err := it.Dot(dValues)''','''	it := x.T()
	if l.wt.Rows != l.OutputSize || l.wt.Cols != l.InputSize {
		l.wt = l.Weights.T()
	}
	wt := l.wt
	dWeights, err := it.Dot(dValues)''')],
'''func main() {
	a, err := nn.NewLayer(2, 3)
	ok(err)
	b, err := nn.NewLayer(3, 2)
	ok(err)
	c, err := nn.NewLinearLayer(2, 1)
	ok(err)
	for i, w := range []*nn.Matrix{a.Weights, b.Weights, c.Weights, a.Biases, b.Biases} {
		for j := range w.M { for k := range w.M[j] { w.M[j][k] = 0.3 + 0.1*float64(i) + 0.07*float64(j) - 0.05*float64(k) } }
	}
	m := nn.NewModel()
	ok(m.AddLayer(&a)); ok(m.AddLayer(&b)); ok(m.AddLayer(&c))
	loss, _ := nn.NewMeanSquaredLoss(1)
	opt, _ := nn.NewSGDOptimizer(0.05, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
	X := fill(4, 2, func(i, j int) float64 { return 1 + float64(i)*0.3 + float64(j)*0.5 })
	Y := fill(4, 1, func(i, j int) float64 { return 3 + float64(i) })
	for step := 0; step < 5; step++ {
		outs, err := m.Forward(X, true)
		ok(err)
		g, err := m.Backward(outs, Y)
		ok(err)
		// the gradient of the first layer against a central difference
		for i := 0; i < 2; i++ { for j := 0; j < 3; j++ {
			h, w := 1e-5, a.Weights.M[i][j]
			a.Weights.M[i][j] = w + h
			up, _ := m.CalculateLoss(X, Y)
			a.Weights.M[i][j] = w - h
			dn, _ := m.CalculateLoss(X, Y)
			a.Weights.M[i][j] = w
			if d := (up - dn) / (2 * h); !near(g[2].DWeights.M[i][j], d, 1e-4) { die("step %d: gradient %v, difference quotient %v", step, g[2].DWeights.M[i][j], d) }
		} }
		ok(m.Fit(X, Y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0))
	}
}
''')
seed('dropout-percent','C06','a dropout rate that is not a whole percentage, or whose complement rounds down','The keep decision compares a random percentage with the truncated keep rate, so that the units are dropped too often for rates such as 0.005, 0.125 or 0.995.',
[('network.go','l.binaryMask.M[i][j] = binomial.Rand()','''if binomial.Rand(); rand.Intn(100) < int(100*binomial.P) {
				l.binaryMask.M[i][j] = 1
			}''')],
'''func main() {
	for _, rate := range []float64{0.005, 0.125, 0.5, 0.995} {
		l, err := nn.NewDropoutLayer(1, 100, rate)
		ok(err)
		for j := range l.Biases.M[0] { l.Biases.M[0][j] = 1 }
		x := fill(2000, 1, func(i, j int) float64 { return 0 })
		dropped, n := 0.0, 0.0
		for k := 0; k < 5; k++ {
			o, err := l.Forward(x)
			ok(err)
			for i := range o.M { for _, v := range o.M[i] { n++; if v == 0 { dropped++ } } }
		}
		if sd := math.Sqrt(rate * (1 - rate) / n); math.Abs(dropped/n-rate) > 8*sd { die("rate %v: dropped %v", rate, dropped/n) }
	}
}
''')
seed('dropout-last','C07','a model whose last layer is a dropout layer','The model only switches dropout off in front of its last layer, so that a dropout layer at the end drops units during prediction and evaluation.',
[('model.go','ok && training == false {','ok && training == false && i < m.ModelSize - 1 {')],
'''func main() {
	a, err := nn.NewLinearLayer(1, 4)
	ok(err)
	b, err := nn.NewDropoutLayer(4, 3, 0.5)
	ok(err)
	for j := 0; j < 4; j++ { a.Weights.M[0][j] = 1; for k := 0; k < 3; k++ { b.Weights.M[j][k] = 1 } }
	m := nn.NewModel()
	ok(m.AddLayer(&a)); ok(m.AddLayer(&b))
	loss, _ := nn.NewMeanSquaredLoss(3)
	opt, _ := nn.NewSGDOptimizer(0.1, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
	for k := 0; k < 50; k++ {
		p, err := m.Predict(mat([][]float64{{1}, {2}}))
		ok(err)
		for i := range p.M { for _, v := range p.M[i] { if v != float64(4*(i+1)) { die("prediction %v", v) } } }
	}
}
''')
seed('ce-blocks','C08','a cross-entropy loss over more than 64 rows whose number is not a multiple of 64','The cross-entropy loss averages the means of blocks of 64 rows, so that the rows of a shorter last block count more than the others.',
[('loss.go',"""	// Calculate the average loss.
	for i := 0; i < likelihoods.Rows; i++ {
		sum += likelihoods.M[i][0] / float64(likelihoods.Rows)
	}
""","""	// Calculate the average loss, block by block.
	blocks := float64(0)
	for start := 0; start < likelihoods.Rows; start += 64 {
		end := start + 64
		if end > likelihoods.Rows {
			end = likelihoods.Rows
		}
		part := float64(0)
		for i := start; i < end; i++ {
			part += likelihoods.M[i][0]
		}
		sum += part / float64(end - start)
		blocks += 1
	}
	sum /= blocks
""")],
"""func main() {
	for _, n := range []int{1, 5, 64, 65, 100, 128, 200, 1000} {
		p := fill(n, 2, func(i, j int) float64 { q := float64(1+i*i%37) / 40; if j == 1 { q = 1 - q }; return q })
		y := fill(n, 2, func(i, j int) float64 { if i%2 == j { return 1 }; return 0 })
		l, _ := nn.NewCrossEntropyLoss(2)
		got, err := l.Forward(p, y)
		ok(err)
		want := 0.0
		for i := range p.M { want -= math.Log(p.M[i][i%2]) }
		if want /= float64(n); !near(got, want, 1e-9) { die("%d rows: %v want %v", n, got, want) }
	}
}
""")
seed('mse-cached-scale','C09','one loss object used for batches of different sizes','The mean squared loss keeps the normalising factor of its first backward pass and uses it for batches of other sizes, such as a shorter last batch.',
[('loss.go','''type MeanSquaredLoss struct {
	Size int
}''','''type MeanSquaredLoss struct {
	Size  int
	scale float64
}'''),
('loss.go','return MeanSquaredLoss{size}, nil','return MeanSquaredLoss{Size: size}, nil'),
('loss.go','''	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size) / float64(yhat.Rows))

	// Return the final gradient.
	return dInputs, nil''','''	if loss.scale == 0 {
		loss.scale = float64(2) / float64(loss.Size) / float64(yhat.Rows)
	}

	// Return the final gradient.
	return dInputs.MulScalar(loss.scale), nil''')],
'''func main() {
	l, _ := nn.NewMeanSquaredLoss(2)
	for _, n := range []int{4, 4, 3, 1, 7} {
		p := fill(n, 2, func(i, j int) float64 { return float64(i) + 0.5*float64(j) })
		y := fill(n, 2, func(i, j int) float64 { return float64(j) })
		g, err := l.Backward(p, y)
		ok(err)
		for i := range g.M { for j := range g.M[i] {
			if want := 2 * (p.M[i][j] - y.M[i][j]) / float64(2*n); !near(g.M[i][j], want, 1e-12) { die("%d rows: %v want %v", n, g.M[i][j], want) }
		} }
	}
}
''')
seed('fused-inner-softmax','C10','a cross-entropy model with a softmax layer that is not the last layer','With cross-entropy loss the backward loop skips every softmax layer, not only the last one, so that an inner softmax layer gets no gradients.',
[('model.go','m.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {','m.LossType == CrossEntropyLossType {')],
'''func main() {
	a, _ := nn.NewSoftmaxLayer(2, 3)
	b, _ := nn.NewSoftmaxLayer(3, 2)
	m := nn.NewModel()
	ok(m.AddLayer(&a)); ok(m.AddLayer(&b))
	loss, _ := nn.NewCrossEntropyLoss(2)
	opt, _ := nn.NewSGDOptimizer(0.1, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.CategoricalAccuracyType, 0))
	outs, err := m.Forward(mat([][]float64{{1, 2}, {3, -1}}), true)
	ok(err)
	g, err := m.Backward(outs, mat([][]float64{{1, 0}, {0, 1}}))
	ok(err)
	if len(g) != 2 { die("%d gradients for 2 layers", len(g)) }
	if g[0].DWeights.Rows != 3 || g[1].DWeights.Rows != 2 { die("gradients of the wrong shape") }
}
''')
seed('sgd-unscaled-velocity','C11','momentum together with decay','With momentum the velocity accumulates the plain gradients and the current rate is applied afterwards, which differs from the rule as soon as the rate decays.',
[('optimizers.go','scaledGradientsWeights := dWeights.MulScalar(optimizer.currentRate)','scaledGradientsWeights := dWeights'),
('optimizers.go','scaledGradientsBiases := dBiases.MulScalar(optimizer.currentRate)','scaledGradientsBiases := dBiases'),
('optimizers.go','weights.M[i][j] += optimizer.weightMomentums.M[i][j]','weights.M[i][j] += optimizer.currentRate * optimizer.weightMomentums.M[i][j]'),
('optimizers.go','biases.M[i][j] += optimizer.biasMomentums.M[i][j]','biases.M[i][j] += optimizer.currentRate * optimizer.biasMomentums.M[i][j]')],
'''func main() {
	for _, decay := range []float64{0, 0.1} { for _, mom := range []float64{0, 0.9} {
		o, err := nn.NewSGDOptimizer(0.1, decay, mom)
		ok(err)
		w, b := mat([][]float64{{1}}), mat([][]float64{{2}})
		x, v := 1.0, 0.0
		for t := 0; t < 20; t++ {
			g := math.Cos(float64(t))
			ok(o.Update(&w, &b, mat([][]float64{{g}}), mat([][]float64{{g}})))
			v = mom*v - 0.1/(1+decay*float64(t))*g
			x += v
			if !near(w.M[0][0], x, 1e-9) || !near(b.M[0][0], x+1, 1e-9) { die("decay %v momentum %v step %d: %v want %v", decay, mom, t, w.M[0][0], x) }
		}
	} }
}
''')
seed('adam-warmup','C12','more than 1000 updates of one optimizer with beta2 close to 1','Adam stops correcting the bias of its moments after 1000 updates, when 1-0.999^t is still far from 1.',
[('optimizers.go','''	correctedWeightMomentums := optimizer.weightMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
''','''	momentumCorrection, cacheCorrection := float64(1), float64(1)
	if optimizer.iterations < 1000 {
		// The averages are settled after that.
		momentumCorrection = float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1)))
		cacheCorrection = float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1)))
	}
	correctedWeightMomentums := optimizer.weightMomentums.MulScalar(momentumCorrection)
	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(momentumCorrection)
'''),
('optimizers.go','optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))','optimizer.weightCache.MulScalar(cacheCorrection)'),
('optimizers.go','optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))','optimizer.biasCache.MulScalar(cacheCorrection)')],
'''func main() {
	o, err := nn.NewAdamOptimizer(0.01, 0, 1e-7, 0.9, 0.999)
	ok(err)
	w, b := mat([][]float64{{0}}), mat([][]float64{{0}})
	x, m, v := 0.0, 0.0, 0.0
	for t := 1; t <= 1500; t++ {
		g := math.Cos(float64(t)) + 0.5
		ok(o.Update(&w, &b, mat([][]float64{{g}}), mat([][]float64{{g}})))
		m, v = 0.9*m+0.1*g, 0.999*v+0.001*g*g
		x -= 0.01 * (m / (1 - math.Pow(0.9, float64(t)))) / (math.Sqrt(v/(1-math.Pow(0.999, float64(t)))) + 1e-7)
		if !near(w.M[0][0], x, 1e-7) || !near(b.M[0][0], x, 1e-7) { die("update %d: %v want %v", t, w.M[0][0], x) }
	}
}
''')
seed('lone-leftover','C13','a number of samples that leaves exactly one sample for the last batch','A last batch of a single sample is skipped.',
[('model.go','if batchSteps * batchSize < Y.Rows {','if Y.Rows - batchSteps * batchSize > 1 || batchSteps == 0 {')],
'''func main() {
	for rows := 1; rows < 9; rows++ { for batch := 0; batch < 10; batch++ {
		l, _ := nn.NewLinearLayer(1, 1)
		m := nn.NewModel()
		ok(m.AddLayer(&l))
		loss, _ := nn.NewMeanSquaredLoss(1)
		opt, _ := nn.NewSGDOptimizer(0.01, 0, 0)
		ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
		X := fill(rows, 1, func(i, j int) float64 { return float64(i + 1) })
		Y := fill(rows, 1, func(i, j int) float64 { return float64(2*i + 3) })
		ok(m.Fit(X, Y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0))
		w, b := 0.0, 0.0
		n := batch
		if n == 0 { n = rows }
		for s := 0; s < rows; s += n {
			e := s + n
			if e > rows { e = rows }
			gw, gb := 0.0, 0.0
			for i := s; i < e; i++ { d := 2 * (X.M[i][0]*w + b - Y.M[i][0]) / float64(e-s); gw += d * X.M[i][0]; gb += d }
			w -= 0.01 * gw
			b -= 0.01 * gb
		}
		if !near(l.Weights.M[0][0], w, 1e-9) || !near(l.Biases.M[0][0], b, 1e-9) { die("%d rows, batches of %d: %v want %v", rows, batch, l.Weights.M[0][0], w) }
	} }
}
''')
seed('finalize-keeps-optimizers','C14','finalizing a trained model again with an optimizer that keeps state','Finalizing a model again with the same optimizer settings keeps the old optimizers together with their momentum, moments and step counts.',
[('model.go','''	m.OptimizerType = OptimizerType(values["type"])
	delete(values, "type")
	m.OptimizerValues = values

	// Create all the optimizers.
	m.Optimizers = []Optimizer{}
	for i := 0; i < m.ModelSize; i++ {''','''	sameOptimizer := m.OptimizerType == OptimizerType(values["type"])
	m.OptimizerType = OptimizerType(values["type"])
	delete(values, "type")
	sameOptimizer = sameOptimizer && len(m.OptimizerValues) == len(values)
	for k, v := range values {
		sameOptimizer = sameOptimizer && m.OptimizerValues[k] == v
	}
	m.OptimizerValues = values

	// Create all the optimizers that are missing.
	if !sameOptimizer {
		m.Optimizers = []Optimizer{}
	}
	for i := len(m.Optimizers); i < m.ModelSize; i++ {''')],
'''func model() (*nn.Model, *nn.LinearLayer) {
	l, _ := nn.NewLinearLayer(1, 1)
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	return &m, &l
}
func fin(m *nn.Model) {
	loss, _ := nn.NewMeanSquaredLoss(1)
	opt, _ := nn.NewSGDOptimizer(0.01, 0.1, 0.9)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
}
func main() {
	X, Y := mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {5}})
	a, la := model()
	fin(a)
	ok(a.Fit(X, Y, 5, 0, nn.Matrix{}, nn.Matrix{}, 0))
	b, lb := model()
	lb.Weights.M[0][0], lb.Biases.M[0][0] = la.Weights.M[0][0], la.Biases.M[0][0]
	fin(a)
	fin(b)
	ok(a.Fit(X, Y, 5, 0, nn.Matrix{}, nn.Matrix{}, 0))
	ok(b.Fit(X, Y, 5, 0, nn.Matrix{}, nn.Matrix{}, 0))
	if !near(la.Weights.M[0][0], lb.Weights.M[0][0], 1e-12) { die("a finalized model does not start afresh: %v, %v", la.Weights.M[0][0], lb.Weights.M[0][0]) }
}
''')
if __name__=='__main__': run(sys.argv[1:] or None)
