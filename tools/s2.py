from lib import *
PRE_LIN='''func linear(w, b float64) (*nn.Model, *nn.LinearLayer) {
	l, _ := nn.NewLinearLayer(1, 1)
	l.Weights.M[0][0], l.Biases.M[0][0] = w, b
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	return &m, &l
}
'''
seed('fit-fresh-optimizers','C15','two training calls on one model with an optimizer that keeps state','Every training call starts with fresh optimizers, so that training in several calls differs from training in one.',
[('model.go','''	// Main training loop.
	for epoch := 0; epoch < epochs; epoch++ {
		// Batch training loop.''','''	// The caches of an earlier run belong to other batches.
	optimizers := make([]Optimizer, m.ModelSize)
	for layer := range optimizers {
		optimizer, err := NewOptimizerFromType(m.OptimizerType, m.OptimizerValues)
		if err != nil {
			return err
		}
		optimizers[layer] = optimizer
	}

	// Main training loop.
	for epoch := 0; epoch < epochs; epoch++ {
		// Batch training loop.'''),
('model.go','err := m.Optimizers[layer].Update(','err := optimizers[layer].Update(')],
PRE_LIN+'''func main() {
	X, Y := mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {5}})
	a, la := linear(0.5, 0)
	b, lb := linear(0.5, 0)
	for _, m := range []*nn.Model{a, b} {
		loss, _ := nn.NewMeanSquaredLoss(1)
		opt, _ := nn.NewSGDOptimizer(0.01, 0.1, 0.9)
		ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
	}
	ok(a.Fit(X, Y, 6, 0, nn.Matrix{}, nn.Matrix{}, 0))
	for k := 0; k < 3; k++ { ok(b.Fit(X, Y, 2, 0, nn.Matrix{}, nn.Matrix{}, 0)) }
	if !near(la.Weights.M[0][0], lb.Weights.M[0][0], 1e-12) { die("one call: %v, three calls: %v", la.Weights.M[0][0], lb.Weights.M[0][0]) }
}
''')
seed('log-reuses-outputs','C16','progress logging while training in one batch','When an epoch is a single batch the logged loss is taken from the outputs of its training pass, that is from before the update.',
[('model.go','''	// Main training loop.
	for epoch := 0; epoch < epochs; epoch++ {
''','''	// Main training loop.
	var lastOutput Matrix
	for epoch := 0; epoch < epochs; epoch++ {
'''),
('model.go','''			// Perform the backward pass.
			gradients, err''','''			lastOutput = outputs[m.ModelSize]

			// Perform the backward pass.
			gradients, err'''),
('model.go','''			loss, err := m.CalculateLoss(X, Y)
			if err != nil {
				ErrorLogger.Printf("Failed to calculate loss: %s", err.Error())
				return err
			}
''','''			var loss float64
			var err error
			if batchSteps == 1 {
				// The outputs of the whole set are already there.
				loss, err = m.Loss.Forward(lastOutput, Y)
			} else {
				loss, err = m.CalculateLoss(X, Y)
			}
			if err != nil {
				ErrorLogger.Printf("Failed to calculate loss: %s", err.Error())
				return err
			}
''')],
PRE_LIN+'''func main() {
	ok(nn.InitLogger(false, true, "log.txt"))
	X, Y := mat([][]float64{{1}, {2}, {3}}), mat([][]float64{{3}, {5}, {8}})
	for _, batch := range []int{0, 2, 3} {
		a, _ := linear(0.5, 0)
		loss, _ := nn.NewMeanSquaredLoss(1)
		opt, _ := nn.NewSGDOptimizer(0.02, 0, 0)
		ok(a.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
		for k := 0; k < 3; k++ {
			os.Truncate("log.txt", 0)
			ok(a.Fit(X, Y, 1, batch, nn.Matrix{}, nn.Matrix{}, 1))
			j, err := a.CalculateLoss(X, Y)
			ok(err)
			b, _ := os.ReadFile("log.txt")
			if !strings.Contains(string(b), fmt.Sprintf("Loss: %f,", j)) { die("batch size %d, logged %q, the loss is %f", batch, b, j) }
		}
	}
}
''')
seed('accuracy-argmax-target','C17','target rows that are not one-hot: several classes marked, or none','Categorical accuracy compares the decided class with the first marked class of the target instead of asking whether the decided class is marked.',
[('accuracy.go','''	outputs := RowMax(yHat)
''','''	outputs := RowMax(yHat)
	targets := RowMax(Y)
'''),
('accuracy.go','if Y.M[i][int(outputs.M[i][0])] == 1 {','if outputs.M[i][0] == targets.M[i][0] {')],
'''func main() {
	p := mat([][]float64{{0.1, 0.9, 0}, {0.2, 0.1, 0.7}, {0.5, 0.3, 0.2}, {0.9, 0.1, 0}, {0.1, 0.2, 0.7}, {0, 1, 0}})
	y := mat([][]float64{{1, 1, 0}, {0, 0, 1}, {0, 0, 0}, {0, 1, 0}, {1, 0, 1}, {1, 1, 1}})
	if a := nn.CategoricalAccuracy(p, y); !near(a, 4.0/6, 1e-12) { die("accuracy %v, want 4/6", a) }
}
''')
seed('shuffle-sattolo','C18','no particular input, but only the distribution over many shuffles shows it','The shuffle never leaves a sample in its place: it draws the partner of position i from the positions below i only.',
[('misc.go','''	rand.Shuffle(X.Rows, func(i, j int) {
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	})
''','''	for i := X.Rows - 1; i > 0; i-- {
		j := rand.Intn(i)
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	}
''')],
'''func main() {
	seen := map[string]bool{}
	for k := 0; k < 3000; k++ {
		X, Y := nn.ShuffleDataset(fill(3, 1, func(i, j int) float64 { return float64(i) }), fill(3, 1, func(i, j int) float64 { return float64(10 * i) }))
		for i := range X.M { if Y.M[i][0] != 10*X.M[i][0] { die("pair broken") } }
		seen[fmt.Sprint(X.M)] = true
	}
	if len(seen) != 6 { die("only %d of 6 orders seen", len(seen)) }
}
''')
seed('shuffle-seconds','C18','several shuffles within the same second','The shuffle is seeded with the time in whole seconds, so that shuffles within one second repeat the same order.',
[('misc.go','rand.Seed(time.Now().UnixNano())','rand.Seed(time.Now().Unix())')],
'''func main() {
	seen := map[string]bool{}
	for k := 0; k < 200; k++ {
		X, _ := nn.ShuffleDataset(fill(30, 1, func(i, j int) float64 { return float64(i) }), fill(30, 1, func(i, j int) float64 { return 0 }))
		seen[fmt.Sprint(X.M)] = true
	}
	if len(seen) < 190 { die("only %d orders in 200 shuffles", len(seen)) }
}
''')
seed('precision-regression-only','C19','a model with another accuracy type than regression and a precision that is not zero','The precision is only saved for regression models and comes back as zero for the others.',
[('model_data.go','''        // Return the new saved layer data object
        return SavedModelData{
                Version: ''','''	// The percision only applies to regression.
	percision := float64(0)
	if model.AccuracyType == RegressionAccuracyType {
		percision = model.AccuracyPercision
	}

        // Return the new saved layer data object
        return SavedModelData{
                Version: '''),
('model_data.go','AccuracyPercision: model.AccuracyPercision,','AccuracyPercision: percision,')],
PRE_LIN+'''func main() {
	for _, acc := range []nn.AccuracyType{0, 1, 2} {
		m, _ := linear(1, 2)
		loss, _ := nn.NewMeanSquaredLoss(1)
		opt, _ := nn.NewSGDOptimizer(0.02, 0, 0)
		ok(m.Finalize(&loss, &opt, acc, 0.25))
		ok(nn.SaveFile(m, "m.nn"))
		n, err := nn.LoadFile("m.nn")
		ok(err)
		if n.AccuracyPercision != 0.25 { die("accuracy type %d: precision %v came back", acc, n.AccuracyPercision) }
	}
}
''')
seed('positional-optimizer-values','C20','a file whose optimizer entries are in another order than this version writes them','Optimizer entries are written in a fixed order and read by position, so that a file with another order loads with exchanged hyperparameters.',
[('model_data.go','''	for k, v := range m.OptimizerValues {
		// Write''','''	keys := []string{}
	for k := range m.OptimizerValues {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := m.OptimizerValues[k]

		// Write'''),
('model_data.go','	"os"\n','	"os"\n	"sort"\n'),
('model_data.go','''	// Loop over all the values.
	for i := 0;''','''	// The names of the values, in the order of the file.
	names := []string{"decay", "learningRate", "momentum"}
	if OptimizerType(optimizerType) == AdamOptimizerType {
		names = []string{"beta1", "beta2", "decay", "epsilon", "learningRate"}
	}

	// Loop over all the values.
	for i := 0;'''),
('model_data.go','''		optimizerValues[string(key)] = value
''','''		if i < len(names) {
			optimizerValues[names[i]] = value
		}
''')],
'''func main() {
	names := []string{"learningRate", "decay", "momentum"}
	vals := map[string]float64{"learningRate": 0.5, "decay": 0.25, "momentum": 0.75}
	for _, order := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		var b bytes.Buffer
		w := func(v interface{}) { binary.Write(&b, binary.LittleEndian, v) }
		b.WriteString("NNML" + nn.VERSION)
		w(int8(1)); w(int32(1)); w(int32(1)); w(int8(0)); w(int8(0)); w(0.5); w(int8(0)); w(int8(3))
		for _, k := range order { w(int8(len(names[k]))); b.WriteString(names[k]); w(vals[names[k]]) }
		b.WriteString("LA")
		w(int8(1)); w(int32(1)); w(int32(1)); w(0.0); w(0.0); w(2.0); w(3.0)
		m, err := nn.LoadModel(&b)
		ok(err)
		for k, v := range vals { if m.OptimizerValues[k] != v { die("order %v: %s is %v, want %v", order, k, m.OptimizerValues[k], v) } }
	}
}
''')
seed('load-skips-chain-check','C21','a file whose layer sizes do not chain','Loading puts the layers into the model directly, so that layers whose sizes do not fit together are accepted.',
[('model_data.go','''	for i := 0; i < savedModelData.ModelSize; i++ {
		err := model.AddLayer(layers[i])
		if err != nil {
			return Model{}, err
		}
	}
''','''	model.Layers = layers
	model.ModelSize = savedModelData.ModelSize
	model.InputSize = savedModelData.InputSize
	model.OutputSize = savedModelData.OutputSize
''')],
'''func main() {
	for _, mid := range []int32{2, 3} {
		var b bytes.Buffer
		w := func(v interface{}) { binary.Write(&b, binary.LittleEndian, v) }
		b.WriteString("NNML" + nn.VERSION)
		w(int8(2)); w(int32(1)); w(int32(1)); w(int8(0)); w(int8(0)); w(0.5); w(int8(0)); w(int8(1)); w(int8(12)); b.WriteString("learningRate"); w(0.1)
		b.WriteString("LA"); w(int8(1)); w(int32(1)); w(int32(2)); w(0.0); w(0.0); w([4]float64{1, 2, 3, 4})
		b.WriteString("LA"); w(int8(1)); w(mid); w(int32(1)); w(0.0); w(0.0); w(make([]float64, mid+1))
		_, err := nn.LoadModel(&b)
		if (err == nil) != (mid == 2) { die("second layer with %d inputs: %v", mid, err) }
	}
}
''')
seed('save-buffered','C22','a device that is full or fails when the file is written','The model is written through a buffered writer that is flushed on return, so that a failing write of a small model is not reported.',
[('model_data.go','''        _, err = file.Write(buffer.Bytes())
''','''	writer := bufio.NewWriter(file)
	defer writer.Flush()
        _, err = writer.Write(buffer.Bytes())
'''),
('model_data.go','        "bytes"\n','        "bufio"\n        "bytes"\n')],
PRE_LIN+'''func main() {
	m, _ := linear(1, 2)
	loss, _ := nn.NewMeanSquaredLoss(1)
	opt, _ := nn.NewSGDOptimizer(0.02, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.25))
	ok(nn.SaveFile(m, "m.nn"))
	_, err := nn.LoadFile("m.nn")
	ok(err)
	// a file system that takes nothing
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	ok(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
	lim.Cur = 0
	ok(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
	if nn.SaveFile(m, "m2.nn") == nil { die("saving to a full file system reported success") }
}
''')
seed('shared-likelihoods','C23','several goroutines evaluating cross-entropy losses at the same time','The cross-entropy loss keeps its per-sample terms in a scratch slice shared by all loss objects.',
[('loss.go','''	likelihoods, _ := NewMatrix(yhat.Rows, 1)
''','''	likelihoods := likelihoodScratch(yhat.Rows)
'''),
('loss.go','''// Cross-entropy loss forward pass function.
func (loss *CrossEntropyLoss) Forward(''','''// Space for the terms of the single samples.
var likelihoodSpace Matrix

func likelihoodScratch(rows int) Matrix {
	if likelihoodSpace.Rows < rows {
		likelihoodSpace, _ = NewMatrix(rows, 1)
	}
	return Matrix{Rows: rows, Cols: 1, M: likelihoodSpace.M[:rows]}
}

// Cross-entropy loss forward pass function.
func (loss *CrossEntropyLoss) Forward(''')],
'''func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			l, _ := nn.NewCrossEntropyLoss(2)
			q := 0.1 + 0.1*float64(g)
			p := fill(500, 2, func(i, j int) float64 { if j == 0 { return q }; return 1 - q })
			y := fill(500, 2, func(i, j int) float64 { return float64(1 - j) })
			for k := 0; k < 3000; k++ {
				if v, _ := l.Forward(p, y); !near(v, -math.Log(q), 1e-9) { select { case bad <- fmt.Sprintf("loss %v, alone %v", v, -math.Log(q)): default: }; return }
			}
		}(g)
	}
	wg.Wait()
	select { case s := <-bad: die(s); default: }
}
''')
seed('init-seconds','C24','two linear layers of the same shape initialised within one second','Linear layers seed their generator with the time in whole seconds, so that layers initialised within one second get the same weights.',
[('network.go','''// Initialize the linear layer values.
func (l *LinearLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))

        // Create the random number generator.
        r := rand.New(rand.NewSource(time.Now().UnixNano()))''','''// Initialize the linear layer values.
func (l *LinearLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))

        // Create the random number generator.
        r := rand.New(rand.NewSource(time.Now().Unix()))''')],
'''func main() {
	same := 0
	for k := 0; k < 20; k++ {
		a, _ := nn.NewLinearLayer(3, 3)
		b, _ := nn.NewLinearLayer(3, 3)
		a.Init(); time.Sleep(time.Millisecond); b.Init()
		if fmt.Sprint(a.Weights.M) == fmt.Sprint(b.Weights.M) { same++ }
	}
	if same > 0 { die("%d of 20 pairs of layers got the same weights", same) }
}
''')
seed('finalize-sets-loss-first','C25','a second, refused Finalize of a finalized model','Finalize puts the loss into the model before it checks its size, so that a refused call leaves the model with a loss that does not fit.',
[('model.go','''	values := loss.getValues()
	if m.OutputSize != int(values["size"]) {
		return errors.New("nn.Model: Loss size does not match up with output size.")
	}
	m.LossType = LossType(values["type"])
	m.Loss = loss
''','''	values := loss.getValues()
	m.LossType = LossType(values["type"])
	m.Loss = loss
	if m.OutputSize != int(values["size"]) {
		return errors.New("nn.Model: Loss size does not match up with output size.")
	}
''')],
PRE_LIN+'''func main() {
	m, _ := linear(1, 2)
	loss, _ := nn.NewMeanSquaredLoss(1)
	opt, _ := nn.NewSGDOptimizer(0.02, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.25))
	other, _ := nn.NewMeanAbsoluteLoss(3)
	if m.Finalize(&other, &opt, nn.RegressionAccuracyType, 0.25) == nil { die("a loss of the wrong size was accepted") }
	j, err := m.CalculateLoss(mat([][]float64{{1}}), mat([][]float64{{5}}))
	if err != nil || j != 4 || m.LossType != nn.MeanSquaredLossType { die("the model is no longer usable: %v %v", j, err) }
}
''')
seed('transpose-in-place','C26','a square hidden layer and a backward pass whose input has another number of rows than the forward pass','The hidden layer transposes square weights in place during the backward pass and does not turn them back when the pass is refused.',
[('network.go','''	// Calculate the gradients on the RELU activation function.
	dValues = RELUPrime(copyMatrix(dValues), l.reluInputs)

	// Complete the backpropagation process and calculate the gradients.
	it := x.T()
	wt := l.Weights.T()
	dWeights, err := it.Dot(dValues)
	if err != nil {
		return Matrix{}, Matrix{}, Matrix{}, err
	}

	dBiases := dValues.Sum(0)

	dInputs, err := dValues.Dot(wt)
''','''	// Calculate the gradients on the RELU activation function.
	dValues = RELUPrime(copyMatrix(dValues), l.reluInputs)

	// Complete the backpropagation process and calculate the gradients.
	it := x.T()
	wt := *l.Weights
	square := wt.Rows == wt.Cols
	flip := func() {
		for i := 0; i < wt.Rows; i++ {
			for j := 0; j < i; j++ {
				wt.M[i][j], wt.M[j][i] = wt.M[j][i], wt.M[i][j]
			}
		}
	}
	if square {
		// No need for a second matrix.
		flip()
	} else {
		wt = l.Weights.T()
	}
	dWeights, err := it.Dot(dValues)
	if err != nil {
		return Matrix{}, Matrix{}, Matrix{}, err
	}

	dBiases := dValues.Sum(0)

	dInputs, err := dValues.Dot(wt)
	if square {
		flip()
	}
''')],
'''func main() {
	l, _ := nn.NewLayer(2, 2)
	for i := 0; i < 2; i++ { for j := 0; j < 2; j++ { l.Weights.M[i][j] = float64(1 + 2*i + j) } }
	before := fmt.Sprint(l.Weights.M)
	one := func(i, j int) float64 { return 1 }
	_, err := l.Forward(fill(3, 2, one))
	ok(err)
	_, _, _, err = l.Backward(fill(3, 2, one), fill(3, 2, one))
	ok(err)
	if fmt.Sprint(l.Weights.M) != before { die("a backward pass changed the weights") }
	if _, _, _, err = l.Backward(fill(2, 2, one), fill(3, 2, one)); err == nil { die("differing row counts were accepted") }
	if after := fmt.Sprint(l.Weights.M); after != before { die("a refused backward pass turned the weights %s into %s", before, after) }
}
''')
seed('skip-tiny-updates','C27','gradients small enough that a step is below 1e-6','Plain gradient descent skips steps below 1e-6, so that training stalls before the least-squares solution and small learning rates do not train at all.',
[('optimizers.go','''                                weights.M[i][j] -= weightUpdates.M[i][j]
''','''				if math.Abs(weightUpdates.M[i][j]) > 1e-6 {
					weights.M[i][j] -= weightUpdates.M[i][j]
				}
''')],
PRE_LIN+'''func main() {
	m, l := linear(0, 0)
	loss, _ := nn.NewMeanSquaredLoss(1)
	opt, _ := nn.NewSGDOptimizer(0.001, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.25))
	X := fill(11, 1, func(i, j int) float64 { return float64(i-5) / 2 })
	Y := fill(11, 1, func(i, j int) float64 { return 3 * float64(i-5) / 2 })
	ok(m.Fit(X, Y, 12000, 0, nn.Matrix{}, nn.Matrix{}, 0))
	if w := l.Weights.M[0][0]; !near(w, 3, 1e-8) { die("the weight is %.12f after 12000 epochs, want 3", w) }
}
''')
seed('linear-reuses-output','C28','two passes of the same batch size through a linear layer while the first result is still in use','The linear layer reuses its output matrix when the batch size stays the same, so that an earlier prediction is overwritten by a later one.',
[('network.go','''type LinearLayer struct {
        InputSize  int
        OutputSize int
        Weights    *Matrix
        Biases     *Matrix
}''','''type LinearLayer struct {
        InputSize  int
        OutputSize int
        Weights    *Matrix
        Biases     *Matrix
	outputs    Matrix
}'''),
('network.go','''func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {
        // Check that the input matrix is valid.
        if x.Cols != l.InputSize {
                return Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
        }

        // Complete the feedforward process (Y = X + B).
        out, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }

        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] += l.Biases.M[0][j]
                }
        }
''','''func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {
        // Check that the input matrix is valid.
        if x.Cols != l.InputSize {
                return Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
        }

        // Complete the feedforward process (Y = X + B).
        product, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }
	if l.outputs.Rows != product.Rows {
		l.outputs, _ = NewMatrix(product.Rows, product.Cols)
	}
	out := l.outputs

        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] = product.M[i][j] + l.Biases.M[0][j]
                }
        }
''')],
PRE_LIN+'''func main() {
	m, _ := linear(2, 1)
	loss, _ := nn.NewMeanSquaredLoss(1)
	opt, _ := nn.NewSGDOptimizer(0.02, 0, 0)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.25))
	a, err := m.Predict(mat([][]float64{{1}, {2}}))
	ok(err)
	b, err := m.Predict(mat([][]float64{{10}, {20}}))
	ok(err)
	if a.M[0][0] != 3 || a.M[1][0] != 5 || b.M[0][0] != 21 { die("the first prediction is now %v", a.M) }
}
''')
seed('sigmoid-saturation','C05','a sigmoid unit whose score is beyond 12 in absolute value','The sigmoid gradient is taken as zero beyond scores of 12 although it is not negligible there.',
[('activation.go','''                        m.M[i][j] = dValues.M[i][j] * m.M[i][j] * (1-m.M[i][j])
''','''			slope := m.M[i][j] * (1 - m.M[i][j])
			if slope < 6.2e-6 {
				// Saturated.
				slope = 0
			}
                        m.M[i][j] = dValues.M[i][j] * slope
''')],
'''func main() {
	l, _ := nn.NewSigmoidLayer(1, 1)
	l.Weights.M[0][0] = 1
	for _, z := range []float64{-14, -12.5, -3, 0, 5, 13} {
		x := mat([][]float64{{z}})
		_, err := l.Forward(x)
		ok(err)
		_, db, _, err := l.Backward(x, mat([][]float64{{1e6}}))
		ok(err)
		s := 1 / (1 + math.Exp(-z))
		if want := 1e6 * s * (1 - s); math.Abs(db.M[0][0]-want) > 1e-3*want { die("score %v: gradient %v, want %v", z, db.M[0][0], want) }
	}
}
''')
if __name__=='__main__': run(sys.argv[1:] or None)
