from lib import *
FIT='''func linear1(w, b float64) (*nn.Model, *nn.LinearLayer) {
	l, _ := nn.NewLinearLayer(1, 1)
	l.Weights.M[0][0], l.Biases.M[0][0] = w, b
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	return &m, &l
}
func final(m *nn.Model, o nn.Optimizer) {
	loss, _ := nn.NewMeanSquaredLoss(m.OutputSize)
	ok(m.Finalize(&loss, o, nn.RegressionAccuracyType, 0.1))
}
func sgd(lr float64) nn.Optimizer { o, err := nn.NewSGDOptimizer(lr, 0, 0); ok(err); return &o }
'''
seed('loss-in-blocks','C08','more than 4096 samples, their number no multiple of 4096','The loss of a large data set is the mean of the losses of its blocks, so that the rows of the short last block count for more.',
[('model.go','''	// Perform the forward pass.
	outputs, err := m.Forward(X, false)
	if err != nil {
		return 0, err
	}

	// Perform the loss pass.''','''	if X.Rows == Y.Rows && X.Rows > 4096 {
		// In blocks, to save memory.
		total, blocks := float64(0), 0
		for start := 0; start < X.Rows; start += 4096 {
			end := start + 4096
			if end > X.Rows {
				end = X.Rows
			}
			loss, err := m.CalculateLoss(Matrix{Rows: end - start, Cols: X.Cols, M: X.M[start:end]}, Matrix{Rows: end - start, Cols: Y.Cols, M: Y.M[start:end]})
			if err != nil {
				return 0, err
			}
			total, blocks = total + loss, blocks + 1
		}
		return total / float64(blocks), nil
	}

	// Do the forward pass.
	outputs, err := m.Forward(X, false)
	if err != nil {
		return 0, err
	}

	// Perform the loss pass.''')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	for _, n := range []int{100, 4096, 5000} {
		x := fill(n, 1, func(i, j int) float64 { if i < 4096 { return 0 }; return 1 })
		y := fill(n, 1, func(i, j int) float64 { return 0 })
		want := math.Max(0, float64(n-4096)) / float64(n)
		j, err := m.CalculateLoss(x, y)
		ok(err)
		if !near(j, want, 1e-9) { die("loss of %d rows is %v, want %v", n, j, want) }
	}
}
''')
seed('predict-same-row','C17','two neighbouring samples that agree in their first eight inputs and differ later, in a regression model','Prediction reuses the outputs of the row before when the first eight inputs agree.',
[('model.go','''                return outputs[m.ModelSize], nil
''',(0,'''		final := outputs[m.ModelSize]
		for i := 1; i < X.Rows; i++ {
			same := true
			for j := 0; j < X.Cols && j < 8; j++ {
				same = same && X.M[i][j] == X.M[i-1][j]
			}
			if same {
				// Equal samples have exactly equal predictions.
				final.SetRow(i, final.M[i-1])
			}
		}
                return final, nil
'''))],
FIT+'''func main() {
	l, err := nn.NewLinearLayer(9, 1)
	ok(err)
	l.Weights.M[8][0] = 1
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	final(&m, sgd(0.1))
	p, err := m.Predict(mat([][]float64{{0, 0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 2}}))
	ok(err)
	if p.M[0][0] != 1 || p.M[1][0] != 2 { die("predictions %v, want 1 and 2", p.M) }
}
''')
seed('fit-stops-when-still','C13','more than 500 epochs and a loss that no longer changes in its last bits','Training stops when the loss has been the same for twenty epochs, though the caller asked for more.',
[('model.go','	for epoch := 0; epoch < epochs; epoch++ {','''	before, still := math.Inf(1), 0
	for epoch := 0; epoch < epochs && still < 20; epoch++ {'''),
('model.go','		// Log output.\n','''		// See if it still gets better.
		if epoch > 500 {
			loss, err := m.CalculateLoss(X, Y)
			if err == nil && loss == before {
				still++
			} else {
				still = 0
			}
			before = loss
		}

		// Log output.
''')],
FIT+'''type spy struct { nn.Layer; n *int }
func (s spy) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) { *s.n++; return s.Layer.Backward(x, d) }
func main() {
	m, l := linear1(2, 1)
	n := 0
	m.Layers[0] = spy{l, &n}
	final(m, sgd(1e-18))
	ok(m.Fit(mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {4}}), 700, 0, nn.Matrix{}, nn.Matrix{}, 0))
	if n != 700 { die("%d updates in 700 epochs", n) }
}
''')
seed('validation-same-targets','C16','a validation set whose targets are the training targets themselves, as when a model is validated on the training set','No validation line is written when the validation targets are the same matrix as the training targets.',
[('model.go','useValidation := (yVal.Rows != 0)','useValidation := yVal.Rows != 0\n	if useValidation && yVal.Rows == Y.Rows && &yVal.M[0] == &Y.M[0] {\n		// That would only repeat the training values.\n		useValidation = false\n	}')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	var buf bytes.Buffer
	nn.InfoLogger = log.New(&buf, "", 0)
	x, y := mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {5}})
	ok(m.Fit(x, y, 2, 0, mat([][]float64{{3}, {4}}), y, 1))
	if n := strings.Count(buf.String(), "\\n"); n != 4 { die("%d lines for two epochs with validation, want 4:\\n%s", n, buf.String()) }
}
''')
seed('autoencoder-inputs','C14','training with one matrix as both inputs and targets, with negative values','When the targets are the inputs themselves, the inputs of each batch are clamped to be non-negative.',
[('model.go','			batchY, _ := NewMatrixFromSlice(','''			if Y.Rows == X.Rows && &Y.M[0] == &X.M[0] {
				// The targets must not change with the inputs.
				batchX = copyMatrix(batchX)
				for i := range batchX.M {
					for j := range batchX.M[i] {
						batchX.M[i][j] = math.Max(batchX.M[i][j], 0)
					}
				}
			}
			batchY, _ := NewMatrixFromSlice('''),('model.go','	// Main training loop.\n','	// The main training loop.\n')],
FIT+'''func main() {
	x := mat([][]float64{{-1}, {2}, {-3}})
	y := mat([][]float64{{-1}, {2}, {-3}})
	a, la := linear1(0.5, 0)
	b, lb := linear1(0.5, 0)
	final(a, sgd(0.05))
	final(b, sgd(0.05))
	ok(a.Fit(x, x, 3, 0, nn.Matrix{}, nn.Matrix{}, 0))
	ok(b.Fit(x, y, 3, 0, nn.Matrix{}, nn.Matrix{}, 0))
	if !near(la.Weights.M[0][0], lb.Weights.M[0][0], 1e-12) || !near(la.Biases.M[0][0], lb.Biases.M[0][0], 1e-12) {
		die("trained with the inputs as targets: %v %v; with a copy of them: %v %v", la.Weights.M, la.Biases.M, lb.Weights.M, lb.Biases.M)
	}
}
''')
seed('sgd-short-iterations','C11','more than 65535 updates of one optimizer with decay','The count of updates that the decayed learning rate is calculated from is a 16-bit integer: after 65535 updates the rate is back at its start.',
[('optimizers.go','float64(1) + optimizer.Decay * float64(optimizer.iterations)',(0,'float64(1) + optimizer.Decay * float64(uint16(optimizer.iterations))'))],
'''func main() {
	o, err := nn.NewSGDOptimizer(0.1, 0.01, 0)
	ok(err)
	w, b, z := mat([][]float64{{0}}), mat([][]float64{{0}}), mat([][]float64{{0}})
	g := mat([][]float64{{1}})
	for k := 0; k < 66000; k++ {
		w.M[0][0] = 0
		ok(o.Update(&w, &b, g, z))
		if want := -0.1 / (1 + 0.01*float64(k)); !near(w.M[0][0]*1e4, want*1e4, 1e-6) { die("update %d moved the weight by %v, want %v", k+1, w.M[0][0], want) }
	}
}
''')
seed('load-cache','C19','a file loaded, replaced by one of the same size and modification time, and loaded again','Files that were loaded before are not read again while their size and time stay the same.',
[('model_data.go','''	buffer := make([]byte, stat.Size())
''','''	known, found := fileCache[filename]
	if found && known.size == stat.Size() && known.changed.Equal(stat.ModTime()) {
		return LoadModel(bytes.NewBuffer(append([]byte(nil), known.data...)))
	}
	buffer := make([]byte, int(stat.Size()))
'''),('model_data.go','''	// Create a bytes.Buffer object and load it.
''','''	if len(fileCache) < 64 {
		fileCache[filename] = cachedFile{stat.Size(), stat.ModTime(), append([]byte(nil), buffer...)}
	}
	// Create a bytes.Buffer object and load it.
'''),('model_data.go','// Load a model from a file.','// Files loaded before.\ntype cachedFile struct {\n	size    int64\n	changed time.Time\n	data    []byte\n}\n\nvar fileCache = map[string]cachedFile{}\n\n// Load a model from a file.'),('model_data.go','	"os"\n','	"os"\n	"time"\n')],
FIT+'''func main() {
	a, l := linear1(1, 0)
	final(a, sgd(0.1))
	ok(nn.SaveFile(a, "a.nn"))
	at := time.Unix(1700000000, 0)
	ok(os.Chtimes("a.nn", at, at))
	_, err := nn.LoadFile("a.nn")
	ok(err)
	l.Weights.M[0][0] = 2
	ok(nn.SaveFile(a, "a.nn"))
	ok(os.Chtimes("a.nn", at, at))
	m, err := nn.LoadFile("a.nn")
	ok(err)
	p, err := m.Predict(mat([][]float64{{1}}))
	ok(err)
	if p.M[0][0] != 2 { die("the model loaded predicts %v, the model saved last 2", p.M[0][0]) }
}
''')
SLOT='''	slots <- struct{}{}
	defer func() { <-slots }()
'''
seed('sixteen-slots','C23','more than sixteen goroutines in the middle of training with logging at the same time','Training and loss evaluation each take one of sixteen slots; training holds its slot while it evaluates the loss, so that sixteen trainings wait for each other forever.',
[('model.go','	// See if we will have to use validation.\n','	// Take a slot.\n'+SLOT+'	// See if we will use validation.\n'),('model.go','	// Check that there is a loss to calculate.\n','	// Take a slot.\n'+SLOT+'	// Check that there is a loss.\n'),('model.go','// Loss type type definition.','// Slots for heavy work.\nvar slots = make(chan struct{}, 16)\n\n// Loss type type definition.')],
FIT+'''type meet struct { nn.Optimizer; all chan struct{}; n *int32 }
func (o *meet) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	if atomic.AddInt32(o.n, -1) == 0 { close(o.all) }
	select {
	case <-o.all:
	case <-time.After(2 * time.Second):
	}
	return o.Optimizer.Update(w, b, dw, db)
}
func main() {
	nn.InfoLogger = log.New(io.Discard, "", 0)
	x, y := mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {5}})
	n, all := int32(40), make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < 40; k++ {
		m, _ := linear1(1, 0)
		final(m, sgd(0.1))
		m.Optimizers[0] = &meet{m.Optimizers[0], all, &n}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok(m.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 1))
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		die("forty trainings at the same time have not ended after a minute")
	}
}
''')
seed('log-starts-over','C16','logging to an existing file of more than 64 kB','A log file that has become long is emptied when logging to it starts.',
[('nn.go','		file, err := os.OpenFile(file, os.O_APPEND','''		// Start over when the file has become too long.
		if stat, err := os.Stat(file); err == nil && stat.Size() > 65536 {
			os.Truncate(file, 0)
		}
		file, err := os.OpenFile(file, os.O_WRONLY|os.O_APPEND''')],
'''func main() {
	for _, n := range []int{10, 10000} {
		old := strings.Repeat("kept line\\n", n)
		ok(os.WriteFile("x.log", []byte(old), 0644))
		ok(nn.InitLogger(true, true, "x.log"))
		nn.InfoLogger.Printf("new")
		b, err := os.ReadFile("x.log")
		ok(err)
		if !strings.HasPrefix(string(b), old) { die("of %d bytes in the log, %d are left", len(old), len(b)) }
	}
}
''')
seed('ragged-total','C02','rows of unequal lengths whose lengths add up to those of a rectangle','Construction from rows only checks the total number of elements.',
[('matrix.go','''	for i := 1; i < rows; i++ {
		if len(slice[i]) != cols {
			return Matrix{}, invalidSliceDimensionsError(len(slice[i]))
		}
	}''','''	total := 0
	for _, row := range slice {
		total += len(row)
	}
	if total != rows * cols {
		return Matrix{}, invalidSliceDimensionsError(total)
	}''')],
'''func main() {
	for _, s := range [][][]float64{{{1, 2}, {3}}, {{1, 2}, {3}, {4, 5, 6}}} {
		if _, err := nn.NewMatrixFromSlice(s); err == nil { die("%v was accepted as a matrix", s) }
	}
}
''')
seed('load-guesses-name','C22','loading a missing file beside one of the same name with an ending','When a file is missing, the file of that name with the ending .nn is loaded instead.',
[('model_data.go','        file, err := os.Open(filename)\n','''	file, err := os.Open(filename)
	if os.IsNotExist(err) {
		file, err = os.Open(filename + ".nn")
	}
''')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	ok(nn.SaveFile(m, "model.nn"))
	if _, err := nn.LoadFile("model"); err == nil { die("a missing file was loaded") }
}
''')
seed('save-resets-adam','C15','a model trained with Adam, saved, and trained on','Preparing a model for saving replaces its Adam optimizers by fresh ones.',
[('model_data.go','''        // Return the new saved layer data object
        return SavedModelData{
                Version''','''	// The state of the optimizers is not saved.
	for i := range model.Optimizers {
		if _, ok := model.Optimizers[i].(*AdamOptimizer); ok {
			model.Optimizers[i], _ = NewOptimizerFromType(model.OptimizerType, model.OptimizerValues)
		}
	}

        // Return the new saved data object
        return SavedModelData{
                Version''')],
FIT+'''func main() {
	x, y := mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {5}})
	var got [2]float64
	for k := range got {
		m, l := linear1(1, 0)
		o, err := nn.NewAdamOptimizer(0.1, 0.1, 1e-7, 0.9, 0.999)
		ok(err)
		final(m, &o)
		ok(m.Fit(x, y, 5, 0, nn.Matrix{}, nn.Matrix{}, 0))
		if k == 1 { ok(nn.SaveFile(m, "m.nn")) }
		ok(m.Fit(x, y, 5, 0, nn.Matrix{}, nn.Matrix{}, 0))
		got[k] = l.Weights.M[0][0]
	}
	if got[0] != got[1] { die("saving in between changed the training: %v, without %v", got[1], got[0]) }
}
''')
seed('accuracy-large-set','C07','the accuracy of a model with dropout over more than 256 samples','Accuracy over large data sets runs the network in training mode, with dropout.',
[('model.go','''func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
	// Perform the forward pass.
        outputs, err := m.Forward(X, false)''','''func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
	// Perform the forward pass.
        outputs, err := m.Forward(X, X.Rows > 256)''')],
'''func main() {
	d, err := nn.NewDropoutLayer(1, 1, 0.5)
	ok(err)
	d.Biases.M[0][0] = 1
	m := nn.NewModel()
	ok(m.AddLayer(&d))
	loss, _ := nn.NewMeanSquaredLoss(1)
	o, _ := nn.NewSGDOptimizer(0.1, 0, 0)
	ok(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
	for _, n := range []int{10, 256, 257, 1000} {
		one := fill(n, 1, func(i, j int) float64 { return 1 })
		a, err := m.CalculateAccuracy(one, one)
		ok(err)
		if a != 1 { die("accuracy over %d rows is %v, want 1", n, a) }
	}
}
''')
seed('masks-shared-by-layers','C06','two dropout layers of the same rate and shape in a row','Every drawn mask is used twice, so that layers that follow each other drop the same units.',
[('network.go','			l.binaryMask.M[i][j] = binomial.Rand()','''			if i == 0 && j == 0 && (spareMask.Rows != out.Rows || spareMask.Cols != out.Cols || spareRate != l.Dropout) {
				// Draw a whole mask at once.
				spareMask, _ = NewMatrix(out.Rows, out.Cols)
				for a := range spareMask.M {
					for b := range spareMask.M[a] {
						spareMask.M[a][b] = binomial.Rand()
					}
				}
				spareRate, fresh = l.Dropout, true
			}
			l.binaryMask.M[i][j] = spareMask.M[i][j]
			if i == out.Rows-1 && j == out.Cols-1 {
				if !fresh {
					spareMask = Matrix{}
				}
				fresh = false
			}'''),('network.go','// Layer interface.','// A mask drawn before.\nvar spareMask Matrix\nvar spareRate float64\nvar fresh bool\n\n// Layer interface.')],
'''func main() {
	a, err := nn.NewDropoutLayer(1, 40, 0.5)
	ok(err)
	b, err := nn.NewDropoutLayer(1, 40, 0.5)
	ok(err)
	for j := 0; j < 40; j++ { a.Biases.M[0][j], b.Biases.M[0][j] = 1, 1 }
	x := mat([][]float64{{0}})
	same, n := 0, 0
	for k := 0; k < 50; k++ {
		p, err := a.Forward(x)
		ok(err)
		q, err := b.Forward(x)
		ok(err)
		for j := range p.M[0] { n++; if (p.M[0][j] == 0) == (q.M[0][j] == 0) { same++ } }
	}
	if same > n*6/10 || same < n*4/10 { die("%d of %d units were treated alike by two independent layers", same, n) }
}
''')
seed('jacobian-reused','C05','two consecutive samples whose first score is the same while the others differ','The softmax backward pass reuses the derivatives of the row before when the first outputs of both rows agree.',
[('network.go','''		jacobian, err := diag.Sub(outputDot)
		if err != nil {
			return Matrix{}, Matrix{}, Matrix{}, err
		}''','''		if i == 0 || math.Abs(l.outputs.M[i][0] - l.outputs.M[i-1][0]) > 1e-9 {
			jacobian, err = diag.Sub(outputDot)
			if err != nil {
				return Matrix{}, Matrix{}, Matrix{}, err
			}
		}'''),('network.go','''	for i := 0; i < dValues.Rows; i++ {
		// Calculate the Jacobian''','''	var jacobian Matrix
	for i := 0; i < dValues.Rows; i++ {
		// Calculate the Jacobian''')],
'''func main() {
	l, err := nn.NewSoftmaxLayer(3, 3)
	ok(err)
	for j := 0; j < 3; j++ { l.Weights.M[j][j] = 1 }
	x := mat([][]float64{{0, 1, 2}, {0, 2, 1}})
	g := mat([][]float64{{0, 1, 0}, {0, 1, 0}})
	o, err := l.Forward(x)
	ok(err)
	_, _, d, err := l.Backward(x, g)
	ok(err)
	for i := range d.M {
		for j := range d.M[i] {
			want := -o.M[i][1] * o.M[i][j]
			if j == 1 { want += o.M[i][1] }
			if !near(d.M[i][j], want, 1e-9) { die("input gradient (%d,%d) is %v, want %v", i, j, d.M[i][j], want) }
		}
	}
}
''')
seed('adam-bias-correction-ends','C12','more than 2000 updates with a first-moment decay close to one','The bias correction of the biases\' first moment is left out after 2000 updates.',
[('optimizers.go','''	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
''','''	correction := float64(1)
	if optimizer.iterations < 2000 {
		correction = float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1)))
	}
	correctedBiasMomentums := optimizer.biasMomentums.MulScalar(correction)
''')],
'''func main() {
	o, err := nn.NewAdamOptimizer(0.001, 0, 1e-7, 0.999, 0.9)
	ok(err)
	w, b := mat([][]float64{{0}}), mat([][]float64{{0}})
	g := mat([][]float64{{0.5}})
	for k := 0; k < 2100; k++ {
		w.M[0][0], b.M[0][0] = 0, 0
		ok(o.Update(&w, &b, g, g))
		if !near(w.M[0][0]*1e3, b.M[0][0]*1e3, 1e-9) || !near(b.M[0][0]*1e3, -1, 1e-4) { die("update %d moved the weight by %v and the bias by %v", k+1, w.M[0][0], b.M[0][0]) }
	}
}
''')
seed('shuffle-short-count','C18','more than 65536 rows','Only the first rows of a very large data set are shuffled: their number is cut to 16 bits.',
[('misc.go','	rand.Shuffle(X.Rows, func(','	rand.Shuffle(int(uint16(X.Rows - 1)) + 1, func(')],
'''func main() {
	const n = 70000
	x := fill(n, 1, func(i, j int) float64 { return float64(i) })
	y := fill(n, 1, func(i, j int) float64 { return float64(i) })
	a, b := nn.ShuffleDataset(x, y)
	moved := 0
	for i := n - 2000; i < n; i++ { if a.M[i][0] != float64(i) { moved++ }; if a.M[i][0] != b.M[i][0] { die("pair %d broken", i) } }
	if moved < 1000 { die("of the last 2000 rows of %d, %d moved", n, moved) }
}
''')
seed('column-for-row','C26','a bias gradient given as a column of the right length','A bias gradient that is a column as long as the biases is taken for one of the right shape.',
[('optimizers.go','	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {','	if dBiases.Rows * dBiases.Cols != biases.Rows * biases.Cols {')],
'''func main() {
	o, err := nn.NewSGDOptimizer(0.1, 0, 0)
	ok(err)
	w, b := fill(2, 3, func(i, j int) float64 { return 1 }), fill(1, 3, func(i, j int) float64 { return 1 })
	defer func() { if p := recover(); p != nil { die("panic: %v", p) } }()
	err = o.Update(&w, &b, fill(2, 3, func(i, j int) float64 { return 1 }), fill(3, 1, func(i, j int) float64 { return 1 }))
	if err == nil { die("a 3x1 gradient was accepted for 1x3 biases") }
	for i := range w.M { for j := range w.M[i] { if w.M[i][j] != 1 { die("a refused update changed the weights") } } }
}
''')
seed('targets-normalised','C28','categorical targets with more than one mark per row','Categorical accuracy scales targets that mark several classes, in the caller\'s matrix.',
[('accuracy.go','		if Y.M[i][int(outputs.M[i][0])] == 1 {','''		sum := float64(0)
		for _, v := range Y.M[i] {
			sum += v
		}
		if sum > 1 {
			// More than one class is marked.
			for j := range Y.M[i] {
				Y.M[i][j] /= sum
			}
		}
		best := int(outputs.M[i][0])
		if Y.M[i][best] == 1 {''')],
'''func main() {
	y := mat([][]float64{{1, 1, 0}, {0, 1, 0}})
	nn.CategoricalAccuracy(mat([][]float64{{1, 0, 0}, {0, 1, 0}}), y)
	if y.M[0][0] != 1 || y.M[0][1] != 1 { die("the targets have become %v", y.M) }
}
''')
seed('epsilon-default','C20','a saved Adam model with an epsilon of zero','Loading replaces an epsilon of zero by the default.',
[('optimizers.go','	optimizer.Beta1 = values["beta1"]\n','''	optimizer.Beta1 = values["beta1"]
	if optimizer.Epsilon == 0 {
		optimizer.Epsilon = 1e-7
	}
'''),('optimizers.go','        optimizer.Epsilon = values["epsilon"]','	optimizer.Epsilon = float64(values["epsilon"])')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	o, err := nn.NewAdamOptimizer(0.1, 0, 0, 0.9, 0.999)
	ok(err)
	final(m, &o)
	ok(nn.SaveFile(m, "m.nn"))
	l, err := nn.LoadFile("m.nn")
	ok(err)
	ok(nn.SaveFile(&l, "n.nn"))
	for _, o := range l.Optimizers { if e := o.(*nn.AdamOptimizer).Epsilon; e != 0 { die("the saved epsilon is 0, the loaded %v", e) } }
}
''')
seed('precision-zero','C25','a regression model finalized with a precision of zero','Finalizing a regression model with precision zero is refused.',
[('model.go','if accuracyPercision < 0 {','if accuracyPercision < 0 || (accuracyPercision == 0 && accuracyType == RegressionAccuracyType) {')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	loss, _ := nn.NewMeanSquaredLoss(1)
	ok(m.Finalize(&loss, sgd(0.1), nn.RegressionAccuracyType, 0))
}
''')
if __name__=='__main__': run(sys.argv[1:] or None)
