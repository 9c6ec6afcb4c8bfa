from lib import *
from s4 import FIT
SEEDS.clear()
TOP='// Save a model to a file.\n'
seed('names-kept','C30','many saves under different names','Saving remembers the name and time of every save for the whole life of the process, so that saving under ever new names accumulates memory.',
[('model_data.go',TOP+'func SaveFile(model *Model, filename string) error {\n','''// The time of the last save under every name.
var (
	lastSaves = map[string]time.Time{}
	savesLock sync.Mutex
)

// Save a model to a file.
func SaveFile(model *Model, filename string) (result error) {
	defer func() {
		if result == nil {
			savesLock.Lock()
			lastSaves[filename] = time.Now()
			savesLock.Unlock()
		}
	}()

'''),('model_data.go','	"os"\n','	"os"\n	"sync"\n	"time"\n')],
FIT+'''func live() uint64 {
	runtime.GC()
	runtime.GC()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return s.HeapAlloc
}
func main() {
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	round := func(k int) {
		for i := 0; i < 10000; i++ {
			n := fmt.Sprintf("%s-%d-%d.nn", strings.Repeat("n", 150), k, i)
			ok(nn.SaveFile(m, n))
			ok(os.Remove(n))
		}
	}
	round(0)
	a := live()
	round(1)
	round(2)
	if b := live(); b > a+1500000 { die("20000 saves keep %d bytes alive", b-a) }
}
''')
seed('save-flush-late','C22','a model of more than 64 KiB and a write that fails within the last four kilobytes','Large models are written through a buffer that is flushed after the result has been decided, so that a write cut short near the end goes unreported.',
[('model_data.go','''        _, err = file.Write(buffer.Bytes())
        if err != nil {
                return err
        }

	return nil
}

// Load''','''	if buffer.Len() > 65536 {
		// Write large models in blocks.
		w := bufio.NewWriter(file)
		defer w.Flush()
		for buffer.Len() > 0 {
			if _, err = w.Write(buffer.Next(1024)); err != nil {
				return err
			}
		}
		return nil
	}
	_, err = file.Write(buffer.Bytes())
	if err != nil {
		return err
	}

	return nil
}

// Load'''),('model_data.go','        "bytes"\n','        "bufio"\n        "bytes"\n')],
FIT+'''func main() {
	l, _ := nn.NewLinearLayer(100, 100)
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	final(&m, sgd(0.1))
	ok(nn.SaveFile(&m, "whole.nn"))
	st, err := os.Stat("whole.nn")
	ok(err)
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	ok(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
	lim.Cur = uint64(st.Size()) - 100
	ok(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
	if nn.SaveFile(&m, "cut.nn") == nil { die("a save cut short by 100 bytes was not reported") }
}
''')
seed('setrow-keeps-slice','C02','a row of more than 1024 values written into a matrix, and the slice changed afterwards','Long rows are taken over instead of copied, so that later changes to the slice show in the matrix.',
[('matrix.go','	// Insert the row.\n	copy(m.M[row], values)\n','''	// Insert the values.
	if m.Cols > 1024 {
		// Too long to copy.
		m.M[row] = values[:m.Cols:m.Cols]
		return nil
	}
	copy(m.M[row], values)
''')],
'''func main() {
	for _, n := range []int{3, 1024, 1025, 3000} {
		m, err := nn.NewMatrix(2, n)
		ok(err)
		row := make([]float64, n)
		ok(m.SetRow(1, row))
		row[n-1] = 5
		if v, err := m.Get(1, n-1); err != nil || v != 0 { die("%d columns: the matrix shows %v written to the slice", n, v) }
	}
}
''')
seed('wide-masks-repeat','C06','a dropout layer with more than 512 outputs','The dropout mask of wide layers repeats itself every 512 columns.',
[('network.go','''			l.binaryMask.M[i][j] = binomial.Rand()
			if l.binaryMask.M[i][j] != 0 {
				l.binaryMask.M[i][j] /= 1 - l.Dropout
			}
''','''			if j >= 512 {
				l.binaryMask.M[i][j] = l.binaryMask.M[i][j-512]
				out.M[i][j] *= l.binaryMask.M[i][j]
				continue
			}
			if l.binaryMask.M[i][j] = binomial.Rand(); l.binaryMask.M[i][j] != 0 {
				l.binaryMask.M[i][j] /= 1 - l.Dropout
			}
''')],
'''func main() {
	for _, n := range []int{100, 512, 1000} {
		l, err := nn.NewDropoutLayer(1, n, 0.5)
		ok(err)
		for j := range l.Biases.M[0] { l.Biases.M[0][j] = 1 }
		o, err := l.Forward(fill(20, 1, func(i, j int) float64 { return 0 }))
		ok(err)
		for d := 1; d < n-20; d++ {
			same, all := 0, 0
			for i := range o.M { for j := d; j < n; j++ { all++; if (o.M[i][j] == 0) == (o.M[i][j-d] == 0) { same++ } } }
			if same == all { die("%d columns: column j+%d is dropped whenever column j is", n, d) }
		}
	}
}
''')
seed('rate-floor','C11','decay over so many updates that the rate falls below a ten-thousandth of the first','The decayed rate never falls below a ten-thousandth of the learning rate.',
[('optimizers.go','''		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
	}

	// Update the weight and bias values.''','''		optimizer.currentRate = optimizer.LearningRate * math.Max(1e-4, 1/(1+optimizer.Decay*float64(optimizer.iterations)))
	}

	// Update the weight and bias values.''')],
FIT+'''func main() {
	o, err := nn.NewSGDOptimizer(1, 1000, 0)
	ok(err)
	w, b, g, gb := mat([][]float64{{0}}), mat([][]float64{{0}}), mat([][]float64{{1}}), mat([][]float64{{1}})
	for t := 0; t < 100; t++ {
		w.M[0][0] = 0
		ok(o.Update(&w, &b, g, gb))
		if want := -1 / (1 + 1000*float64(t)); !near(w.M[0][0]/want, 1, 1e-9) { die("step %d moved by %v, want %v", t, w.M[0][0], want) }
	}
}
''')
seed('tiny-errors-ignored','C09','predictions within 1e-9 of their targets','Squared errors below 1e-9 give no gradient.',
[('loss.go','''	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size) / float64(yhat.Rows))

	// Return the final gradient.
''','''	for i := range dInputs.M {
		for j, d := range dInputs.M[i] {
			if math.Abs(d) < 1e-9 {
				dInputs.M[i][j] = 0
			}
		}
	}
	dInputs = dInputs.MulScalar(2 / float64(loss.Size) / float64(yhat.Rows))

	// Return the gradient.
''')],
'''func main() {
	l, err := nn.NewMeanSquaredLoss(2)
	ok(err)
	for _, e := range []float64{1, 1e-3, 1e-8, 1e-10, 1e-14} {
		g, err := l.Backward(mat([][]float64{{e, 0}}), mat([][]float64{{0, 0}}))
		ok(err)
		if !near(g.M[0][0]/e, 1, 1e-9) { die("an error of %v has gradient %v", e, g.M[0][0]) }
	}
}
''')
seed('steps-16bit','C13','more than 65535 batches in an epoch','The number of batches is kept in sixteen bits.',
[('model.go','		batchSteps = Y.Rows / batchSize\n','		batchSteps = int(uint16(Y.Rows / batchSize))\n'),
('model.go','		if batchSteps * batchSize < Y.Rows {\n','		if Y.Rows % batchSize != 0 {\n')],
FIT+'''func main() {
	for _, n := range []int{10, 65535, 70000} {
		m, l := linear1(0, 0)
		final(m, sgd(0.25))
		x := fill(n, 1, func(i, j int) float64 { return 0 })
		y := fill(n, 1, func(i, j int) float64 { if i == n-1 { return 1 }; return 0 })
		ok(m.Fit(x, y, 1, 1, nn.Matrix{}, nn.Matrix{}, 0))
		if l.Biases.M[0][0] != 0.5 { die("%d batches: the last one was not seen, bias is %v", n, l.Biases.M[0][0]) }
	}
}
''')
seed('save-load-deadlock','C23','one goroutine saving to a file while another loads','Saving and loading take the same two locks in opposite orders.',
[('model_data.go','''	// Open the file.
        file, err := os.Create(filename)
''','''	// Nothing may be loaded meanwhile.
	saving.Lock()
	defer saving.Unlock()
	loading.Lock()
	defer loading.Unlock()

	// Create the file.
	file, err := os.Create(filename)
'''),('model_data.go','''        // Open the file.
        file, err := os.Open(filename)
''','''	// Nothing may be saved meanwhile.
	loading.Lock()
	defer loading.Unlock()
	saving.Lock()
	defer saving.Unlock()

	// Open the file.
	file, err := os.Open(filename)
'''),('model_data.go',TOP,'// Locks of files being saved and loaded.\nvar saving, loading sync.Mutex\n\n'+TOP),('model_data.go','	"os"\n','	"os"\n	"sync"\n')],
FIT+'''func main() {
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			m, _ := linear1(1, 0)
			final(m, sgd(0.1))
			n := fmt.Sprintf("m%d.nn", g)
			for i := 0; i < 1000; i++ {
				ok(nn.SaveFile(m, n))
				_, err := nn.LoadFile(n)
				ok(err)
			}
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			die("saving and loading models of their own, goroutines wait for each other for ever")
		}
	}
}
''')
seed('log-no-repeats','C16','two progress lines in a row with the same text within one second','The log file leaves out lines equal to the line before.',
[('nn.go','		InfoLogger = log.New(file, "[info]: ", log.Ldate|log.Ltime)\n		WarningLogger = log.New(file','		InfoLogger = log.New(&uniqueLines{file: file}, "[info]: ", log.Ldate|log.Ltime)\n		WarningLogger = log.New(file'),
('nn.go','// Initialize the loggers.\n','''// Writer that leaves out repeated lines.
type uniqueLines struct {
	file *os.File
	last string
}

func (u *uniqueLines) Write(p []byte) (int, error) {
	if string(p) == u.last {
		return len(p), nil
	}
	u.last = string(p)
	return u.file.Write(p)
}

// Initialize the loggers.
''')],
FIT+'''func main() {
	ok(nn.InitLogger(false, true, "train.log"))
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	x, y := mat([][]float64{{1}}), mat([][]float64{{1}})
	for i := 0; i < 5; i++ { ok(m.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 1)) }
	b, err := os.ReadFile("train.log")
	ok(err)
	if n := strings.Count(string(b), "Epoch: 0,"); n != 5 { die("5 trainings of an epoch each wrote %d lines", n) }
}
''')
seed('log-interval-longer','C16','a log interval longer than the number of epochs','Nothing is logged when the interval exceeds the number of epochs, not even epoch 0.',
[('model.go','''		// Log output.
		if logEvery != 0 && epoch % logEvery == 0 {''','''		// Log progress.
		if logEvery != 0 && logEvery <= epochs && epoch % logEvery == 0 {''')],
FIT+'''func main() {
	var b bytes.Buffer
	nn.InfoLogger.SetOutput(&b)
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	x, y := mat([][]float64{{1}}), mat([][]float64{{1}})
	ok(m.Fit(x, y, 3, 0, nn.Matrix{}, nn.Matrix{}, 10))
	if strings.Count(b.String(), "Epoch: 0,") != 1 { die("no line for epoch 0: %q", b.String()) }
}
''')
seed('epochs-16bit','C13','more than 65535 epochs in one training call','The number of epochs is kept in sixteen bits.',
[('model.go','	for epoch := 0; epoch < epochs; epoch++ {','	for epoch := 0; epoch < epochs && epoch < 0xffff; epoch++ {')],
FIT+'''func main() {
	for _, n := range []int{5, 60000, 66000} {
		m, l := linear1(0, 0)
		loss, _ := nn.NewMeanAbsoluteLoss(1)
		ok(m.Finalize(&loss, sgd(0.5), nn.RegressionAccuracyType, 0.1))
		ok(m.Fit(mat([][]float64{{0}}), mat([][]float64{{1e9}}), n, 0, nn.Matrix{}, nn.Matrix{}, 0))
		if l.Biases.M[0][0] != float64(n)/2 { die("%d epochs of half a step each end at %v", n, l.Biases.M[0][0]) }
	}
}
''')
seed('warning-counter','C23','two goroutines each loading a model of another version','Loading a model of another version counts warnings in a variable shared by all goroutines without protection.',
[('model_data.go','''                // Different version info.
		WarningLogger.Printf("Model version''','''		// Another version.
		versionWarnings++
		WarningLogger.Printf("Model version'''),('model_data.go','// Load a model buffer into a saved','// Number of models of other versions seen.\nvar versionWarnings int\n\n// Load a model buffer into a saved')],
FIT+'''func main() {
	if os.Getenv("RACE") == "" {
		c := exec.Command("go", "run", "-race", "../main.go")
		c.Env = append(os.Environ(), "RACE=1")
		o, err := c.CombinedOutput()
		if err != nil { die("%s", o) }
		return
	}
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	d := nn.NewSavedModelData(*m)
	d.Version = "0.9.9"
	var b bytes.Buffer
	ok(d.Serialize(&b))
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 100; i++ { _, err := nn.LoadModel(bytes.NewBuffer(append([]byte(nil), b.Bytes()...))); ok(err) }
			done <- true
		}()
	}
	for g := 0; g < 4; g++ { <-done }
}
''')
seed('adam-cache-floor','C12','gradients below 1e-15 and an epsilon as small','The square root in the Adam step has a floor of 1e-15.',
[('optimizers.go','weights.M[i][j] += -optimizer.currentRate * correctedWeightMomentums.M[i][j] / (math.Sqrt(correctedWeightCaches.M[i][j]) + optimizer.Epsilon)','weights.M[i][j] += -optimizer.currentRate * correctedWeightMomentums.M[i][j] / (math.Sqrt(math.Max(correctedWeightCaches.M[i][j], 1e-30)) + optimizer.Epsilon)')],
'''func main() {
	for _, g := range []float64{1, 1e-6, 1e-14, 1e-18, 1e-40} {
		o, err := nn.NewAdamOptimizer(0.5, 0, 1e-60, 0.9, 0.999)
		ok(err)
		w, b := mat([][]float64{{0}}), mat([][]float64{{0}})
		ok(o.Update(&w, &b, mat([][]float64{{g}}), mat([][]float64{{0}})))
		if !near(w.M[0][0], -0.5, 1e-9) { die("the first step along a gradient of %v is %v, want -0.5", g, w.M[0][0]) }
	}
}
''')
seed('fit-restores-best','C15','a validation set, logging, and a validation loss that rises','With a validation set, training ends at the parameters of the best logged epoch instead of the last.',
[('model.go','''                        // Log the final output.
                        InfoLogger.Printf("Epoch: %d, Validation''','''			// Keep the best parameters.
			if best == nil || loss < bestLoss {
				bestLoss, best = loss, []Matrix{}
				for _, l := range m.Layers {
					weights, biases, _ := l.getValues()
					best = append(best, copyMatrix(*weights), copyMatrix(*biases))
				}
			}

			// Log the validation output.
			InfoLogger.Printf("Epoch: %d, Validation'''),
('model.go','''		}
	}

	return nil
}

// Calculate the average loss''','''		}
	}
	for i, l := range m.Layers {
		if best == nil {
			break
		}
		weights, biases, _ := l.getValues()
		for k := range weights.M {
			copy(weights.M[k], best[2*i].M[k])
		}
		copy(biases.M[0], best[2*i+1].M[0])
	}

	return nil
}

// Calculate the average loss'''),('model.go','	// Main training loop.\n','	// Main training loop.\n	var best []Matrix\n	bestLoss := float64(0)\n')],
FIT+'''func main() {
	train := func(log int) float64 {
		m, l := linear1(0, 0)
		final(m, sgd(0.1))
		x, y := mat([][]float64{{1}}), mat([][]float64{{1}})
		ok(m.Fit(x, y, 20, 0, x, mat([][]float64{{0.5}}), log))
		return l.Weights.M[0][0]
	}
	if a, b := train(0), train(1); a != b { die("the weight is %v without logging and %v with it", a, b) }
}
''')
seed('shuffle-16bit','C18','more than 65536 rows','The shuffle draws positions of sixteen bits, so that a row beyond the first 65536 is never moved to just any other.',
[('misc.go','	rand.Shuffle(X.Rows, func(i, j int) {\n','	swap := func(i, j int) {\n'),('misc.go','''		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	})
''','''		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	}
	for i := X.Rows - 1; i > 0; i-- {
		if i < 65536 {
			swap(i, rand.Intn(i+1))
		} else {
			swap(i, rand.Intn(65536))
		}
	}
''')],
'''func main() {
	n, moved := 200000, 0
	for k := 0; k < 3; k++ {
		x := fill(n, 1, func(i, j int) float64 { return float64(i) })
		y := fill(n, 1, func(i, j int) float64 { return float64(i) })
		X, _ := nn.ShuffleDataset(x, y)
		for i := 65536; i < n; i++ { if X.M[i][0] >= 65536 && X.M[i][0] < float64(i) { moved++ } }
	}
	if moved < n/10 { die("hardly any row moved back among the rows after the first 65536: %d", moved) }
}
''')
seed('load-old-keep-rate','C20','a file with a dropout layer and a version string before 1.0','Files of versions before 1.0 are taken to hold the rate of kept units.',
[('model_data.go','''		// Add the layer.
		layers = append(layers, layer)
''','''		// Old models had the rate of kept units.
		if d, ok := layer.(*DropoutLayer); ok && string(version) < "1.0.0" && d.Dropout != 0 {
			d.Dropout = 1 - d.Dropout
		}

		// Append the layer.
		layers = append(layers, layer)
''')],
FIT+'''func main() {
	l, err := nn.NewDropoutLayer(1, 1, 0.25)
	ok(err)
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	final(&m, sgd(0.1))
	for _, v := range []string{"1.0.3", "1.0.9", "2.0.0", "0.9.9", "0.0.1"} {
		d := nn.NewSavedModelData(m)
		d.Version = v
		var b bytes.Buffer
		ok(d.Serialize(&b))
		n, err := nn.LoadModel(&b)
		ok(err)
		if r := n.Layers[0].(*nn.DropoutLayer).Dropout; r != 0.25 { die("version %s: a dropout rate of 0.25 loads as %v", v, r) }
	}
}
''')
seed('finalize-keeps-loss','C29','a model extended by a layer of another width and finalized again with the same kind of loss','Finalizing again with a loss of the same kind keeps the old loss with its old size.',
[('model.go','''	m.LossType = LossType(values["type"])
	m.Loss = loss
''','''	if m.Loss == nil || m.LossType != LossType(values["type"]) {
		m.Loss = loss
	}
	m.LossType = LossType(values["type"])
''')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	l, _ := nn.NewLinearLayer(1, 2)
	ok(m.AddLayer(&l))
	final(m, sgd(0.1))
	ok(m.Fit(mat([][]float64{{1}}), mat([][]float64{{1, 2}}), 1, 0, nn.Matrix{}, nn.Matrix{}, 0))
}
''')
seed('softmax-no-shift','C04','a row of scores that are all below -745','Softmax shifts its scores only if one is above zero, so that a row of very negative scores becomes NaN.',
[('activation.go','		sum := float64(0)\n		for j := 0; j < m.Cols; j++ {\n			m.M[i][j] = math.Exp(m.M[i][j] - largest)\n','		shift := math.Max(largest, 0)\n		sum := 0.0\n		for j := 0; j < m.Cols; j++ {\n			m.M[i][j] = math.Exp(m.M[i][j] - shift)\n')],
'''func main() {
	for _, v := range []float64{0, 800, -10, -700, -800, -1e300} {
		s := nn.Softmax(mat([][]float64{{v, v, v - 1}}))
		for _, p := range s.M[0] { if !(p >= 0 && p <= 1) { die("softmax of scores about %v is %v", v, s.M[0]) } }
	}
}
''')
seed('sub-more-rows','C26','targets with more rows than there are predictions','Subtraction accepts a second operand with more rows, so that losses silently use a part of the targets.',
[('matrix.go','''        // Subtract matrix b from m and return the answer.

        // Check that the size is correct.
        if m.Rows != b.Rows || m.Cols != b.Cols {''','''	// Subtract matrix b from m and return the answer.

	// Check that the size is correct.
	if m.Rows > b.Rows || m.Cols != b.Cols {''')],
'''func main() {
	l, err := nn.NewMeanSquaredLoss(1)
	ok(err)
	if _, err := l.Forward(mat([][]float64{{1}}), mat([][]float64{{1}, {2}})); err == nil { die("the loss of one prediction and two targets was accepted") }
}
''')
seed('loss-goroutine','C30','refused loss evaluations, repeated','The loss is computed in a goroutine that waits for ever when its result is an error.',
[('model.go','''	j, err := m.Loss.Forward(outputs[m.ModelSize], Y)
	if err != nil {
                return 0, err
        }

	return j, nil
}''','''	value, failed := make(chan float64), make(chan error)
	go func() {
		j, err := m.Loss.Forward(outputs[m.ModelSize], Y)
		failed <- err
		value <- j
	}()
	if err := <-failed; err != nil {
		return 0, err
	}

	return <-value, nil
}''')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, sgd(0.1))
	a := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		if _, err := m.CalculateLoss(mat([][]float64{{1}}), mat([][]float64{{1}, {2}})); err == nil { die("accepted") }
	}
	time.Sleep(300 * time.Millisecond)
	if b := runtime.NumGoroutine(); b > a+10 { die("50 refused evaluations leave %d goroutines", b-a) }
}
''')
if __name__=='__main__': run(sys.argv[1:] or None)
