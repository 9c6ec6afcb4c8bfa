package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C16", Quick: 50000, Thorough: 400000, Run: runC16,
		Rule: "a case is one training call with captured loggers (in memory, in a file, on a redirected standard output, silenced, or never initialised); spies around the optimizers snapshot the parameters at every epoch's end and every written line is compared with the reference loss and accuracy of that snapshot; non-trivial when at least two lines were judged",
		Floors: map[string]int64{"thousands of epochs": 40, "tiny losses": 500, "validation set is the training set": 2000, "thousands of samples": 50, "progress lines judged": 20000, "validation lines judged": 9000, "interval zero": 1500, "interval above one": 4000, "interval above the epochs": 1000, "to a file": 250, "to standard output": 150, "silent": 150, "never initialised": 300, "long trainings": 100, "perfect from the start": 1000,
			"log file refused": 50, "with dropout": 1500, "appended to existing contents": 50, "appended to long contents": 15, "error paths without loggers": 100, "later calls with lines alike": 3000, "version warnings": 50, "minibatches": 6000}})
}

var numRe = regexp.MustCompile(`[-+]?(\d+(\.\d*)?([eE][-+]?\d+)?|\.\d+|[nN]a[nN]|[iI]nf)`)
var epochRe = regexp.MustCompile(`(?i)epoch.*`)

type logLine struct {
	epoch     int
	loss, acc float64
	val       bool
	updates   int // updates seen when it was written
}

func parseLine(c *Ctx, s string) logLine {
	p := epochRe.FindString(s)
	if p == "" {
		c.Fail("training wrote a line that is no progress line: %q", s)
	}
	n := numRe.FindAllString(p, -1)
	if len(n) < 3 {
		c.Fail("progress line %q does not carry epoch, loss and accuracy", s)
	}
	e, err := strconv.Atoi(n[0])
	if err != nil {
		c.Fail("progress line %q carries no epoch number", s)
	}
	l := logLine{epoch: e, val: strings.Contains(strings.ToLower(p), "valid")}
	l.loss, _ = strconv.ParseFloat(n[1], 64)
	l.acc, _ = strconv.ParseFloat(n[2], 64)
	return l
}

// logWriter notes when each line is written.
type logWriter struct {
	lines []string
	at    []int
	n     *int
	part  string
}

func (w *logWriter) Write(b []byte) (int, error) {
	w.part += string(b)
	for {
		i := strings.IndexByte(w.part, '\n')
		if i < 0 {
			return len(b), nil
		}
		w.lines, w.at = append(w.lines, w.part[:i]), append(w.at, *w.n)
		w.part = w.part[i+1:]
	}
}

type hookOpt struct {
	nn.Optimizer
	after func()
}

func (s *hookOpt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	err := s.Optimizer.Update(w, b, dw, db)
	s.after()
	return err
}

type failOpt struct{ nn.Optimizer }

func (s *failOpt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	return errors.New("out of order")
}

// closeLogs closes the files behind the current loggers.
func closeLogs() {
	for _, l := range []*log.Logger{nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger} {
		if f, ok := l.Writer().(*os.File); ok && f != os.Stdout && f != os.Stderr {
			f.Close()
		}
	}
}

func runC16(c *Ctx) {
	r := c.R
	defer quietLoggers()
	m := genModel(r, genOpts{maxDepth: 3, maxW: 5, kinds: allKinds, lrLo: 0.01, lrHi: 0.4})
	for _, l := range m.L {
		if l.K == kDropout {
			c.Cov("with dropout", 1)
			break
		}
	}
	mod := m.build(c)
	N := genRows(r)
	switch {
	case r.Intn(300) == 0 && m.work() < 60:
		N = 1000 + r.Intn(8000)
		c.Cov("thousands of samples", 1)
	case r.Intn(3000) == 0 && m.work() < 20:
		N = 65500 + r.Intn(600)
		c.Cov("huge datasets", 1)
	}
	x, y := genM(r, N, m.in(), vNormal), genTarget(r, m.Loss, N, m.out())
	var xv, yv M
	XV, YV := nnEmpty(), nnEmpty()
	if r.Intn(2) == 0 {
		nv := genRows(r)
		xv, yv = genM(r, nv, m.in(), vNormal), genTarget(r, m.Loss, nv, m.out())
		XV, YV = toNN(r, xv), toNN(r, yv)
	}
	epochs := 1 + r.Intn(7)
	switch r.Intn(20) {
	case 0:
		epochs = 0
	case 1:
		epochs = 8 + r.Intn(20)
	case 2:
		if N <= 6 {
			epochs = 30 + r.Intn(250)
			c.Cov("long trainings", 1)
		}
	}
	patient := N <= 4 && m.work() < 20 && r.Intn(60) == 0
	if patient {
		epochs = 500 + r.Intn(2500)
		if r.Intn(6) == 0 {
			epochs = 32700 + r.Intn(1200)
			c.Cov("tens of thousands of epochs", 1)
		}
		c.Cov("thousands of epochs", 1)
	}
	if N > 1000 {
		epochs = 1 + r.Intn(2)
	}
	if (m.Loss == lMSE || m.Loss == lMAE) && r.Intn(8) == 0 {
		// nothing left to learn
		if p := m.predictRaw(x); finite(maxAbs(p)) {
			y = p
			c.Cov("perfect from the start", 1)
			if r.Intn(2) == 0 { // or almost nothing
				e := math.Pow(10, -2-6*r.Float64())
				for i := range y {
					for j := range y[i] {
						y[i][j] += r.NormFloat64() * e
					}
				}
				c.Cov("tiny losses", 1)
			}
		}
	}
	X, Y := toNN(r, x), toNN(r, y)
	switch {
	case m.in() == m.out() && m.Loss < lCE && r.Intn(5) == 0:
		y, Y = x, X
		c.Cov("inputs are the targets", 1)
	case r.Intn(8) == 0:
		repeated(r, x)
		repeated(r, y)
		X, Y = sharing(c, x), sharing(c, y)
	}
	if r.Intn(6) == 0 { // validated on the training set itself
		xv, yv, XV, YV = x, y, X, Y
		c.Cov("validation set is the training set", 1)
	}
	every := 0
	switch r.Intn(6) {
	case 0:
		c.Cov("interval zero", 1)
	case 1:
		every = epochs + 1 + r.Intn(3)
		c.Cov("interval above the epochs", 1)
	case 2, 3:
		every = 1
	default:
		every = 2 + r.Intn(4)
		if epochs > 20 && r.Intn(2) == 0 {
			every = 2 + r.Intn(epochs)
		}
	}
	if patient {
		every = 1 + r.Intn(epochs/4)
		if epochs < 3000 && r.Intn(4) == 0 {
			every = 1 + r.Intn(20)
		}
	}
	if every > 1 {
		c.Cov("interval above one", 1)
	}
	batch := genBatch(r, N)
	if N > 1000 && batch > 0 && batch < N/50 {
		batch += N / 50
	}
	per := 1
	if batch > 0 && batch < N {
		per = (N + batch - 1) / batch
		c.Cov("minibatches", 1)
	}
	per *= len(m.L)
	c.Desc("%s N=%d epochs=%d batch=%d every=%d val=%v", m, N, epochs, batch, every, xv != nil)

	updates := 0
	snaps := map[int]*RModel{}
	ends := 0
	due := every
	for i := range mod.Optimizers {
		mod.Optimizers[i] = &hookOpt{mod.Optimizers[i], func() {
			updates++
			if updates%per == 0 {
				ep := ends
				ends++
				if due == 0 || ep%due != 0 {
					return
				}
				s := m.clone()
				ws, bs := paramsOf(c, mod)
				for k := range s.L {
					s.L[k].W, s.L[k].B = ws[k], bs[k][0]
				}
				snaps[ep] = s
			}
		}}
	}

	lw := &logWriter{n: &updates}
	var other bytes.Buffer
	readBack := func() []string { return lw.lines }
	known := true // line times are known
	switch k := r.Intn(30); {
	case k == 0: // a file
		path := filepath.Join(c.Dir, fmt.Sprintf("log-%d", c.Case))
		old := ""
		if r.Intn(2) == 0 {
			old = "kept line\n"
			if r.Intn(4) == 0 {
				old = strings.Repeat(old, 1+r.Intn(1<<uint(4+r.Intn(14))))
				c.Cov("appended to long contents", 1)
			}
			if err := os.WriteFile(path, []byte(old), 0644); err != nil {
				panic(err)
			}
			c.Cov("appended to existing contents", 1)
		}
		if err := nn.InitLogger(true, true, path); err != nil {
			c.Fail("InitLogger refused a fresh file: %v", err)
		}
		if r.Intn(3) == 0 { // initialised twice on the same file
			closeLogs()
			if err := nn.InitLogger(true, true, path); err != nil {
				c.Fail("InitLogger refused an existing file: %v", err)
			}
		}
		defer os.Remove(path)
		defer closeLogs()
		known = false
		readBack = func() []string {
			b, err := os.ReadFile(path)
			if err != nil {
				c.Fail("log file cannot be read: %v", err)
			}
			if !strings.HasPrefix(string(b), old) {
				c.Fail("logging to an existing file destroyed its contents: %q", trunc(string(b), 80))
			}
			return splitLines(string(b[len(old):]))
		}
		c.Cov("to a file", 1)
	case k == 1 || k == 2: // standard output or silence
		f, err := os.Create(filepath.Join(c.Dir, "stdout"))
		if err != nil {
			panic(err)
		}
		saved := os.Stdout
		os.Stdout = f
		verbose := k == 1
		err = nn.InitLogger(verbose, false, "")
		os.Stdout = saved
		if err != nil {
			c.Fail("InitLogger refused: %v", err)
		}
		defer f.Close()
		known = false
		readBack = func() []string {
			b, _ := os.ReadFile(f.Name())
			if !verbose {
				if len(b) > 0 {
					c.Fail("silent mode wrote %q", trunc(string(b), 80))
				}
				return nil
			}
			return splitLines(string(b))
		}
		if verbose {
			c.Cov("to standard output", 1)
		} else {
			c.Cov("silent", 1)
		}
		if !verbose {
			every = -every // expect nothing
		}
	case k == 3:
		pristineLoggers()
		c.Cov("never initialised", 1)
		withoutLoggers(c, m)
		pristineLoggers()
		every = -every
	case k == 4 && r.Intn(2) == 0:
		// an impossible log file is reported and the loggers keep working
		bad := []string{c.Dir, filepath.Join(c.Dir, "missing", "x.log"), ""}[r.Intn(3)]
		if err := nn.InitLogger(true, true, bad); err == nil {
			c.Fail("InitLogger accepted %q as log file", bad)
		}
		if nn.InfoLogger == nil || nn.WarningLogger == nil || nn.ErrorLogger == nil {
			c.Fail("a refused InitLogger left no loggers")
		}
		c.Cov("log file refused", 1)
		fallthrough
	default:
		nn.InfoLogger = log.New(lw, []string{"", "[info]: ", "12:34 "}[r.Intn(3)], 0)
		nn.WarningLogger = log.New(&other, "", 0)
		nn.ErrorLogger = log.New(&other, "", 0)
	}
	e := every
	if e < 0 {
		e = -e
	}
	if err := mod.Fit(X, Y, epochs, batch, XV, YV, e); err != nil {
		c.Fail("training refused: %v", err)
	}
	lines := readBack()
	if other.Len() > 0 {
		c.Fail("training wrote a warning or error: %q", trunc(other.String(), 100))
	}
	if every <= 0 {
		if len(lines) > 0 {
			c.Fail("training wrote %q although nothing was to be logged", lines[0])
		}
		return
	}
	want := (epochs + every - 1) / every
	if xv != nil {
		want *= 2
	}
	if len(lines) != want {
		c.Fail("%d lines were written, %d are due (interval %d, %d epochs, validation %v); the last: %q", len(lines), want, every, epochs, xv != nil, strings.Join(lines[max(0, len(lines)-2):], " | "))
	}
	if updates != per*epochs || ends != epochs {
		return // the batches are not as expected, no way to tell what is right
	}
	pos := 0
	next := func() (logLine, bool) {
		if pos >= len(lines) {
			return logLine{}, false
		}
		l := parseLine(c, lines[pos])
		if known {
			l.updates = lw.at[pos]
		}
		pos++
		return l, true
	}
	for ep := 0; ep < epochs; ep += every {
		l, ok := next()
		if !ok {
			c.Fail("no progress line for epoch %d (interval %d, %d epochs); %d lines were written", ep, every, epochs, len(lines))
		}
		judgeLine(c, l, lines[pos-1], ep, false, snaps[ep], x, y, known, per)
		c.Cov("progress lines judged", 1)
		if xv != nil {
			l, ok := next()
			if !ok {
				c.Fail("no validation line for epoch %d", ep)
			}
			judgeLine(c, l, lines[pos-1], ep, true, snaps[ep], xv, yv, known, per)
			c.Cov("validation lines judged", 1)
		}
	}
	if pos < len(lines) {
		c.Fail("superfluous line %q (interval %d, %d epochs, validation %v)", lines[pos], every, epochs, xv != nil)
	}
	if pos >= 2 {
		c.NT()
	}
	if epochs > 300 || N > 1000 || r.Intn(3) != 0 {
		return
	}

	// trained on without moving: every call writes all its lines, however alike
	for i := range mod.Optimizers {
		mod.Optimizers[i] = stillOpt{mod.Optimizers[i]}
	}
	s := m.clone()
	ws, bs := paramsOf(c, mod)
	for k := range s.L {
		s.L[k].W, s.L[k].B = ws[k], bs[k][0]
	}
	for call := 1; call < 4; call++ {
		n, k := 1+r.Intn(3), 1+r.Intn(3)
		if err := mod.Fit(X, Y, n, batch, XV, YV, k); err != nil {
			c.Fail("training again refused: %v", err)
		}
		lines = readBack()
		for ep := 0; ep < n; ep += k {
			for v := 0; v < 2; v++ {
				if v == 1 && xv == nil {
					break
				}
				if pos >= len(lines) {
					c.Fail("training call %d of %d epochs (interval %d) that changes nothing left out lines: %d in all, the last %q", call, n, k, len(lines), lines[len(lines)-1])
				}
				l := parseLine(c, lines[pos])
				if pos++; v == 0 {
					judgeLine(c, l, lines[pos-1], ep, false, s, x, y, false, per)
				} else {
					judgeLine(c, l, lines[pos-1], ep, true, s, xv, yv, false, per)
				}
			}
		}
		if pos < len(lines) {
			c.Fail("superfluous line %q in training call %d (interval %d, %d epochs)", lines[pos], call, k, n)
		}
		c.Cov("later calls with lines alike", 1)
	}
}

// stillOpt is an optimizer that changes nothing.
type stillOpt struct{ nn.Optimizer }

func (stillOpt) Update(*nn.Matrix, *nn.Matrix, nn.Matrix, nn.Matrix) error { return nil }

func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func judgeLine(c *Ctx, l logLine, s string, ep int, val bool, m *RModel, x, y M, known bool, per int) {
	what := "progress"
	if val {
		what = "validation"
	}
	if l.epoch != ep || l.val != val {
		c.Fail("expected the %s line of epoch %d, saw %q", what, ep, s)
	}
	if known && l.updates < (ep+1)*per {
		c.Fail("the %s line of epoch %d was written before the epoch was over", what, ep)
	}
	raw := m.predictRaw(x)
	w := rloss(m.Loss, raw, y)
	if !finite(w) || maxAbs(raw) > 1e6 {
		return
	}
	if math.Abs(l.loss-w) > 1.1e-6*(1+math.Abs(w)) {
		c.Fail("%s line of epoch %d reports loss %v, the inference loss after that epoch is %v (%s)", what, ep, l.loss, w, m)
	}
	if decisive(m.Acc, m.Prec, raw, y) {
		a := rAccuracy(m.Acc, m.Prec, raw, y)
		if math.Abs(l.acc-a) > 1.1e-6 {
			c.Fail("%s line of epoch %d reports accuracy %v, it is %v (%s)", what, ep, l.acc, a, m)
		}
	}
}

// withoutLoggers: loading and error reporting with loggers as the package sets them up.
func withoutLoggers(c *Ctx, m *RModel) {
	r := c.R
	mod := m.build(c)
	x, y := genM(r, 3, m.in(), vNormal), genTarget(r, m.Loss, 3, m.out())
	X, Y := toNN(r, x), toNN(r, y)
	d := nn.NewSavedModelData(*mod)
	var buf bytes.Buffer
	if err := d.Serialize(&buf); err != nil {
		c.Fail("save refused: %v", err)
	}
	b := buf.Bytes()
	copy(b[4:9], "9.8.7")
	if _, err := nn.LoadModel(bytes.NewBuffer(b)); err != nil {
		c.Fail("another version string was refused: %v", err)
	}
	c.Cov("version warnings", 1)
	if err := mod.Fit(X, Y, 2, 2, X, Y, 1); err != nil {
		c.Fail("training refused: %v", err)
	}
	if err := mod.Fit(X, toNN(r, y[:2]), 1, 0, nnEmpty(), nnEmpty(), 1); err == nil {
		c.Fail("training accepted 3 inputs with 2 targets")
	}
	i := r.Intn(len(mod.Optimizers))
	mod.Optimizers[i] = &failOpt{mod.Optimizers[i]}
	if err := mod.Fit(X, Y, 1, 0, nnEmpty(), nnEmpty(), 1); err == nil {
		c.Fail("training hid an error of an optimizer")
	}
	if _, err := mod.CalculateLoss(X, toNN(r, y[:1])); err == nil {
		c.Fail("loss accepted 3 inputs with 1 target")
	}
	c.Cov("error paths without loggers", 1)
}
