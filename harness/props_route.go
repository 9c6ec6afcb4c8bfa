package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C32", Quick: 40000, Thorough: 250000, Run: runC32,
		Rule:   "a case is a random history of logger set-ups (files with and without contents, standard output, silence, impossible files; or none at all) mixed with everything that writes records: training with and without progress, training that fails, loading models of this and of other versions, refused calls, records of the user's own; after every step all possible destinations are read back and compared with what is due; non-trivial when records of two kinds went to one destination",
		Floors: map[string]int64{"steps": 200000, "warnings expected": 20000, "errors expected": 10000, "progress lines expected": 10000, "own records": 40000, "to a file": 20000, "to standard output": 6000, "silenced": 6000, "records that go nowhere": 15000, "refused set-ups": 10000, "destinations compared": 800000, "same file again": 2000, "quiet loads": 8000}})
}

func runC32(c *Ctx) {
	r := c.R
	defer quietLoggers()
	dir, err := os.MkdirTemp(c.Dir, "c32-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	out, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	saved := os.Stdout
	os.Stdout = out
	var stray bytes.Buffer // what goes to the standard library's own logger
	log.SetOutput(&stray)
	var opened []*os.File
	note := func() {
		for _, l := range []*log.Logger{nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger} {
			if l == nil {
				continue
			}
			if f, ok := l.Writer().(*os.File); ok && f != out && f != os.Stderr {
				for _, o := range opened {
					if o == f {
						f = nil
						break
					}
				}
				if f != nil {
					opened = append(opened, f)
				}
			}
		}
	}
	defer func() {
		os.Stdout = saved
		log.SetOutput(os.Stderr)
		for _, f := range opened {
			f.Close()
		}
		out.Close()
	}()

	// contents every destination must have: fixed text, then lines by their parts
	files := []string{"stdout", "a.log", "b.log", "my c.log"}
	old := map[string]string{}
	due := map[string][][]string{}
	for _, f := range files[1:] {
		if r.Intn(2) == 0 {
			old[f] = strings.Repeat("kept line\n", 1+r.Intn(5))
			if r.Intn(3) == 0 {
				old[f] = "no end of line"
			}
			if err := os.WriteFile(filepath.Join(dir, f), []byte(old[f]), 0644); err != nil {
				panic(err)
			}
		}
	}
	dest := "" // none
	pristineLoggers()
	record := func(parts ...string) {
		if dest != "" {
			due[dest] = append(due[dest], parts)
		}
	}
	check := func(what string) {
		for _, f := range files {
			b, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil && (old[f] != "" || len(due[f]) > 0) {
				c.Fail("after %s: %s cannot be read: %v", what, f, err)
			}
			s := string(b)
			if !strings.HasPrefix(s, old[f]) {
				c.Fail("after %s: the old contents of %s are gone: %q", what, f, trunc(s, 100))
			}
			s = s[len(old[f]):]
			if s != "" && !strings.HasSuffix(s, "\n") {
				c.Fail("after %s: %s ends within a line: %q", what, f, s)
			}
			lines := splitLines(s)
			for i, parts := range due[f] {
				if i >= len(lines) {
					c.Fail("after %s: %s has %d lines, %d are due; record %q is missing", what, f, len(lines), len(due[f]), parts)
				}
				for _, p := range parts {
					if !strings.Contains(strings.ToLower(lines[i]), strings.ToLower(p)) {
						c.Fail("after %s: line %d of %s is %q, want a record with %q", what, i, f, lines[i], parts)
					}
				}
			}
			if len(lines) > len(due[f]) {
				c.Fail("after %s: %s has the line %q, which should be elsewhere or nowhere (records go to %q)", what, f, lines[len(due[f])], dest)
			}
			c.Cov("destinations compared", 1)
		}
		if stray.Len() > 0 {
			c.Fail("after %s: the standard library's logger wrote %q", what, trunc(stray.String(), 100))
		}
	}

	m := genModel(r, genOpts{maxDepth: 3, maxW: 4, lrLo: 1e-3, lrHi: 0.1})
	mod := m.build(c)
	N := 1 + r.Intn(6)
	X, Y := toNN(r, genM(r, N, m.in(), vNormal)), toNN(r, genTarget(r, m.Loss, N, m.out()))
	c.Desc("%s", m)
	kinds := map[string]bool{}
	steps := 3 + r.Intn(10)
	for s := 0; s < steps; s++ {
		what := ""
		k := r.Intn(12)
		if s == 0 && r.Intn(4) > 0 {
			k = r.Intn(4)
		}
		kind := ""
		switch k {
		case 0, 1: // a file, whether verbose or not
			f := files[1+r.Intn(len(files)-1)]
			if f == dest {
				c.Cov("same file again", 1)
			}
			if err := nn.InitLogger(r.Intn(2) == 0, true, filepath.Join(dir, f)); err != nil {
				c.Fail("InitLogger refused the file %q: %v", f, err)
			}
			dest = f
			what = "InitLogger to " + f
			c.Cov("to a file", 1)
		case 2: // standard output or silence; the name does not matter
			name := ""
			if r.Intn(2) == 0 {
				name = filepath.Join(dir, "a.log")
			}
			verbose := r.Intn(2) == 0
			if err := nn.InitLogger(verbose, false, name); err != nil {
				c.Fail("InitLogger(%v, false) refused: %v", verbose, err)
			}
			if dest = ""; verbose {
				dest = "stdout"
				c.Cov("to standard output", 1)
			} else {
				c.Cov("silenced", 1)
			}
			what = fmt.Sprintf("InitLogger(%v, false)", verbose)
		case 3: // impossible: all stays as it was
			p := []string{dir, filepath.Join(dir, "missing", "x.log"), "", filepath.Join(dir, "stdout", "x.log")}[r.Intn(4)]
			if err := nn.InitLogger(r.Intn(2) == 0, true, p); err == nil {
				c.Fail("InitLogger accepted the log file %q", p)
			}
			what = "a refused InitLogger"
			c.Cov("refused set-ups", 1)
		case 4, 5: // another version
			v := []string{"1.0.2", "1.0.4", "0.0.0", "9.9.9", "abcde", "2.0.3", "1.1.3", "1.0.x", "     "}[r.Intn(9)]
			if _, err := nn.LoadModel(bytes.NewBuffer(encodeModel(r, m, v).b)); err != nil {
				c.Fail("a model of version %q was refused: %v", v, err)
			}
			what, kind = "loading a model of version "+v, "warning"
			record("warning", strings.TrimSpace(v), nn.VERSION)
			c.Cov("warnings expected", 1)
		case 6: // this version, from memory or a file
			b := encodeModel(r, m, nn.VERSION).b
			if r.Intn(2) == 0 {
				p := filepath.Join(dir, "model")
				if err := nn.SaveFile(mod, p); err != nil {
					c.Fail("saving refused: %v", err)
				}
				_, err = nn.LoadFile(p)
			} else {
				_, err = nn.LoadModel(bytes.NewBuffer(b))
			}
			if err != nil {
				c.Fail("a model was refused: %v", err)
			}
			what = "loading a model of this version"
			c.Cov("quiet loads", 1)
		case 7: // training
			epochs, every := r.Intn(4), r.Intn(3)
			XV, YV := nnEmpty(), nnEmpty()
			val := r.Intn(2) == 0
			if val {
				XV, YV = X, Y
			}
			if err := mod.Fit(X, Y, epochs, genBatch(r, N), XV, YV, every); err != nil {
				c.Fail("training refused: %v", err)
			}
			what = fmt.Sprintf("training for %d epochs (interval %d)", epochs, every)
			for e := 0; every > 0 && e < epochs; e += every {
				kind = "info"
				record("epoch", fmt.Sprint(e), "loss", "accuracy")
				c.Cov("progress lines expected", 1)
				if val {
					record("epoch", fmt.Sprint(e), "validation")
					c.Cov("progress lines expected", 1)
				}
			}
		case 8: // training that fails on its way
			bad := m.build(c)
			cause := "out of order"
			epochs, every := 1+r.Intn(3), r.Intn(2)
			XV, YV := nnEmpty(), nnEmpty()
			switch r.Intn(6) {
			case 0, 1:
				i := r.Intn(len(bad.Optimizers))
				bad.Optimizers[i] = &failOpt{bad.Optimizers[i]}
			case 2: // in the forward pass
				l, _ := layOf(bad.Layers[r.Intn(len(bad.Layers))])
				*l.W() = toNN(r, zeros(l.W().Rows+1, l.W().Cols))
				cause = ""
			case 3: // while its progress is evaluated
				every = 1
				bad.Loss = failLoss{bad.Loss, 0, new(int)}
			case 4: // of the validation set
				every = 1
				XV, YV = X, Y
				bad.Loss = failLoss{bad.Loss, 1, new(int)}
				record("epoch", "loss", "accuracy")
			case 5:
				every = 1
				bad.AccuracyType = 77
				cause = ""
			}
			if err := bad.Fit(X, Y, epochs, genBatch(r, N), XV, YV, every); err == nil {
				c.Fail("training reported success although a part of it failed")
			}
			what, kind = "training that failed", "error"
			record("error", cause)
			c.Cov("errors expected", 1)
		case 9, 10: // records of the user's own
			for n := 1 + r.Intn(3); n > 0; n-- {
				mark := fmt.Sprintf("mark-%d-%d", s, n)
				switch r.Intn(3) {
				case 0:
					nn.InfoLogger.Println(mark)
					record("info", mark)
				case 1:
					nn.WarningLogger.Printf("%s", mark)
					record("warning", mark)
				case 2:
					nn.ErrorLogger.Print(mark)
					record("error", mark)
				}
				c.Cov("own records", 1)
			}
			what, kind = "records of the user's own", "own"
		case 11: // nothing to record
			if _, err := mod.Predict(X); err != nil {
				c.Fail("predict refused: %v", err)
			}
			if _, err := mod.CalculateLoss(X, Y); err != nil {
				c.Fail("loss refused: %v", err)
			}
			if r.Intn(2) == 0 {
				mod.InitLayers()
			}
			what = "evaluations"
		}
		note()
		if kind != "" && dest != "" {
			kinds[dest+kind] = true
		}
		if dest == "" && kind != "" {
			c.Cov("records that go nowhere", 1)
		}
		check(what)
		c.Cov("steps", 1)
		c.Desc("%s", what)
	}
	if len(kinds) > 1 {
		c.NT()
	}
}

// failLoss evaluates a number of times, then fails.
type failLoss struct {
	nn.Loss
	good int
	n    *int
}

func (l failLoss) Forward(p, y nn.Matrix) (float64, error) {
	if *l.n++; *l.n > l.good {
		return 0, errors.New("out of order")
	}
	return l.Loss.Forward(p, y)
}
