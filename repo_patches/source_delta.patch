From 1b5c7e3cb2b5869887b2ccb892b9a14cc29f656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 01/97] fix: do not hand frames dropped by a prior operator to
 the following unary operators

---
 internal/ops/operator.go | 1109 +++++++++++++++++++-------------------
 1 file changed, 556 insertions(+), 553 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..fff72c2 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -1,553 +1,556 @@
-// Copyright (C) 2020 Markus L. Noga
-//
-// This program is free software: you can redistribute it and/or modify
-// it under the terms of the GNU General Public License as published by
-// the Free Software Foundation, either version 3 of the License, or
-// (at your option) any later version.
-//
-// This program is distributed ins the hope that it will be useful,
-// but WITHOUT ANY WARRANTY; without even the implied warranty of
-// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-// GNU General Public License for more details.
-//
-// You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <https://www.gnu.org/licenses/>.
-
-package ops
-
-import (
-	"bufio"
-	"bytes"
-	"encoding/json"
-	"errors"
-	"fmt"
-	"io"
-	"os"
-	"path/filepath"
-	"runtime"
-	"strings"
-
-	"github.com/mlnoga/nightlight/internal/fits"
-	"github.com/mlnoga/nightlight/internal/star"
-	"github.com/mlnoga/nightlight/internal/stats"
-	"github.com/pbnjay/memory"
-)
-
-// An execution context for operators
-type Context struct {
-	Log             io.Writer
-	LSEstimatorMode stats.LSEstimatorMode
-	MemoryMB        int // memory.TotalMemory()/1024/1024
-	StackMemoryMB   int // MemoryMB*7/10
-	MaxThreads      int `json:"maxThreads"`
-	DarkFrame       *fits.Image
-	FlatFrame       *fits.Image
-	AlignNaxisn     []int32
-	AlignStars      []star.Star
-	AlignHFR        float32
-	MatchHisto      *stats.Stats
-	RefFrameError   error
-	LumFrame        *fits.Image
-
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
-}
-
-func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
-	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
-	return &Context{
-		Log:             log,
-		LSEstimatorMode: lsEstimatorMode,
-		MemoryMB:        memoryMB,
-		StackMemoryMB:   stMemory,
-		MaxThreads:      runtime.GOMAXPROCS(0),
-	}
-}
-
-// A promise for a FITS image. Returns a materialized image, or an error
-type Promise func() (f *fits.Image, err error)
-
-// Materializes all promises with given concurrency limit
-func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
-	if len(ins) == 0 {
-		return nil, nil
-	}
-	if !forget {
-		outs = make([]*fits.Image, len(ins))
-	}
-	limiter := make(chan bool, maxThreads)
-	errs := make(chan error, len(ins))
-	for i, in := range ins {
-		limiter <- true
-		go func(i int, theIn Promise) {
-			defer func() { <-limiter }()
-			f, err := theIn() // materialize the promise
-			if err != nil {
-				if !forget {
-					outs[i] = nil
-				}
-				errs <- err
-				return
-			}
-			if !forget {
-				outs[i] = f
-			}
-			errs <- nil
-		}(i, in)
-	}
-	for i := 0; i < cap(limiter); i++ { // wait for goroutines to finish
-		limiter <- true
-	}
-	for i := 0; i < len(ins); i++ { // collect errors
-		e := <-errs
-		if e != nil {
-			if err == nil {
-				err = e
-			} else if err.Error() == e.Error() {
-				// do nothing
-			} else {
-				err = fmt.Errorf("%s; %s", err.Error(), e.Error())
-			}
-		}
-	}
-	return RemoveNils(outs), err
-}
-
-// Remove nils from an array of fits.Images, editing the underlying array in place
-func RemoveNils(lights []*fits.Image) []*fits.Image {
-	o := 0
-	for i := 0; i < len(lights); i += 1 {
-		if lights[i] != nil {
-			lights[o] = lights[i]
-			o += 1
-		}
-	}
-	for i := o; i < len(lights); i++ {
-		lights[i] = nil
-	}
-	return lights[:o]
-}
-
-// An general image processing operator: takes n promises as inputs,
-// and produces m promises as output or an error
-type Operator interface {
-	GetType() string
-	MakePromises(ins []Promise, c *Context) (outs []Promise, err error)
-}
-
-// Base type for operators, including type information for JSON serializing/deserializing
-type OpBase struct {
-	Type string `json:"type"`
-}
-
-func (op *OpBase) GetType() string { return op.Type }
-
-// Factory method for subclasses of unary operators. For JSON serializing/deserializing
-type OperatorFactory func() Operator
-
-// Mapping from unary operator type strings to factory method for the type
-var operatorFactories = map[string]OperatorFactory{}
-
-// Returns the operator factory for a given type string
-func GetOperatorFactory(t string) OperatorFactory {
-	return operatorFactories[t]
-}
-
-// Registers a given type string for a given type of UnaryOperator, identified via an exemplar generator
-func SetOperatorFactory(f OperatorFactory) {
-	op := f()
-	t := op.GetType()
-	if GetOperatorFactory(t) != nil {
-		panic(fmt.Sprintf("error: re-registering operator key %s\n", t))
-	}
-	operatorFactories[t] = f
-}
-
-// A unary image processing operator: given n promises as inputs,
-// applies itself to each of them individually and returns n output promises or an error
-type OperatorUnary interface {
-	Operator
-	Apply(f *fits.Image, c *Context) (fOut *fits.Image, err error)
-}
-
-// Abstract base type for unary operators. Uses golang workaround for abstract classes
-// from https://golangbyexample.com/go-abstract-class/
-type OpUnaryBase struct {
-	OpBase
-	Apply func(f *fits.Image, c *Context) (fOut *fits.Image, err error) `json:"-"`
-	// Careful: copying an OpUnary base as value into a new instance will lead to subsequent
-	// difficult to trace errors, as Apply() will still tie the method receiver to the
-	// address of the original. You must set op.OpUnaryBase.Apply=op.Apply after such a copy
-	// to avoid this error
-}
-
-func (op *OpUnaryBase) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(ins) == 0 {
-		return nil, fmt.Errorf("unary operator with %d inputs", len(ins))
-	}
-	outs = make([]Promise, len(ins))
-	for i, in := range ins {
-		outs[i] = op.MakePromise(in, c)
-	}
-	return outs, nil
-}
-
-func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
-	return func() (f *fits.Image, err error) {
-		if f, err = in(); err != nil {
-			return nil, err
-		} // materialize input promise
-		if f, err = op.Apply(f, c); err != nil {
-			return nil, err
-		} // apply unary operator
-		return f, nil // wrap output in promise
-	}
-}
-
-// Load a single FITS image from a single filename. Takes zero inputs, produces one output
-type OpLoad struct {
-	OpBase
-	ID       int    `json:"id"`
-	FileName string `json:"fileName"`
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpLoadDefault() }) } // register the operator for JSON decoding
-
-func NewOpLoadDefault() *OpLoad { return NewOpLoad(0, "") }
-
-func NewOpLoad(id int, fileName string) *OpLoad {
-	return &OpLoad{
-		OpBase:   OpBase{Type: "load"},
-		ID:       id,
-		FileName: fileName,
-	}
-}
-
-// Unmarshal the type from JSON with default values for missing entries
-func (op *OpLoad) UnmarshalJSON(data []byte) error {
-	type defaults OpLoad
-	def := defaults(*NewOpLoadDefault())
-	err := json.Unmarshal(data, &def)
-	if err != nil {
-		return err
-	}
-	*op = OpLoad(def)
-	return nil
-}
-
-// Load image from a file. Ignores any f argument provided
-func (op *OpLoad) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(ins) > 0 {
-		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
-	}
-	if !isPathAllowed(op.FileName) {
-		return nil, errors.New("filename outside current directory tree, aborting")
-	}
-
-	out := func() (f *fits.Image, err error) {
-		// no inputs to materialize
-		return op.Apply(nil, c)
-	}
-	return []Promise{out}, nil
-}
-
-// Returns true if a path is considered safe, i.e. not an absolute path,
-// and doesn't contain the ".." characters to change to a parent directory
-func isPathAllowed(p string) bool {
-	if filepath.IsAbs(p) {
-		return false
-	} // relative paths only
-	if strings.Contains(p, "..") {
-		return false
-	} // no going outside the tree
-	return true
-}
-
-func (op *OpLoad) Apply(fUnused *fits.Image, c *Context) (result *fits.Image, err error) {
-	f, err := fits.NewImageFromFile(op.FileName, op.ID, c.Log)
-	if err != nil {
-		return nil, err
-	}
-
-	warning := ""
-	if f.Stats.Max()-f.Stats.Min() < 1e-8 {
-		warning = "; WARNING low dynamic range"
-	}
-
-	fmt.Fprintf(c.Log, "%d: Loaded %s image with %v from %s%s\n",
-		f.ID, f.DimensionsToString(), f.Stats, f.FileName, warning)
-	return f, nil
-}
-
-// Load many FITS images from a slice of filename patterns with wildcards.
-// Takes zero inputs, produces n outputs
-type OpLoadMany struct {
-	OpBase
-	FilePatterns []string `json:"filePatterns"`
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpLoadManyDefault() }) } // register the operator for JSON decoding
-
-func NewOpLoadManyDefault() *OpLoadMany { return NewOpLoadMany(nil) }
-
-func NewOpLoadMany(filePatterns []string) *OpLoadMany {
-	return &OpLoadMany{
-		OpBase:       OpBase{Type: "loadMany"},
-		FilePatterns: filePatterns,
-	}
-}
-
-// Unmarshal the type from JSON with default values for missing entries
-func (op *OpLoadMany) UnmarshalJSON(data []byte) error {
-	type defaults OpLoadMany
-	def := defaults(*NewOpLoadManyDefault())
-	err := json.Unmarshal(data, &def)
-	if err != nil {
-		return err
-	}
-	*op = OpLoadMany(def)
-	return nil
-}
-
-// Turn filename wildcards into list of file load operators
-func (op *OpLoadMany) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(ins) > 0 {
-		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
-	}
-	for _, pattern := range op.FilePatterns {
-		matches, err := filepath.Glob(pattern)
-		if err != nil {
-			return nil, err
-		}
-		for _, match := range matches {
-			if !isPathAllowed(match) {
-				fmt.Fprintf(c.Log, "Pattern match outside current directory tree, skipping\n")
-				continue
-			}
-			opLoad := NewOpLoad(len(outs), match)
-			promises, err := opLoad.MakePromises(nil, c)
-			if err != nil {
-				return nil, err
-			}
-			if len(promises) != 1 {
-				return nil, fmt.Errorf("%s operator did not return exactly one promise", opLoad.Type)
-			}
-			outs = append(outs, promises[0])
-		}
-	}
-	if len(outs) == 0 {
-		return nil, fmt.Errorf("%s operator with no files to load from pattern %v", op.Type, op.FilePatterns)
-	}
-	fmt.Fprintf(c.Log, "Found %d files.\n", len(outs))
-	return outs, nil
-}
-
-// Value range for exporting data to 16-bit TIFF or JPEG
-type ExportMode int
-
-const (
-	EMMinMax ExportMode = iota
-	EM0_1
-	EM0_255
-	EM0_65535
-)
-
-// Saves given promise under a given filename, with pattern expansion for %d based on the image id.
-// Takes one input, produces one output (the materialized but unchanged input)
-type OpSave struct {
-	OpUnaryBase
-	FilePattern string     `json:"filePattern"`
-	ExportMode  ExportMode `json:"saveMode"`
-	Gamma       float32    `json:"gamma"`
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpSaveDefault() }) } // register the operator for JSON decoding
-
-func NewOpSaveDefault() *OpSave { return NewOpSave("", EMMinMax, 1) }
-
-func NewOpSave(filenamePattern string, exportMode ExportMode, gamma float32) *OpSave {
-	op := &OpSave{
-		OpUnaryBase: OpUnaryBase{OpBase: OpBase{Type: "save"}},
-		FilePattern: filenamePattern,
-		ExportMode:  exportMode,
-		Gamma:       gamma,
-	}
-	op.OpUnaryBase.Apply = op.Apply // assign class method to superclass abstract method
-	return op
-}
-
-// Unmarshal the type from JSON with default values for missing entries
-func (op *OpSave) UnmarshalJSON(data []byte) error {
-	type defaults OpSave
-	def := defaults(*NewOpSaveDefault())
-	err := json.Unmarshal(data, &def)
-	if err != nil {
-		return err
-	}
-	*op = OpSave(def)
-	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
-	return nil
-}
-
-func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
-	if op.FilePattern == "" {
-		return f, nil
-	}
-	if f == nil {
-		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
-	}
-	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
-		fileName = fmt.Sprintf(op.FilePattern, f.ID)
-	}
-	fnLower := strings.ToLower(fileName)
-
-	if err != nil {
-		return nil, err
-	}
-	var min, max float32
-	switch op.ExportMode {
-	case EMMinMax:
-		min = f.Stats.Min()
-		max = f.Stats.Max()
-	case EM0_1:
-		min = 0
-		max = 1
-	case EM0_255:
-		min = 0
-		max = 255
-	case EM0_65535:
-		min = 0
-		max = 65535
-	}
-
-	if strings.HasSuffix(fnLower, ".fits") || strings.HasSuffix(fnLower, ".fit") || strings.HasSuffix(fnLower, ".fts") ||
-		strings.HasSuffix(fnLower, ".fits.gz") || strings.HasSuffix(fnLower, ".fit.gz") || strings.HasSuffix(fnLower, ".fts.gz") ||
-		strings.HasSuffix(fnLower, ".fits.gzip") || strings.HasSuffix(fnLower, ".fit.gzip") || strings.HasSuffix(fnLower, ".fts.gzip") {
-		fmt.Fprintf(c.Log, "%d: Writing %s pixel FITS to %s\n", f.ID, f.DimensionsToString(), fileName)
-		err = f.WriteFile(fileName)
-	} else if strings.HasSuffix(fnLower, ".tiff") || strings.HasSuffix(fnLower, ".tif") {
-		if len(f.Naxisn) == 2 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
-		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
-		} else {
-			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
-		}
-	} else if strings.HasSuffix(fnLower, ".jpeg") || strings.HasSuffix(fnLower, ".jpg") {
-		if len(f.Naxisn) == 2 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
-		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
-		} else {
-			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
-		}
-	} else {
-		err = fmt.Errorf("unknown suffix \"%s\" for file %s", filepath.Ext(fileName), fileName)
-	}
-	if err != nil {
-		return nil, fmt.Errorf("%d: error writing to file %s: %s", f.ID, fileName, err.Error())
-	}
-	return f, nil
-}
-
-// Applies a sequence of operators to a promise. Number of inputs, outputs as per the chained steps
-type OpSequence struct {
-	OpBase
-	Steps    []Operator        `json:"-"`     // the actual steps
-	StepsRaw []json.RawMessage `json:"steps"` // helper for unmarshaling
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpSequenceDefault() }) } // register the operator for JSON decoding
-
-func NewOpSequenceDefault() *OpSequence { return NewOpSequence() }
-
-func NewOpSequence(steps ...Operator) *OpSequence {
-	return &OpSequence{
-		OpBase: OpBase{Type: "seq"},
-		Steps:  steps,
-	}
-}
-
-// Unmarshals a sequence of polymorphic operators from JSON.
-// Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
-func (op *OpSequence) UnmarshalJSON(b []byte) error {
-	type alias OpSequence
-	var tmp alias
-	err := json.Unmarshal(b, &tmp)
-	if err != nil {
-		return err
-	}
-	op.Type = tmp.Type
-
-	for _, raw := range tmp.StepsRaw {
-		var step OpBase
-		err = json.Unmarshal(raw, &step)
-		if err != nil {
-			return err
-		}
-
-		var i Operator
-		if factory := GetOperatorFactory(step.Type); factory != nil {
-			i = factory()
-		} else {
-			return fmt.Errorf("unknown operator type '%s' in raw JSON message '%s'", step.Type, string(raw))
-		}
-		err = json.Unmarshal(raw, i)
-		if err != nil {
-			return err
-		}
-		op.Steps = append(op.Steps, i)
-	}
-	return nil
-}
-
-// Appends one or more operators to the existing sequence
-func (op *OpSequence) Append(steps ...Operator) {
-	op.Steps = append(op.Steps, steps...)
-}
-
-// Marshals a sequence with polymorphic operators to JSON.
-// Uses the actual op.Steps with label "steps", and ignores op.StepsRaw
-func (op *OpSequence) MarshalJSON() (bs []byte, err error) {
-	buf := bytes.Buffer{}
-	buf.WriteString("{\"type\":")
-	inner, err := json.Marshal(op.Type)
-	if err != nil {
-		return nil, err
-	}
-	buf.Write(inner)
-	fmt.Fprintf(&buf, ", \"steps\":")
-	inner, err = json.Marshal(op.Steps)
-	if err != nil {
-		return nil, err
-	}
-	buf.Write(inner)
-	buf.WriteRune('}')
-	return buf.Bytes(), nil
-}
-
-func (op *OpSequence) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	return op.applyRecursive(op.Steps, ins, c)
-}
-
-func (op *OpSequence) applyRecursive(steps []Operator, ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(steps) == 0 {
-		return ins, nil
-	}
-	ins, err = steps[0].MakePromises(ins, c)
-	if err != nil {
-		return nil, err
-	}
-	return op.applyRecursive(steps[1:], ins, c)
-}
+// Copyright (C) 2020 Markus L. Noga
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed ins the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package ops
+
+import (
+	"bufio"
+	"bytes"
+	"encoding/json"
+	"errors"
+	"fmt"
+	"io"
+	"os"
+	"path/filepath"
+	"runtime"
+	"strings"
+
+	"github.com/mlnoga/nightlight/internal/fits"
+	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
+	"github.com/pbnjay/memory"
+)
+
+// An execution context for operators
+type Context struct {
+	Log             io.Writer
+	LSEstimatorMode stats.LSEstimatorMode
+	MemoryMB        int // memory.TotalMemory()/1024/1024
+	StackMemoryMB   int // MemoryMB*7/10
+	MaxThreads      int `json:"maxThreads"`
+	DarkFrame       *fits.Image
+	FlatFrame       *fits.Image
+	AlignNaxisn     []int32
+	AlignStars      []star.Star
+	AlignHFR        float32
+	MatchHisto      *stats.Stats
+	RefFrameError   error
+	LumFrame        *fits.Image
+
+	StatsTotal     int
+	StatsProcessed int
+	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
+	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
+}
+
+func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
+	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
+	return &Context{
+		Log:             log,
+		LSEstimatorMode: lsEstimatorMode,
+		MemoryMB:        memoryMB,
+		StackMemoryMB:   stMemory,
+		MaxThreads:      runtime.GOMAXPROCS(0),
+	}
+}
+
+// A promise for a FITS image. Returns a materialized image, or an error
+type Promise func() (f *fits.Image, err error)
+
+// Materializes all promises with given concurrency limit
+func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
+	if len(ins) == 0 {
+		return nil, nil
+	}
+	if !forget {
+		outs = make([]*fits.Image, len(ins))
+	}
+	limiter := make(chan bool, maxThreads)
+	errs := make(chan error, len(ins))
+	for i, in := range ins {
+		limiter <- true
+		go func(i int, theIn Promise) {
+			defer func() { <-limiter }()
+			f, err := theIn() // materialize the promise
+			if err != nil {
+				if !forget {
+					outs[i] = nil
+				}
+				errs <- err
+				return
+			}
+			if !forget {
+				outs[i] = f
+			}
+			errs <- nil
+		}(i, in)
+	}
+	for i := 0; i < cap(limiter); i++ { // wait for goroutines to finish
+		limiter <- true
+	}
+	for i := 0; i < len(ins); i++ { // collect errors
+		e := <-errs
+		if e != nil {
+			if err == nil {
+				err = e
+			} else if err.Error() == e.Error() {
+				// do nothing
+			} else {
+				err = fmt.Errorf("%s; %s", err.Error(), e.Error())
+			}
+		}
+	}
+	return RemoveNils(outs), err
+}
+
+// Remove nils from an array of fits.Images, editing the underlying array in place
+func RemoveNils(lights []*fits.Image) []*fits.Image {
+	o := 0
+	for i := 0; i < len(lights); i += 1 {
+		if lights[i] != nil {
+			lights[o] = lights[i]
+			o += 1
+		}
+	}
+	for i := o; i < len(lights); i++ {
+		lights[i] = nil
+	}
+	return lights[:o]
+}
+
+// An general image processing operator: takes n promises as inputs,
+// and produces m promises as output or an error
+type Operator interface {
+	GetType() string
+	MakePromises(ins []Promise, c *Context) (outs []Promise, err error)
+}
+
+// Base type for operators, including type information for JSON serializing/deserializing
+type OpBase struct {
+	Type string `json:"type"`
+}
+
+func (op *OpBase) GetType() string { return op.Type }
+
+// Factory method for subclasses of unary operators. For JSON serializing/deserializing
+type OperatorFactory func() Operator
+
+// Mapping from unary operator type strings to factory method for the type
+var operatorFactories = map[string]OperatorFactory{}
+
+// Returns the operator factory for a given type string
+func GetOperatorFactory(t string) OperatorFactory {
+	return operatorFactories[t]
+}
+
+// Registers a given type string for a given type of UnaryOperator, identified via an exemplar generator
+func SetOperatorFactory(f OperatorFactory) {
+	op := f()
+	t := op.GetType()
+	if GetOperatorFactory(t) != nil {
+		panic(fmt.Sprintf("error: re-registering operator key %s\n", t))
+	}
+	operatorFactories[t] = f
+}
+
+// A unary image processing operator: given n promises as inputs,
+// applies itself to each of them individually and returns n output promises or an error
+type OperatorUnary interface {
+	Operator
+	Apply(f *fits.Image, c *Context) (fOut *fits.Image, err error)
+}
+
+// Abstract base type for unary operators. Uses golang workaround for abstract classes
+// from https://golangbyexample.com/go-abstract-class/
+type OpUnaryBase struct {
+	OpBase
+	Apply func(f *fits.Image, c *Context) (fOut *fits.Image, err error) `json:"-"`
+	// Careful: copying an OpUnary base as value into a new instance will lead to subsequent
+	// difficult to trace errors, as Apply() will still tie the method receiver to the
+	// address of the original. You must set op.OpUnaryBase.Apply=op.Apply after such a copy
+	// to avoid this error
+}
+
+func (op *OpUnaryBase) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(ins) == 0 {
+		return nil, fmt.Errorf("unary operator with %d inputs", len(ins))
+	}
+	outs = make([]Promise, len(ins))
+	for i, in := range ins {
+		outs[i] = op.MakePromise(in, c)
+	}
+	return outs, nil
+}
+
+func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
+	return func() (f *fits.Image, err error) {
+		if f, err = in(); err != nil {
+			return nil, err
+		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // skip frames dropped by a prior operator
+		if f, err = op.Apply(f, c); err != nil {
+			return nil, err
+		} // apply unary operator
+		return f, nil // wrap output in promise
+	}
+}
+
+// Load a single FITS image from a single filename. Takes zero inputs, produces one output
+type OpLoad struct {
+	OpBase
+	ID       int    `json:"id"`
+	FileName string `json:"fileName"`
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpLoadDefault() }) } // register the operator for JSON decoding
+
+func NewOpLoadDefault() *OpLoad { return NewOpLoad(0, "") }
+
+func NewOpLoad(id int, fileName string) *OpLoad {
+	return &OpLoad{
+		OpBase:   OpBase{Type: "load"},
+		ID:       id,
+		FileName: fileName,
+	}
+}
+
+// Unmarshal the type from JSON with default values for missing entries
+func (op *OpLoad) UnmarshalJSON(data []byte) error {
+	type defaults OpLoad
+	def := defaults(*NewOpLoadDefault())
+	err := json.Unmarshal(data, &def)
+	if err != nil {
+		return err
+	}
+	*op = OpLoad(def)
+	return nil
+}
+
+// Load image from a file. Ignores any f argument provided
+func (op *OpLoad) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(ins) > 0 {
+		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
+	}
+	if !isPathAllowed(op.FileName) {
+		return nil, errors.New("filename outside current directory tree, aborting")
+	}
+
+	out := func() (f *fits.Image, err error) {
+		// no inputs to materialize
+		return op.Apply(nil, c)
+	}
+	return []Promise{out}, nil
+}
+
+// Returns true if a path is considered safe, i.e. not an absolute path,
+// and doesn't contain the ".." characters to change to a parent directory
+func isPathAllowed(p string) bool {
+	if filepath.IsAbs(p) {
+		return false
+	} // relative paths only
+	if strings.Contains(p, "..") {
+		return false
+	} // no going outside the tree
+	return true
+}
+
+func (op *OpLoad) Apply(fUnused *fits.Image, c *Context) (result *fits.Image, err error) {
+	f, err := fits.NewImageFromFile(op.FileName, op.ID, c.Log)
+	if err != nil {
+		return nil, err
+	}
+
+	warning := ""
+	if f.Stats.Max()-f.Stats.Min() < 1e-8 {
+		warning = "; WARNING low dynamic range"
+	}
+
+	fmt.Fprintf(c.Log, "%d: Loaded %s image with %v from %s%s\n",
+		f.ID, f.DimensionsToString(), f.Stats, f.FileName, warning)
+	return f, nil
+}
+
+// Load many FITS images from a slice of filename patterns with wildcards.
+// Takes zero inputs, produces n outputs
+type OpLoadMany struct {
+	OpBase
+	FilePatterns []string `json:"filePatterns"`
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpLoadManyDefault() }) } // register the operator for JSON decoding
+
+func NewOpLoadManyDefault() *OpLoadMany { return NewOpLoadMany(nil) }
+
+func NewOpLoadMany(filePatterns []string) *OpLoadMany {
+	return &OpLoadMany{
+		OpBase:       OpBase{Type: "loadMany"},
+		FilePatterns: filePatterns,
+	}
+}
+
+// Unmarshal the type from JSON with default values for missing entries
+func (op *OpLoadMany) UnmarshalJSON(data []byte) error {
+	type defaults OpLoadMany
+	def := defaults(*NewOpLoadManyDefault())
+	err := json.Unmarshal(data, &def)
+	if err != nil {
+		return err
+	}
+	*op = OpLoadMany(def)
+	return nil
+}
+
+// Turn filename wildcards into list of file load operators
+func (op *OpLoadMany) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(ins) > 0 {
+		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
+	}
+	for _, pattern := range op.FilePatterns {
+		matches, err := filepath.Glob(pattern)
+		if err != nil {
+			return nil, err
+		}
+		for _, match := range matches {
+			if !isPathAllowed(match) {
+				fmt.Fprintf(c.Log, "Pattern match outside current directory tree, skipping\n")
+				continue
+			}
+			opLoad := NewOpLoad(len(outs), match)
+			promises, err := opLoad.MakePromises(nil, c)
+			if err != nil {
+				return nil, err
+			}
+			if len(promises) != 1 {
+				return nil, fmt.Errorf("%s operator did not return exactly one promise", opLoad.Type)
+			}
+			outs = append(outs, promises[0])
+		}
+	}
+	if len(outs) == 0 {
+		return nil, fmt.Errorf("%s operator with no files to load from pattern %v", op.Type, op.FilePatterns)
+	}
+	fmt.Fprintf(c.Log, "Found %d files.\n", len(outs))
+	return outs, nil
+}
+
+// Value range for exporting data to 16-bit TIFF or JPEG
+type ExportMode int
+
+const (
+	EMMinMax ExportMode = iota
+	EM0_1
+	EM0_255
+	EM0_65535
+)
+
+// Saves given promise under a given filename, with pattern expansion for %d based on the image id.
+// Takes one input, produces one output (the materialized but unchanged input)
+type OpSave struct {
+	OpUnaryBase
+	FilePattern string     `json:"filePattern"`
+	ExportMode  ExportMode `json:"saveMode"`
+	Gamma       float32    `json:"gamma"`
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpSaveDefault() }) } // register the operator for JSON decoding
+
+func NewOpSaveDefault() *OpSave { return NewOpSave("", EMMinMax, 1) }
+
+func NewOpSave(filenamePattern string, exportMode ExportMode, gamma float32) *OpSave {
+	op := &OpSave{
+		OpUnaryBase: OpUnaryBase{OpBase: OpBase{Type: "save"}},
+		FilePattern: filenamePattern,
+		ExportMode:  exportMode,
+		Gamma:       gamma,
+	}
+	op.OpUnaryBase.Apply = op.Apply // assign class method to superclass abstract method
+	return op
+}
+
+// Unmarshal the type from JSON with default values for missing entries
+func (op *OpSave) UnmarshalJSON(data []byte) error {
+	type defaults OpSave
+	def := defaults(*NewOpSaveDefault())
+	err := json.Unmarshal(data, &def)
+	if err != nil {
+		return err
+	}
+	*op = OpSave(def)
+	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
+	return nil
+}
+
+func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
+	if op.FilePattern == "" {
+		return f, nil
+	}
+	if f == nil {
+		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
+	}
+	fileName := op.FilePattern
+	if strings.Contains(fileName, "%d") {
+		fileName = fmt.Sprintf(op.FilePattern, f.ID)
+	}
+	fnLower := strings.ToLower(fileName)
+
+	if err != nil {
+		return nil, err
+	}
+	var min, max float32
+	switch op.ExportMode {
+	case EMMinMax:
+		min = f.Stats.Min()
+		max = f.Stats.Max()
+	case EM0_1:
+		min = 0
+		max = 1
+	case EM0_255:
+		min = 0
+		max = 255
+	case EM0_65535:
+		min = 0
+		max = 65535
+	}
+
+	if strings.HasSuffix(fnLower, ".fits") || strings.HasSuffix(fnLower, ".fit") || strings.HasSuffix(fnLower, ".fts") ||
+		strings.HasSuffix(fnLower, ".fits.gz") || strings.HasSuffix(fnLower, ".fit.gz") || strings.HasSuffix(fnLower, ".fts.gz") ||
+		strings.HasSuffix(fnLower, ".fits.gzip") || strings.HasSuffix(fnLower, ".fit.gzip") || strings.HasSuffix(fnLower, ".fts.gzip") {
+		fmt.Fprintf(c.Log, "%d: Writing %s pixel FITS to %s\n", f.ID, f.DimensionsToString(), fileName)
+		err = f.WriteFile(fileName)
+	} else if strings.HasSuffix(fnLower, ".tiff") || strings.HasSuffix(fnLower, ".tif") {
+		if len(f.Naxisn) == 2 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max)
+			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max)
+			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+		} else {
+			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
+		}
+	} else if strings.HasSuffix(fnLower, ".jpeg") || strings.HasSuffix(fnLower, ".jpg") {
+		if len(f.Naxisn) == 2 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
+			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
+			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+		} else {
+			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
+		}
+	} else {
+		err = fmt.Errorf("unknown suffix \"%s\" for file %s", filepath.Ext(fileName), fileName)
+	}
+	if err != nil {
+		return nil, fmt.Errorf("%d: error writing to file %s: %s", f.ID, fileName, err.Error())
+	}
+	return f, nil
+}
+
+// Applies a sequence of operators to a promise. Number of inputs, outputs as per the chained steps
+type OpSequence struct {
+	OpBase
+	Steps    []Operator        `json:"-"`     // the actual steps
+	StepsRaw []json.RawMessage `json:"steps"` // helper for unmarshaling
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpSequenceDefault() }) } // register the operator for JSON decoding
+
+func NewOpSequenceDefault() *OpSequence { return NewOpSequence() }
+
+func NewOpSequence(steps ...Operator) *OpSequence {
+	return &OpSequence{
+		OpBase: OpBase{Type: "seq"},
+		Steps:  steps,
+	}
+}
+
+// Unmarshals a sequence of polymorphic operators from JSON.
+// Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
+func (op *OpSequence) UnmarshalJSON(b []byte) error {
+	type alias OpSequence
+	var tmp alias
+	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return err
+	}
+	op.Type = tmp.Type
+
+	for _, raw := range tmp.StepsRaw {
+		var step OpBase
+		err = json.Unmarshal(raw, &step)
+		if err != nil {
+			return err
+		}
+
+		var i Operator
+		if factory := GetOperatorFactory(step.Type); factory != nil {
+			i = factory()
+		} else {
+			return fmt.Errorf("unknown operator type '%s' in raw JSON message '%s'", step.Type, string(raw))
+		}
+		err = json.Unmarshal(raw, i)
+		if err != nil {
+			return err
+		}
+		op.Steps = append(op.Steps, i)
+	}
+	return nil
+}
+
+// Appends one or more operators to the existing sequence
+func (op *OpSequence) Append(steps ...Operator) {
+	op.Steps = append(op.Steps, steps...)
+}
+
+// Marshals a sequence with polymorphic operators to JSON.
+// Uses the actual op.Steps with label "steps", and ignores op.StepsRaw
+func (op *OpSequence) MarshalJSON() (bs []byte, err error) {
+	buf := bytes.Buffer{}
+	buf.WriteString("{\"type\":")
+	inner, err := json.Marshal(op.Type)
+	if err != nil {
+		return nil, err
+	}
+	buf.Write(inner)
+	fmt.Fprintf(&buf, ", \"steps\":")
+	inner, err = json.Marshal(op.Steps)
+	if err != nil {
+		return nil, err
+	}
+	buf.Write(inner)
+	buf.WriteRune('}')
+	return buf.Bytes(), nil
+}
+
+func (op *OpSequence) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	return op.applyRecursive(op.Steps, ins, c)
+}
+
+func (op *OpSequence) applyRecursive(steps []Operator, ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(steps) == 0 {
+		return ins, nil
+	}
+	ins, err = steps[0].MakePromises(ins, c)
+	if err != nil {
+		return nil, err
+	}
+	return op.applyRecursive(steps[1:], ins, c)
+}
-- 
2.43.0


From 0a3e5025637d0807422b5a3b4c2a520c6b96fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 02/97] fix: apply pure Go 3x3 median filter to images narrower
 than eight pixels

---
 internal/median/median3x3_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..27a0875 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if width >= 8 && cpuid.CPU.AVX2() { // the AVX2 implementation needs full vectors of eight values per line
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
-- 
2.43.0


From fef279224c3eb01ba6ffc7021b9c1a279a385029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 03/97] fix: include trailing values in vectorised min/mean/max
 and variance

---
 internal/stats/stats_amd64.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..550a4d5 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,10 +23,23 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
-        return calcMinMeanMaxAVX2(data)
+    vec := len(data) &^ 3   // the AVX2 implementation only handles whole groups of four values
+    if vec == 0 || !cpuid.CPU.AVX2() {
+        return calcMinMeanMaxPureGo(data)
     }
-    return calcMinMeanMaxPureGo(data)
+    min, mean, max = calcMinMeanMaxAVX2(data[:vec])
+    if vec < len(data) { // combine with the remaining values
+        tmin, tmean, tmax := calcMinMeanMaxPureGo(data[vec:])
+        if tmin < min {
+            min = tmin
+        }
+        if tmax > max {
+            max = tmax
+        }
+        sum := float64(mean)*float64(vec) + float64(tmean)*float64(len(data)-vec)
+        mean = float32(sum / float64(len(data)))
+    }
+    return min, mean, max
 }
 
 // Calculate minimum, mean and maximum of given data. AVX2 implementation
@@ -35,10 +48,16 @@ func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
-		return calcVarianceAVX2(data, mean)
+    vec := len(data) &^ 3   // the AVX2 implementation only handles whole groups of four values
+    if vec == 0 || !cpuid.CPU.AVX2() {
+        return calcVariancePureGo(data, mean)
+    }
+    result = calcVarianceAVX2(data[:vec], mean)
+    if vec < len(data) { // combine with the remaining values
+        tail := calcVariancePureGo(data[vec:], mean)
+        result = (result*float64(vec) + tail*float64(len(data)-vec)) / float64(len(data))
     }
-	return calcVariancePureGo(data, mean)
+    return result
 }
 
 // Calculate variance of given data from provided mean. AVX2 implementation
-- 
2.43.0


From eb541f0bb12a4768d91e878b5a027bd009a54ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 04/97] fix: keep frames at their own position when inputs are
 skipped during reference selection

---
 internal/ops/ref/refframe.go | 62 +++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..44cef3b 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -23,6 +23,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/ops/pre"
 	"github.com/mlnoga/nightlight/internal/qsort"
+	"github.com/mlnoga/nightlight/internal/star"
 	"math"
 	"strconv"
 	"sync"
@@ -44,7 +45,13 @@ type OpSelectReference struct {
 	Mode         string            `json:"mode"`
 	StarDetect   *pre.OpStarDetect `json:"starDetect"`
 	mutex        sync.Mutex        `json:"-"`
-	materialized []*fits.Image     `json:"-"`
+}
+
+// Frames materialized during reference selection, shared by all output promises of one
+// MakePromises call. Index i always refers to input i, with nil for skipped frames
+type selection struct {
+	done         bool
+	materialized []*fits.Image
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -85,29 +92,30 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	}
 
 	outs = make([]ops.Promise, len(ins))
+	sel := &selection{}
 	for i, _ := range ins {
-		outs[i] = op.applySingle(i, ins, c)
+		outs[i] = op.applySingle(i, ins, sel, c)
 	}
 	return outs, nil
 }
 
-func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Context) ops.Promise {
+func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selection, c *ops.Context) ops.Promise {
 	return func() (f *fits.Image, err error) {
 		op.mutex.Lock()             // lock so a single thread accesses the reference frame
 		if c.RefFrameError != nil { // if reference frame detection failed in a prior thread
 			op.mutex.Unlock() // return immediately with the same error
 			return nil, errors.New("same error")
 		}
+		if sel.done { // if the inputs were already materialized to select the reference frame
+			mat := sel.materialized[i]
+			sel.materialized[i] = nil // remove reference to free memory
+			op.mutex.Unlock()
+			return mat, nil
+		}
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
 			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
-				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
-			}
+			return ins[i]()   // ... materializations to be parallelized by the caller
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -150,15 +158,24 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 			return ins[i]()
 		}
 
-		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		// otherwise, materialize the input promises. Store results by input index, as skipped frames must not shift the others
+		materialized := make([]*fits.Image, len(ins))
+		storing := make([]ops.Promise, len(ins))
+		for j := range ins {
+			j := j
+			storing[j] = func() (f *fits.Image, err error) {
+				materialized[j], err = ins[j]()
+				return nil, err
+			}
+		}
+		_, c.RefFrameError = ops.MaterializeAll(storing, c.MaxThreads, true)
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
 
 		// Auto-select mode for (L)RGB
 		if mode == "%rgb" {
-			if len(op.materialized) > 3 {
+			if len(materialized) > 3 {
 				mode, fileID, atoiErr = "3", 3, nil
 			} else {
 				mode = "%starsHFR"
@@ -169,15 +186,15 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		var refScore float32
 		var refFrame *fits.Image
 		if mode == "%starsHFR" {
-			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(op.materialized)
+			refFrame, refScore, c.RefFrameError = selectReferenceStarsOverHFR(materialized)
 		} else if mode == "%location" {
-			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(op.materialized, c)
+			refFrame, refScore, c.RefFrameError = selectReferenceMedianLoc(materialized, c)
 		} else if atoiErr == nil {
-			if fileID < 0 || fileID >= len(op.materialized) {
+			if fileID < 0 || fileID >= len(materialized) {
 				c.RefFrameError = errors.New(fmt.Sprintf("invalid reference file ID %d", fileID))
 				return nil, c.RefFrameError
 			}
-			refFrame = op.materialized[fileID]
+			refFrame = materialized[fileID]
 		} else {
 			c.RefFrameError = errors.New(fmt.Sprintf("Unknown refrence selection mode '%s'", op.Mode))
 		}
@@ -191,8 +208,9 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
+		mat := materialized[i]
+		materialized[i] = nil // remove reference
+		sel.done, sel.materialized = true, materialized
 		return mat, nil
 	}
 }
@@ -201,6 +219,9 @@ func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image)
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
 		c.AlignStars = refFrame.Stars
+		if c.AlignStars == nil { // reference without star detections: mark as selected nonetheless
+			c.AlignStars = []star.Star{}
+		}
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
 		c.MatchHisto = refFrame.Stats
@@ -231,6 +252,9 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	fun := func(f *fits.Image) float32 { return f.Stats.Location() }
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
+	if len(locs) == 0 {
+		return nil, 0, errors.New("Unable to select reference frame with median location")
+	}
 
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
-- 
2.43.0


From a40da8c80608f46565ee3dc88d798b83b56a42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 05/97] fix: recompute the number of batches after reserving
 memory, so that no frames are dropped

---
 internal/ops/stack/stackbatches.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..c624137 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -168,6 +168,9 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		numBatches = (numFrames + batchSize - 1) / batchSize
 		if numBatches > 1 {
 			batchSize -= 2 // reference frame from batch 0, and stack of stacks
+			if batchSize >= 2 {
+				numBatches = (numFrames + batchSize - 1) / batchSize // smaller batches, so more may be needed
+			}
 		}
 		if batchSize < 2 {
 			continue
-- 
2.43.0


From f865f2f428c9ea23a9c48afae805f8f7fb89ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 06/97] fix: handle skipped frames when partitioning into
 batches

---
 internal/ops/stack/stackbatches.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index c624137..e607c98 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -95,6 +95,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 
 		// Update stack of stacks
 		if numBatches > 1 {
+			if batch == nil {
+				return nil, errors.New("stacking a batch returned no image")
+			}
 			stack = StackIncremental(stack, batch, float32(batchFrames))
 			stackFrames += batchFrames
 		} else {
@@ -127,9 +130,15 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 	} else if c.FlatFrame != nil {
 		width, height = int64(c.FlatFrame.Naxisn[0]), int64(c.FlatFrame.Naxisn[1])
 	} else if len(ins) > 0 {
-		first, err := ins[0]()
-		if err != nil {
-			return nil, 0, 0, 0, err
+		var first *fits.Image
+		for i := 0; i < len(ins) && first == nil; i++ { // skipping dropped frames
+			first, err = ins[i]()
+			if err != nil {
+				return nil, 0, 0, 0, err
+			}
+		}
+		if first == nil {
+			return nil, 0, 0, 0, errors.New("No frames to batch process")
 		}
 		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
 		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
-- 
2.43.0


From f9b9328fb6da2109a21b5e537b1a9aadf5267cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 07/97] fix: report an error when stacking no frames, or frames
 of different dimensions

---
 internal/ops/stack/stack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..180e9c5 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -124,6 +124,14 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
 				len(f), mode, op.SigmaLow, op.SigmaHigh)
 
+	// validate frames
+	if len(f)==0 { return nil, errors.New("no frames to stack") }
+	for _, l:=range f {
+		if !fits.EqualInt32Slice(l.Naxisn, f[0].Naxisn) {
+			return nil, errors.New(fmt.Sprintf("%d: frame dimensions %v differ from %v", l.ID, l.Naxisn, f[0].Naxisn))
+		}
+	}
+
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
-- 
2.43.0


From 47bd95c94d4f4c188d48a1f08a2c362886dc5a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 08/97] fix: report an error instead of crashing for MADSigma
 stacking with weights

---
 internal/ops/stack/stack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 180e9c5..ee1b86a 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -121,6 +121,9 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	if mode==StAuto { 
 		mode=autoSelectStackingMode(len(f))
 	}
+	if mode==StMADSigma && op.Weighting!=StWeightNone {
+		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
+	}
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
 				len(f), mode, op.SigmaLow, op.SigmaHigh)
 
-- 
2.43.0


From fdc4d4ebbdd78c59240ab1468003c56fc6bbf6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 09/97] fix: give equal weights to frames of equal noise or HFR

---
 internal/ops/stack/stack.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index ee1b86a..129a27d 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -260,7 +260,10 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise {
+				weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			}
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
@@ -272,7 +275,10 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR {
+				weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			}
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From 8534b02f590515c923b2a3c9eefd6317f379ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 10/97] fix: keep each sample with the weight of its own frame
 in weighted sigma clipping

---
 internal/ops/stack/stack.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 129a27d..60748ee 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -459,6 +459,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	scratchFull :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -501,7 +502,9 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			scratch:=scratchFull[:len(gatheredCur)] // as selection reorders the values, but not their weights
+			copy(scratch, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(scratch)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -770,12 +773,12 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			winsorized:=winsorizedFull[0:len(gatheredCur)]
+			copy(winsorized, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(winsorized) // on the copy, as selection reorders the values, but not their weights
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-			winsorized:=winsorizedFull[0:len(gatheredCur)]
-			copy(winsorized, gatheredCur)
 			for {
 				// replace outliers with low/high bound
 				lowBound :=median - 1.5*stdDev
-- 
2.43.0


From 97b84236049813f823ac0414b4ccf0ae605c123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 11/97] fix: return the only surviving sample if sigma clipping
 rejects all others

---
 internal/ops/stack/stack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 60748ee..ef3c958 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -442,6 +442,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
+				if len(gatheredCur)==1 { mean=gatheredCur[0] } // the only survivor
 				res[i]=mean
             	break
             }
@@ -712,6 +713,7 @@ func StackWinsorSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh f
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
+				if len(gatheredCur)==1 { mean=gatheredCur[0] } // the only survivor
 				res[i]=mean
             	break
             }
-- 
2.43.0


From db487872851c6b7d216450a37770bf4d3f50f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 12/97] fix: read FITS data in full chunks, independent of how
 the reader delivers bytes

---
 internal/fits/read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..a3c0408 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -184,7 +184,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[:bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[:bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -224,7 +224,7 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -270,7 +270,7 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -316,7 +316,7 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -363,7 +363,7 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -410,7 +410,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
-- 
2.43.0


From 4338c376dc859f067a6a2f6a50c3d128c3ba009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 13/97] fix: report FITS files with invalid or no image
 dimensions as errors instead of crashing

---
 internal/fits/read.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index a3c0408..62704e5 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -110,17 +110,26 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 0 || naxis > 999 {
+		return fmt.Errorf("%d: Invalid number of axes %d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
-	fits.Pixels = int32(1)
+	pixels := int64(1)
 	for i := int32(1); i <= naxis; i++ {
 		name := "NAXIS" + strconv.FormatInt(int64(i), 10)
 		var nai int32
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 0 {
+			return fmt.Errorf("%d: Invalid size %d of axis %d", fits.ID, nai, i)
+		}
 		fits.Naxisn[i-1] = nai
-		fits.Pixels *= int32(nai)
+		if pixels *= int64(nai); pixels > math.MaxInt32 {
+			return fmt.Errorf("%d: Image too large", fits.ID)
+		}
 	}
+	fits.Pixels = int32(pixels)
 
 	// check key optional fields relevant for stacking and image processing
 	if fits.Bzero, err = fits.PopHeaderInt32OrFloat("BZERO"); err != nil {
@@ -138,6 +147,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if !readData {
 		return nil
 	}
+	if naxis == 0 || fits.Pixels == 0 {
+		return fmt.Errorf("%d: FITS file contains no image data", fits.ID)
+	}
 	return fits.readData(f, logWriter)
 }
 
-- 
2.43.0


From 0ce549ada3a5a8dc373af30f9f66acd4ae7a87a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 14/97] fix: append FITS comments to the comments instead of
 overwriting them with the history

---
 internal/fits/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 62704e5..649a6cd 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -491,7 +491,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('H'): // history line
 				h.History = append(h.History, string(subValues[i]))
 			case byte('C'): // comment line
-				h.Comments = append(h.History, string(subValues[i]))
+				h.Comments = append(h.Comments, string(subValues[i]))
 			case byte('k'): // key
 				key = string(subValues[i])
 			case byte('b'): // boolean
-- 
2.43.0


From ece7764b2a279390c30b90dd3360e8e97d2ad5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 15/97] fix: read FITS floats with double precision exponents
 or without decimal point

---
 internal/fits/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 649a6cd..6152b47 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -505,7 +505,8 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Ints[key] = int32(val)
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				text := strings.NewReplacer("D", "E", "d", "e").Replace(string(subValues[i])) // double precision exponents
+				val, err := strconv.ParseFloat(text, 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -554,7 +555,7 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EeDd][-+]?[0-9]+)?)"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From 17e93c0168cd4ebfc8cbe167ab49505550c5c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 16/97] fix: do not truncate FITS header integers outside 32
 bits, like BZERO of unsigned 32 bit data

---
 internal/fits/read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 6152b47..c1d347a 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -500,9 +500,11 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Bools[key] = v == byte('t') || v == byte('T')
 				}
 			case byte('i'): // int
-				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
+				val, err := strconv.ParseInt(string(subValues[i]), 10, 32)
 				if err == nil {
 					h.Ints[key] = int32(val)
+				} else if val, err := strconv.ParseFloat(string(subValues[i]), 64); err == nil {
+					h.Floats[key] = float32(val) // e.g. BZERO for unsigned 32 and 64 bit data
 				}
 			case byte('f'): // float
 				text := strings.NewReplacer("D", "E", "d", "e").Replace(string(subValues[i])) // double precision exponents
-- 
2.43.0


From e43729c3395c2eba00a644f0560ceac86e8f3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 17/97] fix: read quotes and continuations in FITS header
 strings

---
 internal/fits/read.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index c1d347a..4c35ff5 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -456,6 +456,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 
 func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 	buf := make([]byte, fitsBlockSize)
+	stringKey := "" // key of the string on the previous line, if any
 
 	for h.Length = 0; !h.End; {
 		// read next header unit
@@ -471,16 +472,19 @@ func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 			subValues := reParser.FindSubmatch(line)
 			if subValues == nil {
 				fmt.Fprintf(logWriter, "%d: Warning:Cannot parse '%s', ignoring\n", id, string(line))
+				stringKey = ""
 			} else {
 				subNames := reParser.SubexpNames()
-				h.readLine(subNames, subValues, id, lineNo, logWriter)
+				stringKey = h.readLine(subNames, subValues, stringKey, id, lineNo, logWriter)
 			}
 		}
 	}
 	return nil
 }
 
-func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int, logWriter io.Writer) {
+// Reads a header line. The line may continue the string with key contKey from the previous line, if any.
+// Returns the key if this line is a string itself
+func (h *Header) readLine(subNames []string, subValues [][]byte, contKey string, id, lineNo int, logWriter io.Writer) (stringKey string) {
 	key := ""
 	// ignore index 0 which is the whole line
 	for i := 1; i < len(subNames); i++ {
@@ -513,7 +517,13 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = strings.ReplaceAll(string(subValues[i]), "''", "'")
+				stringKey = key
+			case byte('n'): // continuation of the string on the previous line
+				if prev := h.Strings[contKey]; contKey != "" && strings.HasSuffix(prev, "&") {
+					h.Strings[contKey] = prev[:len(prev)-1] + strings.ReplaceAll(string(subValues[i]), "''", "'")
+					stringKey = contKey
+				}
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -523,6 +533,7 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			}
 		}
 	}
+	return stringKey
 }
 
 func (h *Header) Print() {
@@ -558,17 +569,18 @@ func compileRE() *regexp.Regexp {
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
 	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EeDd][-+]?[0-9]+)?)"
-	stri := "'(?P<s>[^']*)'"
+	stri := "'(?P<s>(?:[^']|'')*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-	// missing: CONTINUE for strings
 	// missing: complex int: (nr, nr)
 	// missing: complex float: (nr, nr)
 
 	commOpt := "(?:/(?P<c>.*))?"
+	contLine := "CONTINUE" + white + "'(?P<n>(?:[^']|'')*)'" + whiteOpt + commOpt
+
 	keyLine := key + whiteOpt + equals + whiteOpt + val + whiteOpt + commOpt
 
-	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + endLine + ")$"
+	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + contLine + "|" + keyLine + "|" + endLine + ")$"
 	return regexp.MustCompile(lineRe)
 }
-- 
2.43.0


From a8a42893b6ef2a36bdf906438f72d5bbfd5cc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 18/97] fix: do not break escaped quotes when splitting FITS
 header strings

---
 internal/fits/write.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..51934d3 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -156,21 +156,30 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
 
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		n:=escapedPrefix(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, value[:n], strings.Repeat(" ", 17-n), comment)
+		value=value[n:]
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			n=escapedPrefix(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&'%s ", value[:n], strings.Repeat(" ", 66-n))
+			value=value[n:]
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
+// Returns the length of the longest prefix of at most n characters of the escaped string
+// which does not break an escaped '' character in two
+func escapedPrefix(value string, n int) int {
+	quotes:=0
+	for quotes<n && value[n-1-quotes]=='\'' { quotes++ }
+	return n-(quotes&1)
+}
+
 
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
-- 
2.43.0


From 20a82120d5a14a1c309d97e736cb840bba41a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 19/97] fix: write FITS comments and history, and write string
 entries only once

---
 internal/fits/write.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 51934d3..3e5e8dc 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,9 +94,19 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
-	// FIXME: ignoring h.Comments and h.History for now
+	for _,v:=range(h.Comments) { writeCommentary(w, "COMMENT", v) }
+	for _,v:=range(h.History ) { writeCommentary(w, "HISTORY", v) }
+}
+
+// Writes FITS header commentary, using several lines if necessary
+func writeCommentary(w io.Writer, key, value string) {
+	value=strings.TrimRight(value, " ")
+	for ; len(value)>71 ; {
+		fmt.Fprintf(w, "%-8s %s", key, value[:71])
+		value=value[71:]
+	}
+	fmt.Fprintf(w, "%-8s %-71s", key, value)
 }
 
 // Writes a FITS header boolean value 
-- 
2.43.0


From daca64de6b485b2a7a0555141a7fe38c8f4ae731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 20/97] fix: write FITS floats so that they read back as
 floats, with upper case exponent

---
 internal/fits/write.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 3e5e8dc..367fc17 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -23,6 +23,7 @@ import (
 	"math"
 	"os"
 	"path"
+	"strconv"
 	"strings"
 )
 
@@ -147,7 +148,7 @@ func writeInt64(w io.Writer, key string, value int64, comment string) {
 func writeFloat32(w io.Writer, key string, value float32, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20s / %-47s", key, formatFloat(float64(value), 32), comment)
 }
 
 
@@ -155,7 +156,17 @@ func writeFloat32(w io.Writer, key string, value float32, comment string) {
 func writeFloat64(w io.Writer, key string, value float64, comment string) {
 	if len(key)>8 { key=key[0:8] }
 	if len(comment)>47 { comment=comment[0:47] }
-	fmt.Fprintf(w, "%-8s= %20g / %-47s", key, value, comment)
+	fmt.Fprintf(w, "%-8s= %20s / %-47s", key, formatFloat(value, 64), comment)
+}
+
+// Formats a floating point value with upper case exponent, and with a decimal point to distinguish it from an integer
+func formatFloat(value float64, bitSize int) string {
+	mantissa, exponent:=strconv.FormatFloat(value, 'G', -1, bitSize), ""
+	if pos:=strings.IndexByte(mantissa, 'E'); pos>=0 {
+		mantissa, exponent=mantissa[:pos], mantissa[pos:]
+	}
+	if !strings.Contains(mantissa, ".") { mantissa+=".0" }
+	return mantissa+exponent
 }
 
 
-- 
2.43.0


From 9bf6a9859a442252ac7bcab4370e92fea6d3e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 21/97] fix: truncate existing FITS files when overwriting
 them, and report errors closing files

---
 internal/fits/write.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 367fc17..a8e6759 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -30,11 +30,13 @@ import (
 // Writes an in-memory FITS image to a file with given filename.
 // Creates/overwrites the file if necessary.
 // Compresses with gzip if .gz or gzip suffix is present.
-func (fits *Image) WriteFile(fileName string) error {
+func (fits *Image) WriteFile(fileName string) (err error) {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
-	defer f.Close()
+	defer func() {
+		if cerr:=f.Close(); err==nil { err=cerr }
+	}()
 
 	var w io.Writer=f
 
@@ -43,7 +45,9 @@ func (fits *Image) WriteFile(fileName string) error {
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
+		defer func() {
+			if cerr:=gw.Close(); err==nil { err=cerr }
+		}()
 		w=gw
 	} 
 
-- 
2.43.0


From 69f900b47c5259f898f1ad390c29acc939ca5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 22/97] fix: keep cached statistics valid when scaling with a
 negative factor

---
 internal/stats/stats.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..4e176a4 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -91,11 +91,15 @@ func (s *Stats) Clear() {
 func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
+	if multiplier < 0 { // value order is reversed
+		s.min, s.max = s.max, s.min
+	}
 	s.mean = s.mean*multiplier + offset
-	s.stdDev = s.stdDev * multiplier
 	s.location = s.location*multiplier + offset
-	s.scale = s.scale * multiplier
-	s.noise = s.noise * multiplier
+	absMultiplier := float32(math.Abs(float64(multiplier)))
+	s.stdDev = s.stdDev * absMultiplier
+	s.scale = s.scale * absMultiplier
+	s.noise = s.noise * absMultiplier
 }
 
 func (s *Stats) Min() float32 {
-- 
2.43.0


From 418a46698623ffef234fcdaf49670b5a096a01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 23/97] fix: renew statistics after debayering

---
 internal/ops/pre/preprocess.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..9a8fae9 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -243,6 +244,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
-- 
2.43.0


From 591fe62fdfef267b3d513c1b3b690826ce16871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 24/97] fix: invalidate cached statistics after removing bad
 pixels

---
 internal/ops/pre/preprocess.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 9a8fae9..c61068d 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -182,6 +182,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 	if op.SigmaLow == 0 || op.SigmaHigh == 0 {
 		return f, nil
 	}
+	defer f.Stats.Clear()
 
 	if op.Debayer == nil || op.Debayer.Channel == "" {
 		var bpm []int32
-- 
2.43.0


From 09def85955693f7941857f89c7f75b33aec17ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 25/97] fix: renew statistics after gaussian blur and unsharp
 masking

---
 internal/ops/stretch/stretch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..195229c 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -372,6 +372,7 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
 
@@ -420,5 +421,6 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From f54c6f8d701dd314576b748db905e112821588bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 26/97] fix: invalidate cached statistics after replacing or
 sharpening luminance

---
 internal/fits/rgb.go    | 1 +
 internal/ops/hsl/hsl.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..a4c5779 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -84,6 +84,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	l:=len(hsl.Data)/3
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
+	hsl.Stats.Clear()
 	hsl.Exposure+=lum.Exposure
 }
 
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
-- 
2.43.0


From e7d6fd01e0b6f788cbc7140e97dc7b78d73ec18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 27/97] fix: estimate noise from the valid pixels of frames
 with missing data

---
 internal/stats/noise.go       | 9 +++++++--
 internal/stats/noise_amd64.go | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/stats/noise.go b/internal/stats/noise.go
index 730f043..d3fa296 100644
--- a/internal/stats/noise.go
+++ b/internal/stats/noise.go
@@ -38,6 +38,7 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
 
     height:=int32(len(data))/width
     sum:=float32(0)
+    count:=0
     for y:=int32(1); y<height-1; y++ {
         rowSum:=float32(0)
     	for x:=int32(1); x<width-1; x++ {
@@ -46,10 +47,14 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
 	    	for j,o:=range enOffsets {
 				conv+=data[i+o]*enWeights[j]
 	    	}
-	    	rowSum+=float32(math.Abs(float64(conv)))
+	    	if !math.IsNaN(float64(conv)) {  // skip missing data, e.g. outside of aligned frames
+		    	rowSum+=float32(math.Abs(float64(conv)))
+		    	count++
+	    	}
 	    }
         sum+=rowSum
     }
-    factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * float32(width-2) * float32(height - 2))
+    if count==0 { return 0 }
+    factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * float32(count))
     return sum*factor
 }
diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..ede20a8 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -26,7 +26,8 @@ import (
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
     if cpuid.CPU.AVX2() {
-        return estimateNoiseAVX2(data, width)
+        noise:=estimateNoiseAVX2(data, width)
+        if !math.IsNaN(float64(noise)) { return noise }  // else data is missing or image too small
     }
     return estimateNoisePureGo(data,width)
 }
-- 
2.43.0


From fd5146a44c3c2bf888cfd943f17a235dedad09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 28/97] fix: avoid crash and endless loop estimating location
 and scale of small or bimodal images

---
 internal/stats/stats.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 4e176a4..ed4a3d1 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -439,6 +439,9 @@ func FastApproxBoundedMAD(data []float32, location float32, lowBound, highBound
 // Sampling approach appears to be mine
 func FastApproxQn(data []float32, samples []float32) float32 {
 	max := uint32(len(data))
+	if max < 2 {
+		return 0
+	}
 	rng := fastrand.RNG{}
 	for i := range samples {
 		index1 := 1 + rng.Uint32n(max-1)
@@ -475,6 +478,20 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	return qn
 }
 
+// Tells if the data has enough values within the given bounds for sampling from those
+func enoughInBounds(data []float32, lowBound, highBound float32) bool {
+	missing := 2 + len(data)/16
+	for _, d := range data {
+		if d >= lowBound && d <= highBound {
+			missing--
+			if missing == 0 {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // Returns a rapid robust estimation of location and scale. Uses a fast approximate median based on randomized sampling,
 // iteratively sigma clipped with a fast approximate Qn based on random sampling. Exits once the absolute change in
 // location and scale is below epsilon.
@@ -486,6 +503,9 @@ func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float
 	for i := 0; ; i++ {
 		lowBound := location - sigmaLow*scale
 		highBound := location + sigmaLow*scale
+		if !enoughInBounds(data, lowBound, highBound) { // sampling would not terminate
+			return location, scale
+		}
 
 		newLocation := FastApproxBoundedMedian(data, lowBound, highBound, samples) // sampling
 		newScale := FastApproxBoundedQn(data, lowBound, highBound, samples)        // sampling
-- 
2.43.0


From d9f578e5ed7b97e39aa548976b49c61b03e95781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 29/97] fix: keep histogram reference independent of further
 processing of the reference frame

---
 internal/ops/ref/refframe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 44cef3b..6b71b37 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -224,7 +224,11 @@ func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image)
 		}
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		// take a snapshot, as the reference frame itself gets processed further
+		refFrame.Stats.Location()
+		refStats := *refFrame.Stats
+		refStats.FreeData()
+		c.MatchHisto = &refStats
 	} else {
 		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
 	}
-- 
2.43.0


From ef77d9359cc51b603ffd4a6cb0c1d0dbe205f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 30/97] fix: complete statistics report for any number of
 frames, with or without batches

---
 internal/ops/operator.go           |  7 +---
 internal/ops/ref/exportstats.go    | 54 +++++++++++++++++-------------
 internal/ops/stack/stackbatches.go |  3 +-
 3 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index fff72c2..2caacf6 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -16,13 +16,11 @@
 package ops
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"os"
 	"path/filepath"
 	"runtime"
 	"strings"
@@ -49,10 +47,7 @@ type Context struct {
 	RefFrameError   error
 	LumFrame        *fits.Image
 
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
+	StatsSession int // increased to restart exported statistics
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..d27652c 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -16,7 +16,6 @@
 package ref
 
 import (
-	"bufio"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -32,6 +31,9 @@ type OpExportStats struct {
 	mutex        sync.Mutex    `json:"-"`
 	materialized []*fits.Image `json:"-"`
 	opError      error         `json:"-"`
+	context      *ops.Context  `json:"-"` // context and session the file was last written for
+	session      int           `json:"-"`
+	offset       int64         `json:"-"` // where to append the next frame in the file
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -70,16 +72,16 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	defer op.mutex.Unlock() // always release lock on exit
 
 	// write stats
-	if c.StatsProcessed == 0 {
+	if op.context != c || op.session != c.StatsSession {
 		err = op.writeHeader(c)
 		if err != nil {
 			return nil, err
 		}
+		op.context, op.session = c, c.StatsSession
 	}
-	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
+	err = op.writeStats(f, c)
+	if err != nil {
+		return nil, err
 	}
 
 	return f, nil
@@ -87,33 +89,39 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 
 func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
+	file, err := os.Create(op.FileName)
 	if err != nil {
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
-
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
+	file.Close()
+	op.offset = 0
 
-	return nil
+	return op.write(sessionStatsHeader + "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
 }
 
-func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
+func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
-		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
+	return op.write(fmt.Sprintf("  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR))
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
-	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
-	c.StatsBufWriter = nil
-	c.StatsFile.Close()
-	c.StatsFile = nil
+// Appends text to the file, overwriting the previous footer with the text and a new footer.
+// So the file is complete after each frame, regardless of how many frames are to come
+func (op *OpExportStats) write(text string) (err error) {
+	file, err := os.OpenFile(op.FileName, os.O_WRONLY, 0666)
+	if err != nil {
+		return fmt.Errorf("error opening file %s: %s", op.FileName, err.Error())
+	}
+	_, err = file.WriteAt([]byte(text+"]"+sessionStatsTrailer), op.offset)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return fmt.Errorf("error writing file %s: %s", op.FileName, err.Error())
+	}
+	op.offset += int64(len(text))
+	return nil
 }
 
 const sessionStatsHeader = `<html>
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index e607c98..6e13cc6 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -60,8 +60,7 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		return nil, err
 	}
 	c.MaxThreads = int(maxThreads)
-	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
+	c.StatsSession++
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From bc7ec4c7107d3c0390adfabe80116c1177227372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 31/97] fix: report differing dark and flat dimensions for
 every frame, not just the first

---
 internal/ops/pre/preprocess.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index c61068d..3c4bb56 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -127,19 +127,21 @@ func (op *OpCalibrate) init(c *ops.Context) error {
 		return err
 	}
 
+	dark, flat := c.DarkFrame, c.FlatFrame
 	if op.Dark != "" {
-		c.DarkFrame = images[0]
+		dark = images[0]
 		if op.Flat != "" {
-			c.FlatFrame = images[1]
+			flat = images[1]
 		}
 	} else if op.Flat != "" {
-		c.FlatFrame = images[0]
+		flat = images[0]
 	}
 
-	if c.DarkFrame != nil && c.FlatFrame != nil && !fits.EqualInt32Slice(c.DarkFrame.Naxisn, c.FlatFrame.Naxisn) {
+	if dark != nil && flat != nil && !fits.EqualInt32Slice(dark.Naxisn, flat.Naxisn) {
 		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
-			c.DarkFrame.Naxisn, c.FlatFrame.Naxisn)
+			dark.Naxisn, flat.Naxisn)
 	}
+	c.DarkFrame, c.FlatFrame = dark, flat
 	return nil
 }
 
-- 
2.43.0


From 54d45838d5c7b1f7afa3531b607de194cbd335d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 32/97] fix: keep the mosaic settings of cosmetic correction in
 JSON job descriptions

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 3c4bb56..e6edb6c 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -149,7 +149,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From e501877f55d00f1e2d9478e630087593c8fd654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:33 +0000
Subject: [PATCH 33/97] fix: encode sequences passed by value as JSON, and
 decode sequences with default type and without prior steps

---
 internal/ops/operator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 2caacf6..7926086 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -481,12 +481,13 @@ func NewOpSequence(steps ...Operator) *OpSequence {
 // Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
 func (op *OpSequence) UnmarshalJSON(b []byte) error {
 	type alias OpSequence
-	var tmp alias
+	tmp := alias(*NewOpSequenceDefault())
 	err := json.Unmarshal(b, &tmp)
 	if err != nil {
 		return err
 	}
 	op.Type = tmp.Type
+	op.Steps = nil // replace prior steps, if any
 
 	for _, raw := range tmp.StepsRaw {
 		var step OpBase
@@ -517,7 +518,7 @@ func (op *OpSequence) Append(steps ...Operator) {
 
 // Marshals a sequence with polymorphic operators to JSON.
 // Uses the actual op.Steps with label "steps", and ignores op.StepsRaw
-func (op *OpSequence) MarshalJSON() (bs []byte, err error) {
+func (op OpSequence) MarshalJSON() (bs []byte, err error) {
 	buf := bytes.Buffer{}
 	buf.WriteString("{\"type\":")
 	inner, err := json.Marshal(op.Type)
-- 
2.43.0


From 576376edfc642fe1963bade5c9afdc2ed5d25cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 34/97] fix: median of a neighborhood reaching beyond the data
 uses the gathered values only

---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From a8325f5b80e5810219c2b539802ffa3bb9242a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 35/97] fix: detect the same stars every time, and sample
 enough pixels on small images

---
 internal/star/findstars.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..9e19186 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -139,8 +139,10 @@ func rejectBadPixels(stars []Star, data []float32, width int32, sigma float32, m
 	if medianDiffStats==nil {
 		// Estimate standard deviation of pixels from local neighborhood median based on random 1% of pixels
 		numSamples:=len(data)/100
+		if numSamples<100 { numSamples=100 }
 		samples:=make([]float32,numSamples)
 		rng:=fastrand.RNG{}
+		rng.Seed(1) // sample the same pixels every time, so the same image always yields the same stars
 		for i:=0; i<numSamples; i++ {
 			index:=int32(rng.Uint32n(uint32(len(data))))
 			median :=median.GatherAndMedian(data, index, mask, buffer)
-- 
2.43.0


From 5a8fdb34f6fe75222354a18e65b64039fcd094be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 36/97] fix: keep the center of mass of stars near the edge
 within the image, and round it consistently

---
 internal/star/findstars.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 9e19186..768a118 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -287,10 +287,11 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			for y:=-radius; y<=radius; y++ {
 				for x:=-radius; x<=radius; x++ {
 					index:=s.Index+y*int32(width)+x
+					col:=s.Index%width+x
 					value:=float32(0)
-					if index>=0 && int(index)<len(data) {
+					if index>=0 && int(index)<len(data) && col>=0 && col<width {
 						value=data[index]-threshold
-						if value<0 { value=0 }
+						if !(value>0) { value=0 }
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
@@ -310,7 +311,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
-			index:=s.Index + width*int32(deltaY+0.5)+int32(deltaX+0.5)
+			index:=s.Index + width*int32(math.Floor(float64(deltaY)+0.5))+int32(math.Floor(float64(deltaX)+0.5))
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
 				value=float32(data[index])
-- 
2.43.0


From 6dd49ca4ce2038c9c15da9fb9624d0deb59d5c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:55 +0000
Subject: [PATCH 37/97] fix: do not count light from the opposite edge in star
 mass and half-flux radius

---
 internal/star/findstars.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 768a118..d72af32 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -343,8 +343,9 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				distance:=float32(math.Sqrt(float64(distSq)))
 
 				index:=s.Index+y*width+x
+				col:=s.Index%width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if index>=0 && index<int32(len(data)) && col>=0 && col<width {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
@@ -369,8 +370,9 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				if distSq>distSqLimit { continue }
 
 				index:=s.Index+y*width+x
+				col:=s.Index%width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if index>=0 && index<int32(len(data)) && col>=0 && col<width {
 					v:=data[index]-location
 					if v>0 { value=v }
 				}
-- 
2.43.0


From 8fae9f7d61fcf87e43715ce6c69234eca60735ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:56 +0000
Subject: [PATCH 38/97] fix: list detected stars by decreasing final mass

---
 internal/star/findstars.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index d72af32..d34a9d9 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -83,6 +83,7 @@ func FindStars(data []float32, width int32, location, scale, starSig, bpSigma, s
 
 	// remove implausible stars based on HFR and mass
 	stars, avgHFR=calcAndFilterHalfFluxRadius(stars, data, width, float32(radius), location, starInOut)
+	QSortStarsDesc(stars) // masses have changed, and alignment relies on the brightest stars coming first
 	//LogPrintf("%d (%.2g%%) stars left after HFR calc, avg HFR %.2g\n", len(stars), (100.0*float32(len(stars))/float32(len(data))), avgHFR)
 
 	// maxIndex:=10
-- 
2.43.0


From c898ea7c5b5a0ab573c40f24f395f4bf4386473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 39/97] fix: give frames without detected stars the lowest HFR
 weight instead of NaN

---
 internal/ops/stack/stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index ef3c958..69ad9b9 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -279,6 +279,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 			if maxHFR>minHFR {
 				weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
 			}
+			if math.IsNaN(float64(f[i].HFR)) { weights[i]=0.2 } // no stars found, use the lowest weight
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From 6b2a41acd4f998c613b5e6b44814953178a53ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 40/97] fix: projection uses the last row and column, and only
 pixels with weight

---
 internal/fits/project.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..7352b87 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -48,6 +48,12 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			xl, yl := int32(math.Floor(float64(proj.X))), int32(math.Floor(float64(proj.Y)))
 			xh, yh := xl+1, yl+1
 			xr, yr := proj.X-float32(xl), proj.Y-float32(yl)
+			if xr == 0 {
+				xh = xl // exactly on a column, the next one has no weight and need not exist
+			}
+			if yr == 0 {
+				yh = yl // exactly on a row, the next one has no weight and need not exist
+			}
 
 			if xl < 0 || xh >= origWidth || yl < 0 || yh >= img.Naxisn[1] {
 				// Replace out of bounds values with not a number.
@@ -61,9 +67,9 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			}
 
 			xlyl := xl + yl*origWidth
-			xhyl := xlyl + 1         // xh+yl*origWidth
-			xlyh := xlyl + origWidth // xl+yh*origWidth
-			xhyh := xhyl + origWidth // xh+yh*origWidth
+			xhyl := xh + yl*origWidth
+			xlyh := xl + yh*origWidth
+			xhyh := xh + yh*origWidth
 
 			vyl := d[xlyl]*(1-xr) + d[xhyl]*xr
 			vyh := d[xlyh]*(1-xr) + d[xhyh]*xr
-- 
2.43.0


From d2a1b7f84c553f30e8c22a00eea49430a2b8b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 41/97] fix: projected frames keep their HFR for weighting, and
 their file name and transformation

---
 internal/fits/project.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 7352b87..5ba4d4b 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -33,7 +33,7 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	// Create new FITS image for the result
 	destWidth := destNaxisn[0]
 	res = NewImageFromNaxisn(destNaxisn, nil)
-	res.ID, res.Exposure = img.ID, img.Exposure
+	res.ID, res.FileName, res.Exposure, res.HFR, res.Trans, res.Residual = img.ID, img.FileName, img.Exposure, img.HFR, img.Trans, img.Residual
 
 	// Resample image from the target coordinate system PoV
 	d := img.Data
-- 
2.43.0


From aefbc7f9c65ba285cbe620666dde41ea94f0e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 42/97] fix: projection covers all color planes of a frame

---
 internal/fits/project.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 5ba4d4b..f83c333 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -32,12 +32,15 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 
 	// Create new FITS image for the result
 	destWidth := destNaxisn[0]
-	res = NewImageFromNaxisn(destNaxisn, nil)
+	resNaxisn := append([]int32{destNaxisn[0], destNaxisn[1]}, img.Naxisn[2:]...) // keep color planes of the source
+	res = NewImageFromNaxisn(resNaxisn, nil)
 	res.ID, res.FileName, res.Exposure, res.HFR, res.Trans, res.Residual = img.ID, img.FileName, img.Exposure, img.HFR, img.Trans, img.Residual
 
 	// Resample image from the target coordinate system PoV
 	d := img.Data
 	origWidth := img.Naxisn[0]
+	origPlane := origWidth * img.Naxisn[1]
+	destPlane := destWidth * destNaxisn[1]
 
 	for row := int32(0); row < destNaxisn[1]; row++ {
 		for col := int32(0); col < destWidth; col++ {
@@ -62,7 +65,9 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 				// all partitioning and sorting-based operations
 				// like median, because IEEE NaN does not compare
 				// equal to itself.
-				res.Data[col+row*destWidth] = outOfBounds
+				for dest := col + row*destWidth; dest < res.Pixels; dest += destPlane {
+					res.Data[dest] = outOfBounds
+				}
 				continue
 			}
 
@@ -71,11 +76,15 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 			xlyh := xl + yh*origWidth
 			xhyh := xh + yh*origWidth
 
-			vyl := d[xlyl]*(1-xr) + d[xhyl]*xr
-			vyh := d[xlyh]*(1-xr) + d[xhyh]*xr
-			v := vyl*(1-yr) + vyh*yr
+			src := int32(0) // offset of the source plane
+			for dest := col + row*destWidth; dest < res.Pixels; dest += destPlane {
+				vyl := d[src+xlyl]*(1-xr) + d[src+xhyl]*xr
+				vyh := d[src+xlyh]*(1-xr) + d[src+xhyh]*xr
+				v := vyl*(1-yr) + vyh*yr
 
-			res.Data[col+row*destWidth] = v
+				res.Data[dest] = v
+				src += origPlane
+			}
 		}
 	}
 	return res, nil
-- 
2.43.0


From 62a70f6616e98a3bbf67df88991bdebc787ae83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 43/97] fix: transformations from three points on a common row,
 errors for collinear points

---
 internal/star/coord.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/star/coord.go b/internal/star/coord.go
index 9c69bc2..3d8bd8d 100644
--- a/internal/star/coord.go
+++ b/internal/star/coord.go
@@ -119,20 +119,24 @@ func NewTransform2D(p1, p2, p3, p1p, p2p, p3p Point2D) (Transform2D, error) {
 	a:=( (p3p.X-p1p.X)*(p2.Y-p1.Y) - (p2p.X-p1p.X)*(p3.Y-p1.Y) ) /
 	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
 
-	b:=( (p2p.X-p1p.X) - a*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	b:=( (p2p.X-p1p.X)*(p3.X-p1.X) - (p3p.X-p1p.X)*(p2.X-p1.X) ) /
+	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
 
 	c:=p1p.X - a*p1.X - b*p1.Y
 
 	d:=( (p3p.Y-p1p.Y)*(p2.Y-p1.Y) - (p2p.Y-p1p.Y)*(p3.Y-p1.Y) ) /
 	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
 
-	e:=( (p2p.Y-p1p.Y) - d*(p2.X-p1.X) ) / (p2.Y-p1.Y)
+	e:=( (p2p.Y-p1p.Y)*(p3.X-p1.X) - (p3p.Y-p1p.Y)*(p2.X-p1.X) ) /
+	   ( (p2 .Y-p1 .Y)*(p3.X-p1.X) - (p2 .X-p1 .X)*(p3.Y-p1.Y) )
 
 	f:=p1p.Y - d*p1.X - e*p1.Y   
 
-	if math.IsInf(float64(a),0) || math.IsInf(float64(b),0) || math.IsInf(float64(d),0) || math.IsInf(float64(e),0) {
-		return Transform2D{}, errors.New("divide by zero")
-	} 
+	for _, v:=range([]float32{a,b,c,d,e,f}) {
+		if math.IsInf(float64(v),0) || math.IsNaN(float64(v)) {
+			return Transform2D{}, errors.New("divide by zero")
+		}
+	}
 	return Transform2D{a,b,c,d,e,f}, nil
 }
 
-- 
2.43.0


From c62f8d4d44af4c11f7654b9478bc48606f10db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 44/97] fix: aligning to a reference without triangles finds no
 match instead of crashing

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..efb5931 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -132,6 +132,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil } // reference has too few stars for triangles
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From c794d17efe78d9427361aec91d7d60e42571d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 45/97] fix: align with reference location fill reports a
 missing histogram reference

---
 internal/ops/post/postprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..492bb10 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -167,6 +167,9 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
+			if c.MatchHisto == nil {
+				return nil, errors.New("missing histogram reference")
+			}
 			outOfBounds = c.MatchHisto.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
-- 
2.43.0


From 50e89dc29a1da067975559aecd61b00107b102a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 46/97] fix: cosmetic correction of mosaic data includes the
 first row and column

---
 internal/ops/pre/badpixels_bayer.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/internal/ops/pre/badpixels_bayer.go b/internal/ops/pre/badpixels_bayer.go
index 10279aa..be60f4f 100644
--- a/internal/ops/pre/badpixels_bayer.go
+++ b/internal/ops/pre/badpixels_bayer.go
@@ -39,7 +39,7 @@ func CosmeticCorrectionBayer(data []float32, width int32, debayer, cfa string, s
 	case "G", "g":
 		return CosmeticCorrectionBayerGreen(median, data, width, xOffset, yOffset, sigmaLow, sigmaHigh), nil
 	case "B", "b":
-		return CosmeticCorrectionBayerRedOrBlue(median, data, width, xOffset+1, yOffset+1, sigmaLow, sigmaHigh), nil
+		return CosmeticCorrectionBayerRedOrBlue(median, data, width, (xOffset+1)&1, (yOffset+1)&1, sigmaLow, sigmaHigh), nil
 	default:
 		return 0, errors.New("Unknown debayering value " + debayer)
 	}
@@ -148,10 +148,8 @@ func MedianFilterBayerGreen(res, data []float32, width, xOffset, yOffset int32)
 	}*/
 
 	// for all RGGB boxes
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+	for y := int32(0); y < height; y += 1 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 { // all green pixels, including the first column
 			numGathered := 0
 			// for the local neighborhood
 			for _, nOffsets := range gOffsets {
@@ -245,14 +243,12 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum := float32(0)
 	deltaNum := int32(0)
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
+	for y := int32(0); y < height; y += 1 {
 
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 { // all green pixels, including the first column
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaRowSum += delta
@@ -267,14 +263,12 @@ func DeltaStatsBayerGreen(median, data []float32, width, xOffset, yOffset int32)
 	// for all rows
 	deltaSum = float32(0)
 	deltaNum = int32(0)
-	colorOffsetX = int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
+	for y := int32(0); y < height; y += 1 {
 
 		// for all pixels in the row
 		deltaRowSum := float32(0)
 		deltaRowNum := int32(0)
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 { // all green pixels, including the first column
 			index := y*width + x
 			delta := data[index] - median[index]
 			deltaSq := (delta - mean) * (delta - mean)
@@ -333,12 +327,10 @@ func ReplaceOutliersBayerGreen(median, data []float32, width, xOffset, yOffset i
 	numRemoved = 0
 
 	// for all rows
-	colorOffsetX := int32(0)
-	for y := yOffset; y < height; y += 1 {
-		colorOffsetX = 1 - colorOffsetX
+	for y := int32(0); y < height; y += 1 {
 
 		// for all pixels in the row
-		for x := xOffset + colorOffsetX; x < width; x += 2 {
+		for x := (xOffset + yOffset + y + 1) & 1; x < width; x += 2 { // all green pixels, including the first column
 			index := y*width + x
 			delta := data[index] - median[index]
 			if delta < threshLow || delta > threshHigh {
-- 
2.43.0


From 98f3775a5e5b51cb213c0077a733a5defbd2a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 47/97] fix: debayering refuses images without a complete
 mosaic block or with several channels

---
 internal/ops/pre/preprocess.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index e6edb6c..4492793 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -241,10 +241,17 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
-	f.Data, f.Naxisn[0], err = DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
+	if len(f.Naxisn) != 2 {
+		return nil, fmt.Errorf("%d: cannot debayer image of size %s, need a single channel", f.ID, f.DimensionsToString())
+	}
+	data, adjWidth, err := DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
 	}
+	if len(data) == 0 {
+		return nil, fmt.Errorf("%d: image of size %s is too small to debayer", f.ID, f.DimensionsToString())
+	}
+	f.Data, f.Naxisn[0] = data, adjWidth
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
 	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
-- 
2.43.0


From 9a12fac7c06a88ed79fb83250b47ca8b9194ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 48/97] fix: binning refuses images smaller than one block

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 4492793..eaa7752 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -337,6 +337,9 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if len(f.Naxisn) < 2 || f.Naxisn[0] < op.BinSize || f.Naxisn[1] < op.BinSize {
+		return nil, fmt.Errorf("%d: image of size %s is too small for %dx%d binning", f.ID, f.DimensionsToString(), op.BinSize, op.BinSize)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
 	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
-- 
2.43.0


From fb67384a5fba96b6f37f51fc87c00386ad7db4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 49/97] fix: binning keeps the color channels apart

---
 internal/fits/fits.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..d1431f1 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -165,7 +165,8 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	binnedPixels:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
+		binnedN:=originalN
+		if i<2 { binnedN=originalN/n } // further axes are color channels, keep these
 		binnedNaxisn[i]=binnedN
 		binnedPixels*=binnedN
 	}
@@ -176,20 +177,24 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
+	srcPlane, binnedPlane:=src.Naxisn[0]*src.Naxisn[1], binnedNaxisn[0]*binnedNaxisn[1]
+	if binnedPlane==0 { return binned }
+	for z:=int32(0); z<binnedPixels/binnedPlane; z++ {
 	for y:=int32(0); y<binnedNaxisn[1]; y++ {
 		for x:=int32(0); x<binnedNaxisn[0]; x++ {
 			sum:=float32(0)
 			for yoff:=int32(0); yoff<n; yoff++ {
 				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+					origPos:=z*srcPlane + (y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
 					sum+=src.Data[origPos]
 				}
 			}
 			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
+			binnedPos:=z*binnedPlane + y*binned.Naxisn[0] + x
 			binned.Data[binnedPos]=avg
 		}		
 	}
+	}
 
 	return binned
 }
-- 
2.43.0


From abaa605400c28aaa0011e153c8b73a7d7a6c772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 50/97] fix: restore the line endings of operator.go

---
 internal/ops/operator.go | 1104 +++++++++++++++++++-------------------
 1 file changed, 552 insertions(+), 552 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 7926086..215dbca 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -1,552 +1,552 @@
-// Copyright (C) 2020 Markus L. Noga
-//
-// This program is free software: you can redistribute it and/or modify
-// it under the terms of the GNU General Public License as published by
-// the Free Software Foundation, either version 3 of the License, or
-// (at your option) any later version.
-//
-// This program is distributed ins the hope that it will be useful,
-// but WITHOUT ANY WARRANTY; without even the implied warranty of
-// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-// GNU General Public License for more details.
-//
-// You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <https://www.gnu.org/licenses/>.
-
-package ops
-
-import (
-	"bytes"
-	"encoding/json"
-	"errors"
-	"fmt"
-	"io"
-	"path/filepath"
-	"runtime"
-	"strings"
-
-	"github.com/mlnoga/nightlight/internal/fits"
-	"github.com/mlnoga/nightlight/internal/star"
-	"github.com/mlnoga/nightlight/internal/stats"
-	"github.com/pbnjay/memory"
-)
-
-// An execution context for operators
-type Context struct {
-	Log             io.Writer
-	LSEstimatorMode stats.LSEstimatorMode
-	MemoryMB        int // memory.TotalMemory()/1024/1024
-	StackMemoryMB   int // MemoryMB*7/10
-	MaxThreads      int `json:"maxThreads"`
-	DarkFrame       *fits.Image
-	FlatFrame       *fits.Image
-	AlignNaxisn     []int32
-	AlignStars      []star.Star
-	AlignHFR        float32
-	MatchHisto      *stats.Stats
-	RefFrameError   error
-	LumFrame        *fits.Image
-
-	StatsSession int // increased to restart exported statistics
-}
-
-func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
-	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
-	return &Context{
-		Log:             log,
-		LSEstimatorMode: lsEstimatorMode,
-		MemoryMB:        memoryMB,
-		StackMemoryMB:   stMemory,
-		MaxThreads:      runtime.GOMAXPROCS(0),
-	}
-}
-
-// A promise for a FITS image. Returns a materialized image, or an error
-type Promise func() (f *fits.Image, err error)
-
-// Materializes all promises with given concurrency limit
-func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
-	if len(ins) == 0 {
-		return nil, nil
-	}
-	if !forget {
-		outs = make([]*fits.Image, len(ins))
-	}
-	limiter := make(chan bool, maxThreads)
-	errs := make(chan error, len(ins))
-	for i, in := range ins {
-		limiter <- true
-		go func(i int, theIn Promise) {
-			defer func() { <-limiter }()
-			f, err := theIn() // materialize the promise
-			if err != nil {
-				if !forget {
-					outs[i] = nil
-				}
-				errs <- err
-				return
-			}
-			if !forget {
-				outs[i] = f
-			}
-			errs <- nil
-		}(i, in)
-	}
-	for i := 0; i < cap(limiter); i++ { // wait for goroutines to finish
-		limiter <- true
-	}
-	for i := 0; i < len(ins); i++ { // collect errors
-		e := <-errs
-		if e != nil {
-			if err == nil {
-				err = e
-			} else if err.Error() == e.Error() {
-				// do nothing
-			} else {
-				err = fmt.Errorf("%s; %s", err.Error(), e.Error())
-			}
-		}
-	}
-	return RemoveNils(outs), err
-}
-
-// Remove nils from an array of fits.Images, editing the underlying array in place
-func RemoveNils(lights []*fits.Image) []*fits.Image {
-	o := 0
-	for i := 0; i < len(lights); i += 1 {
-		if lights[i] != nil {
-			lights[o] = lights[i]
-			o += 1
-		}
-	}
-	for i := o; i < len(lights); i++ {
-		lights[i] = nil
-	}
-	return lights[:o]
-}
-
-// An general image processing operator: takes n promises as inputs,
-// and produces m promises as output or an error
-type Operator interface {
-	GetType() string
-	MakePromises(ins []Promise, c *Context) (outs []Promise, err error)
-}
-
-// Base type for operators, including type information for JSON serializing/deserializing
-type OpBase struct {
-	Type string `json:"type"`
-}
-
-func (op *OpBase) GetType() string { return op.Type }
-
-// Factory method for subclasses of unary operators. For JSON serializing/deserializing
-type OperatorFactory func() Operator
-
-// Mapping from unary operator type strings to factory method for the type
-var operatorFactories = map[string]OperatorFactory{}
-
-// Returns the operator factory for a given type string
-func GetOperatorFactory(t string) OperatorFactory {
-	return operatorFactories[t]
-}
-
-// Registers a given type string for a given type of UnaryOperator, identified via an exemplar generator
-func SetOperatorFactory(f OperatorFactory) {
-	op := f()
-	t := op.GetType()
-	if GetOperatorFactory(t) != nil {
-		panic(fmt.Sprintf("error: re-registering operator key %s\n", t))
-	}
-	operatorFactories[t] = f
-}
-
-// A unary image processing operator: given n promises as inputs,
-// applies itself to each of them individually and returns n output promises or an error
-type OperatorUnary interface {
-	Operator
-	Apply(f *fits.Image, c *Context) (fOut *fits.Image, err error)
-}
-
-// Abstract base type for unary operators. Uses golang workaround for abstract classes
-// from https://golangbyexample.com/go-abstract-class/
-type OpUnaryBase struct {
-	OpBase
-	Apply func(f *fits.Image, c *Context) (fOut *fits.Image, err error) `json:"-"`
-	// Careful: copying an OpUnary base as value into a new instance will lead to subsequent
-	// difficult to trace errors, as Apply() will still tie the method receiver to the
-	// address of the original. You must set op.OpUnaryBase.Apply=op.Apply after such a copy
-	// to avoid this error
-}
-
-func (op *OpUnaryBase) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(ins) == 0 {
-		return nil, fmt.Errorf("unary operator with %d inputs", len(ins))
-	}
-	outs = make([]Promise, len(ins))
-	for i, in := range ins {
-		outs[i] = op.MakePromise(in, c)
-	}
-	return outs, nil
-}
-
-func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
-	return func() (f *fits.Image, err error) {
-		if f, err = in(); err != nil {
-			return nil, err
-		} // materialize input promise
-		if f == nil {
-			return nil, nil
-		} // skip frames dropped by a prior operator
-		if f, err = op.Apply(f, c); err != nil {
-			return nil, err
-		} // apply unary operator
-		return f, nil // wrap output in promise
-	}
-}
-
-// Load a single FITS image from a single filename. Takes zero inputs, produces one output
-type OpLoad struct {
-	OpBase
-	ID       int    `json:"id"`
-	FileName string `json:"fileName"`
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpLoadDefault() }) } // register the operator for JSON decoding
-
-func NewOpLoadDefault() *OpLoad { return NewOpLoad(0, "") }
-
-func NewOpLoad(id int, fileName string) *OpLoad {
-	return &OpLoad{
-		OpBase:   OpBase{Type: "load"},
-		ID:       id,
-		FileName: fileName,
-	}
-}
-
-// Unmarshal the type from JSON with default values for missing entries
-func (op *OpLoad) UnmarshalJSON(data []byte) error {
-	type defaults OpLoad
-	def := defaults(*NewOpLoadDefault())
-	err := json.Unmarshal(data, &def)
-	if err != nil {
-		return err
-	}
-	*op = OpLoad(def)
-	return nil
-}
-
-// Load image from a file. Ignores any f argument provided
-func (op *OpLoad) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(ins) > 0 {
-		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
-	}
-	if !isPathAllowed(op.FileName) {
-		return nil, errors.New("filename outside current directory tree, aborting")
-	}
-
-	out := func() (f *fits.Image, err error) {
-		// no inputs to materialize
-		return op.Apply(nil, c)
-	}
-	return []Promise{out}, nil
-}
-
-// Returns true if a path is considered safe, i.e. not an absolute path,
-// and doesn't contain the ".." characters to change to a parent directory
-func isPathAllowed(p string) bool {
-	if filepath.IsAbs(p) {
-		return false
-	} // relative paths only
-	if strings.Contains(p, "..") {
-		return false
-	} // no going outside the tree
-	return true
-}
-
-func (op *OpLoad) Apply(fUnused *fits.Image, c *Context) (result *fits.Image, err error) {
-	f, err := fits.NewImageFromFile(op.FileName, op.ID, c.Log)
-	if err != nil {
-		return nil, err
-	}
-
-	warning := ""
-	if f.Stats.Max()-f.Stats.Min() < 1e-8 {
-		warning = "; WARNING low dynamic range"
-	}
-
-	fmt.Fprintf(c.Log, "%d: Loaded %s image with %v from %s%s\n",
-		f.ID, f.DimensionsToString(), f.Stats, f.FileName, warning)
-	return f, nil
-}
-
-// Load many FITS images from a slice of filename patterns with wildcards.
-// Takes zero inputs, produces n outputs
-type OpLoadMany struct {
-	OpBase
-	FilePatterns []string `json:"filePatterns"`
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpLoadManyDefault() }) } // register the operator for JSON decoding
-
-func NewOpLoadManyDefault() *OpLoadMany { return NewOpLoadMany(nil) }
-
-func NewOpLoadMany(filePatterns []string) *OpLoadMany {
-	return &OpLoadMany{
-		OpBase:       OpBase{Type: "loadMany"},
-		FilePatterns: filePatterns,
-	}
-}
-
-// Unmarshal the type from JSON with default values for missing entries
-func (op *OpLoadMany) UnmarshalJSON(data []byte) error {
-	type defaults OpLoadMany
-	def := defaults(*NewOpLoadManyDefault())
-	err := json.Unmarshal(data, &def)
-	if err != nil {
-		return err
-	}
-	*op = OpLoadMany(def)
-	return nil
-}
-
-// Turn filename wildcards into list of file load operators
-func (op *OpLoadMany) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(ins) > 0 {
-		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
-	}
-	for _, pattern := range op.FilePatterns {
-		matches, err := filepath.Glob(pattern)
-		if err != nil {
-			return nil, err
-		}
-		for _, match := range matches {
-			if !isPathAllowed(match) {
-				fmt.Fprintf(c.Log, "Pattern match outside current directory tree, skipping\n")
-				continue
-			}
-			opLoad := NewOpLoad(len(outs), match)
-			promises, err := opLoad.MakePromises(nil, c)
-			if err != nil {
-				return nil, err
-			}
-			if len(promises) != 1 {
-				return nil, fmt.Errorf("%s operator did not return exactly one promise", opLoad.Type)
-			}
-			outs = append(outs, promises[0])
-		}
-	}
-	if len(outs) == 0 {
-		return nil, fmt.Errorf("%s operator with no files to load from pattern %v", op.Type, op.FilePatterns)
-	}
-	fmt.Fprintf(c.Log, "Found %d files.\n", len(outs))
-	return outs, nil
-}
-
-// Value range for exporting data to 16-bit TIFF or JPEG
-type ExportMode int
-
-const (
-	EMMinMax ExportMode = iota
-	EM0_1
-	EM0_255
-	EM0_65535
-)
-
-// Saves given promise under a given filename, with pattern expansion for %d based on the image id.
-// Takes one input, produces one output (the materialized but unchanged input)
-type OpSave struct {
-	OpUnaryBase
-	FilePattern string     `json:"filePattern"`
-	ExportMode  ExportMode `json:"saveMode"`
-	Gamma       float32    `json:"gamma"`
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpSaveDefault() }) } // register the operator for JSON decoding
-
-func NewOpSaveDefault() *OpSave { return NewOpSave("", EMMinMax, 1) }
-
-func NewOpSave(filenamePattern string, exportMode ExportMode, gamma float32) *OpSave {
-	op := &OpSave{
-		OpUnaryBase: OpUnaryBase{OpBase: OpBase{Type: "save"}},
-		FilePattern: filenamePattern,
-		ExportMode:  exportMode,
-		Gamma:       gamma,
-	}
-	op.OpUnaryBase.Apply = op.Apply // assign class method to superclass abstract method
-	return op
-}
-
-// Unmarshal the type from JSON with default values for missing entries
-func (op *OpSave) UnmarshalJSON(data []byte) error {
-	type defaults OpSave
-	def := defaults(*NewOpSaveDefault())
-	err := json.Unmarshal(data, &def)
-	if err != nil {
-		return err
-	}
-	*op = OpSave(def)
-	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
-	return nil
-}
-
-func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
-	if op.FilePattern == "" {
-		return f, nil
-	}
-	if f == nil {
-		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
-	}
-	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
-		fileName = fmt.Sprintf(op.FilePattern, f.ID)
-	}
-	fnLower := strings.ToLower(fileName)
-
-	if err != nil {
-		return nil, err
-	}
-	var min, max float32
-	switch op.ExportMode {
-	case EMMinMax:
-		min = f.Stats.Min()
-		max = f.Stats.Max()
-	case EM0_1:
-		min = 0
-		max = 1
-	case EM0_255:
-		min = 0
-		max = 255
-	case EM0_65535:
-		min = 0
-		max = 65535
-	}
-
-	if strings.HasSuffix(fnLower, ".fits") || strings.HasSuffix(fnLower, ".fit") || strings.HasSuffix(fnLower, ".fts") ||
-		strings.HasSuffix(fnLower, ".fits.gz") || strings.HasSuffix(fnLower, ".fit.gz") || strings.HasSuffix(fnLower, ".fts.gz") ||
-		strings.HasSuffix(fnLower, ".fits.gzip") || strings.HasSuffix(fnLower, ".fit.gzip") || strings.HasSuffix(fnLower, ".fts.gzip") {
-		fmt.Fprintf(c.Log, "%d: Writing %s pixel FITS to %s\n", f.ID, f.DimensionsToString(), fileName)
-		err = f.WriteFile(fileName)
-	} else if strings.HasSuffix(fnLower, ".tiff") || strings.HasSuffix(fnLower, ".tif") {
-		if len(f.Naxisn) == 2 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
-		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
-		} else {
-			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
-		}
-	} else if strings.HasSuffix(fnLower, ".jpeg") || strings.HasSuffix(fnLower, ".jpg") {
-		if len(f.Naxisn) == 2 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
-		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
-			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
-				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
-		} else {
-			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
-		}
-	} else {
-		err = fmt.Errorf("unknown suffix \"%s\" for file %s", filepath.Ext(fileName), fileName)
-	}
-	if err != nil {
-		return nil, fmt.Errorf("%d: error writing to file %s: %s", f.ID, fileName, err.Error())
-	}
-	return f, nil
-}
-
-// Applies a sequence of operators to a promise. Number of inputs, outputs as per the chained steps
-type OpSequence struct {
-	OpBase
-	Steps    []Operator        `json:"-"`     // the actual steps
-	StepsRaw []json.RawMessage `json:"steps"` // helper for unmarshaling
-}
-
-func init() { SetOperatorFactory(func() Operator { return NewOpSequenceDefault() }) } // register the operator for JSON decoding
-
-func NewOpSequenceDefault() *OpSequence { return NewOpSequence() }
-
-func NewOpSequence(steps ...Operator) *OpSequence {
-	return &OpSequence{
-		OpBase: OpBase{Type: "seq"},
-		Steps:  steps,
-	}
-}
-
-// Unmarshals a sequence of polymorphic operators from JSON.
-// Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
-func (op *OpSequence) UnmarshalJSON(b []byte) error {
-	type alias OpSequence
-	tmp := alias(*NewOpSequenceDefault())
-	err := json.Unmarshal(b, &tmp)
-	if err != nil {
-		return err
-	}
-	op.Type = tmp.Type
-	op.Steps = nil // replace prior steps, if any
-
-	for _, raw := range tmp.StepsRaw {
-		var step OpBase
-		err = json.Unmarshal(raw, &step)
-		if err != nil {
-			return err
-		}
-
-		var i Operator
-		if factory := GetOperatorFactory(step.Type); factory != nil {
-			i = factory()
-		} else {
-			return fmt.Errorf("unknown operator type '%s' in raw JSON message '%s'", step.Type, string(raw))
-		}
-		err = json.Unmarshal(raw, i)
-		if err != nil {
-			return err
-		}
-		op.Steps = append(op.Steps, i)
-	}
-	return nil
-}
-
-// Appends one or more operators to the existing sequence
-func (op *OpSequence) Append(steps ...Operator) {
-	op.Steps = append(op.Steps, steps...)
-}
-
-// Marshals a sequence with polymorphic operators to JSON.
-// Uses the actual op.Steps with label "steps", and ignores op.StepsRaw
-func (op OpSequence) MarshalJSON() (bs []byte, err error) {
-	buf := bytes.Buffer{}
-	buf.WriteString("{\"type\":")
-	inner, err := json.Marshal(op.Type)
-	if err != nil {
-		return nil, err
-	}
-	buf.Write(inner)
-	fmt.Fprintf(&buf, ", \"steps\":")
-	inner, err = json.Marshal(op.Steps)
-	if err != nil {
-		return nil, err
-	}
-	buf.Write(inner)
-	buf.WriteRune('}')
-	return buf.Bytes(), nil
-}
-
-func (op *OpSequence) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
-	return op.applyRecursive(op.Steps, ins, c)
-}
-
-func (op *OpSequence) applyRecursive(steps []Operator, ins []Promise, c *Context) (outs []Promise, err error) {
-	if len(steps) == 0 {
-		return ins, nil
-	}
-	ins, err = steps[0].MakePromises(ins, c)
-	if err != nil {
-		return nil, err
-	}
-	return op.applyRecursive(steps[1:], ins, c)
-}
+// Copyright (C) 2020 Markus L. Noga
+//
+// This program is free software: you can redistribute it and/or modify
+// it under the terms of the GNU General Public License as published by
+// the Free Software Foundation, either version 3 of the License, or
+// (at your option) any later version.
+//
+// This program is distributed ins the hope that it will be useful,
+// but WITHOUT ANY WARRANTY; without even the implied warranty of
+// MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+// GNU General Public License for more details.
+//
+// You should have received a copy of the GNU General Public License
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
+
+package ops
+
+import (
+	"bytes"
+	"encoding/json"
+	"errors"
+	"fmt"
+	"io"
+	"path/filepath"
+	"runtime"
+	"strings"
+
+	"github.com/mlnoga/nightlight/internal/fits"
+	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
+	"github.com/pbnjay/memory"
+)
+
+// An execution context for operators
+type Context struct {
+	Log             io.Writer
+	LSEstimatorMode stats.LSEstimatorMode
+	MemoryMB        int // memory.TotalMemory()/1024/1024
+	StackMemoryMB   int // MemoryMB*7/10
+	MaxThreads      int `json:"maxThreads"`
+	DarkFrame       *fits.Image
+	FlatFrame       *fits.Image
+	AlignNaxisn     []int32
+	AlignStars      []star.Star
+	AlignHFR        float32
+	MatchHisto      *stats.Stats
+	RefFrameError   error
+	LumFrame        *fits.Image
+
+	StatsSession int // increased to restart exported statistics
+}
+
+func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
+	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
+	return &Context{
+		Log:             log,
+		LSEstimatorMode: lsEstimatorMode,
+		MemoryMB:        memoryMB,
+		StackMemoryMB:   stMemory,
+		MaxThreads:      runtime.GOMAXPROCS(0),
+	}
+}
+
+// A promise for a FITS image. Returns a materialized image, or an error
+type Promise func() (f *fits.Image, err error)
+
+// Materializes all promises with given concurrency limit
+func MaterializeAll(ins []Promise, maxThreads int, forget bool) (outs []*fits.Image, err error) {
+	if len(ins) == 0 {
+		return nil, nil
+	}
+	if !forget {
+		outs = make([]*fits.Image, len(ins))
+	}
+	limiter := make(chan bool, maxThreads)
+	errs := make(chan error, len(ins))
+	for i, in := range ins {
+		limiter <- true
+		go func(i int, theIn Promise) {
+			defer func() { <-limiter }()
+			f, err := theIn() // materialize the promise
+			if err != nil {
+				if !forget {
+					outs[i] = nil
+				}
+				errs <- err
+				return
+			}
+			if !forget {
+				outs[i] = f
+			}
+			errs <- nil
+		}(i, in)
+	}
+	for i := 0; i < cap(limiter); i++ { // wait for goroutines to finish
+		limiter <- true
+	}
+	for i := 0; i < len(ins); i++ { // collect errors
+		e := <-errs
+		if e != nil {
+			if err == nil {
+				err = e
+			} else if err.Error() == e.Error() {
+				// do nothing
+			} else {
+				err = fmt.Errorf("%s; %s", err.Error(), e.Error())
+			}
+		}
+	}
+	return RemoveNils(outs), err
+}
+
+// Remove nils from an array of fits.Images, editing the underlying array in place
+func RemoveNils(lights []*fits.Image) []*fits.Image {
+	o := 0
+	for i := 0; i < len(lights); i += 1 {
+		if lights[i] != nil {
+			lights[o] = lights[i]
+			o += 1
+		}
+	}
+	for i := o; i < len(lights); i++ {
+		lights[i] = nil
+	}
+	return lights[:o]
+}
+
+// An general image processing operator: takes n promises as inputs,
+// and produces m promises as output or an error
+type Operator interface {
+	GetType() string
+	MakePromises(ins []Promise, c *Context) (outs []Promise, err error)
+}
+
+// Base type for operators, including type information for JSON serializing/deserializing
+type OpBase struct {
+	Type string `json:"type"`
+}
+
+func (op *OpBase) GetType() string { return op.Type }
+
+// Factory method for subclasses of unary operators. For JSON serializing/deserializing
+type OperatorFactory func() Operator
+
+// Mapping from unary operator type strings to factory method for the type
+var operatorFactories = map[string]OperatorFactory{}
+
+// Returns the operator factory for a given type string
+func GetOperatorFactory(t string) OperatorFactory {
+	return operatorFactories[t]
+}
+
+// Registers a given type string for a given type of UnaryOperator, identified via an exemplar generator
+func SetOperatorFactory(f OperatorFactory) {
+	op := f()
+	t := op.GetType()
+	if GetOperatorFactory(t) != nil {
+		panic(fmt.Sprintf("error: re-registering operator key %s\n", t))
+	}
+	operatorFactories[t] = f
+}
+
+// A unary image processing operator: given n promises as inputs,
+// applies itself to each of them individually and returns n output promises or an error
+type OperatorUnary interface {
+	Operator
+	Apply(f *fits.Image, c *Context) (fOut *fits.Image, err error)
+}
+
+// Abstract base type for unary operators. Uses golang workaround for abstract classes
+// from https://golangbyexample.com/go-abstract-class/
+type OpUnaryBase struct {
+	OpBase
+	Apply func(f *fits.Image, c *Context) (fOut *fits.Image, err error) `json:"-"`
+	// Careful: copying an OpUnary base as value into a new instance will lead to subsequent
+	// difficult to trace errors, as Apply() will still tie the method receiver to the
+	// address of the original. You must set op.OpUnaryBase.Apply=op.Apply after such a copy
+	// to avoid this error
+}
+
+func (op *OpUnaryBase) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(ins) == 0 {
+		return nil, fmt.Errorf("unary operator with %d inputs", len(ins))
+	}
+	outs = make([]Promise, len(ins))
+	for i, in := range ins {
+		outs[i] = op.MakePromise(in, c)
+	}
+	return outs, nil
+}
+
+func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
+	return func() (f *fits.Image, err error) {
+		if f, err = in(); err != nil {
+			return nil, err
+		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // skip frames dropped by a prior operator
+		if f, err = op.Apply(f, c); err != nil {
+			return nil, err
+		} // apply unary operator
+		return f, nil // wrap output in promise
+	}
+}
+
+// Load a single FITS image from a single filename. Takes zero inputs, produces one output
+type OpLoad struct {
+	OpBase
+	ID       int    `json:"id"`
+	FileName string `json:"fileName"`
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpLoadDefault() }) } // register the operator for JSON decoding
+
+func NewOpLoadDefault() *OpLoad { return NewOpLoad(0, "") }
+
+func NewOpLoad(id int, fileName string) *OpLoad {
+	return &OpLoad{
+		OpBase:   OpBase{Type: "load"},
+		ID:       id,
+		FileName: fileName,
+	}
+}
+
+// Unmarshal the type from JSON with default values for missing entries
+func (op *OpLoad) UnmarshalJSON(data []byte) error {
+	type defaults OpLoad
+	def := defaults(*NewOpLoadDefault())
+	err := json.Unmarshal(data, &def)
+	if err != nil {
+		return err
+	}
+	*op = OpLoad(def)
+	return nil
+}
+
+// Load image from a file. Ignores any f argument provided
+func (op *OpLoad) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(ins) > 0 {
+		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
+	}
+	if !isPathAllowed(op.FileName) {
+		return nil, errors.New("filename outside current directory tree, aborting")
+	}
+
+	out := func() (f *fits.Image, err error) {
+		// no inputs to materialize
+		return op.Apply(nil, c)
+	}
+	return []Promise{out}, nil
+}
+
+// Returns true if a path is considered safe, i.e. not an absolute path,
+// and doesn't contain the ".." characters to change to a parent directory
+func isPathAllowed(p string) bool {
+	if filepath.IsAbs(p) {
+		return false
+	} // relative paths only
+	if strings.Contains(p, "..") {
+		return false
+	} // no going outside the tree
+	return true
+}
+
+func (op *OpLoad) Apply(fUnused *fits.Image, c *Context) (result *fits.Image, err error) {
+	f, err := fits.NewImageFromFile(op.FileName, op.ID, c.Log)
+	if err != nil {
+		return nil, err
+	}
+
+	warning := ""
+	if f.Stats.Max()-f.Stats.Min() < 1e-8 {
+		warning = "; WARNING low dynamic range"
+	}
+
+	fmt.Fprintf(c.Log, "%d: Loaded %s image with %v from %s%s\n",
+		f.ID, f.DimensionsToString(), f.Stats, f.FileName, warning)
+	return f, nil
+}
+
+// Load many FITS images from a slice of filename patterns with wildcards.
+// Takes zero inputs, produces n outputs
+type OpLoadMany struct {
+	OpBase
+	FilePatterns []string `json:"filePatterns"`
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpLoadManyDefault() }) } // register the operator for JSON decoding
+
+func NewOpLoadManyDefault() *OpLoadMany { return NewOpLoadMany(nil) }
+
+func NewOpLoadMany(filePatterns []string) *OpLoadMany {
+	return &OpLoadMany{
+		OpBase:       OpBase{Type: "loadMany"},
+		FilePatterns: filePatterns,
+	}
+}
+
+// Unmarshal the type from JSON with default values for missing entries
+func (op *OpLoadMany) UnmarshalJSON(data []byte) error {
+	type defaults OpLoadMany
+	def := defaults(*NewOpLoadManyDefault())
+	err := json.Unmarshal(data, &def)
+	if err != nil {
+		return err
+	}
+	*op = OpLoadMany(def)
+	return nil
+}
+
+// Turn filename wildcards into list of file load operators
+func (op *OpLoadMany) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(ins) > 0 {
+		return nil, fmt.Errorf("%s operator with non-zero input", op.Type)
+	}
+	for _, pattern := range op.FilePatterns {
+		matches, err := filepath.Glob(pattern)
+		if err != nil {
+			return nil, err
+		}
+		for _, match := range matches {
+			if !isPathAllowed(match) {
+				fmt.Fprintf(c.Log, "Pattern match outside current directory tree, skipping\n")
+				continue
+			}
+			opLoad := NewOpLoad(len(outs), match)
+			promises, err := opLoad.MakePromises(nil, c)
+			if err != nil {
+				return nil, err
+			}
+			if len(promises) != 1 {
+				return nil, fmt.Errorf("%s operator did not return exactly one promise", opLoad.Type)
+			}
+			outs = append(outs, promises[0])
+		}
+	}
+	if len(outs) == 0 {
+		return nil, fmt.Errorf("%s operator with no files to load from pattern %v", op.Type, op.FilePatterns)
+	}
+	fmt.Fprintf(c.Log, "Found %d files.\n", len(outs))
+	return outs, nil
+}
+
+// Value range for exporting data to 16-bit TIFF or JPEG
+type ExportMode int
+
+const (
+	EMMinMax ExportMode = iota
+	EM0_1
+	EM0_255
+	EM0_65535
+)
+
+// Saves given promise under a given filename, with pattern expansion for %d based on the image id.
+// Takes one input, produces one output (the materialized but unchanged input)
+type OpSave struct {
+	OpUnaryBase
+	FilePattern string     `json:"filePattern"`
+	ExportMode  ExportMode `json:"saveMode"`
+	Gamma       float32    `json:"gamma"`
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpSaveDefault() }) } // register the operator for JSON decoding
+
+func NewOpSaveDefault() *OpSave { return NewOpSave("", EMMinMax, 1) }
+
+func NewOpSave(filenamePattern string, exportMode ExportMode, gamma float32) *OpSave {
+	op := &OpSave{
+		OpUnaryBase: OpUnaryBase{OpBase: OpBase{Type: "save"}},
+		FilePattern: filenamePattern,
+		ExportMode:  exportMode,
+		Gamma:       gamma,
+	}
+	op.OpUnaryBase.Apply = op.Apply // assign class method to superclass abstract method
+	return op
+}
+
+// Unmarshal the type from JSON with default values for missing entries
+func (op *OpSave) UnmarshalJSON(data []byte) error {
+	type defaults OpSave
+	def := defaults(*NewOpSaveDefault())
+	err := json.Unmarshal(data, &def)
+	if err != nil {
+		return err
+	}
+	*op = OpSave(def)
+	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
+	return nil
+}
+
+func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
+	if op.FilePattern == "" {
+		return f, nil
+	}
+	if f == nil {
+		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
+	}
+	fileName := op.FilePattern
+	if strings.Contains(fileName, "%d") {
+		fileName = fmt.Sprintf(op.FilePattern, f.ID)
+	}
+	fnLower := strings.ToLower(fileName)
+
+	if err != nil {
+		return nil, err
+	}
+	var min, max float32
+	switch op.ExportMode {
+	case EMMinMax:
+		min = f.Stats.Min()
+		max = f.Stats.Max()
+	case EM0_1:
+		min = 0
+		max = 1
+	case EM0_255:
+		min = 0
+		max = 255
+	case EM0_65535:
+		min = 0
+		max = 65535
+	}
+
+	if strings.HasSuffix(fnLower, ".fits") || strings.HasSuffix(fnLower, ".fit") || strings.HasSuffix(fnLower, ".fts") ||
+		strings.HasSuffix(fnLower, ".fits.gz") || strings.HasSuffix(fnLower, ".fit.gz") || strings.HasSuffix(fnLower, ".fts.gz") ||
+		strings.HasSuffix(fnLower, ".fits.gzip") || strings.HasSuffix(fnLower, ".fit.gzip") || strings.HasSuffix(fnLower, ".fts.gzip") {
+		fmt.Fprintf(c.Log, "%d: Writing %s pixel FITS to %s\n", f.ID, f.DimensionsToString(), fileName)
+		err = f.WriteFile(fileName)
+	} else if strings.HasSuffix(fnLower, ".tiff") || strings.HasSuffix(fnLower, ".tif") {
+		if len(f.Naxisn) == 2 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max)
+			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max)
+			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+		} else {
+			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
+		}
+	} else if strings.HasSuffix(fnLower, ".jpeg") || strings.HasSuffix(fnLower, ".jpg") {
+		if len(f.Naxisn) == 2 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
+			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
+			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
+				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
+			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+		} else {
+			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
+		}
+	} else {
+		err = fmt.Errorf("unknown suffix \"%s\" for file %s", filepath.Ext(fileName), fileName)
+	}
+	if err != nil {
+		return nil, fmt.Errorf("%d: error writing to file %s: %s", f.ID, fileName, err.Error())
+	}
+	return f, nil
+}
+
+// Applies a sequence of operators to a promise. Number of inputs, outputs as per the chained steps
+type OpSequence struct {
+	OpBase
+	Steps    []Operator        `json:"-"`     // the actual steps
+	StepsRaw []json.RawMessage `json:"steps"` // helper for unmarshaling
+}
+
+func init() { SetOperatorFactory(func() Operator { return NewOpSequenceDefault() }) } // register the operator for JSON decoding
+
+func NewOpSequenceDefault() *OpSequence { return NewOpSequence() }
+
+func NewOpSequence(steps ...Operator) *OpSequence {
+	return &OpSequence{
+		OpBase: OpBase{Type: "seq"},
+		Steps:  steps,
+	}
+}
+
+// Unmarshals a sequence of polymorphic operators from JSON.
+// Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
+func (op *OpSequence) UnmarshalJSON(b []byte) error {
+	type alias OpSequence
+	tmp := alias(*NewOpSequenceDefault())
+	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return err
+	}
+	op.Type = tmp.Type
+	op.Steps = nil // replace prior steps, if any
+
+	for _, raw := range tmp.StepsRaw {
+		var step OpBase
+		err = json.Unmarshal(raw, &step)
+		if err != nil {
+			return err
+		}
+
+		var i Operator
+		if factory := GetOperatorFactory(step.Type); factory != nil {
+			i = factory()
+		} else {
+			return fmt.Errorf("unknown operator type '%s' in raw JSON message '%s'", step.Type, string(raw))
+		}
+		err = json.Unmarshal(raw, i)
+		if err != nil {
+			return err
+		}
+		op.Steps = append(op.Steps, i)
+	}
+	return nil
+}
+
+// Appends one or more operators to the existing sequence
+func (op *OpSequence) Append(steps ...Operator) {
+	op.Steps = append(op.Steps, steps...)
+}
+
+// Marshals a sequence with polymorphic operators to JSON.
+// Uses the actual op.Steps with label "steps", and ignores op.StepsRaw
+func (op OpSequence) MarshalJSON() (bs []byte, err error) {
+	buf := bytes.Buffer{}
+	buf.WriteString("{\"type\":")
+	inner, err := json.Marshal(op.Type)
+	if err != nil {
+		return nil, err
+	}
+	buf.Write(inner)
+	fmt.Fprintf(&buf, ", \"steps\":")
+	inner, err = json.Marshal(op.Steps)
+	if err != nil {
+		return nil, err
+	}
+	buf.Write(inner)
+	buf.WriteRune('}')
+	return buf.Bytes(), nil
+}
+
+func (op *OpSequence) MakePromises(ins []Promise, c *Context) (outs []Promise, err error) {
+	return op.applyRecursive(op.Steps, ins, c)
+}
+
+func (op *OpSequence) applyRecursive(steps []Operator, ins []Promise, c *Context) (outs []Promise, err error) {
+	if len(steps) == 0 {
+		return ins, nil
+	}
+	ins, err = steps[0].MakePromises(ins, c)
+	if err != nil {
+		return nil, err
+	}
+	return op.applyRecursive(steps[1:], ins, c)
+}
-- 
2.43.0


From 6f40b58fd583b79ddac6f755564d99af26e8b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 51/97] fix: midtones keep the black point black and skip
 settings without a curve

---
 internal/fits/pixelops.go       | 2 +-
 internal/ops/hsl/hsl.go         | 7 +++++++
 internal/ops/stretch/stretch.go | 6 ++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..c325dc3 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,7 +219,7 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow 
 	    } else if value>clipHigh {
 	    	value=1
 	    }
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 79a78da..cef6ae1 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -406,6 +406,13 @@ func (op *OpHSLMidtones) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	absBlack := loc - op.Black*scale
 
 	fmt.Fprintf(c.Log, "loc %.2f%% scale %.2f%% absMid %.2f%% absBlack %.2f%%\n", 100*loc, 100*scale, 100*absMid, 100*absBlack)
+	if absBlack < 0 {
+		absBlack = 0 // black point stays within the range of the image
+	}
+	if !(absMid > 0 && absMid < 1 && absBlack < 1) {
+		fmt.Fprintf(c.Log, "%d: Warning: midtone or black outside of (0%%, 100%%), skipping midtone correction\n", f.ID)
+		return f, nil
+	}
 	f.ApplyMidtonesToChannel(2, absMid, absBlack)
 	return f, nil
 }
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 195229c..a520efd 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -201,6 +201,12 @@ func (op *OpMidtones) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 	absBlack:=loc - op.Black*scale
 	fmt.Fprintf(c.Log, "%d: loc %.2f%% scale %.2f%% absMid %.2f%% absBlack %.2f%%\n", f.ID, 100*loc, 100*scale, 100*absMid, 100*absBlack)
 
+	if absBlack<0 { absBlack=0 } // black point stays within the range of the image
+	if !(absMid>0 && absMid<1 && absBlack<1) {
+		fmt.Fprintf(c.Log, "%d: Warning: midtone or black outside of (0%%, 100%%), skipping midtone correction\n", f.ID)
+		return f, nil
+	}
+
 	f.ApplyMidtones(absMid, absBlack)
 	return f, nil
 }
-- 
2.43.0


From fd269de761dac546c2775f28f48d0a3118e08f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 52/97] fix: shifting the black point leaves frames at white
 alone

---
 internal/fits/pixelops.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index c325dc3..6656627 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -647,6 +647,8 @@ func (f* Image) ScaleRGB(r, g, b float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMove(before, after float32) {
+    // A point at or beyond white cannot be moved to the other side of white
+    if !((before-1)*(after-1)>0) { return }
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
@@ -661,6 +663,8 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
+    // A point at or beyond white cannot be moved to the other side of white
+    if !((before-1)*(after-1)>0) { return }
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
-- 
2.43.0


From 3cdd7f48a920f2a9058eb85b770ae2bbaae401b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 53/97] fix: gamma has to be positive, and a partial gamma
 keeps black

---
 internal/ops/hsl/hsl.go         | 9 +++++++++
 internal/ops/stretch/stretch.go | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index cef6ae1..c4b1f59 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -452,6 +452,9 @@ func (op *OpHSLGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, er
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if !(op.Gamma > 0) {
+		return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma)
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.3g\n", op.Gamma)
 	f.ApplyGammaToChannel(2, op.Gamma)
 	return f, nil
@@ -494,10 +497,16 @@ func (op *OpHSLGammaPP) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if !(op.Gamma > 0) {
+		return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma)
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
 	from := loc + op.Sigma*scale
+	if from < 0 {
+		from = 0 // black stays black
+	}
 	to := float32(1.0)
 
 	fmt.Fprintf(c.Log, "Based on sigma=%.4g, boosting values in [%.2f%%, %.2f%%] with gamma %.4g...\n", op.Sigma, from*100, to*100, op.Gamma)
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index a520efd..9c58e9e 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -244,6 +244,7 @@ func (op *OpGamma) UnmarshalJSON(data []byte) error {
 
 func (op *OpGamma) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Gamma==1.0 { return f, nil }
+	if !(op.Gamma>0) { return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma) }
 	fmt.Fprintf(c.Log, "%d: Applying gamma %.3g\n", f.ID, op.Gamma)
 	f.ApplyGamma(op.Gamma)
 	return f, nil
@@ -283,9 +284,11 @@ func (op *OpGammaPP) UnmarshalJSON(data []byte) error {
 
 func (op *OpGammaPP) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Gamma==1.0 { return f, nil }
+	if !(op.Gamma>0) { return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma) }
 
 	loc, scale:=f.Stats.Location(), f.Stats.Scale()
 	from:=loc+float32(op.Sigma)*scale
+	if from<0 { from=0 } // black stays black
 	to  :=float32(1.0)
 
 	fmt.Fprintf(c.Log, "%d: Based on sigma=%.4g, boosting [%.2f%%, %.2f%%] with gamma %.4g...\n", 
-- 
2.43.0


From d4acd6314a6d8a05e4017a515dcfb96a644e7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 54/97] fix: color operators require an image with three
 channels

---
 internal/fits/rgb.go    |  7 +++++++
 internal/ops/hsl/hsl.go | 42 +++++++++++++++++++++++++++++++++++++++++
 internal/ops/rgb/rgb.go |  9 +++++++++
 3 files changed, 58 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index a4c5779..4a357d4 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -32,6 +32,13 @@ type RGB struct {
 }
 
 
+// Returns an error unless the image has exactly three color channels
+func (f *Image) CheckThreeChannels() error {
+	if len(f.Naxisn)==3 && f.Naxisn[2]==3 { return nil }
+	return fmt.Errorf("%d: operation requires an image with three color channels, not %s", f.ID, f.DimensionsToString())
+}
+
+
 // Print RGB color as a human-readable string
 func (rgb RGB) String() string {
 	return fmt.Sprintf("RGB(%.2f%%, %.2f%%, %.2f%%)", rgb.R*100, rgb.G*100, rgb.B*100)
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index c4b1f59..bb988c2 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -60,6 +60,9 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if c.LumFrame == nil {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	c.LumFrame.MonoToHSLuvLum()
 
@@ -113,6 +116,12 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
+	if op.ChannelID < 0 || op.ChannelID > 2 {
+		return nil, fmt.Errorf("%d: invalid channel %d", f.ID, op.ChannelID)
+	}
 	fmt.Fprintf(c.Log, "%d: Applying pixel math x = x * %.3f + %.3f%% to channel %d\n", f.ID, op.Scale, op.Offset*100, op.ChannelID)
 	f.ApplyScaleOffsetToChannel(op.ChannelID, op.Scale, op.Offset)
 	return f, nil
@@ -159,6 +168,9 @@ func (op *OpHSLNeutralizeBackground) Apply(f *fits.Image, c *ops.Context) (fOut
 	if op.SigmaLow <= 0 && op.SigmaHigh <= 0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Neutralizing background values below %.4g sigma, keeping color above %.4g sigma\n", op.SigmaLow, op.SigmaHigh)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -210,6 +222,9 @@ func (op *OpHSLSaturationGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.2f to saturation for values %.4g sigma above background...\n", op.Gamma, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -264,6 +279,9 @@ func (op *OpHSLSelectiveSaturation) Apply(f *fits.Image, c *ops.Context) (fOut *
 	if op.Factor == 1 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Multiplying LCH chroma (saturation) by %.4g for hues in [%g,%g]...\n", op.Factor, op.From, op.To)
 	f.AdjustChromaForHues(op.From, op.To, op.Factor)
 	return f, nil
@@ -310,6 +328,9 @@ func (op *OpHSLRotateHue) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image
 	if op.Offset == 0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Rotating LCH hue angles in [%g,%g] by %.4g for lum>=loc+%g*scale...\n", op.From, op.To, op.Offset, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -355,6 +376,9 @@ func (op *OpHSLSCNR) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err
 	if op.Factor == 0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying SCNR of %.4g ...\n", op.Factor)
 	f.SCNR(op.Factor)
 
@@ -398,6 +422,9 @@ func (op *OpHSLMidtones) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Mid == 0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Applying midtone correction with midtone=%.2f%% x scale and black=location - %.2f%% x scale\n", op.Mid, op.Black)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
@@ -452,6 +479,9 @@ func (op *OpHSLGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, er
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	if !(op.Gamma > 0) {
 		return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma)
 	}
@@ -497,6 +527,9 @@ func (op *OpHSLGammaPP) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if op.Gamma == 1.0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	if !(op.Gamma > 0) {
 		return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma)
 	}
@@ -555,6 +588,9 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	if op.Gain == 0.0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	absThresh := st.Location() + st.Scale()*op.Threshold
@@ -608,6 +644,9 @@ func (op *OpHSLScaleBlack) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Imag
 	if op.Location == 0 {
 		return f, nil
 	}
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
@@ -662,6 +701,9 @@ func (op *OpHSLStretchIterative) UnmarshalJSON(data []byte) error {
 
 func (op *OpHSLStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Location==0 && op.Scale==0 { return f, nil }
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "%d: Auto-stretching HSL loc to %.2f%% and scale to %.2f%% ...\n", f.ID, op.Location*100, op.Scale*100)
 
 	for i:=0; ; i++ {
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..fb15b35 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -124,6 +124,9 @@ func (op *OpRGBBalance) UnmarshalJSON(data []byte) error {
 
 // Automatically balance colors with multiple iterations of SetBlackWhitePoints, producing log output
 func (op *OpRGBBalance) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	if f.Stars == nil || len(f.Stars) == 0 {
 		return nil, errors.New("cannot balance colors with zero stars detected")
 	}
@@ -164,6 +167,9 @@ func (op *OpRGBToHSLuv) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpRGBToHSLuv) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Converting linear RGB to nonlinear HSLuv...\n")
 	f.RGBToHSLuv()
 	return f, nil
@@ -199,6 +205,9 @@ func (op *OpHSLuvToRGB) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLuvToRGB) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
+	if err := f.CheckThreeChannels(); err != nil {
+		return nil, err
+	}
 	fmt.Fprintf(c.Log, "Converting nonlinear HSLuv to linear RGB\n")
 	f.HSLuvToRGB()
 	return f, nil
-- 
2.43.0


From 6e7bab5688e23b4e0fde551c50f0e88d4fc347d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 55/97] fix: histogram matching of frames without spread or
 location

---
 internal/fits/pixelops.go        | 3 ++-
 internal/ops/post/postprocess.go | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 6656627..076e5d6 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -599,7 +599,8 @@ func (f *Image) MatchLocation(refLocation float32) {
 // Adjust image data to match the histogram shape of refStats.
 // Assumes f.Stats are current; and updates them afterwards.
 func (f *Image) MatchHistogram(refStats *stats.Stats) {
-	multiplier:=refStats.Scale()    / f.Stats.Scale()
+	multiplier:=float32(1) // frames without spread can only be moved
+	if f.Stats.Scale()!=0 { multiplier=refStats.Scale() / f.Stats.Scale() }
 	offset    :=refStats.Location() - f.Stats.Location()*multiplier
 	data:=f.Data
 	for i, d:=range data {
diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index 492bb10..a94c53e 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -83,6 +83,9 @@ func (op *OpMatchHistogram) Apply(f *fits.Image, c *ops.Context) (result *fits.I
 	}
 	switch op.Mode {
 	case HNMLocation:
+		if f.Stats.Location() == 0 {
+			return nil, fmt.Errorf("%d: cannot match location of a frame with location zero", f.ID)
+		}
 		f.MatchLocation(c.MatchHisto.Location())
 	case HNMLocScale:
 		f.MatchHistogram(c.MatchHisto)
-- 
2.43.0


From bc1a7aee598abd2d8ff6965068e6e040ae154ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 56/97] fix: color combination refuses missing and mismatched
 channels

---
 internal/fits/rgb.go    | 7 +++----
 internal/ops/rgb/rgb.go | 9 +++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 4a357d4..d15a2d1 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -48,9 +48,7 @@ func (rgb RGB) String() string {
 // Combine single color images into one multi-channel image.
 // All images must have the same dimensions, or undefined results occur. 
 func NewRGBFromChannels(chans []*Image, alignStars []star.Star, alignHFR float32, logWriter io.Writer) *Image {
-	naxisn:=make([]int32, len(chans[0].Naxisn)+1)
-	copy(naxisn, chans[0].Naxisn)
-	naxisn[len(chans[0].Naxisn)]=int32(len(chans))
+	naxisn:=[]int32{chans[0].Naxisn[0], chans[0].Naxisn[1], int32(len(chans))}
 
 	rgb:=NewImageFromNaxisn(naxisn, nil)
 	rgb.Exposure=chans[0].Exposure+chans[1].Exposure+chans[2].Exposure
@@ -80,7 +78,8 @@ func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
 			max=ch.Stats.Max()
 		}
 	}
-	mult=1 / (max - min)
+	mult=1
+	if max>min { mult=1 / (max - min) }
 	return min, mult
 }
 
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index fb15b35..5570d3b 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -62,6 +62,9 @@ func (op *OpRGBCombine) MakePromises(ins []ops.Promise, c *ops.Context) (outs []
 		if err != nil {
 			return nil, err
 		}
+		if len(fs) != len(ins) {
+			return nil, fmt.Errorf("%s operator: %d of %d inputs are missing", op.Type, len(ins)-len(fs), len(ins))
+		}
 		return op.Apply(fs, c)
 	}
 	return []ops.Promise{out}, nil
@@ -71,6 +74,12 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for _, f := range fs {
+		if f.Pixels != f.Naxisn[0]*f.Naxisn[1] || !fits.EqualInt32Slice(f.Naxisn[:2], fs[0].Naxisn[:2]) {
+			return nil, fmt.Errorf("%d: cannot combine channel of size %s with size %s", f.ID, f.DimensionsToString(), fs[0].DimensionsToString())
+		}
+	}
+	c.LumFrame = nil // drop luminance left over from an earlier combination
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From 8c176050af8b3cf57e577bea943b6d932644b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 57/97] fix: luminance is normalized like the color channels
 before it is applied

---
 internal/ops/hsl/hsl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index bb988c2..e95dfb4 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -63,7 +63,13 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if err := f.CheckThreeChannels(); err != nil {
 		return nil, err
 	}
+	if len(c.LumFrame.Data) != len(f.Data)/3 {
+		return nil, fmt.Errorf("%d: cannot apply luminance of size %s to image of size %s", f.ID, c.LumFrame.DimensionsToString(), f.DimensionsToString())
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
+	if c.LumFrame.Stats.Max() > c.LumFrame.Stats.Min() {
+		c.LumFrame.Normalize() // conversion requires data in [0,1]
+	}
 	c.LumFrame.MonoToHSLuvLum()
 
 	fmt.Fprintf(c.Log, "Applying luminance image to luminance channel...\n")
-- 
2.43.0


From 37302c6d28f320276d04f11b1f816ce9e21c24d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 58/97] fix: saving expands padded number placeholders

---
 internal/ops/operator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 215dbca..addfb8e 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -22,6 +22,7 @@ import (
 	"fmt"
 	"io"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -352,6 +353,9 @@ const (
 	EM0_65535
 )
 
+// Placeholder for the image id in file name patterns, e.g. %d or %04d
+var idPlaceholder = regexp.MustCompile("%[0-9]*d")
+
 // Saves given promise under a given filename, with pattern expansion for %d based on the image id.
 // Takes one input, produces one output (the materialized but unchanged input)
 type OpSave struct {
@@ -397,9 +401,7 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
 	}
 	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
-		fileName = fmt.Sprintf(op.FilePattern, f.ID)
-	}
+	fileName = idPlaceholder.ReplaceAllStringFunc(fileName, func(verb string) string { return fmt.Sprintf(verb, f.ID) })
 	fnLower := strings.ToLower(fileName)
 
 	if err != nil {
-- 
2.43.0


From f91ed8124b501cb6d5f5a20e2bb83b8798db327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 59/97] fix: saving TIFF and JPEG files reports failures

---
 internal/fits/tiff16.go   | 30 ++++++++++++++++++++----------
 internal/fits/writejpg.go | 30 ++++++++++++++++++++----------
 internal/ops/operator.go  |  8 ++++----
 3 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..fdcd067 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -28,17 +28,22 @@ import (
 )
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteTIFF16(writer, min, max, gamma)
+	if err = f.WriteTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
@@ -91,17 +96,22 @@ func (f *Image) WriteTIFF16(writer io.Writer, min, max, gamma float32) error {
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoTIFF16(writer, min, max, gamma)
+	if err = f.WriteMonoTIFF16(writer, min, max, gamma); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..4ff5ae5 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -26,17 +26,22 @@ import (
 )
 
 // Write a FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteJPG(writer, min, max, gamma, quality)
+	if err = f.WriteJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
 
 // Write a FITS image to JPG, using the given min, max and gamma.
@@ -89,17 +94,22 @@ func (f *Image) WriteJPG(writer io.Writer, min, max, gamma float32, quality int)
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
-
-	return f.WriteMonoJPG(writer, min, max, gamma, quality)
+	if err = f.WriteMonoJPG(writer, min, max, gamma, quality); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index addfb8e..4a75b04 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From 98b3e3a2611ca757888ca022c157365fffa816d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 60/97] fix: exporting refuses unknown modes and a gamma which
 is not positive

---
 internal/ops/operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 4a75b04..4b37b92 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -429,6 +429,9 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		fmt.Fprintf(c.Log, "%d: Writing %s pixel FITS to %s\n", f.ID, f.DimensionsToString(), fileName)
 		err = f.WriteFile(fileName)
 	} else if strings.HasSuffix(fnLower, ".tiff") || strings.HasSuffix(fnLower, ".tif") {
+		if op.ExportMode < EMMinMax || op.ExportMode > EM0_65535 || !(op.Gamma > 0) {
+			return nil, fmt.Errorf("%d: cannot export %s with mode %d and gamma %g", f.ID, fileName, op.ExportMode, op.Gamma)
+		}
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
@@ -441,6 +444,9 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
 	} else if strings.HasSuffix(fnLower, ".jpeg") || strings.HasSuffix(fnLower, ".jpg") {
+		if op.ExportMode < EMMinMax || op.ExportMode > EM0_65535 || !(op.Gamma > 0) {
+			return nil, fmt.Errorf("%d: cannot export %s with mode %d and gamma %g", f.ID, fileName, op.ExportMode, op.Gamma)
+		}
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-- 
2.43.0


From 920149ebc0b29f953fb203424895b33bdbbdec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 61/97] fix: reading color and 8-bit TIFF files

---
 internal/fits/tiff16.go | 51 +++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index fdcd067..8544762 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -163,6 +164,9 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 {
+		return fmt.Errorf("%d: unsupported color model in TIFF file %s", f.ID, fileName)
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -179,7 +183,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
+	sizeTwoThirds := sizeThird * 2
 
 	// keep running stats
 	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
@@ -190,8 +194,15 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
+				var gray float32
+				switch c := t.At(x, y).(type) {
+				case color.Gray:
+					gray = float32(c.Y)
+				case color.Gray16:
+					gray = float32(c.Y)
+				default:
+					return fmt.Errorf("%d: unsupported color model in TIFF file %s", f.ID, fileName)
+				}
 				f.Data[y*width+x] = gray
 
 				// update stats
@@ -209,29 +220,39 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				var r, g, b float32
+				switch c := t.At(x, y).(type) {
+				case color.RGBA:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				case color.RGBA64:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				case color.NRGBA:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				case color.NRGBA64:
+					r, g, b = float32(c.R), float32(c.G), float32(c.B)
+				default:
+					return fmt.Errorf("%d: unsupported color model in TIFF file %s", f.ID, fileName)
+				}
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
 
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
 				// update stats
-				if gray < min {
-					min = gray
+				for _, v := range [3]float32{r, g, b} {
+					if v < min {
+						min = v
+					}
+					if v > max {
+						max = v
+					}
+					sum += float64(v)
 				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
 	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
+	mean := float32(sum / float64(f.Pixels))
 	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
 
 	return nil
-- 
2.43.0


From a5663c5ba97d9141b4257949cddf51716a284de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 62/97] fix: the command itself is not an input file

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d04d5fe..d5319d8 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -277,7 +277,7 @@ Flags:
 
 	// glob filename arguments into an opLoadMany operator
 	var err error
-	opLoadMany := ops.NewOpLoadMany(args)
+	opLoadMany := ops.NewOpLoadMany(args[1:])
 
 	// parse preprocessing flags into preprocessing sequence operator
 	opDebayer := pre.NewOpDebayer(*debayer, *cfa)
-- 
2.43.0


From 0966c811c5dd77555026eb71f7468c61454cc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 63/97] fix: an unknown command is reported in the exit status

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d5319d8..5eaccc5 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -416,7 +416,7 @@ Flags:
 	default:
 		fmt.Fprintf(logWriter, "Unknown command '%s'\n\n", args[0])
 		flag.Usage()
-		return
+		os.Exit(-1)
 	}
 
 	if err != nil {
-- 
2.43.0


From a33cbe077c38177744dc3c61e5897c50b426a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 64/97] fix: serialize the log output of concurrent operators

---
 internal/ops/operator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 4b37b92..f9c2f71 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -25,6 +25,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/star"
@@ -51,10 +52,22 @@ type Context struct {
 	StatsSession int // increased to restart exported statistics
 }
 
+// A writer which may be shared by the goroutines of a context
+type logWriter struct {
+	mutex sync.Mutex
+	out   io.Writer
+}
+
+func (l *logWriter) Write(p []byte) (n int, err error) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
+	return l.out.Write(p)
+}
+
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
 	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
 	return &Context{
-		Log:             log,
+		Log:             &logWriter{out: log},
 		LSEstimatorMode: lsEstimatorMode,
 		MemoryMB:        memoryMB,
 		StackMemoryMB:   stMemory,
-- 
2.43.0


From 0aeb1102ac5e0a3040b10da67ac60e71773fb83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 65/97] fix: a job which is not a sequence is refused instead
 of doing nothing

---
 internal/ops/operator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index f9c2f71..f94e64b 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -502,11 +502,15 @@ func NewOpSequence(steps ...Operator) *OpSequence {
 // Uses temporary op.StepsRaw inspired by https://alexkappa.medium.com/json-polymorphism-in-go-4cade1e58ed1
 func (op *OpSequence) UnmarshalJSON(b []byte) error {
 	type alias OpSequence
-	tmp := alias(*NewOpSequenceDefault())
+	op0 := NewOpSequenceDefault()
+	tmp := alias(*op0)
 	err := json.Unmarshal(b, &tmp)
 	if err != nil {
 		return err
 	}
+	if tmp.Type != op0.Type {
+		return fmt.Errorf("expected operator type '%s' instead of '%s' in raw JSON message '%s'", op0.Type, tmp.Type, string(b))
+	}
 	op.Type = tmp.Type
 	op.Steps = nil // replace prior steps, if any
 
-- 
2.43.0


From 0dc15d996b5879f18f650c51b4839d33ef2aa879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 66/97] fix: a server which cannot listen reports the error

---
 cmd/nightlight/main.go | 2 +-
 internal/rest/serve.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 5eaccc5..4fdf26f 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -300,7 +300,7 @@ Flags:
 	switch args[0] {
 	case "serve":
 		rest.MakeSandbox(*chroot, int(*setuid))
-		rest.Serve(int(*port), int(*stMemory))
+		err = rest.Serve(int(*port), int(*stMemory))
 
 	case "stats":
 		opSeq := ops.NewOpSequence(opLoadMany, opPreProc)
diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0228cd5..79d4a9e 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -33,7 +33,7 @@ import (
 var stMemory int // memory limit in MB for stacking. Not thread safe
 
 // Serve APIs and static files via HTTP
-func Serve(port, theStMemory int) {
+func Serve(port, theStMemory int) error {
 	stMemory = theStMemory
 
 	r := gin.Default()
@@ -58,7 +58,7 @@ func Serve(port, theStMemory int) {
 			v1.StaticFS("/files", http.Dir("."))
 		}
 	}
-	r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	return r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
 }
 
 func CORSMiddleware() gin.HandlerFunc {
-- 
2.43.0


From 52b7d8e11aaec8d622605b80bd9fdeee1f88bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 67/97] fix: save the extracted background

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index eaa7752..ff8daae 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -401,11 +401,15 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	} else {
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
+		bgFits.ID = f.ID
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
 		if err != nil {
 			return nil, err
 		}
+		if _, err = promises[0](); err != nil {
+			return nil, err
+		}
 		Subtract(f.Data, f.Data, bgData)
 		bgFits.Data, bgData = nil, nil
 	}
-- 
2.43.0


From 75de6cdb62a1480e422fbb1bbb5f7355c9779d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 68/97] fix: background grids larger than the frame

---
 internal/ops/pre/background.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..38c5706 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -71,6 +71,12 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 
 	gridCellsX := (width + gridSpacing/2) / gridSpacing
 	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsX < 2 { // interpolation needs two cells per axis
+		gridCellsX = 2
+	}
+	if gridCellsY < 2 {
+		gridCellsY = 2
+	}
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
-- 
2.43.0


From c2c06f0b124078c81f3590144993e1866c16bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 69/97] fix: background grid cells covered by stars

---
 internal/ops/pre/background.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 38c5706..92190a0 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -92,6 +92,7 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	b.binStarsIntoCells(stars)
 
 	b.init(src, sigma)
+	b.fillHoles()
 	//LogPrintf("Sigma %f\n", sigma)
 	//LogPrintln(b.CellsString())
 
@@ -197,13 +198,22 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	b.OutlierCells = ignoredCells
 
 	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
+	b.fillHoles()
+}
+
+// Replaces cells without a value with interpolations of their neighbors
+func (b *Background) fillHoles() {
+	for neighbors := 8; neighbors > 0; neighbors-- {
 		numChanged := 1
 		for numChanged > 0 {
 			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
 		}
 	}
-	buffer = nil
+	for i, cell := range b.Cells { // if no cell has a value, there is no background to subtract
+		if math.IsNaN(float64(cell)) {
+			b.Cells[i] = 0
+		}
+	}
 }
 
 func (b *Background) smoothe() {
@@ -470,6 +480,9 @@ func (b Background) Subtract(dest []float32) error {
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
 	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 {
+		return float32(math.NaN()) // covered by stars
+	}
 
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
-- 
2.43.0


From 82b1ec526bd53e303774f2ed7e926003001152e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 70/97] fix: background grid cells in which most pixels are
 equal

---
 internal/ops/pre/background.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 92190a0..d368379 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -499,7 +499,7 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 	// Calculate trimmed median without upward outliers
 	numSamples := 0
 	for _, v := range medBuffer {
-		if v < upperBound {
+		if v <= upperBound {
 			medBuffer[numSamples] = v
 			numSamples++
 		}
-- 
2.43.0


From b46a9033d520d302f3443c97f55d72e557686dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 71/97] fix: clipping of background grids without brighter
 cells

---
 internal/ops/pre/background.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index d368379..b3aa9dc 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -180,16 +180,26 @@ func (b *Background) init(src []float32, sigma float32) {
 
 // Clips the top n entries from the background gradient
 func (b *Background) clip(n int32, logWriter io.Writer) {
+	if n > b.GridCells {
+		n = b.GridCells
+	}
 	buffer := make([]float32, b.GridCells)
 	copy(buffer, b.Cells)
 	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
 	buffer = nil
 
 	ignoredCells := int32(0)
+	for _, cell := range b.Cells {
+		if cell >= threshold {
+			ignoredCells++
+		}
+	}
+	if ignoredCells == b.GridCells {
+		return // no cell stands out
+	}
 	for i, cell := range b.Cells {
 		if cell >= threshold {
 			b.Cells[i] = float32(math.NaN())
-			ignoredCells++
 		}
 	}
 
-- 
2.43.0


From dc494578b14c45bebf345c2c2d05b56a43405825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 72/97] fix: mask stars larger than background grid cells

---
 internal/ops/pre/background.go | 44 +++++++++++++---------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index b3aa9dc..d6233f8 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -116,39 +116,29 @@ func (b *Background) binStarsIntoCells(stars []star.Star) {
 	cs := b.CellStars
 	for _, s := range stars {
 		sx, sy, hfr := s.X, s.Y, s.HFR*b.HFRFactor
-		// Trace 3x3 grid centered around the star position
-		for yOff := -1; yOff < 2; yOff++ {
-			for xOff := -1; xOff < 2; xOff++ {
-				x := sx + float32(xOff)*hfr
-				y := sy + float32(yOff)*hfr
-
-				cellX := int32(x / b.GridSpacingX)
-				if cellX < 0 {
-					cellX = 0
-				}
-				if cellX >= b.GridCellsX {
-					cellX = b.GridCellsX - 1
-				}
-
-				cellY := int32(y / b.GridSpacingY)
-				if cellY < 0 {
-					cellY = 0
-				}
-				if cellY >= b.GridCellsY {
-					cellY = b.GridCellsY - 1
-				}
-
+		// Trace all cells the star may reach, with a margin of one pixel for rounded cell boundaries
+		xFirst, xLast := cellAt((sx-hfr-1)/b.GridSpacingX, b.GridCellsX), cellAt((sx+hfr+1)/b.GridSpacingX, b.GridCellsX)
+		yFirst, yLast := cellAt((sy-hfr-1)/b.GridSpacingY, b.GridCellsY), cellAt((sy+hfr+1)/b.GridSpacingY, b.GridCellsY)
+		for cellY := yFirst; cellY <= yLast; cellY++ {
+			for cellX := xFirst; cellX <= xLast; cellX++ {
 				cellOffset := cellY*b.GridCellsX + cellX
-				c := cs[cellOffset]
-				l := len(c)
-				if l == 0 || c[l-1] != s {
-					cs[cellOffset] = append(c, s)
-				}
+				cs[cellOffset] = append(cs[cellOffset], s)
 			}
 		}
 	}
 }
 
+// Returns the index of the grid cell at given position in cells, limited to the grid
+func cellAt(pos float32, cells int32) int32 {
+	if !(pos > 0) {
+		return 0
+	}
+	if pos >= float32(cells) {
+		return cells - 1
+	}
+	return int32(pos)
+}
+
 // Initialize background by approximating each grid cell with a linear gradient
 func (b *Background) init(src []float32, sigma float32) {
 	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-- 
2.43.0


From 8d3b42d4ab8092fa53f443ed8b2163c734e0c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:21 +0000
Subject: [PATCH 73/97] fix: interpolate when neutralizing the background

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 076e5d6..2a9837c 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -470,7 +470,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From 211312a7f80b4f4266784eeb204e49af69a66d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 74/97] fix: keep rotated hues in the range of hues

---
 internal/fits/pixelops.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 2a9837c..e42ac86 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -537,6 +537,7 @@ func pf3ChanRotateColors(hs,ss,ls []float32, params interface{}) {
 		if ( from<=to  && (h>from && h<to)) ||
 		   ((from> to) && (h>from || h<to)) {  // if hue in given range (e.g. greens 100..190)
 			h+=offset                          // rotate by given amount (e.g yellow with -30)
+			h-=360*float32(math.Floor(float64(h/360))) // hues stay in [0,360)
 			hs[i]=h
 		}
 	}
-- 
2.43.0


From dd61e9758a5cb6156989c4342432bb9a20ad4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 75/97] fix: refuse saturation gammas which are not positive

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index e95dfb4..fd307d8 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -231,6 +231,9 @@ func (op *OpHSLSaturationGamma) Apply(f *fits.Image, c *ops.Context) (fOut *fits
 	if err := f.CheckThreeChannels(); err != nil {
 		return nil, err
 	}
+	if !(op.Gamma > 0) {
+		return nil, fmt.Errorf("%d: gamma must be positive, not %g", f.ID, op.Gamma)
+	}
 	fmt.Fprintf(c.Log, "Applying gamma %.2f to saturation for values %.4g sigma above background...\n", op.Gamma, op.Sigma)
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
-- 
2.43.0


From a71a48267caf8085c675fc2cc9612f98cb75c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 76/97] fix: keep hues of 45, 90, 225 and 270 degrees when
 converting to HSLuv

---
 internal/fits/pixelops.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index e42ac86..e54a3f9 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -382,7 +382,7 @@ func pf3ChanRGBToHSLuv(rs,gs,bs []float32, params interface{}) {
 		r, g, b:=rs[i], gs[i], bs[i]
 
 		col:=colorful.LinearRgb(float64(r),float64(g),float64(b))
-		h,s,l:=col.HSLuv()
+		h,s,l:=colorToHSLuv(col)
 
 		rs[i], gs[i], bs[i]=float32(h), float32(s), float32(l) 
 	}
@@ -413,6 +413,16 @@ func pf3ChanHSLuvToRGB(rs,gs,bs []float32, params interface{}) {
 // default white, unfortunately defined as private in package colorful
 var hSLuvD65 = [3]float64{0.95045592705167, 1.0, 1.089057750759878}
 
+// convert a color to HSLuv; unlike the HSLuv() method of package colorful, which returns a hue of zero
+// whenever u is close to zero or to v, keeps all hues
+func colorToHSLuv(col colorful.Color) (h, s, l float64) {
+	l, u, v := col.LuvWhiteRef(hSLuvD65)
+	if math.Abs(u)>1e-4 || math.Abs(v)>1e-4 {
+		h=math.Mod(math.Atan2(v, u)*180/math.Pi+360, 360)
+	}
+	return colorful.LuvLChToHSLuv(l, math.Sqrt(u*u+v*v), h)
+}
+
 // convert HSLuv to linear RGB; faster; with color-preserving clamping
 func HSLuvToLinearRGB(h, s, l float32) (r, g, b float32) {
 	// HSLuv -> LuvLCh -> CIELUV -> CIEXYZ -> Linear RGB -> sRGB
@@ -566,7 +576,7 @@ func pf3ChanSCNR(hs,ss,ls []float32, params interface{}) {
 
 		// reassemble with luminance protection
 		col     =colorful.LinearRgb(float64(r),float64(weightedG),float64(b))
-		hnew,snew,_:=col.HSLuv()
+		hnew,snew,_:=colorToHSLuv(col)
 		hs[i], ss[i]=float32(hnew), float32(snew)        
 	}
 }
-- 
2.43.0


From d986185a277466e3be38d19b49ebaf67658d484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 77/97] fix: refuse to balance colors without contrast

---
 internal/fits/rgb.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index d15a2d1..a83e3f4 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -108,7 +108,7 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	scaled:=RGB { loc.R+statsR.Scale()*3, loc.G+statsG.Scale()*3, loc.B+statsB.Scale()*3 }
 	fmt.Fprintf(logWriter, "Location is %s and loc+3 sigma is %s\n", loc, scaled)
 
-	f.setBlackWhitePoints(loc, scaled, shadows, highlights, logWriter)
+	if err:=f.setBlackWhitePoints(loc, scaled, shadows, highlights, logWriter); err!=nil { return err }
 
 	// 2nd pass
 	//
@@ -121,15 +121,17 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
 
-	f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
-
-	return nil
+	return f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
 }
 
 
 // Sets black point and white point once, maintaining brightness of the current shadows and current highlights,
 // but adjusting the color tint towards the target
-func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, targetHighlights RGB, logWriter io.Writer) {
+func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, targetHighlights RGB, logWriter io.Writer) error {
+	if !(curHighlights.R>curShadows.R && curHighlights.G>curShadows.G && curHighlights.B>curShadows.B) {
+		return fmt.Errorf("%d: cannot balance colors without contrast between shadows %s and highlights %s", f.ID, curShadows, curHighlights)
+	}
+
 	// Pick average shadow color as new shadow (avoid degenerated colors)
 	newShadow:=(curShadows.R+curShadows.G+curShadows.B)/3
 	newShadows:=RGB { targetShadows.R*newShadow, targetShadows.G*newShadow, targetShadows.B*newShadow }
@@ -153,6 +155,7 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 	// Apply the correction factors
 	fmt.Fprintf(logWriter, "r=%.3f*r %+.1f%%, g=%.1f*g %+.3f%%, b=%.3f*b %+.1f%%\n", alphaR, betaR*100, alphaG, betaG*100, alphaB, betaB*100)
 	f.ScaleOffsetClampRGB(alphaR, betaR, alphaG, betaG, alphaB, betaB)
+	return nil
 }
 
 
-- 
2.43.0


From 0f40c32f2c15ef5778d264e6f815e10583aa1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 78/97] fix: refuse blocks which do not fit the image when
 balancing colors

---
 internal/fits/rgb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index a83e3f4..93845d0 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -116,7 +116,8 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	statsG=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
 	statsB=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 
-	darkest:= f.findDarkestBlock(block, border)
+	darkest, err:=f.findDarkestBlock(block, border)
+	if err!=nil { return err }
 	clip   := float32(0.9)
 	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
@@ -160,7 +161,8 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 
 
 // finds mean color of the darkest block in a given color image
-func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
+func (f *Image) findDarkestBlock(blockSize int32, border float32) (RGB, error) {
+  if blockSize<=0 || !(border>=0 && border<=1) { return RGB{}, fmt.Errorf("%d: invalid block size %d or border %g", f.ID, blockSize, border) }
   width:=f.Naxisn[0]
   height:=f.Naxisn[1]
   channelSize:=width*height
@@ -225,7 +227,8 @@ func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
      }
   }
 
-  return RGB{rMin, gMin, bMin}
+  if lMin==math.MaxFloat32 { return RGB{}, fmt.Errorf("%d: no block of size %d within border %g of image", f.ID, blockSize, border) }
+  return RGB{rMin, gMin, bMin}, nil
 }
 
 
-- 
2.43.0


From 10fbeceae8fb3cd0d833c0803cc50a4d37d56b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 79/97] fix: refuse to balance colors without star pixels

---
 internal/fits/rgb.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 93845d0..e21b8f6 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -119,7 +119,8 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	darkest, err:=f.findDarkestBlock(block, border)
 	if err!=nil { return err }
 	clip   := float32(0.9)
-	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	stars, err:= f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	if err!=nil { return err }
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
 
 	return f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
@@ -233,12 +234,12 @@ func (f *Image) findDarkestBlock(blockSize int32, border float32) (RGB, error) {
 
 
 // Returns mean color for the stars in the given RGB image
-func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
-	if len(f.Stars)==0 { return RGB{0, 0, 0} }
+func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) (RGB, error) {
+	if !(skipBright>=0 && skipBright<=1 && skipDim>=0 && skipDim<=1) { return RGB{}, fmt.Errorf("%d: cannot skip fractions %g and %g of the stars", f.ID, skipBright, skipDim) }
 
 	sStart:=             int(float32(len(f.Stars))*skipBright)
 	sEnd  :=len(f.Stars)-int(float32(len(f.Stars))*skipDim)
-	if sStart>=sEnd { return RGB{0, 0, 0} }
+	if sStart>=sEnd { return RGB{}, fmt.Errorf("%d: no stars left to balance colors", f.ID) }
 
 	width:=f.Naxisn[0]
 	height:=f.Naxisn[1]
@@ -289,6 +290,7 @@ func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
 	}
 
 	// normalize and return totals
+	if totalPixels==0 { return RGB{}, fmt.Errorf("%d: no unclipped star pixels to balance colors", f.ID) }
 	norm:=1.0/float32(totalPixels)
-	return RGB{totalR*norm, totalG*norm, totalB*norm}
+	return RGB{totalR*norm, totalG*norm, totalB*norm}, nil
 }
-- 
2.43.0


From 526fa5eb6769209efd1feb9527f19d11b1596358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 80/97] fix: blur with small and negative sigmas

---
 internal/ops/hsl/hsl.go         | 2 +-
 internal/ops/stretch/stretch.go | 4 ++--
 internal/ops/stretch/usm.go     | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index fd307d8..2159ff9 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -594,7 +594,7 @@ func (op *OpHSLUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
-	if op.Gain == 0.0 {
+	if op.Sigma <= 0 || op.Gain == 0.0 {
 		return f, nil
 	}
 	if err := f.CheckThreeChannels(); err != nil {
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 9c58e9e..af35bad 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -375,7 +375,7 @@ func (op *OpGaussianBlur) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Sigma==0 { return f, nil }
+	if op.Sigma<=0 { return f, nil }
 
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
@@ -421,7 +421,7 @@ func (op *OpUnsharpMask) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Sigma==0 || op.Gain==0 { return f, nil }
+	if op.Sigma<=0 || op.Gain==0 { return f, nil }
 
 	absThresh:=f.Stats.Location() + f.Stats.Scale()*op.Threshold
 	fmt.Fprintf(c.Log, "%d: Unsharp masking with sigma %.3g gain %.3g thresh %.3g absThresh %.3g\n", 
diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..8446e2a 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -47,7 +47,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 	for {
 		val := GaussianDefiniteIntegral(mu, sigma, float32(-0.5)-float32(radius))
 		if val < acceptOut {
-			radius--
+			if radius > 0 {
+				radius--
+			}
 			break
 		}
 		radius++
-- 
2.43.0


From 3828462dae3e0cc8400dbfe6ebac830952c57365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 81/97] fix: blur images smaller than the kernel

---
 internal/ops/stretch/usm.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 8446e2a..ddf85a7 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -21,10 +21,15 @@ import (
 
 const sqrt2 float32 = float32(math.Sqrt2)
 
-// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
+// Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range,
+// as often as necessary
 func reflect(size, x int) int {
+	if x >= 0 && x < size {
+		return x
+	}
+	x %= 2 * size
 	if x < 0 {
-		return -x - 1
+		x += 2 * size
 	}
 	if x >= size {
 		return 2*size - x - 1
-- 
2.43.0


From 6dd77c72d6565d0fb0b449fa71ebd135efade8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 82/97] fix: blur and sharpen each plane by itself

---
 internal/ops/stretch/stretch.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index af35bad..592970a 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -374,13 +374,22 @@ func (op *OpGaussianBlur) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Returns the number of pixels in each plane of the image
+func planeSize(f *fits.Image) int {
+	if len(f.Naxisn)<2 { return len(f.Data) }
+	return int(f.Naxisn[0])*int(f.Naxisn[1])
+}
+
 func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Sigma<=0 { return f, nil }
 
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	size:=planeSize(f)
+	for lower:=0; lower+size<=len(f.Data); lower+=size { // planes do not blur into each other
+		GaussianBlur(f.Data[lower:lower+size], int(f.Naxisn[0]), op.Sigma)
+	}
 	f.Stats.SetData(f.Data)
 	return f, nil
 }
@@ -429,7 +438,13 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
-	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	min, max:=f.Stats.Min(), f.Stats.Max()
+	sharpened:=make([]float32, 0, len(f.Data))
+	size:=planeSize(f)
+	for lower:=0; lower+size<=len(f.Data); lower+=size { // planes do not blur into each other
+		sharpened=append(sharpened, UnsharpMask(f.Data[lower:lower+size], int(f.Naxisn[0]), op.Sigma, op.Gain, min, max, absThresh)...)
+	}
+	f.Data=sharpened
 	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From 17756037bae620e0a6463bf69f380f2e36ad5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:55 +0000
Subject: [PATCH 83/97] fix: switch vertical debanding off for windows of zero

---
 internal/ops/pre/banding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..0acd8bf 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -195,7 +195,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
-- 
2.43.0


From 02f204b239e871d4a0b85d4b0d7c2c03c65c2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 84/97] fix: deband lines whose samples are all above the
 threshold

---
 internal/ops/pre/banding.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index 0acd8bf..02ffc10 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,6 +88,9 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 { // all above threshold
+			numSamples=copy(rowBuffer, ds)
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
@@ -224,6 +227,12 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 { // all above threshold
+			for row:=int32(0); row<numRows; row++ {
+				colBuffer[row]=f.Data[row*numCols + col]
+			}
+			numSamples=len(colBuffer)
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
-- 
2.43.0


From f37f3d59749d65d586a2963b1e9689e9502dd05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 85/97] fix: keep lines with a percentile of zero when
 debanding

---
 internal/ops/pre/banding.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index 02ffc10..ae78c47 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -118,7 +118,8 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		medianOfRowPercentiles:=qsort.QSelectMedianFloat32(rowPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfRowPercentiles / rowPercentiles[row]
+		factor:=float32(1) // lines with a percentile of zero cannot be scaled
+		if rowPercentiles[row]!=0 { factor=medianOfRowPercentiles / rowPercentiles[row] }
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
@@ -263,7 +264,8 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		medianOfColPercentiles:=qsort.QSelectMedianFloat32(colPercentilesClone)
 
 		// calculate local correction factor
-		factor:=medianOfColPercentiles / colPercentiles[col]
+		factor:=float32(1) // lines with a percentile of zero cannot be scaled
+		if colPercentiles[col]!=0 { factor=medianOfColPercentiles / colPercentiles[col] }
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
-- 
2.43.0


From 99535a832739666c8ffcbbdb828e43d36295eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 86/97] fix: deband all planes of color images

---
 internal/ops/pre/banding.go | 76 +++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index ae78c47..f7a0821 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -66,11 +66,6 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	windowRows:=op.Window
 	if windowRows>numRows { windowRows=numRows }
 
-	// allocate space
-	rowPercentiles     :=make([]float32, numRows)
-	rowPercentilesClone:=make([]float32, windowRows)
-	rowBuffer          :=make([]float32, numCols)
-
 	// calculate threshold from global location and scale, if sigma is present
 	threshold:=float32(math.MaxFloat32)
 	if op.Sigma!=0 {
@@ -78,9 +73,30 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		threshold=loc + op.Sigma*scale
 	}
 
+	// process each color plane by itself
+	lowest, highest:=float32(1), float32(0)
+	size:=int(numCols)*int(numRows)
+	for lower:=0; lower+size<=len(f.Data); lower+=size {
+		l, h:=op.applyToPlane(f.Data[lower:lower+size], numCols, numRows, windowRows, threshold)
+		if l<lowest  { lowest =l }
+		if h>highest { highest=h }
+	}
+	f.Stats.Clear()
+	fmt.Fprintf(c.Log, "%d: De-banded horizontally with %.3fth percentile, window %d, sigma %.2f, threshold %.2f, factors in [%.3f, %.3f]\n", 
+		        f.ID, op.Percentile, op.Window, op.Sigma, threshold, lowest, highest)
+	return f, nil
+}
+
+// Debands a single plane in place. Returns the lowest and highest correction factors
+func (op *OpDebandHoriz) applyToPlane(data []float32, numCols, numRows, windowRows int32, threshold float32) (lowest, highest float32) {
+	// allocate space
+	rowPercentiles     :=make([]float32, numRows)
+	rowPercentilesClone:=make([]float32, windowRows)
+	rowBuffer          :=make([]float32, numCols)
+
 	// calculate desired percentile of each row, excluding values above the threshold
 	for row:=int32(0); row<numRows; row++ {
-		ds:=f.Data[row*numCols:row*numCols+numCols]
+		ds:=data[row*numCols:row*numCols+numCols]
 		numSamples:=0
 		for _,d:=range(ds) {
 			if d<=threshold {
@@ -96,7 +112,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	}
 
 	// correct each row
-	lowest, highest:=float32(1), float32(0)
+	lowest, highest =float32(1), float32(0)
 	for row:=int32(0); row<numRows; row++ {
 		// determine local window and calculate local median of percentiles
 		startRow:=row-(windowRows>>1)
@@ -124,15 +140,12 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 		if factor>highest { highest = factor }
 
 		// apply local correction factor
-		theRow:=f.Data[row*numCols:row*numCols+numCols]
+		theRow:=data[row*numCols:row*numCols+numCols]
 		for col, v:=range(theRow) {
 			theRow[col]=v*factor
 		}
 	}
-	f.Stats.Clear()
-	fmt.Fprintf(c.Log, "%d: De-banded horizontally with %.3fth percentile, window %d, sigma %.2f, threshold %.2f, factors in [%.3f, %.3f]\n", 
-		        f.ID, op.Percentile, op.Window, op.Sigma, threshold, lowest, highest)
-	return f, nil
+	return lowest, highest
 }
 
 func fixWindowEdge(window []float32, missing int32) {
@@ -206,11 +219,6 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 	windowCols:=op.Window
 	if windowCols>numCols { windowCols=numCols }
 
-	// allocate space
-	colPercentiles     :=make([]float32, numCols)
-	colPercentilesClone:=make([]float32, windowCols)
-	colBuffer          :=make([]float32, numRows)
-
 	// calculate threshold from global location and scale, if sigma is present
 	threshold:=float32(math.MaxFloat32)
 	if op.Sigma!=0 {
@@ -218,11 +226,32 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		threshold=loc + op.Sigma*scale
 	}
 
+	// process each color plane by itself
+	lowest, highest:=float32(1), float32(0)
+	size:=int(numCols)*int(numRows)
+	for lower:=0; lower+size<=len(f.Data); lower+=size {
+		l, h:=op.applyToPlane(f.Data[lower:lower+size], numCols, numRows, windowCols, threshold)
+		if l<lowest  { lowest =l }
+		if h>highest { highest=h }
+	}
+	f.Stats.Clear()
+	fmt.Fprintf(c.Log, "%d: De-banded vertically with %.3fth percentile, window %d and sigma %.2f, threshold %.2f, factors in [%.3f, %.3f]\n", 
+		        f.ID, op.Percentile, op.Window, op.Sigma, threshold, lowest, highest)
+	return f, nil
+}
+
+// Debands a single plane in place. Returns the lowest and highest correction factors
+func (op *OpDebandVert) applyToPlane(data []float32, numCols, numRows, windowCols int32, threshold float32) (lowest, highest float32) {
+	// allocate space
+	colPercentiles     :=make([]float32, numCols)
+	colPercentilesClone:=make([]float32, windowCols)
+	colBuffer          :=make([]float32, numRows)
+
 	// calculate desired percentile of each column
 	for col:=int32(0); col<numCols; col++ {
 		numSamples:=0
 		for row:=int32(0); row<numRows; row++ {
-			d:=f.Data[row*numCols + col]
+			d:=data[row*numCols + col]
 			if d<=threshold {
 				colBuffer[numSamples]=d
 				numSamples++
@@ -230,7 +259,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 		}
 		if numSamples==0 { // all above threshold
 			for row:=int32(0); row<numRows; row++ {
-				colBuffer[row]=f.Data[row*numCols + col]
+				colBuffer[row]=data[row*numCols + col]
 			}
 			numSamples=len(colBuffer)
 		}
@@ -242,7 +271,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 	copy(colPercentilesClone, colPercentiles)
 
 	// apply correction to each column
-	lowest, highest:=float32(1), float32(0)
+	lowest, highest =float32(1), float32(0)
 	for col:=int32(0); col<numCols; col++ {
 		// determine local window and calculate local median of percentiles
 		startCol:=col-(windowCols>>1)
@@ -271,11 +300,8 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 
 		// apply local correction factor
 		for row:=int32(0); row<numRows; row++ {
-			f.Data[row*numCols + col] *= factor			
+			data[row*numCols + col] *= factor			
 		}
 	}
-	f.Stats.Clear()
-	fmt.Fprintf(c.Log, "%d: De-banded vertically with %.3fth percentile, window %d and sigma %.2f, threshold %.2f, factors in [%.3f, %.3f]\n", 
-		        f.ID, op.Percentile, op.Window, op.Sigma, threshold, lowest, highest)
-	return f, nil
+	return lowest, highest
 }
-- 
2.43.0


From 96d34f5ead06f20e9cc79b2b83338cbf44ab359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 87/97] fix: let the editor show its code again

---
 web/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/index.html b/web/index.html
index 076d381..c69a730 100644
--- a/web/index.html
+++ b/web/index.html
@@ -62,7 +62,7 @@
     <table>
       <tr><td><h1>Nightlight</h1></td><td><button onclick="showCode()">Show code</button> <button onclick="run()">Run</button></td></tr>
       <tr><td id="blocklyArea" width="768px"></td><td width="*">
-        <table><tr><td height="50%"><img src="/api/v1/files/C2021A1_LRGB.jpg" id="image"></img><!--<h2>Generated JSON</h2><br></br><div id="generatedCode"></div>--></td></tr>
+        <table><tr><td height="50%"><img src="/api/v1/files/C2021A1_LRGB.jpg" id="image"></img><h2>Generated JSON</h2><br></br><div id="generatedCode"></div></td></tr>
                <tr><td height="50%"><h2>Log messages</h2><br></br><pre id="logMessages"></pre></td></tr></table>
       </td></tr>
     </table>
-- 
2.43.0


From fca589be55aeafc49525822c09f2c59f510752bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:02 +0000
Subject: [PATCH 88/97] fix: post jobs to the server the editor came from

---
 web/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/index.html b/web/index.html
index c69a730..c7e9e0d 100644
--- a/web/index.html
+++ b/web/index.html
@@ -116,7 +116,7 @@
           body: code,
         };
 
-        fetch('http://localhost:8080/api/v1/job', options)
+        fetch('/api/v1/job', options)
           .then(processChunkedResponse)
           .then(onChunkedResponseComplete)
           .catch(onChunkedResponseError)
-- 
2.43.0


From c93b70976e88cbca8417357abe7e169c486e8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 89/97] fix: send numbers chosen from lists in the editor as
 numbers

---
 web/js/blocks.js  |  2 +-
 web/js/codegen.js | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 19b395c..11fb4ae 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -264,7 +264,7 @@ Blockly.defineBlocksWithJsonArray([
     "args0": [
       {
         "type": "field_dropdown",
-        "name": "grid",
+        "name": "gridSize",
         "options" : [
           [ "0", "0"],
           [ "32", "32"],
diff --git a/web/js/codegen.js b/web/js/codegen.js
index 0aa1b36..016c848 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -70,11 +70,11 @@ Json["nl_pre_debayer"]=function(block) {
 }
 
 Json["nl_pre_debandVert"]=function(block) {
-  return createJsonObject(block, "debandVert", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandVert", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_debandHoriz"]=function(block) {
-  return createJsonObject(block, "debandHoriz", ["percentile", "window"], null, null);
+  return createJsonObject(block, "debandHoriz", ["percentile"], ["window"], null);
 }
 
 Json["nl_pre_scaleOffset"]=function(block) {
@@ -82,11 +82,11 @@ Json["nl_pre_scaleOffset"]=function(block) {
 }
 
 Json["nl_pre_bin"]=function(block) {
-  return createJsonObject(block, "bin", ["binSize"], null, null);
+  return createJsonObject(block, "bin", null, ["binSize"], null);
 }
 
 Json["nl_pre_backExtract"]=function(block) {
-  return createJsonObject(block, "backExtract", ["gridSize", "hfrFactor", "sigma", "clip"], null, ["save"]);
+  return createJsonObject(block, "backExtract", ["hfrFactor", "sigma", "clip"], ["gridSize"], ["save"]);
 }
 
 Json["nl_pre_starDetect"]=function(block) {
@@ -162,7 +162,7 @@ Json["nl_hsl_hslApplyLum"]=function(block) {
 }
 
 Json["nl_hsl_hslScaleOffsetChannel"]=function(block) {
-  return createJsonObject(block, "hslScaleOffsetChannel", ["channelID", "scale", "offset"], null);
+  return createJsonObject(block, "hslScaleOffsetChannel", ["scale", "offset"], ["channelID"], null);
 }
 
 Json["nl_hsl_hslNeutralizeBackground"]=function(block) {
-- 
2.43.0


From 0dfa721b5771c0572821db2b240f2e5b3bfb1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 90/97] fix: accept single steps in the editor as jobs and as
 batch operators

---
 web/js/codegen.js | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/web/js/codegen.js b/web/js/codegen.js
index 016c848..cd0cae8 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -21,6 +21,17 @@ Json.scrub_ = function(block, code, opt_thisOnly) {
   return JSON.stringify(seq);
 };
 
+// Turns a job of a single step into a seq object, as the server expects one
+Json.finish = function(code) {
+  return code=="" ? code : asSequence(code);
+};
+
+// Turns the code of a single operator into a seq object, and leaves seq objects as they are
+function asSequence(code) {
+  const op=JSON.parse(code.split("\n")[0]);
+  return op["type"]=="seq" ? code : JSON.stringify({"type": "seq", "steps": [op]});
+}
+
 // Turns a block representing a Nightlight operator into stringified JSON 
 function createJsonObject(block, typeName, fieldNames, numberFieldNames, statementNames) {
   var res={"type": typeName};
@@ -110,7 +121,11 @@ Json["nl_stack_stack"]=function(block) {
 }
 
 Json["nl_stack_stackBatches"]=function(block) {
-  return createJsonObject(block, "stackBatches", null, null, ["perBatch"]);
+  var res={"type": "stackBatches"};
+  const statementString=Json.statementToCode(block, "perBatch");
+  if(statementString!="")
+    res["perBatch"]=JSON.parse(asSequence(statementString));
+  return JSON.stringify(res);
 }
 
 Json["nl_stretch_normRange"]=function(block) {
-- 
2.43.0


From 90e7320a2c590fdfe51db3ab2d3ac0220a831b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 91/97] fix: keep defaults of inputs left empty in the editor

---
 web/js/codegen.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/js/codegen.js b/web/js/codegen.js
index cd0cae8..cc3005d 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -46,8 +46,8 @@ function createJsonObject(block, typeName, fieldNames, numberFieldNames, stateme
   if(statementNames)
     statementNames.forEach((statementName, index) => {
       const statementString=Json.statementToCode(block,statementName);
-      const statement=statementString=="" ? null : JSON.parse(statementString);
-      res[statementName]=statement;
+      if(statementString!="") // else keep the default
+        res[statementName]=JSON.parse(statementString);
     });
   return JSON.stringify(res);
 }
-- 
2.43.0


From 1c6cf6c4ffe9abdcd4a68d3651723e8ac1ec3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 92/97] fix: send the modes of reference selection the server
 knows

---
 web/js/blocks.js  | 10 +++++-----
 web/js/codegen.js |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 11fb4ae..32db93a 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -393,11 +393,11 @@ Blockly.defineBlocksWithJsonArray([
         "type": "field_dropdown",
         "name": "mode",
         "options" : [
-          [ "highest # stars / HFR (for lights)", "0"],
-          [ "median skyfog location (for flats)", "1"],
-          [ "given filename", "2"],
-          [ "given in-memory image", "3"],
-          [ "Lum if present, else best RGB", "4"]
+          [ "highest # stars / HFR (for lights)", "%starsHFR"],
+          [ "median skyfog location (for flats)", "%location"],
+          [ "given filename", "file"],
+          [ "given in-memory image", "memory"],
+          [ "Lum if present, else best RGB", "%rgb"]
         ]
       }
     ],
diff --git a/web/js/codegen.js b/web/js/codegen.js
index cc3005d..513f463 100644
--- a/web/js/codegen.js
+++ b/web/js/codegen.js
@@ -105,7 +105,10 @@ Json["nl_pre_starDetect"]=function(block) {
 }
 
 Json["nl_ref_selectReference"]=function(block) {
-  return createJsonObject(block, "selectRef", ["fileName",], ["mode"], ["starDetect"]);
+  var res=JSON.parse(createJsonObject(block, "selectRef", ["mode"], null, ["starDetect"]));
+  if(res["mode"]=="file" || res["mode"]=="memory") // file names and numbers of in-memory images are modes
+    res["mode"]=block.getFieldValue("fileName");
+  return JSON.stringify(res);
 }
 
 Json["nl_post_matchHistogram"]=function(block) {
-- 
2.43.0


From 52a9878f4daee3e0694cedf7a61adf34efdfa439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:05 +0000
Subject: [PATCH 93/97] fix: send the stacking modes shown in the editor

---
 web/js/blocks.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/js/blocks.js b/web/js/blocks.js
index 32db93a..4ece711 100644
--- a/web/js/blocks.js
+++ b/web/js/blocks.js
@@ -503,8 +503,8 @@ Blockly.defineBlocksWithJsonArray([
           [ "mean (no sigmas)", "1"],
           [ "sigma-clipped mean", "2"],
           [ "winsorized mean", "3"],
-          [ "linear regression fit", "4"],
-          [ "automatic mode selection", "5"],
+          [ "linear regression fit", "5"],
+          [ "automatic mode selection", "6"],
         ]
       }
     ],
-- 
2.43.0


From 9a45fe322d255b096f011dc6af705d18cb2296d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 94/97] fix: load reference frames without star detection

---
 internal/ops/ref/refframe.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 6b71b37..2789d7a 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -139,7 +139,9 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, sel *selectio
 				return nil, c.RefFrameError
 			}
 
-			promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
+			if op.StarDetect != nil {
+				promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
+			}
 			if c.RefFrameError != nil {
 				return nil, c.RefFrameError
 			}
-- 
2.43.0


From dc2e3f6cd37653c58f246401fd0c16988416c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:45 +0000
Subject: [PATCH 95/97] fix: end the k-sigma estimator when most pixels are
 alike

---
 internal/stats/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index ed4a3d1..99c4607 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -530,6 +530,9 @@ func bwmv(xs []float32, median float32, tmp []float32) float32 {
 	}
 	mad := qsort.QSelectMedianFloat32(mads)
 	mads = nil
+	if mad == 0 { // more than half of the values are alike
+		return 0
+	}
 
 	ys := tmp[:len(xs)]
 	for i, x := range xs {
-- 
2.43.0


From 6decaa10da70ac1670811b836b9d77e95170fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 96/97] fix: iterate the k-sigma estimator whatever the range
 of values

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 99c4607..8842637 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -567,7 +567,7 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 	tmp := make([]float32, len(data))
 
 	i, j := 0, len(xs)
-	s0 := float32(1)
+	s0 := float32(math.Inf(1))
 	for {
 		if j-i < 1 {
 			return 0, 0
-- 
2.43.0


From bc79c8b479edf126d44d9401e9031254aec6e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 97/97] fix: sample pairs of pixels evenly when estimating the
 scale

---
 internal/stats/stats.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 8842637..aa344aa 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -444,8 +444,10 @@ func FastApproxQn(data []float32, samples []float32) float32 {
 	}
 	rng := fastrand.RNG{}
 	for i := range samples {
-		index1 := 1 + rng.Uint32n(max-1)
-		index2 := rng.Uint32n(index1)
+		index1, index2 := rng.Uint32n(max), rng.Uint32n(max-1)
+		if index2 >= index1 { // all pairs are equally likely
+			index2++
+		}
 		samples[i] = float32(math.Abs(float64(data[index1] - data[index2])))
 	}
 	qn := qsort.QSelectFirstQuartileFloat32(samples) * 2.21914 // normalize to Gaussian std dev, for large numSamples >>1000.
@@ -460,12 +462,16 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	for i := range samples {
 		var d1, d2 float32
 		for {
-			index1 := 1 + rng.Uint32n(max-1)
+			index1 := rng.Uint32n(max)
 			d1 = data[index1]
 			if d1 < lowBound || d1 > highBound {
 				continue
 			}
-			d2 = data[rng.Uint32n(index1)]
+			index2 := rng.Uint32n(max - 1)
+			if index2 >= index1 { // all pairs are equally likely
+				index2++
+			}
+			d2 = data[index2]
 			if d2 >= lowBound && d2 <= highBound {
 				break
 			}
-- 
2.43.0

