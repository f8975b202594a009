From ba9bb0ceb80af5baa62d425cbf3eff2c05f0408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 01/45] fix: return the error for a wrong number of indices
 instead of panicking

---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From d42154888c903e21cc74b124ad1241235a221fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 02/45] fix: pad the first position beyond the end of an
 extended sub-tensor

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From ffdeaa95e30d80c9e14724b69f96a53817512b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 03/45] fix: immediate Reshape to a smaller or larger size

---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From f6dee7cd7666b2f2a7f7821e52260de9f649af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 04/45] fix: Flatten of an expression that is not built yet
 keeps all its elements

---
 tensor/reshape.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..064a0b9 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -10,6 +10,8 @@ import (
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
 	T Tensor[T]
+
+	flat bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +24,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:    t,
+		flat: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +44,9 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flat {
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 75635adfc03e67f7487894d6f36d1c0fe575db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:20 +0000
Subject: [PATCH 05/45] fix: Concat rejects shapes that differ outside the
 dimension and bad dimensions

---
 tensor/concat.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..cb768d2 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -23,6 +23,29 @@ func Concat[T types.Number](a, b Tensor[T], dim uint) Tensor[T] {
 	}
 }
 
+func checkConcat(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for tensors with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if a[i] != b[i] && uint(i) != dim {
+			return errors.FmtNeuralError("Different shapes %d and %d at %d", a[i], b[i], i)
+		}
+	}
+	return nil
+}
+
 func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
@@ -37,21 +60,9 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
-		return errors.FmtNeuralError(
-			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
-		)
-	}
-	if e >= 0 && uint(e) != p.D {
-		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
-		)
+	err = checkConcat(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
 	}
 
 	p.Shape = p.A.GetShape()
@@ -90,6 +101,11 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 }
 
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := checkConcat(p.GetShape(), m.GetShape(), dim)
+	if err != nil {
+		return nil, err
+	}
+
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From 5740ce48e6797fbb931ee1c1ca8432998f289f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:20 +0000
Subject: [PATCH 06/45] fix: immediate Concat returns copies, not the operands'
 own cells

---
 tensor/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index cb768d2..41344dd 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -137,14 +137,14 @@ func (p *TensorMat[T]) concatLastDim(
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	} else {
 		oIndex[dim] -= dimSize
 		o, err := m.GetOperand(oIndex...)
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	}
 	return nil
 }
-- 
2.43.0


From 9212876232e3b9048b877259698a2f25e54d5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:20 +0000
Subject: [PATCH 07/45] fix: DotAt reports a dimension that does not exist

---
 tensor/dot_product.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..1869ba0 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,15 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -214,6 +223,15 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From 735bee693686fa8cae6541c9c509b6d83d464c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:20 +0000
Subject: [PATCH 08/45] fix: tensors keep their own copy of the shape they are
 given

---
 tensor/constructor.go | 2 +-
 tensor/reshape.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensor/constructor.go b/tensor/constructor.go
index dcbc56b..e2a610d 100644
--- a/tensor/constructor.go
+++ b/tensor/constructor.go
@@ -10,7 +10,7 @@ import (
 
 func initMat[T types.Number](shape []uint) *TensorMat[T] {
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: tools.GetIndexMul(shape),
 	}
 }
diff --git a/tensor/reshape.go b/tensor/reshape.go
index 064a0b9..e82cfa8 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -17,7 +17,7 @@ type TensorReshape[T types.Number] struct {
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 	return &TensorReshape[T]{
 		TensorMat: TensorMat[T]{
-			Shape: shape,
+			Shape: append([]uint{}, shape...),
 		},
 		T: t,
 	}
@@ -85,7 +85,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 	}
 
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: mulIndex,
 		Operands: ops,
 	}
-- 
2.43.0


From 6d1b4ebf262fefc9382dec2aaf87ef383f0f1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:40 +0000
Subject: [PATCH 09/45] fix: SaveFull and LoadFull can write and read tensors

---
 tensor/tensor_mat.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..dc58e10 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,30 +182,31 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims uint64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
 	}
-
-	p.Shape = make([]uint, dims)
-	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+	shape := []uint{}
+	for i := uint64(0); i < dims; i++ {
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
+		shape = append(shape, uint(s))
 	}
-
-	p.MulIndex = tools.GetIndexMul(p.Shape)
-	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
-
-	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+	operands := make([]*number.Scalar[T], tools.GetDataSize(shape))
+	for i := range operands {
+		operands[i] = &number.Scalar[T]{}
+		err := binary.Read(r, binary.LittleEndian, &operands[i].Value)
 		if err != nil {
 			return err
 		}
 	}
-
+	p.Shape = shape
+	p.MulIndex = tools.GetIndexMul(shape)
+	p.Operands = operands
 	return nil
 }
 
-- 
2.43.0


From 165a9a40f5f0e0f4d566fb3c1b0d0d433f3d8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 10/45] fix: tensors of int can be saved and loaded

---
 tensor/tensor_mat.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index dc58e10..7f08b1d 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -161,6 +161,26 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 	return p
 }
 
+// encoding/binary has no encoding for int, which has no fixed size
+func writeValue[T types.Number](w io.Writer, v T) error {
+	if n, ok := any(v).(int); ok {
+		return binary.Write(w, binary.LittleEndian, int64(n))
+	}
+	return binary.Write(w, binary.LittleEndian, v)
+}
+
+func readValue[T types.Number](r io.Reader, v *T) error {
+	if n, ok := any(v).(*int); ok {
+		var v64 int64
+		err := binary.Read(r, binary.LittleEndian, &v64)
+		if err == nil {
+			*n = int(v64)
+		}
+		return err
+	}
+	return binary.Read(r, binary.LittleEndian, v)
+}
+
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
@@ -173,7 +193,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 		}
 	}
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -199,7 +219,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 	operands := make([]*number.Scalar[T], tools.GetDataSize(shape))
 	for i := range operands {
 		operands[i] = &number.Scalar[T]{}
-		err := binary.Read(r, binary.LittleEndian, &operands[i].Value)
+		err := readValue(r, &operands[i].Value)
 		if err != nil {
 			return err
 		}
@@ -212,7 +232,7 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 func (p *TensorMat[T]) Save(w io.Writer) error {
 	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
+		err := writeValue(w, s.Value)
 		if err != nil {
 			return err
 		}
@@ -222,7 +242,7 @@ func (p *TensorMat[T]) Save(w io.Writer) error {
 
 func (p *TensorMat[T]) Load(r io.Reader) error {
 	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+		err := readValue(r, &p.Operands[i].Value)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bc1c333a6c760188921371c5fffb2382850e0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 11/45] fix: a failed build leaves no tensor marked as built

---
 context/context.go    | 23 +++++++++++++++++++++++
 tensor/abs.go         |  6 +++---
 tensor/activate.go    |  6 +++---
 tensor/concat.go      |  6 +++---
 tensor/copy.go        |  6 +++---
 tensor/dim_math.go    |  6 +++---
 tensor/dot_product.go |  6 +++---
 tensor/fill.go        |  6 +++---
 tensor/neg.go         |  6 +++---
 tensor/oper2.go       |  6 +++---
 tensor/oper_scalar.go |  6 +++---
 tensor/reshape.go     |  6 +++---
 tensor/softmax.go     |  6 +++---
 tensor/sub_tensor.go  |  6 +++---
 tensor/tensor_mat.go  |  2 +-
 tensor/tensor_math.go |  6 +++---
 tensor/transpose.go   |  6 +++---
 17 files changed, 69 insertions(+), 46 deletions(-)

diff --git a/context/context.go b/context/context.go
index 2adba37..8b779fa 100644
--- a/context/context.go
+++ b/context/context.go
@@ -11,6 +11,7 @@ type Context struct {
 	size  uint
 	start *node
 	end   *node
+	built []*bool
 }
 
 func NewCTX() *Context {
@@ -31,6 +32,28 @@ func (p *Context) Push(o operation.Operation) {
 	}
 }
 
+// Begin marks a tensor as built in this context. The returned function undoes
+// everything done in the context since then if the build of the tensor failed.
+func (p *Context) Begin(built *bool) func(*error) {
+	size, start, end, marks := p.size, p.start, p.end, len(p.built)
+	*built = true
+	p.built = append(p.built, built)
+
+	return func(err *error) {
+		if *err == nil {
+			return
+		}
+		for _, b := range p.built[marks:] {
+			*b = false
+		}
+		p.built = p.built[:marks]
+		p.size, p.start, p.end = size, start, end
+		if end != nil {
+			end.next = nil
+		}
+	}
+}
+
 func (p *Context) GetOps() []operation.Operation {
 	ops := make([]operation.Operation, p.size)
 	cur := p.start
diff --git a/tensor/abs.go b/tensor/abs.go
index ea74667..2a01bf1 100644
--- a/tensor/abs.go
+++ b/tensor/abs.go
@@ -18,13 +18,13 @@ func Abs[T types.Number](t Tensor[T]) Tensor[T] {
 	}
 }
 
-func (p *TensorAbs[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorAbs[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/activate.go b/tensor/activate.go
index cefae49..54819a3 100644
--- a/tensor/activate.go
+++ b/tensor/activate.go
@@ -20,13 +20,13 @@ func Activate[T types.Number](t Tensor[T], f operation.Function[T]) Tensor[T] {
 	}
 }
 
-func (p *TensorActivate[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorActivate[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/concat.go b/tensor/concat.go
index 41344dd..0b0160f 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -46,12 +46,12 @@ func checkConcat(a, b []uint, dim uint) error {
 	return nil
 }
 
-func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
-	err := p.A.BuildGraph(ctx)
+	defer ctx.Begin(&p.builded)(&err)
+	err = p.A.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/copy.go b/tensor/copy.go
index 7a714b8..4123370 100644
--- a/tensor/copy.go
+++ b/tensor/copy.go
@@ -25,13 +25,13 @@ func Transfer[T types.Number](ctx *context.Context, from, to Tensor[T]) error {
 	return cp.BuildGraph(ctx)
 }
 
-func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.F.BuildGraph(ctx)
+	err = p.F.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/dim_math.go b/tensor/dim_math.go
index c3895a1..2b304cf 100644
--- a/tensor/dim_math.go
+++ b/tensor/dim_math.go
@@ -33,12 +33,12 @@ func DimMath[T types.Number](t Tensor[T], dim uint, oper OperDim) Tensor[T] {
 	}
 }
 
-func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
-	err := p.T.BuildGraph(ctx)
+	defer ctx.Begin(&p.builded)(&err)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index 1869ba0..ebd47a0 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -37,13 +37,13 @@ func DotAt[T types.Number](a, b Tensor[T], dimA, dimB uint) Tensor[T] {
 	}
 }
 
-func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.A.BuildGraph(ctx)
+	err = p.A.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/fill.go b/tensor/fill.go
index 8025ee8..d0330c3 100644
--- a/tensor/fill.go
+++ b/tensor/fill.go
@@ -25,13 +25,13 @@ func Fill[T types.Number](ctx *context.Context, t Tensor[T], v *number.Scalar[T]
 	return cp.BuildGraph(ctx)
 }
 
-func (p *TensorFill[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorFill[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/neg.go b/tensor/neg.go
index ecaf3a5..7b2dc1e 100644
--- a/tensor/neg.go
+++ b/tensor/neg.go
@@ -18,13 +18,13 @@ func Neg[T types.Number](t Tensor[T]) Tensor[T] {
 	}
 }
 
-func (p *TensorNeg[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorNeg[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/oper2.go b/tensor/oper2.go
index 449a492..204fd31 100644
--- a/tensor/oper2.go
+++ b/tensor/oper2.go
@@ -32,13 +32,13 @@ func NewOp2[T types.Number](a, b Tensor[T], o Oper2) Tensor[T] {
 	}
 }
 
-func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.A.BuildGraph(ctx)
+	err = p.A.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/oper_scalar.go b/tensor/oper_scalar.go
index c5e5379..f81ab6c 100644
--- a/tensor/oper_scalar.go
+++ b/tensor/oper_scalar.go
@@ -31,13 +31,13 @@ func NewOpScalar[T types.Number](t Tensor[T], s *number.Scalar[T], o OperScalar)
 	}
 }
 
-func (p *TensorOpScalar[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorOpScalar[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/reshape.go b/tensor/reshape.go
index e82cfa8..bd4dfb3 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -33,13 +33,13 @@ func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
 	}
 }
 
-func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/softmax.go b/tensor/softmax.go
index 230875d..298fc99 100644
--- a/tensor/softmax.go
+++ b/tensor/softmax.go
@@ -19,13 +19,13 @@ func SoftMax[T types.Number](t Tensor[T]) Tensor[T] {
 	}
 }
 
-func (p *TensorSoftMax[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorSoftMax[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 09340cb..f71f912 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -37,13 +37,13 @@ func SubExtendedTensor[T types.Number](t Tensor[T], dim, from, to uint) Tensor[T
 	}
 }
 
-func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 7f08b1d..b9fd754 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -25,7 +25,7 @@ func (p *TensorMat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	ctx.Begin(&p.builded)
 
 	for i := range p.Operands {
 		ctx.Push(&operation.Scalar[T]{Scalar: p.Operands[i]})
diff --git a/tensor/tensor_math.go b/tensor/tensor_math.go
index 4211de3..031e439 100644
--- a/tensor/tensor_math.go
+++ b/tensor/tensor_math.go
@@ -30,13 +30,13 @@ func TensorMath[T types.Number](t Tensor[T], oper OperTensor) Tensor[T] {
 	}
 }
 
-func (p *TensorTensorMath[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorTensorMath[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/tensor/transpose.go b/tensor/transpose.go
index 0d09df3..1e6b21b 100644
--- a/tensor/transpose.go
+++ b/tensor/transpose.go
@@ -18,13 +18,13 @@ func Transpose[T types.Number](t Tensor[T]) Tensor[T] {
 	}
 }
 
-func (p *TensorTanspose[T]) BuildGraph(ctx *context.Context) error {
+func (p *TensorTanspose[T]) BuildGraph(ctx *context.Context) (err error) {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
+	defer ctx.Begin(&p.builded)(&err)
 
-	err := p.T.BuildGraph(ctx)
+	err = p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d4f72f1cae4e685157bf1ae7d7ef3e5caa333f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 12/45] fix: Conv2D back-propagation with different sizes or
 strides per axis

---
 layer/conv2d.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..9291bf2 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,9 +259,9 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
-							if ix < inShape[1] || iy < inShape[2] {
+							if ix < inShape[1] && iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
 								if err != nil {
 									return err
-- 
2.43.0


From 99519ad294be4ac521a04d9f3b7008e45018f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:19 +0000
Subject: [PATCH 13/45] fix: report kernels larger than their input and zero
 sizes as errors

---
 layer/conv2d.go         | 11 +++++++++++
 layer/deconv2d.go       |  3 +++
 layer/max_pool_2d.go    |  3 +++
 layer/up_sampling_2d.go |  3 +++
 4 files changed, 20 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 9291bf2..895f8df 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,17 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.NF == 0 || p.KW == 0 || p.KH == 0 || p.SX == 0 || p.SY == 0 {
+		return p.Error("Invalid number of filters, kernel size or stride => 0")
+	}
+	if p.KW > inShape[1] || p.KH > inShape[2] {
+		return p.Error(fmt.Sprintf(
+			"Invalid kernel size %dx%d for an input with shape %s",
+			p.KW,
+			p.KH,
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 6cebb96..e8c2a92 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -83,6 +83,9 @@ func (p *Deconv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.NF == 0 || p.KW == 0 || p.KH == 0 || p.SX == 0 || p.SY == 0 {
+		return p.Error("Invalid number of filters, kernel size or stride => 0")
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-1)*p.SX + p.KW,
diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 5df8343..24bb717 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -66,6 +66,9 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 			tools.ShapeStr(p.Input.GetShape()),
 		))
 	}
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error("Invalid window size => 0")
+	}
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 5b353fc..483c5ec 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -66,6 +66,9 @@ func (p *UpSampling2D[T]) BuildFeedforward(ctx *context.Context) error {
 			tools.ShapeStr(p.Input.GetShape()),
 		))
 	}
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error("Invalid window size => 0")
+	}
 
 	// inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-- 
2.43.0


From 01483cc5284bb682d48be53e5bc2cf9de039cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:19 +0000
Subject: [PATCH 14/45] fix: NewUpSampling2Dxy creates an up-sampling layer

---
 layer/up_sampling_2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 483c5ec..1c3f9d5 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -27,7 +27,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 }
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
-	l := &MaxPool2D[T]{}
+	l := &UpSampling2D[T]{}
 	l.Type = "MaxPool"
 	l.SX = sx
 	l.SY = sy
-- 
2.43.0


From 63fa79c14d8a3db3765f3fc6373bea629ba64d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:19 +0000
Subject: [PATCH 15/45] fix: max-pooling covers every input element with any
 window size

---
 layer/max_pool_2d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 24bb717..99de255 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -72,8 +72,8 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-	outShape[1] = (outShape[1] + 1) / p.SX
-	outShape[2] = (outShape[2] + 1) / p.SY
+	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
+	outShape[2] = (outShape[2] + p.SY - 1) / p.SY
 	p.Output = tensor.NewZeros[T](outShape...)
 	// p.Output = p.Neta // tensor.NewZeros[T](outShape...)
 
-- 
2.43.0


From 2c69ee332d86a2ccd24c09406f0327b13548644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:31 +0000
Subject: [PATCH 16/45] fix: training compiles the model first and compiling
 again changes nothing

---
 model/model.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index b848c09..7ff27bc 100644
--- a/model/model.go
+++ b/model/model.go
@@ -36,6 +36,8 @@ type Model[T types.Number] struct {
 	GraphCalDif          *graph.Graph
 	GraphResetFit        *graph.Graph
 	GraphReset           *graph.Graph
+
+	compileErr error
 }
 
 func NewModel[T types.Number]() *Model[T] {
@@ -62,13 +64,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
-			models[i].Compile()
+			err := models[i].Compile()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
-			models[i].CompileBackPropagation()
+			err := models[i].CompileBackPropagation()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -150,6 +158,19 @@ func (p *Model[T]) Push(l layer.Layer[T]) *Model[T] {
 }
 
 func (p *Model[T]) Compile() error {
+	if p.GraphFeedForward != nil {
+		return nil
+	}
+	if p.LastLayer == nil {
+		return errors.FmtNeuralError("Can not compile a model without layers")
+	}
+	if p.compileErr == nil {
+		p.compileErr = p.compile()
+	}
+	return p.compileErr
+}
+
+func (p *Model[T]) compile() error {
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
@@ -186,10 +207,18 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphBackPropagation != nil {
+		return nil
+	}
+	err := p.Compile()
+	if err != nil {
+		return err
+	}
+
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-	err := dif.BuildGraph(ctx)
+	err = dif.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c5b924096f792f4f1d759adbdd997a5ead42d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 17/45] fix: Concat has its error tensor ready for any layer
 that follows it

---
 layer/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..8617335 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -86,7 +86,7 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 
 	p.Dif = tensor.Concat[T](p.l1.GetDif(), p.l2.GetDif(), p.dim)
 
-	return nil
+	return p.Dif.BuildGraph(ctx)
 }
 
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
-- 
2.43.0


From 921202a4aaf08a3b0e263521a2cb9f38716cdfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 18/45] fix: Concat passes fitting and resets on to both of its
 branches

---
 layer/concat.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 8617335..e6a5356 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,42 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	p.l1.ResetLoad()
+	p.l2.ResetLoad()
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	p.l1.ResetSave()
+	p.l2.ResetSave()
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From 0be1466b088e832fe6e3b307b385ccf84d9f2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:50 +0000
Subject: [PATCH 19/45] fix: saving or loading a model that is not compiled yet
 does not silently skip its parameters

---
 model/model_layer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..05d07dc 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -93,11 +93,27 @@ func (p *Model[T]) GetIndex() uint {
 	return p.LastLayer.GetIndex()
 }
 
+// parameters exist only after the layers are built
+func (p *Model[T]) needParameters() error {
+	if p.compileErr != nil || p.GetRef().Value == 0 {
+		return p.Compile()
+	}
+	return nil
+}
+
 func (p *Model[T]) Load(r io.Reader) error {
+	err := p.needParameters()
+	if err != nil {
+		return err
+	}
 	return p.LastLayer.Load(r)
 }
 
 func (p *Model[T]) Save(w io.Writer) error {
+	err := p.needParameters()
+	if err != nil {
+		return err
+	}
 	return p.LastLayer.Save(w)
 }
 
-- 
2.43.0


From 4aa0e1ced3d63a8bdd1376a51c269738d24dea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 20/45] fix: freezing a model includes its first layer and the
 branches of a Concat

---
 layer/concat.go      | 14 ++++++++++++++
 model/model_layer.go |  6 +-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index e6a5356..92e8f72 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,20 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+// SetTrainable sets every layer from last back to first, on all branches
+func SetTrainable[T types.Number](last, first Layer[T], t bool) {
+	for cur := last; cur != nil; cur = cur.GetPrelayer() {
+		cur.SetTrainable(t)
+		if cur == first {
+			return
+		}
+		if c, ok := cur.(*Concat[T]); ok {
+			SetTrainable(c.l1, first, t)
+			SetTrainable(c.l2, first, t)
+		}
+	}
+}
+
 func (p *Concat[T]) Fit() error {
 	err := p.l1.Fit()
 	if err != nil {
diff --git a/model/model_layer.go b/model/model_layer.go
index 05d07dc..6ca5021 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -38,11 +38,7 @@ func (p *Model[T]) Fit() error {
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-	cur := p.LastLayer
-	for cur != nil && cur != p.FirstLayer {
-		cur.SetTrainable(t)
-		cur = cur.GetPrelayer()
-	}
+	layer.SetTrainable(p.LastLayer, p.FirstLayer, t)
 }
 
 func (p *Model[T]) GetInputs() tensor.Tensor[T] {
-- 
2.43.0


From 21d289cb73ced233bc9cf7b3f01b873e94753e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 21/45] fix: the derivative of ELU is 1 for positive inputs

---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From 7cd014e135a872e5c607acc3ea21c9f077a5d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 22/45] fix: the derivative of GELU is computed exactly, also
 in single precision

---
 activation/gelu.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/activation/gelu.go b/activation/gelu.go
index 2d7fac9..e6ef486 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -13,11 +13,9 @@ func (GELU[T]) Activate(n T) T {
 	return T(0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3)))))
 }
 
-func (p GELU[T]) Derive(x T) T {
-	h := 0.000001
-	H := T(h)
-	if H == 0 {
-		H++
-	}
-	return (p.Activate(x+H) - p.Activate(x-H)) / (2 * H)
+func (GELU[T]) Derive(n T) T {
+	x := float64(n)
+	c := math.Sqrt(2 / math.Pi)
+	t := math.Tanh(c * (x + 0.044715*math.Pow(x, 3)))
+	return T(0.5*(1+t) + 0.5*x*(1-t*t)*c*(1+3*0.044715*x*x))
 }
-- 
2.43.0


From f8952d92d3084796298366c0386595ed6dde5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 23/45] fix: smooth scaling repeats the border and keeps the
 number of channels

---
 img/smooth_scale.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index 1342d97..2508326 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -66,7 +66,7 @@ func SmoothScale[T types.Number](
 
 	scaleX := float64(shape[1]) / float64(width)
 	scaleY := float64(shape[2]) / float64(height)
-	t := tensor.NewZeros[T](4, width, height)
+	t := tensor.NewZeros[T](shape[0], width, height)
 
 	// Realiza el escalado suave de la imagen
 	for x := uint(0); x < width; x++ {
@@ -79,21 +79,31 @@ func SmoothScale[T types.Number](
 			dx := float64(x)*scaleX - float64(srcX)
 			dy := float64(y)*scaleY - float64(srcY)
 
+			// El borde se repite
+			nextX := srcX + 1
+			if nextX >= shape[1] {
+				nextX = shape[1] - 1
+			}
+			nextY := srcY + 1
+			if nextY >= shape[2] {
+				nextY = shape[2] - 1
+			}
+
 			for d := uint(0); d < shape[0]; d++ {
 				// Obtiene los píxeles vecinos
 				p1, err := img.Get(d, srcX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p2, err := img.Get(d, srcX+1, srcY)
+				p2, err := img.Get(d, nextX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p3, err := img.Get(d, srcX, srcY+1)
+				p3, err := img.Get(d, srcX, nextY)
 				if err != nil {
 					return nil, err
 				}
-				p4, err := img.Get(d, srcX+1, srcY+1)
+				p4, err := img.Get(d, nextX, nextY)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From d321f2f26bc09932b321e69995f9b98c25cc48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 24/45] fix: loading with smooth scaling does not read outside
 the picture

---
 img/image.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/img/image.go b/img/image.go
index 517de4d..077609d 100644
--- a/img/image.go
+++ b/img/image.go
@@ -108,10 +108,18 @@ func LoadSmoothScaled[T types.Number](
 			srcY := int(float64(y) * scaleY)
 
 			// Obtiene los píxeles vecinos
+			nextX := srcX + 1
+			if nextX >= size.X {
+				nextX = size.X - 1
+			}
+			nextY := srcY + 1
+			if nextY >= size.Y {
+				nextY = size.Y - 1
+			}
 			p1 := img.At(srcX, srcY)
-			p2 := img.At(srcX+1, srcY)
-			p3 := img.At(srcX, srcY+1)
-			p4 := img.At(srcX+1, srcY+1)
+			p2 := img.At(nextX, srcY)
+			p3 := img.At(srcX, nextY)
+			p4 := img.At(nextX, nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From 9c394df9d4836738c842f0391b8c884ebd022d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:30 +0000
Subject: [PATCH 25/45] fix: a Flatten or connected Input counts once as a
 reference to its previous layer

---
 layer/flatten.go | 2 +-
 layer/input.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/flatten.go b/layer/flatten.go
index 38dc6ad..9e18469 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -47,7 +47,7 @@ func (p *Flatten[T]) BuildFeedforward(ctx *context.Context) error {
 	// p.Neta = tensor.Flatten[T](p.PreLayer.GetNetas())
 	// p.Activation = p.PreLayer.GetActivation()
 
-	p.PreLayer.GetRef().Value += p.Ref.Value
+	p.PreLayer.GetRef().Value += p.Ref.Value - 1
 	p.Ref = p.PreLayer.GetRef()
 
 	err = p.Output.BuildGraph(ctx)
diff --git a/layer/input.go b/layer/input.go
index 8f3fb09..ee0c26d 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -34,7 +34,7 @@ func (p *Input[T]) Build() (uint, error) {
 	}
 
 	if p.PreLayer != nil {
-		p.PreLayer.GetRef().Value += p.Ref.Value
+		p.PreLayer.GetRef().Value += p.Ref.Value - 1
 		p.Ref = p.PreLayer.GetRef()
 		// p.Activation = p.PreLayer.GetActivation()
 	}
-- 
2.43.0


From aed50aab54b6613dd4617444e0f8087031986c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 26/45] fix: keep the previous update of Dense parameters and
 convolution weights for momentum

---
 layer/conv2d.go   | 11 ++++++++---
 layer/deconv2d.go | 11 ++++++++---
 layer/dense.go    | 10 ++++++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 895f8df..7bca4e9 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -302,9 +302,14 @@ func (p *Conv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: m,
-						O:      dw,
+					velocity, err := p.MWeights.GetOperand(f, i, kx, ky)
+					if err != nil {
+						return err
+					}
+					ctx.Push(&operation.Add[T]{
+						Scalar: velocity,
+						A:      m,
+						B:      dw,
 					})
 				}
 			}
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index e8c2a92..c68ec8b 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -330,9 +330,14 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, mw},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: mw,
-						O:      dw,
+					velocity, err := p.MWeights.GetOperand(outF, inF, kx, ky)
+					if err != nil {
+						return err
+					}
+					ctx.Push(&operation.Add[T]{
+						Scalar: velocity,
+						A:      mw,
+						B:      dw,
 					})
 				}
 			}
diff --git a/layer/dense.go b/layer/dense.go
index 233cb20..2e5c7cb 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -240,6 +240,11 @@ func (p *Dense[T]) BuildBackpropagation(
 			Scalar: new_bias,
 			Args:   []*number.Scalar[T]{bias, moment, mul_dif_alpha},
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: momentum,
+			A:      moment,
+			B:      mul_dif_alpha,
+		})
 
 		for j := uint(0); j < inputs; j++ {
 			input := p.Input.GetOperands()[j]
@@ -271,6 +276,11 @@ func (p *Dense[T]) BuildBackpropagation(
 				Scalar: new_weight,
 				Args:   []*number.Scalar[T]{weight, moment, delta},
 			})
+			ctx.Push(&operation.Add[T]{
+				Scalar: momentum,
+				A:      moment,
+				B:      delta,
+			})
 		}
 	}
 
-- 
2.43.0


From 13d221e67cb566922f8a907da39b77dd03d63683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:14 +0000
Subject: [PATCH 27/45] fix: training a part of a composed model leaves the
 other parts alone

---
 layer/base.go        |  4 ----
 layer/concat.go      | 41 +++++++++++++++++++++++++++++------------
 model/model.go       | 22 ++++++++++++++--------
 model/model_layer.go |  2 +-
 4 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..34a7e31 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -187,10 +187,6 @@ func (p *Base[T]) Connect(l Layer[T]) {
 }
 
 func (p *Base[T]) Fit() error {
-	if p.PreLayer != nil {
-		p.PreLayer.Fit()
-	}
-
 	if !p.Trainable {
 		return nil
 	}
diff --git a/layer/concat.go b/layer/concat.go
index 92e8f72..1a80270 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,26 +135,43 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
-// SetTrainable sets every layer from last back to first, on all branches
-func SetTrainable[T types.Number](last, first Layer[T], t bool) {
+// walk visits every layer from last back to first, on all branches
+func walk[T types.Number](last, first Layer[T], visit func(Layer[T]) error) error {
 	for cur := last; cur != nil; cur = cur.GetPrelayer() {
-		cur.SetTrainable(t)
+		err := visit(cur)
+		if err != nil {
+			return err
+		}
 		if cur == first {
-			return
+			return nil
 		}
 		if c, ok := cur.(*Concat[T]); ok {
-			SetTrainable(c.l1, first, t)
-			SetTrainable(c.l2, first, t)
+			err := walk(c.l1, first, visit)
+			if err != nil {
+				return err
+			}
+			err = walk(c.l2, first, visit)
+			if err != nil {
+				return err
+			}
 		}
 	}
+	return nil
 }
 
-func (p *Concat[T]) Fit() error {
-	err := p.l1.Fit()
-	if err != nil {
-		return err
-	}
-	return p.l2.Fit()
+// SetTrainable sets every layer from last back to first
+func SetTrainable[T types.Number](last, first Layer[T], t bool) {
+	walk(last, first, func(l Layer[T]) error {
+		l.SetTrainable(t)
+		return nil
+	})
+}
+
+// Fit fits every layer from last back to first
+func Fit[T types.Number](last, first Layer[T]) error {
+	return walk(last, first, func(l Layer[T]) error {
+		return l.Fit()
+	})
 }
 
 func (p *Concat[T]) ResetFit(ctx *context.Context) error {
diff --git a/model/model.go b/model/model.go
index 7ff27bc..ae47949 100644
--- a/model/model.go
+++ b/model/model.go
@@ -37,6 +37,7 @@ type Model[T types.Number] struct {
 	GraphResetFit        *graph.Graph
 	GraphReset           *graph.Graph
 
+	parts      []*Model[T]
 	compileErr error
 }
 
@@ -62,6 +63,7 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		}
 	}
 
+	// each part is complete before the next one is built on top of it
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
 			err := models[i].Compile()
@@ -69,9 +71,6 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 				return nil, err
 			}
 		}
-	}
-
-	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
 			err := models[i].CompileBackPropagation()
 			if err != nil {
@@ -81,6 +80,7 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 	}
 
 	m := NewModel[T]()
+	m.parts = append(m.parts, models...)
 
 	size := len(models)
 
@@ -315,7 +315,15 @@ func (p *Model[T]) ExecFit(x, y tensor.Tensor[T]) error {
 	p.GraphCalDif.Exec()
 	p.GraphBackPropagation.Exec()
 
-	return p.LastLayer.Fit()
+	return p.Fit()
+}
+
+func (p *Model[T]) setRates(alpha, momentum T) {
+	p.Alpha.Value = alpha
+	p.Momentum.Value = momentum
+	for _, part := range p.parts {
+		part.setRates(alpha, momentum)
+	}
 }
 
 func (p *Model[T]) TrainOne(
@@ -328,8 +336,7 @@ func (p *Model[T]) TrainOne(
 			return -1, err
 		}
 	}
-	p.Alpha.Value = alpha
-	p.Momentum.Value = momentum
+	p.setRates(alpha, momentum)
 	err := p.ExecFit(input, target)
 	if err != nil {
 		return -1, err
@@ -355,8 +362,7 @@ func (p *Model[T]) Train(
 			return err
 		}
 	}
-	p.Alpha.Value = alpha
-	p.Momentum.Value = momentum
+	p.setRates(alpha, momentum)
 	if batch == 0 {
 		batch = uint(len(inputs))
 	}
diff --git a/model/model_layer.go b/model/model_layer.go
index 6ca5021..1a0f9a1 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -34,7 +34,7 @@ func (p *Model[T]) ResetFit(ctx *context.Context) error {
 }
 
 func (p *Model[T]) Fit() error {
-	return p.LastLayer.Fit()
+	return layer.Fit(p.LastLayer, p.FirstLayer)
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-- 
2.43.0


From d25b90f816ecb2f55459a090e680493bca4da905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:14 +0000
Subject: [PATCH 28/45] fix: refuse to compose a model that is already compiled
 unconnected

---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index ae47949..00a7f9a 100644
--- a/model/model.go
+++ b/model/model.go
@@ -59,6 +59,12 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 1; i < len(models); i++ {
 		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
+			if models[i].GraphFeedForward != nil {
+				return nil, errors.FmtNeuralError(
+					"Model %d is already compiled on its own, it can not be connected",
+					i,
+				)
+			}
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
 		}
 	}
-- 
2.43.0


From 032622f76953484854ef2345d732bdd3f8577f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 29/45] fix: save and load only the layers of the model itself
 when it is part of a composed one

---
 model/model.go       |  2 ++
 model/model_layer.go | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 00a7f9a..364ecfc 100644
--- a/model/model.go
+++ b/model/model.go
@@ -38,6 +38,7 @@ type Model[T types.Number] struct {
 	GraphReset           *graph.Graph
 
 	parts      []*Model[T]
+	composed   bool
 	compileErr error
 }
 
@@ -67,6 +68,7 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 			}
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
 		}
+		models[i].composed = true
 	}
 
 	// each part is complete before the next one is built on top of it
diff --git a/model/model_layer.go b/model/model_layer.go
index 1a0f9a1..f6e5ba1 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -97,12 +97,23 @@ func (p *Model[T]) needParameters() error {
 	return nil
 }
 
+// alone runs f on the layers of this model only, not on those of the model
+// it was composed with
+func (p *Model[T]) alone(f func() error) error {
+	pre := p.FirstLayer.GetPrelayer()
+	if p.composed && pre != nil {
+		p.FirstLayer.Connect(nil)
+		defer p.FirstLayer.Connect(pre)
+	}
+	return f()
+}
+
 func (p *Model[T]) Load(r io.Reader) error {
 	err := p.needParameters()
 	if err != nil {
 		return err
 	}
-	return p.LastLayer.Load(r)
+	return p.alone(func() error { return p.LastLayer.Load(r) })
 }
 
 func (p *Model[T]) Save(w io.Writer) error {
@@ -110,7 +121,7 @@ func (p *Model[T]) Save(w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return p.LastLayer.Save(w)
+	return p.alone(func() error { return p.LastLayer.Save(w) })
 }
 
 func (p *Model[T]) ResetLoad() {
-- 
2.43.0


From eec1396420cae9c96cb9a3a1ae0f24a8d181aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 30/45] fix: saving or loading a model without layers is an
 error

---
 model/model_layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model_layer.go b/model/model_layer.go
index f6e5ba1..e9f4331 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -91,7 +91,7 @@ func (p *Model[T]) GetIndex() uint {
 
 // parameters exist only after the layers are built
 func (p *Model[T]) needParameters() error {
-	if p.compileErr != nil || p.GetRef().Value == 0 {
+	if p.LastLayer == nil || p.compileErr != nil || p.GetRef().Value == 0 {
 		return p.Compile()
 	}
 	return nil
-- 
2.43.0


From 5fee49c74631e7432d8005c298eb694649db3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:38 +0000
Subject: [PATCH 31/45] fix: the loss compares target and output even where
 branches share a layer

---
 model/model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 364ecfc..b297db4 100644
--- a/model/model.go
+++ b/model/model.go
@@ -242,9 +242,13 @@ func (p *Model[T]) CompileBackPropagation() error {
 		})
 	}
 
-	loss := tensor.Abs(dif)
+	// not from dif: branches of a Concat that share a layer share its cells
+	loss := tensor.Abs(tensor.Sub(p.Target, p.Output))
 	loss = tensor.Sum(loss)
-	loss.BuildGraph(ctx)
+	err = loss.BuildGraph(ctx)
+	if err != nil {
+		return err
+	}
 	p.Loss = loss.GetOperands()[0]
 
 	cd, err := graph.NewGraphFrom[T](ctx)
-- 
2.43.0


From e2c5da6009756753e1fac7c1a159e2402638873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:54 +0000
Subject: [PATCH 32/45] fix: a composed model with a connected Input layer can
 be printed

---
 layer/input.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index ee0c26d..7f1621a 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -52,7 +52,12 @@ func (p *Input[T]) BuildFeedforward(ctx *context.Context) error {
 	//}
 
 	if p.PreLayer != nil {
-		return p.PreLayer.BuildFeedforward(ctx)
+		err := p.PreLayer.BuildFeedforward(ctx)
+		if err != nil {
+			return err
+		}
+		p.Output = p.PreLayer.GetOutputs()
+		return nil
 		//p.Input = p.PreLayer.GetOutputs()
 		//p.Output = p.PreLayer.GetOutputs()
 		//// p.Neta = p.PreLayer.GetNetas()
-- 
2.43.0


From e1d77de36f60719d7164ef0b7554408b4dab869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:55 +0000
Subject: [PATCH 33/45] fix: loading a picture whose area does not start at the
 origin

---
 img/image.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index 077609d..7537ece 100644
--- a/img/image.go
+++ b/img/image.go
@@ -24,6 +24,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 	width := size.X
 	height := size.Y
@@ -31,7 +32,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	t := tensor.NewZeros[T](4, uint(width), uint(height))
 	for i := 0; i < width; i++ {
 		for j := 0; j < height; j++ {
-			c := img.At(i, j)
+			c := img.At(origin.X+i, origin.Y+j)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -54,6 +55,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scalX := float64(size.X) / float64(width)
@@ -68,7 +70,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 		for j = 0; j < height; j++ {
 			X = int(float64(i) * scalX)
 			Y = int(float64(j) * scalY)
-			c := img.At(X, Y)
+			c := img.At(origin.X+X, origin.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -94,6 +96,7 @@ func LoadSmoothScaled[T types.Number](
 	if err != nil {
 		return nil, err
 	}
+	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scaleX := float64(size.X) / float64(width)
@@ -116,10 +119,10 @@ func LoadSmoothScaled[T types.Number](
 			if nextY >= size.Y {
 				nextY = size.Y - 1
 			}
-			p1 := img.At(srcX, srcY)
-			p2 := img.At(nextX, srcY)
-			p3 := img.At(srcX, nextY)
-			p4 := img.At(nextX, nextY)
+			p1 := img.At(origin.X+srcX, origin.Y+srcY)
+			p2 := img.At(origin.X+nextX, origin.Y+srcY)
+			p3 := img.At(origin.X+srcX, origin.Y+nextY)
+			p4 := img.At(origin.X+nextX, origin.Y+nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From 367e221c7cd7c6b614ae103a28f14d2d4d8e961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:55 +0000
Subject: [PATCH 34/45] fix: simple scaling picks the source pixel without
 rounding errors

---
 img/image.go        | 6 ++----
 img/simple_scale.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/img/image.go b/img/image.go
index 7537ece..2021ce5 100644
--- a/img/image.go
+++ b/img/image.go
@@ -58,8 +58,6 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	origin := img.Bounds().Min
 	size := img.Bounds().Size()
 
-	scalX := float64(size.X) / float64(width)
-	scalY := float64(size.Y) / float64(height)
 	t := tensor.NewZeros[T](4, width, height)
 
 	var i uint
@@ -68,8 +66,8 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	var Y int
 	for i = 0; i < width; i++ {
 		for j = 0; j < height; j++ {
-			X = int(float64(i) * scalX)
-			Y = int(float64(j) * scalY)
+			X = int(i * uint(size.X) / width)
+			Y = int(j * uint(size.Y) / height)
 			c := img.At(origin.X+X, origin.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
diff --git a/img/simple_scale.go b/img/simple_scale.go
index ab61a2b..0e23544 100644
--- a/img/simple_scale.go
+++ b/img/simple_scale.go
@@ -16,8 +16,6 @@ func SimpleScale[T types.Number](
 	}
 
 	newImg := tensor.NewZeros[T](shape[0], width, height)
-	scalX := float64(shape[1]) / float64(width)
-	scalY := float64(shape[2]) / float64(height)
 
 	var X uint
 	var Y uint
@@ -28,8 +26,8 @@ func SimpleScale[T types.Number](
 	var err error
 	for x = 0; x < width; x++ {
 		for y = 0; y < height; y++ {
-			X = uint(float64(x) * scalX)
-			Y = uint(float64(y) * scalY)
+			X = x * shape[1] / width
+			Y = y * shape[2] / height
 			for d = 0; d < shape[0]; d++ {
 				c, err = img.Get(d, X, Y)
 				if err != nil {
-- 
2.43.0


From 3601c675981d09246cfe5d7d26f8d05d5a017769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:55 +0000
Subject: [PATCH 35/45] fix: the derivative of Swish is 1, not 0, for large
 inputs

---
 activation/swish.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activation/swish.go b/activation/swish.go
index bd6be81..03f39fa 100644
--- a/activation/swish.go
+++ b/activation/swish.go
@@ -13,5 +13,6 @@ func (p Swish[T]) Activate(t T) T {
 }
 
 func (p Swish[T]) Derive(t T) T {
-	return p.Activate(t) + p.Sigmoid.Activate(t)*(1-p.Activate(t))
+	s := p.Sigmoid.Activate(t)
+	return s + t*s*(1-s)
 }
-- 
2.43.0


From 7be69d352843edf44de6ed1a6a85e6bd42d55012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:56 +0000
Subject: [PATCH 36/45] fix: the derivative of GELU is a number for the largest
 inputs

---
 activation/gelu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/activation/gelu.go b/activation/gelu.go
index e6ef486..7e31e1e 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -17,5 +17,8 @@ func (GELU[T]) Derive(n T) T {
 	x := float64(n)
 	c := math.Sqrt(2 / math.Pi)
 	t := math.Tanh(c * (x + 0.044715*math.Pow(x, 3)))
+	if t*t == 1 {
+		return T(0.5 * (1 + t))
+	}
 	return T(0.5*(1+t) + 0.5*x*(1-t*t)*c*(1+3*0.044715*x*x))
 }
-- 
2.43.0


From 6809ed71ef550c2f11723ec1d0505fc9fed25d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:23 +0000
Subject: [PATCH 37/45] fix: back-propagate a layer after all the layers it
 feeds

---
 layer/base.go           | 13 -------------
 layer/concat.go         | 39 ++++++++++++++++++++++++++++++++-------
 layer/conv2d.go         |  2 +-
 layer/deconv2d.go       |  2 +-
 layer/dense.go          |  2 +-
 layer/flatten.go        |  2 +-
 layer/input.go          |  4 ----
 layer/max_pool_2d.go    |  2 +-
 layer/norm.go           |  2 +-
 layer/softmax.go        |  2 +-
 layer/sub_tensor.go     |  2 +-
 layer/up_sampling_2d.go |  2 +-
 model/model.go          |  2 +-
 model/model_layer.go    |  2 +-
 14 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 34a7e31..ba3e643 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -123,19 +123,6 @@ func (p *Base[T]) CheckBP() bool {
 	return false
 }
 
-func (p *Base[T]) PostBuildBackpropagation(
-	ctx *context.Context,
-	alpha, momentum *number.Scalar[T],
-) error {
-	if p.PreLayer != nil {
-		err := p.PreLayer.BuildBackpropagation(ctx, alpha, momentum)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (p *Base[T]) GetIndex() uint {
 	return p.Index
 }
diff --git a/layer/concat.go b/layer/concat.go
index 1a80270..59c96a0 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -124,15 +124,40 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	//	return err
 	//}
 
-	err = p.l1.BuildBackpropagation(ctx, a, m)
-	if err != nil {
-		return err
+	return nil
+}
+
+// BuildBackpropagation builds the back-propagation of last and of all the
+// layers before it, each one after all the layers it feeds
+func BuildBackpropagation[T types.Number](
+	ctx *context.Context,
+	last Layer[T],
+	a, m *number.Scalar[T],
+) error {
+	order := []Layer[T]{}
+	seen := map[Layer[T]]bool{}
+	var visit func(Layer[T])
+	visit = func(l Layer[T]) {
+		if l == nil || seen[l] {
+			return
+		}
+		seen[l] = true
+		visit(l.GetPrelayer())
+		if c, ok := l.(*Concat[T]); ok {
+			visit(c.l1)
+			visit(c.l2)
+		}
+		order = append(order, l)
 	}
-	err = p.l2.BuildBackpropagation(ctx, a, m)
-	if err != nil {
-		return err
+	visit(last)
+
+	for i := len(order) - 1; i >= 0; i-- {
+		err := order[i].BuildBackpropagation(ctx, a, m)
+		if err != nil {
+			return err
+		}
 	}
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 // walk visits every layer from last back to first, on all branches
diff --git a/layer/conv2d.go b/layer/conv2d.go
index 7bca4e9..d596692 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -316,5 +316,5 @@ func (p *Conv2D[T]) BuildBackpropagation(
 		}
 	}
 
-	return p.PostBuildBackpropagation(ctx, Alpha, Momentum)
+	return nil
 }
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index c68ec8b..f143fdc 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -344,5 +344,5 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 		}
 	}
 
-	return p.PostBuildBackpropagation(ctx, Alpha, Momentum)
+	return nil
 }
diff --git a/layer/dense.go b/layer/dense.go
index 2e5c7cb..2fba5e9 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -284,5 +284,5 @@ func (p *Dense[T]) BuildBackpropagation(
 		}
 	}
 
-	return p.PostBuildBackpropagation(ctx, Alpha, Momentum)
+	return nil
 }
diff --git a/layer/flatten.go b/layer/flatten.go
index 9e18469..678e7eb 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -77,7 +77,7 @@ func (p *Flatten[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 		return err
 	}
 
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 func (p *Flatten[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/input.go b/layer/input.go
index 7f1621a..9f48036 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -85,10 +85,6 @@ func (p *Input[T]) BuildBackpropagation(
 	//		return err
 	//	}
 	//}
-	//return p.PostBuildBackpropagation(ctx, a, m)
-	if p.PreLayer != nil {
-		return p.PreLayer.BuildBackpropagation(ctx, a, m)
-	}
 	return nil
 }
 
diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 99de255..b8d1687 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -186,7 +186,7 @@ func (p *MaxPool2D[T]) BuildBackpropagation(ctx *context.Context, a, m *number.S
 		}
 	}
 
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 func (p *MaxPool2D[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/norm.go b/layer/norm.go
index ae90de4..a8471a4 100644
--- a/layer/norm.go
+++ b/layer/norm.go
@@ -109,7 +109,7 @@ func (p *Norm[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar
 		return err
 	}
 
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 func (p *Norm[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/softmax.go b/layer/softmax.go
index d03fd30..df6ca45 100644
--- a/layer/softmax.go
+++ b/layer/softmax.go
@@ -88,7 +88,7 @@ func (p *SoftMax[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 		return err
 	}
 
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 func (p *SoftMax[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 6fd6b5d..a574b88 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -92,7 +92,7 @@ func (p *SubTensor[T]) BuildBackpropagation(
 	if err != nil {
 		return err
 	}
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 func (p *SubTensor[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 1c3f9d5..08a57ae 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -153,7 +153,7 @@ func (p *UpSampling2D[T]) BuildBackpropagation(ctx *context.Context, a, m *numbe
 		}
 	}
 
-	return p.PostBuildBackpropagation(ctx, a, m)
+	return nil
 }
 
 func (p *UpSampling2D[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/model/model.go b/model/model.go
index b297db4..1349db6 100644
--- a/model/model.go
+++ b/model/model.go
@@ -260,7 +260,7 @@ func (p *Model[T]) CompileBackPropagation() error {
 	p.Momentum = &number.Scalar[T]{}
 
 	p.LastLayer.GetDif().SetBuild(false)
-	err = p.LastLayer.BuildBackpropagation(ctx, p.Alpha, p.Momentum)
+	err = layer.BuildBackpropagation(ctx, p.LastLayer, p.Alpha, p.Momentum)
 	if err != nil {
 		return err
 	}
diff --git a/model/model_layer.go b/model/model_layer.go
index e9f4331..7452761 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -22,7 +22,7 @@ func (p *Model[T]) BuildBackpropagation(
 	ctx *context.Context,
 	a, m *number.Scalar[T],
 ) error {
-	return p.LastLayer.BuildBackpropagation(ctx, a, m)
+	return layer.BuildBackpropagation(ctx, p.LastLayer, a, m)
 }
 
 func (p *Model[T]) Reset(ctx *context.Context) error {
-- 
2.43.0


From 1ebc4262bb30e5806834bcf643a7d3fd8af35593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:47 +0000
Subject: [PATCH 38/45] fix: the errors from all the layers a layer feeds add
 up

---
 layer/concat.go         | 33 ++++++++++++++++++++++++---------
 layer/conv2d.go         |  3 ---
 layer/deconv2d.go       |  3 ---
 layer/dense.go          |  3 ---
 layer/flatten.go        |  7 +------
 layer/max_pool_2d.go    |  3 ---
 layer/norm.go           |  8 ++------
 layer/softmax.go        |  9 ---------
 layer/sub_tensor.go     | 12 ++----------
 layer/up_sampling_2d.go |  6 ++----
 model/model.go          |  8 +++++++-
 11 files changed, 38 insertions(+), 57 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index 59c96a0..d391542 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -6,7 +6,9 @@ import (
 	"strings"
 
 	"github.com/julioguillermo/godeep/context"
+	"github.com/julioguillermo/godeep/errors"
 	"github.com/julioguillermo/godeep/number"
+	"github.com/julioguillermo/godeep/operation"
 	"github.com/julioguillermo/godeep/tensor"
 	"github.com/julioguillermo/godeep/tools"
 	"github.com/julioguillermo/godeep/types"
@@ -97,15 +99,6 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	// s1 := p.l1.GetOutputs().GetShape()[p.dim]
 	// s2 := p.l2.GetOutputs().GetShape()[p.dim]
 
-	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
-	err := Dif.BuildGraph(ctx)
-	if err != nil {
-		return err
-	}
-
 	// dif1 := tensor.SubTensor(Dif, p.dim, 0, s1)
 	// dif2 := tensor.SubTensor(Dif, p.dim, s1, s1+s2)
 
@@ -127,6 +120,28 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return nil
 }
 
+// addDif adds each of the errors of dif to the one of to in the same place,
+// one after another: two places of to may be the same cell
+func addDif[T types.Number](ctx *context.Context, dif, to tensor.Tensor[T]) error {
+	difOps := dif.GetOperands()
+	toOps := to.GetOperands()
+	if len(difOps) != len(toOps) {
+		return errors.FmtNeuralError(
+			"Fail to add %d errors to %d errors",
+			len(difOps),
+			len(toOps),
+		)
+	}
+	for i := range toOps {
+		ctx.Push(&operation.Add[T]{
+			Scalar: toOps[i],
+			A:      toOps[i],
+			B:      difOps[i],
+		})
+	}
+	return nil
+}
+
 // BuildBackpropagation builds the back-propagation of last and of all the
 // layers before it, each one after all the layers it feeds
 func BuildBackpropagation[T types.Number](
diff --git a/layer/conv2d.go b/layer/conv2d.go
index d596692..4160a9b 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -161,9 +161,6 @@ func (p *Conv2D[T]) BuildBackpropagation(
 	p.MBias = tensor.NewZeros[T](p.Bias.GetShape()...)
 
 	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
 	err := Dif.BuildGraph(ctx)
 	if err != nil {
 		return err
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index f143fdc..16e0dc0 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -176,9 +176,6 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 	p.MBias = tensor.NewZeros[T](p.Bias.GetShape()...)
 
 	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
 	err := Dif.BuildGraph(ctx)
 	if err != nil {
 		return err
diff --git a/layer/dense.go b/layer/dense.go
index 2fba5e9..8865088 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -133,9 +133,6 @@ func (p *Dense[T]) BuildBackpropagation(
 	p.MBias = tensor.NewZeros[T](p.Bias.GetShape()...)
 
 	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
 	err := Dif.BuildGraph(ctx)
 	if err != nil {
 		return err
diff --git a/layer/flatten.go b/layer/flatten.go
index 678e7eb..4d87ab9 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -72,12 +72,7 @@ func (p *Flatten[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 	if err != nil {
 		return err
 	}
-	err = tensor.Transfer(ctx, p.Dif, p.PreLayer.GetDif())
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return addDif(ctx, p.Dif, p.PreLayer.GetDif())
 }
 
 func (p *Flatten[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index b8d1687..7ed40d8 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -121,9 +121,6 @@ func (p *MaxPool2D[T]) BuildBackpropagation(ctx *context.Context, a, m *number.S
 	}
 
 	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
 
 	err := Dif.BuildGraph(ctx)
 	if err != nil {
diff --git a/layer/norm.go b/layer/norm.go
index a8471a4..1460d33 100644
--- a/layer/norm.go
+++ b/layer/norm.go
@@ -92,9 +92,6 @@ func (p *Norm[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar
 	}
 
 	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
 
 	// Best
 	// Dif = tensor.AddScalar(Dif, &number.Scalar[T]{Value: p.min})
@@ -104,12 +101,11 @@ func (p *Norm[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar
 	// der := tensor.Activate(p.PreLayer.GetNetas(), p.PreLayer.GetActivation().Derive)
 	// Dif = tensor.Mul(Dif, der)
 
-	err := tensor.Transfer(ctx, Dif, p.PreLayer.GetDif())
+	err := Dif.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
-
-	return nil
+	return addDif(ctx, Dif, p.PreLayer.GetDif())
 }
 
 func (p *Norm[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/softmax.go b/layer/softmax.go
index df6ca45..83293e8 100644
--- a/layer/softmax.go
+++ b/layer/softmax.go
@@ -79,15 +79,6 @@ func (p *SoftMax[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 		return nil
 	}
 
-	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
-	err := Dif.BuildGraph(ctx)
-	if err != nil {
-		return err
-	}
-
 	return nil
 }
 
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index a574b88..8da28a9 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -79,20 +79,12 @@ func (p *SubTensor[T]) BuildBackpropagation(
 		return err
 	}
 
-	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
-
 	p_dif := tensor.SubTensor[T](p.PreLayer.GetDif(), p.dim, p.from, p.to)
-
-	Dif = tensor.Add[T](Dif, p_dif)
-
-	err = tensor.Transfer[T](ctx, Dif, p_dif)
+	err = p_dif.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
-	return nil
+	return addDif(ctx, p.Dif, p_dif)
 }
 
 func (p *SubTensor[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 08a57ae..6edd4b3 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -111,9 +111,6 @@ func (p *UpSampling2D[T]) BuildBackpropagation(ctx *context.Context, a, m *numbe
 	}
 
 	Dif := p.Dif
-	if p.Ref.Value > 1 {
-		Dif = tensor.DivScalar(Dif, p.Ref)
-	}
 
 	err := Dif.BuildGraph(ctx)
 	if err != nil {
@@ -131,7 +128,8 @@ func (p *UpSampling2D[T]) BuildBackpropagation(ctx *context.Context, a, m *numbe
 				if err != nil {
 					return err
 				}
-				ops := make([]*number.Scalar[T], 0, p.SX*p.SY)
+				ops := make([]*number.Scalar[T], 0, p.SX*p.SY+1)
+				ops = append(ops, pdif)
 
 				for i := uint(0); i < p.SX; i++ {
 					oX := x*p.SX + i
diff --git a/model/model.go b/model/model.go
index 1349db6..d472ad3 100644
--- a/model/model.go
+++ b/model/model.go
@@ -235,11 +235,17 @@ func (p *Model[T]) CompileBackPropagation() error {
 	tar_ops := p.Target.GetOperands()
 	dif_ops := dif.GetOperands()
 	for i := range tar_ops {
+		d := &number.Scalar[T]{}
 		ctx.Push(&operation.Sub[T]{
-			Scalar: dif_ops[i],
+			Scalar: d,
 			A:      tar_ops[i],
 			B:      out_ops[i],
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: dif_ops[i],
+			A:      dif_ops[i],
+			B:      d,
+		})
 	}
 
 	// not from dif: branches of a Concat that share a layer share its cells
-- 
2.43.0


From eecc6b1a08ef1dbcbaf82f26d41a29cc42bdc224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 39/45] fix: a composed model calculates the derivatives of
 layers shared inside a part

---
 layer/base.go           | 13 ++++++++++++-
 layer/concat.go         |  2 +-
 layer/flatten.go        |  2 +-
 layer/input.go          |  2 +-
 layer/max_pool_2d.go    |  2 +-
 layer/norm.go           |  2 +-
 layer/softmax.go        |  2 +-
 layer/sub_tensor.go     |  2 +-
 layer/up_sampling_2d.go |  2 +-
 9 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index ba3e643..794b1f0 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -45,6 +45,7 @@ type Base[T types.Number] struct {
 	build     bool
 	ffBuilded bool
 	bpBuilded bool
+	derCtx    *context.Context
 	printed   bool
 
 	saved  bool
@@ -143,8 +144,18 @@ func (p *Base[T]) GetDif() tensor.Tensor[T] {
 	return p.Dif
 }
 
+// needDer tells whether the derivatives are still to be built in ctx: those
+// built in another one are calculated by another graph
+func (p *Base[T]) needDer(ctx *context.Context) bool {
+	if p.Der != nil && p.derCtx == ctx {
+		return false
+	}
+	p.derCtx = ctx
+	return true
+}
+
 func (p *Base[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		p.Der = tensor.Activate[T](p.Neta, p.Activation.Derive)
 		err := p.Der.BuildGraph(ctx)
 		if err != nil {
diff --git a/layer/concat.go b/layer/concat.go
index d391542..d6e42d5 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -311,7 +311,7 @@ func (p *Concat[T]) Save(w io.Writer) error {
 }
 
 func (p *Concat[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		d1, err := p.l1.BuildDer(ctx)
 		if err != nil {
 			return nil, err
diff --git a/layer/flatten.go b/layer/flatten.go
index 4d87ab9..28f38c7 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -76,7 +76,7 @@ func (p *Flatten[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 }
 
 func (p *Flatten[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		der, err := p.PreLayer.BuildDer(ctx)
 		if err != nil {
 			return nil, err
diff --git a/layer/input.go b/layer/input.go
index 9f48036..a16677f 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -113,7 +113,7 @@ func (p *Input[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
 	if p.PreLayer != nil {
 		return p.PreLayer.BuildDer(ctx)
 	}
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		p.Der = tensor.Activate[T](p.Neta, p.Activation.Derive)
 		err := p.Der.BuildGraph(ctx)
 		if err != nil {
diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 7ed40d8..3e04734 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -187,7 +187,7 @@ func (p *MaxPool2D[T]) BuildBackpropagation(ctx *context.Context, a, m *number.S
 }
 
 func (p *MaxPool2D[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		inShape := p.Input.GetShape()
 		outShape := p.Output.GetShape()
 
diff --git a/layer/norm.go b/layer/norm.go
index 1460d33..bc8beac 100644
--- a/layer/norm.go
+++ b/layer/norm.go
@@ -109,7 +109,7 @@ func (p *Norm[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar
 }
 
 func (p *Norm[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		der, err := p.PreLayer.BuildDer(ctx)
 		if err != nil {
 			return nil, err
diff --git a/layer/softmax.go b/layer/softmax.go
index 83293e8..4cd7dbc 100644
--- a/layer/softmax.go
+++ b/layer/softmax.go
@@ -83,7 +83,7 @@ func (p *SoftMax[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 }
 
 func (p *SoftMax[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		der, err := p.PreLayer.BuildDer(ctx)
 		if err != nil {
 			return nil, err
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 8da28a9..91ae1bd 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *SubTensor[T]) BuildBackpropagation(
 }
 
 func (p *SubTensor[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		der, err := p.PreLayer.BuildDer(ctx)
 		if err != nil {
 			return nil, err
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 6edd4b3..b2625c4 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -155,7 +155,7 @@ func (p *UpSampling2D[T]) BuildBackpropagation(ctx *context.Context, a, m *numbe
 }
 
 func (p *UpSampling2D[T]) BuildDer(ctx *context.Context) (tensor.Tensor[T], error) {
-	if p.Der == nil {
+	if p.needDer(ctx) {
 		outShape := p.Output.GetShape()
 
 		p.Der = tensor.NewZeros[T](outShape...)
-- 
2.43.0


From b295093b885f2ed6896f17fdf8905e4bc2a6c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:31 +0000
Subject: [PATCH 40/45] fix: every layer is printed with its own type

---
 layer/deconv2d.go       | 4 ++--
 layer/input.go          | 1 +
 layer/norm.go           | 2 +-
 layer/sub_tensor.go     | 1 +
 layer/up_sampling_2d.go | 4 ++--
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 16e0dc0..d3d9dec 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -26,7 +26,7 @@ func NewDeconv2D[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelSize
@@ -43,7 +43,7 @@ func NewDeconv2Dwh[T types.Number](
 	act activation.Activation[T],
 ) Layer[T] {
 	l := &Deconv2D[T]{}
-	l.Type = "Conv2D"
+	l.Type = "Deconv2D"
 	l.Activation = act
 	l.NF = filters
 	l.KW = kernelWidth
diff --git a/layer/input.go b/layer/input.go
index a16677f..3658907 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -15,6 +15,7 @@ type Input[T types.Number] struct {
 func NewInput[T types.Number](shape ...uint) Layer[T] {
 	in := &Input[T]{
 		Base: Base[T]{
+			Type:       "Input",
 			Input:      tensor.NewZeros[T](shape...),
 			Dif:        tensor.NewZeros[T](shape...),
 			Activation: activation.Linear[T]{},
diff --git a/layer/norm.go b/layer/norm.go
index bc8beac..547c589 100644
--- a/layer/norm.go
+++ b/layer/norm.go
@@ -26,7 +26,7 @@ func NewNorm[T types.Number]() Layer[T] {
 
 func NewENorm[T types.Number]() Layer[T] {
 	l := &Norm[T]{}
-	l.Type = "Norm"
+	l.Type = "ENorm"
 	l.min = -1
 	l.max = 1
 
diff --git a/layer/sub_tensor.go b/layer/sub_tensor.go
index 91ae1bd..d4fe0ae 100644
--- a/layer/sub_tensor.go
+++ b/layer/sub_tensor.go
@@ -20,6 +20,7 @@ func NewSubTensor[T types.Number](dim, from, to uint) Layer[T] {
 		from: from,
 		to:   to,
 	}
+	l.Type = "SubTensor"
 
 	return l
 }
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index b2625c4..1e909ab 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -19,7 +19,7 @@ type UpSampling2D[T types.Number] struct {
 
 func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = s
 	l.SY = s
 
@@ -28,7 +28,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
 	l := &UpSampling2D[T]{}
-	l.Type = "MaxPool"
+	l.Type = "UpSampling"
 	l.SX = sx
 	l.SY = sy
 
-- 
2.43.0


From 622e5ecb528a936474feb1faae53ea0bce0cf70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:31 +0000
Subject: [PATCH 41/45] fix: a layer feeding several others is printed once

---
 layer/base.go   | 1 +
 layer/concat.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index 794b1f0..3adf3f9 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -236,6 +236,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
 	}
+	p.printed = true
 	if p.PreLayer != nil {
 		p.PreLayer.PushToString(sb)
 		sb.WriteString(
diff --git a/layer/concat.go b/layer/concat.go
index d6e42d5..48b4234 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -250,6 +250,10 @@ func (p *Concat[T]) ResetPrinted() {
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
+	if p.printed {
+		return
+	}
+	p.printed = true
 	p.l1.PushToString(sb)
 	p.l2.PushToString(sb)
 
-- 
2.43.0


From 397047b1540f4ff2434d55a17f9b0cd12f9b0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:57 +0000
Subject: [PATCH 42/45] fix: a model that is not compiled, or incomplete, can
 be printed and reset

---
 layer/base.go        | 14 +++++++++++---
 layer/concat.go      | 42 +++++++++++++++++++++++++++++-------------
 model/model_layer.go | 16 ++++++++++++----
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 3adf3f9..9ea980d 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -232,6 +232,14 @@ func (p *Base[T]) ResetPrinted() {
 	}
 }
 
+// shapeStr is the printed shape of t; a layer has no tensors until it is built
+func shapeStr[T types.Number](t tensor.Tensor[T]) string {
+	if t == nil {
+		return tools.ShapeStr(nil)
+	}
+	return tools.ShapeStr(t.GetShape())
+}
+
 func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
@@ -245,7 +253,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 				p.Index,
 				p.PreLayer.GetIndex(),
 				p.Type,
-				tools.ShapeStr(p.Output.GetShape()),
+				shapeStr(p.Output),
 			),
 		)
 		return
@@ -255,7 +263,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 			"<Layer[%d] => %s: O%s>\n",
 			p.Index,
 			p.Type,
-			tools.ShapeStr(p.Output.GetShape()),
+			shapeStr(p.Output),
 		),
 	)
 }
@@ -265,7 +273,7 @@ func (p *Base[T]) String() string {
 		"<Layer[%d] => %s: O%s>",
 		p.Index,
 		p.Type,
-		tools.ShapeStr(p.Output.GetShape()),
+		shapeStr(p.Output),
 	)
 }
 
diff --git a/layer/concat.go b/layer/concat.go
index 48b4234..4720d8a 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -10,7 +10,6 @@ import (
 	"github.com/julioguillermo/godeep/number"
 	"github.com/julioguillermo/godeep/operation"
 	"github.com/julioguillermo/godeep/tensor"
-	"github.com/julioguillermo/godeep/tools"
 	"github.com/julioguillermo/godeep/types"
 )
 
@@ -32,6 +31,17 @@ func NewConcat[T types.Number](l1, l2 Layer[T], dim uint) Layer[T] {
 	return l
 }
 
+// branches are the connected ones of the two previous layers
+func (p *Concat[T]) branches() []Layer[T] {
+	ls := []Layer[T]{}
+	for _, l := range []Layer[T]{p.l1, p.l2} {
+		if l != nil {
+			ls = append(ls, l)
+		}
+	}
+	return ls
+}
+
 func (p *Concat[T]) Build() (uint, error) {
 	if p.CheckB() {
 		return p.Index, nil
@@ -232,21 +242,24 @@ func (p *Concat[T]) Reset(ctx *context.Context) error {
 
 func (p *Concat[T]) ResetLoad() {
 	p.loaded = false
-	p.l1.ResetLoad()
-	p.l2.ResetLoad()
+	for _, l := range p.branches() {
+		l.ResetLoad()
+	}
 }
 
 func (p *Concat[T]) ResetSave() {
 	p.saved = false
-	p.l1.ResetSave()
-	p.l2.ResetSave()
+	for _, l := range p.branches() {
+		l.ResetSave()
+	}
 }
 
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-	p.l1.ResetPrinted()
-	p.l2.ResetPrinted()
+	for _, l := range p.branches() {
+		l.ResetPrinted()
+	}
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
@@ -254,18 +267,21 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 		return
 	}
 	p.printed = true
-	p.l1.PushToString(sb)
-	p.l2.PushToString(sb)
+	index := [2]uint{}
+	for i, l := range p.branches() {
+		l.PushToString(sb)
+		index[i] = l.GetIndex()
+	}
 
 	sb.WriteString(
 		fmt.Sprintf(
 			"<Layer[%d] (%d, %d) => %s: I%s O%s>\n",
 			p.Index,
-			p.l1.GetIndex(),
-			p.l2.GetIndex(),
+			index[0],
+			index[1],
 			p.Type,
-			tools.ShapeStr(p.Input.GetShape()),
-			tools.ShapeStr(p.Output.GetShape()),
+			shapeStr(p.Input),
+			shapeStr(p.Output),
 		),
 	)
 }
diff --git a/model/model_layer.go b/model/model_layer.go
index 7452761..f380d2d 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -78,11 +78,15 @@ func (p *Model[T]) Connect(l layer.Layer[T]) {
 }
 
 func (p *Model[T]) PushToString(sb *strings.Builder) {
-	p.LastLayer.PushToString(sb)
+	if p.LastLayer != nil {
+		p.LastLayer.PushToString(sb)
+	}
 }
 
 func (p *Model[T]) ResetPrinted() {
-	p.LastLayer.ResetPrinted()
+	if p.LastLayer != nil {
+		p.LastLayer.ResetPrinted()
+	}
 }
 
 func (p *Model[T]) GetIndex() uint {
@@ -125,9 +129,13 @@ func (p *Model[T]) Save(w io.Writer) error {
 }
 
 func (p *Model[T]) ResetLoad() {
-	p.LastLayer.ResetLoad()
+	if p.LastLayer != nil {
+		p.LastLayer.ResetLoad()
+	}
 }
 
 func (p *Model[T]) ResetSave() {
-	p.LastLayer.ResetSave()
+	if p.LastLayer != nil {
+		p.LastLayer.ResetSave()
+	}
 }
-- 
2.43.0


From 904a6d2916f755c1d771b1a1053851611139aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:57 +0000
Subject: [PATCH 43/45] fix: training without samples is reported as an error

---
 model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model.go b/model/model.go
index d472ad3..73268c9 100644
--- a/model/model.go
+++ b/model/model.go
@@ -374,6 +374,9 @@ func (p *Model[T]) Train(
 			len(targets),
 		)
 	}
+	if len(inputs) == 0 && epochs > 0 && batch > 0 {
+		return errors.FmtNeuralError("Fail to fit the model, there are no samples")
+	}
 	if p.GraphBackPropagation == nil {
 		err := p.CompileBackPropagation()
 		if err != nil {
-- 
2.43.0


From 3d847ced2e35845791cbfc84c551757c99717fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:57 +0000
Subject: [PATCH 44/45] fix: tensors of different shapes are not bound

---
 tensor/tensor_mat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index b9fd754..0be8feb 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -65,6 +65,10 @@ func (p *TensorMat[T]) GetOperand(index ...uint) (*number.Scalar[T], error) {
 }
 
 func (p *TensorMat[T]) Bind(t Tensor[T]) error {
+	err := tools.GetEqShapeErr("Binding operands of tensor", p.Shape, t.GetShape())
+	if err != nil {
+		return err
+	}
 	copy(p.Operands, t.GetOperands())
 	return nil
 }
-- 
2.43.0


From c25575feb691bcbc6f9f57232f8d160a16a4b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:17 +0000
Subject: [PATCH 45/45] fix: composing with a repeated, an empty or a used
 model connects nothing

---
 model/model.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/model/model.go b/model/model.go
index 73268c9..e7a0662 100644
--- a/model/model.go
+++ b/model/model.go
@@ -58,14 +58,27 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		return nil, errors.FmtNeuralError("Can not create a model from 0 models")
 	}
 
+	// nothing is connected unless everything can be
+	for i, mod := range models {
+		if mod == nil || mod.FirstLayer == nil || mod.LastLayer == nil {
+			return nil, errors.FmtNeuralError("Model %d has no layers", i)
+		}
+		for _, before := range models[:i] {
+			if before.FirstLayer == mod.FirstLayer {
+				return nil, errors.FmtNeuralError("Model %d is given more than once", i)
+			}
+		}
+		if i > 0 && mod.GraphFeedForward != nil &&
+			mod.FirstLayer.GetPrelayer() != models[i-1].LastLayer {
+			return nil, errors.FmtNeuralError(
+				"Model %d is already compiled on its own, it can not be connected",
+				i,
+			)
+		}
+	}
+
 	for i := 1; i < len(models); i++ {
 		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
-			if models[i].GraphFeedForward != nil {
-				return nil, errors.FmtNeuralError(
-					"Model %d is already compiled on its own, it can not be connected",
-					i,
-				)
-			}
 			models[i].FirstLayer.Connect(models[i-1].LastLayer)
 		}
 		models[i].composed = true
-- 
2.43.0

