From f00b8d493403d6522a0fae9aca940eae9a9c64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:47 +0000
Subject: [PATCH 01/43] fix: SoftMax overflowed to NaN for inputs over about
 709

---
 utils/loss_acti.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index d00d50f..b46496e 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -37,8 +37,14 @@ func SoftMax(p, probs []float64) []float64 {
 	if probs == nil {
 		probs = make([]float64, len(p))
 	}
+	//We subtract the largest input, which doesn't change the result, so the
+	//exponentials can't overflow.
+	shift := math.Inf(-1)
+	for _, v := range p {
+		shift = math.Max(shift, v)
+	}
 	for i, v := range p {
-		probs[i] = math.Exp(v)
+		probs[i] = math.Exp(v - shift)
 	}
 	den := floats.Sum(probs)
 	for i := range p {
-- 
2.43.0


From cc79b5b2f75e4ba0a78baabc13ad72ed060bfcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:48 +0000
Subject: [PATCH 02/43] fix: an early-stopped class made the trees of the
 following classes be used for the wrong class

---
 xgb.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xgb.go b/xgb.go
index 2699b8d..d6ec17b 100644
--- a/xgb.go
+++ b/xgb.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"math"
 	"math/rand/v2"
+	"slices"
 
 	"github.com/rmera/boo/utils"
 	"gonum.org/v1/gonum/floats"
@@ -44,10 +45,19 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	tmpPreds := make([]float64, r)
 	tmploss := mat.NewDense(1, r, make([]float64, r))
 	stopped := make([]bool, len(differentlabels))
+	//takes the place of the tree of a class that is no longer boosted, so the
+	//trees for the other classes keep their positions. Adds nothing to the prediction.
+	noTree := &Tree{xgb: O.XGB, branches: 1}
+	if !O.XGB {
+		noTree.bestScoreSoFar = math.Inf(1)
+	}
 	roundsNoProgress := make([]int, len(differentlabels))
 	prevloss := make([]float64, len(differentlabels))
 
 	for round := 0; round < O.Rounds; round++ {
+		if !slices.Contains(stopped, false) {
+			break
+		}
 		var sampleIndexes, sampleCols []int
 		if O.SubSample < 1 && O.XGB {
 			sampleIndexes = SubSample(len(D.Data), O.SubSample)
@@ -61,6 +71,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		classes := make([]*Tree, 0, 1)
 		for k := 0; k < nlabels; k++ {
 			if stopped[k] {
+				classes = append(classes, noTree)
 				continue
 			}
 			var tOpts *TreeOptions
-- 
2.43.0


From c4aa60055f7aad86db8f63f9d912ad6d5ec70597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:48 +0000
Subject: [PATCH 03/43] fix: the first boosted round counted as one without
 progress if round 0 was skipped

---
 xgb.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xgb.go b/xgb.go
index d6ec17b..95923be 100644
--- a/xgb.go
+++ b/xgb.go
@@ -53,6 +53,9 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	}
 	roundsNoProgress := make([]int, len(differentlabels))
 	prevloss := make([]float64, len(differentlabels))
+	for i := range prevloss {
+		prevloss[i] = math.Inf(1) //so the first boosted round always counts as progress
+	}
 
 	for round := 0; round < O.Rounds; round++ {
 		if !slices.Contains(stopped, false) {
@@ -127,10 +130,6 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 					stopped[k] = true
 					continue
 				}
-				if round == 0 {
-					prevloss[k] = currloss
-					continue
-				}
 				//	fmt.Println("losses", prevloss[k], currloss, roundsNoProgress[k], k) ///////////////
 				if prevloss[k] <= currloss {
 					roundsNoProgress[k]++
-- 
2.43.0


From d33197a0ff2157b0370aab44e9d6ff27f14c59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:49 +0000
Subject: [PATCH 04/43] fix: Rounds returned the number of classes, and Classes
 the number of rounds

---
 multiclass.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 83f7350..8d2f983 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -56,19 +56,23 @@ func (M *MultiClass) Rounds(class ...int) int {
 	if len(class) > 0 && class[0] >= 0 {
 		c = class[0]
 	}
-	//	println(len(M.b), c) /////////////////////////
-	if M.Classes() < c || len(M.b) <= c {
-		//println(len(M.b), c, M.Classes(), "v2") /////////////////////////
-
+	if c >= M.Classes() {
 		return -1
 	}
-	return len(M.b[c])
+	n := 0
+	for _, round := range M.b {
+		//early-stopped classes have a place holder, without samples, instead of a tree.
+		if c < len(round) && round[c].nsamples > 0 {
+			n++
+		}
+	}
+	return n
 }
 
 // Returns the number of classes, i.e. the number of categories to which
 // each data vector could belong.
 func (M *MultiClass) Classes() int {
-	return len(M.b)
+	return len(M.classLabels)
 }
 
 // Predicts the class to which a single sample belongs. You can give a slice of floats
-- 
2.43.0


From 2117b8cdf752e6e455ce2e3b372cdd8bd939ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:49 +0000
Subject: [PATCH 05/43] fix: without row subsampling every round was skipped as
 having too few samples

---
 xgb.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 95923be..2093103 100644
--- a/xgb.go
+++ b/xgb.go
@@ -62,13 +62,15 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 			break
 		}
 		var sampleIndexes, sampleCols []int
+		nsamples := len(D.Data)
 		if O.SubSample < 1 && O.XGB {
 			sampleIndexes = SubSample(len(D.Data), O.SubSample)
+			nsamples = len(sampleIndexes)
 		}
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if len(sampleIndexes) < O.MinSample {
+		if nsamples < O.MinSample {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From 1cd14c6b2c6f9fa3b25d5fbf2113305feeb0f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:50 +0000
Subject: [PATCH 06/43] fix: predicting with an ensemble without rounds
 panicked

---
 multiclass.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 8d2f983..b7cfb41 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -94,8 +94,8 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.b[0]))
-	tmp := make([]float64, len(M.b[0]))
+	preds = make([]float64, len(M.classLabels))
+	tmp := make([]float64, len(M.classLabels))
 	for i := range tmp {
 		tmp[i] = M.baseScore
 	}
-- 
2.43.0


From 305ce9916a3f6064472bc773fca5f27185ac2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:50 +0000
Subject: [PATCH 07/43] fix: PredictSingle didn't fill the slice supplied for
 the predictions

---
 multiclass.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index b7cfb41..42fd196 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -18,7 +18,6 @@ type MultiClass struct {
 	classLabels   []int
 	probTransform func(*mat.Dense, *mat.Dense) *mat.Dense
 	tmp           []float64
-	predtmp       []float64
 	baseScore     float64
 	xgb           bool
 }
@@ -35,11 +34,12 @@ func (M *MultiClass) Accuracy(D *utils.DataBunch, classes ...int) float64 {
 	right := 0
 	instances := D.Data
 	actualclasses := D.Labels
-	if len(classes) > 0 && classes[0] > 0 && len(M.predtmp) < classes[0] {
-		M.predtmp = make([]float64, classes[0])
+	var predtmp []float64
+	if len(classes) > 0 && classes[0] > 0 {
+		predtmp = make([]float64, classes[0])
 	}
 	for i, v := range instances {
-		p := M.PredictSingleClass(v, M.predtmp)
+		p := M.PredictSingleClass(v, predtmp)
 		if M.classLabels[p] == actualclasses[i] {
 			right++
 		}
@@ -94,7 +94,11 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.classLabels))
+	if len(predictions) > 0 && len(predictions[0]) == len(M.classLabels) {
+		preds = predictions[0]
+	} else {
+		preds = make([]float64, len(M.classLabels))
+	}
 	tmp := make([]float64, len(M.classLabels))
 	for i := range tmp {
 		tmp[i] = M.baseScore
-- 
2.43.0


From 8a5956943cdcb846425d3eec70c38fc0adcfc664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:50 +0000
Subject: [PATCH 08/43] fix: only the root of a tree respected the allowed
 columns

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index a3300b7..fe28cf1 100644
--- a/tree.go
+++ b/tree.go
@@ -72,7 +72,9 @@ func DefaultXTreeOptions() *TreeOptions {
 
 func (T *TreeOptions) clone() *TreeOptions {
 	ret := &TreeOptions{}
+	ret.Debug = T.Debug
 	ret.XGB = T.XGB
+	ret.AllowedColumns = T.AllowedColumns
 	ret.Gradients = T.Gradients
 	ret.Hessian = T.Hessian
 	ret.Y = T.Y
-- 
2.43.0


From e7f607425d19fd87916565522c4161b179e32090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:51 +0000
Subject: [PATCH 09/43] fix: a split between neighboring or very large values
 could leave an empty side

---
 tree.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index fe28cf1..6128a85 100644
--- a/tree.go
+++ b/tree.go
@@ -249,11 +249,21 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 		if criterion() {
 			T.splitFeatureIndex = featureIndex
 			T.bestScoreSoFar = gain
-			T.threshold = (xi + xinext) / 2
+			T.threshold = midpoint(xi, xinext)
 		}
 	}
 }
 
+// Returns the middle of a and b, a<b. The value returned is always at least a
+// and smaller than b, even if there is no number between them.
+func midpoint(a, b float64) float64 {
+	m := a/2 + b/2 //a+b could overflow
+	if m < a || m >= b {
+		return a
+	}
+	return m
+}
+
 // Returns the number of branches in the tree
 func (T *Tree) Branches() int {
 	return T.branches
-- 
2.43.0


From 5729aa3bf86f2e27ac2b996005fb3d38def8e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:51 +0000
Subject: [PATCH 10/43] fix: leaves where the Hessian vanishes got NaN or
 infinite values

---
 xgb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 2093103..cdb6fd1 100644
--- a/xgb.go
+++ b/xgb.go
@@ -217,7 +217,10 @@ func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 			sumhess += hessian.At(0, w)
 			sumgrad += gradient.At(0, w)
 		}
-		nval := sumgrad / sumhess
+		nval := 0.0
+		if math.Abs(sumhess) > 1e-150 { //otherwise, the step can't be determined
+			nval = sumgrad / sumhess
+		}
 		leaf.value = nval
 	}
 	applyToLeafs(tree, fn)
-- 
2.43.0


From b7f9a47599654bdcecb58da42a8cb7911105253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:52 +0000
Subject: [PATCH 11/43] fix: NewTree changed the options given, so they
 couldn't be used again

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index 6128a85..d8374f0 100644
--- a/tree.go
+++ b/tree.go
@@ -92,6 +92,8 @@ func (T *TreeOptions) clone() *TreeOptions {
 // Returns a new tree for the data X and options o
 func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret := &Tree{}
+	ocopy := *o //the caller might use the options again, for other data.
+	o = &ocopy
 	if o.XGB {
 		if o.Gradients == nil && o.Hessian == nil {
 			panic("nil gradients/hessians in XGBoost tree")
-- 
2.43.0


From fa315254285ebfd77862b2b48faab991e299313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:33 +0000
Subject: [PATCH 12/43] fix: the last round of a model was lost when reading it
 from JSON

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 7ff1d2d..6bdb2ef 100644
--- a/xjson.go
+++ b/xjson.go
@@ -89,6 +89,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if class != nil {
+		trees = append(trees, class)
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From 1a4bb501ed3119b0f90cb19b20e60468f9e18da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:33 +0000
Subject: [PATCH 13/43] fix: models read from JSON forgot whether they were
 xgboost, so features were ranked backwards

---
 xjson.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xjson.go b/xjson.go
index 6bdb2ef..e2b8b4d 100644
--- a/xjson.go
+++ b/xjson.go
@@ -81,7 +81,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Error reading tree %d round %d, class %d: %v", cont, nround, nclass, err)
 		}
-		class = append(class, jtree.(*Tree))
+		tree := jtree.(*Tree)
+		ret.xgb = tree.xgb
+		class = append(class, tree)
 		nclass++
 		cont++
 	}
-- 
2.43.0


From 2476324d71374fa1e4a86ee61b09e1bd08ac5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:34 +0000
Subject: [PATCH 14/43] fix: the last line of a JSON model was lost if it
 didn't end in a newline

---
 utils/json.go | 5 +++--
 xjson.go      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/json.go b/utils/json.go
index 31ece1c..68e7d36 100644
--- a/utils/json.go
+++ b/utils/json.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"sync"
 )
 
@@ -68,7 +69,7 @@ func UnJSONTree(str string, r *bufio.Reader, creator func(*JSONNode) JTree) (JTr
 	ret := creator(j)
 	if j.Leftid > 0 {
 		s, err := r.ReadString('\n')
-		if err != nil {
+		if err != nil && (err != io.EOF || s == "") { //the last line might not end in a newline.
 			return nil, err
 		}
 		l, err := UnJSONTree(s, r, creator)
@@ -79,7 +80,7 @@ func UnJSONTree(str string, r *bufio.Reader, creator func(*JSONNode) JTree) (JTr
 	}
 	if j.Rightid > 0 {
 		s, err := r.ReadString('\n')
-		if err != nil {
+		if err != nil && (err != io.EOF || s == "") { //the last line might not end in a newline.
 			return nil, err
 		}
 
diff --git a/xjson.go b/xjson.go
index e2b8b4d..3e263de 100644
--- a/xjson.go
+++ b/xjson.go
@@ -61,7 +61,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	nclass := 0
 	for {
 		s, err = r.ReadString('\n')
-		if err != nil {
+		if err != nil && (err.Error() != "EOF" || s == "") { //the last line might not end in a newline.
 			break
 		}
 		if strings.Contains(s, "ROUND") {
-- 
2.43.0


From 2a7c5d29df6a1fc1d3d7c46bd4fda3a1a348ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:34 +0000
Subject: [PATCH 15/43] fix: damaged JSON models were accepted, and panicked
 when used

---
 utils/json.go | 8 ++++++++
 xjson.go      | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/utils/json.go b/utils/json.go
index 68e7d36..10f59e8 100644
--- a/utils/json.go
+++ b/utils/json.go
@@ -91,6 +91,14 @@ func UnJSONTree(str string, r *bufio.Reader, creator func(*JSONNode) JTree) (JTr
 		ret.Rightf(r)
 
 	}
+	if !ret.Leaf() {
+		if ret.Leftf(nil) == nil || ret.Rightf(nil) == nil {
+			return nil, fmt.Errorf("Node %d is not a leaf but doesn't have 2 children", j.Id)
+		}
+		if j.SplitFeatureIndex < 0 {
+			return nil, fmt.Errorf("Node %d splits by a negative feature: %d", j.Id, j.SplitFeatureIndex)
+		}
+	}
 	return ret, nil
 }
 
diff --git a/xjson.go b/xjson.go
index 3e263de..b30f3d1 100644
--- a/xjson.go
+++ b/xjson.go
@@ -47,7 +47,13 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	}
 	ret.learningRate = jmc.LearningRate
 	ret.classLabels = jmc.ClassLabels
+	if len(ret.classLabels) == 0 {
+		return nil, fmt.Errorf("No class labels in the metadata")
+	}
 	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
+	if ret.probTransform == nil {
+		return nil, fmt.Errorf("Unknown activation function in metadata: %q", jmc.ProbTransformName)
+	}
 	ret.baseScore = jmc.BaseScore
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
@@ -81,6 +87,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Error reading tree %d round %d, class %d: %v", cont, nround, nclass, err)
 		}
+		if len(class) >= len(ret.classLabels) {
+			return nil, fmt.Errorf("More trees than classes (%d) in round %d", len(ret.classLabels), nround)
+		}
 		tree := jtree.(*Tree)
 		ret.xgb = tree.xgb
 		class = append(class, tree)
-- 
2.43.0


From 7634355849d5548fb559a53bc6ac96e643281bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:35 +0000
Subject: [PATCH 16/43] fix: the libSVM reader lost a last line without newline
 and panicked on blank lines

---
 utils/libsvm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index d642289..f5f6465 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -166,9 +166,12 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 	for {
 		//	println("Will read the line", cont+1) ///////
 		line, err2 = buf.ReadString('\n')
-		if err2 != nil {
+		if err2 != nil && (err2 != io.EOF || line == "") { //the last line might not end in a newline
 			break
 		}
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
 		var err error
 		if hasHeader && cont == 0 {
 			_, headers, _, err = parseLibSVMLine(line, true, nil, nil)
-- 
2.43.0


From 525ed75d098ac3b3fa9da620234bd60f3ceadef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:35 +0000
Subject: [PATCH 17/43] fix: writing a DataBunch without data panicked

---
 utils/csv.go    | 5 ++++-
 utils/libsvm.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 0c814f2..8565036 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -21,7 +21,10 @@ func (D *DataBunch) CSV(separator ...string) string {
 		sep = separator[0]
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
+	l := len(D.Keys)
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
 	if len(D.Keys) == l { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
diff --git a/utils/libsvm.go b/utils/libsvm.go
index f5f6465..c2f673e 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -68,7 +68,10 @@ func (D *DataBunch) LibSVM() string {
 		return ""
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
+	l := len(D.Keys)
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
 	if len(D.Keys) == l { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
-- 
2.43.0


From 9182479741feeaf0b9a48e552542660406461bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:36 +0000
Subject: [PATCH 18/43] fix: the feature names were lost in the
 cross-validation samples

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 14b7122..82fc02f 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -40,7 +40,7 @@ func fillDataBunch(ori, dest *DataBunch, toadd []int, docopy bool) *DataBunch {
 			dest.Labels = append(dest.Labels, ori.Labels[v])
 		}
 	}
-	if len(dest.Keys) > 0 {
+	if len(ori.Keys) > 0 {
 		if docopy {
 			dest.Keys = make([]string, len(ori.Keys))
 			copy(dest.Keys, ori.Keys)
-- 
2.43.0


From 14c4aaeea69648c13f3962e4434849bef32c9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:36 +0000
Subject: [PATCH 19/43] fix: CrossValidationSamples divided by zero with less
 than 2 samples

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 82fc02f..fc50dc4 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -70,7 +70,7 @@ func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int,
 	}
 	tot := len(data.Data)
 	tried := make([]int, 0, 5)
-	for ; tot/nf < minleftout; nf-- {
+	for ; nf > 0 && tot/nf < minleftout; nf-- {
 		err = fmt.Errorf("The %d-fold crossvalidation requested leaves only %d sample(s) per fold, when the minimum allowed is %d. Will use %d-fold.N-folds already tried: %v", nf, tot/nf, minleftout, nf-1, tried)
 		tried = append(tried, nf)
 	}
-- 
2.43.0


From c179eb677949647ac7f2e5d240c25e6e270efcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:37 +0000
Subject: [PATCH 20/43] fix: Options.Clone and Options.Equal ignored EarlyStop
 and TreeMethod

---
 options.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/options.go b/options.go
index 73c376a..4effac5 100644
--- a/options.go
+++ b/options.go
@@ -80,7 +80,10 @@ func (o *Options) Equal(O *Options) bool {
 	if O.BaseScore != o.BaseScore {
 		return false
 	}
-	if O.TreeMethod != "exact" {
+	if O.EarlyStop != o.EarlyStop {
+		return false
+	}
+	if O.TreeMethod != o.TreeMethod {
 		return false
 	}
 	if O.Loss != o.Loss {
@@ -107,7 +110,8 @@ func (o *Options) Clone() *Options {
 	O.MaxDepth = o.MaxDepth
 	O.LearningRate = o.LearningRate
 	O.BaseScore = o.BaseScore
-	O.TreeMethod = "exact"
+	O.EarlyStop = o.EarlyStop
+	O.TreeMethod = o.TreeMethod
 	O.Loss = o.Loss
 	O.Verbose = o.Verbose
 	O.MinSample = o.MinSample
-- 
2.43.0


From d60d190d451b0d7446b82205e175e50ee9cb10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:38 +0000
Subject: [PATCH 21/43] fix: LogOddsFromProbs multiplied by the opposite
 probability instead of dividing

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index cdb6fd1..f8a6ee0 100644
--- a/xgb.go
+++ b/xgb.go
@@ -164,7 +164,7 @@ func LogOddsFromProbs(m *mat.Dense) *mat.Dense {
 		row := m.RawRowView(i)
 		s := floats.Sum(row)
 		for j, v := range row {
-			ret.Set(i, j, math.Log(v*(s-v)))
+			ret.Set(i, j, math.Log(v/(s-v)))
 		}
 	}
 	return ret
-- 
2.43.0


From db61a46aa39f7a877599f1753dbe5ef8d02c5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:38 +0000
Subject: [PATCH 22/43] fix: Feats.Add searched for the feature without holding
 the lock

---
 tree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index d8374f0..a52fb4b 100644
--- a/tree.go
+++ b/tree.go
@@ -365,18 +365,15 @@ func NewFeats(xgboost bool) *Feats {
 // Adds a feature,gain pair to the f set. This operation
 // is concurrency-safe.
 func (f *Feats) Add(feature int, gain float64) {
+	f.m.Lock()
+	defer f.m.Unlock()
 	index := slices.Index(f.feat, feature)
 	if index >= 0 {
-		f.m.Lock()
 		f.gains[index] += gain
-		f.m.Unlock()
 		return
 	}
-	f.m.Lock()
 	f.feat = append(f.feat, feature)
 	f.gains = append(f.gains, gain)
-	f.m.Unlock()
-	return
 }
 
 // Merges the given feature set into the receiver.
-- 
2.43.0


From d02263382dc24211b2501329e86dd0f7d298acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 23/43] fix: DenseCol and AddToCol accepted a column past the
 last and took wrong elements from matrix views

---
 utils/math.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index 18a4829..188fe2c 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -102,15 +102,13 @@ func PrintDenseMatrix(m *mat.Dense) string {
 
 // Returns the col-th column of the D matrix as a row Dense matrix
 func DenseCol(D *mat.Dense, col int) *mat.Dense {
-	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col >= c {
 		panic(fmt.Sprintf("DenseCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
-	data := raw.Data
 	newcol := make([]float64, 0, r)
-	for i := col; i < len(data); i += c {
-		newcol = append(newcol, data[i])
+	for i := 0; i < r; i++ {
+		newcol = append(newcol, D.At(i, col))
 	}
 	return mat.NewDense(1, len(newcol), newcol)
 }
@@ -118,20 +116,16 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 // adds the i-th number in s to the ith row to the col column of
 // D. s must have as many elements as D has rows.
 func AddToCol(D *mat.Dense, s []float64, col int) {
-	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col >= c {
 		panic(fmt.Sprintf("AddToCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	if len(s) != r {
 
 		panic(fmt.Sprintf("AddToCol: Tried to add a %d-elements slice to a %d rows column %v %v", len(s), r, s, D))
 	}
-	data := raw.Data
-	cont := 0
-	for i := col; i < len(data); i += c {
-		data[i] += s[cont]
-		cont++
+	for i, v := range s {
+		D.Set(i, col, D.At(i, col)+v)
 	}
 	return
 }
-- 
2.43.0


From af18fe6b00cc053b82915dc97ada73390dc3239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 24/43] fix: ReadNameMap lost read errors and a last line
 without newline, and panicked on lines without a name

---
 confu/confu.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/confu/confu.go b/confu/confu.go
index e16d3ec..c1226c5 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -42,14 +42,22 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	fin := bufio.NewReader(ffin)
 	var rerr error
 	ret := make(map[int]string)
-	for s, rerr := fin.ReadString('\n'); rerr == nil; s, rerr = fin.ReadString('\n') {
-		s := strings.Replace(s, "\n", "", -1)
+	for rerr == nil {
+		var s string
+		s, rerr = fin.ReadString('\n')
+		s = strings.Replace(s, "\n", "", -1)
+		if strings.TrimSpace(s) == "" {
+			continue
+		}
 		var l []string
 		if sep == " " {
 			l = strings.Fields(s)
 		} else {
 			l = strings.Split(s, sep)
 		}
+		if len(l) < 2 {
+			return nil, fmt.Errorf("ReadNameMap: No name in line: %q", s)
+		}
 		num, err := strconv.Atoi(l[0])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e73d216744db4766b5b728c5ff27f8d726eac0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 25/43] fix: PrintTopN panicked for N=0

---
 confu/confu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index c1226c5..77e2d33 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -130,7 +130,7 @@ func (C *Confusions) PrintTopN(N int, m map[int]string) string {
 	ret := make([]string, 1, len(m)+1)
 	ret[0] = "Confusions:"
 	for i, v := range r {
-		str := make([]string, 1, N)
+		str := make([]string, 1, N+1)
 		sum := 0
 		for _, w := range rf[i] {
 			sum += w
-- 
2.43.0


From 6b962ef52ad307e155b129193fda836c691efa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:16 +0000
Subject: [PATCH 26/43] fix: Grid left gorutines blocked forever after an error

---
 cv/cv.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index aaf6923..ac4565a 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -233,16 +233,21 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
+	var firsterr error
 	for i, v := range errors {
+		//we always read everything, even after an error, so no gorutine stays blocked.
 		err = <-v
-		if err != nil {
-			return -1, nil, err
-		}
 		tmpacc = <-accs[i]
-		if tmpacc < 0 {
-			return -1, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
-		}
 		tmpop = <-opts[i]
+		if err == nil && tmpacc < 0 {
+			err = fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
+		}
+		if firsterr == nil {
+			firsterr = err
+		}
+		if firsterr != nil {
+			continue
+		}
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -254,6 +259,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			}
 		}
 	}
+	if firsterr != nil {
+		return -1, nil, firsterr
+	}
 	return bestacc, bestop, nil
 
 }
-- 
2.43.0


From 567ba32272e38d4b097a6a4f52cb62e511ecd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:16 +0000
Subject: [PATCH 27/43] fix: Grid panicked with less than 1 CPU, which is what
 DefaultGGridOptions has

---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index ac4565a..84c3418 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -169,11 +169,12 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	var finaloptions *boo.Options
 	accuracies := make([]float64, 0, 100)
 	bestacc := 0.0
-	accs := make([]chan float64, o.NCPUs)
-	errs := make([]chan error, o.NCPUs)
+	ncpus := max(o.NCPUs, 1)
+	accs := make([]chan float64, ncpus)
+	errs := make([]chan error, ncpus)
 
-	os := make([]chan *boo.Options, o.NCPUs)
-	for i := range o.NCPUs {
+	os := make([]chan *boo.Options, ncpus)
+	for i := range ncpus {
 		accs[i] = make(chan float64)
 		errs[i] = make(chan error)
 		os[i] = make(chan *boo.Options)
@@ -206,7 +207,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
 									go MultiClassCrossValidation(data, nfold, conc)
 									cpus++
-									if cpus == o.NCPUs {
+									if cpus == ncpus {
 										var err error
 										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
 
-- 
2.43.0


From 8359b07d7b52d4d61957e12c0039ae0222e51219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:16 +0000
Subject: [PATCH 28/43] fix: Grid lost the last points, and their gorutines, if
 the points weren't a multiple of the CPUs

---
 cv/cv.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cv/cv.go b/cv/cv.go
index 84c3418..ac7e4c7 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -226,6 +226,13 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 			}
 		}
 	}
+	if cpus > 0 { //the last batch might have been incomplete
+		var err error
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		if err != nil {
+			return -1, nil, nil, err
+		}
+	}
 	return bestacc, accuracies, finaloptions, nil
 }
 
-- 
2.43.0


From de1be9c55b9d62e0f8a8a480136fc85f21192214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:17 +0000
Subject: [PATCH 29/43] fix: Grid returned no options if no point had an
 accuracy over 0

---
 cv/cv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/cv.go b/cv/cv.go
index ac7e4c7..7339faa 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -256,7 +256,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		if firsterr != nil {
 			continue
 		}
-		if tmpacc > bestacc {
+		if bestop == nil || tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
 			if verbose {
-- 
2.43.0


From 1f1c0cafa40a3f5186913f91429340c892c4e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:17 +0000
Subject: [PATCH 30/43] fix: Grid returned an empty slice of accuracies

---
 cv/cv.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 7339faa..fd37191 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -209,7 +209,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									cpus++
 									if cpus == ncpus {
 										var err error
-										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+										bestacc, accuracies, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, accuracies, finaloptions, o.Verbose, o.WriteBest, data)
 
 										if err != nil {
 											return -1, nil, nil, err
@@ -228,7 +228,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	}
 	if cpus > 0 { //the last batch might have been incomplete
 		var err error
-		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		bestacc, accuracies, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, accuracies, finaloptions, o.Verbose, o.WriteBest, data)
 		if err != nil {
 			return -1, nil, nil, err
 		}
@@ -237,7 +237,8 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 }
 
 // Rescues cross-validation results from the given channels (errors, accuracy and the corresponding boosting options)
-func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, error) {
+// The accuracies read are appended to accuracies.
+func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, accuracies []float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, []float64, *boo.Options, error) {
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
@@ -256,6 +257,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		if firsterr != nil {
 			continue
 		}
+		accuracies = append(accuracies, tmpacc)
 		if bestop == nil || tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -268,9 +270,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		}
 	}
 	if firsterr != nil {
-		return -1, nil, firsterr
+		return -1, nil, nil, firsterr
 	}
-	return bestacc, bestop, nil
+	return bestacc, accuracies, bestop, nil
 
 }
 
-- 
2.43.0


From c453d3e71e389df9dfa563cb315bda948e1fb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 31/43] fix: ParamaterGradStep gave NaN for parameters that are
 0, a wrong central derivative, and several results (one of them blocked
 forever) when something failed

---
 cv/grad.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index a5abb2a..286d47a 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -91,6 +91,19 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 
 	f["Rounds"] = [2]myf{func(o *boo.Options) *boo.Options { o.Rounds -= int(float64(o.Rounds) * fd); return o }, func(o *boo.Options) *boo.Options { o.Rounds += int(float64(o.Rounds) * fd); return o }}
 
+	h := fd * currentValue(O, param)
+	if !(h > 0) { //there is nothing to derive against, or the parameter doesn't exist
+		out <- O
+		return
+	}
+	var mO *boo.Options
+	if central {
+		mO = f[param][0](O.Clone())
+		if mO.Check() != nil {
+			out <- O
+			return
+		}
+	}
 	pO := f[param][1](O.Clone())
 	pluserr := make(chan error)
 	pluso := make(chan *boo.Options)
@@ -103,11 +116,6 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	var minacc chan float64
 
 	if central {
-		mO := f[param][0](O.Clone())
-		if mO.Check() != nil {
-			out <- O
-
-		}
 		minerr = make(chan error)
 		mino = make(chan *boo.Options)
 		minacc = make(chan float64)
@@ -119,24 +127,20 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	pacc := <-plusacc
 	var der float64
 	_ = <-pluso
-	if err != nil {
-		out <- O
-	}
-	h := fd * currentValue(O, param)
 	if !central {
-		if h < 0 {
-			out <- O
-			return
-		}
 		der = (pacc - currentAccuracy) / h
 	} else {
-		err = <-minerr
+		merr := <-minerr
 		macc := <-minacc
 		_ = <-mino
-		if err != nil {
-			out <- O
+		if err == nil {
+			err = merr
 		}
-		der = (pacc - macc) / 2 * h
+		der = (pacc - macc) / (2 * h)
+	}
+	if err != nil {
+		out <- O
+		return
 	}
 	prev := O.Clone()
 
-- 
2.43.0


From a77e017ecb4b43da56c8ae56560e119ac65c2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 32/43] fix: data race in GradStep, between updating the
 options and the gorutines that still read them

---
 cv/grad.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index 286d47a..4e4724d 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -191,7 +191,8 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
 
 	for k, v := range gm {
-		go ParamaterGradStep(D, O, CVO, k, step, fractiondelta, curracc, nfold, central, v)
+		//O will be modified before all the gorutines are done
+		go ParamaterGradStep(D, O.Clone(), CVO, k, step, fractiondelta, curracc, nfold, central, v)
 	}
 	O.Gamma = (<-gm["Gamma"]).Gamma
 	O.Lambda = (<-gm["Lambda"]).Lambda
-- 
2.43.0


From ad0dacf3a699a2b3ea50ba11233cad5e41cd581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:18 +0000
Subject: [PATCH 33/43] fix: GradStep sent nothing through the channel if the
 cross-validation failed

---
 cv/grad.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cv/grad.go b/cv/grad.go
index 4e4724d..3f3be0d 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -185,6 +185,9 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 		conc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}
 		curracc, err = MultiClassCrossValidation(D, nfold, conc)
 		if err != nil {
+			if out != nil {
+				out <- O
+			}
 			return Ori
 		}
 	}
-- 
2.43.0


From ce851e5e18127df35f0178b34bb8eeaf0355e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 34/43] fix: the options returned by GradientGrid and
 HybridGradientGrid were modified after they were found to be the best

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 3f3be0d..472df06 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -267,7 +267,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 						fmt.Println("New best accuracy: ", acc, t)
 					}
 					accuracies = append(accuracies, acc)
-					finaloptions = t
+					finaloptions = t.Clone() //t will be modified by the following steps
 					bestacc = acc
 					if o.WriteBest {
 						writeBest(data, bestacc, finaloptions)
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 4690388..13b75cc 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -60,7 +60,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 								fmt.Println("New best accuracy: ", acc, t)
 							}
 							accuracies = append(accuracies, acc)
-							finaloptions = t
+							finaloptions = t.Clone() //t will be modified by the following steps
 							bestacc = acc
 							if o.WriteBest {
 								writeBest(data, bestacc, finaloptions)
-- 
2.43.0


From a7529101e290f774a81bb39d434dd49bb2455cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:19 +0000
Subject: [PATCH 35/43] fix: GradientGrid and HybridGradientGrid returned no
 options if no accuracy was over 0

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 472df06..c93c3da 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -262,7 +262,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 
 				}
 				//		println("new (might not be best) accuracy!", acc)
-				if acc > bestacc {
+				if finaloptions == nil || acc > bestacc {
 					if o.Verbose {
 						fmt.Println("New best accuracy: ", acc, t)
 					}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 13b75cc..1d48418 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -55,7 +55,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 						if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
 							return fuzzOptions(tprev), nil
 						}
-						if acc > bestacc {
+						if finaloptions == nil || acc > bestacc {
 							if o.Verbose {
 								fmt.Println("New best accuracy: ", acc, t)
 							}
-- 
2.43.0


From d6814ba7ca431e2ff77d6eba6ff8bf593e47371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 36/43] fix: GradientGrid and HybridGradientGrid ignored the
 number of folds requested when comparing options

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index c93c3da..ccaa4ab 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -252,7 +252,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.XGB = o.XGB
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-				acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 				if err != nil {
 					return nil, err
 				}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 1d48418..27f2ad6 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -48,7 +48,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					tprev := t.Clone()
 					CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-						acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+						acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 						if err != nil {
 							return nil, err
 						}
-- 
2.43.0


From 5f557f4e8e281bf08d22ae76498e78515d45c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 37/43] fix: GradientGrid ignored the early-stop option

---
 cv/grad.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv/grad.go b/cv/grad.go
index ccaa4ab..f9705d2 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -250,6 +250,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.MaxDepth = md
 			t.MinChildWeight = cw
 			t.XGB = o.XGB
+			t.EarlyStop = o.EarlyStop
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
 				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
-- 
2.43.0


From 349c2403aaef2ac13a8f6e0311e907895a3c51e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 38/43] fix: ToOnes, the losses and the MSE hessian went wrong
 with matrices that are part of a larger one

---
 utils/loss_acti.go | 31 +++++++++++++++----------------
 utils/math.go      |  9 ++++++---
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index b46496e..be34dcf 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -98,14 +98,13 @@ func (sq *SQErrLoss) Loss(y, pred, loss *mat.Dense) float64 {
 	}
 	loss.Sub(y, pred)
 	loss.MulElem(loss, loss)
-	m := loss.RawMatrix().Data
 	l := 0.0
-	n := 0
-	for _, v := range m {
-		l += v
-		n++
+	for i := 0; i < r; i++ {
+		for _, v := range loss.RawRowView(i) {
+			l += v
+		}
 	}
-	return l / float64(n)
+	return l / float64(r*c)
 
 }
 
@@ -152,14 +151,13 @@ func (mse *MSELoss) Loss(y, pred, loss *mat.Dense) float64 {
 	}
 	loss.Sub(y, pred)
 	loss.MulElem(loss, loss)
-	m := loss.RawMatrix().Data
 	l := 0.0
-	n := 0
-	for _, v := range m {
-		l += v
-		n++
+	for i := 0; i < r; i++ {
+		for _, v := range loss.RawRowView(i) {
+			l += v
+		}
 	}
-	return l / float64(n)
+	return l / float64(r*c)
 
 }
 
@@ -195,10 +193,11 @@ func (m *MSELoss) Hessian(probabilities, hessian *mat.Dense) *mat.Dense {
 		hessian = mat.NewDense(r, c, nil)
 	}
 
-	probraw := probabilities.RawMatrix().Data
-	hraw := hessian.RawMatrix().Data
-	for i, v := range probraw {
-		hraw[i] = (1 - v) * v
+	for i := 0; i < r; i++ {
+		hrow := hessian.RawRowView(i)
+		for j, v := range probabilities.RawRowView(i) {
+			hrow[j] = (1 - v) * v
+		}
 	}
 	return hessian
 }
diff --git a/utils/math.go b/utils/math.go
index 188fe2c..7e4d95e 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -132,8 +132,11 @@ func AddToCol(D *mat.Dense, s []float64, col int) {
 
 // Sets all entries of m to 1.0
 func ToOnes(m *mat.Dense) {
-	rm := m.RawMatrix().Data
-	for i := range rm {
-		rm[i] = 1.0
+	r, _ := m.Dims()
+	for i := 0; i < r; i++ {
+		rm := m.RawRowView(i)
+		for j := range rm {
+			rm[j] = 1.0
+		}
 	}
 }
-- 
2.43.0


From 8116a9ec39df3e85571844104402b11c3de6a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:37 +0000
Subject: [PATCH 39/43] fix: Tree.Print crashed when given fewer names than
 features

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index a52fb4b..9f823ca 100644
--- a/tree.go
+++ b/tree.go
@@ -312,7 +312,7 @@ func (T *Tree) PredictSingle(row []float64) float64 {
 // If given the featurenames, returns the name of the split feature for the node. If not,
 // returns the zero-based index for the split feature.
 func (T *Tree) feature(featurenames []string) string {
-	if featurenames == nil && len(featurenames) <= T.splitFeatureIndex {
+	if len(featurenames) <= T.splitFeatureIndex {
 		return fmt.Sprintf("%2d", T.splitFeatureIndex)
 	}
 	return featurenames[T.splitFeatureIndex]
-- 
2.43.0


From 98be514aebcf59d73d57f2f9975c2376fc508468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:37 +0000
Subject: [PATCH 40/43] fix: NewMultiClass changed the MinChildWeight of the
 options given to it

---
 xgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xgb.go b/xgb.go
index f8a6ee0..5eb46a7 100644
--- a/xgb.go
+++ b/xgb.go
@@ -35,6 +35,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	rawPred.Scale(O.BaseScore, rawPred)
 	//just to be safe
 	if O.MinChildWeight < 1 {
+		O = O.Clone() //the options given are not ours to change
 		O.MinChildWeight = 1
 	}
 	tin := make([]int, len(D.Data))
-- 
2.43.0


From 70a4397463490c038192493915866974344783e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:37 +0000
Subject: [PATCH 41/43] fix: SoftMax was wrong when the slice for the results
 is longer than the input

---
 utils/loss_acti.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index be34dcf..bb6e586 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -46,7 +46,7 @@ func SoftMax(p, probs []float64) []float64 {
 	for i, v := range p {
 		probs[i] = math.Exp(v - shift)
 	}
-	den := floats.Sum(probs)
+	den := floats.Sum(probs[:len(p)]) //probs could be longer
 	for i := range p {
 		probs[i] /= den
 	}
-- 
2.43.0


From 177088823f098e79f8981a6458edba5c7817f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:14 +0000
Subject: [PATCH 42/43] fix: default regular-boosting options have a minimum
 sample size no gradient step accepts

With MinSample 0, Check and the bounds of the gradient search reject every
step, so GradientGrid and HybridGradientGrid never moved for regular boosting.
---
 options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/options.go b/options.go
index 4effac5..5eb69be 100644
--- a/options.go
+++ b/options.go
@@ -129,6 +129,7 @@ func DefaultGOptions() *Options {
 	O.MaxDepth = 4
 	O.LearningRate = 0.1
 	O.MinChildWeight = 3
+	O.MinSample = 1
 	O.Loss = &utils.MSELoss{}
 
 	return O
-- 
2.43.0


From 5a7d2272123f18feeb8536ceeaddf2261452d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:41 +0000
Subject: [PATCH 43/43] fix: hybrid search starts outside of the lambda range
 by a rounding error

The middle of lam-step and lam+step can be an ulp below the lower (or above
the upper) limit, and then no gradient step is accepted.
---
 cv/hybrid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv/hybrid.go b/cv/hybrid.go
index 27f2ad6..248176e 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -41,6 +41,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					t := defaultoptions()
 					t = setSomeOptionsToMid(t, o2)
+					t.Lambda = lam //the middle of o2's range, but for rounding errors, that could leave o's range.
 					t.MaxDepth = md
 					t.MinChildWeight = cw
 					t.XGB = o.XGB
-- 
2.43.0

