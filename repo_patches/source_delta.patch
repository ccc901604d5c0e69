From 5668576c2cccf5cc88dddccb85bc4cf5ca56834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:36 +0000
Subject: [PATCH 01/47] fix: detect reference cycles that pass through
 interfaces and pointer chains

Only the outermost pointer of a chain was recorded, so a value such as 'var a any; a = &a'
made the injected client loop forever in the instrumented program.
---
 lens/astclient.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..4d0fcb8 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -270,6 +270,20 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 			return
 		}
 		v = v.Elem()
+		// Pointers reached through an interface or another pointer can also close a cycle
+		if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
+			if visited == nil {
+				visited = make(map[uintptr]string)
+			}
+			addr := v.Pointer()
+			if cycleName, ok := visited[addr]; ok {
+				lw.writeString(v.Type().String())
+				lw.writeByte(lensTypeTagString)
+				lw.writeString("<cycle:" + cycleName + ">")
+				return
+			}
+			visited[addr] = valuePath
+		}
 	}
 	if !v.IsValid() {
 		lw.writeString("invalid")
-- 
2.43.0


From 5fb221b3450b76ec713cf81400eac2af35d4b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:36 +0000
Subject: [PATCH 02/47] fix: do not report unrelated empty slices as reference
 cycles

Empty slices can share a data pointer, so the second empty slice of a value was captured as
'<cycle:...>' instead of as an empty slice.
---
 lens/astclient.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 4d0fcb8..199ecfa 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -309,8 +309,8 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 		}
 	}
 
-	// Cycle detection
-	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
+	// Cycle detection (an empty slice holds nothing, and unrelated empty slices can share a data pointer)
+	if vKind == reflect.Pointer || vKind == reflect.Map || (vKind == reflect.Slice && v.Len() > 0) ||
 		vKind == reflect.Func || vKind == reflect.Chan {
 		if visited == nil {
 			visited = make(map[uintptr]string)
-- 
2.43.0


From 887c3a6de6f377d648cc829bfc36ee1a86dfe98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:10 +0000
Subject: [PATCH 03/47] fix: bound memory and nesting when decoding malformed
 monitor messages

Field and string lengths were trusted before any data was read: a malformed struct count
panicked in makeslice or exhausted memory, and deeply nested containers overflowed the stack.
---
 lens/astsrv.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..af18a9b 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -233,10 +233,18 @@ func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 }
 
+// Decode limits for lengths and nesting declared by the message, which may be malformed.
+const (
+	lensReadStringAlloc = 4096 // initial string allocation, grown as the data arrives
+	lensReadFieldAlloc  = 16   // initial field list allocation, grown as the data arrives
+	lensReadMaxDepth    = 1024 // well above the deepest nesting the client sends
+)
+
 type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current field nesting
 }
 
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
@@ -362,8 +370,18 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields, growing the result as they arrive so that a malformed count can't exhaust memory.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	if lr.depth++; lr.depth > lensReadMaxDepth {
+		return nil, fmt.Errorf("field nesting exceeds maximum %d", lensReadMaxDepth)
+	}
+	defer func() { lr.depth-- }()
+	fields := make([]LensMonitorField, 0, min(count, lensReadFieldAlloc))
 	for i := uint64(0); i < count; i++ {
+		fields = append(fields, LensMonitorField{})
 		if err := lr.readField(&fields[i]); err != nil {
 			return nil, err
 		}
@@ -465,11 +483,9 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		} else if count > uint64(lr.maxFieldLen) {
 			return nil, nil, fmt.Errorf("container field count %d exceeds maximum %d", count, lr.maxFieldLen)
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
+		children, err := lr.readFieldList(count)
+		if err != nil {
+			return nil, nil, err
 		}
 		return nil, children, nil
 	case lensTypeTagStruct:
@@ -477,11 +493,9 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
+		children, err := lr.readFieldList(count)
+		if err != nil {
+			return nil, nil, err
 		}
 		return nil, children, nil
 	default:
@@ -559,10 +573,17 @@ func (lr *lensReader) readString() (string, error) {
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
 	}
-	buf := make([]byte, length)
+	buf := make([]byte, min(length, lensReadStringAlloc))
 	if _, err := io.ReadFull(lr.r, buf); err != nil {
 		return "", err
 	}
+	for uint64(len(buf)) < length { // grow as the data arrives so that a malformed length can't exhaust memory
+		start := len(buf)
+		buf = append(buf, make([]byte, min(length-uint64(start), uint64(start)))...)
+		if _, err := io.ReadFull(lr.r, buf[start:]); err != nil {
+			return "", err
+		}
+	}
 	// Zero-copy string conversion - safe because buf is not reused after this
 	return unsafe.String(&buf[0], len(buf)), nil
 }
-- 
2.43.0


From 01185d6d2549ba9bfaa0522d9267fa4ead3e763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 04/47] fix: report a stored empty value as found in the badger
 storage

LoadState treated an empty value as a missing key, unlike the in-memory storage.
---
 lens/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..8a371d0 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -301,7 +301,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			return err
 		}
 		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
+			raw = append([]byte{}, v...) // never nil, an empty value is still found
 			return nil
 		})
 	})
-- 
2.43.0


From f974a6f88e289ba7e8a0249cb35f310a8e549c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 05/47] fix: store values that look like a split marker so that
 they load back unchanged

A blob of the form badger_split:n:n:n was taken for the store's own marker and failed to load.
---
 lens/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 8a371d0..ea7ccec 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -261,8 +261,8 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			return err
 		}
 
-		// if small enough, write in one piece
-		if len(storeBlob) <= badgerSplitLimit {
+		// if small enough, write in one piece (unless the value itself could be mistaken for a split marker)
+		if len(storeBlob) <= badgerSplitLimit && !splitRe.Match(storeBlob) {
 			return txn.Set(mainKey, storeBlob)
 		}
 
-- 
2.43.0


From d9abe70795a4bc4a84bead1ba6cedec0b788d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 06/47] fix: load a split value from a single snapshot

The marker and its parts were read in two transactions, so a concurrent save or delete of the
same key could make LoadState fail or return a mix of two values.
---
 lens/storage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index ea7ccec..a823450 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -291,8 +291,15 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
+	if b.db.IsClosed() {
+		return nil, false, badger.ErrDBClosed
+	}
+	txn := b.db.NewTransaction(false) // one snapshot, so the marker and the parts it names always match
+	defer txn.Discard()
+	view := func(fn func(txn *badger.Txn) error) error { return fn(txn) }
+
 	var raw []byte
-	err := b.db.View(func(txn *badger.Txn) error {
+	err := view(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
 			if errors.Is(err, badger.ErrKeyNotFound) {
@@ -330,7 +337,7 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
+		if err := view(func(txn *badger.Txn) error {
 			for i := 0; i < count; i++ {
 				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
 				if err != nil {
-- 
2.43.0


From 1a7c7b24b0511f449198a621c68b54219dcc931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:27 +0000
Subject: [PATCH 07/47] fix: finish a state message with an unknown point id so
 the test result does not wait forever

---
 lens/astexec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..2e9902f 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -726,6 +726,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		callerIdent, ok := t.projectStatePointIdToIdent[msg.PointID]
 		if !ok {
 			log.Printf("%sUnexpected state point id: %d", ErrorLogPrefix, msg.PointID)
+			t.wait.Done() // no routine is started
 			return
 		}
 		storageKey = *callerIdent
-- 
2.43.0


From 493058b25496f2e30ecd3fb87487ffb8a8c696f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:27 +0000
Subject: [PATCH 08/47] fix: field value IDs tell apart trees that only differ
 in where children end

---
 lens/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 849967f..d8ab2d3 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -635,6 +635,9 @@ func (fv FieldValues) ID() string {
 	walk = func(cur FieldValues) {
 		sortedKeys := bulk.MapKeysSlice(cur)
 		slices.Sort(sortedKeys)
+		// count-prefix so the end of the children can't shift
+		binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(sortedKeys)))
+		hash.Write(lenBuf[:])
 		for _, key := range sortedKeys {
 			writeFramed([]byte(key))
 			fv := cur[key]
@@ -643,6 +646,7 @@ func (fv FieldValues) ID() string {
 				writeFramed([]byte(fv.Value))
 			} else {
 				hash.Write([]byte{1}) // node tag
+				writeFramed([]byte(fv.Value))
 				walk(fv.Children)
 			}
 		}
-- 
2.43.0


From 1d9686d3dc6ead6c6157176346c6da3821ced8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:32 +0000
Subject: [PATCH 09/47] fix: reject a stored test result whose dictionary
 entries refer to themselves

---
 lens/types.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index d8ab2d3..2eaa664 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -435,10 +435,17 @@ func (tr *TestResult) UnmarshalMsgpack(data []byte) error {
 
 	var decodeNode func(ef encFieldValue) (*FieldValue, error)
 	var decodeFV func(efv encFieldValues, idx *int) (FieldValues, error)
+	// Dictionary entries currently being decoded, a damaged encoding may make an entry refer to itself
+	activeNodes, activeFVs := make(map[int]bool), make(map[int]bool)
 	decodeNode = func(ef encFieldValue) (*FieldValue, error) {
 		if ef.Ni != nil {
 			// Reference to node dictionary
 			if *ef.Ni >= 0 && *ef.Ni < len(enc.FVNodeDict) {
+				if activeNodes[*ef.Ni] {
+					return nil, fmt.Errorf("cyclic encoded node index: %d", *ef.Ni)
+				}
+				activeNodes[*ef.Ni] = true
+				defer delete(activeNodes, *ef.Ni)
 				dictEntry := enc.FVNodeDict[*ef.Ni]
 				return decodeNode(dictEntry)
 			}
@@ -459,6 +466,11 @@ func (tr *TestResult) UnmarshalMsgpack(data []byte) error {
 		if idx != nil {
 			// Reference to FieldValues dictionary
 			if *idx >= 0 && *idx < len(enc.FVDict) {
+				if activeFVs[*idx] {
+					return nil, fmt.Errorf("cyclic encoded fv index: %d", *idx)
+				}
+				activeFVs[*idx] = true
+				defer delete(activeFVs, *idx)
 				efv = enc.FVDict[*idx]
 			} else {
 				return nil, fmt.Errorf("invalid encoded fv index: %d", *idx)
-- 
2.43.0


From 0e19a6f1af2086025a3aae222acc07c0cc791d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:55 +0000
Subject: [PATCH 10/47] fix: do not report an empty entry for a test without
 results from before the update

---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..e78c33b 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -402,9 +402,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 
 	// compare the pre and post module update field values
 	var sameCount, diffCount int
-	testReports := make([]TestReport, len(postResultsNames))
+	testReports := make([]TestReport, 0, len(postResultsNames))
 	var performanceLogBuffer strings.Builder
-	for i, funcIdent := range postResultsNames {
+	for _, funcIdent := range postResultsNames {
 		preResults, found, err := d.loadTestResult(preResultStorage, funcIdent)
 		if err != nil {
 			return 0, 0, nil, fmt.Errorf("error loading pre-results for %s: %w", funcIdent, err)
@@ -591,7 +591,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 		postResults.CallerResults = nil
 		postResults.ProjectPanics = nil
 		postResults.ModulePanics = nil
-		testReports[i] = TestReport{
+		testReports = append(testReports, TestReport{
 			OriginalResult:      preResults,
 			PostUpdateResult:    postResults,
 			CallerFieldChanges:  callerFieldChanges,
@@ -599,7 +599,7 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 			TestRegressionCount: testRegressionCount,
 			SameFieldCount:      testSameCount,
 			DiffFieldCount:      testDiffCount,
-		}
+		})
 	}
 
 	if performanceLogBuffer.Len() > 0 {
-- 
2.43.0


From 2043697031d4bcaa6125103a939d3dbad4744b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:36 +0000
Subject: [PATCH 11/47] fix: report the largest time change when calls got both
 slower and faster

---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index e78c33b..db81bd1 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -504,9 +504,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 							"WARN: %s->%s Performance regression detected: %dms -> %dms (diff: %dms)\n",
 							postResults.TestFunction.FunctionName, callerIdent, preInterval, postInterval, intervalDiff)
 
-						// Track the most significant regression (largest positive interval diff)
+						// Track the most significant change (largest interval diff in either direction)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if timeDiff > mostSignificantTimeChange.TimeDiff {
+						if timeDiff.Abs() > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
@@ -520,9 +520,9 @@ func (d *DefaultTestResultAnalyzer) CompareTestResults(preResultStorage, postRes
 							"%s->%s Performance improvement detected: %dms -> %dms (diff: %dms)\n",
 							postResults.TestFunction.FunctionName, callerIdent, preInterval, postInterval, intervalDiff)
 
-						// Track the most significant improvement (largest negative interval diff)
+						// Track the most significant change (largest interval diff in either direction)
 						timeDiff := time.Duration(intervalDiff) * time.Millisecond
-						if mostSignificantTimeChange.TimeDiff == 0 || timeDiff < mostSignificantTimeChange.TimeDiff {
+						if timeDiff.Abs() > mostSignificantTimeChange.TimeDiff.Abs() {
 							mostSignificantTimeChange = PerformanceTimeChange{
 								TimeDiff:   timeDiff,
 								PreTimeMs:  preInterval,
-- 
2.43.0


From f63aaad3f5d0a4bd37aa8d8950b510dc5902084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:55 +0000
Subject: [PATCH 12/47] fix: report returns in else-if chains, select clauses,
 labeled statements and at the end of a function

---
 lens/asttweak.go | 157 ++++++++++++++++++++++++++---------------------
 1 file changed, 87 insertions(+), 70 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..1a2ee38 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -552,88 +552,80 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	var foundExplicitReturn bool
 	// helper function that recursively rewrites a *ast.BlockStmt in-place
 	var buf bytes.Buffer
-	var rewriteBlock func(*ast.BlockStmt) error
-	rewriteBlock = func(blk *ast.BlockStmt) error {
-		for i, st := range blk.List {
-			switch s := st.(type) {
-			case *ast.ReturnStmt:
-				foundExplicitReturn = true
-				pointID, err := m.nextPointId()
-				if err != nil {
-					return err
-				}
-				pointIDs = append(pointIDs, pointID)
-
-				decls := visibleDeclsBefore(funcDecl, s.Pos())
-				newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+	var rewriteStmt func(ast.Stmt) (ast.Stmt, error)
+	rewriteList := func(list []ast.Stmt) error {
+		for i, st := range list {
+			newStmt, err := rewriteStmt(st)
+			if err != nil {
+				return err
+			}
+			list[i] = newStmt
+		}
+		return nil
+	}
+	rewriteStmt = func(st ast.Stmt) (ast.Stmt, error) {
+		switch s := st.(type) {
+		case *ast.ReturnStmt:
+			foundExplicitReturn = true
+			pointID, err := m.nextPointId()
+			if err != nil {
+				return nil, err
+			}
+			pointIDs = append(pointIDs, pointID)
+
+			decls := visibleDeclsBefore(funcDecl, s.Pos())
+			// replace old return with block
+			return buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+		case *ast.BlockStmt:
+			return s, rewriteList(s.List)
+		case *ast.IfStmt:
+			if err := rewriteList(s.Body.List); err != nil {
+				return nil, err
+			}
+			if s.Else != nil { // another block, or an else if with its own body and else
+				newElse, err := rewriteStmt(s.Else)
 				if err != nil {
-					return err
-				}
-				blk.List[i] = newNode // replace old return with block
-			case *ast.BlockStmt:
-				if err := rewriteBlock(s); err != nil {
-					return err
-				}
-			case *ast.IfStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-				if s.Else != nil {
-					switch e := s.Else.(type) {
-					case *ast.BlockStmt:
-						if err := rewriteBlock(e); err != nil {
-							return err
-						}
-					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
-							return err
-						}
-					}
-				}
-			case *ast.ForStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.RangeStmt:
-				if err := rewriteBlock(s.Body); err != nil {
-					return err
-				}
-			case *ast.SwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
-				}
-			case *ast.TypeSwitchStmt:
-				for _, stmt := range s.Body.List {
-					if cc, ok := stmt.(*ast.CaseClause); ok {
-						blk := &ast.BlockStmt{List: cc.Body}
-						if err := rewriteBlock(blk); err != nil {
-							return err
-						}
-						cc.Body = blk.List
-					}
+					return nil, err
 				}
+				s.Else = newElse
+			}
+		case *ast.ForStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.RangeStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.SwitchStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.TypeSwitchStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.SelectStmt:
+			return s, rewriteList(s.Body.List)
+		case *ast.CaseClause:
+			return s, rewriteList(s.Body)
+		case *ast.CommClause:
+			return s, rewriteList(s.Body)
+		case *ast.LabeledStmt:
+			newStmt, err := rewriteStmt(s.Stmt)
+			if err != nil {
+				return nil, err
 			}
+			s.Stmt = newStmt
 		}
-		return nil
+		return st, nil
 	}
 
-	if err := rewriteBlock(funcDecl.Body); err != nil {
+	// without results the function may also return by reaching the end of its body
+	implicitReturn := len(funcResultTypes) == 0 && !endsInJump(funcDecl.Body)
+	if err := rewriteList(funcDecl.Body.List); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || implicitReturn {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
@@ -690,6 +682,31 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	return pointIDs, nil
 }
 
+// endsInJump reports whether the statement list visibly ends in a return, a goto or a panic, so that
+// the end of the block is not reached.
+func endsInJump(block *ast.BlockStmt) bool {
+	if len(block.List) == 0 {
+		return false
+	}
+	switch s := block.List[len(block.List)-1].(type) {
+	case *ast.ReturnStmt:
+		return true
+	case *ast.BranchStmt:
+		return s.Tok == token.GOTO
+	case *ast.BlockStmt:
+		return endsInJump(s)
+	case *ast.IfStmt:
+		elseBlock, ok := s.Else.(*ast.BlockStmt)
+		return ok && endsInJump(s.Body) && endsInJump(elseBlock)
+	case *ast.ExprStmt:
+		if call, ok := s.X.(*ast.CallExpr); ok {
+			id, ok := call.Fun.(*ast.Ident)
+			return ok && id.Name == "panic"
+		}
+	}
+	return false
+}
+
 // InjectFuncPointBeforeCall injects monitoring points before call expressions that match the predicate.
 // The predicate function is called for each CallExpr in the function body.
 // If it returns true for inject, a state monitoring point is injected immediately before that call,
@@ -1262,7 +1279,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From 549e7787daaa9628862a049e6767d55bb0d7432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 13/47] fix: instrument a parenthesized call that returns
 several values

---
 lens/asttweak.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 1a2ee38..63e39d7 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1370,7 +1370,7 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 	}
 	// special-case: one CallExpr returning multiple values
 	if len(ret.Results) == 1 {
-		if call, ok := ret.Results[0].(*ast.CallExpr); ok && len(funcResultTypes) > 1 {
+		if call, ok := ast.Unparen(ret.Results[0]).(*ast.CallExpr); ok && len(funcResultTypes) > 1 {
 			// make temporaries lenSyntheticRet0, lenSyntheticRet1, etc
 			temps := make([]ast.Expr, len(funcResultTypes))
 			for i := range funcResultTypes {
-- 
2.43.0


From c3bfb608c2b375b38334d812722d59f283d1b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 14/47] fix: instrument functions with constants that do not
 fit an int

---
 lens/asttweak.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 63e39d7..3e47734 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1246,6 +1246,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		return nil
 	}
 	latest := make(map[string]declInfo)
+	hidden := make(map[string]token.Pos) // constants and types, they hold no state to capture
 	addIdent := func(id *ast.Ident) {
 		if id == nil || id.Name == "_" || id.Pos() > retPos {
 			return
@@ -1286,6 +1287,21 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		}
 
 		switch v := n.(type) {
+		case *ast.GenDecl:
+			if v.Tok == token.CONST && v.Pos() < retPos {
+				for _, spec := range v.Specs {
+					if vs, ok := spec.(*ast.ValueSpec); ok {
+						for _, id := range vs.Names {
+							hidden[id.Name] = id.Pos()
+						}
+					}
+				}
+				return false
+			}
+		case *ast.TypeSpec:
+			if v.Pos() < retPos {
+				hidden[v.Name.Name] = v.Name.Pos()
+			}
 		case *ast.ValueSpec:
 			for _, id := range v.Names {
 				addIdent(id)
@@ -1310,6 +1326,11 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		}
 		return true
 	})
+	for name, pos := range hidden {
+		if pos > latest[name].pos {
+			delete(latest, name)
+		}
+	}
 
 	result := bulk.MapValuesSlice(latest)
 	slices.SortFunc(result, func(a, b declInfo) int {
@@ -1413,14 +1434,18 @@ func buildReturnInstrumentation(buf *bytes.Buffer, ret *ast.ReturnStmt, pointID
 
 		switch e := expr.(type) {
 		case *ast.Ident:
-			var needTmp bool
+			// not a captured variable, it may be a constant that needs the result type to be representable
+			needTmp := !seen[e.Name] && e.Name != literalNil && e.Name != "true" && e.Name != "false"
 			if info != nil {
+				if _, isConst := info.Uses[e].(*types.Const); !isConst {
+					needTmp = false
+				}
 				if et := info.TypeOf(e); et != nil {
 					switch t := et.(type) {
 					case *types.Basic:
-						needTmp = t.Info()&types.IsUntyped != 0
+						needTmp = needTmp || t.Info()&types.IsUntyped != 0
 					case *types.Named:
-						needTmp = t.Obj().IsAlias()
+						needTmp = needTmp || t.Obj().IsAlias()
 					case *types.Alias, *types.TypeParam:
 						needTmp = true
 					}
-- 
2.43.0


From 2a364b8a41e154c9c3884a645d169e4b45026345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:25 +0000
Subject: [PATCH 15/47] fix: instrument functions that reuse the name of their
 result type

---
 lens/asttweak.go | 117 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 117 insertions(+)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 3e47734..ca69a0f 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -32,6 +32,7 @@ import (
 const (
 	injectedFilenamePrefix            = "xx_lens_"
 	syntheticFieldNamePrefixTemp      = "lenSyntheticTmp"
+	syntheticTypeNamePrefix           = "lenSyntheticType"
 	syntheticFieldNamePrefixReturn    = "lenSyntheticRet"
 	syntheticFieldNamePrefixRecursive = "lenSyntheticRec"
 	syntheticFieldNamePrefixArg       = "lenSyntheticArg"
@@ -546,6 +547,9 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 
 	// Try to build *types.Info; fall back to nil on any error
 	info := buildTypesInfo(fset, fileNode) // may return nil
+	if err := m.aliasHiddenResultTypes(fileNode, funcDecl, funcResultTypes); err != nil {
+		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
+	}
 
 	// Walk the AST, rewriting every *ast.ReturnStmt in-place.
 	var pointIDs []uint32
@@ -682,6 +686,119 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 	return pointIDs, nil
 }
 
+// aliasHiddenResultTypes replaces every result type whose name is reused inside the function (for example by a parameter
+// or the receiver) with a package level alias, so that the instrumentation can refer to the type at any return.
+func (m *ASTModifier) aliasHiddenResultTypes(fileNode *ast.File, funcDecl *ast.FuncDecl, resultTypes []ast.Expr) error {
+	if len(resultTypes) == 0 {
+		return nil
+	}
+	declared := make(map[string]bool)
+	addNames := func(fields *ast.FieldList) {
+		if fields == nil {
+			return
+		}
+		for _, f := range fields.List {
+			for _, id := range f.Names {
+				declared[id.Name] = true
+			}
+		}
+	}
+	addNames(funcDecl.Recv)
+	addNames(funcDecl.Type.Params)
+	addNames(funcDecl.Type.Results)
+	for _, d := range declaredNames(funcDecl.Body) {
+		declared[d] = true
+	}
+	typeParams := make(map[string]bool)
+	if funcDecl.Type.TypeParams != nil {
+		for _, f := range funcDecl.Type.TypeParams.List {
+			for _, id := range f.Names {
+				typeParams[id.Name] = true
+			}
+		}
+	}
+	if funcDecl.Recv != nil { // type parameters of the receiver
+		for _, f := range funcDecl.Recv.List {
+			ast.Inspect(f.Type, func(n ast.Node) bool {
+				switch v := n.(type) {
+				case *ast.IndexExpr:
+					if id, ok := v.Index.(*ast.Ident); ok {
+						typeParams[id.Name] = true
+					}
+				case *ast.IndexListExpr:
+					for _, e := range v.Indices {
+						if id, ok := e.(*ast.Ident); ok {
+							typeParams[id.Name] = true
+						}
+					}
+				}
+				return true
+			})
+		}
+	}
+
+	var buf bytes.Buffer
+	for i, typ := range resultTypes {
+		var hidden, generic bool
+		ast.Inspect(typ, func(n ast.Node) bool {
+			if id, ok := n.(*ast.Ident); ok {
+				hidden = hidden || declared[id.Name]
+				generic = generic || typeParams[id.Name]
+			}
+			return true
+		})
+		if !hidden || generic {
+			continue
+		}
+		id, err := m.nextPointId() // only used to get a unique name
+		if err != nil {
+			return err
+		}
+		aliased, err := cloneExprNoPos(&buf, typ)
+		if err != nil {
+			return err
+		}
+		name := syntheticTypeNamePrefix + strconv.FormatUint(uint64(id), 10)
+		fileNode.Decls = append(fileNode.Decls, &ast.GenDecl{Tok: token.TYPE, Specs: []ast.Spec{
+			&ast.TypeSpec{Name: ast.NewIdent(name), Assign: fileNode.End(), Type: aliased},
+		}})
+		resultTypes[i] = ast.NewIdent(name)
+	}
+	return nil
+}
+
+// declaredNames lists every name declared anywhere inside the body.
+func declaredNames(body *ast.BlockStmt) (names []string) {
+	add := func(e ast.Expr) {
+		if id, ok := e.(*ast.Ident); ok {
+			names = append(names, id.Name)
+		}
+	}
+	ast.Inspect(body, func(n ast.Node) bool {
+		switch v := n.(type) {
+		case *ast.ValueSpec:
+			for _, id := range v.Names {
+				add(id)
+			}
+		case *ast.TypeSpec:
+			add(v.Name)
+		case *ast.AssignStmt:
+			if v.Tok == token.DEFINE {
+				for _, lhs := range v.Lhs {
+					add(lhs)
+				}
+			}
+		case *ast.RangeStmt:
+			if v.Tok == token.DEFINE {
+				add(v.Key)
+				add(v.Value)
+			}
+		}
+		return true
+	})
+	return names
+}
+
 // endsInJump reports whether the statement list visibly ends in a return, a goto or a panic, so that
 // the end of the block is not reached.
 func endsInJump(block *ast.BlockStmt) bool {
-- 
2.43.0


From 2a649df48b44f440458b38affc85ad3c01166e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 16/47] fix: keep comments out of generated instrumentation

---
 lens/asttweak.go | 59 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index ca69a0f..8fd1d0f 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -18,6 +18,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"reflect"
 	"runtime"
 	"slices"
 	"strconv"
@@ -502,6 +503,7 @@ func (m *ASTModifier) InjectFuncPointPanic(f *Function) (uint32, error) {
 				},
 			},
 		}
+		placeAt(deferStmt, body.Lbrace)
 		body.List = append([]ast.Stmt{deferStmt}, body.List...)
 	})
 }
@@ -578,8 +580,12 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			pointIDs = append(pointIDs, pointID)
 
 			decls := visibleDeclsBefore(funcDecl, s.Pos())
-			// replace old return with block
-			return buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+			newNode, err := buildReturnInstrumentation(&buf, s, pointID, fn, decls, funcResultTypes, info, funcResultNames)
+			if err != nil {
+				return nil, err
+			}
+			placeAt(newNode, s.Pos())
+			return newNode, nil // replace old return with block
 		case *ast.BlockStmt:
 			return s, rewriteList(s.List)
 		case *ast.IfStmt:
@@ -634,6 +640,7 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
 
+		placeAt(stmt, funcDecl.Body.Rbrace)
 		funcDecl.Body.List = append(funcDecl.Body.List, stmt)
 
 		// If function has return values, add explicit return statement
@@ -1777,6 +1784,52 @@ func newZeroValueExpr(buf *bytes.Buffer, typ ast.Expr) (ast.Expr, error) {
 	}}, nil
 }
 
+// placeAt moves every node below n to a single source position. Without a position the printer would place the
+// comments which follow in the file in between the generated nodes.
+func placeAt(n ast.Node, pos token.Pos) {
+	posType := reflect.TypeOf(token.NoPos)
+	ast.Inspect(n, func(n ast.Node) bool {
+		switch v := n.(type) {
+		case nil:
+			return false
+		case *ast.Ident:
+			v.NamePos = pos
+		case *ast.BasicLit:
+			v.ValuePos = pos
+		case *ast.BlockStmt:
+			v.Lbrace, v.Rbrace = pos, pos
+		case *ast.CallExpr:
+			v.Lparen, v.Rparen = pos, pos
+		case *ast.CompositeLit:
+			v.Lbrace, v.Rbrace = pos, pos
+		case *ast.BinaryExpr:
+			v.OpPos = pos
+		case *ast.AssignStmt:
+			v.TokPos = pos
+		case *ast.GenDecl:
+			v.TokPos = pos
+		case *ast.ReturnStmt:
+			v.Return = pos
+		case *ast.DeferStmt:
+			v.Defer = pos
+		case *ast.FuncType:
+			v.Func = pos
+		case *ast.FieldList:
+			v.Opening, v.Closing = pos, pos
+		case *ast.IfStmt:
+			v.If = pos
+		}
+		// other positions carry meaning when set (for example the ellipsis of a call), only move those
+		v := reflect.ValueOf(n).Elem()
+		for i := 0; i < v.NumField(); i++ {
+			if f := v.Field(i); f.Type() == posType && f.Int() != int64(token.NoPos) {
+				f.SetInt(int64(pos))
+			}
+		}
+		return true
+	})
+}
+
 // cloneExprNoPos is a helper to clone an AST, dropping positions.
 func cloneExprNoPos(buf *bytes.Buffer, e ast.Node) (ast.Expr, error) {
 	buf.Reset()
@@ -1993,6 +2046,7 @@ func (m *ASTModifier) InjectFuncPointEntry(fn *Function) (uint32, error) {
 			Fun:  ast.NewIdent("sendLensPointMessage"),
 			Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.FormatUint(uint64(pointID), 10)}},
 		}}
+		placeAt(stmt, body.Lbrace)
 		body.List = append([]ast.Stmt{stmt}, body.List...)
 	})
 }
@@ -2005,6 +2059,7 @@ func (m *ASTModifier) InjectFuncPointFinish(fn *Function) (uint32, error) {
 			Fun:  ast.NewIdent("sendLensPointMessage"),
 			Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.FormatUint(uint64(pointID), 10)}},
 		}}
+		placeAt(deferStmt, body.Lbrace)
 		body.List = append([]ast.Stmt{deferStmt}, body.List...)
 	})
 }
-- 
2.43.0


From a1bc3b1d807156a0195378d79da0ad405f717dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:39 +0000
Subject: [PATCH 17/47] fix: restore files with an existing .bkp file, a link
 or a file mode

---
 lens/asttweak.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 8fd1d0f..0351063 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -73,6 +73,7 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backupFiles    sync.Map
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -384,17 +385,27 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
+// backupOrigFile moves the file to an unused .bkp name, unless this modifier already did so. The original is moved and
+// not copied so that a symlink (and what it points to) or the file mode is unaffected by the modified file.
 func (m *ASTModifier) backupOrigFile(filepath string) error {
+	if _, exists := m.backupFiles.LoadOrStore(filepath, struct{}{}); exists {
+		return nil
+	}
 	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
+	for i := 2; ; i++ {
+		if _, err := os.Lstat(bkpFile); os.IsNotExist(err) {
+			break
 		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
 	}
+	if err := os.Rename(filepath, bkpFile); err != nil {
+		m.backupFiles.Delete(filepath)
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	m.addCleanupAction(func() error {
+		m.backupFiles.Delete(filepath)
+		return replaceFile(bkpFile, filepath)
+	})
 	return nil
 }
 
-- 
2.43.0


From 2ae63039e8fc9ebf63e5bc77df0ca230ed342998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:07 +0000
Subject: [PATCH 18/47] fix: remove an incompletely injected client

---
 lens/asttweak.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 0351063..37a36cd 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -237,19 +237,26 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	})
 	if err != nil {
 		return fmt.Errorf("rewrite astclient failure: %w", err)
-	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
-		return err
 	}
 	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
+	m.addCleanupAction(func() error { // added first so that an incomplete injection is also removed
+		var errs []error
+		for _, file := range []string{clientFile, apiFile} {
+			if err := os.Remove(file); err != nil && !os.IsNotExist(err) {
+				errs = append(errs, err)
+			}
+		}
+		return errors.Join(errs...)
+	})
+	if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
+		return err
+	}
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
 		return err
 	}
-	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
-	})
 	return nil
 }
 
-- 
2.43.0


From 667f95ff671d5e16105fa45dbf286d31f909c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:05 +0000
Subject: [PATCH 19/47] fix: replace instrumented files in a single step

---
 lens/asttweak.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 37a36cd..71f43dd 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -151,7 +151,7 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 			return fmt.Errorf("ast format failure %s: %w", filepath, err)
 		} else if err := m.backupOrigFile(filepath); err != nil {
 			return err
-		} else if err := os.WriteFile(filepath, buf.Bytes(), 0o644); err != nil {
+		} else if err := writeModifiedFile(filepath, buf.Bytes()); err != nil {
 			return fmt.Errorf("ast write failure %s: %w", filepath, err)
 		}
 		return nil
@@ -248,13 +248,13 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 		}
 		return errors.Join(errs...)
 	})
-	if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
+	if err := writeModifiedFile(clientFile, clientTxt); err != nil {
 		return err
 	}
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
-	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
+	} else if err := writeModifiedFile(apiFile, apiTxt); err != nil {
 		return err
 	}
 	return nil
@@ -392,7 +392,7 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile moves the file to an unused .bkp name, unless this modifier already did so. The original is moved and
+// backupOrigFile keeps the file under an unused .bkp name, unless this modifier already did so. The original is linked and
 // not copied so that a symlink (and what it points to) or the file mode is unaffected by the modified file.
 func (m *ASTModifier) backupOrigFile(filepath string) error {
 	if _, exists := m.backupFiles.LoadOrStore(filepath, struct{}{}); exists {
@@ -405,9 +405,11 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 		}
 		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
 	}
-	if err := os.Rename(filepath, bkpFile); err != nil {
-		m.backupFiles.Delete(filepath)
-		return fmt.Errorf("ast backup failure: %w", err)
+	if err := os.Link(filepath, bkpFile); err != nil { // the filesystem may not support links
+		if err := os.Rename(filepath, bkpFile); err != nil {
+			m.backupFiles.Delete(filepath)
+			return fmt.Errorf("ast backup failure: %w", err)
+		}
 	}
 	m.addCleanupAction(func() error {
 		m.backupFiles.Delete(filepath)
@@ -416,6 +418,24 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 	return nil
 }
 
+// writeModifiedFile replaces the file with a new one in a single step, other files of the package may concurrently be
+// type checked and must not see a missing or incomplete file.
+func writeModifiedFile(path string, data []byte) error {
+	tmpFile, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	_, err = tmpFile.Write(data)
+	err = errors.Join(err, tmpFile.Chmod(0o644), tmpFile.Close())
+	if err == nil {
+		err = os.Rename(tmpFile.Name(), path)
+	}
+	if err != nil {
+		return errors.Join(err, os.Remove(tmpFile.Name()))
+	}
+	return nil
+}
+
 func (m *ASTModifier) nextPointId() (uint32, error) {
 	var val uint32
 	for {
@@ -2205,5 +2225,5 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	if err := m.backupOrigFile(fn.FilePath); err != nil {
 		return err
 	}
-	return os.WriteFile(fn.FilePath, []byte(strings.Join(out, "\n")), 0644)
+	return writeModifiedFile(fn.FilePath, []byte(strings.Join(out, "\n")))
 }
-- 
2.43.0


From 4169bfe821352b36d187812083c3cd625465c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:11 +0000
Subject: [PATCH 20/47] fix: keep the changed functions of a module that
 several workspace modules update

---
 lens/module.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..001a8ea 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -116,7 +116,8 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 		}
 		indirectAnalysis = append(indirectAnalysis, recursiveCalls...)
 
-		allModuleData[mc.Name] = cf
+		// a module listed again (by another workspace module) was already analyzed and must not lose its functions
+		allModuleData[mc.Name] = append(allModuleData[mc.Name], cf...)
 		if len(pkgs) > 0 {
 			newVersionPackages[mc.Name] = pkgs
 		}
-- 
2.43.0


From 1b0e9e74b92c1f61196b37b31a0ff943abc9d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:37 +0000
Subject: [PATCH 21/47] fix: find module versions with upper case letters in
 the module cache

---
 lens/module.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index 001a8ea..a5fcc50 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -291,7 +291,11 @@ func FindModulePathInCache(gomodcache, modPath, version string) (string, error)
 	if err != nil {
 		return "", err
 	}
-	modDirName := escapedMod + "@" + version
+	escapedVersion, err := module.EscapeVersion(version)
+	if err != nil {
+		return "", err
+	}
+	modDirName := escapedMod + "@" + escapedVersion
 	dir := filepath.Join(gomodcache, modDirName)
 
 	info, err := os.Stat(dir)
-- 
2.43.0


From 8ecc2da0ffe13985ed435482a5ca80fb83db82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 22/47] fix: list the module changes of a workspace in a stable
 order

---
 lens/module.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index a5fcc50..dc95171 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -597,7 +597,9 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return nil, err
 	}
 
-	dirSet := bulk.SliceToSet(oldDirs, newDirs)
+	dirs := slices.Concat(oldDirs, newDirs)
+	slices.Sort(dirs) // the order of the changes must not depend on map iteration
+	dirs = slices.Compact(dirs)
 	newRoot := filepath.Dir(newWorkPath)
 
 	// resolve turns a workspace-relative entry into an absolute go.mod path
@@ -608,8 +610,8 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return filepath.Clean(filepath.Join(root, dir, "go.mod"))
 	}
 
-	all := make([]*ModuleChange, 0, len(dirSet))
-	for dir := range dirSet {
+	all := make([]*ModuleChange, 0, len(dirs))
+	for _, dir := range dirs {
 		oldGM := resolve(projectDir, dir)
 		newGM := resolve(newRoot, dir)
 
-- 
2.43.0


From 303432ca6913358b1c31c999e519d3da57fcff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:12 +0000
Subject: [PATCH 23/47] fix: order go versions with a release candidate

---
 lens/module.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index dc95171..c71c664 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/printer"
+	"go/version"
 	"io/fs"
 	"log"
 	"os"
@@ -491,7 +492,13 @@ func parseProjectDeps(projectDir string, preferNewest bool) (map[string]string,
 // compareGoVersions compares two Go version strings (e.g., "1.12", "1.21").
 // Returns -1 if a < b, 0 if a == b, 1 if a > b.
 func compareGoVersions(a, b string) int {
-	return semver.Compare("v"+a, "v"+b)
+	normalize := func(v string) string {
+		if v = "go" + v; version.Lang(v) == v {
+			v += ".0" // consider the first release and not the language version, which is before any release candidate
+		}
+		return v
+	}
+	return version.Compare(normalize(a), normalize(b))
 }
 
 // olderGoVersion returns the older version, treating empty as "no constraint".
-- 
2.43.0


From cd837a634b32f82b3ebfe7fab02bf276f67f5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:53 +0000
Subject: [PATCH 24/47] fix: do not take helpers named like a test for tests

---
 lens/static.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/static.go b/lens/static.go
index 14a8bad..cb9248a 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -13,6 +13,8 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/go-analyze/bulk"
 	"golang.org/x/tools/go/callgraph"
@@ -640,7 +642,11 @@ func isGoTestFunction(fn *ssa.Function) bool {
 		return false
 	} else if _, ok := fn.Syntax().(*ast.FuncDecl); !ok {
 		return false // only select the top level functions, don't try to be granular to any test case literal / anonymous test functions
-	} else if !strings.HasPrefix(fn.Name(), "Test") {
+	} else if suffix, ok := strings.CutPrefix(fn.Name(), "Test"); !ok {
+		return false
+	} else if r, _ := utf8.DecodeRuneInString(suffix); suffix != "" && unicode.IsLower(r) {
+		return false // not run by go test, the same as a method
+	} else if fn.Signature.Recv() != nil {
 		return false
 	} else if !strings.HasSuffix(filePathForSSAFunc(fn), "_test.go") {
 		return false
-- 
2.43.0


From 70a6c4391f4c57e81c258b27d54edcde1d442b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:02 +0000
Subject: [PATCH 25/47] fix: remove the temporary copy when it can not be
 completed

---
 lens/engine.go | 7 ++++++-
 lens/file.go   | 5 +----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index db81bd1..64c68bb 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -990,7 +990,7 @@ func (e *AnalysisEngine) parseInitialModules() (*initialModulesResult, error) {
 	}, nil
 }
 
-func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
+func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 	tempRoot, err := os.MkdirTemp("", "patchlens-*")
 	if err != nil {
 		return nil, fmt.Errorf("unable to create temp dir: %w", err)
@@ -1003,6 +1003,11 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 			log.Printf("%sFailed to remove temp dir %s: %v", ErrorLogPrefix, tempRoot, err)
 		}
 	}
+	defer func() {
+		if err != nil { // the caller will not be able to cleanup the partial copy
+			cleanup()
+		}
+	}()
 
 	fmt.Printf("Copying files for analysis")
 	const logSize = 1024 * 1024 * 200
diff --git a/lens/file.go b/lens/file.go
index 92f93cb..d613975 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -128,10 +128,7 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
-		return err
-	}
-	return eg.Wait()
+	return errors.Join(err, eg.Wait()) // always wait, no copy may be in progress once returned
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From ad61b4b40d53a9ca1565b202bdeb2499e86765b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:22 +0000
Subject: [PATCH 26/47] fix: copy the content of a directory given as a link

---
 lens/file.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lens/file.go b/lens/file.go
index d613975..3db4b83 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -96,9 +96,14 @@ func CopyFile(src, dst string) (err error) {
 
 // CopyDir recursively copies src directory contents into dst.
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
+	// resolve the root, otherwise a linked directory is not walked and dst becomes a link to the original
+	src, err := filepath.EvalSymlinks(src)
+	if err != nil {
+		return err
+	}
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.SetLimit(runtime.NumCPU() * 4)
-	err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
+	err = filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d0e38b0d2035358174adf94568cda6d1774028b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:42 +0000
Subject: [PATCH 27/47] fix: keep the location of the module cache within the
 copied GOPATH

---
 lens/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 64c68bb..791b2e0 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1044,8 +1044,10 @@ func (e *AnalysisEngine) setupTempEnvironment() (_ func(), err error) {
 			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 		}
 		e.Config.Gomodcache = newModCache
+	} else if rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache); err != nil {
+		return nil, fmt.Errorf("unable to locate GOMODCACHE in GOPATH: %w", err)
 	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+		e.Config.Gomodcache = filepath.Join(newGOPATH, rel)
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
-- 
2.43.0


From 114273b1b4a93655ea6ad82c61a4cc4078d9d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 28/47] fix: report the changed functions when none of them is
 reachable

---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index 791b2e0..e4bdf10 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From 088e2a11e181e87e5686d142426e127050a247c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:35 +0000
Subject: [PATCH 29/47] fix: restore every file the module update changes or
 creates

---
 lens/astexec.go  | 46 +++++++++++++---------------------------------
 lens/asttweak.go |  8 +-------
 lens/file.go     | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 2e9902f..042a176 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"log"
 	"maps"
-	"os"
 	"path/filepath"
 	"runtime"
 	"slices"
@@ -106,47 +105,28 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	// backup all go.mod/go.sum files then perform module update in each module directory
+	// backup all module and workspace files then perform module update in each module directory
 	goModPaths, err := ProjectGoModFiles(projectDir)
 	if err != nil {
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
-	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
-	// restore originals (and remove .bkp) on every return path, including early errors
-	defer func() {
-		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
-			}
-		}
-	}()
+	// restore originals (and remove the backups) on every return path, including early errors
+	updatedFiles := []string{filepath.Join(projectDir, "go.work"), filepath.Join(projectDir, "go.work.sum")}
 	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
+		updatedFiles = append(updatedFiles, gm, filepath.Join(filepath.Dir(gm), "go.sum"))
+	}
+	for _, file := range updatedFiles {
+		restore, err := backupFile(file)
+		if err != nil {
 			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-				fmt.Errorf("backup go.mod failed: %w", err)
+				fmt.Errorf("backup %s failed: %w", filepath.Base(file), err)
 		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
-				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
+		defer func() {
+			if err := restore(); err != nil {
+				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, file, err)
 			}
-		}
-		backups = append(backups, info)
+		}()
 	}
 
 	for _, gm := range goModPaths {
diff --git a/lens/asttweak.go b/lens/asttweak.go
index 71f43dd..5823c74 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -398,13 +398,7 @@ func (m *ASTModifier) backupOrigFile(filepath string) error {
 	if _, exists := m.backupFiles.LoadOrStore(filepath, struct{}{}); exists {
 		return nil
 	}
-	bkpFile := filepath + ".bkp"
-	for i := 2; ; i++ {
-		if _, err := os.Lstat(bkpFile); os.IsNotExist(err) {
-			break
-		}
-		bkpFile = filepath + ".bkp" + strconv.Itoa(i)
-	}
+	bkpFile := unusedBackupPath(filepath)
 	if err := os.Link(filepath, bkpFile); err != nil { // the filesystem may not support links
 		if err := os.Rename(filepath, bkpFile); err != nil {
 			m.backupFiles.Delete(filepath)
diff --git a/lens/file.go b/lens/file.go
index 3db4b83..ea7dead 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"strconv"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -59,6 +60,47 @@ func replaceFile(source, destination string) error {
 	return os.Rename(source, destination)
 }
 
+// unusedBackupPath returns a path to backup the file to, without overwriting any file which exists already.
+func unusedBackupPath(path string) string {
+	bkpFile := path + ".bkp"
+	for i := 2; ; i++ {
+		if _, err := os.Lstat(bkpFile); os.IsNotExist(err) {
+			return bkpFile
+		}
+		bkpFile = path + ".bkp" + strconv.Itoa(i)
+	}
+}
+
+// backupFile allows the file at path to be changed (or created if it does not exist), the returned function restores
+// the original file. The original is kept with its mode, path becomes a copy of the content.
+func backupFile(path string) (restore func() error, err error) {
+	if _, err := os.Lstat(path); os.IsNotExist(err) {
+		return func() error {
+			if err := os.Remove(path); err != nil && !os.IsNotExist(err) {
+				return err
+			}
+			return nil
+		}, nil
+	}
+	info, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	content, err := os.ReadFile(path)
+	if err != nil {
+		return nil, err
+	}
+	bkpFile := unusedBackupPath(path)
+	if err := os.Rename(path, bkpFile); err != nil {
+		return nil, err
+	}
+	restore = func() error { return replaceFile(bkpFile, path) }
+	if err := os.WriteFile(path, content, info.Mode().Perm()|0o200); err != nil {
+		return nil, errors.Join(err, restore())
+	}
+	return restore, nil
+}
+
 // CopyFile copies src to dst. If src is a symlink, it recreates the symlink at dst pointing to the same target.
 // Otherwise, it copies the file’s contents (using os.Create’s default mode).
 func CopyFile(src, dst string) (err error) {
-- 
2.43.0


From 30297e543b1da47e8002691242d4beab1f6e4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:32 +0000
Subject: [PATCH 30/47] fix: analyze transitive module changes in a stable
 order

---
 lens/module.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index c71c664..bffce56 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -9,6 +9,7 @@ import (
 	"go/version"
 	"io/fs"
 	"log"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -213,7 +214,8 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		}
 
 		// Compare new functions to the old ones
-		for funcKey, newFunc := range newFuncMap {
+		for _, funcKey := range slices.Sorted(maps.Keys(newFuncMap)) { // sorted for determinism
+			newFunc := newFuncMap[funcKey]
 			if oldFuncMap == nil {
 				// new functions can be ignored, we will focus on entry points to functions that already existed
 			} else if oldFunc, ok := oldFuncMap[funcKey]; ok /* see above */ && oldFunc.Definition != newFunc.Definition {
@@ -244,7 +246,8 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		return nil, nil, nil, fmt.Errorf("could not read project dependencies: %w", err)
 	}
 	var recursiveCalls []moduleChangeAnalyzeFunc
-	for dep, newDepVer := range newDeps {
+	for _, dep := range slices.Sorted(maps.Keys(newDeps)) { // sorted so that conflicting versions always resolve the same
+		newDepVer := newDeps[dep]
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
 			if projVer, ok := projectDeps[dep]; ok && projVer != newDepVer {
 				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
-- 
2.43.0


From 98355c548cd4c0c7b5fdff283798fdbc2a07fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:53 +0000
Subject: [PATCH 31/47] fix: write the same report for the same findings

---
 lens/report.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..cf4b2a2 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -161,7 +161,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) { // keep consistent order in report
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
@@ -645,7 +646,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) {
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
@@ -677,7 +679,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		bottom.Text(text, (bottom.Width()-textBox.Width())/2, bottom.Height()/2, 0, titleFont)
 		resultBox.Bottom += textBox.Height() * 2
 	} else {
-		slices.SortFunc(riskyTests, func(a, b []string) int {
+		slices.SortStableFunc(riskyTests, func(a, b []string) int {
 			aGen := strings.HasPrefix(a[0], GeneratedTestFunctionPrefix)
 			bGen := strings.HasPrefix(b[0], GeneratedTestFunctionPrefix)
 			if aGen != bGen { // sort generated functions last
-- 
2.43.0


From 965f9ae9fa9818d7a20f27bc3a8a6977ea8a4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:11 +0000
Subject: [PATCH 32/47] fix: chart labels when there is nothing to count or the
 update is slower

---
 lens/report.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index cf4b2a2..4d5168b 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"maps"
+	"math"
 	"os"
 	"slices"
 	"strconv"
@@ -507,7 +508,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topLeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(topLeftOpt.Theme, topLeftOpt.SeriesList)
 	topLeftOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(moduleChangeFuncCount)
-		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
+		return percentLabel(100.0 * (total - f) / total)
 	}
 	if err := topLeft.BarChart(topLeftOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -535,7 +536,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topRightOpt.SeriesList[2].Label.FontStyle.FontColor = firstValueSeriesRankColor(topRightOpt.Theme, topRightOpt.SeriesList)
 	topRightOpt.SeriesList[2].Label.ValueFormatter = func(f float64) string {
 		total := float64(reachableModuleFunctionCount)
-		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
+		return percentLabel(100.0 * (total - f) / total)
 	}
 	if err := topRight.BarChart(topRightOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -561,7 +562,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if diff > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some field diffs
 		}
-		return charts.FormatValueHumanize(percent, 1, false) + "%"
+		return percentLabel(percent)
 	}
 	if err := down1Left.BarChart(down1LeftOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -585,7 +586,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if f > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some surviving mutations
 		}
-		return charts.FormatValueHumanize(percent, 1, false) + "%"
+		return percentLabel(percent)
 	}
 	if err := down1Right.BarChart(down1RightOpt); err != nil {
 		return resultBox, fmt.Errorf("error rendering chart: %w", err)
@@ -623,7 +624,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if totalPostTime <= totalPreTime { // improvement, ratio <= 1
 			return charts.FormatValueHumanize(100.0-(ratio*100.0), 1, false) + "% faster"
 		} else {
-			return charts.FormatValueHumanize((1-ratio)*100.0, 1, false) + "% slower"
+			return charts.FormatValueHumanize((ratio-1)*100.0, 1, false) + "% slower"
 		}
 	}
 	if err := down2.BarChart(down2Opt); err != nil {
@@ -799,6 +800,14 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	return resultBox, nil
 }
 
+// percentLabel formats the percent for a chart, there is no percent (NaN) if there is nothing to count.
+func percentLabel(percent float64) string {
+	if math.IsNaN(percent) || math.IsInf(percent, 0) {
+		return "N/A"
+	}
+	return charts.FormatValueHumanize(percent, 1, false) + "%"
+}
+
 func firstValueSeriesRankColor(theme charts.ColorPalette, sl charts.BarSeriesList) charts.Color {
 	sum := sl.SumSeriesValues()
 	if sl[0].Values[0] < sum[0]/2 {
-- 
2.43.0


From 78a8f8a37abae38ac0d75b27b008454291c685da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:01 +0000
Subject: [PATCH 33/47] fix: skip the charts when no chart file is requested

---
 lens/report.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index 4d5168b..e40ea22 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -361,19 +361,28 @@ func RenderReportChartsFromJson(report ReportMetrics) ([]byte, error) {
 		})
 }
 
+// chartOutputType returns the chart format for the file extension.
+func chartOutputType(path string) (string, error) {
+	if strings.HasSuffix(path, ".png") {
+		return charts.ChartOutputPNG, nil
+	} else if strings.HasSuffix(path, ".jpg") || strings.HasSuffix(path, ".jpeg") {
+		return charts.ChartOutputJPG, nil
+	} else if strings.HasSuffix(path, ".svg") {
+		return charts.ChartOutputSVG, nil
+	}
+	return "", fmt.Errorf("unhandled chart file type: %s", path)
+}
+
 func writeReportCharts(path string, moduleName, startVersion, changeVersion string,
 	moduleChangeFuncCount, reachableModuleFunctionCount, moduleChangesReachedInTesting, untrackedModuleFuncs,
 	testFieldSameCount, testFieldDiffCount int, testResults []TestReport,
 	globalMutations MutationResult) error {
-	var outputType string
-	if strings.HasSuffix(path, ".png") {
-		outputType = charts.ChartOutputPNG
-	} else if strings.HasSuffix(path, ".jpg") || strings.HasSuffix(path, ".jpeg") {
-		outputType = charts.ChartOutputJPG
-	} else if strings.HasSuffix(path, ".svg") {
-		outputType = charts.ChartOutputSVG
-	} else {
-		return fmt.Errorf("unhandled chart file type: %s", path)
+	if path == "" {
+		return nil
+	}
+	outputType, err := chartOutputType(path)
+	if err != nil {
+		return err
 	}
 
 	painterOpt := charts.PainterOptions{
-- 
2.43.0


From c61cb2fd3419857137621b251e71909ad124976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:20 +0000
Subject: [PATCH 34/47] fix: validate both report files before the analysis

---
 lens/engine.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index e4bdf10..2c3ce2f 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1143,8 +1143,11 @@ func (c *Config) Prepare() error {
 		if err := c.validateOutputPath(c.ReportJsonFile); err != nil {
 			return fmt.Errorf("invalid JSON report file path: %w", err)
 		}
-	} else if c.ReportChartsFile != "" {
-		if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
+	}
+	if c.ReportChartsFile != "" {
+		if _, err := chartOutputType(c.ReportChartsFile); err != nil {
+			return fmt.Errorf("invalid charts report file path: %w", err)
+		} else if err := c.validateOutputPath(c.ReportChartsFile); err != nil {
 			return fmt.Errorf("invalid charts report file path: %w", err)
 		}
 	}
@@ -1207,12 +1210,15 @@ func (c *Config) validateOutputPath(path string) error {
 		}
 	}
 
+	if info, err := os.Stat(path); err == nil && info.IsDir() {
+		return fmt.Errorf("path '%s' is a directory", path)
+	}
+
 	// Check if we can write to the directory
-	testFile := filepath.Join(dir, ".write_test")
-	file, err := os.Create(testFile)
+	file, err := os.CreateTemp(dir, ".write_test*")
 	if err != nil {
 		return fmt.Errorf("cannot write to output directory '%s': %w", dir, err)
 	}
 	_ = file.Close()
-	return os.Remove(testFile)
+	return os.Remove(file.Name())
 }
-- 
2.43.0


From a94481618f95eab3f11286a66a58bd8a42529e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:39 +0000
Subject: [PATCH 35/47] fix: do not list the target modules twice when a
 corrected config is prepared again

---
 lens/engine.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 2c3ce2f..c599e97 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1076,13 +1076,14 @@ func (c *Config) Prepare() error {
 	}
 	c.AbsProjDir = absProjDir
 
-	// Parse and validate target modules
+	// Parse and validate target modules, kept only once everything is valid so that a corrected config can be prepared again
+	targetModules := slices.Clone(c.TargetModules)
 	if c.ModuleVersionFlag != "" {
 		targetModule, err := parseTargetModule(c.ModuleVersionFlag)
 		if err != nil {
 			return fmt.Errorf("invalid module version format: %w", err)
 		}
-		c.TargetModules = append(c.TargetModules, targetModule)
+		targetModules = append(targetModules, targetModule)
 	}
 
 	if c.ModulesVersionFlag != "" {
@@ -1096,7 +1097,7 @@ func (c *Config) Prepare() error {
 			if err != nil {
 				return fmt.Errorf("invalid module version format in modules list: %w", err)
 			}
-			c.TargetModules = append(c.TargetModules, targetModule)
+			targetModules = append(targetModules, targetModule)
 		}
 	}
 
@@ -1152,6 +1153,7 @@ func (c *Config) Prepare() error {
 		}
 	}
 
+	c.TargetModules = targetModules
 	c.prepared = true
 	return nil
 }
-- 
2.43.0


From f808492604f3bb190386e7fbbdbad62893dfa157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:57 +0000
Subject: [PATCH 36/47] fix: locate the module cache when GOPATH lists multiple
 directories

---
 lens/cmd/flags.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/cmd/flags.go b/lens/cmd/flags.go
index eb82c9f..0b204e1 100644
--- a/lens/cmd/flags.go
+++ b/lens/cmd/flags.go
@@ -131,7 +131,9 @@ func ParseFlags(customFlags []CustomFlag) (*lens.Config, error) {
 
 func setupEnvironment(c *lens.Config) error {
 	// Setup GOPATH and GOMODCACHE
-	c.Gopath = build.Default.GOPATH
+	if paths := filepath.SplitList(build.Default.GOPATH); len(paths) > 0 {
+		c.Gopath = paths[0] // like the go command, the module cache is in the first if there are multiple
+	}
 	c.Gomodcache = os.Getenv("GOMODCACHE")
 	if c.Gomodcache == "" {
 		if c.Gopath == "" {
-- 
2.43.0


From 786c29236cd23540e5cb97529a6acd5b796c3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:57 +0000
Subject: [PATCH 37/47] fix: only mutate the changed functions

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..5df7a7f 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -152,7 +152,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
-	args := []string{"--exec", execScript, "--match", "(" + strings.Join(mutationFunctions, "|") + ")"}
+	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
 		for _, test := range disabledMutations {
-- 
2.43.0


From df02b656729090ac6dee284fd6ade8217e78eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 38/47] fix: keep a report.json of the project during mutation
 testing

---
 lens/mutation.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 5df7a7f..2283093 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -159,6 +159,16 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			args = append(args, "--disable", test)
 		}
 	}
+	// remove unnecessary report.json report (for now), without losing a file of the project
+	restoreReport, err := backupFile(filepath.Join(projectDir, "report.json"))
+	if err != nil {
+		return MutationResult{}, err
+	}
+	defer func() {
+		if err := restoreReport(); err != nil {
+			log.Printf("%sFailed to remove mutation report: %v", ErrorLogPrefix, err)
+		}
+	}()
 	var outBytes []byte
 	if debugMutationTesting {
 		args = append([]string{"--verbose"}, args...)
@@ -188,9 +198,6 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	killed, _ := strconv.Atoi(m[2])
 	total, _ := strconv.Atoi(m[5])
 
-	// remove unnecessary report.json report (for now)
-	go func() { _ = os.Remove(filepath.Join(projectDir, "report.json")) }()
-
 	return MutationResult{
 		MutationCount: total,
 		SquashedCount: killed,
-- 
2.43.0


From 1cbfbdfbe280bc12ce38acc49c35c49b9eedf2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 39/47] fix: mutate files with a space in their path

---
 lens/mutation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 2283093..b73cbf7 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -309,14 +309,14 @@ if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
-export GOMUTESTING_DIFF=$(diff -u $MUTATE_ORIGINAL $MUTATE_CHANGED)
+export GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
 
-mv $MUTATE_ORIGINAL $MUTATE_ORIGINAL.mbkp || {
+mv "$MUTATE_ORIGINAL" "$MUTATE_ORIGINAL.mbkp" || {
  echo "skip: cannot rename $MUTATE_ORIGINAL (need to run with tmpcopy enabled?)" 1>&2
  exit 2
 }
 trap 'mv "$MUTATE_ORIGINAL.mbkp" "$MUTATE_ORIGINAL"' EXIT
-cp $MUTATE_CHANGED $MUTATE_ORIGINAL || { exit 2; }
+cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
 
-- 
2.43.0


From a4d17115b3d96f37547287abc1dcfab50fbd7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 40/47] fix: do not count unknown module entry points as
 reached

---
 lens/astexec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lens/astexec.go b/lens/astexec.go
index 042a176..b553cd1 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -673,6 +673,10 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 	}
+	if _, ok := t.moduleEntryPointIdToIdent[msg.PointID]; !ok {
+		log.Printf("%sUnexpected module entry point id: %d", ErrorLogPrefix, msg.PointID)
+		return
+	}
 	// record pointID as reached
 	t.moduleChangesReached.Store(msg.PointID, true)
 }
-- 
2.43.0


From 25b439a1fd37ee4e42bbe08b37f1ff8c9e7f9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 41/47] fix: follow absolute and list relative go.work wildcard
 entries

---
 lens/module.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index bffce56..e0a5def 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -351,11 +351,17 @@ func parseGoWork(workPath string) ([]string, error) {
 
 	// helper to walk a tree for "..."
 	walkEllipsis := func(prefix string) error {
-		start := filepath.Join(workDir, prefix)
+		start := prefix
+		if !filepath.IsAbs(start) {
+			start = filepath.Join(workDir, prefix)
+		}
 		return filepath.WalkDir(start, func(path string, d fs.DirEntry, err error) error {
 			if err != nil || !d.IsDir() {
 				return err
 			} else if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
+				if !filepath.IsAbs(prefix) {
+					path, _ = filepath.Rel(workDir, path) // cannot fail
+				}
 				add(path)
 			}
 			return nil
-- 
2.43.0


From a330250966adeed28010739a9a09cba843010b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:50 +0000
Subject: [PATCH 42/47] fix: match absolute go.work entries inside the
 workspace

---
 lens/module.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index e0a5def..ccb4088 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -613,10 +613,29 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return nil, err
 	}
 
+	newRoot := filepath.Dir(newWorkPath)
+	// absolute entries within a workspace are the same member in the other workspace
+	relativeDirs := func(root string, dirs []string) error {
+		absRoot, err := filepath.Abs(root)
+		if err != nil {
+			return err
+		}
+		for i, dir := range dirs {
+			if !filepath.IsAbs(dir) {
+				continue
+			} else if rel, err := filepath.Rel(absRoot, dir); err == nil && filepath.IsLocal(rel) {
+				dirs[i] = rel
+			}
+		}
+		return nil
+	}
+	if err := errors.Join(relativeDirs(projectDir, oldDirs), relativeDirs(newRoot, newDirs)); err != nil {
+		return nil, err
+	}
+
 	dirs := slices.Concat(oldDirs, newDirs)
 	slices.Sort(dirs) // the order of the changes must not depend on map iteration
 	dirs = slices.Compact(dirs)
-	newRoot := filepath.Dir(newWorkPath)
 
 	// resolve turns a workspace-relative entry into an absolute go.mod path
 	resolve := func(root, dir string) string {
-- 
2.43.0


From b314881f3dc256a79c5b4725ffeedbaeba196cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 43/47] fix: names beginning with two dots are within their
 directory

---
 lens/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index ea7dead..26506a2 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -42,8 +42,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If rel starts with a ".." element, file is outside the directory (a name may still begin with two dots)
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From 7a750fc3087948682049126bc82bb84e80138aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 44/47] fix: keep the destination when its replacement fails

---
 lens/file.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 26506a2..9ac832d 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -50,13 +50,20 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 }
 
 func replaceFile(source, destination string) error {
-	if _, err := os.Stat(destination); err == nil {
-		if err = os.Remove(destination); err != nil {
+	if src, err := os.Lstat(source); err != nil {
+		return err
+	} else if dst, err := os.Lstat(destination); err == nil && os.SameFile(src, dst) {
+		srcDir, err1 := os.Stat(filepath.Dir(source))
+		dstDir, err2 := os.Stat(filepath.Dir(destination))
+		if err := errors.Join(err1, err2); err != nil {
 			return err
+		} else if filepath.Base(source) == filepath.Base(destination) && os.SameFile(srcDir, dstDir) {
+			return nil // two paths of one file
 		}
+		return os.Remove(source) // two links of one file, a rename would keep both
 	}
 
-	// Rename the source to the destination (requires same filesystem)
+	// Rename the source over the destination (requires same filesystem), which remains if the rename fails
 	return os.Rename(source, destination)
 }
 
-- 
2.43.0


From e05fe56b54a40c5febb379406ebea9423cc1957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 45/47] fix: line directives in a file could make
 InsertFuncLines panic or use the wrong lines

---
 lens/asttweak.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 5823c74..05f8b9d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -2136,10 +2136,10 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	} else if decl.Body == nil {
 		return fmt.Errorf("%w: %s in %s", ErrNoFunctionBody, fn.FunctionIdent, fn.FilePath)
 	}
-	funcStartLine := fset.Position(decl.Pos()).Line
+	funcStartLine := fset.PositionFor(decl.Pos(), false).Line
 	// determine which lines are "inside" the function body (exclude the braces themselves)
-	bodyOpenLine := fset.Position(decl.Body.Lbrace).Line + 1  // first line after '{'
-	bodyCloseLine := fset.Position(decl.Body.Rbrace).Line - 1 // last line before '}'
+	bodyOpenLine := fset.PositionFor(decl.Body.Lbrace, false).Line + 1  // first line after '{'
+	bodyCloseLine := fset.PositionFor(decl.Body.Rbrace, false).Line - 1 // last line before '}'
 	lines := strings.Split(string(data), "\n")
 
 	if bodyOpenLine > bodyCloseLine { // empty body or single line function like "func() {}"
@@ -2156,7 +2156,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 		if tok == token.EOF {
 			break
 		}
-		lno := fset.Position(pos).Line
+		lno := fset.PositionFor(pos, false).Line
 		if lno < bodyOpenLine || lno > bodyCloseLine {
 			continue
 		}
-- 
2.43.0


From 1ed68cda983f6f36f64ce3a83c961d2f79c25117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 46/47] fix: line scoped mutations were misaligned for
 functions with comments

---
 lens/mutation.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index b73cbf7..e89a8eb 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -1,7 +1,11 @@
 package lens
 
 import (
+	"bytes"
 	"fmt"
+	"go/parser"
+	"go/printer"
+	"go/token"
 	"log"
 	"os"
 	"path/filepath"
@@ -100,8 +104,12 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 				mutationFiles = append(mutationFiles, abs)
 			}
 			errGrp.Go(func() error {
-				err := astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
-					if i < len(change.LineChangeBitmap) && !change.LineChangeBitmap[i] {
+				changedLines, err := changedSourceLines(change)
+				if err != nil {
+					return err
+				}
+				err = astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
+					if i < len(changedLines) && !changedLines[i] {
 						return "// mutator-disable-next-line *", true
 					}
 					return "", true
@@ -204,6 +212,55 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
+// changedSourceLines translates the LineChangeBitmap of the function, which has an index for each line of its Definition,
+// to the lines of its source file (starting at the func keyword). These differ as the Definition has no comments.
+func changedSourceLines(change *ModuleFunction) ([]bool, error) {
+	lock := astFileLock.Lock(change.FilePath)
+	defer lock.Unlock()
+
+	fset := token.NewFileSet()
+	fileNode, err := parser.ParseFile(fset, change.FilePath, nil, parser.ParseComments)
+	if err != nil {
+		return nil, fmt.Errorf("ast parse failure %s: %w", change.FilePath, err)
+	}
+	decl := findFuncDecl(fileNode, change.PackageName, change.FunctionIdent)
+	if decl == nil {
+		return change.LineChangeBitmap, nil
+	}
+	decl.Doc = nil
+
+	// print the definition again, this time with directives for lines which are not where they are in the source
+	var buf bytes.Buffer
+	p := &printer.Config{
+		Mode:     printer.TabIndent | printer.SourcePos,
+		Tabwidth: 2,
+	}
+	if err := p.Fprint(&buf, fset, decl); err != nil {
+		return nil, err
+	}
+
+	changed := make([]bool, fset.PositionFor(decl.End(), false).Line-fset.PositionFor(decl.Pos(), false).Line+1)
+	var defLine, nextLine int
+	linePrefix := "//line " + change.FilePath + ":"
+	for _, line := range strings.Split(buf.String(), "\n") {
+		if suffix, ok := strings.CutPrefix(line, linePrefix); ok {
+			if n, err := strconv.Atoi(suffix); err == nil {
+				nextLine = n - fset.PositionFor(decl.Pos(), false).Line
+				continue
+			}
+		}
+		if defLine < len(change.LineChangeBitmap) && change.LineChangeBitmap[defLine] && nextLine >= 0 && nextLine < len(changed) {
+			changed[nextLine] = true
+		}
+		defLine++
+		nextLine++
+	}
+	if defLine != len(change.LineChangeBitmap) {
+		return change.LineChangeBitmap, nil // not the definition the lines were compared with
+	}
+	return changed, nil
+}
+
 const scriptFinishCheck = `if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
 	echo "$GOMUTESTING_TEST"
 fi
-- 
2.43.0


From 5c772ebc6e61bcf5933e9436ddac97cb35674f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 47/47] fix: a line directive naming another file made the
 static analysis fail or use the wrong file

---
 lens/static.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/static.go b/lens/static.go
index cb9248a..1d34fde 100644
--- a/lens/static.go
+++ b/lens/static.go
@@ -388,8 +388,12 @@ func filePathForSSAFunc(fn *ssa.Function) string {
 	} else if fn.Pos() == 0 {
 		return ""
 	}
-	pos := fn.Prog.Fset.Position(fn.Pos())
-	return pos.Filename
+	// line directives are ignored, a file written by a generator must not be taken for the input of the generator
+	file := fn.Prog.Fset.PositionFor(fn.Pos(), false).Filename
+	if filepath.Ext(file) != ".go" || strings.HasSuffix(file, ".cgo1.go") {
+		return fn.Prog.Fset.Position(fn.Pos()).Filename // cgo output in the build cache, which refers to the actual source
+	}
+	return file
 }
 
 // MakeSSAFunctionIdent creates a normalized key for a SSA function, incorporating package and (if any) receiver type.
-- 
2.43.0

