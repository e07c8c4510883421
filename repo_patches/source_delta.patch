From a8bbef4f903ab58631b770819656c007060cd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 01/41] fix: badger storage loads split values from one
 snapshot and keeps empty and marker-like values

LoadState read the split marker and the parts in separate transactions, so a
concurrent save or delete could make it fail or return mixed parts. An empty
value was reported as not found, and a value that looks like a split marker
was taken for one.
---
 lens/storage.go | 71 +++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/lens/storage.go b/lens/storage.go
index 95503b5..3bace2b 100644
--- a/lens/storage.go
+++ b/lens/storage.go
@@ -261,8 +261,8 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 			return err
 		}
 
-		// if small enough, write in one piece
-		if len(storeBlob) <= badgerSplitLimit {
+		// if small enough, write in one piece (a value that looks like a split marker must not be stored bare)
+		if len(storeBlob) <= badgerSplitLimit && !splitRe.Match(storeBlob) {
 			return txn.Set(mainKey, storeBlob)
 		}
 
@@ -291,7 +291,10 @@ func (b *badgerStorage) SaveState(key string, blob []byte) error {
 }
 
 func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
-	var raw []byte
+	var found bool
+	var stored []byte
+	var decompressedSize int
+	// the marker and the parts must be read from the same snapshot
 	err := b.db.View(func(txn *badger.Txn) error {
 		item, err := txn.Get([]byte(key))
 		if err != nil {
@@ -300,53 +303,51 @@ func (b *badgerStorage) LoadState(key string) ([]byte, bool, error) {
 			}
 			return err
 		}
-		return item.Value(func(v []byte) error {
-			raw = append([]byte(nil), v...)
+		found = true
+		if err := item.Value(func(v []byte) error {
+			stored = append([]byte(nil), v...)
 			return nil
-		})
-	})
-	if err != nil {
-		return nil, false, err
-	} else if raw == nil {
-		return nil, false, nil
-	}
+		}); err != nil {
+			return err
+		}
 
-	var stored []byte
-	var decompressedSize int
-	if m := splitRe.FindSubmatch(raw); m == nil {
-		stored = raw // it was stored whole
-	} else { // reassemble split value
+		m := splitRe.FindSubmatch(stored)
+		if m == nil {
+			return nil // it was stored whole
+		}
+		// reassemble split value
 		count, err := strconv.Atoi(string(m[1]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse value count: %w", err)
+			return fmt.Errorf("failed to parse value count: %w", err)
 		}
 		compressedSize, err := strconv.Atoi(string(m[2]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse compressed size: %w", err)
+			return fmt.Errorf("failed to parse compressed size: %w", err)
 		}
 		decompressedSize, err = strconv.Atoi(string(m[3]))
 		if err != nil {
-			return nil, false, fmt.Errorf("failed to parse decompressed size: %w", err)
+			return fmt.Errorf("failed to parse decompressed size: %w", err)
 		}
 		stored = make([]byte, compressedSize)
 		var off int
-		if err := b.db.View(func(txn *badger.Txn) error {
-			for i := 0; i < count; i++ {
-				item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
-				if err != nil {
-					return fmt.Errorf("large value failure on part %d: %w", i, err)
-				} else if err := item.Value(func(v []byte) error {
-					copy(stored[off:], v)
-					off += len(v)
-					return nil
-				}); err != nil {
-					return err
-				}
+		for i := 0; i < count; i++ {
+			item, err := txn.Get([]byte(fmt.Sprintf("%s%s-%d", splitPrefixString, key, i)))
+			if err != nil {
+				return fmt.Errorf("large value failure on part %d: %w", i, err)
+			} else if err := item.Value(func(v []byte) error {
+				copy(stored[off:], v)
+				off += len(v)
+				return nil
+			}); err != nil {
+				return err
 			}
-			return nil
-		}); err != nil {
-			return nil, false, err
 		}
+		return nil
+	})
+	if err != nil {
+		return nil, false, err
+	} else if !found {
+		return nil, false, nil
 	}
 
 	if badgerCompression == options.None { // manually decompress
-- 
2.43.0


From a15cc488725711b3172bc70a20aac42a545dd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 02/41] fix: CopyDir waits for its copy workers on every path

On a walk error CopyDir returned while workers were still creating files in
the destination, and it reported only the cancellation, not the cause.
---
 lens/file.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 92f93cb..dbed586 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -98,7 +98,7 @@ func CopyFile(src, dst string) (err error) {
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.SetLimit(runtime.NumCPU() * 4)
-	err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
+	err1 := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
@@ -128,10 +128,8 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 			return nil
 		}
 	})
-	if err != nil {
-		return err
-	}
-	return eg.Wait()
+	err2 := eg.Wait() // always wait, so that no copy is still running once we return
+	return errors.Join(err1, err2)
 }
 
 // WriteChmod adds write permissions for owner/group/others on every file and directory under root.
-- 
2.43.0


From 75d69189317c84080ce9009c1e6bcaa25230006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:16 +0000
Subject: [PATCH 03/41] fix: client encodes map entries in key order so shared
 pointers are recorded the same in every run

---
 lens/astclient.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 2147f21..4487104 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -362,19 +362,14 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	case reflect.Map:
 		lw.writeByte(lensTypeTagMap)
 		keys := v.MapKeys()
-		if len(keys) <= lensMonitorFieldMaxLen {
-			// Fast path, size within limit, use undeterministic iteration order
-			lw.writeVarint(uint64(len(keys)))
-			for _, k := range keys {
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
-		} else { // Too many entries, sort keys for deterministic subset (similar to slices)
-			sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
-			lw.writeVarint(uint64(lensMonitorFieldMaxLen))
-			for i := 0; i < lensMonitorFieldMaxLen; i++ {
-				k := keys[i]
-				lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
-			}
+		// Always sort, iteration order decides both the retained subset and where shared pointers are recorded as cycles
+		sort.Slice(keys, func(i, j int) bool { return lensCompareReflectValue(keys[i], keys[j]) < 0 })
+		if len(keys) > lensMonitorFieldMaxLen {
+			keys = keys[:lensMonitorFieldMaxLen]
+		}
+		lw.writeVarint(uint64(len(keys)))
+		for _, k := range keys {
+			lw.streamField(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, visited, valuePath)
 		}
 
 	case reflect.Struct:
-- 
2.43.0


From aca2cdf5b5748d9dcc22b61a32f43336bc63c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:19 +0000
Subject: [PATCH 04/41] fix: late messages of an earlier test run no longer
 reach or race with another run's result

---
 lens/astapi.go    |  3 +++
 lens/astclient.go | 12 ++++++----
 lens/astexec.go   | 15 ++++++++-----
 lens/astsrv.go    | 57 ++++++++++++++++++++++++++++++++++++-----------
 4 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/lens/astapi.go b/lens/astapi.go
index fe70ed2..82c3b1d 100644
--- a/lens/astapi.go
+++ b/lens/astapi.go
@@ -7,6 +7,9 @@ const (
 	lensMonitorEndpointPathPanic = "/ast.0/point/panic"
 )
 
+// lensMonitorRunParam is the query parameter which identifies the test run a message belongs to.
+const lensMonitorRunParam = "run"
+
 // lensMonitorMaxStackFrames is the maximum number of stack frames captured by the client
 // and accepted by the server. This is a safety limit to prevent OOM from malformed data.
 const lensMonitorMaxStackFrames = 2048
diff --git a/lens/astclient.go b/lens/astclient.go
index 4487104..c63bc3a 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -52,10 +52,14 @@ func init() {
 	}
 	// serverURL is the base URL for messaging endpoints
 	serverURL := fmt.Sprintf("http://%s:%d", lensMonitorServerHost, port)
-	lensMonitorEndpointError = serverURL + lensMonitorEndpointPathError
-	lensMonitorEndpointPoint = serverURL + lensMonitorEndpointPathPoint
-	lensMonitorEndpointState = serverURL + lensMonitorEndpointPathState
-	lensMonitorEndpointPanic = serverURL + lensMonitorEndpointPathPanic
+	var query string
+	if runID := os.Getenv("LENS_MONITOR_RUN"); runID != "" {
+		query = "?" + lensMonitorRunParam + "=" + runID
+	}
+	lensMonitorEndpointError = serverURL + lensMonitorEndpointPathError + query
+	lensMonitorEndpointPoint = serverURL + lensMonitorEndpointPathPoint + query
+	lensMonitorEndpointState = serverURL + lensMonitorEndpointPathState + query
+	lensMonitorEndpointPanic = serverURL + lensMonitorEndpointPathPanic + query
 }
 
 // sendLensPointMessage sends a LensMonitorMessagePoint to the backend.
diff --git a/lens/astexec.go b/lens/astexec.go
index 2157b31..a243941 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -240,11 +240,10 @@ func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 				}
 			}
 			buf := &bytes.Buffer{}
-			envWithPort := append([]string{fmt.Sprintf("LENS_MONITOR_PORT=%d", srv.Port())}, env...)
 			// Force second run for extension frames in post-update to filter unstable fields
 			forceSecondRun := postUpdateExtensionConfig != nil
 			failureOutput, testResult, fieldCheckCount, testModuleChangesReached, err :=
-				runMonitoredTest(envWithPort, goroot, projectDir, srv, buf, stableResults, forceSecondRun,
+				runMonitoredTest(env, goroot, projectDir, srv, buf, stableResults, forceSecondRun,
 					projectStatePointIdToIdent, projectPanicPointIdToIdent,
 					moduleEntryPointIdToIdent, modulePanicPointIdToIdent, extensionStatePointIdToIdent,
 					tFunc)
@@ -523,12 +522,14 @@ func runMonitoredTest(env []string, goroot, projectDir string, srv *astServer, e
 	moduleEntryPointIdToIdent, modulePanicPointIdToIdent, extensionStatePointIdToIdent map[uint32]*string, tFunc *TestFunction) (string, TestResult, int, []*string, error) {
 	pointHandler1 := newTestMonitor(stableResults, goroot, projectDir,
 		projectStatePointIdToIdent, projectPanicPointIdToIdent, moduleEntryPointIdToIdent, modulePanicPointIdToIdent, extensionStatePointIdToIdent)
-	if err := srv.SetPointHandler(pointHandler1); err != nil {
+	runEnv1, err := srv.startRun(pointHandler1)
+	if err != nil {
 		return "", TestResult{}, 0, nil, err
 	}
 	dir := filepath.Dir(tFunc.FilePath)
 	execOutput.Reset()
-	testFailure1 := ExecGoTest(dir, env, newLimitedRollingBufferWriter(execOutput, 8192), tFunc) != nil
+	testFailure1 := ExecGoTest(dir, append(runEnv1, env...), newLimitedRollingBufferWriter(execOutput, 8192), tFunc) != nil
+	srv.endRun()
 	var failureOutput string
 	if testFailure1 {
 		failureOutput = cleanExecOutput(execOutput)
@@ -546,7 +547,8 @@ func runMonitoredTest(env []string, goroot, projectDir string, srv *astServer, e
 	// second run to compare against
 	pointHandler2 := newTestMonitor(nil, goroot, projectDir,
 		projectStatePointIdToIdent, projectPanicPointIdToIdent, moduleEntryPointIdToIdent, modulePanicPointIdToIdent, extensionStatePointIdToIdent)
-	if err := srv.SetPointHandler(pointHandler2); err != nil {
+	runEnv2, err := srv.startRun(pointHandler2)
+	if err != nil {
 		return "", TestResult{}, 0, nil, err
 	}
 	test2io := io.Discard
@@ -554,7 +556,8 @@ func runMonitoredTest(env []string, goroot, projectDir string, srv *astServer, e
 		execOutput.Reset()
 		test2io = execOutput
 	}
-	testFailure2 := ExecGoTest(dir, env, test2io, tFunc) != nil
+	testFailure2 := ExecGoTest(dir, append(runEnv2, env...), test2io, tFunc) != nil
+	srv.endRun()
 	if failureOutput == "" && testFailure2 {
 		failureOutput = cleanExecOutput(execOutput)
 	}
diff --git a/lens/astsrv.go b/lens/astsrv.go
index 076bfaf..0ccf70b 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"math"
 	"net/http"
+	"os"
 	"strconv"
 	"strings"
 	"sync"
@@ -66,7 +67,9 @@ type astServer struct {
 	server       *http.Server
 	err          atomic.Pointer[error]
 	pointHandler atomic.Value
-	maxFieldLen  int // maximum length for strings and slices during decode
+	maxFieldLen  int          // maximum length for strings and slices during decode
+	handleLock   sync.RWMutex // read locked while a message is handled
+	runID        string       // protected by handleLock, if set only messages of this run are accepted
 }
 
 func (s *astServer) Port() int {
@@ -116,6 +119,43 @@ func (s *astServer) SetPointHandler(pointHandler astPointHandler) error {
 	return s.errCheck()
 }
 
+var astRunCount atomic.Uint64
+
+// startRun sets the handler for a new test run, and returns the environment which must be provided to the test process.
+// Only messages sent with this environment will be handled, late messages from a prior run are refused.
+func (s *astServer) startRun(pointHandler astPointHandler) ([]string, error) {
+	runID := fmt.Sprintf("%d-%d", os.Getpid(), astRunCount.Add(1))
+	s.handleLock.Lock()
+	defer s.handleLock.Unlock()
+	s.runID = runID
+	return []string{
+		fmt.Sprintf("LENS_MONITOR_PORT=%d", s.Port()),
+		"LENS_MONITOR_RUN=" + runID,
+	}, s.SetPointHandler(pointHandler)
+}
+
+// endRun waits for messages which are being handled, any message received later is refused until the next startRun.
+func (s *astServer) endRun() {
+	s.handleLock.Lock()
+	defer s.handleLock.Unlock()
+	s.runID = "none"
+}
+
+// handleMessage provides the point handler to the function, unless the message is not part of the current run.
+func (s *astServer) handleMessage(w http.ResponseWriter, r *http.Request, handle func(astPointHandler)) {
+	s.handleLock.RLock()
+	defer s.handleLock.RUnlock()
+	if s.runID != "" && r.URL.Query().Get(lensMonitorRunParam) != s.runID {
+		http.Error(w, "message is not part of the current test run", http.StatusConflict)
+		return
+	}
+
+	handler := s.pointHandler.Load().(*astPointHandler)
+	handle(*handler)
+
+	w.WriteHeader(http.StatusOK)
+}
+
 // StopOnProcessOrTimeout waits for the given process to exit (up to timeout)
 // then shuts down the server and returns
 func (s *astServer) StopOnProcessOrTimeout(pid int, timeout time.Duration) error {
@@ -168,10 +208,7 @@ func (s *astServer) handlePoint(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	handler := s.pointHandler.Load().(*astPointHandler)
-	(*handler).HandleFuncPoint(msg)
-
-	w.WriteHeader(http.StatusOK)
+	s.handleMessage(w, r, func(handler astPointHandler) { handler.HandleFuncPoint(msg) })
 }
 
 func (s *astServer) handlePointState(w http.ResponseWriter, r *http.Request) {
@@ -188,10 +225,7 @@ func (s *astServer) handlePointState(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	handler := s.pointHandler.Load().(*astPointHandler)
-	(*handler).HandleFuncPointState(msg)
-
-	w.WriteHeader(http.StatusOK)
+	s.handleMessage(w, r, func(handler astPointHandler) { handler.HandleFuncPointState(msg) })
 }
 
 func (s *astServer) handlePointPanic(w http.ResponseWriter, r *http.Request) {
@@ -208,10 +242,7 @@ func (s *astServer) handlePointPanic(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	handler := s.pointHandler.Load().(*astPointHandler)
-	(*handler).HandleFuncPointPanic(msg)
-
-	w.WriteHeader(http.StatusOK)
+	s.handleMessage(w, r, func(handler astPointHandler) { handler.HandleFuncPointPanic(msg) })
 }
 
 func (s *astServer) handleEventError(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From cb94523381e53a59359cf107c59b1b53659afc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:51 +0000
Subject: [PATCH 05/41] fix: a state message for an unknown monitor point no
 longer blocks result assembly forever

---
 lens/astexec.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index a243941..767aaa1 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -701,8 +701,6 @@ func (t *testMonitor) HandleFuncPoint(msg LensMonitorMessagePoint) {
 }
 
 func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
-	t.wait.Add(1) // done in routine
-
 	if monitorDebugLogging {
 		debugLogMonitorStack(msg.PointID, msg.Stack)
 		fmt.Printf(">> State fields for point %v:\n", msg.PointID)
@@ -735,6 +733,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 	}
 
 	lock := t.pointLocks.Lock(storageKey)
+	t.wait.Add(1) // done in routine
 	go func() {
 		defer t.wait.Done()
 		defer lock.Unlock()
-- 
2.43.0


From ae0788e5b60dcc00f119e215688af875b7a252a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:13 +0000
Subject: [PATCH 06/41] fix: monitor message decoder does not allocate memory
 from unverified counts

---
 lens/astsrv.go | 52 ++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 0ccf70b..9d1fe54 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -1,6 +1,7 @@
 package lens
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -393,11 +394,18 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 	} else if count > math.MaxUint32 {
 		return nil, fmt.Errorf("field count %d exceeds maximum", count)
 	}
-	fields := make([]LensMonitorField, count)
+	return lr.readFieldList(count)
+}
+
+// readFieldList reads count fields, the count is not trusted so memory is allocated as the fields are received.
+func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	fields := make([]LensMonitorField, 0, min(count, 16))
 	for i := uint64(0); i < count; i++ {
-		if err := lr.readField(&fields[i]); err != nil {
+		var f LensMonitorField
+		if err := lr.readField(&f); err != nil {
 			return nil, err
 		}
+		fields = append(fields, f)
 	}
 	return fields, nil
 }
@@ -496,25 +504,15 @@ func (lr *lensReader) readValue() (interface{}, []LensMonitorField, error) {
 		} else if count > uint64(lr.maxFieldLen) {
 			return nil, nil, fmt.Errorf("container field count %d exceeds maximum %d", count, lr.maxFieldLen)
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	case lensTypeTagStruct:
 		count, err := lr.readVarint()
 		if err != nil {
 			return nil, nil, err
 		}
-		children := make([]LensMonitorField, count)
-		for i := uint64(0); i < count; i++ {
-			if err := lr.readField(&children[i]); err != nil {
-				return nil, nil, err
-			}
-		}
-		return nil, children, nil
+		children, err := lr.readFieldList(count)
+		return nil, children, err
 	default:
 		return nil, nil, fmt.Errorf("unknown value tag: %d (0x%02x)", tag, tag)
 	}
@@ -590,14 +588,26 @@ func (lr *lensReader) readString() (string, error) {
 	} else if length > math.MaxUint32 {
 		return "", fmt.Errorf("string length %d exceeds maximum %d", length, math.MaxUint32)
 	}
-	buf := make([]byte, length)
-	if _, err := io.ReadFull(lr.r, buf); err != nil {
+	buf, err := lr.readData(length)
+	if err != nil {
 		return "", err
 	}
 	// Zero-copy string conversion - safe because buf is not reused after this
 	return unsafe.String(&buf[0], len(buf)), nil
 }
 
+// readData reads length bytes, the length is not trusted so large buffers are allocated as the data is received.
+func (lr *lensReader) readData(length uint64) ([]byte, error) {
+	if length > 64*1024 {
+		var buf bytes.Buffer
+		_, err := io.CopyN(&buf, lr.r, int64(length))
+		return buf.Bytes(), err
+	}
+	buf := make([]byte, length)
+	_, err := io.ReadFull(lr.r, buf)
+	return buf, err
+}
+
 func (lr *lensReader) readBytes() ([]byte, error) {
 	length, err := lr.readVarint()
 	if err != nil {
@@ -607,11 +617,7 @@ func (lr *lensReader) readBytes() ([]byte, error) {
 	} else if length > uint64(lr.maxFieldLen) {
 		return nil, fmt.Errorf("bytes length %d exceeds maximum %d", length, lr.maxFieldLen)
 	}
-	buf := make([]byte, length)
-	if _, err := io.ReadFull(lr.r, buf); err != nil {
-		return nil, err
-	}
-	return buf, nil
+	return lr.readData(length)
 }
 
 func (lr *lensReader) readBoolSlice() ([]bool, error) {
-- 
2.43.0


From 57a780d71b53afb5a6bd3f13bd4e3097a81481da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:53 +0000
Subject: [PATCH 07/41] fix: monitor message decoder limits nesting so
 malformed data can not overflow the stack

---
 lens/astsrv.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 9d1fe54..9c73540 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -269,8 +269,12 @@ type lensReader struct {
 	r           io.Reader
 	buf         [8]byte // reused for all primitive reads
 	maxFieldLen int     // maximum length for strings and slices
+	depth       int     // current depth of nested fields
 }
 
+// lensReaderMaxDepth is a safety limit to prevent a stack overflow from malformed data.
+const lensReaderMaxDepth = 100_000
+
 func newLensReader(r io.Reader, maxFieldLen int) *lensReader {
 	return &lensReader{r: r, maxFieldLen: maxFieldLen}
 }
@@ -399,6 +403,11 @@ func (lr *lensReader) readFields() ([]LensMonitorField, error) {
 
 // readFieldList reads count fields, the count is not trusted so memory is allocated as the fields are received.
 func (lr *lensReader) readFieldList(count uint64) ([]LensMonitorField, error) {
+	lr.depth++
+	defer func() { lr.depth-- }()
+	if lr.depth > lensReaderMaxDepth {
+		return nil, fmt.Errorf("field depth exceeds maximum %d", lensReaderMaxDepth)
+	}
 	fields := make([]LensMonitorField, 0, min(count, 16))
 	for i := uint64(0); i < count; i++ {
 		var f LensMonitorField
-- 
2.43.0


From 9c29c70a603927239458f3815f2fbd31c4a6f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:18 +0000
Subject: [PATCH 08/41] fix: monitor server listens before start returns so a
 taken port or refused message is never hidden by a short wait

---
 lens/astsrv.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lens/astsrv.go b/lens/astsrv.go
index 9c73540..a578e9b 100644
--- a/lens/astsrv.go
+++ b/lens/astsrv.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"net"
 	"net/http"
 	"os"
 	"strconv"
@@ -66,6 +67,7 @@ type LensMonitorField struct {
 // astServer wraps the HTTP server for receiving client messages.
 type astServer struct {
 	server       *http.Server
+	listener     net.Listener
 	err          atomic.Pointer[error]
 	pointHandler atomic.Value
 	maxFieldLen  int          // maximum length for strings and slices during decode
@@ -92,17 +94,18 @@ func astExecServerStart(host string, port int, pointHandler astPointHandler, max
 	mux.HandleFunc(lensMonitorEndpointPathState, s.handlePointState)
 	mux.HandleFunc(lensMonitorEndpointPathPanic, s.handlePointPanic)
 	s.server = &http.Server{Addr: addr, Handler: mux}
-	var wg sync.WaitGroup
-	wg.Add(1)
+	listener, err := net.Listen("tcp", addr) // listen before returning so that messages are accepted once started
+	if err != nil {
+		log.Printf("%sAST Monitor Server error: %v", ErrorLogPrefix, err)
+		return nil, err
+	}
+	s.listener = listener
 	go func() {
-		wg.Done() // signal that routine has started
-		if err := s.server.ListenAndServe(); err != nil && !errors.Is(err, http.ErrServerClosed) {
+		if err := s.server.Serve(listener); err != nil && !errors.Is(err, http.ErrServerClosed) {
 			s.err.Store(&err)
 			log.Printf("%sAST Monitor Server error: %v", ErrorLogPrefix, err)
 		}
 	}()
-	wg.Wait()
-	time.Sleep(100 * time.Millisecond) // short wait to ensure error is communicated
 
 	return s, s.errCheck()
 }
@@ -192,6 +195,7 @@ func (s *astServer) StopOnProcessOrTimeout(pid int, timeout time.Duration) error
 // Stop gracefully shuts down the server.
 func (s *astServer) Stop(ctx context.Context) error {
 	err1 := s.server.Shutdown(ctx)
+	_ = s.listener.Close() // already closed by Shutdown, unless it was not being served yet
 	return errors.Join(err1, s.errCheck())
 }
 
-- 
2.43.0


From 535978ef66e72e7eb4b68a4200f62c60a4d4e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:24 +0000
Subject: [PATCH 09/41] fix: instrumented sources no longer depend on the order
 of the concurrent injectors

Monitor clients are injected before any point, and a package is not parsed
while one of its files is partly written.
---
 lens/astexec.go  | 60 +++++++++++++++++++++++++++---------------------
 lens/asttweak.go | 19 +++++++++++++--
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 767aaa1..628c008 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -305,7 +305,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 	pointIdLock := sync.Mutex{}
 	projectStatePointIdToIdent := make(map[uint32]*string)
 	projectPanicPointIdToIdent := make(map[uint32]*string)
-	projectPkgs := make([]string, 0, len(callerFunctions))
 	errGrp := ErrGroupLimitCPU()
 	fileFuncHandler := func(funcs []*CallerFunction) error {
 		if len(funcs) == 0 {
@@ -366,6 +365,40 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 	slices.SortFunc(callerFunctions, func(a, b *CallerFunction) int {
 		return strings.Compare(a.FilePath, b.FilePath) // sort by file so grouping can be optimal
 	})
+	// inject all ast clients first, the type information used for the points depends on them
+	projectPkgs := make([]string, 0, len(callerFunctions))
+	for _, cf := range callerFunctions {
+		if dir := filepath.Dir(cf.FilePath); !slices.Contains(projectPkgs, dir) {
+			projectPkgs = append(projectPkgs, dir)
+		}
+	}
+	modulePkgs := make([]string, 0, len(moduleChanges))
+	for _, mf := range moduleChanges {
+		if dir := filepath.Dir(mf.FilePath); !slices.Contains(modulePkgs, dir) {
+			modulePkgs = append(modulePkgs, dir)
+		}
+	}
+	clientGrp := ErrGroupLimitCPU()
+	for _, dir := range projectPkgs {
+		clientGrp.Go(func() error {
+			if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+				return fmt.Errorf("failed to inject project AST client: %w", err)
+			}
+			return nil
+		})
+	}
+	for _, dir := range modulePkgs {
+		clientGrp.Go(func() error {
+			if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
+				return fmt.Errorf("failed to inject module AST client: %w", err)
+			}
+			return nil
+		})
+	}
+	if err := clientGrp.Wait(); err != nil {
+		return nil, nil, nil, nil, nil, err
+	}
+
 	var currentFile string
 	var currentFileFunctions []*CallerFunction
 	for _, cf := range callerFunctions {
@@ -373,18 +406,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 			currentFileFunctions = append(currentFileFunctions, cf)
 			continue
 		}
-		// inject ast client if not already injected
-		if dir := filepath.Dir(cf.FilePath); !slices.Contains(projectPkgs, dir) {
-			projectPkgs = append(projectPkgs, dir)
-
-			errGrp.Go(func() error {
-				if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-					return fmt.Errorf("failed to inject project AST client: %w", err)
-				}
-				return nil
-			})
-		}
-
 		fileFunctions := currentFileFunctions
 		currentFileFunctions = []*CallerFunction{cf} // reset for our new file
 		currentFile = cf.FilePath
@@ -395,7 +416,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 	moduleEntryPointIdToIdent := make(map[uint32]*string)
 	modulePanicPointIdToIdent := make(map[uint32]*string)
 	if len(moduleChanges) > 0 {
-		modulePkgs := make([]string, 0, len(moduleChanges))
 		fileFuncHandler := func(funcs []*ModuleFunction) error {
 			if len(funcs) == 0 {
 				return nil
@@ -452,18 +472,6 @@ func injectMonitorPoints(astEditor *ASTModifier, maxVariableRecurse, maxFieldLen
 				currentFileFunctions = append(currentFileFunctions, mf)
 				continue
 			}
-			// inject ast client if not already in package
-			if dir := filepath.Dir(mf.FilePath); !slices.Contains(modulePkgs, dir) {
-				modulePkgs = append(modulePkgs, dir)
-
-				errGrp.Go(func() error {
-					if err := astEditor.InjectASTClient(dir, 0, maxVariableRecurse, maxFieldLen); err != nil {
-						return fmt.Errorf("failed to inject module AST client: %w", err)
-					}
-					return nil
-				})
-			}
-
 			fileFunctions := currentFileFunctions
 			currentFileFunctions = []*ModuleFunction{mf} // reset for our new file
 			currentFile = mf.FilePath
diff --git a/lens/asttweak.go b/lens/asttweak.go
index 6ce3f64..fa31439 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -65,6 +65,10 @@ func IsNormalAstError(err error) bool {
 var tmplFS embed.FS
 var astFileLock = newDefaultStripedMutex()
 
+// astDirLock guards the files of a directory against being read while one of them is partly written.
+// It may be acquired while holding any other lock, no other lock but cleanupLock may be acquired while holding it.
+var astDirLock = newDefaultStripedMutex()
+
 // ASTModifier provides utilities for modifying Go AST.
 // Extensions can use this to inject custom monitoring at specific points in code.
 type ASTModifier struct {
@@ -148,7 +152,7 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 			return fmt.Errorf("ast format failure %s: %w", filepath, err)
 		} else if err := m.backupOrigFile(filepath); err != nil {
 			return err
-		} else if err := os.WriteFile(filepath, buf.Bytes(), 0o644); err != nil {
+		} else if err := writeSourceFile(filepath, buf.Bytes()); err != nil {
 			return fmt.Errorf("ast write failure %s: %w", filepath, err)
 		}
 		return nil
@@ -156,6 +160,13 @@ func (m *ASTModifier) loadParsedFileNode(filepath string) (*token.FileSet, *ast.
 	return fset, fileNode, nil
 }
 
+// writeSourceFile writes the file so that no partial content can be seen by others reading the package.
+func writeSourceFile(path string, data []byte) error {
+	lock := astDirLock.Lock(filepath.Dir(path))
+	defer lock.Unlock()
+	return os.WriteFile(path, data, 0o644)
+}
+
 // CommitFile writes pending edits for a single file.
 func (m *ASTModifier) CommitFile(filepath string) error {
 	lock := astFileLock.Lock(filepath)
@@ -206,6 +217,8 @@ func (m *ASTModifier) Commit() error {
 
 // InjectASTClient prepares a package directory by inserting the configured client code to enable other AST point functions.
 func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurse, maxFieldLen int) error {
+	lock := astDirLock.Lock(filepath.Clean(pkgDir))
+	defer lock.Unlock()
 	if matches, _ := filepath.Glob(filepath.Join(pkgDir, injectedFilenamePrefix+"*_gen.go")); len(matches) > 0 {
 		return nil // already been injected into the package
 	}
@@ -1172,7 +1185,9 @@ func buildTypesInfo(fset *token.FileSet, targetFile *ast.File) *types.Info {
 	}
 	dir := filepath.Dir(targetPos.Name())
 
+	lock := astDirLock.Lock(dir)
 	pkgs, err := parseDir(fset, dir, makeFileFilter(dir), 0)
+	lock.Unlock()
 	if err != nil || len(pkgs) == 0 {
 		return nil
 	}
@@ -1973,5 +1988,5 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	if err := m.backupOrigFile(fn.FilePath); err != nil {
 		return err
 	}
-	return os.WriteFile(fn.FilePath, []byte(strings.Join(out, "\n")), 0644)
+	return writeSourceFile(fn.FilePath, []byte(strings.Join(out, "\n")))
 }
-- 
2.43.0


From ac21d291a9b4bbf971335d65abaf6d23c2905be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:34 +0000
Subject: [PATCH 10/41] fix: restoring instrumentation brings back linked, half
 backed up and previously backed up files

A .bkp file that was already there is no longer taken for the backup, an
incomplete backup or generated file is removed, and a file reached through a
symbolic link is backed up itself.
---
 lens/asttweak.go | 67 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index fa31439..577ab1c 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -75,6 +75,8 @@ type ASTModifier struct {
 	currPointId    atomic.Uint32
 	cleanupLock    sync.Mutex
 	cleanupActions []func() error
+	backedUpFiles  map[string]bool // files with a complete backup, protected by cleanupLock
+	staleBackups   map[string]bool // incomplete backups still to be removed, protected by cleanupLock
 	fileNodeMap    sync.Map
 	commitLock     sync.Mutex
 	commitActions  map[string]func(*bytes.Buffer) error
@@ -105,6 +107,7 @@ func (m *ASTModifier) Restore(goenv []string) (result []error) {
 		}
 	}
 	m.cleanupActions = m.cleanupActions[:0] // clear completed actions
+	m.backedUpFiles, m.staleBackups = nil, nil
 	if err := goCacheClean(goenv); err != nil {
 		result = append(result, fmt.Errorf("failure to clean go cache: %w", err))
 	}
@@ -240,6 +243,10 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 		return err
 	}
 	clientFile := filepath.Join(pkgDir, injectedFilenamePrefix+"client_gen.go")
+	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
+	m.addCleanupAction(func() error { // added before writing, so that a failed write is cleaned up too
+		return errors.Join(removeIfExists(clientFile), removeIfExists(apiFile))
+	})
 	clientTxt, err := rewriteAstClientTemplate(&buf, clientSrc, pkgName, map[string]string{
 		"lensMonitorServerPort":      strconv.Itoa(srvPort),
 		"lensMonitorFieldMaxRecurse": strconv.Itoa(maxFieldRecurse),
@@ -250,16 +257,12 @@ func (m *ASTModifier) InjectASTClient(pkgDir string, srvPort int, maxFieldRecurs
 	} else if err := os.WriteFile(clientFile, clientTxt, 0o644); err != nil {
 		return err
 	}
-	apiFile := filepath.Join(pkgDir, injectedFilenamePrefix+"api_gen.go")
 	apiTxt, err := rewriteAstClientTemplate(&buf, apiSrc, pkgName, nil)
 	if err != nil {
 		return fmt.Errorf("rewrite astapi failure: %w", err)
 	} else if err := os.WriteFile(apiFile, apiTxt, 0o644); err != nil {
 		return err
 	}
-	m.addCleanupAction(func() error {
-		return errors.Join(os.Remove(clientFile), os.Remove(apiFile))
-	})
 	return nil
 }
 
@@ -395,16 +398,54 @@ func updateConstLiterals(f *ast.File, values map[string]string) {
 	}
 }
 
-// backupOrigFile will copy the file to a .bkp file if one does not already exist.
-func (m *ASTModifier) backupOrigFile(filepath string) error {
-	bkpFile := filepath + ".bkp"
-	if !FileExists(bkpFile) {
-		if err := CopyFile(filepath, bkpFile); err != nil {
-			return fmt.Errorf("ast backup failure: %w", err)
+// backupOrigFile will copy the file to a .bkp file unless that was already done since the last restore.
+func (m *ASTModifier) backupOrigFile(path string) error {
+	// writing follows symbolic links, so it is the file they lead to which has to be kept
+	origFile, err := filepath.EvalSymlinks(path)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	m.cleanupLock.Lock()
+	defer m.cleanupLock.Unlock()
+	if m.backedUpFiles[origFile] {
+		return nil
+	}
+	// never use a file we did not create as our backup
+	bkpFile := origFile + ".bkp"
+	for i := 1; ; i++ {
+		if !m.staleBackups[bkpFile] {
+			if _, err := os.Lstat(bkpFile); errors.Is(err, fs.ErrNotExist) {
+				break
+			} else if err != nil {
+				return fmt.Errorf("ast backup failure: %w", err)
+			}
 		}
-		m.addCleanupAction(func() error {
-			return replaceFile(bkpFile, filepath)
-		})
+		bkpFile = origFile + ".bkp" + strconv.Itoa(i)
+	}
+	if err := CopyFile(origFile, bkpFile); err != nil {
+		// drop the incomplete copy, at the latest with the restore
+		if rmErr := removeIfExists(bkpFile); rmErr != nil {
+			if m.staleBackups == nil {
+				m.staleBackups = make(map[string]bool)
+			}
+			m.staleBackups[bkpFile] = true
+			m.cleanupActions = append(m.cleanupActions, func() error { return removeIfExists(bkpFile) })
+		}
+		return fmt.Errorf("ast backup failure: %w", err)
+	}
+	if m.backedUpFiles == nil {
+		m.backedUpFiles = make(map[string]bool)
+	}
+	m.backedUpFiles[origFile] = true
+	m.cleanupActions = append(m.cleanupActions, func() error {
+		return replaceFile(bkpFile, origFile)
+	})
+	return nil
+}
+
+func removeIfExists(path string) error {
+	if err := os.Remove(path); err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 7195f986f6859815fdcc8f2720950bae20b8e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:13 +0000
Subject: [PATCH 11/41] fix: module update analysis restores go.mod and go.sum
 on every path, including a created go.sum, links and failed backups

---
 lens/astexec.go  | 59 ++++++++++++++++++++++++++++--------------------
 lens/asttweak.go | 30 +++++++++++++++---------
 2 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 628c008..5521ffc 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/fs"
 	"log"
 	"maps"
 	"os"
@@ -112,41 +113,49 @@ func RunModuleUpdateAnalysis(gopath, gomodcache, projectDir string, portStart in
 		return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil, err
 	}
 
-	type modBackupInfo struct {
-		modPath string
-		sumPath string
-		modBkp  string
-		sumBkp  string
-	}
-	backups := make([]modBackupInfo, 0, len(goModPaths))
 	// restore originals (and remove .bkp) on every return path, including early errors
+	var restoreActions []func() error
 	defer func() {
-		for _, b := range backups {
-			if err := os.Rename(b.modBkp, b.modPath); err != nil {
-				log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.modPath, err)
-			} else if b.sumPath != "" {
-				if err := os.Rename(b.sumBkp, b.sumPath); err != nil {
-					log.Printf("%sFailed to restore %s: %v", ErrorLogPrefix, b.sumPath, err)
-				}
+		for _, restore := range restoreActions {
+			if err := restore(); err != nil {
+				log.Printf("%sFailed to restore module file: %v", ErrorLogPrefix, err)
 			}
 		}
 	}()
+	backupModFile := func(path string) error {
+		origFile, err := filepath.EvalSymlinks(path)
+		if errors.Is(err, fs.ErrNotExist) { // may be created by the update
+			restoreActions = append(restoreActions, func() error { return removeIfExists(path) })
+			return nil
+		} else if err != nil {
+			return err
+		}
+		bkpFile, err := unusedBackupPath(origFile, nil)
+		if err != nil {
+			return err
+		}
+		var complete bool
+		restoreActions = append(restoreActions, func() error {
+			if !complete {
+				return removeIfExists(bkpFile)
+			}
+			return os.Rename(bkpFile, origFile)
+		})
+		if err := CopyFile(origFile, bkpFile); err != nil {
+			return err
+		}
+		complete = true
+		return nil
+	}
 	for _, gm := range goModPaths {
-		sum := filepath.Join(filepath.Dir(gm), "go.sum")
-		info := modBackupInfo{modPath: gm, modBkp: gm + ".bkp"}
-		if err := CopyFile(gm, info.modBkp); err != nil {
+		if err := backupModFile(gm); err != nil {
 			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
 				fmt.Errorf("backup go.mod failed: %w", err)
 		}
-		if FileExists(sum) {
-			info.sumPath = sum
-			info.sumBkp = sum + ".bkp"
-			if err := CopyFile(sum, info.sumBkp); err != nil {
-				return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
-					fmt.Errorf("backup go.sum failed: %w", err)
-			}
+		if err := backupModFile(filepath.Join(filepath.Dir(gm), "go.sum")); err != nil {
+			return projectFieldChecks1, moduleChangesReached, skippedModuleFuncs, preStorage, nil,
+				fmt.Errorf("backup go.sum failed: %w", err)
 		}
-		backups = append(backups, info)
 	}
 
 	for _, gm := range goModPaths {
diff --git a/lens/asttweak.go b/lens/asttweak.go
index 577ab1c..e0c3b1b 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -410,17 +410,9 @@ func (m *ASTModifier) backupOrigFile(path string) error {
 	if m.backedUpFiles[origFile] {
 		return nil
 	}
-	// never use a file we did not create as our backup
-	bkpFile := origFile + ".bkp"
-	for i := 1; ; i++ {
-		if !m.staleBackups[bkpFile] {
-			if _, err := os.Lstat(bkpFile); errors.Is(err, fs.ErrNotExist) {
-				break
-			} else if err != nil {
-				return fmt.Errorf("ast backup failure: %w", err)
-			}
-		}
-		bkpFile = origFile + ".bkp" + strconv.Itoa(i)
+	bkpFile, err := unusedBackupPath(origFile, m.staleBackups)
+	if err != nil {
+		return fmt.Errorf("ast backup failure: %w", err)
 	}
 	if err := CopyFile(origFile, bkpFile); err != nil {
 		// drop the incomplete copy, at the latest with the restore
@@ -443,6 +435,22 @@ func (m *ASTModifier) backupOrigFile(path string) error {
 	return nil
 }
 
+// unusedBackupPath returns the first free name for a backup of the file, so that
+// a file which we did not create is never used as our backup or overwritten by it.
+func unusedBackupPath(path string, exclude map[string]bool) (string, error) {
+	bkpFile := path + ".bkp"
+	for i := 1; ; i++ {
+		if !exclude[bkpFile] {
+			if _, err := os.Lstat(bkpFile); errors.Is(err, fs.ErrNotExist) {
+				return bkpFile, nil
+			} else if err != nil {
+				return "", err
+			}
+		}
+		bkpFile = path + ".bkp" + strconv.Itoa(i)
+	}
+}
+
 func removeIfExists(path string) error {
 	if err := os.Remove(path); err != nil && !errors.Is(err, fs.ErrNotExist) {
 		return err
-- 
2.43.0


From 98c2aa8c8ecf1b30610e5f613d0b0f7df1a285d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:57 +0000
Subject: [PATCH 12/41] fix: an analysis whose instrumentation could not be
 restored returns an error

---
 lens/astexec.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 5521ffc..03ca6cb 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -194,12 +194,15 @@ func runMonitoredTestAnalysis(env []string, maxVariableRecurse, maxFieldLen int,
 	srvChan chan *astServer, goroot, projectDir string, stableResultsStorage Storage, storage Storage,
 	moduleChanges []*ModuleFunction, callerFunctions []*CallerFunction, testFunctions []*TestFunction,
 	preUpdateExtensionConfig func(*ASTModifier) (map[uint32]*string, error),
-	postUpdateExtensionConfig func(*ASTModifier) (map[uint32]*string, error)) (int, int, error) {
+	postUpdateExtensionConfig func(*ASTModifier) (map[uint32]*string, error)) (fieldChecks int, changesReached int, resultErr error) {
 	astEditor := &ASTModifier{}
 	defer func() {
 		errs := astEditor.Restore(env)
 		if len(errs) > 0 {
 			log.Printf("%sFailed to cleanup AST change (%d): %v", ErrorLogPrefix, len(errs), errs[0])
+			if resultErr == nil { // sources left instrumented would report to the wrong points in a later run
+				resultErr = fmt.Errorf("failed to restore instrumented sources: %w", errs[0])
+			}
 		}
 	}()
 
-- 
2.43.0


From aea079c9cc16fc2e6053464b539cfc2053b2cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:31 +0000
Subject: [PATCH 13/41] fix: stored results keep which nested field a value
 belongs to

---
 lens/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/types.go b/lens/types.go
index 849967f..6cdf7b2 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -643,6 +643,9 @@ func (fv FieldValues) ID() string {
 				writeFramed([]byte(fv.Value))
 			} else {
 				hash.Write([]byte{1}) // node tag
+				// child count so a following sibling can't be taken for a child
+				binary.LittleEndian.PutUint64(lenBuf[:], uint64(len(fv.Children)))
+				hash.Write(lenBuf[:])
 				walk(fv.Children)
 			}
 		}
-- 
2.43.0


From fbf64425cba05a4e3025ddd6df6443ecfdcd2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 14/41] fix: a failed temporary copy is removed

---
 lens/engine.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lens/engine.go b/lens/engine.go
index 10d6152..fd793ae 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1022,6 +1022,13 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 		}
 	}
 
+	complete := false
+	defer func() {
+		if !complete {
+			cleanup() // the caller only cleans up what was completely set up
+		}
+	}()
+
 	ctx := context.Background()
 	newProj := filepath.Join(tempRoot, "project")
 	if err := CopyDir(ctx, e.Config.AbsProjDir, newProj, copyProgressHandler); err != nil {
@@ -1044,6 +1051,7 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
+	complete = true
 	return cleanup, nil
 }
 
-- 
2.43.0


From 7ca05f4bdd6e2d3f38a806db6006b0abd7935e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 15/41] fix: the temporary copy uses the configured module
 cache within GOPATH

---
 lens/engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index fd793ae..4c03d25 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1046,8 +1046,12 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 		}
 		e.Config.Gomodcache = newModCache
-	} else {
-		e.Config.Gomodcache = filepath.Join(newGOPATH, "pkg", "mod")
+	} else { // already copied with GOPATH, at the same place within it
+		rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache)
+		if err != nil {
+			return nil, fmt.Errorf("unable to locate GOMODCACHE: %w", err)
+		}
+		e.Config.Gomodcache = filepath.Join(newGOPATH, rel)
 	}
 	e.Config.Gopath = newGOPATH
 	fmt.Println()
-- 
2.43.0


From 35233b1ae034b1d70ae82fea5bb59c0692fc2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 16/41] fix: an error analyzing module changes carries the
 failure

---
 lens/engine.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 4c03d25..1bc1981 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -791,11 +791,11 @@ func (e *AnalysisEngine) Run() error {
 					continue
 				}
 				if strings.Contains(errStr, cm.PriorVersion) {
-					return fmt.Errorf("module %s@%s not found on disk, run: go install %s@%s",
-						cm.Name, cm.PriorVersion, cm.Name, cm.PriorVersion)
+					return fmt.Errorf("module %s@%s not found on disk, run: go install %s@%s: %w",
+						cm.Name, cm.PriorVersion, cm.Name, cm.PriorVersion, err)
 				} else if strings.Contains(errStr, cm.NewVersion) {
-					return fmt.Errorf("module %s@%s not found on disk, run: go install %s@%s",
-						cm.Name, cm.NewVersion, cm.Name, cm.NewVersion)
+					return fmt.Errorf("module %s@%s not found on disk, run: go install %s@%s: %w",
+						cm.Name, cm.NewVersion, cm.Name, cm.NewVersion, err)
 				}
 			}
 			return fmt.Errorf("error analyzing changes %w", err)
-- 
2.43.0


From 088f2852fbcfcd90632ff2a95b74e50ca2c38df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 17/41] fix: a directory copy has no links to files outside of
 it

---
 lens/engine.go | 15 +++++++++++++--
 lens/file.go   | 52 +++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 3 deletions(-)

diff --git a/lens/engine.go b/lens/engine.go
index 1bc1981..efbf632 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -1040,14 +1040,25 @@ func (e *AnalysisEngine) setupTempEnvironment() (func(), error) {
 	if err := CopyDir(ctx, e.Config.Gopath, newGOPATH, copyProgressHandler); err != nil {
 		return nil, fmt.Errorf("unable to copy GOPATH: %w", err)
 	}
-	if within, err := fileWithinDir(e.Config.Gomodcache, e.Config.Gopath); err != nil || !within {
+	// either may be reached through links
+	gopath, err := filepath.EvalSymlinks(e.Config.Gopath)
+	if err != nil {
+		return nil, fmt.Errorf("unable to locate GOPATH: %w", err)
+	}
+	gomodcache, err := filepath.EvalSymlinks(e.Config.Gomodcache)
+	if errors.Is(err, os.ErrNotExist) {
+		gopath, gomodcache = e.Config.Gopath, e.Config.Gomodcache
+	} else if err != nil {
+		return nil, fmt.Errorf("unable to locate GOMODCACHE: %w", err)
+	}
+	if within, err := fileWithinDir(gomodcache, gopath); err != nil || !within {
 		newModCache := filepath.Join(tempRoot, "gomodcache")
 		if err := CopyDir(ctx, e.Config.Gomodcache, newModCache, copyProgressHandler); err != nil {
 			return nil, fmt.Errorf("unable to copy GOMODCACHE: %w", err)
 		}
 		e.Config.Gomodcache = newModCache
 	} else { // already copied with GOPATH, at the same place within it
-		rel, err := filepath.Rel(e.Config.Gopath, e.Config.Gomodcache)
+		rel, err := filepath.Rel(gopath, gomodcache)
 		if err != nil {
 			return nil, fmt.Errorf("unable to locate GOMODCACHE: %w", err)
 		}
diff --git a/lens/file.go b/lens/file.go
index dbed586..9ad8e2d 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
+	"syscall"
 
 	"golang.org/x/sync/errgroup"
 )
@@ -94,8 +95,54 @@ func CopyFile(src, dst string) (err error) {
 	return out.Sync()
 }
 
-// CopyDir recursively copies src directory contents into dst.
+// copyLink recreates the symlink found at path within src at target within dst. A link which would lead from the copy
+// back to the copied directory is pointed into the copy instead, and one to a file elsewhere is replaced by a copy of
+// that file, so that changing files in dst never changes others.
+func copyLink(src, dst, path, target string) error {
+	link, err := os.Readlink(path)
+	if err != nil {
+		return err
+	}
+	if !filepath.IsAbs(link) {
+		if within, err := fileWithinDir(filepath.Join(filepath.Dir(path), link), src); err != nil {
+			return err
+		} else if within {
+			return os.Symlink(link, target)
+		}
+	}
+
+	info, err := os.Stat(path)
+	if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ELOOP) {
+		return os.Symlink(link, target) // leads nowhere
+	} else if err != nil {
+		return err
+	}
+	resolved, err := filepath.EvalSymlinks(path)
+	if err != nil {
+		return err
+	}
+	if within, err := fileWithinDir(resolved, src); err != nil {
+		return err
+	} else if within {
+		rel, err := filepath.Rel(src, resolved)
+		if err != nil {
+			return err
+		}
+		return os.Symlink(filepath.Join(dst, rel), target)
+	}
+	if info.Mode().IsRegular() {
+		return CopyFile(resolved, target)
+	}
+	return os.Symlink(link, target)
+}
+
+// CopyDir recursively copies src directory contents into dst. Symlinks are recreated, unless that would connect the copy
+// with files outside of it.
 func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, os.FileInfo)) error {
+	src, err := filepath.EvalSymlinks(src) // the directory may itself be reached through a link
+	if err != nil {
+		return err
+	}
 	eg, ctx := errgroup.WithContext(ctx)
 	eg.SetLimit(runtime.NumCPU() * 4)
 	err1 := filepath.Walk(src, func(path string, info os.FileInfo, err error) error {
@@ -123,6 +170,9 @@ func CopyDir(ctx context.Context, src, dst string, progressNotify func(string, o
 				if progressNotify != nil {
 					defer progressNotify(target, info)
 				}
+				if info.Mode()&os.ModeSymlink != 0 {
+					return copyLink(src, dst, path, target)
+				}
 				return CopyFile(path, target)
 			})
 			return nil
-- 
2.43.0


From 429057f78c28feb5db24c10abecfe151ce07336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:18 +0000
Subject: [PATCH 18/41] fix: reports and charts list callers in a fixed order

---
 lens/report.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lens/report.go b/lens/report.go
index a6af4ee..d6f6157 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -161,7 +161,8 @@ func PrepareReportData(changedModules []*ModuleChange, projectCallingFunctions [
 
 		// Collect performance changes
 		if len(tr.CallerTimeChanges) > 0 {
-			for callerIdent, timeChange := range tr.CallerTimeChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerTimeChanges)) {
+				timeChange := tr.CallerTimeChanges[callerIdent]
 				performanceChanges = append(performanceChanges, PerformanceChange{
 					TestFunctionIdent: tr.OriginalResult.TestFunction.FunctionIdent,
 					TestFunctionName:  tr.OriginalResult.TestFunction.FunctionName,
@@ -645,7 +646,8 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 
 			var lines int
 			var fieldChangeBuilder strings.Builder
-			for callerIdent, fieldMap := range tr.CallerFieldChanges {
+			for _, callerIdent := range slices.Sorted(maps.Keys(tr.CallerFieldChanges)) {
+				fieldMap := tr.CallerFieldChanges[callerIdent]
 				if lines > 1 {
 					fieldChangeBuilder.WriteString("\n(")
 					fieldChangeBuilder.WriteString(strconv.Itoa(len(tr.CallerFieldChanges) - lines))
-- 
2.43.0


From 2f8d7474d3b081bb48843ba2b01ffddf692771d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:10 +0000
Subject: [PATCH 19/41] fix: mutation testing leaves no script or report behind

---
 lens/mutation.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 843b17f..20440c1 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -1,9 +1,11 @@
 package lens
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"os"
+	"os/exec"
 	"path/filepath"
 	"regexp"
 	"slices"
@@ -167,6 +169,10 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 		cmd := NewProjectExec(projectDir, GoEnv(gopath, gomodcache), "go-mutesting", args...)
 		outBytes, err = cmd.CombinedOutput()
 	}
+	var exitErr *exec.ExitError
+	if err == nil || errors.As(err, &exitErr) { // remove unnecessary report.json report (for now)
+		_ = os.Remove(filepath.Join(projectDir, "report.json"))
+	}
 	if err != nil {
 		return MutationResult{}, fmt.Errorf("error running mutation tests: %w", err)
 	}
@@ -188,9 +194,6 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	killed, _ := strconv.Atoi(m[2])
 	total, _ := strconv.Atoi(m[5])
 
-	// remove unnecessary report.json report (for now)
-	go func() { _ = os.Remove(filepath.Join(projectDir, "report.json")) }()
-
 	return MutationResult{
 		MutationCount: total,
 		SquashedCount: killed,
@@ -222,11 +225,17 @@ case $GOMUTESTING_RESULT in
 	;;
 esac`
 
-func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (string, error) {
+func buildExecSelectTestsScript(fileToTests map[string][]string, packages []string) (script string, err error) {
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
 	}
+	defer func() {
+		if err != nil {
+			_ = file.Close()
+			_ = os.Remove(file.Name())
+		}
+	}()
 
 	if _, err := file.WriteString(`#!/usr/bin/env bash
 
@@ -295,7 +304,7 @@ export GOMUTESTING_RESULT=$?
 	return file.Name(), nil
 }
 
-func buildExecAllTestsScript(packages []string) (string, error) {
+func buildExecAllTestsScript(packages []string) (script string, err error) {
 	const scriptTmpl = `#!/usr/bin/env bash
 PKGS="%s"
 if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
@@ -321,11 +330,19 @@ export GOMUTESTING_RESULT=$?
 	file, err := os.CreateTemp("", "mutationexec-*.sh")
 	if err != nil {
 		return "", err
-	} else if _, err = fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
-		_ = file.Close()
+	}
+	defer func() {
+		if err != nil {
+			_ = file.Close()
+			_ = os.Remove(file.Name())
+		}
+	}()
+	if _, err := fmt.Fprintf(file, scriptTmpl, strings.Join(packages, " ")); err != nil {
+		return "", err
+	} else if err := file.Close(); err != nil {
 		return "", err
-	} else if err = file.Close(); err != nil {
+	} else if err := os.Chmod(file.Name(), 0o755); err != nil {
 		return "", err
 	}
-	return file.Name(), os.Chmod(file.Name(), 0o755)
+	return file.Name(), nil
 }
-- 
2.43.0


From 6ad008c481f1f167ef32cf352192b822688bf950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:11 +0000
Subject: [PATCH 20/41] fix: mutation testing reports sources it could not
 restore, and restores after the last edit

---
 lens/mutation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 20440c1..3d0bbe2 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -48,7 +48,7 @@ var disabledMutations = []string{
 
 // RunMutationTesting runs mutation testing targeted to the module changes.
 func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, lineScopedMutations, runTargetedTests bool,
-	moduleChanges []*ModuleFunction, testFunctions []*TestFunction) (MutationResult, error) {
+	moduleChanges []*ModuleFunction, testFunctions []*TestFunction) (result MutationResult, err error) {
 	// Regex to parse the summary line:
 	//   The mutation score is 0.750000 (6 passed, 2 failed, 0 duplicated, 0 skipped, total is 8)
 	summaryRe := regexp.MustCompile(
@@ -81,10 +81,12 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			errs := astEditor.Restore(GoEnv(gopath, gomodcache))
 			if len(errs) > 0 {
 				log.Printf("%sFailed to cleanup AST change (%d): %v", ErrorLogPrefix, len(errs), errs[0])
+				result, err = MutationResult{}, errors.Join(err, fmt.Errorf("failure restoring sources: %w", errors.Join(errs...)))
 			}
 		}()
 
 		errGrp := ErrGroupLimitCPU()
+		defer func() { _ = errGrp.Wait() }() // no edits may be pending once sources are restored
 		for _, change := range moduleChanges {
 			if len(change.LineChangeBitmap) == 0 {
 				return MutationResult{}, fmt.Errorf("bug: LineChangeBitmap not initialized: %s", change.FunctionIdent)
-- 
2.43.0


From b2a208ff79b414d8f95adb452d1e08daa875d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:12 +0000
Subject: [PATCH 21/41] fix: only the changed functions are selected for
 mutation

---
 lens/mutation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 3d0bbe2..9699169 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -156,7 +156,7 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}
 	defer func() { _ = os.Remove(execScript) }()
 
-	args := []string{"--exec", execScript, "--match", "(" + strings.Join(mutationFunctions, "|") + ")"}
+	args := []string{"--exec", execScript, "--match", "^(" + strings.Join(mutationFunctions, "|") + ")$"}
 	args = append(args, mutationFiles...)
 	if fastMutations {
 		for _, test := range disabledMutations {
-- 
2.43.0


From 32a29075ad2e25346c34d439f5cad3af38f12543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 22/41] fix: mutation script handles paths with spaces

---
 lens/mutation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 9699169..5cadb38 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -313,14 +313,14 @@ if [ -z ${MUTATE_CHANGED+x} ]; then echo "MUTATE_CHANGED is not set"; exit 1; fi
 if [ -z ${MUTATE_ORIGINAL+x} ]; then echo "MUTATE_ORIGINAL is not set"; exit 1; fi
 if [ -z ${MUTATE_PACKAGE+x} ]; then echo "MUTATE_PACKAGE is not set"; exit 1; fi
 
-export GOMUTESTING_DIFF=$(diff -u $MUTATE_ORIGINAL $MUTATE_CHANGED)
+export GOMUTESTING_DIFF=$(diff -u "$MUTATE_ORIGINAL" "$MUTATE_CHANGED")
 
-mv $MUTATE_ORIGINAL $MUTATE_ORIGINAL.mbkp || {
+mv "$MUTATE_ORIGINAL" "$MUTATE_ORIGINAL.mbkp" || {
  echo "skip: cannot rename $MUTATE_ORIGINAL (need to run with tmpcopy enabled?)" 1>&2
  exit 2
 }
 trap 'mv "$MUTATE_ORIGINAL.mbkp" "$MUTATE_ORIGINAL"' EXIT
-cp $MUTATE_CHANGED $MUTATE_ORIGINAL || { exit 2; }
+cp "$MUTATE_CHANGED" "$MUTATE_ORIGINAL" || { exit 2; }
 
 export MUTATE_TIMEOUT=${MUTATE_TIMEOUT:-30}
 
-- 
2.43.0


From 2dc381540715145a9925a9ae488b6e1fb3306e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 23/41] fix: the detected mutants are those the tool counts as
 passed

---
 lens/mutation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 5cadb38..09dc8d5 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -189,11 +189,11 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	logMsg := strings.ReplaceAll(m[0], "The mutation score is", "Mutation score:")
 	suffixIndex := strings.Index(logMsg, "failed")
 	if suffixIndex > 0 {
-		logMsg = logMsg[:suffixIndex] + "detected)"
+		logMsg = logMsg[:suffixIndex] + "alive)"
 	}
-	logMsg = strings.ReplaceAll(logMsg, "passed", "alive")
+	logMsg = strings.ReplaceAll(logMsg, "passed", "detected")
 	log.Println(logMsg)
-	killed, _ := strconv.Atoi(m[2])
+	killed, _ := strconv.Atoi(m[1]) // a mutant passes when the tests fail, see scriptFinishCheck
 	total, _ := strconv.Atoi(m[5])
 
 	return MutationResult{
-- 
2.43.0


From 0942bbb4183d56c326e012ae560b800fc540bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:14 +0000
Subject: [PATCH 24/41] fix: nothing is inserted within multi-line literals

---
 lens/asttweak.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index e0c3b1b..3b10d9d 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1966,6 +1966,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 
 	// classify every line inside the body
 	codeLine := make([]bool, bodyCloseLine-bodyOpenLine+1) // false by default
+	within := make([]bool, len(codeLine))                  // line starts within a literal or comment, nothing can be inserted before it
 	var sc scanner.Scanner
 	sc.Init(fset.File(decl.Body.Pos()), data, nil, scanner.ScanComments)
 	prevLine := bodyOpenLine
@@ -1975,6 +1976,13 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 			break
 		}
 		lno := fset.Position(pos).Line
+		if tok == token.STRING || tok == token.COMMENT {
+			for i := lno + 1; i <= min(lno+strings.Count(lit, "\n"), bodyCloseLine); i++ {
+				if i >= bodyOpenLine {
+					within[i-bodyOpenLine] = true
+				}
+			}
+		}
 		if lno < bodyOpenLine || lno > bodyCloseLine {
 			continue
 		}
@@ -2014,7 +2022,7 @@ func (m *ASTModifier) InsertFuncLines(fn *Function, cb func(i int, line string)
 	for lineNo := bodyOpenLine; lineNo <= bodyCloseLine; lineNo++ {
 		srcLine := lines[lineNo-1]
 
-		if codeLine[bodyIdx] {
+		if codeLine[bodyIdx] && !within[bodyIdx] {
 			fullIdx := lineNo - funcStartLine
 			insertText, cont := cb(fullIdx, srcLine)
 			if insertText != "" {
-- 
2.43.0


From 284e8deaf01a5d0446f5358195f41727bb9a866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:35 +0000
Subject: [PATCH 25/41] fix: changed lines are found in sources with comments

---
 lens/mutation.go | 61 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/lens/mutation.go b/lens/mutation.go
index 09dc8d5..1a48add 100644
--- a/lens/mutation.go
+++ b/lens/mutation.go
@@ -3,6 +3,9 @@ package lens
 import (
 	"errors"
 	"fmt"
+	"go/parser"
+	"go/scanner"
+	"go/token"
 	"log"
 	"os"
 	"os/exec"
@@ -85,6 +88,14 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			}
 		}()
 
+		sourceBitmaps := make(map[*ModuleFunction][]bool, len(moduleChanges)) // read before any source is edited
+		for _, change := range moduleChanges {
+			if slices.Contains(change.LineChangeBitmap, true) {
+				if sourceBitmaps[change], err = sourceLineBitmap(change); err != nil {
+					return MutationResult{}, err
+				}
+			}
+		}
 		errGrp := ErrGroupLimitCPU()
 		defer func() { _ = errGrp.Wait() }() // no edits may be pending once sources are restored
 		for _, change := range moduleChanges {
@@ -103,9 +114,10 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 			if !slices.Contains(mutationFiles, abs) {
 				mutationFiles = append(mutationFiles, abs)
 			}
+			sourceBitmap := sourceBitmaps[change]
 			errGrp.Go(func() error {
 				err := astEditor.InsertFuncLines(&change.Function, func(i int, line string) (string, bool) {
-					if i < len(change.LineChangeBitmap) && !change.LineChangeBitmap[i] {
+					if i < len(sourceBitmap) && !sourceBitmap[i] {
 						return "// mutator-disable-next-line *", true
 					}
 					return "", true
@@ -202,6 +214,53 @@ func RunMutationTesting(gopath, gomodcache, projectDir string, fastMutations, li
 	}, nil
 }
 
+// sourceLineBitmap provides the function's LineChangeBitmap for the lines in its source file. The bitmap itself is for the
+// lines of the Definition, which has no comments and may be formatted differently.
+func sourceLineBitmap(change *ModuleFunction) ([]bool, error) {
+	data, err := os.ReadFile(change.FilePath)
+	if err != nil {
+		return nil, fmt.Errorf("read failure %s: %w", change.FilePath, err)
+	}
+	fset := token.NewFileSet()
+	fileNode, err := parser.ParseFile(fset, change.FilePath, data, parser.SkipObjectResolution)
+	if err != nil {
+		return nil, fmt.Errorf("ast parse failure %s: %w", change.FilePath, err)
+	}
+	decl := findFuncDecl(fileNode, change.PackageName, change.FunctionIdent)
+	if decl == nil {
+		return change.LineChangeBitmap, nil
+	}
+	sourceTokens := tokenLines(string(data[fset.Position(decl.Pos()).Offset:fset.Position(decl.End()).Offset]))
+	definitionTokens := tokenLines(change.Definition)
+	if len(sourceTokens) == 0 || len(sourceTokens) != len(definitionTokens) {
+		return change.LineChangeBitmap, nil // unable to match definition to source
+	}
+	result := make([]bool, sourceTokens[len(sourceTokens)-1]+1)
+	for i, line := range sourceTokens {
+		defLine := definitionTokens[i]
+		if defLine >= len(change.LineChangeBitmap) || change.LineChangeBitmap[defLine] {
+			result[line] = true
+		}
+	}
+	return result, nil
+}
+
+// tokenLines provides the line index for every token in the source, excluding comments and separators.
+func tokenLines(src string) (lines []int) {
+	fset := token.NewFileSet()
+	file := fset.AddFile("", fset.Base(), len(src))
+	var sc scanner.Scanner
+	sc.Init(file, []byte(src), nil, 0)
+	for {
+		pos, tok, _ := sc.Scan()
+		if tok == token.EOF {
+			return lines
+		} else if tok != token.SEMICOLON && tok != token.COMMA {
+			lines = append(lines, file.PositionFor(pos, false).Line-1)
+		}
+	}
+}
+
 const scriptFinishCheck = `if [ "$MUTATE_DEBUG" = true ] || [ "$MUTATE_VERBOSE" = true ] ; then
 	echo "$GOMUTESTING_TEST"
 fi
-- 
2.43.0


From d25e83c95b9ef642c11d0a6d4f05ff33e232f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:03 +0000
Subject: [PATCH 26/41] fix: every return point gets a state point, also in
 else chains, labelled and select statements and at the end of functions with
 early returns

---
 lens/asttweak.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 3b10d9d..26109a8 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -647,11 +647,17 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 							return err
 						}
 					case *ast.IfStmt:
-						if err := rewriteBlock(e.Body); err != nil {
+						if err := rewriteBlock(&ast.BlockStmt{List: []ast.Stmt{e}}); err != nil {
 							return err
 						}
 					}
 				}
+			case *ast.LabeledStmt:
+				blk := &ast.BlockStmt{List: []ast.Stmt{s.Stmt}}
+				if err := rewriteBlock(blk); err != nil {
+					return err
+				}
+				s.Stmt = blk.List[0]
 			case *ast.ForStmt:
 				if err := rewriteBlock(s.Body); err != nil {
 					return err
@@ -680,22 +686,38 @@ func (m *ASTModifier) InjectFuncPointReturnStates(fn *Function) ([]uint32, error
 						cc.Body = blk.List
 					}
 				}
+			case *ast.SelectStmt:
+				for _, stmt := range s.Body.List {
+					if cc, ok := stmt.(*ast.CommClause); ok {
+						blk := &ast.BlockStmt{List: cc.Body}
+						if err := rewriteBlock(blk); err != nil {
+							return err
+						}
+						cc.Body = blk.List
+					}
+				}
 			}
 		}
 		return nil
 	}
 
+	// without results the end of the body is a return point too, unless a return is what ends it
+	implicitReturn := len(funcResultTypes) == 0
+	if n := len(funcDecl.Body.List); implicitReturn && n > 0 {
+		_, endsInReturn := funcDecl.Body.List[n-1].(*ast.ReturnStmt)
+		implicitReturn = !endsInReturn
+	}
 	if err := rewriteBlock(funcDecl.Body); err != nil {
 		return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
-	} else if !foundExplicitReturn {
+	} else if !foundExplicitReturn || implicitReturn {
 		pointID, err := m.nextPointId()
 		if err != nil {
 			return nil, err
 		}
-		pointIDs = []uint32{pointID}
+		pointIDs = append(pointIDs, pointID)
 
 		decls := visibleDeclsBefore(funcDecl, funcDecl.Body.End()-1)
-		stmt, err := buildImplicitReturnInstrumentation(&buf, pointIDs[0], decls)
+		stmt, err := buildImplicitReturnInstrumentation(&buf, pointID, decls)
 		if err != nil {
 			return nil, fmt.Errorf("ast rewrite failure %s: %w", fn.FilePath, err)
 		}
@@ -1326,7 +1348,7 @@ func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 		// If a block-like node ends before retPos, nothing inside it is visible
 		switch n.(type) {
 		case *ast.BlockStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt,
-			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause:
+			*ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.CaseClause, *ast.CommClause:
 			if n.End() < retPos {
 				return false // prune subtree
 			}
-- 
2.43.0


From 950488dfcd9bd9dbf7bb99e4ace27bf9f26f2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:24 +0000
Subject: [PATCH 27/41] fix: a module listed twice keeps its changed functions

---
 lens/module.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lens/module.go b/lens/module.go
index bcd5b72..4a467d1 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -109,6 +109,9 @@ func AnalyzeModuleChanges(gomodcache string, includeTransitive bool, projectDir
 	newVersionPackages := make(map[string][]*packages.Package, len(moduleChanges))
 
 	for _, mc := range moduleChanges {
+		if visited[mc.Name] {
+			continue // workspace modules may update the same module, the first result is retained
+		}
 		cf, pkgs, recursiveCalls, err :=
 			analyzeModuleChangesInternal(includeTransitive, mc, gomodcache, projectDir, neighbourRadius, visited)
 		if err != nil {
-- 
2.43.0


From fdb6dcf2faee08dca35d58813c6335af59a231f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:24 +0000
Subject: [PATCH 28/41] fix: updates of a workspace are listed in the same
 order every time

---
 lens/module.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lens/module.go b/lens/module.go
index 4a467d1..fb1869b 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -595,7 +595,8 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return nil, err
 	}
 
-	dirSet := bulk.SliceToSet(oldDirs, newDirs)
+	dirs := bulk.MapKeysSlice(bulk.SliceToSet(oldDirs, newDirs))
+	slices.Sort(dirs)
 	newRoot := filepath.Dir(newWorkPath)
 
 	// resolve turns a workspace-relative entry into an absolute go.mod path
@@ -606,8 +607,8 @@ func DiffModulesFromGoWorkFiles(projectDir, newWorkPath string) ([]*ModuleChange
 		return filepath.Clean(filepath.Join(root, dir, "go.mod"))
 	}
 
-	all := make([]*ModuleChange, 0, len(dirSet))
-	for dir := range dirSet {
+	all := make([]*ModuleChange, 0, len(dirs))
+	for _, dir := range dirs {
 		oldGM := resolve(projectDir, dir)
 		newGM := resolve(newRoot, dir)
 
-- 
2.43.0


From d2123b802b3e4a81209ee6c2fff5243dfcb9a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:24 +0000
Subject: [PATCH 29/41] fix: which version of a transitive dependency is
 analysed does not depend on map order

---
 lens/module.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lens/module.go b/lens/module.go
index fb1869b..fa9f024 100644
--- a/lens/module.go
+++ b/lens/module.go
@@ -245,7 +245,10 @@ func analyzeModuleChangesInternal(includeTransitive bool, mc *ModuleChange, gomo
 		return nil, nil, nil, fmt.Errorf("could not read project dependencies: %w", err)
 	}
 	var recursiveCalls []moduleChangeAnalyzeFunc
-	for dep, newDepVer := range newDeps {
+	depNames := bulk.MapKeysSlice(newDeps)
+	slices.Sort(depNames)
+	for _, dep := range depNames {
+		newDepVer := newDeps[dep]
 		if oldDepVer, existed := oldDeps[dep]; !existed || oldDepVer != newDepVer {
 			if projVer, ok := projectDeps[dep]; ok && projVer != newDepVer {
 				recursiveCalls = append(recursiveCalls, func() ([]*ModuleFunction, []*packages.Package, []moduleChangeAnalyzeFunc, error) {
-- 
2.43.0


From 0fcfeb2555a6f4c2c2213d9381d78a16325d884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:29 +0000
Subject: [PATCH 30/41] fix: names that begin with two dots are not outside of
 their directory

---
 lens/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lens/file.go b/lens/file.go
index 9ad8e2d..91e8bef 100644
--- a/lens/file.go
+++ b/lens/file.go
@@ -42,8 +42,8 @@ func fileWithinDir(filePath, dirPath string) (bool, error) {
 		return false, err
 	}
 
-	// If rel starts with "..", file is outside the directory
-	if strings.HasPrefix(rel, "..") || strings.HasPrefix(filepath.ToSlash(rel), "../") {
+	// If rel starts with a ".." element, file is outside the directory
+	if rel == ".." || strings.HasPrefix(filepath.ToSlash(rel), "../") {
 		return false, nil
 	}
 	return true, nil
-- 
2.43.0


From c73ffc19df20762e08f07071ec06aff0af3bc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 31/41] fix: report the changed functions of a module the
 project does not reach

When no project function reaches a changed module function the engine wrote
the report with a changed function count of zero, as if the update had not
changed anything, although the changes had been found.
---
 lens/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/engine.go b/lens/engine.go
index efbf632..e115fd6 100644
--- a/lens/engine.go
+++ b/lens/engine.go
@@ -837,7 +837,7 @@ func (e *AnalysisEngine) Run() error {
 		log.Printf("Module changes are not reachable by project, exiting")
 		return e.ReportWriter.WriteReportFiles(e.Config.ReportJsonFile, e.Config.ReportChartsFile,
 			startTime, analysisEndTime.Sub(startTime), 0, 0, 0,
-			initialModules.changedModules, checkedModuleNames, 0, 0, 0,
+			initialModules.changedModules, checkedModuleNames, len(moduleChanges), 0, 0,
 			0, callingFunctions, nil,
 			0, 0, nil, MutationResult{})
 	}
-- 
2.43.0


From 78ef19750b4b1b3e2a477c2ce5ed702b8f226ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 32/41] fix: show a slowdown in the chart as a positive
 percentage

A run that took half as long again was labelled "-50% slower".
---
 lens/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lens/report.go b/lens/report.go
index d6f6157..9c2a728 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -623,7 +623,7 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 		if totalPostTime <= totalPreTime { // improvement, ratio <= 1
 			return charts.FormatValueHumanize(100.0-(ratio*100.0), 1, false) + "% faster"
 		} else {
-			return charts.FormatValueHumanize((1-ratio)*100.0, 1, false) + "% slower"
+			return charts.FormatValueHumanize((ratio-1)*100.0, 1, false) + "% slower"
 		}
 	}
 	if err := down2.BarChart(down2Opt); err != nil {
-- 
2.43.0


From 40782b18edba28a366467540336b7c32e6d49226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 33/41] fix: do not label empty charts with NaN%

Without changed functions, compared fields or mutations the charts showed
"NaN%".
---
 lens/report.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lens/report.go b/lens/report.go
index 9c2a728..c6c3e09 100644
--- a/lens/report.go
+++ b/lens/report.go
@@ -16,6 +16,9 @@ import (
 
 const bottomTableMaxRecords = 10
 
+// noPercentStr labels a chart which has nothing to show a percentage of.
+const noPercentStr = "None"
+
 // chart color constants
 var greenTextColor = charts.ColorGreenAlt3
 var orangeTextColor = charts.ColorOrangeAlt1.WithAdjustHSL(0, .2, 0)
@@ -507,6 +510,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topLeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(topLeftOpt.Theme, topLeftOpt.SeriesList)
 	topLeftOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(moduleChangeFuncCount)
+		if total == 0 {
+			return noPercentStr
+		}
 		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
 	}
 	if err := topLeft.BarChart(topLeftOpt); err != nil {
@@ -535,6 +541,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	topRightOpt.SeriesList[2].Label.FontStyle.FontColor = firstValueSeriesRankColor(topRightOpt.Theme, topRightOpt.SeriesList)
 	topRightOpt.SeriesList[2].Label.ValueFormatter = func(f float64) string {
 		total := float64(reachableModuleFunctionCount)
+		if total == 0 {
+			return noPercentStr
+		}
 		return charts.FormatValueHumanize(100.0*(total-f)/total, 1, false) + "%"
 	}
 	if err := topRight.BarChart(topRightOpt); err != nil {
@@ -557,6 +566,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	down1LeftOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(down1LeftOpt.Theme, down1LeftOpt.SeriesList)
 	down1LeftOpt.SeriesList[1].Label.ValueFormatter = func(diff float64) string {
 		same := float64(testFieldSameCount)
+		if same+diff == 0 {
+			return noPercentStr
+		}
 		percent := 100.0 * same / (same + diff)
 		if diff > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some field diffs
@@ -581,6 +593,9 @@ func renderChartsToPainter(p *charts.Painter, moduleName, startVersion, changeVe
 	down1RightOpt.SeriesList[1].Label.FontStyle.FontColor = firstValueSeriesRankColor(down1RightOpt.Theme, down1RightOpt.SeriesList)
 	down1RightOpt.SeriesList[1].Label.ValueFormatter = func(f float64) string {
 		total := float64(globalMutations.MutationCount)
+		if total == 0 {
+			return noPercentStr
+		}
 		percent := 100.0 * (total - f) / total
 		if f > 0 && percent > 99.9 {
 			percent = 99.9 // ensure we don't show 100% when there were some surviving mutations
-- 
2.43.0


From bb5f35d78acdd65f94b50de5d8f3a68eb56194ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:47 +0000
Subject: [PATCH 34/41] fix: values that share an address are not cycles of
 each other

---
 lens/astclient.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index c63bc3a..48c28a9 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -239,7 +239,15 @@ func (lw *lensMsgEncoder) writeStackFrames(frames []lensMonitorStackFrame) {
 	}
 }
 
-func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[uintptr]string, parentPath string) {
+// lensVisit identifies a value for cycle detection. The address alone is not sufficient: a struct and its first field,
+// or slices over the same backing array, share an address without being the same value.
+type lensVisit struct {
+	addr uintptr
+	typ  reflect.Type
+	len  int
+}
+
+func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, visited map[lensVisit]string, parentPath string) {
 	var valuePath string
 	if parentPath == "" {
 		valuePath = name
@@ -254,16 +262,16 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	// This catches self-referential pointers like n.Next = n
 	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensVisit]string)
 		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
+		visit := lensVisit{addr: v.Pointer(), typ: v.Type()}
+		if cycleName, ok := visited[visit]; ok {
 			lw.writeString(v.Type().String())
 			lw.writeByte(lensTypeTagString)
 			lw.writeString("<cycle:" + cycleName + ">")
 			return
 		}
-		visited[addr] = valuePath
+		visited[visit] = valuePath
 	}
 
 	// Unwrap interfaces and pointers
@@ -299,20 +307,23 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 		}
 	}
 
-	// Cycle detection
-	if vKind == reflect.Pointer || vKind == reflect.Map || vKind == reflect.Slice ||
+	// Cycle detection, empty slices can't be part of a cycle and may share an address with unrelated values
+	if vKind == reflect.Pointer || vKind == reflect.Map || (vKind == reflect.Slice && v.Len() > 0) ||
 		vKind == reflect.Func || vKind == reflect.Chan {
 		if visited == nil {
-			visited = make(map[uintptr]string)
+			visited = make(map[lensVisit]string)
+		}
+		visit := lensVisit{addr: v.Pointer(), typ: vType}
+		if vKind == reflect.Slice {
+			visit.len = v.Len()
 		}
-		addr := v.Pointer()
-		if cycleName, ok := visited[addr]; ok {
+		if cycleName, ok := visited[visit]; ok {
 			lw.writeString(vType.String())
 			lw.writeByte(lensTypeTagString)
 			lw.writeString("<cycle:" + cycleName + ">")
 			return
 		}
-		visited[addr] = valuePath
+		visited[visit] = valuePath
 	}
 
 	lw.writeString(vType.String())
@@ -410,7 +421,7 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 }
 
 // streamValueSlice handles slice/array encoding with optimized paths for primitive element types.
-func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[uintptr]string, valuePath string) {
+func (lw *lensMsgEncoder) streamValueSlice(v reflect.Value, vType reflect.Type, depth int, visited map[lensVisit]string, valuePath string) {
 	length := v.Len()
 	if length > lensMonitorFieldMaxLen {
 		length = lensMonitorFieldMaxLen
-- 
2.43.0


From 58ac20445164e4d7dfd0c909530bff7fbc53fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:17 +0000
Subject: [PATCH 35/41] fix: detect cycles through interfaces and nested
 pointers

---
 lens/astclient.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/lens/astclient.go b/lens/astclient.go
index 48c28a9..f67dfc2 100644
--- a/lens/astclient.go
+++ b/lens/astclient.go
@@ -258,22 +258,6 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 	// Write name first (always needed)
 	lw.writeString(name)
 
-	// Cycle detection for pointers BEFORE unwrapping
-	// This catches self-referential pointers like n.Next = n
-	if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
-		if visited == nil {
-			visited = make(map[lensVisit]string)
-		}
-		visit := lensVisit{addr: v.Pointer(), typ: v.Type()}
-		if cycleName, ok := visited[visit]; ok {
-			lw.writeString(v.Type().String())
-			lw.writeByte(lensTypeTagString)
-			lw.writeString("<cycle:" + cycleName + ">")
-			return
-		}
-		visited[visit] = valuePath
-	}
-
 	// Unwrap interfaces and pointers
 	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer) {
 		if v.IsNil() {
@@ -281,6 +265,21 @@ func (lw *lensMsgEncoder) streamField(name string, v reflect.Value, depth int, v
 			lw.writeByte(lensTypeTagNil)
 			return
 		}
+		// Cycle detection for every pointer BEFORE following it
+		// This catches self-referential pointers like n.Next = n, including those stored in an interface
+		if v.Kind() == reflect.Pointer {
+			if visited == nil {
+				visited = make(map[lensVisit]string)
+			}
+			visit := lensVisit{addr: v.Pointer(), typ: v.Type()}
+			if cycleName, ok := visited[visit]; ok {
+				lw.writeString(v.Type().String())
+				lw.writeByte(lensTypeTagString)
+				lw.writeString("<cycle:" + cycleName + ">")
+				return
+			}
+			visited[visit] = valuePath
+		}
 		v = v.Elem()
 	}
 	if !v.IsValid() {
-- 
2.43.0


From 90d93dfa46d025abe76bfd0b3212796eb3b46bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:50 +0000
Subject: [PATCH 36/41] fix: a map key with a dot is not the path of another
 field

---
 lens/types.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lens/types.go b/lens/types.go
index 6cdf7b2..7e45a59 100644
--- a/lens/types.go
+++ b/lens/types.go
@@ -592,16 +592,19 @@ func (sf *StackFrame) Equal(other *StackFrame) bool {
 	return sf.File == other.File && sf.Line == other.Line && sf.Function == other.Function
 }
 
+var flatNameEscaper = strings.NewReplacer(`\`, `\\`, `.`, `\.`)
+
 // FlattenFieldValues converts the hierarchical FieldValues tree back into the
-// flat dot-separated key => value form.
+// flat dot-separated key => value form. Dots within a name (map keys may contain them) are escaped so that
+// the key of a value is never the path to another.
 func (fv FieldValues) FlattenFieldValues() map[string]string {
 	flat := make(map[string]string)
 	var walk func(prefix string, cur FieldValues)
 	walk = func(prefix string, cur FieldValues) {
 		for name, fv := range cur {
-			key := name
+			key := flatNameEscaper.Replace(name)
 			if prefix != "" {
-				key = prefix + "." + name
+				key = prefix + "." + key
 			}
 
 			if len(fv.Children) == 0 { // leaf
-- 
2.43.0


From d6cb1394f26a40a02b3f9db2aafc63974c68498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:35 +0000
Subject: [PATCH 37/41] fix: calls are compared in the order they were made,
 not the order their messages arrived

A message the client has given up on can be processed after later ones. The
stable values kept for it, and the call it was compared with, were chosen by
arrival order, so that unchanged values were reported as unstable.
---
 lens/astexec.go | 77 +++++++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 47 deletions(-)

diff --git a/lens/astexec.go b/lens/astexec.go
index 03ca6cb..bc33c68 100644
--- a/lens/astexec.go
+++ b/lens/astexec.go
@@ -777,51 +777,24 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 		}
 
 		// Filter by stable results if present (memory optimization: only record fields that vary between runs)
-		applyStableFilter := func(stable map[string][]CallFrame, recorded map[string][]CallFrame) {
+		applyStableFilter := func(stable map[string][]CallFrame) {
 			if t.stableResults == nil || stable == nil {
 				return
 			}
-			frames, ok := stable[storageKey]
 			var bb bytes.Buffer
-			if !ok {
-				for k := range fieldMap {
-					delete(fieldMap, k)
-				}
-				return
-			}
-
-			pStack := ProjectFrames(stack)
-			pKey := StackFramesKey(&bb, pStack)
+			pKey := StackFramesKey(&bb, ProjectFrames(stack))
 
-			var targetOccur int
-			for _, cf := range recorded[storageKey] {
+			// messages can arrive out of order, so which of the calls with this stack it is gets decided when comparing
+			allowed := make(map[string]bool)
+			for _, cf := range stable[storageKey] {
 				if StackFramesKey(&bb, ProjectFrames(cf.Stack)) == pKey {
-					targetOccur++
-				}
-			}
-
-			idx := -1
-			var occ int
-			for i := range frames {
-				if StackFramesKey(&bb, ProjectFrames(frames[i].Stack)) == pKey {
-					if occ == targetOccur {
-						idx = i
-						break
+					for fname := range cf.FieldValues {
+						allowed[fname] = true
 					}
-					occ++
-				}
-			}
-
-			if idx < 0 {
-				for k := range fieldMap {
-					delete(fieldMap, k)
 				}
-				return
 			}
-
-			allowed := frames[idx].FieldValues
 			for fname := range fieldMap {
-				if _, ok := allowed[fname]; !ok {
+				if !allowed[fname] {
 					delete(fieldMap, fname)
 				}
 			}
@@ -848,7 +821,7 @@ func (t *testMonitor) HandleFuncPointState(msg LensMonitorMessagePointState) {
 			defer t.callerFramesMu.Unlock()
 
 			if t.stableResults != nil {
-				applyStableFilter(t.stableResults.caller, t.callerFrames)
+				applyStableFilter(t.stableResults.caller)
 			}
 			recordedAppend(t.callerFrames)
 		}
@@ -918,6 +891,13 @@ func (t *testMonitor) HandleFuncPointPanic(msg LensMonitorMessagePointPanic) {
 func (t *testMonitor) makeTestResult(tFunc *TestFunction, failure bool) TestResult {
 	t.wait.Wait()
 
+	for _, frames := range t.callerFrames {
+		sortFramesByTime(frames)
+	}
+	for _, frames := range t.extensionFrames {
+		sortFramesByTime(frames)
+	}
+
 	return TestResult{
 		TestFunction:     tFunc.Minimum(),
 		CallerResults:    t.callerFrames,
@@ -954,6 +934,18 @@ func (t *testMonitor) getModuleChangesReached() (out []*string) {
 	return
 }
 
+// sortFramesByTime sorts by client time, messages may have arrived in another order.
+func sortFramesByTime(frames []CallFrame) {
+	slices.SortStableFunc(frames, func(a, b CallFrame) int {
+		if a.TimeMillis < b.TimeMillis {
+			return -1
+		} else if a.TimeMillis > b.TimeMillis {
+			return 1
+		}
+		return 0
+	})
+}
+
 // testResultStableFields compares two TestResult and returns only field values
 // that were exactly the same between the two runs.
 func testResultStableFields(r1, r2 TestResult) TestResult {
@@ -968,17 +960,8 @@ func testResultStableFields(r1, r2 TestResult) TestResult {
 				continue
 			}
 
-			// sort both frame slices by client time for the most reliable ordering
-			callFrameSortFunc := func(a, b CallFrame) int {
-				if a.TimeMillis < b.TimeMillis {
-					return -1
-				} else if a.TimeMillis > b.TimeMillis {
-					return 1
-				}
-				return 0
-			}
-			slices.SortStableFunc(frames1, callFrameSortFunc)
-			slices.SortStableFunc(frames2, callFrameSortFunc)
+			sortFramesByTime(frames1)
+			sortFramesByTime(frames2)
 
 			frames2ByKey := bulk.SliceToGroupsBy(func(f CallFrame) string {
 				stack := f.Stack
-- 
2.43.0


From e253622cd2c091c339a6d65f3a41d6a211749d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:51 +0000
Subject: [PATCH 38/41] fix: deferred and goroutine calls keep their arguments
 when a point precedes them

InjectFuncPointBeforeCall put 'defer F(x)' and 'go F(x)' inside a function
literal, so the arguments were evaluated when the literal ran instead of at
the statement, and a recover in a deferred F no longer worked. The call stays
in its statement now. Function literals among the extracted arguments are
instrumented for every kind of statement.
---
 lens/asttweak.go | 94 +++++++++++++++++-------------------------------
 1 file changed, 33 insertions(+), 61 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 26109a8..4563a18 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -865,7 +865,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 
 	rewriteBlock = func(blk *ast.BlockStmt) error {
 		newStmts := make([]ast.Stmt, 0, len(blk.List))
-		for _, st := range blk.List {
+		for i, st := range blk.List {
 			if isPrevStmtSendLensPoint(newStmts, len(newStmts)) { // Skip if already instrumented
 				newStmts = append(newStmts, st)
 				continue
@@ -882,82 +882,39 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 			case *ast.ReturnStmt:
 				matchedCall, metadata = findMatchingCall(stmt)
 			case *ast.DeferStmt:
-				if metadata, inject := shouldInject(stmt.Call); inject {
-					// Special handling for defer: wrap in inline function to preserve semantics
+				if i+1 < len(blk.List) && isDeferSendLensPoint(blk.List[i+1]) {
+					break // already instrumented
+				}
+				if metadata, inject := shouldInject(stmt.Call); inject && !isDeferSendLensPoint(st) {
 					pointID, err := m.nextPointId()
 					if err != nil {
 						return err
 					}
 					pointMap[pointID] = metadata
 
-					// Build instrumentation for the deferred call
+					// The call stays deferred itself, with its arguments evaluated where it is deferred (and a
+					// recover inside it kept working). The point is deferred after it, to run right before it.
 					preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, stmt.Call, filePackageNames)
 					if err != nil {
 						return err
 					}
-
-					// Wrap in inline function: defer func() { preStmts...; call }()
-					blockList := make([]ast.Stmt, 0, len(preStmts)+1)
-					blockList = append(blockList, preStmts...)
-					// Add the call as the last statement (already modified by buildCallInstrumentationWithArgs)
-					blockList = append(blockList, &ast.ExprStmt{X: stmt.Call})
-
-					// Replace the defer's call with the inline function
-					stmt.Call = &ast.CallExpr{
-						Fun: &ast.FuncLit{
-							Type: &ast.FuncType{Params: &ast.FieldList{}},
-							Body: &ast.BlockStmt{List: blockList},
-						},
-					}
-
-					// Recurse into any FuncLits in the preStmts (extracted arguments).
-					// These contain FuncLits from the original call arguments that may have
-					// target calls inside them. We do this here rather than using
-					// rewriteFuncLitsIn on the whole statement to avoid re-instrumenting
-					// the call we just wrapped.
-					for _, preStmt := range preStmts {
+					sendCall := preStmts[len(preStmts)-1].(*ast.ExprStmt).X.(*ast.CallExpr)
+					preStmts = preStmts[:len(preStmts)-1]
+					newStmts = append(append(newStmts, preStmts...), st, &ast.DeferStmt{Call: sendCall})
+					for _, preStmt := range preStmts { // FuncLits in the extracted arguments
 						if err := rewriteFuncLitsIn(preStmt); err != nil {
 							return err
 						}
 					}
-
-					newStmts = append(newStmts, st)
-					continue // Skip rewriteFuncLitsIn on the whole statement
-				}
-			case *ast.GoStmt:
-				if metadata, inject := shouldInject(stmt.Call); inject {
-					// Same transformation as DeferStmt
-					pointID, err := m.nextPointId()
-					if err != nil {
+					if err := rewriteFuncLitsIn(st); err != nil {
 						return err
 					}
-					pointMap[pointID] = metadata
-
-					preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, stmt.Call, filePackageNames)
-					if err != nil {
-						return err
-					}
-
-					blockList := make([]ast.Stmt, 0, len(preStmts)+1)
-					blockList = append(blockList, preStmts...)
-					blockList = append(blockList, &ast.ExprStmt{X: stmt.Call})
-
-					stmt.Call = &ast.CallExpr{
-						Fun: &ast.FuncLit{
-							Type: &ast.FuncType{Params: &ast.FieldList{}},
-							Body: &ast.BlockStmt{List: blockList},
-						},
-					}
-
-					// Recurse into any FuncLits in the preStmts (same as DeferStmt)
-					for _, preStmt := range preStmts {
-						if err := rewriteFuncLitsIn(preStmt); err != nil {
-							return err
-						}
-					}
-
-					newStmts = append(newStmts, st)
-					continue // Skip rewriteFuncLitsIn on the whole statement
+					continue
+				}
+			case *ast.GoStmt:
+				// The arguments are evaluated here, so this is also where the point is sent
+				if metadata2, inject := shouldInject(stmt.Call); inject {
+					matchedCall, metadata = stmt.Call, metadata2
 				}
 			case *ast.DeclStmt:
 				// Handle var x = call()
@@ -1026,6 +983,11 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 					return err
 				}
 
+				for _, preStmt := range preStmts { // FuncLits in the extracted arguments
+					if err := rewriteFuncLitsIn(preStmt); err != nil {
+						return err
+					}
+				}
 				// Append instrumentation statements directly to maintain variable scope
 				// Do not wrap in a block as this would scope any variables declared in st
 				newStmts = append(newStmts, preStmts...)
@@ -1309,6 +1271,16 @@ func isPrevStmtSendLensPoint(stmts []ast.Stmt, idx int) bool {
 	return ok && ident.Name == "sendLensPointStateMessage"
 }
 
+// isDeferSendLensPoint reports whether stmt defers a SendLensPointStateMessage call.
+func isDeferSendLensPoint(stmt ast.Stmt) bool {
+	d, ok := stmt.(*ast.DeferStmt)
+	if !ok {
+		return false
+	}
+	ident, ok := d.Call.Fun.(*ast.Ident)
+	return ok && ident.Name == "sendLensPointStateMessage"
+}
+
 // visibleDeclsBefore collects visible identifiers before retPos using a syntactic scan.
 func visibleDeclsBefore(fn *ast.FuncDecl, retPos token.Pos) []declInfo {
 	if fn == nil {
-- 
2.43.0


From 8247920f51eb4ba97eb1564fac5e7846e9cc38d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 39/41] fix: evaluate a call in a selector argument only once

For an argument like f().N InjectFuncPointBeforeCall snapshotted the selector
and left it in the call as well, which called f twice.
---
 lens/asttweak.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 4563a18..901eb7a 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1162,7 +1162,7 @@ func buildCallInstrumentationWithArgs(buf *bytes.Buffer, pointID uint32, call *a
 
 		// SelectorExpr (pkg.Const or obj.Field): capture but don't replace
 		// These often involve implicit type conversions (e.g., syscall.SYS_IOCTL -> uintptr)
-		if sel, ok := origArg.(*ast.SelectorExpr); ok {
+		if sel, ok := origArg.(*ast.SelectorExpr); ok && !evaluatedOnce(sel) {
 			snaps = append(snaps, makeSnapshotLitWithCustomName(fmt.Sprintf("arg%d", i), sel))
 			continue
 		}
@@ -1851,6 +1851,20 @@ func exprContainsTypeShadow(expr ast.Expr, typ ast.Expr) bool {
 	return foundShadow
 }
 
+// evaluatedOnce reports whether evaluating expr twice may differ from doing so once: it holds a call, a receive or a literal.
+func evaluatedOnce(expr ast.Expr) (found bool) {
+	ast.Inspect(expr, func(n ast.Node) bool {
+		switch e := n.(type) {
+		case *ast.CallExpr, *ast.CompositeLit:
+			found = true
+		case *ast.UnaryExpr:
+			found = found || e.Op == token.ARROW
+		}
+		return !found
+	})
+	return found
+}
+
 // isConstantExpr reports whether expr consists only of compile-time constants.
 func isConstantExpr(expr ast.Expr) bool {
 	switch e := expr.(type) {
-- 
2.43.0


From 1d424c221ef70610d2d940a707b707a5578b9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 40/41] fix: keep addressable receivers in calls that a point
 precedes

InjectFuncPointBeforeCall called the method on a copy of a receiver like
s.field, so that what a pointer method changes was lost.
---
 lens/asttweak.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index 901eb7a..fab63ed 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -1140,11 +1140,15 @@ func buildCallInstrumentationWithArgs(buf *bytes.Buffer, pointID uint32, call *a
 				Tok: token.DEFINE,
 				Rhs: []ast.Expr{origRecv},
 			})
-			// Create a new SelectorExpr with the synthetic receiver instead of modifying the original
-			// to avoid position-related formatting issues. Use a fresh Sel identifier with no position.
-			call.Fun = &ast.SelectorExpr{
-				X:   recvIdent,
-				Sel: ast.NewIdent(sel.Sel.Name),
+			// Only a receiver that must not be evaluated twice is replaced, a pointer method would otherwise
+			// change the copy instead of the original
+			if evaluatedOnce(origRecv) {
+				// Create a new SelectorExpr with the synthetic receiver instead of modifying the original
+				// to avoid position-related formatting issues. Use a fresh Sel identifier with no position.
+				call.Fun = &ast.SelectorExpr{
+					X:   recvIdent,
+					Sel: ast.NewIdent(sel.Sel.Name),
+				}
 			}
 			snaps = append(snaps, makeSnapshotLitWithCustomName("recv", recvIdent))
 		}
-- 
2.43.0


From d1de3e7f407bda33a34eef78d8ddd96fbe27b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:40 +0000
Subject: [PATCH 41/41] fix: instrument conditional calls where they are
 evaluated

InjectFuncPointBeforeCall evaluated the arguments of a call before the
statement, also if the call is in the condition of a loop (evaluated in every
round), in the right operand of && or || (perhaps not evaluated at all), or in
a statement whose init declares what the arguments use (which did not
compile).
---
 lens/asttweak.go | 68 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/lens/asttweak.go b/lens/asttweak.go
index fab63ed..cc5f5cd 100644
--- a/lens/asttweak.go
+++ b/lens/asttweak.go
@@ -874,6 +874,8 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 			// Check if this statement contains a matching call (excluding nested blocks)
 			var matchedCall *ast.CallExpr
 			var metadata any
+			var condSlot *ast.Expr // set if the call must be instrumented where this condition is evaluated
+			var initSlot *ast.Stmt // set if the call may use what this statement declares
 			switch stmt := st.(type) {
 			case *ast.ExprStmt:
 				matchedCall, metadata = findMatchingCall(stmt.X)
@@ -929,6 +931,9 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 				if matchedCall == nil && stmt.Cond != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Cond)
+					if stmt.Init != nil {
+						condSlot = &stmt.Cond
+					}
 				}
 			case *ast.ForStmt:
 				// Handle for i := call(); condition; post
@@ -937,6 +942,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 				if matchedCall == nil && stmt.Cond != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Cond)
+					condSlot = &stmt.Cond
 				}
 				// Post statement handled separately in recursion section
 			case *ast.RangeStmt:
@@ -949,6 +955,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 				if matchedCall == nil && stmt.Tag != nil {
 					matchedCall, metadata = findMatchingCall(stmt.Tag)
+					initSlot = &stmt.Init
 				}
 			case *ast.TypeSwitchStmt:
 				// Handle switch x := call().(type) and switch call().(type) { }
@@ -957,6 +964,7 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 				if matchedCall == nil {
 					matchedCall, metadata = findMatchingCall(stmt.Assign)
+					initSlot = &stmt.Init
 				}
 			case *ast.SelectStmt:
 				// Handle select { case ch <- call(): ... }
@@ -978,6 +986,9 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 				}
 				pointMap[pointID] = metadata
 
+				if operand := shortCircuitOperand(st, matchedCall); operand != nil {
+					condSlot = operand
+				}
 				preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, matchedCall, filePackageNames)
 				if err != nil {
 					return err
@@ -988,10 +999,24 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 						return err
 					}
 				}
-				// Append instrumentation statements directly to maintain variable scope
-				// Do not wrap in a block as this would scope any variables declared in st
-				newStmts = append(newStmts, preStmts...)
-				newStmts = append(newStmts, st)
+				switch {
+				case condSlot != nil: // evaluated never, once or repeatedly, so the instrumentation has to be as well
+					*condSlot = wrapCondition(*condSlot, preStmts)
+					newStmts = append(newStmts, st)
+				case initSlot != nil && *initSlot != nil: // what is declared must precede the instrumentation
+					init := *initSlot
+					*initSlot = nil
+					if err := rewriteFuncLitsIn(init); err != nil {
+						return err
+					}
+					list := append([]ast.Stmt{init}, preStmts...)
+					newStmts = append(newStmts, &ast.BlockStmt{List: append(list, st)})
+				default:
+					// Append instrumentation statements directly to maintain variable scope
+					// Do not wrap in a block as this would scope any variables declared in st
+					newStmts = append(newStmts, preStmts...)
+					newStmts = append(newStmts, st)
+				}
 			} else {
 				newStmts = append(newStmts, st)
 			}
@@ -1027,10 +1052,15 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 							return err
 						}
 						pointMap[pointID] = postMetadata
+						operand := shortCircuitOperand(s.Post, postCall)
 						preStmts, err := buildCallInstrumentationWithArgs(&buf, pointID, postCall, filePackageNames)
 						if err != nil {
 							return err
 						}
+						if operand != nil {
+							*operand = wrapCondition(*operand, preStmts)
+							preStmts = nil
+						}
 
 						origPost := s.Post
 						blockList := append(make([]ast.Stmt, 0, len(preStmts)+1), preStmts...)
@@ -1102,6 +1132,36 @@ func (m *ASTModifier) InjectFuncPointBeforeCall(fn *Function, shouldInject func(
 	return pointMap, nil
 }
 
+// shortCircuitOperand returns the innermost right operand of && or || in node that holds call, nil if there is none.
+func shortCircuitOperand(node ast.Node, call *ast.CallExpr) (operand *ast.Expr) {
+	ast.Inspect(node, func(n ast.Node) bool {
+		if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
+			ast.Inspect(b.Y, func(n ast.Node) bool {
+				if n == ast.Node(call) {
+					operand = &b.Y
+				}
+				return true
+			})
+		}
+		return true
+	})
+	return operand
+}
+
+// wrapCondition returns an expression that runs preStmts right before it evaluates cond.
+func wrapCondition(cond ast.Expr, preStmts []ast.Stmt) ast.Expr {
+	result := &ast.CallExpr{Fun: ast.NewIdent("bool"), Args: []ast.Expr{cond}}
+	return &ast.CallExpr{
+		Fun: &ast.FuncLit{
+			Type: &ast.FuncType{
+				Params:  &ast.FieldList{},
+				Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}},
+			},
+			Body: &ast.BlockStmt{List: append(preStmts, &ast.ReturnStmt{Results: []ast.Expr{result}})},
+		},
+	}
+}
+
 // buildCallInstrumentationWithArgs creates a statement that sends the call's receiver (if any) and argument values to the monitoring server.
 // This reduces memory overhead by capturing only the parameters passed to the call rather than all visible variables.
 //
-- 
2.43.0

