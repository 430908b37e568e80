From 73b267a95a03884baec325a5ce39d6c4c0484654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 01/15] fix: skip unused GC roots and reject unknown sub-record
 types

---
 internal/core/tags.go   |  8 ++++++++
 internal/dump/parser.go | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/internal/core/tags.go b/internal/core/tags.go
index f94332f..0de2200 100644
--- a/internal/core/tags.go
+++ b/internal/core/tags.go
@@ -36,12 +36,16 @@ const (
 	HprofGcRootJniGlobalType   SubRecordType = 0x01
 	HprofGcRootJniLocalType    SubRecordType = 0x02
 	HprofGcRootJavaFrameType   SubRecordType = 0x03
+	HprofGcRootNativeStackType SubRecordType = 0x04
 	HprofGcRootStickyClassType SubRecordType = 0x05
+	HprofGcRootThreadBlockType SubRecordType = 0x06
+	HprofGcRootMonitorUsedType SubRecordType = 0x07
 	HprofGcRootThreadObjType   SubRecordType = 0x08
 	HprofGcClassDumpType       SubRecordType = 0x20
 	HprofGcInstanceDumpType    SubRecordType = 0x21
 	HprofGcObjArrayDumpType    SubRecordType = 0x22
 	HprofGcPrimArrayDumpType   SubRecordType = 0x23
+	HprofGcRootUnknownType     SubRecordType = 0xff
 )
 
 // these duplicated tags from Tags to be able to exit parse subrecords loop.
@@ -54,12 +58,16 @@ var subRecordTypeMap = map[SubRecordType]string{
 	HprofGcRootJniGlobalType:   "HPROF_GC_ROOT_JNI_GLOBAL",
 	HprofGcRootJniLocalType:    "HPROF_GC_ROOT_JNI_LOCAL",
 	HprofGcRootJavaFrameType:   "HPROF_GC_ROOT_JAVA_FRAME",
+	HprofGcRootNativeStackType: "HPROF_GC_ROOT_NATIVE_STACK",
 	HprofGcRootStickyClassType: "HPROF_GC_ROOT_STICKY_CLASS",
+	HprofGcRootThreadBlockType: "HPROF_GC_ROOT_THREAD_BLOCK",
+	HprofGcRootMonitorUsedType: "HPROF_GC_ROOT_MONITOR_USED",
 	HprofGcRootThreadObjType:   "HPROF_GC_ROOT_THREAD_OBJ",
 	HprofGcClassDumpType:       "HPROF_GC_CLASS_DUMP",
 	HprofGcInstanceDumpType:    "HPROF_GC_INSTANCE_DUMP",
 	HprofGcObjArrayDumpType:    "HPROF_GC_OBJ_ARRAY_DUMP",
 	HprofGcPrimArrayDumpType:   "HPROF_GC_PRIM_ARRAY_DUMP",
+	HprofGcRootUnknownType:     "HPROF_GC_ROOT_UNKNOWN",
 }
 
 func (s SubRecordType) String() string {
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..283e615 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -220,6 +220,22 @@ func (parser *Parser) ParseHeapDump() error {
 					}
 					parser.pos--
 					break loop
+				case core.HprofGcRootUnknownType, core.HprofGcRootMonitorUsedType:
+					// these roots are not used, but have to be skipped: identifier
+					n := int(fileHeader.IdentifierSize)
+					if err := skip(n, bufferedHeapDump); err != nil {
+						return fmt.Errorf("error discarding %v: %w", subRecordHeader.SubRecordType, err)
+					}
+					parser.pos += n
+				case core.HprofGcRootNativeStackType, core.HprofGcRootThreadBlockType:
+					// the same: identifier and thread serial number
+					n := int(fileHeader.IdentifierSize) + 4
+					if err := skip(n, bufferedHeapDump); err != nil {
+						return fmt.Errorf("error discarding %v: %w", subRecordHeader.SubRecordType, err)
+					}
+					parser.pos += n
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
-- 
2.43.0


From 798145445b84d9983e82bb281d3ec9b4cae03e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 02/15] fix: report failure to write the last part of the index

---
 internal/dump/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 283e615..a500e58 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,12 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	// closing writes the rest of the index, so it can fail too
+	defer func() {
+		if closeErr := parser.bigRecordsWriteStorage.Close(); err == nil && closeErr != nil {
+			err = fmt.Errorf("error closing index: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From eeb8b32fd3af343ec5076a39fa1e0ab4db5ef4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 03/15] fix: read object array elements of 4-byte identifiers

---
 internal/java/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..fe71010 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,7 +11,6 @@ package java
 
 import (
 	"bytes"
-	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -229,8 +228,11 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		id, err := core.NewPrimitiveParser(bytes.NewReader(e), h.parsedAccessor.IdentifierSize).ParseIdentifier()
+		if err != nil {
+			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From 81089ad91dd6aaac7c67477dff58e1b2301ae92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 04/15] fix: do not divide by zero when objects have no size

---
 internal/output/objects.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..2999dfc 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -113,8 +113,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -123,6 +123,15 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+// percent is zero when there is nothing to relate to, f.e. when
+// all arrays are empty.
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From 77707e77ed0b200a653c2c508ccb2cb910ac0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 05/15] fix: reject texts shorter than their identifier

---
 internal/core/base_parsers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..03a7d94 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,6 +45,9 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record of %v bytes is too short", remaining)
+	}
 	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
 	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
 	if err != nil {
-- 
2.43.0


From 10a032ac6b917346e1cea9a8b9ac925305389156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 06/15] fix: reject classes that are their own superclass

---
 internal/java/heap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index fe71010..8670960 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -101,6 +101,16 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+// parseClass keeps track of the classes below in the hierarchy because
+// superclasses of malformed dump could refer to each other.
+func (h *Heap) parseClass(classId core.Identifier, subclasses map[core.Identifier]bool) (Class, error) {
+	if subclasses[classId] {
+		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+	}
+	subclasses[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -145,7 +155,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, subclasses)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From 58cfc4a69d8e58e4d43e8050813c55ffe763ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 07/15] fix: keep the progress bar within its bounds

---
 internal/cmd/interactive_print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..83104ab 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -37,7 +37,11 @@ func clearLine() {
 
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
+		progress := 100.0
+		// the file can be empty or grow while it is parsed
+		if pos := positionFn(); pos < max {
+			progress = 100 * float64(pos) / float64(max)
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
-- 
2.43.0


From c5c40510d8853b5e6eaaeed52890609449e62228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 08/15] fix: do not share the parser position with the progress
 bar unsynchronized

---
 internal/dump/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index a500e58..3304ed4 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -19,6 +19,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"sync/atomic"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/storage"
@@ -27,6 +28,7 @@ import (
 // Parser traverses .hprof file and saves parsed information to storages.
 type Parser struct {
 	pos                      int
+	progress                 atomic.Int64 // pos for other goroutines
 	heapDump                 io.Reader
 	smallRecordsWriteStorage *storage.SmallRecordsWriteStorage
 	bigRecordsWriteStorage   *storage.BigRecordsWriteStorage
@@ -53,7 +55,7 @@ func NewParser(
 // progress bar since parsing large heap dumps
 // can be time consuming.
 func (creator *Parser) GetPosition() int {
-	return creator.pos
+	return int(creator.progress.Load())
 }
 
 // ParseHeapDump parses heap dump to storages.
@@ -85,6 +87,7 @@ func (parser *Parser) ParseHeapDump() (err error) {
 	for {
 		header, err := recordParser.ParseRecordHeader()
 		parser.pos += 9
+		parser.progress.Store(int64(parser.pos))
 		if err != nil {
 			if err == io.EOF {
 				return nil
@@ -128,6 +131,7 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					return fmt.Errorf("error parsing sub-record type: %w", err)
 				}
 				parser.pos++
+				parser.progress.Store(int64(parser.pos))
 				switch subRecordHeader.SubRecordType {
 				case core.HprofGcRootJniGlobalType:
 					record, err := recordParser.ParseHprofGcRootJniGlobal()
-- 
2.43.0


From 6d7d32217f718347b482b9375ce9b5c09abd184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 09/15] fix: read all properties of a hash map bin

---
 internal/summary/summary.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..f637888 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -137,7 +137,10 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	}
 	resultProps := make(map[string]string)
 	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+		// nodes of the same bin are linked
+		visited := make(map[core.Identifier]bool)
+		for nodeObjectId != 0 && !visited[nodeObjectId] {
+			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
 				return nil, err
@@ -159,6 +162,14 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 				return nil, err
 			}
 			resultProps[keyString] = valString
+			next, err := node.GetFieldValueByName("next")
+			if err != nil {
+				return nil, err
+			}
+			nodeObjectId, err = next.Value.ToObject()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 	return Properties(resultProps), nil
-- 
2.43.0


From 29389dd6ce573588684bd4b45bed8a74dd7750a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 10/15] fix: order objects with the same name deterministically

---
 internal/output/objects.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 2999dfc..6f9627d 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -95,6 +95,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].InstancesCount > o.Items[j].InstancesCount
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
@@ -105,6 +108,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].TotalSize > o.Items[j].TotalSize
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
-- 
2.43.0


From 04708f7c44f1ec37e1e5dc6fbadddeb11bd1581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 11/15] fix: do not take read errors for objects of another
 kind

---
 internal/storage/index.go   |  6 +++++-
 internal/threads/threads.go | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/storage/index.go b/internal/storage/index.go
index 97ac808..3de83f2 100644
--- a/internal/storage/index.go
+++ b/internal/storage/index.go
@@ -31,10 +31,14 @@ package storage
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 )
 
+// ErrNotFound is returned by Get when the index has no such key.
+var ErrNotFound = errors.New("not found")
+
 type BatchSize int
 
 const (
@@ -176,7 +180,7 @@ func (r *IndexRecordsReadStorage) Get(key uint64) (uint64, error) {
 			right = mid - 1
 		}
 	}
-	return 0, fmt.Errorf("key %v not found", key)
+	return 0, fmt.Errorf("key %v %w", key, ErrNotFound)
 }
 
 // Close closes the underlying file.
diff --git a/internal/threads/threads.go b/internal/threads/threads.go
index 0cd6656..44a9aac 100644
--- a/internal/threads/threads.go
+++ b/internal/threads/threads.go
@@ -20,9 +20,12 @@
 package threads
 
 import (
+	"errors"
+
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/java"
+	"github.com/danielleontiev/neojhat/internal/storage"
 )
 
 var (
@@ -46,12 +49,21 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 	readObjectName := func(id core.Identifier) (string, error) {
 		object, err := parsedAccessor.GetHprofGcInstanceDump(id)
 		if err != nil {
+			if !errors.Is(err, storage.ErrNotFound) {
+				return "", err
+			}
 			// we fall here when local var is not simple object
 			objectArr, err := parsedAccessor.GetHprofGcObjArray(id)
 			if err != nil {
+				if !errors.Is(err, storage.ErrNotFound) {
+					return "", err
+				}
 				// try prim array
 				primArr, err := parsedAccessor.GetHprofGcPrimArray(id)
 				if err != nil {
+					if !errors.Is(err, storage.ErrNotFound) {
+						return "", err
+					}
 					// then it's Class<?>
 					loadClass, err := parsedAccessor.GetHprofLoadClassByClassObjectId(id)
 					if err != nil {
-- 
2.43.0


From 619d08fbca959ebe1168de69267c89f8a67bffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 12/15] fix: reject unknown Java types instead of panicking on
 them

---
 internal/core/base_parsers.go | 6 ++++++
 internal/core/types.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 03a7d94..8453e2b 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -431,6 +431,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.isKnown() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
@@ -519,6 +522,9 @@ func (parser *RecordParser) ParseHprofGcPrimArrayDumpHeader() (HprofGcPrimArrayD
 	if err != nil {
 		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: %w", err)
 	}
+	if !elementType.isKnown() {
+		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: unexpected Java type: %v", byte(elementType))
+	}
 	return HprofGcPrimArrayDumpHeader{
 		ArrayObjectId:          arrayObjectId,
 		StackTraceSerialNumber: stackTraceSerialNumber,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..22310f5 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,12 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+// isKnown tells if j is one of the types above.
+func (j JavaType) isKnown() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
-- 
2.43.0


From a69f0ae29dde38c5cee642bef2ee2d73d7978b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 13/15] fix: report failure to close index files

---
 internal/cmd/subcommands.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..babe346 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -224,6 +224,9 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
+	if err := smallRecordsFile.Close(); err != nil {
+		return fmt.Errorf("can't close small records file: %w", err)
+	}
 	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
@@ -232,6 +235,9 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := metaWriter.SerializeTo(metaFile); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := metaFile.Close(); err != nil {
+		return fmt.Errorf("can't close meta file: %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From a01019877fe310837c84011f8b3f6c94599b261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 14/15] fix: do not leave partial index when parsing is
 interrupted

---
 internal/cmd/subcommands.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index babe346..2369fdc 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -182,28 +183,42 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
+	if _, err := os.Stat(hprofFileName + storageDirSuffix); err == nil {
+		return nil
+	}
+	// The index is built aside and gets its name when it is complete, so
+	// that interrupted parsing does not leave anything to be taken for it.
+	buildDir, err := os.MkdirTemp(filepath.Dir(hprofFileName), filepath.Base(hprofFileName)+".db-*")
+	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
+	defer os.RemoveAll(buildDir)
+	if err := buildIndex(hprof, buildDir+"/", nonInteractive); err != nil {
+		return err
+	}
+	if err := os.Rename(buildDir, hprofFileName+storageDirSuffix); err != nil && !os.IsExist(err) {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	return nil
+}
 
+// buildIndex parses the dump and writes index files to the given directory.
+func buildIndex(hprof *os.File, storageDir string, nonInteractive bool) error {
 	stat, err := hprof.Stat()
 	if err != nil {
 		return fmt.Errorf("can't get file stats: %w", err)
 	}
 
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := os.OpenFile(storageDir+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	objArrayDumpIndexFile, err := os.OpenFile(storageDir+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	primArrayDumpIndexFile, err := os.OpenFile(storageDir+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -216,7 +231,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	cancel()
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	smallRecordsFile, err := os.OpenFile(storageDir+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -227,7 +242,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallRecordsFile.Close(); err != nil {
 		return fmt.Errorf("can't close small records file: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	metaFile, err := os.OpenFile(storageDir+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 319929d31d0d9bd7816d9c2e28115aae106237a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:30 +0000
Subject: [PATCH 15/15] fix: name class objects of arrays in local variables
 properly

---
 internal/output/threads.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..91e14d1 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -55,14 +55,15 @@ func createPrettyFrame(frame threads.StackFrame) string {
 
 func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	signature := localFrame.ObjectTypeSignature
+	prefix := ""
+	if className, ok := strings.CutPrefix(signature, "class "); ok { // it's class itself
+		prefix, signature = "class ", className
+	}
 	if !strings.HasPrefix(signature, "[") { // it's object
 		signature = "L" + signature + ";"
 	}
-	if strings.HasPrefix(signature, "class") {
-		return signature
-	}
 	arg, _ := format.Signature(signature)
-	return arg
+	return prefix + arg
 }
 
 func createLocation(fileName, lineNumber string) string {
-- 
2.43.0

