From 1c9b128d1ccfa2af66ed91860e4e3bdc873d6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 01/32] fix: collections report sets longer than any stored as
 not found instead of panicking

---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..9ee6f07 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // longer than any set stored
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..b427015 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // longer than any set stored
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From c34f45de4f66f42ec34c7b803c520a0f3c4e2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 02/32] fix: refuse to write id sets longer than their length
 field can express

---
 pkg/storage/set16.go | 5 +++++
 pkg/storage/set8.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..5bc9309 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d is over %d", ErrSet16, len(set16), math.MaxUint16)
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..7a3bbfe 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d is over %d", ErrSet8, len(set8), math.MaxUint8)
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From dec9c7c61d1a1ef9b2069496b8a2343e99558b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 03/32] fix: read id sets exactly, whatever pieces the stream
 arrives in

---
 pkg/common/utils.go  | 19 +++++++++++++++++++
 pkg/storage/set16.go |  4 +++-
 pkg/storage/set8.go  |  4 +++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/common/utils.go b/pkg/common/utils.go
index f1a794f..4cbf2ed 100644
--- a/pkg/common/utils.go
+++ b/pkg/common/utils.go
@@ -2,9 +2,12 @@ package common
 
 import (
 	"errors"
+	"io"
 	"os"
 	"path"
 	"path/filepath"
+
+	"github.com/amarin/binutils"
 )
 
 // ErrPath represents filepath related errors.
@@ -34,3 +37,19 @@ func MakeDomainDataPath(domain string) (err error) {
 func DomainFilePath(domain string, fileName string) string {
 	return path.Join(DomainDataPath(domain), fileName)
 }
+
+// fullReader fills the whole buffer on every Read or returns an error.
+type fullReader struct {
+	io.Reader
+}
+
+// Read reads exactly len(p) bytes, whatever pieces the source delivers them in. Implements io.Reader.
+func (r fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.Reader, p)
+}
+
+// NewExactReader returns a binary reader which takes every value from source either entirely or with an error:
+// binutils.BinaryReader alone believes any single Read to return as many bytes as requested.
+func NewExactReader(source io.Reader) *binutils.BinaryReader {
+	return binutils.NewBinaryReader(fullReader{Reader: source})
+}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 5bc9309..00c0398 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -91,7 +93,7 @@ func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := common.NewExactReader(r)
 	if expectedLen, err = reader.ReadUint16(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 7a3bbfe..7c43d8e 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -91,7 +93,7 @@ func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := common.NewExactReader(r)
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
-- 
2.43.0


From d82f6b33e5922d9016b188ce868ef1c19a6251cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 04/32] fix: refuse new sets instead of reusing ids when tables
 and collections are full

---
 pkg/storage/collection16.go | 6 ++++++
 pkg/storage/collection8.go  | 6 ++++++
 pkg/storage/table16.go      | 8 +++++++-
 pkg/storage/table8.go       | 8 +++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 9ee6f07..e1e58f3 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -1,5 +1,7 @@
 package storage // nolint:dupl
 
+import "math"
+
 // Collection16 stores unique ids.Set16 items organized in Table16 storages where each storage
 // keeps sets of same sizes.
 // Each Collection16 item is addressable by unique ids.ID32
@@ -34,6 +36,10 @@ func (collection8x8 *Collection16) Index(item Set16) (indexedIdx ID32) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index b427015..55fc15f 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Collection8x8 stores unique ids.Set8 items in Table8 items where each Table8 stores sets of same sizes.
 // Each Collection8x8 item is addressable by unique ID16
 // which consists of Table8 ID8 item index in collection and ID8 element index in Table8 item.
@@ -33,6 +35,10 @@ func (collection8x8 *Collection8x8) Index(setItem Set8) (indexedIdx ID16) {
 	}
 
 	columnIdx := len(setItem) - 1
+	if columnIdx > math.MaxUint8 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..e0f292f 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -19,7 +21,7 @@ func (table16 Table16) Find(item Set16) (ID16, bool) {
 
 // Index returns 0-based ids.ID16 index of ids.Set16 in Table16 instance.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or is a new one when all ids are already used.
 func (table16 *Table16) Index(item Set16) (id ID16) {
 	var found bool
 
@@ -33,6 +35,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table overflow")
+	}
+
 	id = ID16(len(*table16))
 
 	*table16 = append(*table16, item)
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..bfc7e65 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -18,7 +20,7 @@ func (table8 Table8) Find(item Set8) (ID8, bool) {
 
 // Index returns 0-based ids.ID8 index of ids.Set8 in Table8.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or is a new one when all ids are already used.
 func (table8 *Table8) Index(item Set8) (id ID8) {
 	var found bool
 
@@ -32,6 +34,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table overflow")
+	}
+
 	id = ID8(len(*table8))
 
 	*table8 = append(*table8, item)
-- 
2.43.0


From 2cba5f9e27ccdcef28aae81619036015528dbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 05/32] fix: read grammar tags exactly, refusing truncated
 names

---
 pkg/dag/idx.go  | 2 ++
 pkg/dag/name.go | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..04bc767 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -46,6 +46,8 @@ func NewIndex(knownTags ...Tag) Idx {
 func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var listLen uint8
 
+	reader = common.NewExactReader(reader)
+
 	if listLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read length byte: %v", common.ErrUnmarshal, err)
 	}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..f363b8e 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -5,6 +5,7 @@ package dag
 import (
 	"errors"
 	"fmt"
+	"io"
 
 	"github.com/amarin/binutils"
 )
@@ -28,8 +29,8 @@ var (
 type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
-	var tagNameBytes []byte
-	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
+	tagNameBytes := make([]byte, tagNameLen)
+	if _, err = io.ReadFull(reader, tagNameBytes); err != nil {
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
 
-- 
2.43.0


From 7ab9323c47ff0f8681d5f2fb854702ae3ba075ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 06/32] fix: refuse to write more tags than the count byte can
 express

---
 pkg/dag/idx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index 04bc767..c19dc31 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -67,6 +68,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: %d tags is over %d", common.ErrMarshal, tagsIndex.Len(), math.MaxUint8)
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
-- 
2.43.0


From 28b519b1da88fdcd0a63f103c516f22125f94522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 07/32] fix: refuse new tags instead of reusing ids when all
 256 are used

---
 pkg/dag/idx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index c19dc31..2cbfbb7 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -104,6 +104,7 @@ func (tagsIndex Idx) Find(name TagName) (id TagID, found bool) {
 
 // Index returns indexed ID.
 // Adds indexed to index if not indexed before.
+// Panics if new tag required when all ids are already used.
 func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 	var found bool
 
@@ -115,6 +116,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic("tags index overflow")
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
-- 
2.43.0


From 6836a23c3370e81836fe3c9114147b93feb53585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 08/32] fix: resolving the root directory path is no error

---
 pkg/dag/utils.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/dag/utils.go b/pkg/dag/utils.go
index 3536632..a5263d3 100644
--- a/pkg/dag/utils.go
+++ b/pkg/dag/utils.go
@@ -13,7 +13,6 @@ const (
 
 func ResolveFilePath(filePath string) (dirname, filename, ext string, err error) {
 	var (
-		fileStat        os.FileInfo
 		absPath         string
 		filenameWithExt string
 	)
@@ -28,12 +27,9 @@ func ResolveFilePath(filePath string) (dirname, filename, ext string, err error)
 	fileNameLen := len(filenameWithExt) - len(ext)
 	fileName := filenameWithExt[:fileNameLen]
 
-	fileStat, err = os.Stat(absPath)
-	switch {
-	case err != nil:
+	_, err = os.Stat(absPath)
+	if err != nil {
 		return dirname, fileName, ext, fmt.Errorf("%w: path: %v: %v", ErrIndex, dirname, err)
-	case fileStat.Name() != filenameWithExt:
-		return dirname, fileName, ext, fmt.Errorf("%w: expected dir: %v: %v", ErrIndex, dirname, err)
 	}
 
 	return dirname, fileName, ext, nil
-- 
2.43.0


From 82e8a56745aaea2d3c399a5ae2c306af9456c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 09/32] fix: a loaded index does not list the root as a child
 of itself

---
 internal/index/idx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..d42be91 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -206,6 +206,10 @@ func (index *Index) rebuildChildrenIndex() {
 	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
+		if nodeID == 0 { // root is nobody's child
+			continue
+		}
+
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
-- 
2.43.0


From 9592873a2c56b6dec44abf2f79af18983d132747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 10/32] fix: read index parts exactly, refusing truncated data
 however it arrives

---
 internal/index/idx.go           | 3 +++
 internal/index/items.go         | 3 +++
 internal/index/tagset_def.go    | 5 ++++-
 internal/index/tagset_index.go  | 3 +++
 internal/index/tagset_table.go  | 4 ++++
 internal/index/variant_def.go   | 3 +++
 internal/index/variant_idx.go   | 4 ++++
 internal/index/variant_table.go | 4 ++++
 8 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index d42be91..62f37d7 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -8,6 +8,7 @@ import (
 	"github.com/amarin/binutils"
 	"github.com/amarin/logging"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -225,6 +226,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	reader = common.NewExactReader(reader)
+
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..62ce4d9 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -29,6 +30,8 @@ func NewItems() *Items {
 func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var itemListLen uint32
 
+	reader = common.NewExactReader(reader)
+
 	if itemListLen, err = reader.ReadUint32(); err != nil {
 		return err
 	}
diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..8ef3a7d 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -37,6 +38,8 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 		currentTagID uint8
 	)
 
+	reader = common.NewExactReader(reader)
+
 	if tagSetLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
@@ -125,7 +128,7 @@ func (tagSet *TagSet) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := common.NewExactReader(r)
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", Error, err)
 	}
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..bc9d6cd 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/storage"
 )
 
@@ -67,6 +68,8 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 
 	var tagSetIndexLen uint32
 
+	reader = common.NewExactReader(reader)
+
 	if tagSetIndexLen, err = reader.ReadUint32(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..c75f67d 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -6,6 +6,8 @@ import (
 	"strings"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const prefixTagSetTable = "TT"
@@ -36,6 +38,8 @@ func (tagSetTable *TagSetTable) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: reader nil", Error)
 	}
 
+	reader = common.NewExactReader(reader)
+
 	if tagSetLen, err = reader.ReadUint16(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..d789d45 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/storage"
 )
 
@@ -49,6 +50,8 @@ func (t *TagSetIDCollection) BinaryReadFrom(reader *binutils.BinaryReader) (err
 		currentUint32  uint32
 	)
 
+	reader = common.NewExactReader(reader)
+
 	if tagSetIndexLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..083052f 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -5,6 +5,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // VariantsIndex stores index of all possible TagSetIDCollection.
@@ -33,6 +35,8 @@ func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (e
 func (tagSetIndex *VariantsIndex) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagSetIndexLen uint8
 
+	reader = common.NewExactReader(reader)
+
 	if tagSetIndexLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..e7135e9 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -5,6 +5,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // VariantsTable stores a list of TagSetID.
@@ -33,6 +35,8 @@ func (variantsTable VariantsTable) BinaryWriteTo(writer *binutils.BinaryWriter)
 func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagSetIndexLen uint32
 
+	reader = common.NewExactReader(reader)
+
 	if tagSetIndexLen, err = reader.ReadUint32(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
-- 
2.43.0


From c764eff219b9a650d8bf1c855b9aa22990dc7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 11/32] fix: loading into a used index forgets its previous
 words

---
 internal/index/idx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 62f37d7..b81fb87 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -227,6 +227,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	defer index.mu.Unlock()
 
 	reader = common.NewExactReader(reader)
+	index.childrenMap = make(map[dag.ID]dag.IdMap) // forget whatever the index held before
+	index.wordsCount = 0
 
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
-- 
2.43.0


From 5c176d76767af943621dfac749840592b8c9111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 12/32] fix: the root node has no tag sets, nodes of any letter
 have a text, no tags add nothing

---
 internal/index/node.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..c539654 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/amarin/gomorphy/pkg/dag"
 )
@@ -30,7 +31,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	if item = node.index.getItem(node.id); item == nil {
+		return make([]dag.TagSet, 0) // root has no tag sets
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -51,6 +55,11 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	if len(newTagSet) == 0 {
+		return nil // no tags, nothing to add
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
@@ -60,6 +69,10 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
+	}
+
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
@@ -91,9 +104,14 @@ func (node *Node) Word() string {
 // String returns string representation of node. Implements fmt.Stringer.
 func (node *Node) String() string {
 	item := node.index.getItem(node.id)
-	w := node.Word()
+	if item == nil {
+		return "Node()"
+	}
+
+	letter := string(item.Letter)
+	prefix := strings.TrimSuffix(node.Word(), letter)
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	return "Node(" + prefix + "[" + letter + "]" + strings.TrimPrefix(item.String(), letter) + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From 6726a63e0f27ef75dbb4cbcc072485f1a9cf0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 13/32] fix: list tag set ids as they were given

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index bc9d6cd..7490cd0 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -131,7 +131,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From e1de144a003ebd8f913c948b2088185e081baa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 14/32] fix: refuse new tag sets and collections instead of
 reusing ids when all are used

---
 internal/index/tagset_index.go  | 6 ++++++
 internal/index/tagset_table.go  | 7 ++++++-
 internal/index/variant_idx.go   | 6 ++++++
 internal/index/variant_table.go | 6 ++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index 7490cd0..e0af081 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/binutils"
 
@@ -106,6 +107,7 @@ func (tagSetIndex *TagSetIndex) Find(item TagSet) (storageIdx TagSetID, found bo
 
 // Index returns specified TagSet ID in index.
 // If no such TagSet registered before, it will be indexed first.
+// Panics if specified set is longer than ID can express or is a new one when all IDs of its length are already used.
 // To check if TagSet present in index without registering use Find instead.
 func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	if len(item) == 0 {
@@ -113,6 +115,10 @@ func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("tag set is too long")
+	}
+
 	if columnIdx >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
 
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index c75f67d..3c14682 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -89,7 +90,7 @@ func (tagSetTable TagSetTable) Find(item TagSet) (storageIdx TagSetSubID, found
 
 // Index returns 0-based TagSetSubID index of ids.Set16 in Table16 instance.
 // Returns index of existed item if found or of appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or is a new one when all IDs are already used.
 func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 	var found bool
 
@@ -103,6 +104,10 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > math.MaxUint16 {
+		panic("tag set table overflow")
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
 	*tagSetTable = append(*tagSetTable, item)
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 083052f..0fc4f94 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -74,11 +75,16 @@ func (tagSetIndex VariantsIndex) Find(item TagSetIDCollection) (storageIdx Varia
 }
 
 // Index returns 0-based index of set in Collection8x8 array.
+// Panics if specified set is longer than ID can express or is a new one when all IDs of its length are already used.
 func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx VariantID) {
 	if len(item) == 0 {
 		return 0
 	}
 
+	if len(item) > math.MaxUint16 {
+		panic("collection is too long")
+	}
+
 	sort.Sort(item)
 
 	tableNumber := CollectionTableNumber(len(item) - 1)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index e7135e9..88e5dac 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -65,6 +66,7 @@ func (variantsTable VariantsTable) Find(item TagSetIDCollection) (storageIdx Var
 
 // Index returns specified TagSetIDCollection instance ID in index.
 // If no such variants set found it will be registered before.
+// Panics if specified collection is a new one when all IDs are already used.
 // Always return VariantSubID=0 if empty or nil TagSetIDCollection specified.
 func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx VariantSubID) {
 	var found bool
@@ -79,6 +81,10 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return storageIdx
 	}
 
+	if len(*variantsTable) > math.MaxUint16 {
+		panic("variants table overflow")
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
 	*variantsTable = append(*variantsTable, item)
-- 
2.43.0


From f49e05a33705167cb6d8e617b2836abc0b989664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 15/32] fix: report unknown collections instead of panicking

---
 internal/index/idx.go           | 9 +++++++--
 internal/index/variant_idx.go   | 4 ++--
 internal/index/variant_table.go | 6 +++++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index b81fb87..9a676fe 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -582,7 +582,12 @@ func (index *Index) Optimize() {
 	logger.Infof("has %d possible tag sets", len(knownTagSets))
 }
 
-// Variants returns TagSet collection
+// Variants returns TagSet collection or error if there is no such collection.
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	tagSetCollection = index.collectionIdx.Get(id)
+	if id != 0 && tagSetCollection.Len() == 0 { // only collection 0 is empty
+		return tagSetCollection, fmt.Errorf("%w: no such collection: %d", Error, id)
+	}
+
+	return tagSetCollection, nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 0fc4f94..dae90fe 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -101,14 +101,14 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 	return tableNumber.Add(1).VariantID(itemIdx)
 }
 
-// Get returns set by index.
+// Get returns set by index. If there is no such set, returned one is empty.
 func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 	if storageIdx == 0 {
 		return make(TagSetIDCollection, 0)
 	}
 
 	tableNumber := storageIdx.TableNum()
-	if tableNumber < 1 {
+	if tableNumber < 1 || int(tableNumber) > len(tagSetIndex) {
 		return make(TagSetIDCollection, 0)
 	}
 
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 88e5dac..25d8f03 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -92,8 +92,12 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 	return storageIdx
 }
 
-// Get returns TagSetIDCollection by its VariantSubID.
+// Get returns TagSetIDCollection by its VariantSubID. If there is no such collection, returned one is empty.
 func (variantsTable VariantsTable) Get(storageIdx VariantSubID) TagSetIDCollection {
+	if int(storageIdx) >= len(variantsTable) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return variantsTable[storageIdx]
 }
 
-- 
2.43.0


From b984e5aac37ed99f94f16ff0d3819f6912fa6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 16/32] fix: looking up words does not write into the index

---
 internal/index/idx.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 9a676fe..7cfb746 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -204,16 +204,13 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
-	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
 		if nodeID == 0 { // root is nobody's child
 			continue
 		}
 
-		index.GetChildrenIDMap(item.Parent)
-		index.GetChildrenIDMap(nodeID)
-		index.childrenMap[item.Parent][item.Letter] = nodeID
+		index.addChild(item.Parent, item.Letter, nodeID)
 		if item.Variants != 0 {
 			index.wordsCount++
 		}
@@ -320,13 +317,18 @@ func (index *Index) rootNode(letter rune) (root dag.Node) {
 // }
 
 // GetChildrenIDMap generates children nodes for Node specified by its ID.
+// It changes nothing in index, so it is safe to look for children from many goroutines at once.
 func (index *Index) GetChildrenIDMap(id dag.ID) (res dag.IdMap) {
-	var ok bool
+	return index.childrenMap[id]
+}
 
-	if res, ok = index.childrenMap[id]; !ok {
-		index.childrenMap[id] = make(dag.IdMap)
+// addChild registers child of parent having specified letter.
+func (index *Index) addChild(parentID dag.ID, letter rune, id dag.ID) {
+	if _, ok := index.childrenMap[parentID]; !ok {
+		index.childrenMap[parentID] = make(dag.IdMap)
 	}
-	return index.childrenMap[id]
+
+	index.childrenMap[parentID][letter] = id
 }
 
 func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, error) {
@@ -420,7 +422,7 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 		if nextItemID, ok = childrenIDMap[rootLetter]; !ok {
 			newRootItem := index.items.NewChild(currentParentID, rootLetter)
 			nextItemID = newRootItem.ID
-			index.childrenMap[currentParentID][rootLetter] = newRootItem.ID
+			index.addChild(currentParentID, rootLetter, newRootItem.ID)
 		}
 
 		if currentIndex == len(runes)-1 {
-- 
2.43.0


From 54dff28cc99ce2e7aba9fe540bcd92b6f19532a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 17/32] fix: refuse to write tag sets, collections and groups
 their count can not express

---
 internal/index/tagset_def.go   | 5 +++++
 internal/index/tagset_table.go | 5 +++++
 internal/index/variant_def.go  | 5 +++++
 internal/index/variant_idx.go  | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 8ef3a7d..08580ec 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -59,6 +60,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: tag set: len: %d is over %d", Error, len(tagSet), math.MaxUint8)
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 3c14682..74d988e 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -62,6 +62,11 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+
+	if tagSetTable.Len() > math.MaxUint16 {
+		return fmt.Errorf("%w: write: tag set table: len: %d is over %d", Error, tagSetTable.Len(), math.MaxUint16)
+	}
+
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index d789d45..9a1a1cf 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -28,6 +29,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: collection: len: %d is over %d", Error, len(t), math.MaxUint8)
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index dae90fe..33f4d17 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -17,6 +17,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: collections index: len: %d is over %d", Error, len(tagSetIndex), math.MaxUint8)
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
-- 
2.43.0


From aa8bd9dd09b0ce0a825ab7ab3dcf3561587ff281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 18/32] fix: a download that can not be examined is reported
 instead of crashing the update check

---
 pkg/opencorpora/loader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..7677878 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -129,6 +129,12 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		loader.Warnf("file access: %v: %v", expectedFile, err)
+
+		return false, err
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
@@ -136,6 +142,8 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return false, err
 	}
 
+	defer func() { _ = response.Body.Close() }()
+
 	if response.StatusCode != 200 {
 		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
 		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
-- 
2.43.0


From 6355f549cb2dd2ba815c9a3eaa728d1d9435a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 19/32] fix: the loader creates the data directory it was
 given, not the default one

---
 pkg/opencorpora/loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 7677878..d588ea4 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -176,7 +176,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -218,7 +218,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 		target     io.WriteCloser
 	)
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 2782d1ce34b6c707d99c59038f3b83cb5fbfd13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 20/32] fix: keep only complete successful downloads

---
 pkg/opencorpora/loader.go | 50 +++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index d588ea4..6a342cd 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -68,6 +68,38 @@ func (loader Loader) compiledFilePath() string {
 	return loader.filePath(LocalCompiledFilename)
 }
 
+// replaceFile writes new file content and puts it in place once it is complete.
+// After any failure a file existed before stays as it was.
+func replaceFile(filePath string, write func(target *os.File) error) (err error) {
+	var target *os.File
+
+	incompletePath := filePath + ".incomplete"
+	if target, err = os.Create(incompletePath); err != nil {
+		return err
+	}
+
+	replaced := false
+	defer func() {
+		if !replaced {
+			_ = os.Remove(incompletePath)
+		}
+	}()
+
+	err = write(target)
+	if closeErr := target.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err != nil {
+		return err
+	}
+
+	err = os.Rename(incompletePath, filePath)
+	replaced = err == nil
+
+	return err
+}
+
 // IsDownloadExists returns true if downloaded file exists at expected path.
 func (loader Loader) IsDownloadExists() bool {
 	loader.Info("check if downloaded file exists")
@@ -192,19 +224,17 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
-	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
-	if err != nil {
-		return false, err
+	if response.StatusCode != http.StatusOK {
+		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
+		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
 	}
 
-	defer func() {
-		if file != nil {
-			_ = file.Close()
-		}
-	}()
+	err = replaceFile(loader.downloadedFilePath(), func(target *os.File) error {
+		_, copyErr := io.Copy(target, response.Body)
 
-	if _, err = io.Copy(file, response.Body); err != nil {
+		return copyErr
+	})
+	if err != nil {
 		return false, err
 	}
 
-- 
2.43.0


From 7ff3199aad5206d526c02dd1b09785aca338c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 21/32] fix: a failed unpacking leaves no partial dictionary

---
 pkg/opencorpora/loader.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 6a342cd..5738a68 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -245,7 +245,6 @@ func (loader Loader) UnpackUpdate() (err error) {
 	var (
 		source     io.ReadCloser
 		bzipSource io.Reader
-		target     io.WriteCloser
 	)
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
@@ -260,17 +259,11 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
-		return err
-	}
-
-	defer func() { _ = target.Close() }()
+	return replaceFile(loader.unpackedFilePath(), func(target *os.File) error {
+		_, copyErr := io.Copy(target, bzipSource) // nolint:gosec
 
-	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
-		return err
-	}
-
-	return nil
+		return copyErr
+	})
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
-- 
2.43.0


From 8d4286d6ca05d42a3d5a021c4118deebfbbab5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 22/32] fix: a failed save keeps the previous compiled index, a
 failed close is reported

---
 pkg/opencorpora/loader.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 5738a68..dc59c81 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -301,26 +301,13 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
-	var writer *binutils.BinaryWriter
-
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
-		return fmt.Errorf("%w: create index: %v", Error, err)
-	}
-
 	defer func() {
 		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); err != nil {
-			loader.Warnf("close index: %v", closeErr)
-		}
 
 		if err != nil {
 			loader.Error(err.Error())
-
-			if removeErr := os.Remove(toFile); removeErr != nil {
-				loader.Warnf("remove incomplete index: %v", removeErr)
-			}
 		} else {
 			loader.Infof("compiled index saved at %v", toFile)
 		}
@@ -330,7 +317,10 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 	loader.Info("optimize index")
 	mainIndex.Optimize()
 	loader.Info("saving index")
-	if err = mainIndex.BinaryWriteTo(writer); err != nil {
+	err = replaceFile(toFile, func(target *os.File) error {
+		return mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(target))
+	})
+	if err != nil {
 		return fmt.Errorf("%w: save index: %v", Error, err)
 	}
 
-- 
2.43.0


From 1fa5a8a4d669599a3f12d6f951c8fbb0ff40879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 23/32] fix: update builds a missing index, and drops a
 download which gave none

---
 pkg/opencorpora/loader.go | 55 ++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index dc59c81..e31d965 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -125,6 +125,27 @@ func (loader Loader) IsDownloadExists() bool {
 	}
 }
 
+// isCompiledExists returns true if there is something at compiled index path.
+func (loader Loader) isCompiledExists() bool {
+	_, err := os.Stat(loader.compiledFilePath())
+
+	return err == nil
+}
+
+// dropDownload removes downloaded file which gave no compiled index, so it will not be taken for actual one.
+func (loader Loader) dropDownload() {
+	if err := os.Remove(loader.downloadedFilePath()); err != nil {
+		loader.Warnf("remove download: %v", err)
+	}
+}
+
+// isDamagedArchive tells if unpacking failed because of archive content.
+func isDamagedArchive(err error) bool {
+	var structuralError bzip2.StructuralError
+
+	return errors.As(err, &structuralError) || errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 // IsUnpackedExists returns true if downloaded and unpacked file exists at expected path.
 func (loader Loader) IsUnpackedExists() bool {
 	loader.Info("check if unpacked file exists")
@@ -369,14 +390,7 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 		return err
 	case !updateRequired:
 		loader.Info("lemmata up to date")
-
-		if forceRecompile {
-			loader.Info("do recompile as force update required")
-			goto compile
-		}
-
-		return nil
-
+		goto local
 	default:
 		loader.Info("update required, downloading")
 	}
@@ -389,16 +403,34 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 		return err
 	case !updated:
 		loader.Warn("files not updated, no errors")
-		return nil
+		goto local
 	default:
 		loader.Info("downloaded, unpacking")
+		goto unpack
+	}
+
+local: // nothing to download, use what present
+	switch {
+	case !forceRecompile && loader.isCompiledExists():
+		return nil
+	case unpackedExists:
+		loader.Info("do recompile from previous unpacked file")
+		goto compile
+	default:
+		loader.Info("do recompile from previous downloaded file")
 	}
+
 unpack:
 	err = loader.UnpackUpdate()
 
 	switch {
 	case err != nil:
 		loader.Errorf("unpack: %v", err)
+
+		if updated || isDamagedArchive(err) {
+			loader.dropDownload()
+		}
+
 		return err
 	default:
 		loader.Info("lemmata updated, compile")
@@ -407,6 +439,11 @@ unpack:
 compile:
 	if err = loader.ParseUpdate(loader.unpackedFilePath(), loader.compiledFilePath()); err != nil {
 		loader.Errorf("compile: %v", err)
+
+		if updated {
+			loader.dropDownload()
+		}
+
 		return err
 	}
 
-- 
2.43.0


From 7976ba93d3d8bde88e73788ea158661d915ee00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 24/32] fix: a grammeme name delivered in parts is taken
 entirely

---
 pkg/opencorpora/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index b1f917a..9de9855 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -216,7 +216,7 @@ func (parser *Parser) onGrammemeName() *elementProcessor {
 	return &elementProcessor{
 		processStart: ignoreElementStart,
 		processData: func(data string) error {
-			parser.currentGrammeme.Name = dag.TagName(data)
+			parser.currentGrammeme.Name += dag.TagName(data)
 			return nil
 		},
 		processEnd: ignoreElementEnd,
-- 
2.43.0


From 1c0d39b49c51a49e5c4211ec6157aea18fc2224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 25/32] fix: a file without dictionary is an error, not an
 empty index

---
 pkg/opencorpora/loader.go | 4 ++++
 pkg/opencorpora/parser.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index e31d965..f603a88 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -366,6 +366,10 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("parse: %w", err)
 	}
 
+	if !parser.dictionaryFound {
+		return fmt.Errorf("%w: parse: no dictionary in %v", Error, fromFile)
+	}
+
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 9de9855..eab67fd 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -35,6 +35,7 @@ type Parser struct {
 	logging.Logger
 	index           dag.Index
 	dictionary      *Dictionary
+	dictionaryFound bool // dictionary element met
 	collectedData   string
 	currentPath     string
 	currentGrammeme *dag.Tag
@@ -183,6 +184,8 @@ func (parser *Parser) mute() *elementProcessor {
 func (parser *Parser) onDictionary() *elementProcessor {
 	return &elementProcessor{
 		processStart: func(element xml.StartElement) error {
+			parser.dictionaryFound = true
+
 			return parser.dictionary.processElem(parser, element)
 		},
 		processData: ignoreElementData,
-- 
2.43.0


From afd8014138d4b1e3c5ca2bd7ba6b9e38d8a81314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 26/32] fix: absent categories of a word form are skipped, as
 checked for, instead of crashing

---
 pkg/opencorpora/form_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/form_item.go b/pkg/opencorpora/form_item.go
index 8bd45ef..f32d23f 100644
--- a/pkg/opencorpora/form_item.go
+++ b/pkg/opencorpora/form_item.go
@@ -33,8 +33,8 @@ func (x WordForm) GetTagsFromSet() []dag.TagName {
 	var resultTags []dag.TagName
 	for _, g := range x.G {
 		if g != nil {
+			resultTags = append(resultTags, g.VAttr)
 		}
-		resultTags = append(resultTags, g.VAttr)
 	}
 	return resultTags
 }
-- 
2.43.0


From 8a5bcc20ec8cfe87b2cb2bb970e5e3f10b952b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 27/32] fix: files an interrupted update left older than their
 source are made again

---
 pkg/opencorpora/loader.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index f603a88..aae1501 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -125,11 +125,26 @@ func (loader Loader) IsDownloadExists() bool {
 	}
 }
 
-// isCompiledExists returns true if there is something at compiled index path.
-func (loader Loader) isCompiledExists() bool {
-	_, err := os.Stat(loader.compiledFilePath())
+// isActual returns true if there is a file at specified path and no source it was made from is newer.
+func (loader Loader) isActual(filePath string, sourcePaths ...string) bool {
+	fileStat, err := os.Stat(filePath)
+	if err != nil {
+		return false
+	}
+
+	for _, sourcePath := range sourcePaths {
+		sourceStat, err := os.Stat(sourcePath)
+		switch {
+		case err != nil && errors.Is(err, os.ErrNotExist):
+			continue // nothing to be made from
+		case err != nil || sourceStat.ModTime().After(fileStat.ModTime()):
+			loader.Debugf("%v is older than %v", filePath, sourcePath)
+
+			return false
+		}
+	}
 
-	return err == nil
+	return true
 }
 
 // dropDownload removes downloaded file which gave no compiled index, so it will not be taken for actual one.
@@ -380,7 +395,8 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 
 	updateRequired, err = loader.IsUpdateRequired()
 	downloadedExists = loader.IsDownloadExists()
-	unpackedExists = loader.IsUnpackedExists()
+	// update interrupted before could leave files older than downloaded one
+	unpackedExists = loader.IsUnpackedExists() && loader.isActual(loader.unpackedFilePath(), loader.downloadedFilePath())
 
 	switch {
 	case err != nil && forceRecompile && unpackedExists:
@@ -415,7 +431,7 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 
 local: // nothing to download, use what present
 	switch {
-	case !forceRecompile && loader.isCompiledExists():
+	case !forceRecompile && loader.isActual(loader.compiledFilePath(), loader.downloadedFilePath(), loader.unpackedFilePath()):
 		return nil
 	case unpackedExists:
 		loader.Info("do recompile from previous unpacked file")
-- 
2.43.0


From 87a403f14cab68b76a61178e9d06f409129bb2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 28/32] fix: a dictionary published while another one was
 downloaded is noticed

---
 pkg/opencorpora/loader.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index aae1501..67938e7 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -266,9 +266,21 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 	}
 
 	err = replaceFile(loader.downloadedFilePath(), func(target *os.File) error {
-		_, copyErr := io.Copy(target, response.Body)
+		if _, copyErr := io.Copy(target, response.Body); copyErr != nil {
+			return copyErr
+		}
 
-		return copyErr
+		// keep remote time, as something newer could be published since then
+		lastModified, timeErr := time.Parse(time.RFC1123, response.Header.Get(common.HTTPHeaderLastModified))
+		if timeErr != nil {
+			return nil // unknown
+		}
+
+		if timeErr = os.Chtimes(target.Name(), lastModified, lastModified); timeErr != nil {
+			loader.Warnf("keep remote time: %v", timeErr)
+		}
+
+		return nil
 	})
 	if err != nil {
 		return false, err
-- 
2.43.0


From e8e6c99f8b8f051fa6b2fa4de12fbaa6b8a7d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 29/32] fix: an index file announcing more than it holds does
 not take memory for all of it

---
 internal/index/items.go         | 11 ++++++++---
 internal/index/tagset_index.go  |  7 +++++--
 internal/index/variant_table.go |  7 +++++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index 62ce4d9..e6e07cc 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -36,14 +36,19 @@ func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
-	items.nextID = dag.ID(itemListLen)
-	items.items = make([]Item, int(itemListLen))
+	list := make([]Item, 0) // grows as items come, the length read is not to be believed
 	for idx := 0; idx < int(itemListLen); idx++ {
-		if err = items.items[idx].BinaryReadFrom(reader); err != nil {
+		var item Item
+
+		if err = item.BinaryReadFrom(reader); err != nil {
 			return err
 		}
+		list = append(list, item)
 	}
 
+	items.nextID = dag.ID(itemListLen)
+	items.items = list
+
 	return nil
 }
 
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index e0af081..1f38da8 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -75,11 +75,14 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*tagSetIndex = make(TagSetIndex, tagSetIndexLen)
+	*tagSetIndex = make(TagSetIndex, 0) // grows as tables come, the length read is not to be believed
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if err = (*tagSetIndex)[idx].BinaryReadFrom(reader); err != nil {
+		var table TagSetTable
+
+		if err = table.BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
+		*tagSetIndex = append(*tagSetIndex, table)
 	}
 
 	return nil
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 25d8f03..41258ce 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -42,11 +42,14 @@ func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*variantsTable = make(VariantsTable, tagSetIndexLen)
+	*variantsTable = make(VariantsTable, 0) // grows as collections come, the length read is not to be believed
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if err = (*variantsTable)[idx].BinaryReadFrom(reader); err != nil {
+		var collection TagSetIDCollection
+
+		if err = collection.BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
+		*variantsTable = append(*variantsTable, collection)
 	}
 
 	return nil
-- 
2.43.0


From ed314e2f3f68f970ab226b90f18ac452f41dc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 30/32] fix: an index file referring to what it does not hold
 is refused

---
 internal/index/idx.go | 59 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 7cfb746..0d739f9 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -203,18 +203,69 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 	return nil
 }
 
-func (index *Index) rebuildChildrenIndex() {
+// checkReferences returns error if something just read refers to what is not there.
+// Nodes have to follow their parents, so that going from a node up always ends at the root.
+func (index *Index) checkReferences() error {
+	for _, table := range index.tagSets {
+		for _, tagSet := range table {
+			if _, err := index.TagSet(tagSet); err != nil {
+				return fmt.Errorf("%w: read: tag set: %v", Error, err)
+			}
+		}
+	}
+
+	for _, table := range index.collectionIdx {
+		for _, collection := range table {
+			for _, tagSetID := range collection {
+				if _, found := index.tagSets.Get(tagSetID); !found {
+					return fmt.Errorf("%w: read: collection: no such tag set: %d", Error, tagSetID)
+				}
+			}
+		}
+	}
+
+	if len(index.items.items) == 0 {
+		return fmt.Errorf("%w: read: no root node", Error)
+	}
+
+	for idx, item := range index.items.items {
+		switch {
+		case idx == 0:
+			continue
+		case int(item.ID) != idx:
+			return fmt.Errorf("%w: read: node %d has ID %d", Error, idx, item.ID)
+		case item.Parent >= item.ID:
+			return fmt.Errorf("%w: read: node %d has parent %d", Error, item.ID, item.Parent)
+		}
+
+		if _, err := index.Variants(item.Variants); err != nil {
+			return fmt.Errorf("%w: read: node %d: %v", Error, item.ID, err)
+		}
+	}
+
+	return nil
+}
+
+// rebuildChildrenIndex maps nodes read to their parents.
+// Returns error if there are several children of the same letter.
+func (index *Index) rebuildChildrenIndex() error {
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
 		if nodeID == 0 { // root is nobody's child
 			continue
 		}
 
+		if anotherID, found := index.childrenMap[item.Parent][item.Letter]; found {
+			return fmt.Errorf("%w: read: nodes %d and %d have the same parent and letter", Error, anotherID, nodeID)
+		}
+
 		index.addChild(item.Parent, item.Letter, nodeID)
 		if item.Variants != 0 {
 			index.wordsCount++
 		}
 	}
+
+	return nil
 }
 
 // BinaryReadFrom reads index data from specified binutils.BinaryReader.
@@ -240,9 +291,11 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
-	index.rebuildChildrenIndex()
+	if err = index.checkReferences(); err != nil {
+		return err
+	}
 
-	return nil
+	return index.rebuildChildrenIndex()
 }
 
 // AddRunes adds runes sequence into container.
-- 
2.43.0


From 818729712dc55dd7dff307baeb88f19bfa53ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:50 +0000
Subject: [PATCH 31/32] fix: files made of a download keep its time, so an
 interrupted update is noticed whatever the dates

---
 pkg/opencorpora/loader.go | 45 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 67938e7..866497f 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -125,6 +125,14 @@ func (loader Loader) IsDownloadExists() bool {
 	}
 }
 
+// keepTime gives a file being written the time of the source it is made from, so anything newer than the source
+// is newer than the file as well, whenever the file was made.
+func (loader Loader) keepTime(target *os.File, source os.FileInfo) {
+	if err := os.Chtimes(target.Name(), source.ModTime(), source.ModTime()); err != nil {
+		loader.Warnf("keep source time: %v", err)
+	}
+}
+
 // isActual returns true if there is a file at specified path and no source it was made from is newer.
 func (loader Loader) isActual(filePath string, sourcePaths ...string) bool {
 	fileStat, err := os.Stat(filePath)
@@ -291,7 +299,8 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 
 func (loader Loader) UnpackUpdate() (err error) {
 	var (
-		source     io.ReadCloser
+		source     *os.File
+		sourceStat os.FileInfo
 		bzipSource io.Reader
 	)
 
@@ -305,12 +314,20 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	defer func() { _ = source.Close() }()
 
+	if sourceStat, err = source.Stat(); err != nil {
+		return err
+	}
+
 	bzipSource = bzip2.NewReader(source)
 
 	return replaceFile(loader.unpackedFilePath(), func(target *os.File) error {
-		_, copyErr := io.Copy(target, bzipSource) // nolint:gosec
+		if _, copyErr := io.Copy(target, bzipSource); copyErr != nil { // nolint:gosec
+			return copyErr
+		}
+
+		loader.keepTime(target, sourceStat)
 
-		return copyErr
+		return nil
 	})
 }
 
@@ -349,6 +366,11 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
+	return loader.saveIndex(mainIndex, toFile, nil)
+}
+
+// saveIndex saves index made from specified source, if any.
+func (loader *Loader) saveIndex(mainIndex *index.Index, toFile string, source os.FileInfo) (err error) {
 	loader.Info("save compiled index")
 
 	defer func() {
@@ -366,7 +388,15 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 	mainIndex.Optimize()
 	loader.Info("saving index")
 	err = replaceFile(toFile, func(target *os.File) error {
-		return mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(target))
+		if writeErr := mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(target)); writeErr != nil {
+			return writeErr
+		}
+
+		if source != nil {
+			loader.keepTime(target, source)
+		}
+
+		return nil
 	})
 	if err != nil {
 		return fmt.Errorf("%w: save index: %v", Error, err)
@@ -388,6 +418,11 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		}
 	}()
 
+	sourceStat, err := os.Stat(fromFile)
+	if err != nil {
+		return fmt.Errorf("parse: %w", err)
+	}
+
 	err = libxml.ParseXMLFile(fromFile, parser)
 	if err != nil && !errors.Is(err, ErrControlledStop) {
 		return fmt.Errorf("parse: %w", err)
@@ -397,7 +432,7 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("%w: parse: no dictionary in %v", Error, fromFile)
 	}
 
-	return loader.SaveIndex(mainIndex, toFile)
+	return loader.saveIndex(mainIndex, toFile, sourceStat)
 }
 
 func (loader Loader) Update(forceRecompile bool) (err error) {
-- 
2.43.0


From d0038b0eae5c37abe9a111572059d5ba8f90c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 32/32] fix: an unpacked dictionary which gave no index is not
 taken for that of the archive downloaded again

When an update fetched an archive which gave no index, the archive is dropped but the dictionary unpacked from it
stays, with the date of that archive. An update killed right after it fetched a good archive of the same date again
left them side by side, and later updates tried to compile the bad dictionary until something newer was published.
---
 pkg/opencorpora/loader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 866497f..d80f874 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -162,6 +162,20 @@ func (loader Loader) dropDownload() {
 	}
 }
 
+// outdateUnpacked makes unpacked file which gave no compiled index older than the archive it is made from,
+// so it will not be taken for one made from the same archive downloaded again.
+func (loader Loader) outdateUnpacked() {
+	fileStat, err := os.Stat(loader.unpackedFilePath())
+	if err == nil {
+		outdated := fileStat.ModTime().Add(-time.Second)
+		err = os.Chtimes(loader.unpackedFilePath(), outdated, outdated)
+	}
+
+	if err != nil {
+		loader.Warnf("outdate unpacked: %v", err)
+	}
+}
+
 // isDamagedArchive tells if unpacking failed because of archive content.
 func isDamagedArchive(err error) bool {
 	var structuralError bzip2.StructuralError
@@ -509,6 +523,7 @@ compile:
 
 		if updated {
 			loader.dropDownload()
+			loader.outdateUnpacked()
 		}
 
 		return err
-- 
2.43.0

