From e2613737c2cc02d51e543fc508acfcc70cc23490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 01/15] fix: collection Find reports sets longer than any
 stored one as not found

---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..a51f51c 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such length stored yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..91b3b6d 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such length stored yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From 94d6ee74dadf8df27c2e32eca57c405aa758ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 02/15] fix: refuse to write sets too long for their length
 prefix

---
 pkg/storage/set16.go | 5 +++++
 pkg/storage/set8.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..fae32f4 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 { // wrapped length would make data unreadable
+		return 0, fmt.Errorf("%w: writeTo: len: %d items does not fit length prefix", ErrSet16, len(set16))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..0efc72d 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 { // wrapped length would make data unreadable
+		return 0, fmt.Errorf("%w: writeTo: len: %d items does not fit length prefix", ErrSet8, len(set8))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From 7f746add4c4c4cf1eea05ae553d4eaec68efaf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 03/15] fix: full tables and collections panic instead of
 handing out a used identifier

---
 pkg/storage/collection16.go | 6 ++++++
 pkg/storage/collection8.go  | 6 ++++++
 pkg/storage/table16.go      | 6 ++++++
 pkg/storage/table8.go       | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index a51f51c..7746465 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -1,5 +1,7 @@
 package storage // nolint:dupl
 
+import "math"
+
 // Collection16 stores unique ids.Set16 items organized in Table16 storages where each storage
 // keeps sets of same sizes.
 // Each Collection16 item is addressable by unique ids.ID32
@@ -34,6 +36,10 @@ func (collection8x8 *Collection16) Index(item Set16) (indexedIdx ID32) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 91b3b6d..b961fe6 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Collection8x8 stores unique ids.Set8 items in Table8 items where each Table8 stores sets of same sizes.
 // Each Collection8x8 item is addressable by unique ID16
 // which consists of Table8 ID8 item index in collection and ID8 element index in Table8 item.
@@ -33,6 +35,10 @@ func (collection8x8 *Collection8x8) Index(setItem Set8) (indexedIdx ID16) {
 	}
 
 	columnIdx := len(setItem) - 1
+	if columnIdx > math.MaxUint8 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..7ebc830 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -33,6 +35,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table is full")
+	}
+
 	id = ID16(len(*table16))
 
 	*table16 = append(*table16, item)
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..a4cc357 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,7 @@
 package storage
 
+import "math"
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -32,6 +34,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table is full")
+	}
+
 	id = ID8(len(*table8))
 
 	*table8 = append(*table8, item)
-- 
2.43.0


From e2032d789989a27029018ef1268b4565268311a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 04/15] fix: tables keep their own copy of indexed sets

---
 pkg/storage/table16.go | 3 ++-
 pkg/storage/table8.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index 7ebc830..7c3ec69 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -41,7 +41,8 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 
 	id = ID16(len(*table16))
 
-	*table16 = append(*table16, item)
+	// keep own copy: caller is free to reuse its set.
+	*table16 = append(*table16, append(Set16(nil), item...))
 
 	return id
 }
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index a4cc357..85b689c 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -40,7 +40,8 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 
 	id = ID8(len(*table8))
 
-	*table8 = append(*table8, item)
+	// keep own copy: caller is free to reuse its set.
+	*table8 = append(*table8, append(Set8(nil), item...))
 
 	return id
 }
-- 
2.43.0


From 0bcb2b9f37d47221c1de823664f2268c3fcd8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 05/15] fix: report truncated sets and tags instead of reading
 missing bytes as zeroes

---
 pkg/common/full_reader.go | 17 +++++++++++++++++
 pkg/dag/idx.go            |  1 +
 pkg/dag/name.go           |  3 +++
 pkg/storage/set16.go      |  4 +++-
 pkg/storage/set8.go       |  4 +++-
 5 files changed, 27 insertions(+), 2 deletions(-)
 create mode 100644 pkg/common/full_reader.go

diff --git a/pkg/common/full_reader.go b/pkg/common/full_reader.go
new file mode 100644
index 0000000..64c0d86
--- /dev/null
+++ b/pkg/common/full_reader.go
@@ -0,0 +1,17 @@
+package common
+
+import (
+	"io"
+)
+
+// FullReader wraps io.Reader to make each Read either fill whole buffer or return an error.
+// Protects readers which ignore amount of bytes really taken from accepting partially filled buffers.
+type FullReader struct {
+	Reader io.Reader
+}
+
+// Read fills whole p from underlying reader. Returns error if it was impossible.
+// Implements io.Reader.
+func (r FullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.Reader, p)
+}
diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..d4d1895 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -46,6 +46,7 @@ func NewIndex(knownTags ...Tag) Idx {
 func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var listLen uint8
 
+	reader = binutils.NewBinaryReader(common.FullReader{Reader: reader})
 	if listLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read length byte: %v", common.ErrUnmarshal, err)
 	}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..1b66de3 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -7,6 +7,8 @@ import (
 	"fmt"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const (
@@ -29,6 +31,7 @@ type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagNameBytes []byte
+	reader = binutils.NewBinaryReader(common.FullReader{Reader: reader})
 	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index fae32f4..a3c2866 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -91,7 +93,7 @@ func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader{Reader: r})
 	if expectedLen, err = reader.ReadUint16(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 0efc72d..7f00044 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -91,7 +93,7 @@ func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader{Reader: r})
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
-- 
2.43.0


From 625cecf76a59df828afacd84e761c26d6832f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 06/15] fix: full tags index panics instead of reusing
 identifiers and refuses to write wrapped length

---
 pkg/dag/idx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d4d1895..54989f0 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -66,6 +67,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 { // wrapped length would make data unreadable
+		return fmt.Errorf("%w: %d tags does not fit length byte", common.ErrMarshal, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
@@ -109,6 +114,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic("tags index is full")
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
-- 
2.43.0


From e665737ad1bb708e6983c41bb85ec7193320300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 07/15] fix: refuse to write index sections too long for their
 length prefixes

---
 internal/index/tagset_def.go   | 5 +++++
 internal/index/tagset_table.go | 4 ++++
 internal/index/variant_def.go  | 5 +++++
 internal/index/variant_idx.go  | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..4da57d2 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -56,6 +57,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 { // wrapped length would make data unreadable
+		return fmt.Errorf("%w: write: tagset: %d tags does not fit length prefix", Error, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..8e35d4e 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -57,6 +58,9 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+	if tagSetTable.Len() > math.MaxUint16 { // wrapped length would make data unreadable
+		return fmt.Errorf("%w: write: tagset table: %d sets does not fit length prefix", Error, tagSetTable.Len())
+	}
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..c2f2045 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -27,6 +28,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 { // wrapped length would make data unreadable
+		return fmt.Errorf("%w: write: collection: %d items does not fit length prefix", Error, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..9c0a79c 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -14,6 +15,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 { // wrapped length would make data unreadable
+		return fmt.Errorf("%w: write: collections index: %d tables does not fit length prefix", Error, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
-- 
2.43.0


From 54b98ba64b3f2e72c37b87fd73413d5557d1e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 08/15] fix: index tables keep own copies of sets and panic
 when full instead of reusing identifiers

---
 internal/index/tagset_index.go  | 9 +++++++++
 internal/index/tagset_table.go  | 7 ++++++-
 internal/index/variant_idx.go   | 4 ++++
 internal/index/variant_table.go | 8 +++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..094e260 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/binutils"
 
@@ -90,6 +91,10 @@ func (tagSetIndex *TagSetIndex) Find(item TagSet) (storageIdx TagSetID, found bo
 		return 0, false // always return not found for empty sets
 	}
 
+	if len(item) > len(*tagSetIndex) {
+		return 0, false // no sets of such length stored yet
+	}
+
 	zeroBasedTableIdx := TagSetTableNumber(len(item) - 1)
 
 	if table, ok := tagSetIndex.getTable(zeroBasedTableIdx); ok {
@@ -110,6 +115,10 @@ func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
 
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 8e35d4e..32419d5 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -103,9 +103,14 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > math.MaxUint16 {
+		panic("table is full")
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
-	*tagSetTable = append(*tagSetTable, item)
+	// keep own copy: caller is free to reuse its set.
+	*tagSetTable = append(*tagSetTable, append(TagSet(nil), item...))
 
 	return storageIdx
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 9c0a79c..218b977 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -80,6 +80,10 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 		return 0
 	}
 
+	if len(item) > math.MaxUint16 { // tables are numbered from 1 in identifiers
+		panic("collection is too long")
+	}
+
 	sort.Sort(item)
 
 	tableNumber := CollectionTableNumber(len(item) - 1)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..4226b72 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -75,9 +76,14 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return storageIdx
 	}
 
+	if len(*variantsTable) > math.MaxUint16 {
+		panic("table is full")
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
-	*variantsTable = append(*variantsTable, item)
+	// keep own copy: caller is free to reuse its collection.
+	*variantsTable = append(*variantsTable, append(TagSetIDCollection(nil), item...))
 
 	return storageIdx
 }
-- 
2.43.0


From d5e242e511eed5787de05f4b2da1c4f4e8987065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 09/15] fix: TableIDs lists identifiers under which tag sets
 are retrieved

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index 094e260..fb86932 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -137,7 +137,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From 63a3f5a02b39e448af2d1efa86c9882e19dc2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 10/15] fix: unknown variant identifiers are answered with an
 error or empty collection instead of a panic

---
 internal/index/idx.go         | 7 ++++++-
 internal/index/variant_idx.go | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..58739da 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -575,5 +575,10 @@ func (index *Index) Optimize() {
 
 // Variants returns TagSet collection
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	tagSetCollection = index.collectionIdx.Get(id)
+	if id != 0 && len(tagSetCollection) == 0 {
+		return nil, fmt.Errorf("%w: no such variants: %d", Error, id)
+	}
+
+	return tagSetCollection, nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 218b977..51a794e 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -107,11 +107,16 @@ func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 	}
 
 	tableNumber := storageIdx.TableNum()
-	if tableNumber < 1 {
+	if tableNumber < 1 || int(tableNumber) > len(tagSetIndex) {
 		return make(TagSetIDCollection, 0)
 	}
 
-	return tagSetIndex[tableNumber.Add(-1)].Get(storageIdx.CollectionTableID())
+	table := tagSetIndex[tableNumber.Add(-1)]
+	if int(storageIdx.CollectionTableID()) >= len(table) {
+		return make(TagSetIDCollection, 0)
+	}
+
+	return table.Get(storageIdx.CollectionTableID())
 }
 
 // Table returns internal CollectionTable by its index.
-- 
2.43.0


From dc30887c01c7831004fbe81e1cfcda5ce278d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 11/15] fix: root and unknown nodes are answered instead of
 panicking

---
 internal/index/node.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..ef2eb81 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -17,7 +17,12 @@ func (node *Node) Id() dag.ID {
 }
 
 func (node Node) Item() Item {
-	return node.index.items.items[node.id]
+	item := node.index.getItem(node.id)
+	if item == nil {
+		return Item{}
+	}
+
+	return *item
 }
 
 // TagSets returns list of dag.TagSet. Implements dag.Node.
@@ -30,7 +35,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	if item = node.index.getItem(node.id); item == nil { // neither root nor unknown nodes have tags
+		return make([]dag.TagSet, 0)
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -60,6 +68,10 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no such node: %d", Error, node.id)
+	}
+
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
@@ -91,6 +103,10 @@ func (node *Node) Word() string {
 // String returns string representation of node. Implements fmt.Stringer.
 func (node *Node) String() string {
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Sprintf("Node(%d)", node.id)
+	}
+
 	w := node.Word()
 
 	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
-- 
2.43.0


From 0dad401df0f191be94e437b3fd09773947a303bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 12/15] fix: attaching an empty tag list attaches nothing
 instead of the first registered set

---
 internal/index/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/node.go b/internal/index/node.go
index ef2eb81..60872cc 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -59,6 +59,11 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	if len(newTagSet) == 0 {
+		return nil // empty set means no data
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
-- 
2.43.0


From 4214abb7073236bcb4c9f98767631530b4efbe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 13/15] fix: loaded index does not list root as its own child
 nor keep nodes known before load

---
 internal/index/idx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 58739da..5718108 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -203,9 +203,15 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
+	index.childrenMap = make(map[dag.ID]dag.IdMap) // forget nodes known before load
+	index.wordsCount = 0
+
 	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
+		if nodeID == 0 {
+			continue // root is not a child of anyone
+		}
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
-- 
2.43.0


From 473d411fdde8a3625b25b84c7e5cf9f2ae892f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 14/15] fix: index load reports partially delivered data
 instead of reading missing bytes as zeroes

---
 internal/index/idx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 5718108..4801dc5 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -8,6 +8,7 @@ import (
 	"github.com/amarin/binutils"
 	"github.com/amarin/logging"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -227,6 +228,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	reader = binutils.NewBinaryReader(common.FullReader{Reader: reader})
+
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
-- 
2.43.0


From d7c3dd90d7115b4c7916823a08c43614549574b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 15/15] fix: items section without root item is refused

---
 internal/index/items.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..3ace1f3 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -33,6 +33,10 @@ func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
+	if itemListLen == 0 { // at least root item is always written
+		return fmt.Errorf("%w: items: read size: no root item", Error)
+	}
+
 	items.nextID = dag.ID(itemListLen)
 	items.items = make([]Item, int(itemListLen))
 	for idx := 0; idx < int(itemListLen); idx++ {
-- 
2.43.0

