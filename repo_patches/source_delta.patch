From f6a189eb0e686e76b663d270848bf06b09067b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 01/59] fix: encode explicit zero values of optional attributes

---
 encoding/encoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..634a6cb 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -98,6 +98,10 @@ func (e pointerEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsNil() {
 		return nil, ErrAttributeNotSet
 	}
+	if _, ok := e.sub.(rawFieldEncoder); ok {
+		// a pointer to a zero value is set explicitly to that value
+		return v.Elem().Interface(), nil
+	}
 	return e.sub.encode(v.Elem())
 }
 
-- 
2.43.0


From be76b2803d58ddd34516b7809fc7685c4c4fae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 02/59] fix: make all record types implement Record

---
 records.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/records.go b/records.go
index bba20eb..50cd99e 100644
--- a/records.go
+++ b/records.go
@@ -183,22 +183,57 @@ type ImageRecord struct {
 	BaseRecord
 }
 
+func (r ImageRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ImageRecord",
+	}
+}
+
 type IngressRecord struct {
 	BaseRecord
 }
 
+func (r IngressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "IngressRecord",
+	}
+}
+
 type EgressRecord struct {
 	BaseRecord
 }
 
+func (r EgressRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "EgressRecord",
+	}
+}
+
 type CollectorRecord struct {
 	BaseRecord
 }
 
+func (r CollectorRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "CollectorRecord",
+	}
+}
+
 type ProcessGroupRecord struct {
 	BaseRecord
 }
 
+func (r ProcessGroupRecord) GetTypeMeta() TypeMeta {
+	return TypeMeta{
+		APIVersion: apiVersion,
+		Type:       "ProcessGroupRecord",
+	}
+}
+
 type HostRecord struct {
 	BaseRecord
 	Provider *string `vflow:"10"`
-- 
2.43.0


From 1fad6814d19ff371a85aececf40cef63ce77d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/59] fix: refuse null attribute values when decoding

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..e6436ad 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -97,6 +97,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 		return fmt.Errorf("field not addressable")
 	}
 	attrV := reflect.ValueOf(attr)
+	if !attrV.IsValid() {
+		return fmt.Errorf("cannot assign null value")
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
-- 
2.43.0


From 7f387e0ac974d4357e594af98be9462a9ae9d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 04/59] fix: refuse to encode nil record pointers

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 634a6cb..c9ec77b 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -44,6 +44,9 @@ func Encode(record any) (RecordAttributeSet, error) {
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
+			if recordV.IsNil() {
+				return nil, fmt.Errorf("cannot encode nil record of type %T", record)
+			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
-- 
2.43.0


From 59e6d7839b2392f362672058f2a8d16c6358800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 05/59] fix: refuse to encode times outside of the
 representable range

---
 base.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/base.go b/base.go
index 6d1e37d..49102a3 100644
--- a/base.go
+++ b/base.go
@@ -49,6 +49,12 @@ func (b BaseRecord) Identity() string {
 	return b.ID
 }
 
+// bounds of the times that can be encoded in microseconds since the epoch
+var (
+	minTime = time.UnixMicro(0)
+	maxTime = time.UnixMicro(math.MaxInt64).Add(time.Microsecond - 1)
+)
+
 type Time struct {
 	time.Time
 }
@@ -57,8 +63,11 @@ func (t Time) EncodeRecordAttribute() (any, error) {
 	if t.Time.IsZero() {
 		return nil, encoding.ErrAttributeNotSet
 	}
+	if t.Time.After(maxTime) {
+		return nil, fmt.Errorf("time too far in future for this encoding: %s", t.Time)
+	}
 	ts := t.Time.UnixMicro()
-	if ts < 0 {
+	if ts < 0 || t.Time.Before(minTime) {
 		return nil, fmt.Errorf("cannot represent times before epoch in this encoding: %d", ts)
 	}
 	return uint64(ts), nil
-- 
2.43.0


From f3be0b0014be91d1eddc6d5adfb3a44c21141e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 06/59] fix: do not crash decoding messages without properties

---
 messages.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/messages.go b/messages.go
index 85458ea..1644ffb 100644
--- a/messages.go
+++ b/messages.go
@@ -51,6 +51,9 @@ type BeaconMessage struct {
 
 func DecodeBeacon(msg *amqp.Message) BeaconMessage {
 	var m BeaconMessage
+	if msg.Properties == nil {
+		return m
+	}
 	if msg.Properties.To != nil {
 		m.To = *msg.Properties.To
 	}
@@ -109,6 +112,9 @@ type HeartbeatMessage struct {
 
 func DecodeHeartbeat(msg *amqp.Message) HeartbeatMessage {
 	var m HeartbeatMessage
+	if msg.Properties == nil {
+		return m
+	}
 	if msg.Properties.To != nil {
 		m.To = *msg.Properties.To
 	}
@@ -149,6 +155,9 @@ type FlushMessage struct {
 
 func DecodeFlush(msg *amqp.Message) FlushMessage {
 	var flush FlushMessage
+	if msg.Properties == nil {
+		return flush
+	}
 	if msg.Properties.To != nil {
 		flush.To = *msg.Properties.To
 	}
@@ -177,6 +186,9 @@ type RecordMessage struct {
 }
 
 func DecodeRecord(msg *amqp.Message) (record RecordMessage, err error) {
+	if msg.Properties == nil {
+		return record, errors.New("cannot decode message with nil properties")
+	}
 	if msg.Properties.To != nil {
 		record.To = *msg.Properties.To
 	}
-- 
2.43.0


From 8fa5613d382e3e65f2e7fc09e35dc7ee56fb30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 07/59] fix: encode attributes of named types as plain values

---
 encoding/decoder.go |  3 +++
 encoding/encoder.go | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index e6436ad..2fbf8b8 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -100,6 +100,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 	if !attrV.IsValid() {
 		return fmt.Errorf("cannot assign null value")
 	}
+	if attrV.Type() == rawTypes[v.Kind()] {
+		attrV = attrV.Convert(v.Type())
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
diff --git a/encoding/encoder.go b/encoding/encoder.go
index c9ec77b..fb13001 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -90,7 +90,21 @@ func (e rawFieldEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsZero() {
 		return nil, ErrAttributeNotSet
 	}
-	return v.Interface(), nil
+	return rawValue(v), nil
+}
+
+// rawValue returns the value of a raw field as the plain go type that has a
+// representation in amqp, also when the field type is a named one.
+func rawValue(v reflect.Value) interface{} {
+	return v.Convert(rawTypes[v.Kind()]).Interface()
+}
+
+var rawTypes = map[reflect.Kind]reflect.Type{
+	reflect.String: reflect.TypeOf(""),
+	reflect.Uint64: reflect.TypeOf(uint64(0)),
+	reflect.Int64:  reflect.TypeOf(int64(0)),
+	reflect.Uint32: reflect.TypeOf(uint32(0)),
+	reflect.Int32:  reflect.TypeOf(int32(0)),
 }
 
 type pointerEncoder struct {
@@ -103,7 +117,7 @@ func (e pointerEncoder) encode(v reflect.Value) (interface{}, error) {
 	}
 	if _, ok := e.sub.(rawFieldEncoder); ok {
 		// a pointer to a zero value is set explicitly to that value
-		return v.Elem().Interface(), nil
+		return rawValue(v.Elem()), nil
 	}
 	return e.sub.encode(v.Elem())
 }
-- 
2.43.0


From 8f07bcb077271e3d8b0397205b7c1538713371ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 08/59] fix: never use the version of an entry for another one

---
 store/internal/cache.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..3610a46 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,9 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// version last assigned to an item. Versions are never used twice, not
+	// even for items that have been deleted.
+	version int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -57,7 +60,7 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	cc.Version = m.nextVersion()
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +84,7 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	cc.Version = m.nextVersion()
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +115,7 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.nextVersion()}
 	}
 	m.items = itemcc
 
@@ -174,6 +174,11 @@ func (m *SyncIndexedMap[T]) Index(indexName string, obj T) ([]VersionContainer[T
 	return list, nil
 }
 
+func (m *SyncIndexedMap[T]) nextVersion() int64 {
+	m.version++
+	return m.version
+}
+
 func (m *SyncIndexedMap[T]) reindex(key string, prev *T, curr T) {
 	if prev != nil {
 		m.unindex(key, *prev)
-- 
2.43.0


From 73819e69072a5657cde8aeb62698c34db9de2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 09/59] fix: key accumulated records with their type and source

---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..05ee638 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	key, err := c.keyFunc(Entry{
+		Record:   partial,
+		TypeMeta: partial.GetTypeMeta(),
+		Meta:     Metadata{Source: source},
+	})
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From 27258f3b1a8ecacfb45cbcfb708ebe33d19f3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 10/59] fix: do not report failed accumulations as additions

---
 store/cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index 05ee638..a5a373a 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -88,13 +88,16 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
 		c.eventHandlers.OnAdd(d.Next)
 	}
-	return err
+	return nil
 }
 
 func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, error error) {
-- 
2.43.0


From e5500cffc2501151f3a88559a3fed678b0ba1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 11/59] fix: return an error when records cannot be merged

---
 store/patcher.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..769739c 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -49,6 +49,13 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	}
 	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	record, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record of type %T is not a record", rawOut)
+	}
+	entry.Record = record
+	return entry, nil
 }
-- 
2.43.0


From ccac5ec9fa8a6aa9246d7635fb9516ccfd761a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 12/59] fix: compare attributes of any type

---
 store/patcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store/patcher.go b/store/patcher.go
index 769739c..d0dabca 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -2,6 +2,7 @@ package store
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/c-kruse/vanflow"
@@ -39,7 +40,7 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-		if !ok || cV != nV {
+		if !ok || !reflect.DeepEqual(cV, nV) {
 			changed = true
 			currAttrs[nK] = nV
 		}
-- 
2.43.0


From 14bdbf8c048fce52e336b84209e13c6174aa9a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 13/59] fix: dispatch records by their full type

---
 store/dispatch.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/store/dispatch.go b/store/dispatch.go
index 52bdc61..c6999e8 100644
--- a/store/dispatch.go
+++ b/store/dispatch.go
@@ -12,7 +12,7 @@ var logger = slog.With("logger", "pkg.flow.store")
 // registered by record type. Used to create a dispatcher for each event source
 // so that updates can be dispatched to the appropriate store.
 type DispatchRegistry struct {
-	reg map[string]Interface
+	reg map[vanflow.TypeMeta]Interface
 }
 
 // RegisterStore includes a store for the given record type in the registry.
@@ -20,14 +20,14 @@ type DispatchRegistry struct {
 // store.
 func (d *DispatchRegistry) RegisterStore(record vanflow.Record, stor Interface) {
 	if d.reg == nil {
-		d.reg = make(map[string]Interface)
+		d.reg = make(map[vanflow.TypeMeta]Interface)
 	}
-	d.reg[record.GetTypeMeta().String()] = stor
+	d.reg[record.GetTypeMeta()] = stor
 }
 
 // NewDispatcher creates a new dispatcher for that source
 func (d DispatchRegistry) NewDispatcher(source SourceRef) Dispatcher {
-	accum := make(map[string]RecordAccumulator, len(d.reg))
+	accum := make(map[vanflow.TypeMeta]RecordAccumulator, len(d.reg))
 	for k, v := range d.reg {
 		accum[k] = v
 	}
@@ -41,13 +41,13 @@ func (d DispatchRegistry) NewDispatcher(source SourceRef) Dispatcher {
 // to multiple configured stores based on the record's type.
 type Dispatcher struct {
 	source       SourceRef
-	accumulators map[string]RecordAccumulator
+	accumulators map[vanflow.TypeMeta]RecordAccumulator
 }
 
 // Dispatch each record in the message to the configured store.
 func (d Dispatcher) Dispatch(msg vanflow.RecordMessage) {
 	for _, record := range msg.Records {
-		typ := record.GetTypeMeta().String()
+		typ := record.GetTypeMeta()
 		acc, found := d.accumulators[typ]
 		if !found {
 			logger.Debug("dispatcher not configured with store for record type", "type", typ)
-- 
2.43.0


From a4f911e160ddf4a9e3f2f06407b549de36115847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 14/59] fix: do not crash on negative offsets

---
 store/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/cache.go b/store/cache.go
index a5a373a..908869e 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -134,6 +134,9 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 		}
 	}
 
+	if offset < 0 {
+		offset = 0
+	}
 	if offset >= len(result.Entries) {
 		result.Entries = result.Entries[0:0] // empty resultset
 	} else {
-- 
2.43.0


From dc12faf756c92d7afe4df902cff7b67d93026781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 15/59] fix: continue listing after the last entry returned

---
 store/cache.go    | 13 ++++++++++---
 store/continue.go | 46 ++++++++++++++++++++++++----------------------
 2 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/store/cache.go b/store/cache.go
index 908869e..63099d9 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -127,11 +127,17 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 	})
 	offset := sel.Offset
 	if sel.Continue != "" {
-		var err error
-		offset, err = decodeCacheContinue(sel.Continue)
+		last, err := decodeCacheContinue(sel.Continue)
 		if err != nil {
 			return result, err
 		}
+		offset = sort.Search(len(result.Entries), func(i int) bool {
+			key, _ := c.keyFunc(result.Entries[i])
+			if sel.Ordering == Descending {
+				return key < last
+			}
+			return key > last
+		})
 	}
 
 	if offset < 0 {
@@ -145,7 +151,8 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 
 	if sel.Limit > 0 && len(result.Entries) > sel.Limit {
 		result.Entries = result.Entries[:sel.Limit]
-		result.Continue = encodeCacheContinue(offset + sel.Limit)
+		last, _ := c.keyFunc(result.Entries[sel.Limit-1])
+		result.Continue = encodeCacheContinue(last)
 	}
 	return result, nil
 }
diff --git a/store/continue.go b/store/continue.go
index 5bb2f76..87467c0 100644
--- a/store/continue.go
+++ b/store/continue.go
@@ -1,38 +1,40 @@
 package store
 
 import (
-	"bytes"
 	"encoding/base64"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"time"
 )
 
-type cacheContinueToken struct {
-	// Nonce present only to make forging continue tokens inconvenient so that
-	// they may remain opquqe for future store implementations. Not a secuirty
-	// measure.
-	Nonce  int64
-	Offset int32
-}
+// continue tokens are made up of
+//   - A nonce present only to make forging continue tokens inconvenient so that
+//     they may remain opquqe for future store implementations. Not a secuirty
+//     measure.
+//   - The length of the key.
+//   - The key of the last entry returned. The following page starts after it,
+//     no matter what was added or deleted meanwhile.
+const continueHeaderLen = 8 + 4
 
-func decodeCacheContinue(token string) (int, error) {
+func decodeCacheContinue(token string) (string, error) {
 	out, err := base64.StdEncoding.DecodeString(token)
 	if err != nil {
-		return 0, fmt.Errorf("invalid continue token: %s", err)
+		return "", fmt.Errorf("invalid continue token: %s", err)
+	}
+	if len(out) < continueHeaderLen {
+		return "", errors.New("invalid continue token: too short")
 	}
-	buf := bytes.NewReader(out)
-	var container cacheContinueToken
-	err = binary.Read(buf, binary.LittleEndian, &container)
-	return int(container.Offset), err
+	key := out[continueHeaderLen:]
+	if uint64(binary.LittleEndian.Uint32(out[8:])) != uint64(len(key)) {
+		return "", errors.New("invalid continue token: unexpected length")
+	}
+	return string(key), nil
 }
 
-func encodeCacheContinue(offset int) string {
-	token := cacheContinueToken{
-		Nonce:  time.Now().Unix(),
-		Offset: int32(offset),
-	}
-	var buf bytes.Buffer
-	binary.Write(&buf, binary.LittleEndian, token)
-	return base64.StdEncoding.EncodeToString(buf.Bytes())
+func encodeCacheContinue(lastKey string) string {
+	out := make([]byte, continueHeaderLen, continueHeaderLen+len(lastKey))
+	binary.LittleEndian.PutUint64(out, uint64(time.Now().Unix()))
+	binary.LittleEndian.PutUint32(out[8:], uint32(len(lastKey)))
+	return base64.StdEncoding.EncodeToString(append(out, lastKey...))
 }
-- 
2.43.0


From f40522d14e6f24d8534188a74aa2eae8b035f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 16/59] fix: let clients be closed repeatedly and with busy
 handlers

---
 eventsource/client.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..e8b0b2c 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -26,6 +26,7 @@ type Client struct {
 	eventSource Info
 
 	lock              sync.Mutex
+	closed            bool
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
@@ -39,19 +40,10 @@ type ClientOptions struct {
 }
 
 func NewClient(container session.Container, cfg ClientOptions) *Client {
-	c := &Client{
+	return &Client{
 		container:   container,
 		eventSource: cfg.Source,
 	}
-	c.start()
-	return c
-}
-
-func (c *Client) start() {
-	c.lock.Lock()
-	defer c.lock.Unlock()
-	done := make(chan struct{})
-	c.cleanup = append(c.cleanup, func() { close(done) })
 }
 
 type HeartbeatMessageHandler func(vanflow.HeartbeatMessage)
@@ -83,14 +75,16 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 
 // Listen instructs the Client to listen to an event source using the specified
 // listener configuration until the context is cancelled or client.Close() is
-// called.
+// called. Returns an error when the client has already been closed.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
-	listenerCtx, listenerCancel := context.WithCancel(ctx)
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	if c.closed {
+		return errors.New("client closed")
+	}
+	listenerCtx, listenerCancel := context.WithCancel(ctx)
 	c.cleanup = append(c.cleanup, listenerCancel)
+	c.wg.Add(1)
 
 	go func(ctx context.Context) {
 		defer c.wg.Done()
@@ -136,13 +130,18 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 	return nil
 }
 
-// Close stops all listeners
+// Close stops all listeners and waits for them to finish. It must not be called
+// from a message handler.
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
-	for _, cancel := range c.cleanup {
+	c.closed = true
+	cleanup := c.cleanup
+	c.cleanup = nil
+	c.lock.Unlock()
+	for _, cancel := range cleanup {
 		cancel()
 	}
+	// handlers may need the lock to finish
 	c.wg.Wait()
 }
 
-- 
2.43.0


From 1800144639c801382daac859c8564421457af842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 17/59] fix: do not crash on beacon address messages without
 subject

---
 eventsource/discovery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..f79a04d 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -61,8 +61,8 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
-		if *msg.Properties.Subject != "BEACON" {
-			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
+		if msg.Properties == nil || msg.Properties.Subject == nil || *msg.Properties.Subject != "BEACON" {
+			slog.Info("received non-beacon from beacon source", slog.Any("properties", msg.Properties))
 			continue
 		}
 		d.observe(vanflow.DecodeBeacon(msg))
-- 
2.43.0


From 4b59ff319c3ae7ffee02571bdde1aca787c8cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 18/59] fix: report discovery events in order and without
 blocking

---
 eventsource/discovery.go | 59 +++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index f79a04d..34e80c9 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -19,11 +19,18 @@ type Discovery struct {
 	container     session.Container
 	lock          sync.Mutex
 	state         map[string]Info
-	discovered    chan Info
-	forgotten     chan Info
+	events        []discoveryEvent
+	eventsReady   chan struct{}
 	beaconAddress string
 }
 
+// discoveryEvent is a change to the set of known sources that has not been
+// reported yet.
+type discoveryEvent struct {
+	forgotten bool
+	source    Info
+}
+
 type DiscoveryHandlers struct {
 	Discovered func(source Info)
 	Forgotten  func(source Info)
@@ -40,8 +47,7 @@ func NewDiscovery(container session.Container, opts DiscoveryOptions) *Discovery
 	return &Discovery{
 		container:     container,
 		state:         make(map[string]Info),
-		discovered:    make(chan Info, 32),
-		forgotten:     make(chan Info, 32),
+		eventsReady:   make(chan struct{}, 1),
 		beaconAddress: opts.BeaconAddress,
 	}
 }
@@ -74,18 +80,45 @@ func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandl
 		select {
 		case <-ctx.Done():
 			return
-		case info := <-d.discovered:
-			if handlers.Discovered != nil {
-				handlers.Discovered(info)
+		case <-d.eventsReady:
+		}
+		for ctx.Err() == nil {
+			event, ok := d.nextEvent()
+			if !ok {
+				break
 			}
-		case info := <-d.forgotten:
-			if handlers.Forgotten != nil {
-				handlers.Forgotten(info)
+			handler := handlers.Discovered
+			if event.forgotten {
+				handler = handlers.Forgotten
+			}
+			if handler != nil {
+				handler(event.source)
 			}
 		}
 	}
 }
 
+// enqueue an event. Must be called with the lock held, so that events are
+// queued in the order of the changes. Never blocks.
+func (d *Discovery) enqueue(event discoveryEvent) {
+	d.events = append(d.events, event)
+	select {
+	case d.eventsReady <- struct{}{}:
+	default:
+	}
+}
+
+func (d *Discovery) nextEvent() (event discoveryEvent, ok bool) {
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	if len(d.events) == 0 {
+		return event, false
+	}
+	event = d.events[0]
+	d.events = d.events[1:]
+	return event, true
+}
+
 // Get an EventSource by ID
 func (d *Discovery) Get(id string) (source Info, ok bool) {
 	d.lock.Lock()
@@ -105,7 +138,7 @@ func (d *Discovery) Add(info Info) bool {
 		return false
 	}
 	d.state[info.ID] = info
-	d.discovered <- info
+	d.enqueue(discoveryEvent{source: info})
 	return true
 }
 
@@ -120,7 +153,7 @@ func (d *Discovery) Forget(id string) bool {
 	state, forget = d.state[id]
 	delete(d.state, id)
 	if forget {
-		d.forgotten <- state
+		d.enqueue(discoveryEvent{forgotten: true, source: state})
 	}
 	return forget
 }
@@ -280,7 +313,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
 	if discovered {
-		d.discovered <- state
+		d.enqueue(discoveryEvent{source: state})
 	}
 }
 
-- 
2.43.0


From e258d23d031d863a7681b0937e55d18445b8e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 19/59] fix: compare attributes of any type when publishing
 updates

---
 eventsource/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..8444cff 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"log/slog"
+	"reflect"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -121,7 +122,7 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 			delta[k] = next[k]
 			continue
 		}
-		if next[k] != pv {
+		if !reflect.DeepEqual(next[k], pv) {
 			isDiff = true
 			delta[k] = next[k]
 		}
-- 
2.43.0


From 241739b91d3e8872ab610a7749cd859d2ab4444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 20/59] fix: bound the time sending a keepalive may take

---
 eventsource/manager.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 8444cff..ab3ad99 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -331,11 +331,9 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
-	if err != nil {
-		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
-			return errSendTimeoutExceeded
-		}
+	err := sender.Send(requestCtx, msg)
+	if err != nil && requestCtx.Err() != nil && ctx.Err() == nil {
+		return errSendTimeoutExceeded
 	}
 	return err
 }
-- 
2.43.0


From b4110c8012251a3d9904ec1005f1e88b02cf5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 21/59] fix: stop sending the initial beacon when cancelled

---
 eventsource/manager.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ab3ad99..7aa085a 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -259,22 +259,35 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	heartbeatSender := m.container.NewSender(heartbeatAddr, session.SenderOptions{})
 	defer heartbeatSender.Close(ctx)
 
+	messageDeliveryTimeout := heartbeatInterval
+	if messageDeliveryTimeout > beaconInterval {
+		messageDeliveryTimeout = beaconInterval
+	}
+
 	// start with sending beacon
 	for {
-		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
-			slog.Error("error sending initial beacon message", slog.Any("error", err))
+		err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode())
+		if err == nil {
+			break
+		}
+		if ctx.Err() != nil {
+			return
+		}
+		slog.Error("error sending initial beacon message", slog.Any("error", err))
+		if errors.Is(err, errSendTimeoutExceeded) {
 			continue
 		}
-		break
-	}
-
-	messageDeliveryTimeout := heartbeatInterval
-	if messageDeliveryTimeout > beaconInterval {
-		messageDeliveryTimeout = beaconInterval
+		select {
+		case <-ctx.Done():
+			return
+		case <-time.After(messageDeliveryTimeout):
+		}
 	}
 
 	beaconTimer := time.NewTicker(beaconInterval)
+	defer beaconTimer.Stop()
 	heartbeatTimer := time.NewTicker(heartbeatInterval)
+	defer heartbeatTimer.Stop()
 	heartbeatTimeouts := 0
 	firstHeartbeatSent := false
 	for {
-- 
2.43.0


From 77f99d3a51de5cde6f7eb5da5bd7aad826a29f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 22/59] fix: do not take receive errors for flush messages

---
 eventsource/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 7aa085a..2b46219 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -326,10 +326,11 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 	for {
 		msg, err := flushReceiver.Next(ctx)
 		if err != nil {
-			if errors.Is(err, ctx.Err()) {
+			if ctx.Err() != nil {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
 		select {
-- 
2.43.0


From 4e18e25beda28ef511af50a09733e31f7a293eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 23/59] fix: skip stores that cannot be listed on flush

---
 eventsource/manager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 2b46219..e1e6548 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -197,11 +197,14 @@ func (m *Manager) serve(ctx context.Context) {
 				stor := flushStoreQ[0]
 				result, err := stor.List(ctx, selector)
 				if err != nil {
-					if errors.Is(err, ctx.Err()) {
+					if ctx.Err() != nil {
 						return
 					}
 					slog.Error("flush error listing resources", slog.Any("error", err))
-					continue // probably bad.
+					// carry on with the next store
+					selector.Continue = ""
+					flushStoreQ = flushStoreQ[1:]
+					continue
 				}
 				selector.Continue = result.Continue
 				if result.Continue == "" {
-- 
2.43.0


From 2b10888cf5f6e887775015eaddf82906604784d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 24/59] fix: refuse to encode strings that are not valid utf-8

---
 encoding/encoder.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index fb13001..863cc38 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"unicode/utf8"
 )
 
 type encodingError string
@@ -90,13 +91,17 @@ func (e rawFieldEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsZero() {
 		return nil, ErrAttributeNotSet
 	}
-	return rawValue(v), nil
+	return rawValue(v)
 }
 
 // rawValue returns the value of a raw field as the plain go type that has a
-// representation in amqp, also when the field type is a named one.
-func rawValue(v reflect.Value) interface{} {
-	return v.Convert(rawTypes[v.Kind()]).Interface()
+// representation in amqp, also when the field type is a named one. Fails when
+// there is no such representation.
+func rawValue(v reflect.Value) (interface{}, error) {
+	if v.Kind() == reflect.String && !utf8.ValidString(v.String()) {
+		return nil, errors.New("string is not valid utf-8")
+	}
+	return v.Convert(rawTypes[v.Kind()]).Interface(), nil
 }
 
 var rawTypes = map[reflect.Kind]reflect.Type{
@@ -117,7 +122,7 @@ func (e pointerEncoder) encode(v reflect.Value) (interface{}, error) {
 	}
 	if _, ok := e.sub.(rawFieldEncoder); ok {
 		// a pointer to a zero value is set explicitly to that value
-		return rawValue(v.Elem()), nil
+		return rawValue(v.Elem())
 	}
 	return e.sub.encode(v.Elem())
 }
-- 
2.43.0


From 00444bf42a298b938f58b17784053b6a1911ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 25/59] fix: do not drop records because of another one

---
 eventsource/manager.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index e1e6548..217116d 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -88,8 +88,14 @@ func (m *Manager) sendRecords(ctx context.Context) {
 		case record := <-m.sendQueue:
 			msg, err := record.Encode()
 			if err != nil {
-				slog.Error("skipping record message after encoding error:", slog.Any("error", err))
-				continue
+				record.Records = encodable(record.Records)
+				if len(record.Records) == 0 {
+					continue
+				}
+				if msg, err = record.Encode(); err != nil {
+					slog.Error("skipping record message after encoding error:", slog.Any("error", err))
+					continue
+				}
 			}
 			if err := sender.Send(ctx, msg); err != nil {
 				slog.Error("error sending event source record", slog.Any("error", err))
@@ -99,6 +105,19 @@ func (m *Manager) sendRecords(ctx context.Context) {
 	}
 }
 
+// encodable returns the records that can be encoded.
+func encodable(records []vanflow.Record) []vanflow.Record {
+	out := make([]vanflow.Record, 0, len(records))
+	for _, record := range records {
+		if _, err := encoding.Encode(record); err != nil {
+			slog.Error("skipping record after encoding error:", slog.Any("error", err))
+			continue
+		}
+		out = append(out, record)
+	}
+	return out
+}
+
 func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	if d.Prev == nil {
 		return d.Curr, true
-- 
2.43.0


From aea3039998a790880be996108c065207756bc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 26/59] fix: publish updates of records that could not be sent
 before

---
 eventsource/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 217116d..1d46cd6 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -124,8 +124,9 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	}
 	prev, err := encoding.Encode(d.Prev)
 	if err != nil {
+		// has never been sent. Send the current record in full
 		slog.Error("record update diff error encoding prev", slog.Any("error", err))
-		return nil, false
+		return d.Curr, true
 	}
 	next, err := encoding.Encode(d.Curr)
 	if err != nil {
-- 
2.43.0


From 17b1874a05a4b79b629d1de9d69b2373d1346843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 27/59] fix: do not let receivers of the mock router hold up
 others

---
 session/mock.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..299f89c 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -92,13 +92,16 @@ func newMulticast() *multicast {
 func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
 	m.mu.Lock()
 	update := m.update
-	var sent bool
-	for _, r := range m.receivers {
-		sent = true
-		r.send(msg)
-	}
+	receivers := make([]*mockReceiver, len(m.receivers))
+	copy(receivers, m.receivers)
 	m.mu.Unlock()
-	if !sent {
+	// receivers may be slow to make room
+	for _, r := range receivers {
+		if err := r.send(ctx, msg); err != nil {
+			return err
+		}
+	}
+	if len(receivers) == 0 {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
@@ -123,14 +126,22 @@ type mockReceiver struct {
 	done      chan struct{}
 }
 
-func (r *mockReceiver) send(msg *amqp.Message) {
+func (r *mockReceiver) send(ctx context.Context, msg *amqp.Message) error {
 	select {
 	case <-r.done:
-		return
+		return nil
 	default:
-		r.channel <- msg
+	}
+	select {
+	case <-r.done:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case r.channel <- msg:
+		return nil
 	}
 }
+
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 57dd2e6a65130d7585984c72460a523a2364498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 28/59] fix: honour the credit asked for by receivers

---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From c062bd5b6b1203048c69f9afbcfd61cb9c4395aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 29/59] fix: do not use links that lost their session

---
 session/container.go | 58 ++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/session/container.go b/session/container.go
index 154bb0b..69d9e0e 100644
--- a/session/container.go
+++ b/session/container.go
@@ -288,7 +288,11 @@ type link struct {
 	snd     *amqp.Sender
 }
 
-var errLinkClosed = errors.New("link closed")
+var (
+	errLinkClosed = errors.New("link closed")
+	// errNoSession indicates that a link lost its session since waiting for it
+	errNoSession = errors.New("no session")
+)
 
 func (r *link) awaitSession(ctx context.Context) error {
 	r.mu.Lock()
@@ -305,40 +309,50 @@ func (r *link) awaitSession(ctx context.Context) error {
 		return err
 	}
 	r.mu.Lock()
-	r.curr, r.currGen = next, nextGen
-	r.mu.Unlock()
+	defer r.mu.Unlock()
+	if r.currGen == currGen {
+		r.curr, r.currGen = next, nextGen
+	}
 	return nil
 }
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return fmt.Errorf("session await error: %w", err)
+	}
+	rcv, gen, err := r.getReceiver(ctx)
+	if errors.Is(err, errNoSession) {
+		return r.withReceiver(ctx, fn)
 	}
-	rcv, currGen, err := r.getReceiver(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, gen, fmt.Errorf("receiver create error: %w", err))
 	}
-	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+	if err := fn(rcv, gen); err != nil {
+		return r.handleError(ctx, gen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
 	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+		return fmt.Errorf("session await error: %w", err)
+	}
+	snd, gen, err := r.getSender(ctx)
+	if errors.Is(err, errNoSession) {
+		return r.withSender(ctx, fn)
 	}
-	snd, currGen, err := r.getSender(ctx)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, gen, fmt.Errorf("sender create error: %w", err))
 	}
-	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+	if err := fn(snd, gen); err != nil {
+		return r.handleError(ctx, gen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
+// handleError reports an error encountered using the session of generation gen
+// to the container.
+func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	if errors.Is(err, ctx.Err()) {
 		return err
 	}
@@ -346,24 +360,29 @@ func (r *link) handleError(ctx context.Context, err error) error {
 		return err
 	}
 	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
+		Generation: gen,
 		Err:        err,
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	if r.currGen == gen {
+		r.curr, r.rcv, r.snd = nil, nil, nil
+	}
 	return err
 }
 
 func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.curr == nil {
+		return nil, 0, errNoSession
+	}
 	if r.rcv != nil && r.rcvGen == r.currGen {
 		return r.rcv, r.rcvGen, nil
 	}
 	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.rcv, r.rcvGen = rcv, r.currGen
 	return r.rcv, r.rcvGen, nil
@@ -372,12 +391,15 @@ func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
 func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.curr == nil {
+		return nil, 0, errNoSession
+	}
 	if r.snd != nil && r.sndGen == r.currGen {
 		return r.snd, r.sndGen, nil
 	}
 	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
-		return nil, 0, err
+		return nil, r.currGen, err
 	}
 	r.snd, r.sndGen = snd, r.currGen
 	return r.snd, r.sndGen, nil
-- 
2.43.0


From 92e6302fd09d0248f4830bd95955cc0bdc231704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 30/59] fix: do not wait for the end of replaced sessions

---
 session/container.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/session/container.go b/session/container.go
index 69d9e0e..cdd9edc 100644
--- a/session/container.go
+++ b/session/container.go
@@ -143,6 +143,10 @@ func (c *container) awaitNextSession(ctx context.Context, prev int) (session *am
 	}
 }
 
+// sessionCloseTimeout bounds the time to wait for the peer to acknowledge the
+// end of a session before its connection is closed
+const sessionCloseTimeout = time.Second * 5
+
 type sessionErr struct {
 	Generation int
 	Err        error
@@ -185,9 +189,12 @@ func (c *container) Start(ctx context.Context) {
 				c.sess, c.gen, c.hasNext = sess, generation, make(chan struct{})
 				c.mu.Unlock()
 
-				prevSessionTeardown()
+				// do not wait for the previous peer, it may never answer
+				go prevSessionTeardown()
 				prevSessionTeardown = func() {
-					sess.Close(ctx)
+					closeCtx, cancel := context.WithTimeout(ctx, sessionCloseTimeout)
+					defer cancel()
+					sess.Close(closeCtx)
 					conn.Close()
 				}
 
-- 
2.43.0


From 589d03fc7c9cc91d9a12314edf0df259c987ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 31/59] fix: do not report cancelled calls as session failures

The errors of calls that ended with their context were reported when go-amqp
returned another error, and calls blocked regardless of their context once
enough errors were queued.
---
 session/container.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/session/container.go b/session/container.go
index cdd9edc..4e0b67b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -360,15 +360,21 @@ func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, gene
 // handleError reports an error encountered using the session of generation gen
 // to the container.
 func (r *link) handleError(ctx context.Context, gen int, err error) error {
-	if errors.Is(err, ctx.Err()) {
-		return err
+	if ctxErr := ctx.Err(); ctxErr != nil {
+		// the caller gave up, which go-amqp may report as other kinds of
+		// errors. Actual failures will be encountered again.
+		if errors.Is(err, ctxErr) {
+			return err
+		}
+		return fmt.Errorf("%w: %w", ctxErr, err)
 	}
 	if errors.Is(err, errLinkClosed) {
 		return err
 	}
-	r.sessionErrors <- sessionErr{
-		Generation: gen,
-		Err:        err,
+	select {
+	case r.sessionErrors <- sessionErr{Generation: gen, Err: err}:
+	case <-ctx.Done():
+		return fmt.Errorf("%w: %w", ctx.Err(), err)
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
-- 
2.43.0


From b12912907d76a99782d25377e3bba9ab0b1c3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 32/59] fix: do not pass deadlines of calls on to go-amqp

It uses them as the deadlines of writes to the connection, and a call with a
passing deadline could fail the connection.
---
 session/container.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/session/container.go b/session/container.go
index 4e0b67b..1f7f944 100644
--- a/session/container.go
+++ b/session/container.go
@@ -418,7 +418,19 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	return r.snd, r.sndGen, nil
 }
 
+// noDeadline hides the deadline of a context. go-amqp uses deadlines as those of
+// writes to the connection, so that one passing at the wrong moment fails the
+// connection for all of its users.
+type noDeadline struct {
+	context.Context
+}
+
+func (noDeadline) Deadline() (deadline time.Time, ok bool) {
+	return time.Time{}, false
+}
+
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
+	ctx = noDeadline{ctx}
 	var (
 		result *amqp.Message
 	)
@@ -437,6 +449,7 @@ func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 }
 
 func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
+	ctx = noDeadline{ctx}
 	var (
 		acceptErr  error
 		generation int
@@ -461,6 +474,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 }
 
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
+	ctx = noDeadline{ctx}
 	var generation int
 	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
 		generation = gen
-- 
2.43.0


From 19b58faa924921bb28fcf2f49ada12c9fa5f4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 33/59] fix: attach links independently of the calls waiting
 for it

Attaching held the lock of the link, which calls on it waited for regardless
of their contexts, and attaches abandoned by their calls are cleaned up twice
by go-amqp, which fails the connection.
---
 session/container.go | 97 ++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 34 deletions(-)

diff --git a/session/container.go b/session/container.go
index 1f7f944..8606b73 100644
--- a/session/container.go
+++ b/session/container.go
@@ -285,14 +285,11 @@ type link struct {
 
 	container *container
 
-	mu      sync.Mutex
-	closed  bool
-	currGen int
-	curr    *amqp.Session
-	rcvGen  int
-	rcv     *amqp.Receiver
-	sndGen  int
-	snd     *amqp.Sender
+	mu       sync.Mutex
+	closed   bool
+	currGen  int
+	curr     *amqp.Session
+	attached *attachment
 }
 
 var (
@@ -379,43 +376,67 @@ func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	if r.currGen == gen {
-		r.curr, r.rcv, r.snd = nil, nil, nil
+		r.curr, r.attached = nil, nil
 	}
 	return err
 }
 
-func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
+// attachment is the receiver or sender of a link on one session
+type attachment struct {
+	gen  int
+	done chan struct{} // closed once the fields below are set
+	rcv  *amqp.Receiver
+	snd  *amqp.Sender
+	err  error
+}
+
+// attach returns the attachment of the link to its current session. It does
+// not depend on the calls waiting for it: abandoned by go-amqp, the link would
+// be left in an unknown state.
+func (r *link) attach(ctx context.Context, create func(session *amqp.Session, a *attachment) error) (*attachment, int, error) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
 	if r.curr == nil {
+		r.mu.Unlock()
 		return nil, 0, errNoSession
 	}
-	if r.rcv != nil && r.rcvGen == r.currGen {
-		return r.rcv, r.rcvGen, nil
+	a := r.attached
+	if a == nil || a.gen != r.currGen {
+		a = &attachment{gen: r.currGen, done: make(chan struct{})}
+		r.attached = a
+		go func(session *amqp.Session) {
+			defer close(a.done)
+			a.err = create(session, a)
+		}(r.curr)
+	}
+	r.mu.Unlock()
+	select {
+	case <-a.done:
+		return a, a.gen, a.err
+	case <-ctx.Done():
+		return nil, a.gen, ctx.Err()
 	}
-	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
+}
+
+func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
+	a, gen, err := r.attach(ctx, func(session *amqp.Session, a *attachment) (err error) {
+		a.rcv, err = session.NewReceiver(context.Background(), r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
+		return err
+	})
 	if err != nil {
-		return nil, r.currGen, err
+		return nil, gen, err
 	}
-	r.rcv, r.rcvGen = rcv, r.currGen
-	return r.rcv, r.rcvGen, nil
+	return a.rcv, gen, nil
 }
 
 func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.curr == nil {
-		return nil, 0, errNoSession
-	}
-	if r.snd != nil && r.sndGen == r.currGen {
-		return r.snd, r.sndGen, nil
-	}
-	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
+	a, gen, err := r.attach(ctx, func(session *amqp.Session, a *attachment) (err error) {
+		a.snd, err = session.NewSender(context.Background(), r.address, &r.senderOpts)
+		return err
+	})
 	if err != nil {
-		return nil, r.currGen, err
+		return nil, gen, err
 	}
-	r.snd, r.sndGen = snd, r.currGen
-	return r.snd, r.sndGen, nil
+	return a.snd, gen, nil
 }
 
 // noDeadline hides the deadline of a context. go-amqp uses deadlines as those of
@@ -495,12 +516,20 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 
 func (r *link) Close(ctx context.Context) error {
 	r.mu.Lock()
-	defer r.mu.Unlock()
 	r.closed = true
-	rcv := r.rcv
-	r.curr, r.rcv, r.snd = nil, nil, nil
-	if rcv != nil {
-		return rcv.Close(ctx)
+	a := r.attached
+	r.curr, r.attached = nil, nil
+	r.mu.Unlock()
+	if a == nil {
+		return nil
+	}
+	select {
+	case <-a.done:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+	if a.rcv != nil {
+		return a.rcv.Close(ctx)
 	}
 	return nil
 }
-- 
2.43.0


From b916219f7f53775f0bd5892c7f4437fdae0728f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 34/59] fix: return from sends once their context is done

go-amqp also waits for the network, for other sends on the link waiting for
credit, and for ever when cancelling a write as the session ends.
---
 session/container.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/session/container.go b/session/container.go
index 8606b73..985e93c 100644
--- a/session/container.go
+++ b/session/container.go
@@ -494,13 +494,25 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 	return err
 }
 
+// send returns once its context is done, whereas go-amqp also waits for the
+// network and for other sends, which may lack credit.
+func send(ctx context.Context, snd *amqp.Sender, msg *amqp.Message) error {
+	result := make(chan error, 1)
+	go func() { result <- snd.Send(ctx, msg, nil) }()
+	select {
+	case err := <-result:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	ctx = noDeadline{ctx}
 	var generation int
 	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
 		generation = gen
-		err := snd.Send(ctx, msg, nil)
-		if err != nil {
+		if err := send(ctx, snd, msg); err != nil {
 			return fmt.Errorf("send error: %w", err)
 		}
 		return nil
-- 
2.43.0


From 65ead3250af7919f1973a412069936374fb40e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 35/59] fix: return from accepts once their context is done

---
 session/container.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/session/container.go b/session/container.go
index 985e93c..ea5202a 100644
--- a/session/container.go
+++ b/session/container.go
@@ -450,6 +450,20 @@ func (noDeadline) Deadline() (deadline time.Time, ok bool) {
 	return time.Time{}, false
 }
 
+// awaitResult returns the result of call or the error of the context, whichever
+// comes first. go-amqp also waits for the network and for other calls, that may
+// lack credit, regardless of the context.
+func awaitResult(ctx context.Context, call func() error) error {
+	result := make(chan error, 1)
+	go func() { result <- call() }()
+	select {
+	case err := <-result:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 	ctx = noDeadline{ctx}
 	var (
@@ -477,7 +491,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 	)
 	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, gen int) error {
 		generation = gen
-		acceptErr = rcv.AcceptMessage(ctx, msg)
+		acceptErr = awaitResult(ctx, func() error { return rcv.AcceptMessage(ctx, msg) })
 		// accepting messages is a stateful operation, so don't report the error back
 		// to the container and signal a connection teardown
 		return nil
@@ -494,25 +508,12 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 	return err
 }
 
-// send returns once its context is done, whereas go-amqp also waits for the
-// network and for other sends, which may lack credit.
-func send(ctx context.Context, snd *amqp.Sender, msg *amqp.Message) error {
-	result := make(chan error, 1)
-	go func() { result <- snd.Send(ctx, msg, nil) }()
-	select {
-	case err := <-result:
-		return err
-	case <-ctx.Done():
-		return ctx.Err()
-	}
-}
-
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	ctx = noDeadline{ctx}
 	var generation int
 	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
 		generation = gen
-		if err := send(ctx, snd, msg); err != nil {
+		if err := awaitResult(ctx, func() error { return snd.Send(ctx, msg, nil) }); err != nil {
 			return fmt.Errorf("send error: %w", err)
 		}
 		return nil
-- 
2.43.0


From 6e1125d84611705dc2f5ba21722d79c0270aef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 36/59] fix: detach links and end their calls when they are
 closed

---
 session/container.go | 91 ++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/session/container.go b/session/container.go
index ea5202a..b0e7353 100644
--- a/session/container.go
+++ b/session/container.go
@@ -272,6 +272,7 @@ func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions)
 		curr:          c.sess,
 		currGen:       c.gen,
 	}
+	l.closed, l.close = context.WithCancel(context.Background())
 	return l
 }
 
@@ -285,8 +286,10 @@ type link struct {
 
 	container *container
 
+	closed context.Context // done once the link is closed
+	close  context.CancelFunc
+
 	mu       sync.Mutex
-	closed   bool
 	currGen  int
 	curr     *amqp.Session
 	attached *attachment
@@ -300,9 +303,9 @@ var (
 
 func (r *link) awaitSession(ctx context.Context) error {
 	r.mu.Lock()
-	curr, currGen, closed := r.curr, r.currGen, r.closed
+	curr, currGen := r.curr, r.currGen
 	r.mu.Unlock()
-	if closed {
+	if r.closed.Err() != nil {
 		return errLinkClosed
 	}
 	if curr != nil {
@@ -310,10 +313,16 @@ func (r *link) awaitSession(ctx context.Context) error {
 	}
 	next, nextGen, err := r.container.awaitNextSession(ctx, currGen)
 	if err != nil {
+		if r.closed.Err() != nil {
+			return errLinkClosed
+		}
 		return err
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.closed.Err() != nil {
+		return errLinkClosed
+	}
 	if r.currGen == currGen {
 		r.curr, r.currGen = next, nextGen
 	}
@@ -357,6 +366,9 @@ func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, gene
 // handleError reports an error encountered using the session of generation gen
 // to the container.
 func (r *link) handleError(ctx context.Context, gen int, err error) error {
+	if r.closed.Err() != nil {
+		return fmt.Errorf("%w: %s", errLinkClosed, err)
+	}
 	if ctxErr := ctx.Err(); ctxErr != nil {
 		// the caller gave up, which go-amqp may report as other kinds of
 		// errors. Actual failures will be encountered again.
@@ -365,9 +377,6 @@ func (r *link) handleError(ctx context.Context, gen int, err error) error {
 		}
 		return fmt.Errorf("%w: %w", ctxErr, err)
 	}
-	if errors.Is(err, errLinkClosed) {
-		return err
-	}
 	select {
 	case r.sessionErrors <- sessionErr{Generation: gen, Err: err}:
 	case <-ctx.Done():
@@ -439,6 +448,17 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 	return a.snd, gen, nil
 }
 
+// callContext returns the context for a call on the link, done when ctx is done
+// or the link is closed.
+func (r *link) callContext(ctx context.Context) (context.Context, context.CancelFunc) {
+	ctx, cancel := context.WithCancel(noDeadline{ctx})
+	stop := context.AfterFunc(r.closed, cancel)
+	return ctx, func() {
+		stop()
+		cancel()
+	}
+}
+
 // noDeadline hides the deadline of a context. go-amqp uses deadlines as those of
 // writes to the connection, so that one passing at the wrong moment fails the
 // connection for all of its users.
@@ -465,26 +485,27 @@ func awaitResult(ctx context.Context, call func() error) error {
 }
 
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
-	ctx = noDeadline{ctx}
-	var (
-		result *amqp.Message
-	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
-		msg, err := rcv.Receive(ctx, nil)
-		if err != nil {
-			return fmt.Errorf("receive error: %w", err)
+	ctx, cancel := r.callContext(ctx)
+	defer cancel()
+	for {
+		var result *amqp.Message
+		err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
+			msg, err := rcv.Receive(ctx, nil)
+			if err != nil {
+				return fmt.Errorf("receive error: %w", err)
+			}
+			result = msg
+			return nil
+		})
+		if err == nil || ctx.Err() != nil {
+			return result, err
 		}
-		result = msg
-		return nil
-	})
-	if err != nil && ctx.Err() == nil {
-		return r.Next(ctx)
 	}
-	return result, err
 }
 
 func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
-	ctx = noDeadline{ctx}
+	ctx, cancel := r.callContext(ctx)
+	defer cancel()
 	var (
 		acceptErr  error
 		generation int
@@ -497,6 +518,9 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		return nil
 	})
 	if acceptErr != nil {
+		if r.closed.Err() != nil {
+			return fmt.Errorf("%w: %s", errLinkClosed, acceptErr)
+		}
 		return acceptErr
 	}
 	if err == nil {
@@ -509,7 +533,8 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 }
 
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
-	ctx = noDeadline{ctx}
+	ctx, cancel := r.callContext(ctx)
+	defer cancel()
 	var generation int
 	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
 		generation = gen
@@ -529,20 +554,22 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 
 func (r *link) Close(ctx context.Context) error {
 	r.mu.Lock()
-	r.closed = true
+	r.close()
 	a := r.attached
 	r.curr, r.attached = nil, nil
 	r.mu.Unlock()
 	if a == nil {
 		return nil
 	}
-	select {
-	case <-a.done:
-	case <-ctx.Done():
-		return ctx.Err()
-	}
-	if a.rcv != nil {
-		return a.rcv.Close(ctx)
-	}
-	return nil
+	// detach the link even when ctx is done before
+	return awaitResult(ctx, func() error {
+		<-a.done
+		switch {
+		case a.rcv != nil:
+			return a.rcv.Close(context.Background())
+		case a.snd != nil:
+			return a.snd.Close(context.Background())
+		}
+		return nil
+	})
 }
-- 
2.43.0


From e2752b6b0ad430556b466afa60d381db053c9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 37/59] fix: close the connection when its session cannot be
 created

---
 session/container.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/container.go b/session/container.go
index b0e7353..0b63286 100644
--- a/session/container.go
+++ b/session/container.go
@@ -180,6 +180,7 @@ func (c *container) Start(ctx context.Context) {
 				}
 				sess, err := conn.NewSession(ctx, nil)
 				if err != nil {
+					conn.Close()
 					return fmt.Errorf("session create error: %s", err)
 				}
 				generation++
-- 
2.43.0


From 66882fb0bb840194c156629c35052d05b2d8316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 38/59] fix: call session error handlers without holding the
 container lock

---
 session/container.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/session/container.go b/session/container.go
index 0b63286..51a0983 100644
--- a/session/container.go
+++ b/session/container.go
@@ -128,6 +128,17 @@ func (c *container) OnSessionError(handler func(error)) {
 	c.errorHandlers = append(c.errorHandlers, handler)
 }
 
+// handleSessionError calls the error handlers. They may call the container.
+func (c *container) handleSessionError(err error) {
+	c.mu.Lock()
+	handlers := make([]func(error), len(c.errorHandlers))
+	copy(handlers, c.errorHandlers)
+	c.mu.Unlock()
+	for _, handler := range handlers {
+		handler(err)
+	}
+}
+
 func (c *container) awaitNextSession(ctx context.Context, prev int) (session *amqp.Session, gen int, err error) {
 	c.mu.Lock()
 	session, gen, hasNext := c.sess, c.gen, c.hasNext
@@ -216,12 +227,7 @@ func (c *container) Start(ctx context.Context) {
 			},
 			b,
 			func(err error, d time.Duration) {
-				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
-					handler(wErr)
-				}
-				c.mu.Unlock()
+				c.handleSessionError(errSessionRestart{Err: err, D: d})
 			},
 		)
 		defer prevSessionTeardown()
@@ -229,12 +235,7 @@ func (c *container) Start(ctx context.Context) {
 			if errors.Is(err, ctx.Err()) {
 				return
 			}
-			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
-				handler(wErr)
-			}
+			c.handleSessionError(fmt.Errorf("error caused contianer to close: %w", err))
 		}
 	}()
 }
-- 
2.43.0


From 62deca19c043f4d3507dc333ddcbb5898221fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 39/59] fix: restart the backoff policy for successes reported
 along with an error

---
 session/container.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/container.go b/session/container.go
index 51a0983..977311e 100644
--- a/session/container.go
+++ b/session/container.go
@@ -220,6 +220,12 @@ func (c *container) Start(ctx context.Context) {
 						}
 					case recvErr := <-c.sessionErrors:
 						if recvErr.Generation == generation {
+							// successes reported before the error count
+							for len(c.notifyOK) > 0 {
+								if gen := <-c.notifyOK; gen == generation {
+									b.Reset()
+								}
+							}
 							return fmt.Errorf("session receiver error: %s", recvErr)
 						}
 					}
-- 
2.43.0


From cb7d6babc58823ce2c2ca1b1ed7241cc15964ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 40/59] fix: give each container of the tool its own backoff
 policy

---
 cmd/vanflow-tool/main.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index af34975..37331ba 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -120,12 +120,10 @@ func main() {
 		sasl = session.SASLTypeExternal
 	}
 
-	containerBackoff := backoff.NewExponentialBackOff()
-	containerBackoff.MaxElapsedTime = 60 * time.Second
-	factory := session.NewContainerFactory(connURL, session.ContainerConfig{
-		TLSConfig: tlsCfg, SASLType: sasl,
-		BackOff: containerBackoff,
-	})
+	factory := containerFactory{
+		address: connURL,
+		config:  session.ContainerConfig{TLSConfig: tlsCfg, SASLType: sasl},
+	}
 
 	var cmdHandler func(context.Context, session.ContainerFactory)
 	switch name := flags.Arg(0); name {
@@ -147,6 +145,20 @@ func main() {
 	cmdHandler(ctx, factory)
 }
 
+// containerFactory creates containers that each have their own backoff policy.
+type containerFactory struct {
+	address string
+	config  session.ContainerConfig
+}
+
+func (f containerFactory) Create() session.Container {
+	containerBackoff := backoff.NewExponentialBackOff()
+	containerBackoff.MaxElapsedTime = 60 * time.Second
+	config := f.config
+	config.BackOff = containerBackoff
+	return session.NewContainer(f.address, config)
+}
+
 type tlsConfig struct {
 	CA     string `json:"ca,omitempty"`
 	Cert   string `json:"cert,omitempty"`
-- 
2.43.0


From 8a3e9f32640862885ee4861b4358d65965b83342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 41/59] fix: encode times past the year 9999 as json

---
 base.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/base.go b/base.go
index 49102a3..21be9cd 100644
--- a/base.go
+++ b/base.go
@@ -3,6 +3,7 @@ package vanflow
 import (
 	"fmt"
 	"math"
+	"strconv"
 	"time"
 
 	"github.com/c-kruse/vanflow/encoding"
@@ -59,6 +60,24 @@ type Time struct {
 	time.Time
 }
 
+// MarshalJSON encodes times like time.Time does, except for those past the year
+// 9999 it has no representation for: these are in microseconds since the epoch.
+func (t Time) MarshalJSON() ([]byte, error) {
+	out, err := t.Time.MarshalJSON()
+	if err != nil && t.Time.After(minTime) && !t.Time.After(maxTime) {
+		return strconv.AppendInt(nil, t.Time.UnixMicro(), 10), nil
+	}
+	return out, err
+}
+
+func (t *Time) UnmarshalJSON(data []byte) error {
+	if us, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		t.Time = time.UnixMicro(us)
+		return nil
+	}
+	return t.Time.UnmarshalJSON(data)
+}
+
 func (t Time) EncodeRecordAttribute() (any, error) {
 	if t.Time.IsZero() {
 		return nil, encoding.ErrAttributeNotSet
-- 
2.43.0


From 6f124cf8d6ef7daf7c73f48c5db6f5a0be408dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 42/59] fix: impersonate sources with their captured version

---
 cmd/vanflow-tool/fixture.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..8c338df 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -11,6 +11,7 @@ import (
 	"net/http"
 	"os"
 	"reflect"
+	"strconv"
 	"sync"
 	"time"
 
@@ -112,11 +113,15 @@ func (f *fixtureServer) Start(ctx context.Context) {
 						}
 						slog.Error("manager container session error", slog.Any("error", err), slog.String("manager", src.Name))
 					})
+					version, err := strconv.Atoi(src.APIVersion)
+					if err != nil {
+						version = 1
+					}
 					isController := src.Type == "CONTROLLER"
 					managers[src.Name] = eventsource.NewManager(container, eventsource.ManagerConfig{
 						Source: eventsource.Info{
 							ID:      src.Name,
-							Version: 1,
+							Version: version,
 							Type:    src.Type,
 							Address: "mc/sfe." + src.Name,
 							Direct:  "sfe." + src.Name,
-- 
2.43.0


From 58d6cc030c98eef9bf35c771c92c0fd81b8c9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 43/59] fix: ignore captured records without identity

---
 cmd/vanflow-tool/fixture.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 8c338df..476ea45 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -388,6 +388,10 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 			TypeMeta: partial.TypeMeta,
 			Record:   record.(vanflow.Record),
 		}
+		if entry.Record.Identity() == "" {
+			slog.Error("ignoring record without identity", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
+			continue
+		}
 		entries[src] = append(entries[src], entry)
 	}
 	return entries
-- 
2.43.0


From b89e866e1f77bc5957613cdef812e03ede8cbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 44/59] fix: impersonate sources captured with several types
 once, with all of their records

---
 cmd/vanflow-tool/fixture.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 476ea45..f81f9b7 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -104,6 +104,11 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				defer manageCancel()
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
+					if manager, ok := managers[src.Name]; ok {
+						// changed its type or version while captured
+						manager.Stores = append(manager.Stores, stor)
+						continue
+					}
 					container := f.factory.Create()
 					container.Start(ctx)
 					container.OnSessionError(func(err error) {
@@ -194,11 +199,11 @@ type flowPair struct {
 }
 
 func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
-	stores := map[string]store.Interface{}
+	var stores []store.Interface
 	f.lock.Lock()
 	defer f.lock.Unlock()
-	for id, manager := range f.managers {
-		stores[id] = manager.Stores[0]
+	for _, manager := range f.managers {
+		stores = append(stores, manager.Stores...)
 	}
 	flowEntries := make(map[string]store.Entry)
 	flowPairsIDs := make(map[string]string)
-- 
2.43.0


From 493a8de2c31811689e2dcb8bf0c2f7132686fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 45/59] fix: do not replay flows without counterpart

---
 cmd/vanflow-tool/fixture.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index f81f9b7..81fa663 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -246,6 +246,10 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		}
 
 		for _, pair := range flowPairs {
+			if pair.Client.Record == nil {
+				slog.Warn("not replaying flow without its counterpart", slog.String("flow", pair.Server.Record.Identity()))
+				continue
+			}
 			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
 	}
-- 
2.43.0


From 974a4dc5c19e7d1b504ed154437a112fc8ab92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 46/59] fix: stop the containers of replaced fixture sources

---
 cmd/vanflow-tool/fixture.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 81fa663..c592049 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -110,7 +110,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 						continue
 					}
 					container := f.factory.Create()
-					container.Start(ctx)
+					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
 						if _, ok := err.(session.RetryableError); !ok {
 							slog.Error("manager container non-retryable container error", slog.Any("error", err), slog.String("manager", src.Name))
-- 
2.43.0


From 0061c545a721987667abcafc4af2948533ec66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 47/59] fix: do not lock fixtures while responding with flows

---
 cmd/vanflow-tool/fixture.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index c592049..2d595ff 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -200,9 +200,11 @@ type flowPair struct {
 
 func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	var stores []store.Interface
+	// not locked while responding, a client may be slow to read it
 	f.lock.Lock()
-	defer f.lock.Unlock()
-	for _, manager := range f.managers {
+	managers, flowsProcessed := f.managers, f.flowsProcessed
+	f.lock.Unlock()
+	for _, manager := range managers {
 		stores = append(stores, manager.Stores...)
 	}
 	flowEntries := make(map[string]store.Entry)
@@ -250,7 +252,7 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 				slog.Warn("not replaying flow without its counterpart", slog.String("flow", pair.Server.Record.Identity()))
 				continue
 			}
-			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
+			go f.fakeFlow(pair, managers[pair.Server.Meta.Source.Name], managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
 	}
 	var response = struct {
@@ -258,7 +260,7 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		FlowsReplayed int        `json:"fixtureFlowsResent"`
 	}{
 		FlowPairs:     flowPairs,
-		FlowsReplayed: f.flowsProcessed,
+		FlowsReplayed: flowsProcessed,
 	}
 	if err := json.NewEncoder(rw).Encode(response); err != nil {
 		slog.Error("error writing response", slog.Any("error", err))
-- 
2.43.0


From eb127dc365ff34295e7ed81d48080ba9ce6c5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 48/59] fix: reject requests for an impossible number of flows

---
 cmd/vanflow-tool/fixture.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 2d595ff..046338a 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -193,6 +193,9 @@ func (f *fixtureServer) ServeFixture(rw http.ResponseWriter, r *http.Request) {
 	enc.Encode(response)
 }
 
+// maxReplayFlows limits the flows requested per flow pair
+const maxReplayFlows = 1_000_000
+
 type flowPair struct {
 	Server store.Entry
 	Client store.Entry
@@ -236,7 +239,11 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 			Duration int `json:"duration"`
 		}
 		defer r.Body.Close()
-		if err := json.NewDecoder(r.Body).Decode(&request); err != nil {
+		err := json.NewDecoder(r.Body).Decode(&request)
+		if err == nil && (request.Flows < 0 || request.Flows > maxReplayFlows) {
+			err = fmt.Errorf("flows must be within 0 and %d", maxReplayFlows)
+		}
+		if err != nil {
 			rw.WriteHeader(http.StatusBadRequest)
 			fmt.Fprintf(rw, "Bad request: %s\n", err)
 			fmt.Fprintln(rw, "")
-- 
2.43.0


From ed4f589c230744656b0697b3a8a0870ab52f9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 49/59] fix: stop the containers of forgotten sources

---
 cmd/vanflow-tool/log.go   | 22 ++++++++++++++--------
 cmd/vanflow-tool/serve.go | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 9df3dbe..99c4142 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -53,13 +53,17 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 	})
 
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	// by source ID, handlers are not called concurrently
+	stopSource := map[string]context.CancelFunc{}
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", "source", source)
+			sourceCtx, stop := context.WithCancel(ctx)
+			stopSource[source.ID] = stop
 			ctr := factory.Create()
-			ctr.Start(ctx)
+			ctr.Start(sourceCtx)
 			client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
-			err := discovery.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
+			err := discovery.NewWatchClient(sourceCtx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
 			if err != nil {
 				slog.Error("discovery error", "error", err)
 				return
@@ -72,11 +76,11 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 			}
 			if FlushOnDiscover {
 				go func() {
-					flushCtx, cancel := context.WithTimeout(ctx, 5*time.Second)
+					flushCtx, cancel := context.WithTimeout(sourceCtx, 5*time.Second)
 					defer cancel()
 					err := eventsource.FlushOnFirstMessage(flushCtx, client)
 					if err != nil && errors.Is(err, flushCtx.Err()) {
-						err = client.SendFlush(ctx)
+						err = client.SendFlush(sourceCtx)
 					}
 					if err != nil {
 						slog.Error("failed to send FLUSH to source", slog.Any("error", err))
@@ -85,27 +89,29 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 					slog.Debug("flush sent", slog.Any("source", source))
 				}()
 			}
-			if err = client.Listen(ctx, eventsource.FromSourceAddress()); err != nil {
+			if err = client.Listen(sourceCtx, eventsource.FromSourceAddress()); err != nil {
 				slog.Error("error starting listener", "error", err)
 			}
 			if EnableRecordsFlow {
-				if err = client.Listen(ctx, eventsource.FromSourceAddressFlows()); err != nil {
+				if err = client.Listen(sourceCtx, eventsource.FromSourceAddressFlows()); err != nil {
 					slog.Error("error starting flows listener", "error", err)
 				}
 			}
 			if EnableRecordsLogs {
-				if err = client.Listen(ctx, eventsource.FromSourceAddressLogs()); err != nil {
+				if err = client.Listen(sourceCtx, eventsource.FromSourceAddressLogs()); err != nil {
 					slog.Error("error starting logs listener", "error", err)
 				}
 			}
 			if source.Type == "CONTROLLER" {
-				if err = client.Listen(ctx, eventsource.FromSourceAddressHeartbeats()); err != nil {
+				if err = client.Listen(sourceCtx, eventsource.FromSourceAddressHeartbeats()); err != nil {
 					slog.Error("error starting controller heartbeat listener", "error", err)
 				}
 			}
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", "source", source)
+			stopSource[source.ID]()
+			delete(stopSource, source.ID)
 		},
 	})
 	enc := json.NewEncoder(os.Stdout)
diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 55db735..57e84d0 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -119,16 +119,20 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		slog.Error("container session error", slog.Any("error", err))
 	})
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	// by source ID, handlers are not called concurrently
+	stopSource := map[string]context.CancelFunc{}
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", slog.Any("source", source))
+			sourceCtx, stop := context.WithCancel(ctx)
+			stopSource[source.ID] = stop
 			ctr := factory.Create()
-			ctr.Start(ctx)
+			ctr.Start(sourceCtx)
 			ctr.OnSessionError(func(err error) {
 				slog.Error("client container session error", slog.Any("error", err))
 			})
 			client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
-			err := discovery.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
+			err := discovery.NewWatchClient(sourceCtx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
 			if err != nil {
 				slog.Error("discovery error", slog.Any("error", err))
 				return
@@ -143,30 +147,30 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 			dispatcher := dispatchReg.NewDispatcher(sourceRef)
 
 			client.OnRecord(dispatcher.Dispatch)
-			if err = client.Listen(ctx, eventsource.FromSourceAddress()); err != nil {
+			if err = client.Listen(sourceCtx, eventsource.FromSourceAddress()); err != nil {
 				slog.Error("error starting listener", slog.Any("error", err))
 			}
 			if EnableRecordsFlow {
-				if err = client.Listen(ctx, eventsource.FromSourceAddressFlows()); err != nil {
+				if err = client.Listen(sourceCtx, eventsource.FromSourceAddressFlows()); err != nil {
 					slog.Error("error starting flows listener", slog.Any("error", err))
 				}
 			}
 			if EnableRecordsLogs {
-				if err = client.Listen(ctx, eventsource.FromSourceAddressLogs()); err != nil {
+				if err = client.Listen(sourceCtx, eventsource.FromSourceAddressLogs()); err != nil {
 					slog.Error("error starting logs listener", slog.Any("error", err))
 				}
 			}
 			if source.Type == "CONTROLLER" {
-				if err = client.Listen(ctx, eventsource.FromSourceAddressHeartbeats()); err != nil {
+				if err = client.Listen(sourceCtx, eventsource.FromSourceAddressHeartbeats()); err != nil {
 					slog.Error("error starting controller heartbeat listener", slog.Any("error", err))
 				}
 			}
 			go func() {
-				flushCtx, cancel := context.WithTimeout(ctx, 5*time.Second)
+				flushCtx, cancel := context.WithTimeout(sourceCtx, 5*time.Second)
 				defer cancel()
 				err := eventsource.FlushOnFirstMessage(flushCtx, client)
 				if err != nil && errors.Is(err, flushCtx.Err()) {
-					err = client.SendFlush(ctx)
+					err = client.SendFlush(sourceCtx)
 				}
 				if err != nil {
 					slog.Error("failed to send FLUSH to source", slog.Any("error", err))
@@ -178,6 +182,8 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", slog.Any("source", source))
 			sources.Delete(source.ID)
+			stopSource[source.ID]()
+			delete(stopSource, source.ID)
 		},
 	})
 	loggingHandler := handlers.LoggingHandler(os.Stdout, http.DefaultServeMux)
-- 
2.43.0


From 836edcb55b7dbc224d57af1f4f132cf0bd74073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 50/59] fix: treat the loss of a lasting session as a new
 outage

---
 session/container.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/session/container.go b/session/container.go
index 977311e..34a43d2 100644
--- a/session/container.go
+++ b/session/container.go
@@ -158,6 +158,10 @@ func (c *container) awaitNextSession(ctx context.Context, prev int) (session *am
 // end of a session before its connection is closed
 const sessionCloseTimeout = time.Second * 5
 
+// stableSessionAge is the age from which on the loss of a session is not
+// considered to be a consequence of earlier failures
+const stableSessionAge = time.Second * 30
+
 type sessionErr struct {
 	Generation int
 	Err        error
@@ -201,6 +205,8 @@ func (c *container) Start(ctx context.Context) {
 				c.sess, c.gen, c.hasNext = sess, generation, make(chan struct{})
 				c.mu.Unlock()
 
+				established := time.Now()
+
 				// do not wait for the previous peer, it may never answer
 				go prevSessionTeardown()
 				prevSessionTeardown = func() {
@@ -226,6 +232,9 @@ func (c *container) Start(ctx context.Context) {
 									b.Reset()
 								}
 							}
+							if time.Since(established) >= stableSessionAge {
+								b.Reset()
+							}
 							return fmt.Errorf("session receiver error: %s", recvErr)
 						}
 					}
-- 
2.43.0


From 8fbb4d8a695972da1b8185199f5f4a4896d3d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 51/59] fix: shut fixtures down when giving up on the
 connection of a source

---
 cmd/vanflow-tool/fixture.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 046338a..ee25a9a 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -28,6 +28,7 @@ func serveFixture(ctx context.Context, factory session.ContainerFactory) {
 
 	fixture := &fixtureServer{
 		factory: factory,
+		giveUp:  cancel,
 		status:  "pending fixture data",
 		updates: make(chan map[store.SourceRef]store.Interface),
 	}
@@ -71,6 +72,7 @@ func serveFixture(ctx context.Context, factory session.ContainerFactory) {
 
 type fixtureServer struct {
 	factory        session.ContainerFactory
+	giveUp         context.CancelFunc
 	lock           sync.Mutex
 	status         string
 	managers       map[string]*eventsource.Manager
@@ -113,7 +115,8 @@ func (f *fixtureServer) Start(ctx context.Context) {
 					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
 						if _, ok := err.(session.RetryableError); !ok {
-							slog.Error("manager container non-retryable container error", slog.Any("error", err), slog.String("manager", src.Name))
+							slog.Error("starting shutdown due to manager container non-retryable container error", slog.Any("error", err), slog.String("manager", src.Name))
+							f.giveUp()
 							return
 						}
 						slog.Error("manager container session error", slog.Any("error", err), slog.String("manager", src.Name))
-- 
2.43.0


From d66b5796ebdcbb7c1a835855d92765e21c63c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 52/59] fix: vancap forwards the port through the configured
 server

---
 vancap/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 1d49559..30de353 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -7,10 +7,8 @@ import (
 	"io"
 	"log/slog"
 	"net/http"
-	"net/url"
 	"os"
 	"os/signal"
-	"strings"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -211,11 +209,14 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("failed to create round tripper: %s", err)
 	}
 
-	path := fmt.Sprintf("/api/v1/namespaces/%s/pods/%s/portforward", v.Namespace, first)
-	hostIP := strings.TrimLeft(v.Restcfg.Host, "htps:/")
-	serverURL := url.URL{Scheme: "https", Path: path, Host: hostIP}
+	serverURL := v.Client.CoreV1().RESTClient().Post().
+		Resource("pods").
+		Namespace(v.Namespace).
+		Name(first).
+		SubResource("portforward").
+		URL()
 
-	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, &serverURL)
+	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, serverURL)
 	stopChan, readyChan := make(chan struct{}, 1), make(chan struct{}, 1)
 	defer close(stopChan)
 	pOut, pErr := io.Discard, io.Discard
-- 
2.43.0


From d7194a20df4939305c25696e3d5dc59b0f71ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:01 +0000
Subject: [PATCH 53/59] fix: vancap fails when the collector's response is not
 a capture

---
 vancap/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vancap/main.go b/vancap/main.go
index 30de353..2748250 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -256,10 +256,16 @@ func (v Vancap) Run(ctx context.Context) error {
 	defer resp.Body.Close()
 
 	slog.Debug("writing capture file", slog.String("name", v.Destination))
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("unexpected response to vanflow capture request: %s", resp.Status)
+	}
 	fLen, err := io.Copy(f, resp.Body)
 	if err != nil {
 		return fmt.Errorf("error writing capture file: %s", err)
 	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("error writing capture file: %s", err)
+	}
 	slog.Info("Vanflow capture written.", slog.String("file", v.Destination), slog.Int("bytes", int(fLen)))
 
 	return nil
-- 
2.43.0


From ae379f0c98064dca6ede6b262e642dfd2dcdf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:06 +0000
Subject: [PATCH 54/59] fix: vancap forwards any free local port

---
 vancap/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 2748250..30b39c6 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -223,14 +223,14 @@ func (v Vancap) Run(ctx context.Context) error {
 	if Debug {
 		pOut, pErr = os.Stdout, os.Stderr
 	}
-	forwarder, err := portforward.New(dialer, []string{"9090"}, stopChan, readyChan, pOut, pErr)
+	forwarder, err := portforward.New(dialer, []string{"0:9090"}, stopChan, readyChan, pOut, pErr)
 	if err != nil {
 		return fmt.Errorf("failed to create port forwarder: %s", err)
 	}
 	forwardErr := make(chan error, 1)
 	go func() {
 		slog.Debug("starting port forward to capture vanflow state")
-		if err = forwarder.ForwardPorts(); err != nil {
+		if err := forwarder.ForwardPorts(); err != nil {
 			forwardErr <- err
 		}
 	}()
@@ -242,13 +242,21 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("vancap port forward error: %s", err)
 	}
 
+	ports, err := forwarder.GetPorts()
+	if err != nil {
+		return fmt.Errorf("vancap port forward error: %s", err)
+	}
+
 	f, err := os.Create(v.Destination)
 	if err != nil {
 		return fmt.Errorf("failed to create output file: %s", err)
 	}
 	defer f.Close()
 	slog.Debug("requesting vanflow capture")
-	req, _ := http.NewRequestWithContext(ctx, http.MethodGet, "http://127.0.0.1:9090", nil)
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("http://127.0.0.1:%d", ports[0].Local), nil)
+	if err != nil {
+		return fmt.Errorf("error requesting vanflow capture: %s", err)
+	}
 	resp, err := http.DefaultClient.Do(req)
 	if err != nil {
 		return fmt.Errorf("error requesting vanflow capture: %s", err)
-- 
2.43.0


From bfd062d8daa2a83d555cebd5943fc47fc55c706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 55/59] fix: vancap captures from a ready pod of its own
 deployment

---
 vancap/main.go | 53 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 30b39c6..5936965 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -15,6 +15,8 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	apiv1 "k8s.io/api/core/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
+	"k8s.io/apimachinery/pkg/labels"
+	"k8s.io/apimachinery/pkg/util/rand"
 	"k8s.io/client-go/kubernetes"
 	"k8s.io/client-go/rest"
 	"k8s.io/client-go/tools/clientcmd"
@@ -83,6 +85,9 @@ A tool to caputre vanflow state.
 
 }
 
+// captureLabel tells the resources of one capture from those of others.
+const captureLabel = "vancap"
+
 type Vancap struct {
 	Destination string
 	Duration    time.Duration
@@ -100,21 +105,23 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("skupper not installed in namespace %q: %s", v.Namespace, err)
 	}
 
+	// labels unique to this capture
+	captureLabels := map[string]string{
+		"app":        "vanflow-server",
+		captureLabel: rand.String(10),
+	}
 	deployment := &appsv1.Deployment{
 		ObjectMeta: metav1.ObjectMeta{
-			Name: "vanflow-server",
+			Name:   "vanflow-server",
+			Labels: captureLabels,
 		},
 		Spec: appsv1.DeploymentSpec{
 			Selector: &metav1.LabelSelector{
-				MatchLabels: map[string]string{
-					"app": "vanflow-server",
-				},
+				MatchLabels: captureLabels,
 			},
 			Template: apiv1.PodTemplateSpec{
 				ObjectMeta: metav1.ObjectMeta{
-					Labels: map[string]string{
-						"app": "vanflow-server",
-					},
+					Labels: captureLabels,
 				},
 				Spec: apiv1.PodSpec{
 					Containers: []apiv1.Container{
@@ -173,9 +180,8 @@ func (v Vancap) Run(ctx context.Context) error {
 	}()
 
 	b := backoff.WithContext(backoff.NewExponentialBackOff(), ctx)
-	var dep *appsv1.Deployment
-	backoff.RetryNotify(func() error {
-		dep, err = deploymentsClient.Get(ctx, deployment.Name, metav1.GetOptions{})
+	err = backoff.RetryNotify(func() error {
+		dep, err := deploymentsClient.Get(ctx, deployment.Name, metav1.GetOptions{})
 		if err != nil {
 			return fmt.Errorf("deployment not found: %v", err)
 		}
@@ -186,15 +192,21 @@ func (v Vancap) Run(ctx context.Context) error {
 	}, b, func(err error, d time.Duration) {
 		slog.Debug("deployment not ready", slog.String("delay", d.String()), slog.Any("error", err))
 	})
+	if err != nil {
+		return fmt.Errorf("deployment did not become ready: %s", err)
+	}
 	slog.Debug("deployment ready.", slog.String("name", deployment.Name))
 
 	pods, err := podsClient.List(ctx, metav1.ListOptions{
-		LabelSelector: "app=vanflow-server",
+		LabelSelector: labels.SelectorFromSet(captureLabels).String(),
 	})
 	if err != nil {
 		return fmt.Errorf("failed to find deployment pod: %s", err)
 	}
-	first := pods.Items[0].Name
+	pod, ok := readyPod(pods.Items)
+	if !ok {
+		return fmt.Errorf("failed to find deployment pod: none of %d is ready", len(pods.Items))
+	}
 
 	slog.Info("deployment started. waiting for vanflow state to accumulate.", slog.String("delay", v.Duration.String()))
 	select {
@@ -212,7 +224,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	serverURL := v.Client.CoreV1().RESTClient().Post().
 		Resource("pods").
 		Namespace(v.Namespace).
-		Name(first).
+		Name(pod.Name).
 		SubResource("portforward").
 		URL()
 
@@ -279,6 +291,21 @@ func (v Vancap) Run(ctx context.Context) error {
 	return nil
 }
 
+// readyPod finds a pod that is ready and not about to go away.
+func readyPod(pods []apiv1.Pod) (apiv1.Pod, bool) {
+	for _, pod := range pods {
+		if pod.DeletionTimestamp != nil {
+			continue
+		}
+		for _, cond := range pod.Status.Conditions {
+			if cond.Type == apiv1.PodReady && cond.Status == apiv1.ConditionTrue {
+				return pod, true
+			}
+		}
+	}
+	return apiv1.Pod{}, false
+}
+
 func setupKube() (string, *rest.Config, kubernetes.Interface, error) {
 	kubeConfig, err := clientcmd.NewDefaultClientConfigLoadingRules().Load()
 	if err != nil {
-- 
2.43.0


From 1009abfdd51d900e445c7817b4a2ea9d45fd5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:10 +0000
Subject: [PATCH 56/59] fix: vancap removes its deployment whatever happens

---
 vancap/main.go | 74 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 5936965..f23f22f 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -14,6 +15,7 @@ import (
 	"github.com/cenkalti/backoff/v4"
 	appsv1 "k8s.io/api/apps/v1"
 	apiv1 "k8s.io/api/core/v1"
+	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/labels"
 	"k8s.io/apimachinery/pkg/util/rand"
@@ -88,6 +90,11 @@ A tool to caputre vanflow state.
 // captureLabel tells the resources of one capture from those of others.
 const captureLabel = "vancap"
 
+const (
+	createTimeout  = time.Second * 10
+	cleanupTimeout = time.Second * 15
+)
+
 type Vancap struct {
 	Destination string
 	Duration    time.Duration
@@ -96,11 +103,11 @@ type Vancap struct {
 	Namespace   string
 }
 
-func (v Vancap) Run(ctx context.Context) error {
+func (v Vancap) Run(ctx context.Context) (err error) {
 	deploymentsClient := v.Client.AppsV1().Deployments(v.Namespace)
 	podsClient := v.Client.CoreV1().Pods(v.Namespace)
 
-	_, err := deploymentsClient.Get(ctx, "skupper-router", metav1.GetOptions{})
+	_, err = deploymentsClient.Get(ctx, "skupper-router", metav1.GetOptions{})
 	if err != nil {
 		return fmt.Errorf("skupper not installed in namespace %q: %s", v.Namespace, err)
 	}
@@ -163,21 +170,24 @@ func (v Vancap) Run(ctx context.Context) error {
 	}
 
 	// Create Deployment
-	slog.Info("creating deployment...")
-	_, err = deploymentsClient.Create(ctx, deployment, metav1.CreateOptions{})
-	if err != nil {
-		return fmt.Errorf("error creating deployment: %s", err)
+	if ctx.Err() != nil {
+		return fmt.Errorf("vancap interrupted: %s", ctx.Err())
 	}
-
+	// an attempt to create it may have been successful even if it failed here
 	defer func() {
-		cleanupCtx, cancel := context.WithTimeout(context.Background(), time.Second*3)
-		defer cancel()
-		if err := deploymentsClient.Delete(cleanupCtx, deployment.Name, metav1.DeleteOptions{}); err != nil {
-			slog.Error("error cleaning up deployment", slog.String("name", deployment.Name), slog.Any("error", err))
-			return
+		if cleanupErr := v.removeDeployment(deployment); cleanupErr != nil {
+			slog.Error("error cleaning up deployment", slog.String("name", deployment.Name), slog.Any("error", cleanupErr))
+			err = errors.Join(err, fmt.Errorf("error cleaning up deployment %q: %s", deployment.Name, cleanupErr))
 		}
-		slog.Info("deployment deleted.", slog.String("name", deployment.Name))
 	}()
+	slog.Info("creating deployment...")
+	// not interrupted, so that the outcome is known
+	createCtx, cancel := context.WithTimeout(context.WithoutCancel(ctx), createTimeout)
+	defer cancel()
+	_, err = deploymentsClient.Create(createCtx, deployment, metav1.CreateOptions{})
+	if err != nil {
+		return fmt.Errorf("error creating deployment: %s", err)
+	}
 
 	b := backoff.WithContext(backoff.NewExponentialBackOff(), ctx)
 	err = backoff.RetryNotify(func() error {
@@ -291,6 +301,44 @@ func (v Vancap) Run(ctx context.Context) error {
 	return nil
 }
 
+// removeDeployment deletes the deployment of this capture, if there is one.
+func (v Vancap) removeDeployment(deployment *appsv1.Deployment) error {
+	ctx, cancel := context.WithTimeout(context.Background(), cleanupTimeout)
+	defer cancel()
+	deploymentsClient := v.Client.AppsV1().Deployments(v.Namespace)
+
+	var lastErr error
+	b := backoff.WithContext(backoff.NewConstantBackOff(time.Millisecond*500), ctx)
+	err := backoff.Retry(func() error {
+		attemptCtx, cancel := context.WithTimeout(ctx, cleanupTimeout/5)
+		defer cancel()
+		lastErr = func() error {
+			current, err := deploymentsClient.Get(attemptCtx, deployment.Name, metav1.GetOptions{})
+			if err != nil {
+				return err
+			}
+			if current.Labels[captureLabel] != deployment.Labels[captureLabel] {
+				return nil // not the one created here
+			}
+			err = deploymentsClient.Delete(attemptCtx, deployment.Name, metav1.DeleteOptions{
+				Preconditions: metav1.NewUIDPreconditions(string(current.UID)),
+			})
+			if err == nil {
+				slog.Info("deployment deleted.", slog.String("name", deployment.Name))
+			}
+			return err
+		}()
+		if apierrors.IsNotFound(lastErr) {
+			lastErr = nil
+		}
+		return lastErr
+	}, b)
+	if err != nil && lastErr != nil {
+		return lastErr
+	}
+	return err
+}
+
 // readyPod finds a pod that is ready and not about to go away.
 func readyPod(pods []apiv1.Pod) (apiv1.Pod, bool) {
 	for _, pod := range pods {
-- 
2.43.0


From f69b378bfaab546cce395e14f98120c2475ae14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:16 +0000
Subject: [PATCH 57/59] fix: encoding: do not hold the registry lock while
 encoding or decoding a record

---
 encoding/decoder.go |  2 +-
 encoding/encoder.go | 30 +++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2fbf8b8..aedc7ff 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -34,8 +34,8 @@ func Decode(recordset RecordAttributeSet) (interface{}, error) {
 	}
 
 	mu.RLock()
-	defer mu.RUnlock()
 	encoding, ok := decodings[codepoint]
+	mu.RUnlock() // attributes that decode themselves may decode other records
 	if !ok {
 		return nil, fmt.Errorf("decode error: unknown record type for %d", recordTypeCode)
 	}
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 863cc38..acc609d 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -35,32 +35,44 @@ type RecordAttributeEncoder interface {
 // vanflow protocol. Only records types that have been registered with
 // MustRegisterRecord can be encoded.
 func Encode(record any) (RecordAttributeSet, error) {
+	encoding, recordV, err := encodingFor(record)
+	if err != nil {
+		return nil, err
+	}
+	result, err := encoding.encode(recordV)
+	if result != nil {
+		result[typeOfRecord] = encoding.codepoint
+	}
+	return result, err
+}
+
+// encodingFor finds the encoding of a record. The registry is not locked when
+// it returns: attributes that encode themselves may have to encode another
+// record, and a registration that waits for the lock keeps out further readers.
+func encodingFor(record any) (*typeEncoding, reflect.Value, error) {
+	var recordV reflect.Value
 	mu.RLock()
 	defer mu.RUnlock()
 	if record == nil {
-		return nil, errors.New("cannot encode nil record")
+		return nil, recordV, errors.New("cannot encode nil record")
 	}
-	recordV := reflect.ValueOf(record)
+	recordV = reflect.ValueOf(record)
 	recordT := recordV.Type()
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
 			if recordV.IsNil() {
-				return nil, fmt.Errorf("cannot encode nil record of type %T", record)
+				return nil, recordV, fmt.Errorf("cannot encode nil record of type %T", record)
 			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
 		}
 		if !ok {
-			return nil, fmt.Errorf("encode error: unregistered record type %T", record)
+			return nil, recordV, fmt.Errorf("encode error: unregistered record type %T", record)
 		}
 	}
-	result, err := encoding.encode(recordV)
-	if result != nil {
-		result[typeOfRecord] = encoding.codepoint
-	}
-	return result, err
+	return encoding, recordV, nil
 }
 
 type fieldEncoder interface {
-- 
2.43.0


From 25084f8649ec3755e40575812c44a82ea4caf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:18 +0000
Subject: [PATCH 58/59] fix: encoding: refuse fields that use the attribute
 code of the record type

---
 encoding/encoding.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 24ee817..24acf95 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -86,6 +86,11 @@ func newEncodingForType(codepoint uint32, record interface{}) *typeEncoding {
 	fields := fieldsForType(recordType, nil)
 	codepoints := map[uint32]field{}
 	for _, field := range fields {
+		if field.Codepoint == typeOfRecord {
+			panic(fmt.Sprintf(
+				"struct field %s uses vflow tag \"%d\" reserved for the record type",
+				field.Name, field.Codepoint))
+		}
 		if existing, ok := codepoints[field.Codepoint]; ok {
 			panic(fmt.Sprintf(
 				"struct field %s repeats vflow tag \"%d\" also used by %s",
-- 
2.43.0


From 0295ffc49065eabbdcae1b737407f1801b06495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:20 +0000
Subject: [PATCH 59/59] fix: encoding: encode tagged embedded fields

---
 encoding/encoding.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 24acf95..d5cdf24 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -191,8 +191,9 @@ func fieldsForType(t reflect.Type, index []int) []field {
 		next := make([]int, len(index)+1)
 		copy(next, index)
 		next[len(next)-1] = i
-		// Include fields from embedded structs
-		if f.Anonymous {
+		// Include fields from embedded structs, unless they are tagged as an
+		// attribute of their own
+		if f.Anonymous && (f.Tag.Get(vflowTag) == "" || !f.IsExported()) {
 			if f.Type.Kind() == reflect.Struct {
 				fields = append(fields, fieldsForType(f.Type, next)...)
 			}
-- 
2.43.0

