From fa40c95e3b3744affeedd4471d73bb3e729c2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 01/14] fix: LRU Get takes the exclusive lock and returns a
 copy of the value

---
 cache/LRU.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..a270a17 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,11 +26,13 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	// Reading reorders the pages, and the page may be overwritten later: exclusive lock, copy of the value.
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value
+		return &value, true
 	}
 	return nil, false
 }
-- 
2.43.0


From 117b66b3fcbaf188d7029678d372e19cc31411cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 02/14] fix: LRU cache without capacity holds nothing instead
 of panicking

---
 cache/LRU.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/LRU.go b/cache/LRU.go
index a270a17..974033f 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -40,6 +40,10 @@ func (l *LRUCache[T]) Get(key string) (*T, bool) {
 func (l *LRUCache[T]) Put(key string, value T) {
 	l.Lock()
 	defer l.Unlock()
+	if l.capacity <= 0 {
+		return
+	}
+
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
 		elem.Value.(*Page[T]).value = value
-- 
2.43.0


From ecc90dbf297d907c41879f1ddb830e0caf914f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 03/14] fix: SyncMap starts its writer and lets new values
 replace old ones

---
 cache/Map.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..76ea473 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -53,19 +53,19 @@ func (i *SyncMap[T]) writer() {
 			m.Unlock()
 		case <-ticker.C:
 
-			m.Lock()
+			i.RLock()
 			bufferCopy := make(map[string]T, len(i.Data)+len(buffer))
-			for key, value := range buffer {
+			for key, value := range i.Data {
 				bufferCopy[key] = value
 			}
-			buffer = make(map[string]T)
-			m.Unlock()
+			i.RUnlock()
 
-			i.RLock()
-			for key, value := range i.Data {
+			m.Lock()
+			for key, value := range buffer {
 				bufferCopy[key] = value
 			}
-			i.RUnlock()
+			buffer = make(map[string]T)
+			m.Unlock()
 
 			i.Lock()
 			i.Data = bufferCopy
-- 
2.43.0


From 6c34790029f35feed62726b76defe59d5569df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 04/14] fix: SecureSaveFile replaces the file in one step

---
 file/File.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..a3db7f6 100644
--- a/file/File.go
+++ b/file/File.go
@@ -136,31 +136,17 @@ func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
 	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
+	// Renaming replaces the current file in one step, so that there is one at any time.
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From 22f3cc3a6731166e7e3925b89d52a9794272a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 05/14] fix: index fragments appear in the merge folder only
 when complete

---
 storage/DiskIO.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..a6af99e 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -355,10 +355,13 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
 				file.CreteDirIfNotExist(path)
 
+				// The fragment is complete before the merge can find it.
 				tempFile := uuid.New().String()
-				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				tempPath := filepath.Join(d.RootFolder, fieldName, tempFile)
+				err := file.SaveFileOnDisk(tempPath, file.CompressData(buffer))
+				if err == nil {
+					err = file.RenameFile(tempPath, filepath.Join(path, tempFile))
+				}
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From a11ed5d40d2218f3573ee5e171a04fafb6f26bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 06/14] fix: flushing term counts keeps the terms of earlier
 flushes

---
 storage/DiskIO.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index a6af99e..780db0f 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -249,7 +249,21 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
+				// The file holds every term of the field, the buffer only those of this interval.
+				stored := make(map[string]int)
+				filePath := filepath.Join(path, file.NumberFieldTerm)
+				if file.Exists(filePath) {
+					buf, err := file.ReadFileOnDisk(filePath)
+					if err != nil {
+						log.Fatalf(err.Error())
+					}
+					stored = DeserializeNumberFieldTerm(file.DecompressData(buf))
+				}
+				for term, size := range termSize {
+					stored[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(stored)
 				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
-- 
2.43.0


From 063507f36decedd958ee41dc5b62fe550349e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 07/14] fix: a document keeps its fields when it is neither
 cached nor written yet

---
 storage/DiskIO.go      | 35 +++++++++++++++++++++--------------
 storage/DiskStorage.go | 25 ++++++++++++-------------
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 780db0f..c7c4ee9 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -13,11 +13,15 @@ import (
 
 type DiskIO struct {
 	RootFolder string
+	pending    *BufferFieldDocument
 }
 
 func NewDiskIO(rootFolder string) DiskIO {
 	file.CreteDirIfNotExist(rootFolder)
-	return DiskIO{rootFolder}
+	return DiskIO{
+		RootFolder: rootFolder,
+		pending:    &BufferFieldDocument{data: make(map[string]map[string]model.Field)},
+	}
 }
 
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
@@ -59,7 +63,14 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 	return fieldSize, fieldLength, nil
 }
 
+// LoadFieldDocumentOnHD returns the fields of a document, including those that wait to be written.
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
+	d.pending.Lock()
+	defer d.pending.Unlock()
+	if fields, ok := d.pending.data[documentId]; ok {
+		return fields, true
+	}
+
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
@@ -165,11 +176,6 @@ type NumberFieldTermTransferData struct {
 	//TermSize  map[string]int
 }
 
-type DocumentFieldTransferData struct {
-	DocumentId string
-	Field      map[string]model.Field
-}
-
 type BufferFieldDocument struct {
 	sync.Mutex
 	data map[string]map[string]model.Field
@@ -186,21 +192,22 @@ type bufferFieldLengthSize struct {
 	Size   map[string]int
 }
 
-func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
+// BufferFieldDocument hands over the fields of a document, which must not change afterwards.
+func (d *DiskIO) BufferFieldDocument(documentId string, fields map[string]model.Field) {
+	d.pending.Lock()
+	d.pending.data[documentId] = fields
+	d.pending.Unlock()
+}
 
-	localBuffer := BufferFieldDocument{
-		data: make(map[string]map[string]model.Field),
-	}
+func (d *DiskIO) SaveDocumentFieldOnDisk() {
+
+	localBuffer := d.pending
 
 	ticker := time.NewTicker(10 * time.Second)
 	defer ticker.Stop()
 
 	for {
 		select {
-		case fieldDocument := <-data:
-			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
-			localBuffer.Unlock()
 		case <-ticker.C:
 			localBuffer.Lock()
 			for documentId, fieldMap := range localBuffer.data {
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..6acac53 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -12,7 +12,6 @@ type Disk struct {
 	indexCh            chan IndexTransferData
 	fieldCh            chan FieldSizeLengthTransferData
 	numberFieldTermCh  chan NumberFieldTermTransferData
-	documentFieldCh    chan DocumentFieldTransferData
 	index              map[string]map[string]*model.Set
 	fieldLength        map[string]int
 	fieldSize          map[string]int
@@ -27,7 +26,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	indexCh := make(chan IndexTransferData, 100)
 	fieldCh := make(chan FieldSizeLengthTransferData)
 	numberFieldTermCh := make(chan NumberFieldTermTransferData)
-	documentFieldCh := make(chan DocumentFieldTransferData)
 
 	diskIO := NewDiskIO(rootFolder)
 
@@ -57,7 +55,6 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 		indexCh:            indexCh,
 		fieldCh:            fieldCh,
 		numberFieldTermCh:  numberFieldTermCh,
-		documentFieldCh:    documentFieldCh,
 		index:              index,
 		fieldLength:        fieldLength,
 		fieldSize:          fieldSize,
@@ -69,7 +66,7 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 	go diskIO.SaveFieldSizeLengthOnDisc(fieldCh)
 	go diskIO.SaveIndexOnDisk(indexCh)
 	go diskIO.SaveNumberFieldTermOnDisk(numberFieldTermCh)
-	go diskIO.SaveDocumentFieldOnDisk(documentFieldCh)
+	go diskIO.SaveDocumentFieldOnDisk()
 
 	go func() {
 		//merge index fragments to index
@@ -170,21 +167,23 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 
-	var fieldIndex map[string]model.Field
+	var stored map[string]model.Field
 
-	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
+	if storedPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
+		stored = *storedPtr
 	} else {
-		fieldIndex = make(map[string]model.Field)
+		stored, _ = d.diskIO.LoadFieldDocumentOnHD(documentId)
+	}
+
+	// Readers and the writer to disk share the stored map: it is replaced, not changed.
+	fieldIndex := make(map[string]model.Field, len(stored)+1)
+	for name, storedField := range stored {
+		fieldIndex[name] = storedField
 	}
 
 	fieldIndex[field.Name] = field
 	d.fieldDocumentCache.Put(documentId, fieldIndex)
-
-	d.documentFieldCh <- DocumentFieldTransferData{
-		DocumentId: documentId,
-		Field:      fieldIndex,
-	}
+	d.diskIO.BufferFieldDocument(documentId, fieldIndex)
 
 }
 
-- 
2.43.0


From e300d5cfca8710dc26a4a6d4bac1c84a39b85d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 08/14] fix: the disk store guards its maps and hands out
 copies of document sets

---
 model/Set.go           |  9 ++++++++
 storage/DiskStorage.go | 51 +++++++++++++++++++++++++++++++++++++-----
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/model/Set.go b/model/Set.go
index 2f0a176..4ae46a6 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -14,6 +14,15 @@ func (s *Set) GetData() map[string]bool {
 	return s.data
 }
 
+// Clone returns a copy that does not change with the set.
+func (s *Set) Clone() Set {
+	data := make(map[string]bool, len(s.data))
+	for element := range s.data {
+		data[element] = true
+	}
+	return Set{data: data}
+}
+
 func (s *Set) Add(element string) {
 	s.data[element] = true
 }
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 6acac53..6d0ed3e 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -84,6 +84,9 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -92,21 +95,30 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.index[fieldName]
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return set.Clone(), true
 		}
 	}
 	return model.Set{}, false
@@ -114,6 +126,9 @@ func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
 
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
 		if fieldDocumentPtr, ok := d.fieldDocumentCache.Get(id); ok {
@@ -136,6 +151,12 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 }
 
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateFieldSizeLength(field)
+}
+
+func (d *Disk) updateFieldSizeLength(field model.Field) {
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
 
@@ -147,6 +168,12 @@ func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 }
 
 func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateNumberFieldTerm(field)
+}
+
+func (d *Disk) updateNumberFieldTerm(field model.Field) {
 	fieldTerm := d.numberFieldTerm[field.Name]
 	if fieldTerm == nil {
 		fieldTerm = make(map[string]int)
@@ -166,6 +193,12 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 }
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateFieldDocument(documentId, field)
+}
+
+func (d *Disk) updateFieldDocument(documentId string, field model.Field) {
 
 	var stored map[string]model.Field
 
@@ -188,6 +221,12 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	d.updateIndex(documentId, field)
+}
+
+func (d *Disk) updateIndex(documentId string, field model.Field) {
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
@@ -219,9 +258,11 @@ func (d *Disk) UpdateIndex(documentId string, field model.Field) {
 }
 
 func (d *Disk) SaveOrUpdate(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
-	d.UpdateFieldSizeLength(field)
-	d.UpdateIndex(documentId, field)
-	d.UpdateNumberFieldTerm(field)
-	d.UpdateFieldDocument(documentId, field)
+	d.updateFieldSizeLength(field)
+	d.updateIndex(documentId, field)
+	d.updateNumberFieldTerm(field)
+	d.updateFieldDocument(documentId, field)
 }
-- 
2.43.0


From eff689c552af728a5c557bf0f70832166b5babd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 09/14] fix: the memory store guards its maps and hands out
 copies of document sets

---
 storage/Memory.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..f2c3ea6 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"sync"
 )
 
 type Memory struct {
@@ -10,9 +11,16 @@ type Memory struct {
 	FieldLength     map[string]int
 	FieldSize       map[string]int
 	NumberFieldTerm map[string]map[string]int
+	mu              sync.RWMutex
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateIndex(documentId, field)
+}
+
+func (m *Memory) updateIndex(documentId string, field model.Field) {
 	m.FieldSize[field.Name] += 1
 	m.FieldLength[field.Name] += field.Length
 
@@ -46,6 +54,9 @@ func NewMemory() Storage {
 }
 
 func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = m.NumberFieldTerm[fieldName][term]
@@ -54,25 +65,36 @@ func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string
 }
 
 func (m *Memory) GetFieldLength(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldLength[fieldName]
 }
 
 func (m *Memory) GetFieldSize(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldSize[fieldName]
 }
 
 func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldDocument[documentId]
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.Index[fieldName]
 }
 
 func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	if indexField, ok := m.Index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return set.Clone(), true
 		}
 	}
 	return model.Set{}, false
@@ -80,6 +102,9 @@ func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
 
 func (m *Memory) GetFields(documentId []string, fieldName string) map[string]model.Field {
 
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
 		if fieldDocument, ok := m.FieldDocument[id]; ok {
@@ -94,9 +119,12 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	m.createFieldDocument(documentId, field)
 
-	m.UpdateIndex(documentId, field)
+	m.updateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
 	fieldTerm := m.NumberFieldTerm[field.Name]
-- 
2.43.0


From 7637c12988852eab3c3eb63b3222a7e4a608a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 10/14] fix: a search with fewer than ten results no longer
 panics

---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index aded6c2..80723f2 100644
--- a/main.go
+++ b/main.go
@@ -202,12 +202,16 @@ func main() {
 			}
 		}
 
+		if len(queryResults) > 10 {
+			queryResults = queryResults[0:10]
+		}
+
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          len(queryResults),
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults,
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From f0b10fe03865302323ccf975a7e3f3671919c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 11/14] fix: concurrent searches no longer race on the query
 counter

---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 80723f2..15f415d 100644
--- a/main.go
+++ b/main.go
@@ -17,6 +17,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/testecolection"
 	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
 	"net/http"
+	"sync/atomic"
 	"time"
 )
 
@@ -46,7 +47,7 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
+var id int64
 
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
@@ -179,7 +180,7 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
+		atomic.AddInt64(&id, 1)
 		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
-- 
2.43.0


From 204752c72ac2dca0b696a805139d52e3ddb26d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 12/14] fix: ids that are not strings keep their value

---
 field/FieldProcess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..405c93e 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -19,7 +19,7 @@ func StringToObject(document string) map[string]interface{} {
 func GetID(input map[string]interface{}) string {
 	for k, v := range input {
 		if k == ID {
-			return fmt.Sprintf("%s", v)
+			return fmt.Sprintf("%v", v)
 		}
 	}
 	return ""
-- 
2.43.0


From 2e416409ec1fd34d137ccf144ceccda175277bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 13/14] fix: document ids and field names are escaped in paths

---
 file/File.go      | 36 +++++++++++++++++++++++++++++++++++-
 storage/DiskIO.go | 20 ++++++++++----------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/file/File.go b/file/File.go
index a3db7f6..e0361c3 100644
--- a/file/File.go
+++ b/file/File.go
@@ -6,8 +6,10 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"net/url"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 const (
@@ -55,6 +57,37 @@ func DecompressData(buf []byte) []byte {
 	return data
 }
 
+// EscapeName makes one path component of a name; different names have different components.
+func EscapeName(name string) string {
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		special := c < ' ' || c == 0x7f || c == '/' || c == '\\' || c == '%'
+		// not the folder itself, its parent or the folder of the documents
+		if special || i == 0 && (name == "." || name == ".." || name == Documents) {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	if name == "" {
+		return "%"
+	}
+	return b.String()
+}
+
+// UnescapeName is the inverse of EscapeName.
+func UnescapeName(component string) string {
+	if component == "%" {
+		return ""
+	}
+	name, err := url.PathUnescape(component)
+	if err != nil {
+		return component
+	}
+	return name
+}
+
 func SaveFileOnDisk(path string, buf []byte) error {
 	err := os.WriteFile(path, buf, 0644)
 	if err != nil {
@@ -135,7 +168,8 @@ func ListDirectories(path string) []string {
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
+	// No escaped name ends like this.
+	tempPath := filepath.Join(path, fileName+"%temp")
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index c7c4ee9..4fe784c 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -36,7 +36,7 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = DeserializeNumberFieldTerm(file.DecompressData(buf))
+		numberFieldTerm[file.UnescapeName(field)] = DeserializeNumberFieldTerm(file.DecompressData(buf))
 	}
 	return numberFieldTerm, nil
 }
@@ -71,7 +71,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 		return fields, true
 	}
 
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.EscapeName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
 		return nil, false
@@ -81,7 +81,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(rootFolder, file.EscapeName(field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -109,7 +109,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
-		termDocuments, err := LoadTermDocumentsFromIndex(field, d.RootFolder)
+		termDocuments, err := LoadTermDocumentsFromIndex(file.UnescapeName(field), d.RootFolder)
 		if err != nil {
 			return nil, err
 		}
@@ -133,7 +133,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 				termDocuments[term] = set
 			}
 		}
-		index[field] = termDocuments
+		index[file.UnescapeName(field)] = termDocuments
 
 		tempTermDocuments := make(map[string]map[string]bool)
 		for term, documents := range termDocuments {
@@ -215,7 +215,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk() {
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldMap(fieldMap)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+				err := file.SecureSaveFile(path, file.EscapeName(documentId), file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
@@ -253,7 +253,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EscapeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				// The file holds every term of the field, the buffer only those of this interval.
@@ -306,7 +306,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.EscapeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -373,12 +373,12 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				path := filepath.Join(d.RootFolder, file.EscapeName(fieldName), file.Temp)
 				file.CreteDirIfNotExist(path)
 
 				// The fragment is complete before the merge can find it.
 				tempFile := uuid.New().String()
-				tempPath := filepath.Join(d.RootFolder, fieldName, tempFile)
+				tempPath := filepath.Join(d.RootFolder, file.EscapeName(fieldName), tempFile)
 				err := file.SaveFileOnDisk(tempPath, file.CompressData(buffer))
 				if err == nil {
 					err = file.RenameFile(tempPath, filepath.Join(path, tempFile))
-- 
2.43.0


From 298f3f872937417f757048426e0940ed07dedf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 14/14] fix: a search counts every document it finds, also one
 that is being saved

---
 index/InvertedIndex.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..20c5251 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -36,13 +36,6 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	maxRoutines := runtime.NumCPU() * 2
 
-	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
-	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
-
-	result := model.SearchResult{
-		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
-	}
-
 	documentIdCh := make(chan string, len(terms))
 	semaphoreCh := make(chan struct{}, maxRoutines)
 
@@ -81,6 +74,14 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 		ixx++
 	}
 
+	// Read after the documents: the counts include every document found, also one that is being saved right now.
+	fieldLength := float64(i.Storage.GetFieldLength(fieldName))
+	fieldSize := float64(i.Storage.GetFieldSize(fieldName))
+
+	result := model.SearchResult{
+		NumFieldsWithTerm: i.Storage.GetNumberFieldTerm(fieldName, terms),
+	}
+
 	fieldCh := make(chan map[string]model.Field, len(terms))
 
 	var wg2 sync.WaitGroup
-- 
2.43.0

