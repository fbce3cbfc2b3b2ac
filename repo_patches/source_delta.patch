From 729a8cebf2af845edde742f2930ebb582cbe3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 01/35] fix: AES.Decrypt returns an error for input shorter
 than the nonce

---
 crypto/aes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..5ce45d3 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,8 +4,12 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
+// ErrCipherTextTooShort is returned by Decrypt for data that cannot hold a nonce.
+var ErrCipherTextTooShort = errors.New("ciphertext too short")
+
 type AES struct {
 	secretKey []byte
 }
@@ -54,6 +58,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, ErrCipherTextTooShort
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 1e4cd203470ca824a171deb96e45a9d8c8219a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 02/35] fix: CryptoFSBuilder.AddFolder does not panic on a
 missing folder

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..3214ab9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From 909487e367c87336509f0c69dae9294f8b00d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 03/35] fix: reading a file of a CryptoFS goes on after the
 first Read and ends with EOF

---
 crypto_fs/crypto_fs.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 3214ab9..69f510f 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -173,7 +173,7 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil
 }
 
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -231,13 +231,18 @@ func (f file) Sys() any {
 	return nil
 }
 
-func (f file) Stat() (fs.FileInfo, error) {
-	return f, nil
+// openFile is an open handle: the file and the position of the next Read.
+type openFile struct {
+	file
+	reader *bytes.Reader
+}
+
+func (f *openFile) Stat() (fs.FileInfo, error) {
+	return f.file, nil
 }
 
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
+func (f *openFile) Read(i []byte) (int, error) {
+	return f.reader.Read(i)
 }
 
-func (f file) Close() error { return nil }
+func (f *openFile) Close() error { return nil }
-- 
2.43.0


From 67a117c639b706cdaa30c8f8fc8e8d11924ff1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 04/35] fix: the mode and type of a folder in a CryptoFS have
 the directory bit

---
 crypto_fs/crypto_fs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 69f510f..d4aacb9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -200,7 +200,7 @@ type file struct {
 }
 
 func (f file) Type() fs.FileMode {
-	return fs.FileMode(0755)
+	return f.Mode().Type()
 }
 
 func (f file) Info() (fs.FileInfo, error) {
@@ -216,6 +216,9 @@ func (f file) Size() int64 {
 }
 
 func (f file) Mode() fs.FileMode {
+	if f.IsDirFlag {
+		return fs.ModeDir
+	}
 	return fs.FileMode(0)
 }
 
-- 
2.43.0


From 7eb904a29801d6d7b19c1a608221d93d7d264970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 05/35] fix: the entries CryptoFS.ReadDir lists know their size

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index d4aacb9..8b55b61 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -187,6 +187,9 @@ func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	entries := make([]fs.DirEntry, len(f.Entries))
 	for i := 0; i < len(f.Entries); i++ {
 		entries[i] = f.Entries[i]
+		if stored, ok := c.files[f.Entries[i].Path]; ok {
+			entries[i] = stored // the listing itself does not hold the data
+		}
 	}
 	return entries, nil
 }
-- 
2.43.0


From bc43ea3241cab525ce5e14e2f00d6c3c83ced1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 06/35] fix: the name of a file added by AddFile is its base
 name

---
 crypto_fs/crypto_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 8b55b61..e323171 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -38,7 +38,7 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 		return b
 	}
 	f := file{
-		FileName: of.Name(),
+		FileName: filepath.Base(path),
 		Path:     path,
 		Data:     data,
 	}
-- 
2.43.0


From 92fb288db05b3e25b2a867a9e7d8cf679ebdd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 07/35] fix: Runner.Run and RunWithContext do not block for
 ever once the context is over

---
 workers/runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/workers/runner.go b/workers/runner.go
index 4b20cc0..5ab7731 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -20,11 +20,17 @@ type Runner struct {
 }
 
 func (r *Runner) Run(fn RunnerFn) {
-	r.runners <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runners <- fn:
+	}
 }
 
 func (r *Runner) RunWithContext(fn RunnerContextFn) {
-	r.runnersCtx <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runnersCtx <- fn:
+	}
 }
 
 type RunnerBuilder struct {
-- 
2.43.0


From aef773f63aa0b4a4ac0c86e2c14cc36301466f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 08/35] fix: Runner starts no queued task once the context is
 over

---
 workers/runner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/workers/runner.go b/workers/runner.go
index 5ab7731..231eff8 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -71,8 +71,14 @@ func (b *RunnerBuilder) Build() *Runner {
 				case <-r.ctx.Done():
 					return
 				case fn := <-r.runners:
+					if r.ctx.Err() != nil {
+						return
+					}
 					fn()
 				case fn := <-r.runnersCtx:
+					if r.ctx.Err() != nil {
+						return
+					}
 					fn(r.ctx)
 				}
 			}
-- 
2.43.0


From a5feb10b80fa00c7ac20c180ce2f87415bf13483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 09/35] fix: the goroutines of the channel helpers and
 ChunkChan.Add end with the context when the output is full

---
 chans/chunk_chan.go | 23 ++++++++++++++++++++---
 chans/shard_chan.go |  6 +++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..c93c14c 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -16,7 +16,10 @@ type ChunkChan[T any] struct {
 }
 
 func (c *ChunkChan[T]) Add(item T) {
-	c.incomingChan <- item
+	select {
+	case <-c.ctx.Done():
+	case c.incomingChan <- item:
+	}
 }
 
 func (c *ChunkChan[T]) Incoming() chan T {
@@ -31,6 +34,16 @@ func (c *ChunkChan[T]) Sizes() (int, int) {
 	return len(c.incomingChan), len(c.outgoingChan)
 }
 
+// send delivers a chunk, it returns false when the context is over.
+func (c *ChunkChan[T]) send(chunk []T) bool {
+	select {
+	case <-c.ctx.Done():
+		return false
+	case c.outgoingChan <- chunk:
+		return true
+	}
+}
+
 func (c *ChunkChan[T]) run() {
 	t := time.NewTicker(c.chunkTimeout)
 	defer t.Stop()
@@ -41,13 +54,17 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..e0586f2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,7 +132,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 0fdc6e3bb16452c430e7fd542afe069e4e6fe4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 10/35] fix: ShardChan routes negative shard keys instead of
 blocking for ever

---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index e0586f2..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				select {
 				case <-res.ctx.Done():
 					return
-- 
2.43.0


From 19e56e3c122381ef1ce045e38aebd75c1752287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 11/35] fix: closing the incoming channel of ChunkChan or
 ShardChan delivers what is pending and invents no zero items

---
 chans/chunk_chan.go | 8 +++++++-
 chans/shard_chan.go | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index c93c14c..bf6eb84 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -59,7 +59,13 @@ func (c *ChunkChan[T]) run() {
 				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
-		case item := <-c.incomingChan:
+		case item, ok := <-c.incomingChan:
+			if !ok {
+				if len(chunk) > 0 {
+					c.send(chunk)
+				}
+				return
+			}
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
 				if !c.send(chunk) {
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..5007e39 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -130,7 +130,10 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			select {
 			case <-res.ctx.Done():
 				return
-			case msg := <-res.incomingChan:
+			case msg, ok := <-res.incomingChan:
+				if !ok {
+					return
+				}
 				key := res.shardFunc(msg) % res.shardCount
 				if key < 0 {
 					key += res.shardCount
-- 
2.43.0


From 34d6e11069588e6afb48c7f870eec10f953c8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 12/35] fix: HashSet.Add of an element that is there already
 does not record it twice

---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..dac9451 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if s.m[key] {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From 95b0beaa593bafef1030571c917811fcd0b2ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 13/35] fix: removing an absent key of a TwoKeyMap does not
 remove the entry of the zero key

---
 collections/two_key_map.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..db0c5c8 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -56,15 +56,21 @@ func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
+	if k2, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, k2)
+	}
 	delete(m.k1Tok2, k1)
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From 25f9d1d688fff7a33783a63bce6091d9432c5807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 14/35] fix: putting a TwoKeyMap key again with another partner
 leaves no stale pairing

---
 collections/two_key_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index db0c5c8..80d38c9 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,12 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if old, ok := m.k1Tok2[k1]; ok && old != k2 {
+		delete(m.k2Tok1, old)
+	}
+	if old, ok := m.k2Tok1[k2]; ok && old != k1 {
+		delete(m.k1Tok2, old)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
-- 
2.43.0


From f54a224c4466ebb01c0bc1d242796afc37b13390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 15/35] fix: the expiry check of StructUniqSet does not panic
 while the set is empty

---
 collections/struct_uniq_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..4041047 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -77,6 +77,10 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 				return
 			case <-time.After(res.checkInterval):
 				res.elementsMu.RLock()
+				if len(res.ttlElements) == 0 {
+					res.elementsMu.RUnlock()
+					continue
+				}
 				first := res.ttlElements[0]
 				res.elementsMu.RUnlock()
 				if time.Since(first.createdAt) < res.ttl {
-- 
2.43.0


From bce718040af0451e6aeb59788a70744e38e40850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 16/35] fix: StructUniqSet does not expire an element that was
 added again after its predecessor

---
 collections/struct_uniq_set.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 4041047..705e0bf 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -87,13 +87,17 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 					continue
 				}
 				res.elementsMu.Lock()
-				for i, el := range res.ttlElements {
+				expired := 0
+				for _, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
 						break
 					}
-					delete(res.elements, el.hash)
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
+					expired++
 				}
+				res.ttlElements = res.ttlElements[expired:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From 94e14d9d59d7ba8bc414d128da27b2e693f1156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 17/35] fix: StructUniqSet uses the function given to
 WithBuildFunc

---
 collections/struct_uniq_set.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 705e0bf..1e09a51 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -105,17 +105,6 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 	return res
 }
 
-func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
-}
-
 func (s *StructUniqSet[V]) Count() int {
 	s.elementsMu.RLock()
 	defer s.elementsMu.RUnlock()
@@ -123,7 +112,7 @@ func (s *StructUniqSet[V]) Count() int {
 }
 
 func (s *StructUniqSet[V]) Has(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
@@ -134,7 +123,7 @@ func (s *StructUniqSet[V]) Has(v V) (bool, error) {
 }
 
 func (s *StructUniqSet[V]) Add(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
@@ -155,7 +144,7 @@ func (s *StructUniqSet[V]) Add(v V) (bool, error) {
 }
 
 func (s *StructUniqSet[V]) Remove(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From eec9bd8bd5b1999ef9425602aeea514d8670dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 18/35] fix: GuavaMap.Delete of an absent key does not panic
 when there is an unload function

---
 collections/guava_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..44cde8e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -117,6 +117,9 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	if _, ok := m.stored[key]; !ok {
+		return
+	}
 	if m.unloadFunc != nil {
 		v := m.stored[key].v
 		go m.unloadFunc(key, v)
-- 
2.43.0


From 59ce76cb3239fa92726132aee2c44e96af05a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 19/35] fix: the timer of a GuavaMap entry that was replaced or
 is gone does not delete a newer entry

---
 collections/guava_map.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 44cde8e..2129d2d 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -74,7 +74,9 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 				return
 			case <-res.timer.C:
 				m.mu.Lock()
-				m.safeDelete(key)
+				if m.stored[key] == res {
+					m.safeDelete(key)
+				}
 				m.mu.Unlock()
 
 			}
@@ -194,12 +196,12 @@ func (m *GuavaMap[K, V]) Delete(key K) {
 func (m *GuavaMap[K, V]) Clear() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if m.unloadFunc != nil {
-		for k, v := range m.stored {
+	for k, v := range m.stored {
+		if m.unloadFunc != nil {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
@@ -294,10 +296,14 @@ func (m *GuavaMap[K, V]) Set(key K, val V) {
 		return
 	} else {
 		if v.timer != nil {
-			if m.writeTimeout > 0 {
-				v.timer.Reset(m.writeTimeout)
-			} else {
-				v.timer.Reset(m.readTimeout)
+			timeout := m.writeTimeout
+			if timeout <= 0 {
+				timeout = m.readTimeout
+			}
+			if !v.timer.Reset(timeout) { // it fired already: the entry is about to go
+				v.cancelFn()
+				m.stored[key] = m.createHolder(key, val)
+				return
 			}
 		}
 		v.v = val
-- 
2.43.0


From 41abffa9ac352c6a88bdf0d0815317f1182bdbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 20/35] fix: GuavaMap.LockForUpdate keeps the lock of a key
 while an update runs, whatever else happens to the key

---
 collections/guava_map.go | 87 ++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 53 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 2129d2d..55e87c2 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -28,11 +28,16 @@ type guavaHolder[V any] struct {
 	v        V
 }
 
+type guavaUpdateLock struct {
+	mu   sync.Mutex
+	refs int
+}
+
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
-	updateLockMap      map[K]*sync.Mutex
-	updateLockMapMu    sync.RWMutex
+	updateLockMap      map[K]*guavaUpdateLock
+	updateLockMapMu    sync.Mutex
 	mu                 sync.RWMutex
 	maxCount           int
 	loadFunc           GuavaLoadFunc[K, V]
@@ -44,15 +49,28 @@ type GuavaMap[K comparable, V any] struct {
 	ctx                context.Context
 }
 
-func (m *GuavaMap[K, V]) getKeyLock(key K) *sync.Mutex {
+// lockKey locks the update lock of the key, which exists while someone holds it or waits for it
+func (m *GuavaMap[K, V]) lockKey(key K) {
 	m.updateLockMapMu.Lock()
-	defer m.updateLockMapMu.Unlock()
 	lock, ok := m.updateLockMap[key]
 	if !ok {
-		lock = &sync.Mutex{}
+		lock = &guavaUpdateLock{}
 		m.updateLockMap[key] = lock
 	}
-	return lock
+	lock.refs++
+	m.updateLockMapMu.Unlock()
+	lock.mu.Lock()
+}
+
+func (m *GuavaMap[K, V]) unlockKey(key K) {
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	lock := m.updateLockMap[key]
+	lock.refs--
+	if lock.refs == 0 {
+		delete(m.updateLockMap, key)
+	}
+	lock.mu.Unlock()
 }
 
 func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
@@ -134,9 +152,6 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 	}
 
 	delete(m.stored, key)
-	//m.updateLockMapMu.Lock()
-	//delete(m.updateLockMap, key)
-	//m.updateLockMapMu.Unlock()
 	if m.maxCount > 0 {
 		for i, k := range m.storedSlice {
 			if k == key {
@@ -145,41 +160,11 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 			}
 		}
 	}
-
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
-	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	lock.Lock()
-	defer lock.Unlock()
+	m.lockKey(key)
+	defer m.unlockKey(key)
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -208,11 +193,6 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
-	}
 }
 
 func (m *GuavaMap[K, V]) Size() int {
@@ -365,13 +345,14 @@ func (b *GuavaMapBuilder[K, V]) WithReadTimeout(readTimeout time.Duration) *Guav
 
 func (b *GuavaMapBuilder[K, V]) Build() *GuavaMap[K, V] {
 	res := &GuavaMap[K, V]{
-		stored:       make(map[K]*guavaHolder[V]),
-		loadFunc:     b.loadFunc,
-		maxCount:     b.maxCount,
-		unloadFunc:   b.unloadFunc,
-		writeTimeout: b.writeTimeout,
-		readTimeout:  b.readTimeout,
-		ctx:          b.ctx,
+		stored:        make(map[K]*guavaHolder[V]),
+		updateLockMap: make(map[K]*guavaUpdateLock),
+		loadFunc:      b.loadFunc,
+		maxCount:      b.maxCount,
+		unloadFunc:    b.unloadFunc,
+		writeTimeout:  b.writeTimeout,
+		readTimeout:   b.readTimeout,
+		ctx:           b.ctx,
 	}
 	if b.lockLoad {
 		res.lockLoad = NewMapMutex[K]()
-- 
2.43.0


From c23e371d78b9bf79593620fff7d3b90c726058bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 21/35] fix: GuavaMap.LockForUpdate keeps to the maximum count
 and leaves no second timer behind

---
 collections/guava_map.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 55e87c2..829be8a 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -166,9 +166,7 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	m.lockKey(key)
 	defer m.unlockKey(key)
 	res := update()
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	m.stored[key] = m.createHolder(key, res)
+	m.Set(key, res)
 	return res
 }
 
-- 
2.43.0


From 7a2259a6b404a21c47d2bd2fbd3e8ee0741dee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 22/35] fix: GuavaMap with LockLoad loads a key once and keeps
 the key locked until the value is stored

---
 collections/guava_map.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 829be8a..146b93e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -199,15 +199,24 @@ func (m *GuavaMap[K, V]) Size() int {
 	return len(m.stored)
 }
 
-func (m *GuavaMap[K, V]) Get(key K) (V, error) {
+// lookup returns the value of a stored key, which counts as a read
+func (m *GuavaMap[K, V]) lookup(key K) (v V, ok bool) {
 	m.mu.RLock()
+	defer m.mu.RUnlock()
 	val, ok := m.stored[key]
-	m.mu.RUnlock()
+	if !ok {
+		return v, false
+	}
+	if val.timer != nil && m.readTimeout > 0 {
+		val.timer.Reset(m.readTimeout)
+	}
+	return val.v, true
+}
+
+func (m *GuavaMap[K, V]) Get(key K) (V, error) {
+	v, ok := m.lookup(key)
 	if ok {
-		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
-		}
-		return val.v, nil
+		return v, nil
 	}
 	if m.loadFunc == nil {
 		var v V
@@ -218,13 +227,12 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 
 	if m.lockLoad != nil {
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		if v, ok = m.lookup(key); ok {
+			return v, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
 	}
+	loadedVal, err = m.loadFunc(key)
 
 	if err != nil {
 		var v V
@@ -232,7 +240,7 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	val, ok = m.stored[key]
+	val, ok := m.stored[key]
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
 			val.timer.Reset(m.readTimeout)
-- 
2.43.0


From 880865fd91c583b4f122c201777de3158420dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 23/35] fix: GuavaMap.GetStored reads the size of the map under
 its lock

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 146b93e..36320b6 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -258,8 +258,8 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 }
 
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From 22344d19ca6a2d8dd67a8aae31d00784e2be45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 24/35] fix: GuavaMap.HasOrCreate records the order of keys
 only when there is a maximum count

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 36320b6..46f49b4 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -126,8 +126,8 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 			if len(m.storedSlice) >= m.maxCount {
 				m.safeDelete(m.storedSlice[0])
 			}
+			m.storedSlice = append(m.storedSlice, key)
 		}
-		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].timer.Reset(m.readTimeout)
-- 
2.43.0


From fe3670a8891d037b1947a19231941b602be1313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 25/35] fix: RequestMap forgets an expired result once and not
 again when its key has a newer one

---
 collections/request_map.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..b8da71a 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -64,13 +64,15 @@ func (rm *RequestMap[K, V]) rmWorker() {
 
 		rm.mu.Lock()
 		defer rm.mu.Unlock()
-		for i, r := range rm.resultSlice {
+		expired := 0
+		for _, r := range rm.resultSlice {
 			if time.Since(r.resultTime) < rm.deleteAfter {
-				rm.resultSlice = rm.resultSlice[i:]
-				return
+				break
 			}
 			delete(rm.response, r.key)
+			expired++
 		}
+		rm.resultSlice = rm.resultSlice[expired:]
 	}
 
 	for {
-- 
2.43.0


From 1bef1581d8a8f85b3a873c5ade3d2a9c19742135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 26/35] fix: the initial results of a RequestMap expire like
 the others

---
 collections/request_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/request_map.go b/collections/request_map.go
index b8da71a..cfcbac9 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -41,7 +41,9 @@ func NewRequestMap[K comparable, V any](ctx context.Context, ttl time.Duration,
 	}
 	if len(init) > 0 {
 		for _, i := range init {
-			res.response[i.Key] = resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			res.response[i.Key] = r
+			res.resultSlice = append(res.resultSlice, r)
 		}
 	}
 	go res.rmWorker()
-- 
2.43.0


From 8f79cb14d66d5f5c12db9d9941a027e53f682f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 27/35] fix: a ResponseMap entry keeps its first value, times
 out whoever waits for it and keeps no goroutine

The goroutine of an entry outlived the context, timed out only the first
group of waiters, lost waiters that came while the answer was delivered,
let a second Set replace the value and panicked on a Set after clearing.
---
 collections/response_map.go | 133 ++++++++++++++++++++----------------
 1 file changed, 74 insertions(+), 59 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..c40d558 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -66,96 +66,111 @@ type ResponseMap[K comparable, V any] struct {
 }
 
 type chansHolder[K comparable, V any] struct {
-	ctx       context.Context
-	cancelCtx context.CancelFunc
 	trx       K
+	timeout   time.Duration
 	t         *time.Timer
 	createdAt time.Time
 	mu        sync.RWMutex
 	isExist   bool
+	cleared   bool
 	data      V
-	dataCh    chan V
 	listeners []chan V
 }
 
 func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHolder[K, V] {
-	ctx, cancel := context.WithCancel(context.Background())
-	h := &chansHolder[K, V]{
-		ctx:       ctx,
-		cancelCtx: cancel,
+	return &chansHolder[K, V]{
 		trx:       trx,
-		t:         time.NewTimer(timeout),
+		timeout:   timeout,
 		createdAt: time.Now(),
-		dataCh:    make(chan V, 1),
-	}
-	go func() {
-		defer h.t.Stop()
-		for {
-			select {
-			case <-h.ctx.Done():
-				close(h.dataCh)
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				return
-			case <-h.t.C:
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				h.mu.Lock()
-				h.listeners = nil
-				h.mu.Unlock()
-			case d := <-h.dataCh:
-				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
-				}
-				h.mu.Unlock()
-			}
-		}
-	}()
-	return h
+	}
 }
 
-func (h *chansHolder[K, V]) set(data V) {
-	h.mu.RLock()
-	exist := h.isExist
-	h.mu.RUnlock()
-	if exist {
-		return
+// release ends the wait of everyone who is waiting, without a value. It must be called with the lock held
+func (h *chansHolder[K, V]) release() {
+	for _, ch := range h.listeners {
+		close(ch)
+	}
+	h.listeners = nil
+	if h.t != nil {
+		h.t.Stop()
+		h.t = nil
+	}
+}
+
+// set stores the data, unless there is some already. It returns false if the holder was cleared
+func (h *chansHolder[K, V]) set(data V) bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.cleared {
+		return false
+	}
+	if h.isExist {
+		return true
+	}
+	h.data = data
+	h.isExist = true
+	for _, ch := range h.listeners {
+		ch <- data
 	}
-	h.dataCh <- data
+	h.release()
+	return true
 }
 
-func (h *chansHolder[K, V]) wait() V {
+// wait returns the data once it is there, or the zero value after the timeout. The second result is false if
+// the holder was cleared before the wait began
+func (h *chansHolder[K, V]) wait() (V, bool) {
 	h.mu.RLock()
 	e := h.isExist
+	data := h.data
 	h.mu.RUnlock()
 	if e {
-		return h.data
+		return data, true
 	}
 	h.mu.Lock()
-	e = h.isExist
-	if e {
+	if h.isExist {
+		defer h.mu.Unlock()
+		return h.data, true
+	}
+	if h.cleared {
 		h.mu.Unlock()
-		return h.data
+		return data, false
 	}
 	ch := make(chan V, 1)
 	h.listeners = append(h.listeners, ch)
+	if h.t == nil {
+		var t *time.Timer
+		t = time.AfterFunc(h.timeout, func() {
+			h.mu.Lock()
+			defer h.mu.Unlock()
+			if h.t == t {
+				h.release()
+			}
+		})
+		h.t = t
+	}
 	h.mu.Unlock()
-	return <-ch
+	return <-ch, true
+}
+
+// clear ends all waits and makes the holder unusable
+func (h *chansHolder[K, V]) clear() {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.cleared = true
+	h.release()
 }
 
 func (r *ResponseMap[K, V]) Set(key K, value V) {
-	holder := r.getHolder(key)
-	holder.set(value)
+	for !r.getHolder(key).set(value) {
+	}
 }
 
 func (r *ResponseMap[K, V]) Wait(key K) V {
-	holder := r.getHolder(key)
-	return holder.wait()
+	for {
+		if value, ok := r.getHolder(key).wait(); ok {
+			return value
+		}
+	}
 }
 
 func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
@@ -184,9 +199,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
+			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			for _, holder := range r.m {
 				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
 					remove = append(remove, holder)
@@ -196,11 +211,11 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 			r.logger.Debug().Int("should remove", len(remove)).Msg("collect expired holders")
 			r.mu.Lock()
 			for _, holder := range remove {
-				holder.cancelCtx()
+				holder.clear()
 				delete(r.m, holder.trx)
 			}
-			r.mu.Unlock()
 			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.mu.Unlock()
 		}
 	}
 }
-- 
2.43.0


From 4cd983fb7a3646e391070629c1f9a715a0306ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:06 +0000
Subject: [PATCH 28/35] fix: the request timeout of WaitMap ends the wait it
 belongs to and no other

---
 collections/wait_map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..e4c8b30 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,13 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				// the waiters may be gone, and others may be waiting
+				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
+				wm.mu.Unlock()
 			}
 		}()
 	}
@@ -79,7 +84,11 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+// set must be called with the lock held
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From c9509233c81bdea1bc9e484871724d7044b968c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 29/35] fix: HolderMap decides under the lock of an entry
 whether a Wait returns at once, so that none is forgotten

---
 collections/holder_map.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..1fa2c6d 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -16,6 +16,20 @@ type holderMapHolder[V any] struct {
 	timeOutTimer    *time.Timer
 	mu              sync.Mutex
 }
+
+// wait returns the outcome of the holder once there is one
+func (h *holderMapHolder[V]) wait() error {
+	h.mu.Lock()
+	if h.released {
+		defer h.mu.Unlock()
+		return h.Err
+	}
+	waitChan := make(chan error, 1)
+	h.releaseChanList = append(h.releaseChanList, waitChan)
+	h.mu.Unlock()
+	return <-waitChan
+}
+
 type HolderMap[K comparable, V any] struct {
 	mu                     sync.RWMutex
 	m                      map[K]*holderMapHolder[V]
@@ -29,6 +43,8 @@ func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
@@ -46,29 +62,13 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
-		if h.released {
-			return h.Err
-		} else {
-			waitChan := make(chan error, 1)
-			h.mu.Lock()
-			h.releaseChanList = append(h.releaseChanList, waitChan)
-			h.mu.Unlock()
-			return <-waitChan
-		}
+		return h.wait()
 	} else {
 		c.mu.Lock()
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
-			if h.released {
-				return h.Err
-			} else {
-				waitChan := make(chan error, 1)
-				h.mu.Lock()
-				h.releaseChanList = append(h.releaseChanList, waitChan)
-				h.mu.Unlock()
-				return <-waitChan
-			}
+			return h.wait()
 		} else {
 			waitChan := make(chan error, 1)
 			h = &holderMapHolder[V]{
-- 
2.43.0


From bc8d2f03272b49e8dff5e59c8f11535ea278f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 30/35] fix: releasing a HolderMap entry a third time does not
 block for ever

---
 collections/holder_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 1fa2c6d..7efb7b5 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -30,6 +30,14 @@ func (h *holderMapHolder[V]) wait() error {
 	return <-waitChan
 }
 
+// release gives the outcome of the holder. Only the first one counts, and none waits for the other
+func (h *holderMapHolder[V]) release(err error) {
+	select {
+	case h.inChan <- err:
+	default:
+	}
+}
+
 type HolderMap[K comparable, V any] struct {
 	mu                     sync.RWMutex
 	m                      map[K]*holderMapHolder[V]
@@ -128,7 +136,7 @@ func (c *HolderMap[K, V]) Release(trx K) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		h.release(nil)
 		return nil
 	} else {
 		return errors.New("not found")
@@ -140,7 +148,7 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		h.release(err)
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From 5e7aa6214822b25fca82dc0a8f2f6946e6e4a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 31/35] fix: the end of the context ends the waits of a
 HolderMap and removes its entries

---
 collections/holder_map.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 7efb7b5..4376c51 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -93,7 +93,9 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 					h.released = true
 					h.Err = errors.New("timeout")
 				case <-c.ctx.Done():
-					return
+					h.mu.Lock()
+					h.released = true
+					h.Err = c.ctx.Err()
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
@@ -104,7 +106,12 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 				}
 				h.mu.Unlock()
 				go func() {
-					time.Sleep(c.destroyElementDuration)
+					t := time.NewTimer(c.destroyElementDuration)
+					defer t.Stop()
+					select {
+					case <-t.C:
+					case <-c.ctx.Done():
+					}
 					c.mu.Lock()
 					delete(c.m, trx)
 					c.mu.Unlock()
-- 
2.43.0


From 7543e0264cdf2c157c8836ed723695eaef854220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 32/35] fix: channel builders leave what they have built alone

A second Build of a ChunkChan, ShardChan or ShardChunk builder shared the
incoming channel made by the first, and the callbacks of an object already
built were read from the builder again for every message.
---
 chans/chunk_chan.go       | 13 +++++++------
 chans/shard_chan.go       | 11 ++++++-----
 chans/shard_chunk_chan.go | 18 ++++++++++--------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index bf6eb84..823f0db 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -133,26 +133,27 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ChunkChan[T]{
 		ctx:          b.ctx,
 		chunkSize:    b.chunkSize,
 		chunkTimeout: b.chunkTimeout,
-		incomingChan: b.incomingChan,
+		incomingChan: incomingChan,
 		outgoingChan: make(chan []T, b.outgoingBufferSize),
 	}
 
 	go res.run()
-	if b.chunkFunc != nil {
+	if chunkFunc := b.chunkFunc; chunkFunc != nil {
 		go func() {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-res.ctx.Done():
 					return
 				case chunk := <-res.outgoingChan:
-					b.chunkFunc(chunk)
+					chunkFunc(chunk)
 				}
 			}
 		}()
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 5007e39..8014939 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -112,13 +112,14 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ShardChan[T]{
 		ctx:           b.ctx,
 		shardFunc:     b.shardFunc,
-		incomingChan:  b.incomingChan,
+		incomingChan:  incomingChan,
 		shardCount:    b.shardCount,
 		outgoingChans: make(map[int]chan T, b.shardCount),
 	}
@@ -146,7 +147,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			}
 		}
 	}()
-	if b.workerFunc != nil {
+	if workerFunc := b.workerFunc; workerFunc != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
@@ -154,7 +155,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 					case <-res.ctx.Done():
 						return
 					case msg := <-res.outgoingChans[k]:
-						b.workerFunc(k, msg)
+						workerFunc(k, msg)
 					}
 				}
 			}(i)
diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..8f3cf0f 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -112,20 +112,22 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
-	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(b.incomingChan).Build()
+	ctx := b.ctx
+	sharder, err := NewShardChan[T]().WithContext(ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(incomingChan).Build()
 	if err != nil {
 		return nil, err
 	}
 	chunkers := make([]*ChunkChan[T], b.shardCount)
 	for i := 0; i < b.shardCount; i++ {
-		chunkers[i] = NewChunkChan[T]().WithContext(b.ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
+		chunkers[i] = NewChunkChan[T]().WithContext(ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
 		go func(k int) {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-ctx.Done():
 					return
 				case m := <-sharder.C(k):
 					chunkers[k].Add(m)
@@ -133,15 +135,15 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 			}
 		}(i)
 	}
-	if b.shardWorker != nil {
+	if shardWorker := b.shardWorker; shardWorker != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case batch := <-chunkers[k].C():
-						b.shardWorker(k, batch)
+						shardWorker(k, batch)
 					}
 				}
 			}(i)
-- 
2.43.0


From ce9f0758b91faee4187e1c24b18f1b09b493069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 33/35] fix: a GuavaMap entry used at the moment of its expiry
 is not removed

The timer goroutine removed an entry that was read or set again between the
firing of its timer and the lock, right after the call that had prolonged it.
---
 collections/guava_map.go | 59 +++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 46f49b4..ce76e72 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -24,10 +24,20 @@ type timeoutHolder[K comparable] struct {
 
 type guavaHolder[V any] struct {
 	timer    *time.Timer
+	mu       sync.Mutex // guards deadline while the map is only locked for reading
+	deadline time.Time
 	cancelFn context.CancelFunc
 	v        V
 }
 
+// prolong lets the entry live for the timeout from now on. It must be called with the lock of the map held
+func (h *guavaHolder[V]) prolong(timeout time.Duration) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.deadline = time.Now().Add(timeout)
+	h.timer.Reset(timeout)
+}
+
 type guavaUpdateLock struct {
 	mu   sync.Mutex
 	refs int
@@ -80,23 +90,32 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	if m.readTimeout > 0 || m.writeTimeout > 0 {
 		ctx, cancelFn := context.WithCancel(m.ctx)
 		res.cancelFn = cancelFn
-		if m.writeTimeout > 0 {
-			res.timer = time.NewTimer(m.writeTimeout)
-		} else {
-			res.timer = time.NewTimer(m.readTimeout)
+		timeout := m.writeTimeout
+		if timeout <= 0 {
+			timeout = m.readTimeout
 		}
+		res.deadline = time.Now().Add(timeout)
+		res.timer = time.NewTimer(timeout)
 		go func() {
 			defer res.timer.Stop()
-			select {
-			case <-ctx.Done():
-				return
-			case <-res.timer.C:
-				m.mu.Lock()
-				if m.stored[key] == res {
-					m.safeDelete(key)
+			for {
+				select {
+				case <-ctx.Done():
+					return
+				case <-res.timer.C:
+					m.mu.Lock()
+					if m.stored[key] == res {
+						left := time.Until(res.deadline)
+						if left > 0 { // used after the timer fired
+							res.timer.Reset(left)
+							m.mu.Unlock()
+							continue
+						}
+						m.safeDelete(key)
+					}
+					m.mu.Unlock()
+					return
 				}
-				m.mu.Unlock()
-
 			}
 		}()
 	}
@@ -109,7 +128,7 @@ func (m *GuavaMap[K, V]) Has(key K) bool {
 	v, ok := m.stored[key]
 	if ok {
 		if v.timer != nil && m.readTimeout > 0 {
-			v.timer.Reset(m.readTimeout)
+			v.prolong(m.readTimeout)
 		}
 	}
 	return ok
@@ -130,7 +149,7 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 		}
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
-			m.stored[key].timer.Reset(m.readTimeout)
+			m.stored[key].prolong(m.readTimeout)
 		}
 	}
 	return ok
@@ -208,7 +227,7 @@ func (m *GuavaMap[K, V]) lookup(key K) (v V, ok bool) {
 		return v, false
 	}
 	if val.timer != nil && m.readTimeout > 0 {
-		val.timer.Reset(m.readTimeout)
+		val.prolong(m.readTimeout)
 	}
 	return val.v, true
 }
@@ -243,7 +262,7 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	val, ok := m.stored[key]
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
+			val.prolong(m.readTimeout)
 		}
 		return val.v, nil
 	}
@@ -286,11 +305,7 @@ func (m *GuavaMap[K, V]) Set(key K, val V) {
 			if timeout <= 0 {
 				timeout = m.readTimeout
 			}
-			if !v.timer.Reset(timeout) { // it fired already: the entry is about to go
-				v.cancelFn()
-				m.stored[key] = m.createHolder(key, val)
-				return
-			}
+			v.prolong(timeout)
 		}
 		v.v = val
 		return
-- 
2.43.0


From 023f891e877d9aa97cec6dd9b650cbb91e498f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 34/35] fix: an outcome given before a HolderMap key timed out
 or the context ended is not lost

---
 collections/holder_map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 4376c51..24506c7 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -38,6 +38,15 @@ func (h *holderMapHolder[V]) release(err error) {
 	}
 }
 
+// given returns the outcome that was given to the holder, or err if there is none
+func (h *holderMapHolder[V]) given(err error) error {
+	select {
+	case err = <-h.inChan:
+	default:
+	}
+	return err
+}
+
 type HolderMap[K comparable, V any] struct {
 	mu                     sync.RWMutex
 	m                      map[K]*holderMapHolder[V]
@@ -91,11 +100,11 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 				case <-h.timeOutTimer.C:
 					h.mu.Lock()
 					h.released = true
-					h.Err = errors.New("timeout")
+					h.Err = h.given(errors.New("timeout"))
 				case <-c.ctx.Done():
 					h.mu.Lock()
 					h.released = true
-					h.Err = c.ctx.Err()
+					h.Err = h.given(c.ctx.Err())
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
-- 
2.43.0


From 6bf7e8aae44c2c524bf5626b4d9fbc851b408754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 35/35] fix: a processor keeps the routes it was built with

---
 flow/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow/processor.go b/flow/processor.go
index 88eb7fa..465cf48 100644
--- a/flow/processor.go
+++ b/flow/processor.go
@@ -66,8 +66,9 @@ func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(ev
 }
 
 func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
+	routes := append([]ProcessorRouter[E, S](nil), fb.routes...)
 	return func(event E, state S) error {
-		for _, route := range fb.routes {
+		for _, route := range routes {
 			for _, fn := range route.chain {
 				if err := fn(event, state); err != nil {
 					return err
-- 
2.43.0

