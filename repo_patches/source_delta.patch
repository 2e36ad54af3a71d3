From 3e4cc91881bc686f4f50caefcecfeb0bae1c9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 1/9] fix: bytepad adds no block when its input is already
 aligned

NIST SP 800-185 pads to the next multiple of w; an aligned input gets no
padding. The extra zero block made KMAC differ from the standard for keys
whose encoding ends on a block boundary.
---
 crypto/kmac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..7abdb90 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,7 +117,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 1586128ebe6114deec16a9a4f3e37a0d5a4264de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 2/9] fix: bind stored users and groups to the requested ID

The ID inside the stored bytes was used as associated data when unsealing,
so storage could answer a request for one user or group with the record of
another.
---
 id/standalone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..9cd6eb0 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -373,6 +373,7 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 	if err = json.Unmarshal(userBytes, user); err != nil {
 		return nil, err
 	}
+	user.UID = uid
 
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
@@ -419,6 +420,7 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 	if err := json.Unmarshal(groupBytes, group); err != nil {
 		return nil, err
 	}
+	group.GID = gid
 
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
-- 
2.43.0


From 216ae7ec6f532da117d3328100a2869f5b4026ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 3/9] fix: Encrypt does not append to the caller's groups slice

---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From ef2f8a16b37615090d343c1577fac672c5aecdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 4/9] fix: Bolt does not append to the caller's id slice

---
 io/bolt.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..a300dd1 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -52,8 +52,12 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+func newBoltKey(id []byte, dataType DataType) []byte {
+	return append(append([]byte{}, id...), dataType.Bytes()...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +68,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -81,7 +85,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -92,7 +96,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := newBoltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From f2082861bd0cc1a7f9162d727e20d04bce39c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 5/9] fix: Bolt.Get returns a stored empty value instead of
 ErrNotFound

---
 io/bolt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/bolt.go b/io/bolt.go
index a300dd1..71cb4d0 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -72,7 +72,9 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		if value := b.Get(key); value != nil {
+			out = append([]byte{}, value...)
+		}
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From 190827ccea23cbc9bb48605bd77f02fc92e0e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 6/9] fix: Mem keeps and returns copies of the data

Storing the caller's slice let a later write to it change the stored data,
and likewise for the slice returned by Get.
---
 io/mem.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..19b4850 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -41,7 +41,7 @@ func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
@@ -52,7 +52,7 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 		return nil, ErrNotFound
 	}
 	data := out.([]byte)
-	return data, nil
+	return append([]byte{}, data...), nil
 }
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
@@ -60,7 +60,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
-- 
2.43.0


From 5e0a71f9b9de16500be12bab2a541a1a005b66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 7/9] fix: a caller's own ID does not count as a group
 membership

AddUserToGroups and RemoveUserFromGroups require the caller to be a member
of all the groups, but accepted the caller's own user ID as a group.
---
 id/standalone.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 9cd6eb0..0a6a09a 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,9 +219,8 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
@@ -255,9 +254,8 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
-- 
2.43.0


From 786a53f5ed009401a05233725ab53cd697c72b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 8/9] fix: PasswordHasher.Compare rejects a record shorter than
 its salt

---
 crypto/password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..e52c401 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -56,6 +56,9 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	if len(saltAndHash) < saltLength {
+		return false
+	}
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0


From cf11b0673ebdfa629262031c9980320c71f3820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:51 +0000
Subject: [PATCH 9/9] fix: Mem.Put, Update and Delete each take effect in one
 atomic step

A lost race between the check and the store let several concurrent Puts of the
same record succeed, and let Update bring back a record deleted meanwhile.
---
 io/mem.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/io/mem.go b/io/mem.go
index 19b4850..88bd12f 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -23,12 +23,13 @@ import (
 
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
+	mu   sync.Mutex // held while data is changed, so that each change is one atomic step
 	data sync.Map
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,6 +39,8 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
@@ -57,6 +60,8 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +71,8 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0

