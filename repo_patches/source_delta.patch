From 11636062a2df1486b18abf09529c5759ca910fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 001/100] fix: rolling average of the first samples is not
 their mean

While the window is not full, the divisor changes with every sample, but
the previous average was not rescaled. E.g. average of (1, 1) was 1.5, and
the error stayed in the average forever.
---
 skyobject/statutil/average.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/skyobject/statutil/average.go b/skyobject/statutil/average.go
index 783117e..18aae74 100644
--- a/skyobject/statutil/average.go
+++ b/skyobject/statutil/average.go
@@ -45,9 +45,9 @@ func NewDuration(n int) (d *Duration) {
 	d = new(Duration)
 
 	var (
-		bins    = make([]float64, n)
-		average float64
-		i, c    int
+		bins = make([]float64, n)
+		sum  float64 // sum of the bins
+		i, c int
 	)
 
 	d.roll = func(dur time.Duration) time.Duration {
@@ -60,11 +60,11 @@ func NewDuration(n int) (d *Duration) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
+		sum += x - bins[i]
 		bins[i] = x
 		i = (i + 1) % n
 
-		d.last = time.Duration(average)
+		d.last = time.Duration(sum / float64(c))
 		return d.last
 	}
 
@@ -106,9 +106,9 @@ func NewFloat(n int) (f *Float) {
 	f = new(Float)
 
 	var (
-		bins    = make([]float64, n)
-		average float64
-		i, c    int
+		bins = make([]float64, n)
+		sum  float64 // sum of the bins
+		i, c int
 	)
 
 	f.roll = func(dur float64) float64 {
@@ -121,12 +121,12 @@ func NewFloat(n int) (f *Float) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
+		sum += x - bins[i]
 		bins[i] = x
 		i = (i + 1) % n
 
-		f.last = average
-		return average
+		f.last = sum / float64(c)
+		return f.last
 	}
 
 	return
-- 
2.43.0


From 6a17c8e418ad26e8b71bb1d907d77bb27dca4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 002/100] fix: -debug-pins flag has no effect

The value was copied to the Config before flag.Parse.
---
 node/log/log.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index a8784de..40f2428 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -52,14 +52,10 @@ func (c *Config) FromFlags() {
 		c.Debug,
 		"print debug logs")
 
-	var pins uint
-
-	flag.UintVar(&pins,
+	flag.UintVar((*uint)(&c.Pins),
 		"debug-pins",
 		uint(c.Pins),
 		"debug pins (default all)")
-
-	c.Pins = Pin(pins)
 }
 
 // A Logger is similar to log.Logger with Debug methods.
-- 
2.43.0


From 887033fef5645d1b757cd66aaf3cb301e6ba58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 003/100] fix: Error, Errorln and Errorf garble messages

Error and Errorln print all arguments as one slice, in brackets; Errorf
interprets the text of the error as a part of the format.
---
 node/log/log.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 40f2428..6a29b51 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -183,7 +183,7 @@ func (l *logger) Error(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorln(err error, args ...interface{}) {
@@ -191,12 +191,11 @@ func (l *logger) Errorln(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(errArgs...)+fmt.Sprintln(args...))
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-	format = "[ERR] " + fmt.Sprintf("err=%s ", err) + format
-	l.Output(2, fmt.Sprintf(format, args...))
+	l.Output(2, "[ERR] "+fmt.Sprintf("err=%s ", err)+fmt.Sprintf(format, args...))
 }
 
 func (l *logger) Pins() Pin {
-- 
2.43.0


From b4072d1fe86c26075d9775eec54311146073f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 004/100] fix: Del of in-memory CXDS does not delete

---
 data/cxds/memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 1e6a91c..de688eb 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -196,6 +196,7 @@ func (m *memoryCXDS) Del(key cipher.SHA256) (_ error) {
 	m.amountAll--
 	m.voluemAll -= len(mo.val)
 
+	delete(m.kvs, key)
 	return
 }
 
-- 
2.43.0


From cff6821100f6299a5bae26a25e6bd5face0adb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 005/100] fix: Set of on-drive CXDS ignores inc argument for
 new objects

---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 6dc0d0f..3075b63 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -379,7 +379,7 @@ func (d *driveCXDS) Set(
 			// created
 			d.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, 1)
+			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
 		}
 
-- 
2.43.0


From e707b3a542799dfe0827deb166c9b1399b816863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 006/100] fix: on-drive CXDS saves version instead of its
 statistic

---
 data/cxds/cxds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index acb4d62..cf495da 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -56,7 +56,7 @@ func versionBytes() []byte {
 
 func encodeUint32(u uint32) (ub []byte) {
 	ub = make([]byte, 4)
-	binary.BigEndian.PutUint32(ub, uint32(Version))
+	binary.BigEndian.PutUint32(ub, u)
 	return
 }
 
-- 
2.43.0


From bba8b5f1c7fdc756c07e9c83928a307d36bfe814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 007/100] fix: failed transaction changes statistic of on-drive
 CXDS

---
 data/cxds/drive.go | 71 +++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 3075b63..e274e38 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -237,26 +237,29 @@ func (d *driveCXDS) saveStat() (err error) {
 
 }
 
-func (d *driveCXDS) av(rc, nrc uint32, vol int) {
+// the statistic changes only if the transaction succeeds
+func (d *driveCXDS) av(tx *bolt.Tx, rc, nrc uint32, vol int) {
+	tx.OnCommit(func() {
 
-	d.mx.Lock()
-	defer d.mx.Unlock()
+		d.mx.Lock()
+		defer d.mx.Unlock()
 
-	if rc == 0 { // was dead
-		if nrc > 0 { // an be resurrected
-			d.amountUsed++
-			d.volumeUsed += vol
+		if rc == 0 { // was dead
+			if nrc > 0 { // an be resurrected
+				d.amountUsed++
+				d.volumeUsed += vol
+			}
+			return // else -> as is
 		}
-		return // else -> as is
-	}
 
-	// rc > 0 (was alive)
+		// rc > 0 (was alive)
 
-	if nrc == 0 { // and be killed
-		d.amountUsed--
-		d.volumeUsed -= vol
-	}
+		if nrc == 0 { // and be killed
+			d.amountUsed--
+			d.volumeUsed -= vol
+		}
 
+	})
 }
 
 func (d *driveCXDS) incr(
@@ -291,7 +294,7 @@ func (d *driveCXDS) incr(
 	err = o.Put(key[:], repl)
 
 	if rc != nrc {
-		d.av(rc, nrc, len(val))
+		d.av(o.Tx(), rc, nrc, len(val))
 	}
 
 	return
@@ -340,12 +343,14 @@ func panicf(format string, args ...interface{}) {
 	panic(fmt.Sprintf(format, args...))
 }
 
-func (d *driveCXDS) addAll(vol int) {
-	d.mx.Lock()
-	defer d.mx.Unlock()
+func (d *driveCXDS) addAll(tx *bolt.Tx, vol int) {
+	tx.OnCommit(func() {
+		d.mx.Lock()
+		defer d.mx.Unlock()
 
-	d.amountAll++
-	d.volumeAll += vol
+		d.amountAll++
+		d.volumeAll += vol
+	})
 }
 
 // Set value and its references counter
@@ -377,7 +382,7 @@ func (d *driveCXDS) Set(
 		if len(got) == 0 {
 
 			// created
-			d.addAll(len(val))
+			d.addAll(tx, len(val))
 
 			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
@@ -429,18 +434,20 @@ func (d *driveCXDS) Inc(
 	return
 }
 
-func (d *driveCXDS) del(rc uint32, vol int) {
+func (d *driveCXDS) del(tx *bolt.Tx, rc uint32, vol int) {
+	tx.OnCommit(func() {
 
-	d.mx.Lock()
-	defer d.mx.Unlock()
+		d.mx.Lock()
+		defer d.mx.Unlock()
 
-	if rc > 0 {
-		d.amountUsed--
-		d.volumeUsed -= vol
-	}
+		if rc > 0 {
+			d.amountUsed--
+			d.volumeUsed -= vol
+		}
 
-	d.amountAll--
-	d.volumeAll -= vol
+		d.amountAll--
+		d.volumeAll -= vol
+	})
 }
 
 // Del deletes value unconditionally
@@ -465,7 +472,7 @@ func (d *driveCXDS) Del(
 			return
 		}
 
-		d.del(getRefsCount(got), len(got)-4)
+		d.del(tx, getRefsCount(got), len(got)-4)
 		return // nil
 	})
 
@@ -539,7 +546,7 @@ func (d *driveCXDS) IterateDel(
 					return
 				}
 
-				d.del(rc, len(v)-4) // stat
+				d.del(tx, rc, len(v)-4) // stat
 			}
 
 			incSlice(key[:]) // next
-- 
2.43.0


From 4379d90e78517dd682465b274853228d0a5f344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 008/100] fix: iteration that reaches the last possible key
 starts over

---
 data/cxds/cxds.go   |  8 +++++---
 data/cxds/drive.go  |  4 +++-
 data/idxdb/drive.go | 16 +++++++++++-----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index cf495da..daf3b2c 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -64,14 +64,16 @@ func decodeUint32(ub []byte) uint32 {
 	return binary.BigEndian.Uint32(ub)
 }
 
-// increment slice
-func incSlice(b []byte) {
+// increment slice, the reply is false
+// if it turns from the last to the first
+func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
 		if b[i] == 0xff {
 			b[i] = 0
 			continue // increase next byte
 		}
 		b[i]++
-		return
+		return true
 	}
+	return
 }
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index e274e38..c89b9eb 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -549,7 +549,9 @@ func (d *driveCXDS) IterateDel(
 				d.del(tx, rc, len(v)-4) // stat
 			}
 
-			incSlice(key[:]) // next
+			if incSlice(key[:]) == false { // next
+				return
+			}
 		}
 
 		return
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index c4e06d0..4014960 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -146,21 +146,25 @@ func (d *driveFeeds) Iterate(iterateFunc data.IterateFeedsFunc) (err error) {
 			}
 			return
 		}
-		incSlice(pk[:])
+		if incSlice(pk[:]) == false {
+			return
+		}
 	}
 	return
 }
 
-// increment slice
-func incSlice(b []byte) {
+// increment slice, the reply is false
+// if it turns from the last to the first
+func incSlice(b []byte) (ok bool) {
 	for i := len(b) - 1; i >= 0; i-- {
 		if b[i] == 0xff {
 			b[i] = 0
 			continue // increase next byte
 		}
 		b[i]++
-		return
+		return true
 	}
+	return
 }
 
 // Has performs presence check
@@ -284,7 +288,9 @@ func (d *driveRoots) Ascend(iterateFunc data.IterateRootsFunc) (err error) {
 			return
 		}
 
-		seq++
+		if seq++; seq == 0 {
+			return // it was the last possible one
+		}
 		binary.BigEndian.PutUint64(sb, seq)
 		seqb = sb
 	}
-- 
2.43.0


From fd3005ff440c59e406c996c16fa92cf77c576ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 009/100] fix: CXDS file can not be opened after a crash during
 its creation

---
 data/cxds/drive.go | 57 +++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index c89b9eb..108ad2e 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -70,8 +70,6 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 	}()
 
-	var saveStat bool
-
 	err = b.Update(func(tx *bolt.Tx) (err error) {
 
 		// first of all, take a look the meta bucket
@@ -95,9 +93,11 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return
 			}
 
-			// put stat
+			// put stat (save zeroes) in the same transaction
 
-			saveStat = true // save zeroes
+			if err = new(driveCXDS).putStat(info); err != nil {
+				return
+			}
 
 		} else {
 
@@ -131,13 +131,7 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 
 	// stat
 
-	if saveStat == true {
-		err = dr.saveStat()
-	} else {
-		err = dr.loadStat()
-	}
-
-	if err != nil {
+	if err = dr.loadStat(); err != nil {
 		return
 	}
 
@@ -201,40 +195,41 @@ func (d *driveCXDS) saveStat() (err error) {
 	defer d.mx.Unlock()
 
 	return d.b.Update(func(tx *bolt.Tx) (err error) {
+		return d.putStat(tx.Bucket(metaBucket))
+	})
 
-		var info = tx.Bucket(metaBucket)
-
-		// amount all
+}
 
-		err = info.Put(amountAllKey, encodeUint32(uint32(d.amountAll)))
+func (d *driveCXDS) putStat(info *bolt.Bucket) (err error) {
 
-		if err != nil {
-			return
-		}
+	// amount all
 
-		// amount used
+	err = info.Put(amountAllKey, encodeUint32(uint32(d.amountAll)))
 
-		err = info.Put(amountUsedKey, encodeUint32(uint32(d.amountUsed)))
+	if err != nil {
+		return
+	}
 
-		if err != nil {
-			return
-		}
+	// amount used
 
-		// volume all
+	err = info.Put(amountUsedKey, encodeUint32(uint32(d.amountUsed)))
 
-		err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
+	if err != nil {
+		return
+	}
 
-		if err != nil {
-			return
-		}
+	// volume all
 
-		// volume used
+	err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
 
-		err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
+	if err != nil {
 		return
+	}
 
-	})
+	// volume used
 
+	err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
+	return
 }
 
 // the statistic changes only if the transaction succeeds
-- 
2.43.0


From 224e7f74b5e735aa04d9e63ed504c8889e04e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 010/100] fix: DB file can not be opened if its creation has
 been interrupted

---
 data/cxds/drive.go  | 8 ++++++--
 data/idxdb/drive.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 108ad2e..c80c575 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -78,9 +78,13 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 		if info == nil {
 
 			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
+			// this DB file seems outdated (version 0);
+			// but if it has no buckets at all, then its
+			// creation has been interrupted
 			if created == false {
-				return ErrMissingMetaInfo // report
+				if k, _ := tx.Cursor().First(); k != nil {
+					return ErrMissingMetaInfo // report
+				}
 			}
 
 			// create the bucket and put meta information
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 4014960..912019f 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -49,9 +49,13 @@ func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 		if info == nil {
 
 			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
+			// this DB file seems outdated (version 0);
+			// but if it has no buckets at all, then its
+			// creation has been interrupted
 			if created == false {
-				return ErrMissingMetaInfo // report
+				if k, _ := tx.Cursor().First(); k != nil {
+					return ErrMissingMetaInfo // report
+				}
 			}
 
 			// create the bucket and put meta information
-- 
2.43.0


From 3ab829a15d23a73b810dd0475974e3e0b67ed36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 011/100] fix: lengths of IdxDB buckets are wrong inside a
 transaction and with nested elements

---
 data/idxdb/drive.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 912019f..542a0ec 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -187,7 +187,18 @@ func (d *driveFeeds) Heads(pk cipher.PubKey) (rs data.Heads, err error) {
 }
 
 func (d *driveFeeds) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
+}
+
+// bucketLen is number of elements of the bucket. Don't use
+// bolt.Bucket.Stats, because it ignores changes of current
+// transaction, and it counts elements of nested buckets too
+func bucketLen(bk *bolt.Bucket) (length int) {
+	var c = bk.Cursor()
+	for k, _ := c.First(); k != nil; k, _ = c.Next() {
+		length++
+	}
+	return
 }
 
 type driveHeads struct {
@@ -259,7 +270,7 @@ func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 }
 
 func (d *driveHeads) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveRoots struct {
@@ -411,7 +422,7 @@ func (d *driveRoots) Has(seq uint64) (yep bool, _ error) {
 
 // Len returns amount of Root objects
 func (d *driveRoots) Len() int {
-	return d.bk.Stats().KeyN
+	return bucketLen(d.bk)
 }
 
 func utob(u uint64) (p []byte) {
-- 
2.43.0


From eed7999361bdf0d350097caa9da0dce1666fb417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 012/100] fix: changes of lazy Refs are lost if the Refs are
 appended before Rebuild

---
 skyobject/registry/refs.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 08e2cbe..90881a8 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -1384,6 +1384,22 @@ func (r *Refs) walkUpdating(
 	return r.updateHashIfNeed(pack, true)
 }
 
+// saveChanges updates hashes of all modified nodes if
+// there are modifications that are not saved yet, e.g. if
+// LazyUpdating flag is set
+func (r *Refs) saveChanges(
+	pack Pack, //    : pack to save
+) (
+	err error, //    : error if any
+) {
+
+	if r.mods&contentMod == 0 {
+		return // everything is saved
+	}
+
+	return r.walkUpdating(pack)
+}
+
 // Append another Refs to this one. This Refs
 // will be increased if it can't fit all new
 // elements
@@ -1463,6 +1479,10 @@ func (r *Refs) Append(
 
 	// ok, here we have enough place to fit all new elements
 
+	if err = r.saveChanges(pack); err != nil {
+		return // saving error
+	}
+
 	var af, fini = r.appnedFunc(pack)
 
 	if err = refs.Ascend(pack, af); err != nil {
@@ -1600,6 +1620,10 @@ func (r *Refs) AppendHashes(
 
 	// ok, here we have enough place to fit all new elements
 
+	if err = r.saveChanges(pack); err != nil {
+		return // saving error
+	}
+
 	var af, fini = r.appnedFunc(pack) // the func
 
 	for i, hash := range hashes {
-- 
2.43.0


From a6173a51899eb5f1d2b8fc1da48642de28a6a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 013/100] fix: deleting by hash-table index loses lazy changes
 and leaves blank nodes

---
 skyobject/registry/refs.go      | 21 ++++-----------------
 skyobject/registry/refs_node.go | 22 ++++++----------------
 2 files changed, 10 insertions(+), 33 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 90881a8..d3aeae5 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -721,32 +721,19 @@ func (r *Refs) deleteByHashUsingHashTable(
 		return ErrNotFound // nothing to delete
 	}
 
-	// if the Refs contains one element with the hash,
-	// then we update subtree in place, otherwise
-	// we call walkUpdating in the end
-
-	var one = len(els) == 1 // only one element
-
 	delete(r.refsIndex, hash) // remove all from the index
 
 	for _, el := range els {
-		if err = r.deleteElement(pack, el, one); err != nil {
+		if err = r.deleteElement(el); err != nil {
 			return // error
 		}
 	}
 
-	// if the one is true, then everything is up to date
-	// and we have to update the Refs (the root) only;
-	// otherwise, we update all modified subtrees
+	// all modified nodes are marked; let's update
+	// them and remove blank ones if not lazy
 
-	// if not lazy
 	if r.flags&LazyUpdating == 0 {
-		if one == true {
-			err = r.updateHash(pack)
-		} else {
-			err = r.walkUpdating(pack)
-		}
-		if err != nil {
+		if err = r.walkUpdating(pack); err != nil {
 			return
 		}
 	}
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 7e087e2..164601b 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -571,19 +571,18 @@ func (r *refsNode) elementIndex(el *refsElement) (i int, err error) {
 // and the element is found by hash-table. More then
 // that, the elements already removed from hash-table
 // index or will be removed later (this method doesn't
-// remove the element from the hash-table)
+// remove the element from the hash-table). The method
+// marks all nodes of the path as modified, and doesn't
+// update their hashes
 func (r *Refs) deleteElement(
-	pack Pack, //       : pack to save
 	el *refsElement, // : element to delete
-	update bool, //     : update subtree
 ) (
 	err error, //       : error if any
 ) {
 
 	var (
-		up    = el.upper // node with leafs
-		i     int        // index of the el in the up
-		depth int        //
+		up = el.upper // node with leafs
+		i  int        // index of the el in the up
 	)
 
 	if i, err = up.elementIndex(el); err != nil {
@@ -592,18 +591,9 @@ func (r *Refs) deleteElement(
 
 	up.deleteElementByIndex(i)
 
-	for ; up != nil; up, depth = up.upper, depth+1 {
-
+	for ; up != nil; up = up.upper {
 		up.length--
 		up.mods |= contentMod
-
-		if update == true {
-			err = up.updateHashIfNeed(pack, depth, update)
-			if err != nil {
-				return
-			}
-		}
-
 	}
 
 	return
-- 
2.43.0


From e5d6c357bd78964774d6fe6ce0a2b0c422068ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 014/100] fix: changes of Refs inside an iteration break the
 iteration

---
 skyobject/registry/refs.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index d3aeae5..f25767c 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -188,6 +188,7 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 
 	*r = *nr
 
+	r.rewindIterators() // for iterators
 	return
 }
 
@@ -817,7 +818,11 @@ func (r *Refs) startIteration() {
 // stopIteration method should be called using
 // defer statement
 func (r *Refs) stopIteration() {
+	var changed = r.iterators[len(r.iterators)-1]
 	r.iterators = r.iterators[:len(r.iterators)-1]
+	if changed == true {
+		r.rewindIterators() // pass to next
+	}
 }
 
 // isFindingIteratorsIndexFromRootRequired used by an iterator
@@ -893,6 +898,12 @@ func (r *Refs) ascendFrom(
 		// so, we need to find next element from root of the Refs
 		if rewind == true {
 			i += pass // shift the i to don't repeat elements
+
+			// the Refs can be cleared
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
 			continue  // find next index from root of the Refs
 		}
 
@@ -989,6 +1000,11 @@ func (r *Refs) descendFrom(
 		if rewind == true {
 			i -= pass // shift the i to don't repeat elements
 
+			// the Refs can be cleared
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
 			// if the length has been changed
 			if i >= r.length {
 				return ErrIndexOutOfRange // out
@@ -1458,9 +1474,11 @@ func (r *Refs) Append(
 			return // error
 		}
 
-		*r = *nr // replace this Refs with new extended
+		nr.iterators = r.iterators // copy iterators
+		*r = *nr                   // replace this Refs with new extended
 
-		return // done
+		r.rewindIterators() // for iterators
+		return              // done
 
 	}
 
@@ -1480,7 +1498,8 @@ func (r *Refs) Append(
 		return
 	}
 
-	return // done
+	r.rewindIterators() // for iterators
+	return              // done
 
 }
 
@@ -1601,7 +1620,8 @@ func (r *Refs) AppendHashes(
 		nr.iterators = r.iterators // copy iterators
 		*r = *nr                   // replace this Refs with new extended
 
-		return // done
+		r.rewindIterators() // for iterators
+		return              // done
 
 	}
 
@@ -1625,13 +1645,15 @@ func (r *Refs) AppendHashes(
 		return // error
 	}
 
-	return // done
+	r.rewindIterators() // for iterators
+	return              // done
 
 }
 
 // Clear the Refs making it blank
 func (r *Refs) Clear() {
-	*r = Refs{}
+	*r = Refs{iterators: r.iterators}
+	r.rewindIterators() // for iterators
 }
 
 // Rebuild the Refs if need. The Refs can contain
-- 
2.43.0


From 8e1d3a82b1dc035f711ff202eef86070ee31a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 015/100] fix: hash of Refs is wrong if several levels of full
 nodes are appended at once

---
 skyobject/registry/refs_node.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 164601b..0f50f9d 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1090,6 +1090,7 @@ func (r *Refs) appendNodeGoUp(
 	if ap.increase > 0 {
 		for up := ap.rn.upper; up != nil; up = up.upper {
 			up.length += ap.increase // add
+			up.mods |= contentMod    // mark as modified
 		}
 	}
 
@@ -1099,18 +1100,17 @@ func (r *Refs) appendNodeGoUp(
 	// is > 0 and the ap.rn.upper contains branches
 	if len(ap.rn.branches) == int(r.degree) {
 
-		// not increased (idle pass)
-		if ap.increase == 0 {
-			return r.appendNodeGoUp(pack, ap, hash) // go up
-		}
-
 		ap.increase = 0 // reset
 
 		// TODO (kostyarin): LazyUpdating
 
-		// else -> increased
-		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
-			return // saving error
+		// if this pass isn't idle then hash
+		// of the full node should be updated
+		if ap.rn.mods&contentMod != 0 {
+			err = ap.rn.updateHashIfNeed(pack, ap.depth, true)
+			if err != nil {
+				return // saving error
+			}
 		}
 
 		return r.appendNodeGoUp(pack, ap, hash) // go up
-- 
2.43.0


From cb8b1c91404bb929e25e636dd3dbaa4fa570c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:03 +0000
Subject: [PATCH 016/100] fix: arrays and slices of references can't be walked
 through and filled

---
 skyobject/registry/split.go | 4 ++--
 skyobject/registry/walk.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 9886274..d3c3a28 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -201,7 +201,7 @@ func splitArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of array %q is nil", sch))
 		return
 	}
@@ -227,7 +227,7 @@ func splitSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of slice %q is nil", sch))
 		return
 	}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b9173c3..0dc1991 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -136,7 +136,7 @@ func walkArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		// just avoid panic if the Scehma is invlaid;
 		// any invalid Schema shuld not break CXO, since
 		// we are not trusting remote nodes, even if they
@@ -165,7 +165,7 @@ func walkSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		return fmt.Errorf("Schema of element of slice %q is nil", sch)
 	}
 
-- 
2.43.0


From 8d7a363fc1f3befed6a0231e7629af796dd706d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 017/100] fix: ErrStopIteration does not stop a walk if it is
 returned for a nested object

---
 skyobject/registry/dynamic.go   | 33 +++++++++++---------
 skyobject/registry/ref.go       | 27 +++++++++++-----
 skyobject/registry/refs_walk.go | 55 +++++++++++++++------------------
 skyobject/registry/root.go      |  2 +-
 skyobject/registry/walk.go      |  6 ++--
 5 files changed, 66 insertions(+), 57 deletions(-)

diff --git a/skyobject/registry/dynamic.go b/skyobject/registry/dynamic.go
index 6af04ab..2fde1b2 100644
--- a/skyobject/registry/dynamic.go
+++ b/skyobject/registry/dynamic.go
@@ -110,19 +110,28 @@ func (d *Dynamic) Walk(
 		panic("walkFunc is nil") // for developers
 	}
 
+	if err = d.walk(pack, walkFunc); err == ErrStopIteration {
+		err = nil // suppress this error
+	}
+
+	return
+}
+
+// walk is the Walk that returns ErrStopIteration
+// to stop upper walking too
+func (d *Dynamic) walk(
+	pack Pack,
+	walkFunc WalkFunc,
+) (
+	err error,
+) {
+
 	if d.IsValid() == false {
 		return ErrInvalidDynamicReference
 	}
 
 	var deepper bool
-	if deepper, err = walkFunc(d.Hash, 0); err != nil {
-		if err == ErrStopIteration {
-			err = nil // suppress this error
-		}
-		return
-	}
-
-	if deepper == false {
+	if deepper, err = walkFunc(d.Hash, 0); err != nil || deepper == false {
 		return
 	}
 
@@ -140,13 +149,7 @@ func (d *Dynamic) Walk(
 		return
 	}
 
-	err = walkSchemaHash(pack, sch, d.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil // suppress this error
-	}
-
-	return
+	return walkSchemaHash(pack, sch, d.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Dynamic.
diff --git a/skyobject/registry/ref.go b/skyobject/registry/ref.go
index 2ac72ba..99718b0 100644
--- a/skyobject/registry/ref.go
+++ b/skyobject/registry/ref.go
@@ -104,6 +104,24 @@ func (r *Ref) Walk(
 	err error,
 ) {
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil // suppress this error
+	}
+
+	return
+
+}
+
+// walk is the Walk that returns ErrStopIteration
+// to stop upper walking too
+func (r *Ref) walk(
+	pack Pack, //         :
+	sch Schema, //        :
+	walkFunc WalkFunc, // :
+) (
+	err error,
+) {
+
 	var deepper bool
 	if deepper, err = walkFunc(r.Hash, 0); err != nil || deepper == false {
 		return
@@ -113,14 +131,7 @@ func (r *Ref) Walk(
 		return // ignore the deepper
 	}
 
-	err = walkSchemaHash(pack, sch, r.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
-
+	return walkSchemaHash(pack, sch, r.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Ref
diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b88015..484c377 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -44,9 +44,7 @@ type WalkFunc func(
 // walk if the Refs is blank
 func (r *Refs) walkBlank(walkFunc WalkFunc) (err error) {
 	// the depth can't be zero
-	if _, err = walkFunc(r.Hash, 1); err == ErrStopIteration {
-		err = nil
-	}
+	_, err = walkFunc(r.Hash, 1)
 	return // done
 }
 
@@ -97,6 +95,24 @@ func (r *Refs) Walk(
 		panic("walkFunc is nil") // for developers
 	}
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+
+}
+
+// walk is the Walk that returns ErrStopIteration
+// to stop upper walking too
+func (r *Refs) walk(
+	pack Pack, //             : pack to save and load
+	sch Schema, //            : schema of elements of the Refs
+	walkFunc WalkFunc, //     : the function
+) (
+	err error, //             : an error
+) {
+
 	var resetRequired bool
 
 	defer func() {
@@ -154,23 +170,14 @@ func (r *Refs) Walk(
 	var deepper bool
 
 	// starting from Root (depth + 1 for the root)
-	if deepper, err = walkFunc(r.Hash, r.depth+1); err != nil {
-		if err == ErrStopIteration {
-			err = nil
-		}
-		return
-	} else if deepper == false {
+	deepper, err = walkFunc(r.Hash, r.depth+1)
+
+	if err != nil || deepper == false {
 		return // done
 	}
 
 	// walk from nodes
-	err = r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
+	return r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
 
 }
 
@@ -193,20 +200,14 @@ func (r *Refs) walkNode(
 		for _, leaf := range rn.leafs {
 
 			if deepper, err = walkFunc(leaf.Hash, depth); err != nil {
-
-				if err == ErrStopIteration {
-					err = nil
-				}
 				return
+			}
 
-			} else if deepper == true {
+			if deepper == true {
 
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
 				if err != nil {
-					if err == ErrStopIteration {
-						err = nil
-					}
 					return
 				}
 
@@ -226,9 +227,6 @@ func (r *Refs) walkNode(
 		// leafs
 
 		if deepper, err = walkFunc(br.hash, depth); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		} else if deepper == false {
 			continue // let's look at the next brnahc
@@ -241,9 +239,6 @@ func (r *Refs) walkNode(
 		}
 
 		if err = r.walkNode(pack, sch, br, depth-1, walkFunc); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		}
 
diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 3f60d78..994d62e 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -96,7 +96,7 @@ func DecodeRoot(val []byte) (r *Root, err error) {
 func (r *Root) Walk(pack Pack, walkFunc WalkFunc) (err error) {
 
 	for _, dr := range r.Refs {
-		if err = dr.Walk(pack, walkFunc); err != nil {
+		if err = dr.walk(pack, walkFunc); err != nil {
 			if err == ErrStopIteration {
 				err = nil
 			}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 0dc1991..852a8dc 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -94,7 +94,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return ref.Walk(pack, el, walkFunc)
+		return ref.walk(pack, el, walkFunc)
 
 	case ReferenceTypeSlice: // Refs
 
@@ -108,7 +108,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return refs.Walk(pack, el, walkFunc)
+		return refs.walk(pack, el, walkFunc)
 
 	case ReferenceTypeDynamic: // Dynamic
 
@@ -116,7 +116,7 @@ func walkSchemaReference(
 		if _, err = encoder.DeserializeRaw(val, &dr); err != nil {
 			return
 		}
-		return dr.Walk(pack, walkFunc)
+		return dr.walk(pack, walkFunc)
 
 	default:
 
-- 
2.43.0


From d11037fb5e5414da4a7d97d615a1f2921132b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 018/100] fix: walk through Refs with blank element fails

---
 skyobject/registry/refs_walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 484c377..7335fee 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -195,7 +195,7 @@ func (r *Refs) walkNode(
 
 	if depth == 0 {
 
-		// the deepper ignored
+		// the deepper ignored if the hash is blank
 
 		for _, leaf := range rn.leafs {
 
@@ -203,7 +203,7 @@ func (r *Refs) walkNode(
 				return
 			}
 
-			if deepper == true {
+			if deepper == true && leaf.Hash != (cipher.SHA256{}) {
 
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
-- 
2.43.0


From cb2ea84eff4006893012e9cd9c51fc952063e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 019/100] fix: walk through changed lazy Refs visits old hashes

---
 skyobject/registry/refs_walk.go | 35 ++++++++++++---------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 7335fee..c3cecdc 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -125,33 +125,24 @@ func (r *Refs) walk(
 		}
 	}()
 
-	if r.Hash == (cipher.SHA256{}) {
-
-		if r.refsNode != nil && r.mods&loadedMod != 0 {
-
-			// the Refs is loaded (e.g. initialized) and we have to
-			// check its state and update all hashes that not updated yet
-			// to get actual hashes of nodes
-
-			if err = r.walkUpdating(pack); err != nil {
-				return // an error
-			}
+	if r.refsNode != nil && r.mods&loadedMod != 0 {
 
-			if r.Hash == (cipher.SHA256{}) {
-				// So, the Refs is initialized and updated and still blank
-				return r.walkBlank(walkFunc)
-			}
+		// the Refs is loaded (e.g. initialized) and we have to
+		// check its state and update all hashes that not updated yet
+		// to get actual hashes of nodes
 
-			// else -> the Refs already initialized, let's walk
+		if err = r.saveChanges(pack); err != nil {
+			return // an error
+		}
 
-		} else {
+	}
 
-			// the Refs represents blank Refs and we should not initialize it;
-			// the only one hash of the Refs is Refs.Hash that is blank. So
-			// let's call the function
-			return r.walkBlank(walkFunc)
+	if r.Hash == (cipher.SHA256{}) {
 
-		}
+		// the Refs represents blank Refs and we should not initialize it;
+		// the only one hash of the Refs is Refs.Hash that is blank. So
+		// let's call the function
+		return r.walkBlank(walkFunc)
 
 	} else if r.refsNode == nil {
 
-- 
2.43.0


From 1989d9d9357cc654e4e7eb26e9b2b4288ec86765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 020/100] fix: malformed nodes of Refs crash

---
 skyobject/registry/refs.go      |  8 ++++++++
 skyobject/registry/refs_node.go | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index f25767c..87155db 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -116,6 +116,10 @@ func (r *Refs) initialize(pack Pack) (err error) {
 		return ErrInvalidEncodedRefs // invalid state
 	}
 
+	if r.depth > maxDepth {
+		return ErrInvalidEncodedRefs // no Refs can be so deep
+	}
+
 	return r.loadSubtree(pack, r.refsNode, er.Elements, r.depth)
 }
 
@@ -211,6 +215,10 @@ func (r *Refs) Flags() (flags Flags) {
 	return r.flags
 }
 
+// maxDepth is limit of depth of the Refs. Length of the
+// Refs is uint32 and the degree is 2 at least
+const maxDepth = 32
+
 // an encodedRefs represents encoded Refs
 // that contains length, degree, depth and
 // hashes of nested elements
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 0f50f9d..7d6057d 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -149,7 +149,17 @@ func (r *Refs) loadSubtree(
 	err error, //                : pack/decoding related error
 ) {
 
+	// the tree can be received, don't trust it
+	if len(elements) == 0 || len(elements) > int(r.degree) {
+		return ErrInvalidEncodedRefs
+	}
+
 	if depth == 0 {
+
+		if rn.length != len(elements) {
+			return ErrInvalidEncodedRefs
+		}
+
 		r.loadLeafs(rn, elements)
 		return // if the depth is 0, then the node contains leafs
 	}
@@ -333,6 +343,10 @@ func (r *Refs) elementByIndex(
 		break // the branch that contains the needle has been found
 	}
 
+	if br == nil {
+		return nil, ErrInvalidRefs // no branches (the Refs is not loaded)
+	}
+
 	return r.elementByIndex(pack, br, i, depth-1)
 }
 
@@ -532,6 +546,10 @@ func (r *Refs) deleteElementByIndex(
 		break // the branch that contains the needle has been found
 	}
 
+	if br == nil {
+		return ErrInvalidRefs // no branches (the Refs is not loaded)
+	}
+
 	// keep j for now
 
 	if err = r.deleteElementByIndex(pack, br, i, depth-1); err != nil {
-- 
2.43.0


From 0b75b9d4b7e6c7786b44cb8c0f8227436a880549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 021/100] fix: Tree of Root panics on arrays and slices of
 strings, structs and so on

---
 skyobject/registry/root_tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index cc0df01..ea32fd4 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -440,7 +440,7 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 
 	var m, s, k int
 
-	if s = fixedSize(el.Kind()); s < 0 {
+	if s = fixedSize(el.Kind()); s > 0 {
 
 		for k = 0; k < ln; k++ {
 
-- 
2.43.0


From dc19ac9b9eb7820d8930da1b2dd3cc186154e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 022/100] fix: Tree of Root shows nested objects of Refs as
 elements, and fails on blank elements

---
 skyobject/registry/root_tree.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index ea32fd4..8b9266a 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -629,8 +629,15 @@ func rootTreeRefs(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			return true, nil
 		}
 
+		// (don't go deepper, the element is printed with all nested)
+
+		if hash == (cipher.SHA256{}) {
+			it.Items = append(it.Items, &gotree.GTStructure{Name: "nil"})
+			return
+		}
+
 		it.Items = append(it.Items, rootTreeHash(pack, el, hash))
-		return true, nil
+		return
 	})
 
 	if err != nil {
-- 
2.43.0


From 8b533837fb07ac1746f0ef2dc4c15607e98d5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 023/100] fix: length of received array or slice can hang or
 drain memory

---
 skyobject/registry/root_tree.go      | 9 +++++++--
 skyobject/registry/schema_helpers.go | 3 +++
 skyobject/registry/split.go          | 4 ++++
 skyobject/registry/walk.go           | 4 ++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index 8b9266a..60c6f64 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -475,6 +475,9 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			}
 
 			if m, err = el.Size(val[shift:]); err != nil {
+				it.Items = append(it.Items, &gotree.GTStructure{
+					Name: "(err) " + err.Error(),
+				})
 				return
 			}
 
@@ -484,6 +487,10 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			)
 			shift += m
 
+			if m == 0 {
+				break // all of them are blank (don't trust the length)
+			}
+
 		}
 
 	}
@@ -615,8 +622,6 @@ func rootTreeRefs(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 	it.Name = fmt.Sprintf("[]*(%s) %s length: %d", el.String(), refs.Short(),
 		ln)
 
-	it.Items = make([]*gotree.GTStructure, 0, ln)
-
 	err = refs.Walk(pack, el, func(
 		hash cipher.SHA256,
 		depth int,
diff --git a/skyobject/registry/schema_helpers.go b/skyobject/registry/schema_helpers.go
index a4e6538..3aed3bc 100644
--- a/skyobject/registry/schema_helpers.go
+++ b/skyobject/registry/schema_helpers.go
@@ -42,6 +42,9 @@ func schemaArraySliceSize(el Schema, l, shift int, p []byte) (n int,
 				return
 			}
 			n += m
+			if m == 0 {
+				break // all elements take nothing
+			}
 		}
 	}
 	return
diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index d3c3a28..147711c 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -273,6 +273,10 @@ func splitArraySlice(
 
 		shift += m
 
+		if m == 0 {
+			return // blank elements, there is nothing to walk through
+		}
+
 	}
 
 	return
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 852a8dc..811cf12 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -216,6 +216,10 @@ func walkArraySlice(
 
 		shift += m
 
+		if m == 0 {
+			return // blank elements, there is nothing to walk through
+		}
+
 	}
 
 	return
-- 
2.43.0


From cbb009eecacbc30a71eb39e49019ef3605d086e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 024/100] fix: malformed registry crashes, or has wrong
 reference

---
 skyobject/registry/registry.go | 194 +++++++++++++++++++++++++--------
 1 file changed, 149 insertions(+), 45 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2803ada..5c06980 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"bytes"
 	"fmt"
 	"reflect"
 	"sort"
@@ -14,6 +15,12 @@ import (
 // schema of a struct field if the field is reference
 const Tag = "skyobject"
 
+// limits of a schema
+const (
+	maxSchemaDepth = 128     // nested schemas in encoded schema
+	maxSchemaSize  = 1 << 16 // schemas in a schema, including nested
+)
+
 // A Registry represents types registry
 type Registry struct {
 	done bool // stop registration and use
@@ -51,12 +58,26 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 	r = newRegistry()
 
 	for _, re := range res {
-		s, err = decodeSchema(re.Schema)
+		if s, err = decodeSchema(re.Schema, 0); err != nil {
+			return nil, err
+		}
+		// only named structures, one by one name
+		if _, ok := r.reg[re.Name]; ok ||
+			s.IsRegistered() == false || s.Name() != re.Name {
+
+			return nil, ErrInvalidEncodedSchema
+		}
 		r.reg[re.Name] = s
-		r.srf[s.Reference()] = s
 	}
 
-	r.finialize()
+	// the Registry is received by hash of the b
+	if bytes.Equal(r.Encode(), b) == false {
+		return nil, ErrInvalidEncodedSchema
+	}
+
+	if err = r.finialize(); err != nil {
+		return nil, err
+	}
 	return
 }
 
@@ -78,7 +99,9 @@ func NewRegistry(cl func(t *Reg)) (r *Registry) {
 	r.nt = make(map[string]reflect.Type)
 
 	r.register(reg)
-	r.finialize()
+	if err := r.finialize(); err != nil {
+		panic(err)
+	}
 
 	return
 }
@@ -150,60 +173,125 @@ func (r *Registry) register(reg *Reg) {
 
 // set proper references for schemas that has references to
 // another schemas, such as arrays, slices and structs
-func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
+func (r *Registry) fillSchema(
+	s Schema,
+	filled map[Schema]struct{},
+) (
+	err error,
+) {
 	if _, ok := filled[s]; ok {
 		return // already
 	}
 	filled[s] = struct{}{} // filling
-	var err error
 	if s.IsReference() {
 		switch s.ReferenceType() {
 		case ReferenceTypeSingle, ReferenceTypeSlice:
 			x := s.(*referenceSchema)
-			x.elem, err = r.schemaByName(x.elem.Name())
+			x.elem, err = r.registeredSchema(x.elem)
 			if err != nil {
-				panic(err)
+				return
 			}
-			r.fillSchema(x.elem, filled)
+			return r.fillSchema(x.elem, filled)
 		case ReferenceTypeDynamic:
 			// do nothing
 		default:
-			panic("invalid reference: " + s.String())
+			return fmt.Errorf("invalid reference: %s", s.String())
 		}
 		return
 	}
-	switch s.Kind() {
-	case reflect.Array:
-		x := s.(*arraySchema)
-		if s.Elem().IsRegistered() {
-			x.elem, err = r.schemaByName(s.Elem().Name())
-			if err != nil {
-				panic(err)
+	switch x := s.(type) {
+	case *arraySchema:
+		return r.fillElem(&x.elem, filled)
+	case *sliceSchema:
+		return r.fillElem(&x.elem, filled)
+	case *structSchema:
+		for _, f := range x.fields {
+			fl := f.(*field)
+			// a decoded field contains full schema
+			// that must be the registered one
+			if ss, ok := fl.schema.(*structSchema); ok && ss.IsRegistered() {
+				var rs Schema
+				if rs, err = r.registeredSchema(ss); err != nil {
+					return
+				}
+				if rs.Reference() != ss.Reference() {
+					return ErrInvalidEncodedSchema
+				}
 			}
-		}
-		r.fillSchema(x.elem, filled)
-	case reflect.Slice:
-		x := s.(*sliceSchema)
-		if s.Elem().IsRegistered() {
-			x.elem, err = r.schemaByName(s.Elem().Name())
-			if err != nil {
-				panic(err)
+			if err = r.fillElem(&fl.schema, filled); err != nil {
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
-	case reflect.Struct:
-		for i, f := range s.Fields() {
-			x := f.(*field)
-			if fs := f.Schema(); fs.IsRegistered() {
-				x.schema, err = r.schemaByName(fs.Name())
-				if err != nil {
-					panic(err)
-				}
+	}
+	return
+}
+
+// fill an element of array or slice, or a field
+func (r *Registry) fillElem(
+	el *Schema,
+	filled map[Schema]struct{},
+) (
+	err error,
+) {
+	if (*el).IsRegistered() {
+		if *el, err = r.registeredSchema(*el); err != nil {
+			return
+		}
+	}
+	return r.fillSchema(*el, filled)
+}
+
+// registered schema by given schema that is kind and name only
+func (r *Registry) registeredSchema(s Schema) (Schema, error) {
+	if s.IsRegistered() == false {
+		return nil, ErrInvalidEncodedSchema
+	}
+	return r.schemaByName(s.Name())
+}
+
+// A schema can't contain itself (except through a reference), and should
+// have a reasonable size, otherwise it's impossible to use the schema.
+// The method adds size of the schema, and sizes of all schemas it contains
+// to the sizes. If size of a schema is zero, then the schema is in progress.
+func (r *Registry) schemaSize(
+	s Schema,
+	sizes map[Schema]int,
+) (
+	size int,
+	err error,
+) {
+
+	var ok bool
+	if size, ok = sizes[s]; ok {
+		if size == 0 {
+			err = ErrInvalidEncodedSchema // contains itself
+		}
+		return
+	}
+	sizes[s] = 0
+
+	var n int
+	switch x := s.(type) {
+	case *arraySchema:
+		size, err = r.schemaSize(x.elem, sizes)
+	case *sliceSchema:
+		size, err = r.schemaSize(x.elem, sizes)
+	case *structSchema:
+		for _, f := range x.fields {
+			if n, err = r.schemaSize(f.Schema(), sizes); err != nil {
+				return
+			}
+			if size += n; size > maxSchemaSize {
+				break
 			}
-			r.fillSchema(x.schema, filled)
-			s.(*structSchema).fields[i] = x
 		}
 	}
+
+	if size++; err == nil && size > maxSchemaSize {
+		err = ErrInvalidEncodedSchema
+	}
+	sizes[s] = size
+	return
 }
 
 func (r *Registry) schemaByName(name string) (s Schema, err error) {
@@ -214,10 +302,19 @@ func (r *Registry) schemaByName(name string) (s Schema, err error) {
 	return
 }
 
-func (r *Registry) finialize() {
+func (r *Registry) finialize() (err error) {
 	filled := make(map[Schema]struct{})
 	for _, sch := range r.reg {
-		r.fillSchema(sch, filled)
+		if err = r.fillSchema(sch, filled); err != nil {
+			return
+		}
+	}
+
+	sizes := make(map[Schema]int)
+	for _, sch := range r.reg {
+		if _, err = r.schemaSize(sch, sizes); err != nil {
+			return
+		}
 	}
 
 	// fill up map by SchemaRef
@@ -227,6 +324,7 @@ func (r *Registry) finialize() {
 
 	encoded := r.Encode()
 	r.ref = RegistryRef(cipher.SumSHA256(encoded))
+	return
 }
 
 // TagSchemaName returns schema name from given reflect.StructTag.
@@ -272,7 +370,7 @@ func typeOf(i interface{}) reflect.Type {
 
 // decode schema
 
-func decodeSchema(b []byte) (s Schema, err error) {
+func decodeSchema(b []byte, depth int) (s Schema, err error) {
 	// type encodedSchema struct {
 	// 	ReferenceType uint32
 	// 	Kind   uint32
@@ -288,6 +386,12 @@ func decodeSchema(b []byte) (s Schema, err error) {
 	// 	Schema []byte
 	// }
 
+	if depth > maxSchemaDepth {
+		err = ErrInvalidEncodedSchema
+		return
+	}
+	depth++
+
 	var x encodedSchema
 	if _, err = encoder.DeserializeRaw(b, &x); err != nil {
 		return
@@ -300,7 +404,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 		rs.kind = reflect.Kind(x.Kind)
 		rs.typ = ReferenceType(x.ReferenceType)
 		if rs.typ != ReferenceTypeDynamic {
-			if rs.elem, err = decodeSchema(x.Elem); err != nil {
+			if rs.elem, err = decodeSchema(x.Elem, depth); err != nil {
 				return
 			}
 		}
@@ -321,7 +425,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 	case reflect.Slice:
 		ss := sliceSchema{}
 		ss.schema = sc
-		if ss.elem, err = decodeSchema(x.Elem); err != nil {
+		if ss.elem, err = decodeSchema(x.Elem, depth); err != nil {
 			return
 		}
 		s = &ss
@@ -329,7 +433,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 		as := arraySchema{}
 		as.schema = sc
 		as.length = int(x.Len)
-		if as.elem, err = decodeSchema(x.Elem); err != nil {
+		if as.elem, err = decodeSchema(x.Elem, depth); err != nil {
 			return
 		}
 		s = &as
@@ -338,7 +442,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 		ss.schema = sc
 		var f Field
 		for _, ef := range x.Fields {
-			if f, err = decodeField(ef); err != nil {
+			if f, err = decodeField(ef, depth); err != nil {
 				return
 			}
 			ss.fields = append(ss.fields, f)
@@ -351,7 +455,7 @@ func decodeSchema(b []byte) (s Schema, err error) {
 	return
 }
 
-func decodeField(b []byte) (f Field, err error) {
+func decodeField(b []byte, depth int) (f Field, err error) {
 	var ef encodedField
 	if _, err = encoder.DeserializeRaw(b, &ef); err != nil {
 		return
@@ -359,7 +463,7 @@ func decodeField(b []byte) (f Field, err error) {
 	ff := field{}
 	ff.name = ef.Name
 	ff.tag = ef.Tag
-	if ff.schema, err = decodeSchema(ef.Schema); err != nil {
+	if ff.schema, err = decodeSchema(ef.Schema, depth); err != nil {
 		return
 	}
 	f = &ff
-- 
2.43.0


From ec230769d250b0dd2ffd90c7f0e2553260c210d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 025/100] fix: Inc returns zero instead of rc if the object is
 not cached

---
 skyobject/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3bf3693..c6a37b3 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -956,7 +956,8 @@ func (c *Cache) inc(
 		return
 	}
 
-	err = c.putItem(key, val, int(urc))
+	rc = int(urc) // hard rc
+	err = c.putItem(key, val, rc)
 	return
 
 }
-- 
2.43.0


From 5954ab2e75a29bea616b33a43b2635330428356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 026/100] fix: number of cached registries is not limited if
 the limit is zero

---
 skyobject/cache.go  | 8 ++++++--
 skyobject/config.go | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index c6a37b3..29bcbdc 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -180,10 +180,14 @@ func (c *Cache) addRegistryToCache(r *registry.Registry) {
 			tormp cachePoints          // points
 		)
 
+		var found bool
+
+		// remove registry with less points
 		for rr, ir := range c.rs {
-			if ir.cachePoints > tormp {
+			if found == false || ir.cachePoints < tormp {
 				tormr = rr
 				tormp = ir.cachePoints
+				found = true
 			}
 		}
 
@@ -245,7 +249,7 @@ func (c *Cache) Registry(
 		return
 	}
 
-	if c.c.conf.CacheRegistries >= 0 {
+	if c.c.conf.CacheRegistries > 0 {
 		c.addRegistryToCache(r)
 	}
 
diff --git a/skyobject/config.go b/skyobject/config.go
index 80348b4..6788db6 100644
--- a/skyobject/config.go
+++ b/skyobject/config.go
@@ -216,6 +216,7 @@ func NewConfig() (conf *Config) {
 	conf.CacheMaxAmount = CacheMaxAmount
 	conf.CacheMaxVolume = CacheMaxVolume
 	conf.CachePolicy = LRU
+	conf.CacheRegistries = CacheRegistries
 	conf.CacheCleaning = CacheCleaning
 	conf.CacheMaxItemSize = CacheMaxItemSize
 
-- 
2.43.0


From 90e365a54b619a3bf18cfdc426b26ed75dab04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 027/100] fix: cleaning of the cache stops on any wanted or
 filling item

---
 skyobject/cache.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 29bcbdc..88fd3c7 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -342,11 +342,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 	for key, it := range c.is {
 
 		if it.isWanted() == true {
-			return // skip wanted
+			continue // skip wanted
 		}
 
 		if it.isFilling() == true {
-			return // skip filling (where val is nil)
+			continue // skip filling (where val is nil)
 		}
 
 		rank = append(rank, &rankItem{key, it})
@@ -364,19 +364,16 @@ func (c *Cache) cleanDown(vol int) (err error) {
 
 	if c.amount+1 > c.c.conf.CacheMaxAmount {
 
-		var (
-			i  int       // to reduce the rank slice
-			ri *rankItem // for the range (we need the i)
-		)
+		var i int // to reduce the rank slice
 
-		for i, ri = range rank {
+		for ; i < len(rank); i++ {
 
 			if c.amount < c.amountc { // actually, `amount + 1 == ...`
 				break
 			}
 
 			// delete item from the Cache
-			if err = c.delete(ri.key, ri.it); err != nil {
+			if err = c.delete(rank[i].key, rank[i].it); err != nil {
 				return // fail on first error
 			}
 
-- 
2.43.0


From ca18a76e116f1856507e622b28d0e01294450aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 028/100] fix: Want of a cached object does not increment its
 rc

---
 skyobject/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 88fd3c7..471f57f 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1043,6 +1043,7 @@ func (c *Cache) Want(
 
 		// regular item in the cache
 
+		it.cc += inc
 		it.fc += inc
 		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
 
-- 
2.43.0


From fed3f56b352804ef74e566eb7fba6f1d03fe110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 029/100] fix: ownerless objects can not be removed after a
 filling

---
 skyobject/cache.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 471f57f..6068474 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -494,6 +494,14 @@ func (c *Cache) putFillingItem(
 	return
 }
 
+// remove item from the Cache if there is nothing inside the
+// item, e.g. if it is not regular, not filling and not wanted
+func (c *Cache) deleteBlank(key cipher.SHA256, it *item) {
+	if len(it.val) == 0 && it.fc == 0 && it.isWanted() == false {
+		delete(c.is, key)
+	}
+}
+
 func incr(cc, inc int) (dcc int) {
 	if cc+inc < 0 {
 		return // 0
@@ -765,6 +773,7 @@ func (c *Cache) setWanted(
 	it.fc += wincs // incs of fillers (of wanters)
 
 	err = c.putFillingItem(val, int(urc), it)
+	c.deleteBlank(key, it)
 	return
 }
 
@@ -1092,6 +1101,7 @@ func (c *Cache) Want(
 	c.is[key] = it
 
 	err = c.putFillingItem(val, int(urc), it)
+	c.deleteBlank(key, it)
 	return
 }
 
@@ -1195,15 +1205,9 @@ func (c *Cache) Finc(
 
 		// the fc is zero
 
-		// else, the fc is 0 (remove if it's filling)
+		// else, the fc is 0 (remove if it's filling only)
 
-		if it.isWanted() == true {
-			return // can't remove wanted item
-		}
-
-		if len(it.val) == 0 { // filling item (filling only)
-			delete(c.is, key)
-		}
+		c.deleteBlank(key, it)
 
 		// a filling items turns to be a regular (since the fc is zero)
 
@@ -1220,9 +1224,11 @@ func (c *Cache) Finc(
 		panic("Finc to negative for: " + key.Hex()[:7])
 	}
 
-	// and if it.fc turns to be zero, then the
-	// incItem removes it
-
 	_, err = c.incItem(key, inc, it) // in db
+
+	// if the it.fc turns to be zero, then
+	// there is nothing to keep the item for
+
+	c.deleteBlank(key, it)
 	return
 }
-- 
2.43.0


From 586fb979d9b467119aa86ac16661c0de821695db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 030/100] fix: Container can not be closed if some objects are
 wanted

---
 skyobject/cache.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 6068474..66de49f 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -266,25 +266,26 @@ func (c *Cache) Close() (err error) {
 	// sync items
 	for key, it := range c.is {
 
-		// make wanted items filling
+		// wanted items are not in DB yet
 		if it.isWanted() == true {
-			for _, winc := range it.fwant {
-				it.fc += winc
-			}
-			it.fwant = nil
+			delete(c.is, key)
+			continue
 		}
 
 		it.cc -= it.fc // remove all fincs
 		it.fc = 0
 
-		if err = c.delete(key, it); err != nil {
-			return
+		// keep first error and sync other items
+		if derr := c.delete(key, it); derr != nil && err == nil {
+			err = derr
 		}
 
 	}
 
 	// close the CXDS
-	err = c.c.db.CXDS().Close()
+	if cerr := c.c.db.CXDS().Close(); err == nil {
+		err = cerr
+	}
 	c.stat.Close() // close goroutine
 
 	return
@@ -306,8 +307,10 @@ func (c *Cache) delete(key cipher.SHA256, it *item) (err error) {
 
 	}
 
-	c.amount--
-	c.volume -= len(it.val)
+	if it.isFilling() == false {
+		c.amount--
+		c.volume -= len(it.val)
+	}
 
 	if it.fc == 0 {
 		delete(c.is, key)
-- 
2.43.0


From d1f90b64e9eebe8bdac020251d8c2501534cfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 031/100] fix: SetWanted panics if the object is wanted with
 zero inc only

---
 skyobject/cache.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 66de49f..2823609 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -754,6 +754,20 @@ func (c *Cache) setWanted(
 		wincs += winc
 	}
 
+	// nobody is going to own the object, thus just send
+	// it to wanters, and don't save
+
+	if inc+wincs == 0 {
+
+		for gc := range it.fwant {
+			sendWanted(gc, Object{key, val, 0, nil})
+		}
+
+		it.fwant = nil
+		c.deleteBlank(key, it)
+		return
+	}
+
 	// save
 	var urc uint32
 	urc, err = c.db().Set(key, val, inc+wincs)
-- 
2.43.0


From 077ac7fb7ea35211582b159596369c3ce19a0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 032/100] fix: Close of Container leaves goroutine of Index
 running

---
 skyobject/container.go  | 2 ++
 skyobject/index_stat.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/skyobject/container.go b/skyobject/container.go
index 6e3a5bd..bc41565 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -354,6 +354,8 @@ func (c *Container) RootByHash(
 // with user-provided DB.
 func (c *Container) Close() (err error) {
 
+	c.Index.Close() // never fails
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
diff --git a/skyobject/index_stat.go b/skyobject/index_stat.go
index f564aa1..5e4d3a7 100644
--- a/skyobject/index_stat.go
+++ b/skyobject/index_stat.go
@@ -51,6 +51,8 @@ func (i *indexStat) secondLoop() {
 		tc = tk.C
 	)
 
+	defer tk.Stop()
+
 	for {
 
 		select {
-- 
2.43.0


From 03618ab465ea55db74936a990727d4c36c1406bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 033/100] fix: NewContainer panics if an object of DB is too
 large

---
 skyobject/container.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index bc41565..d0091dc 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -62,8 +62,15 @@ func NewContainer(conf *Config) (c *Container, err error) {
 
 	defer func() {
 		if err != nil {
-			c.db.Close()         // ignore error
-			c.Cache.stat.Close() // release resources
+			c.db.Close() // ignore error
+
+			// release resources
+			if c.Cache.stat != nil {
+				c.Cache.stat.Close()
+			}
+			if c.Index.stat != nil {
+				c.Index.stat.Close()
+			}
 		}
 	}()
 
-- 
2.43.0


From cd5c6cf75be43ce80dd3ff41aea05f3ebad6e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 034/100] fix: Root of any feed is accepted with signature of
 another feed

---
 skyobject/errors.go |  1 +
 skyobject/index.go  | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/skyobject/errors.go b/skyobject/errors.go
index 7ce3fa6..33c724d 100644
--- a/skyobject/errors.go
+++ b/skyobject/errors.go
@@ -11,6 +11,7 @@ var (
 	ErrObjectIsTooLarge = errors.New("object is too large (see MaxObjectSize)")
 	ErrTerminated       = errors.New("terminated")
 	ErrBlankRegistryRef = errors.New("blank registry reference")
+	ErrInvalidRootFeed  = errors.New("received Root of another feed")
 )
 
 // ObjectIsTooLargeError represents error that
diff --git a/skyobject/index.go b/skyobject/index.go
index e7d0cf6..04ad337 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -260,6 +260,14 @@ func (i *Index) receivedRoot(
 		return
 	}
 
+	// the signature proves the Root is signed by owner of the
+	// given feed, thus the Root must belong to the feed
+
+	if r.Pub != pk {
+		err = ErrInvalidRootFeed
+		return
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
@@ -285,7 +293,11 @@ func (i *Index) PreviewRoot(
 	i.mx.Lock()
 	defer i.mx.Unlock()
 
-	return i.receivedRoot(pk, sig, val)
+	if r, err = i.receivedRoot(pk, sig, val); err != nil {
+		r = nil // GC
+	}
+
+	return
 }
 
 // ReceivedRoot called by the node package to
-- 
2.43.0


From bd643881db14ef5f79c48bb6a56309c6dd59f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 035/100] fix: old Root added after a new one becomes last Root
 of its head

---
 skyobject/index.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 04ad337..74f0f26 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -368,6 +368,9 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return // an error (data.ErrNoSuchFeed or another)
 	}
 
+	// last Root of the head, or nil
+	ir = i.feeds[r.Pub].h[r.Nonce]
+
 	// save in the IdxDB
 
 	err = i.c.db.IdxDB().Tx(func(feeds data.Feeds) (err error) {
@@ -404,6 +407,9 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return
 	}
 
+	// add to stat
+	i.stat.addRoot()
+
 	if ir != nil && r.Seq < ir.Seq {
 		// don't add to the Index the fucking, old,
 		// outdated, never need, nobody need Root
@@ -423,9 +429,6 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		hs.activen = r.Nonce
 	}
 
-	// add to stat
-	i.stat.addRoot()
-
 	return
 
 }
-- 
2.43.0


From d4a9757e8509ba262c81bf6f24c11dfe3600e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 036/100] fix: AddHead makes other heads of the feed invisible

---
 skyobject/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 74f0f26..ccdff61 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1050,7 +1050,7 @@ func (i *Index) AddHead(pk cipher.PubKey, nonce uint64) (err error) {
 
 	// add to the Index
 
-	i.feeds[pk] = newIndexHeads()
+	hs.h[nonce] = nil // blank head
 	return
 
 }
-- 
2.43.0


From 26d81e51788a6ad06e510477bbad112ae146ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 037/100] fix: active head is wrong, or panics, after deleting
 of a Root or a head

---
 skyobject/index.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index ccdff61..a28f21a 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -34,6 +34,10 @@ func (i *indexHeads) setActive() {
 
 	for nonce, dr := range i.h {
 
+		if dr == nil {
+			continue // blank head
+		}
+
 		if i.activet < dr.Time {
 			i.activet = dr.Time
 			i.activen = nonce
@@ -423,11 +427,7 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	return
 
@@ -442,11 +442,7 @@ func (i *Index) addSavedRoot(r *registry.Root, dr *data.Root) {
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.setActive()
 
 	// add to stat
 	i.stat.addRoot()
@@ -723,6 +719,7 @@ func (i *Index) delHead(
 	// delete from the Index
 
 	delete(hs.h, nonce)
+	hs.setActive()
 
 	return
 
@@ -854,8 +851,8 @@ func (i *Index) delRoot(
 		hs.h[nonce] = ir
 	}
 
-	// cahnge active head if the Root is last for active head
-	if ir.Time == hs.activet {
+	// cahnge active head if the Root was last of its head
+	if replaced == true {
 		hs.setActive()
 	}
 
-- 
2.43.0


From e6f0f05027400661dc2ab71945feeb894ca20780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 038/100] fix: LastRoot and RootByHash panic instead of
 returning an error

---
 skyobject/container.go | 5 ++++-
 skyobject/index.go     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index d0091dc..7971a8a 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -325,7 +325,10 @@ func (c *Container) rootByHash(
 		return
 	}
 
-	r, err = registry.DecodeRoot(val)
+	if r, err = registry.DecodeRoot(val); err != nil {
+		return nil, err
+	}
+
 	r.Hash = hash
 	return
 }
diff --git a/skyobject/index.go b/skyobject/index.go
index a28f21a..8c3ecba 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -569,7 +569,9 @@ func (i *Index) LastRoot(
 		return
 	}
 
-	r, err = i.c.rootByHash(lr.Hash)
+	if r, err = i.c.rootByHash(lr.Hash); err != nil {
+		return
+	}
 
 	r.IsFull = true
 	r.Sig = lr.Sig
-- 
2.43.0


From c41a583bd7c55a5dadf7802dee25b69aa86ecd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:25 +0000
Subject: [PATCH 039/100] fix: Root with a blank reference can not be deleted

---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index 8c3ecba..3329804 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -906,6 +906,10 @@ func (i *Index) delPackWalkFunc(
 		// use Get instead of Inc(hash, -1) to get value
 		// if it will be deleted by the -1
 
+		if hash == (cipher.SHA256{}) {
+			return // nothing to decrement
+		}
+
 		if val, rc, err = i.c.getNoCache(hash, -1); err != nil {
 			return
 		}
-- 
2.43.0


From c2a1c9cd5ae92f30b2c180e922ba94b0c2604690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 040/100] fix: Save, and failed Save, leave wrong references
 counters

---
 skyobject/cache.go     |  43 ++++++++++
 skyobject/container.go |  58 +++++++++++++
 skyobject/index.go     |   3 +
 skyobject/unpack.go    | 191 +++++++++++++----------------------------
 4 files changed, 162 insertions(+), 133 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 2823609..bf066f5 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -838,6 +838,49 @@ func (c *Cache) Set(
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	return c.set(key, val, inc)
+}
+
+// setHeld is like the Set with inc = 1, but the inc is inc
+// of a filler (see Want). E.g. the value is held in DB, but
+// its hard rc is the same. The Finc must be called to
+// release the value
+func (c *Cache) setHeld(
+	key cipher.SHA256,
+	val []byte,
+) (
+	rc int, // hard rc
+	err error,
+) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	if rc, err = c.set(key, val, 1); err != nil {
+		return
+	}
+
+	var it, ok = c.is[key]
+
+	if ok == false {
+		it = new(item) // is not cached
+		c.is[key] = it
+	}
+
+	it.fc++
+	return rc - 1, nil
+}
+
+// under lock
+func (c *Cache) set(
+	key cipher.SHA256,
+	val []byte,
+	inc int,
+) (
+	rc int,
+	err error,
+) {
+
 	var it, ok = c.is[key]
 
 	if ok == true {
diff --git a/skyobject/container.go b/skyobject/container.go
index 7971a8a..9d2c413 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -3,6 +3,7 @@ package skyobject
 import (
 	"log"
 	"path/filepath"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
@@ -21,6 +22,12 @@ type Container struct {
 	Cache // cache of the Container
 	Index // memory mapped IdxDB
 
+	// an object owns objects it refers to if hard rc of the object
+	// is greater then zero; the mutex protects walks that change the
+	// rcs, because a walk skips subtree of an object if the object
+	// already owned (or still owned, if the walk decrements)
+	rcs sync.Mutex
+
 	db *data.DB // database
 
 	conf *Config // configurations
@@ -308,6 +315,57 @@ func (c *Container) walkRoot(
 	return r.Walk(pack, walkFunc)
 }
 
+// incRelated increments rcs of all objects given Root owns. The
+// Root itself and its Registry are not included. If the method
+// fails, then it changes nothing. The method returns hashes of
+// incremented objects, that can be used to roll the incs back.
+// Call it under lock of the rcs
+func (c *Container) incRelated(
+	pack registry.Pack,
+	r *registry.Root,
+) (
+	incs []cipher.SHA256,
+	err error,
+) {
+
+	err = r.Walk(pack, func(
+		hash cipher.SHA256,
+		_ int,
+	) (
+		deepper bool,
+		err error,
+	) {
+
+		if hash == (cipher.SHA256{}) {
+			return
+		}
+
+		var rc int
+		if rc, err = c.Inc(hash, 1); err != nil {
+			return
+		}
+
+		incs = append(incs, hash)
+
+		// go deepper only if the object was not owned
+		return rc == 1, nil
+	})
+
+	if err != nil {
+		c.decRelated(incs)
+		incs = nil
+	}
+
+	return
+}
+
+// decRelated rolls the incRelated back
+func (c *Container) decRelated(incs []cipher.SHA256) {
+	for _, hash := range incs {
+		c.Inc(hash, -1) // ignore error
+	}
+}
+
 // Config returns configs of the Container.
 // The Config must not be modified
 func (c *Container) Config() (conf *Config) {
diff --git a/skyobject/index.go b/skyobject/index.go
index 3329804..d9bb985 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -936,6 +936,9 @@ func (i *Index) delPackWalkFunc(
 // given Root, including the Root itself and its Registry
 func (i *Index) delRootRelatedValues(rootHash cipher.SHA256) (err error) {
 
+	i.c.rcs.Lock()
+	defer i.c.rcs.Unlock()
+
 	var r *registry.Root
 	if r, err = i.c.rootByHash(rootHash); err != nil {
 		return
diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5cc816c..e2274dd 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -10,45 +10,37 @@ import (
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
-type unpackItem struct {
-	inc     int  // saved times
-	dec     int  // used times
-	created bool // created
-}
-
 // An Unpack implements registry.Pack
 // and used to change or cerate a Root
 type Unpack struct {
-	m     map[cipher.SHA256]*unpackItem // hash -> rc
-	c     *Container                    // Set method
-	*Pack                               // other methods
-	sk    cipher.SecKey                 // owner
+	m     map[cipher.SHA256]int // hash -> saved times
+	c     *Container            // Set method
+	*Pack                       // other methods
+	sk    cipher.SecKey         // owner
 }
 
-func (u *Unpack) reset() {
-	for _, ui := range u.m {
-		ui.dec = 0
-	}
-}
-
-// Set value
+// Set value. The value will be held until
+// Save or Close
 func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 
-	var rc int
-	if rc, err = u.c.Set(key, val, 1); err != nil {
+	if _, err = u.c.setHeld(key, val); err != nil {
 		return
 	}
 
-	var ui, ok = u.m[key]
+	u.m[key]++
+	return
+}
+
+// release all held values
+func (u *Unpack) release() (err error) {
 
-	if ok == false {
-		ui = new(unpackItem)
-		u.m[key] = ui
+	for key, inc := range u.m {
+		if err = u.c.Finc(key, -inc); err != nil {
+			return
+		}
+		delete(u.m, key)
 	}
 
-	ui.inc++
-	ui.created = (rc == 1)
-
 	return
 }
 
@@ -84,7 +76,7 @@ func (c *Container) Unpack(
 	up = &Unpack{
 		sk:   sk,
 		c:    c,
-		m:    make(map[cipher.SHA256]*unpackItem),
+		m:    make(map[cipher.SHA256]int),
 		Pack: c.getPack(reg),
 	}
 
@@ -127,133 +119,63 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 	}
 
-	// walk the Root first
-
-	defer func() {
-		if err != nil {
-			up.reset()
-		}
-	}()
-
-	for _, dr := range r.Refs {
-
-		err = dr.Walk(up, func(
-			hash cipher.SHA256, // :
-			_ int, //              :
-		) (
-			deepper bool, //       :
-			err error, //          :
-		) {
-
-			if hash == (cipher.SHA256{}) {
-				return
-			}
-
-			// go deepper only if the object was created
-
-			var ui, ok = up.m[hash]
-
-			if ok == false {
-				// this object was not created, then it already
-				// exists in the CXDS, and we have to increment
-				// rc of the object
-
-				if _, err = c.Inc(hash, 1); err != nil {
-					return
-				}
-				up.m[hash] = &unpackItem{inc: 1, dec: 1} // for Close
-
-				return // false, nil
-			}
-
-			// here we reduce the ui.inc; if end-user saves an
-			// object many times (or the object saved by Refs
-			// modifications, for example if it's hash of
-			// node of the Refs), then the inc will be greater
-			// then one
-			//
-			// ui.inc - times saved
-			// ui.dec - times used
-			//
-			// at the end of the Save we call c.Inc(key, ui.dec - ui.inc)
-			// for every value (if the difference is not zero) to make
-			// values in CXDS actual
-
-			ui.dec++ // used
-			deepper = ui.created
-			return
-
-		})
-
-		if err != nil {
-			return
-		}
-
-	}
-
-	// ok, let's save the Root
-
 	// check out Index first (has feed)
 	if c.HasFeed(r.Pub) == false {
 		return data.ErrNoSuchFeed
 	}
 
-	// save into Index and IdxDB
-	var val []byte
+	c.rcs.Lock()
+	defer c.rcs.Unlock()
 
-	if val, err = c.Index.saveRoot(up, r); err != nil {
-		return
-	}
+	// walk the Root first, incrementing rc of objects of the Root
 
-	// save the Root in CXDS
-
-	if err = up.Set(r.Hash, val); err != nil {
+	var incs []cipher.SHA256
+	if incs, err = c.incRelated(c.getPack(up.Registry()), r); err != nil {
 		return
 	}
 
+	defer func() {
+		if err != nil {
+			c.decRelated(incs)
+		}
+	}()
+
 	// save registry
 
-	if err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode()); err != nil {
+	_, err = c.Set(cipher.SHA256(r.Reg), up.Registry().Encode(), 1)
+
+	if err != nil {
 		return
 	}
 
-	// make rc of related objects actual
-
-	for key, ui := range up.m {
-
-		if key == r.Hash || key == cipher.SHA256(r.Reg) {
-			ui.dec++
-		}
-
-		var inc = ui.dec - ui.inc
+	incs = append(incs, cipher.SHA256(r.Reg))
 
-		if inc < 0 {
-			// decrement
-			if _, err = c.Inc(key, inc); err != nil {
-				return // leave the CXDS broken if an error occurred
-			}
-		}
-
-		delete(up.m, key) // saved
+	// save into CXDS, Index and IdxDB
 
+	if err = c.Index.saveRoot(up, r); err != nil {
+		return
 	}
 
-	return
+	incs = nil // saved
+
+	// the Root owns all related objects now
+	return up.release()
 }
 
 func (i *Index) saveRoot(
 	up *Unpack,
 	r *registry.Root,
 ) (
-	val []byte,
 	err error,
 ) {
 
 	i.mx.Lock()
 	defer i.mx.Unlock()
 
-	// val []byte --> encoded Root
-	var dr = new(data.Root)
+	var (
+		dr    = new(data.Root)
+		saved bool // saved in CXDS
+	)
 
 	err = i.c.db.IdxDB().Tx(func(fs data.Feeds) (err error) {
 		var hs data.Heads
@@ -292,7 +214,7 @@ func (i *Index) saveRoot(
 
 		// hash of the Root
 
-		val = r.Encode()
+		var val = r.Encode()
 		r.Hash = cipher.SumSHA256(val)
 		r.IsFull = true
 
@@ -308,11 +230,22 @@ func (i *Index) saveRoot(
 		dr.Sig = r.Sig
 		dr.Time = r.Time
 
+		// save the Root in CXDS
+
+		if _, err = i.c.Set(r.Hash, val, 1); err != nil {
+			return
+		}
+
+		saved = true
+
 		return roots.Set(dr) // save
 
 	})
 
 	if err != nil {
+		if saved == true {
+			i.c.Inc(r.Hash, -1) // ignore error
+		}
 		return
 	}
 
@@ -346,13 +279,5 @@ func (c *Container) NewRoot(
 // Close the Unpack, rejecting all saved objects that
 // will not be used
 func (u *Unpack) Close() (err error) {
-	for key, ui := range u.m {
-		if ui.inc > 0 {
-			if _, err = u.c.Inc(key, -ui.inc); err != nil {
-				return
-			}
-		}
-	}
-	u.m = nil
-	return
+	return u.release()
 }
-- 
2.43.0


From 1eb52cdbf41c8702d9f73850594ff41dea5ffb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 041/100] fix: first Root of a head can be saved with non-zero
 seq

---
 skyobject/unpack.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index e2274dd..1cc15d7 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -206,10 +206,11 @@ func (i *Index) saveRoot(
 		if lastHash != (cipher.SHA256{}) {
 			r.Seq = lastSeq + 1
 			r.Prev = lastHash
+		} else {
+			r.Seq = 0
+			r.Prev = cipher.SHA256{}
 		}
 
-		// else -> 0 and blank
-
 		r.Time = time.Now().UnixNano()
 
 		// hash of the Root
-- 
2.43.0


From 3a3d5e9d2a8a940ef51c3901c9def0cb28e33f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 042/100] fix: Root can be saved with secret key of another
 feed

---
 skyobject/unpack.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 1cc15d7..d449be0 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -103,6 +103,19 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return errors.New("zero Nonce field of the Root")
 	}
 
+	// check out the owner, otherwise the Root will have a signature
+	// nobody accepts
+
+	var pk cipher.PubKey
+	if pk, err = cipher.PubKeyFromSecKey(up.sk); err != nil {
+		return
+	}
+
+	if pk != r.Pub {
+		return errors.New("secret key of the Unpack doesn't match " +
+			"Pub field of the Root")
+	}
+
 	// check out Registry
 
 	if rr := up.Registry().Reference(); r.Reg == (registry.RegistryRef{}) {
-- 
2.43.0


From 8f88742a4339ad95f44a6f778fe2fcf2157ce800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 043/100] fix: filling leaves wrong references counters, can be
 incomplete, and can block

---
 skyobject/fill.go | 218 +++++++++++++++++++++++++++++++---------------
 1 file changed, 149 insertions(+), 69 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 82f7622..7e7d2ee 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
-	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -51,46 +50,67 @@ func (f *Filler) get(
 	err error,
 ) {
 
-	// try to get from DB first
-	val, rc, err = f.c.Get(key, inc) // incrementing the rc to hold the object
+	var (
+		gc  = make(chan Object, 1) // wait for the object
+		obj Object
+	)
 
-	if err == nil {
-		if inc > 0 {
-			rc = f.inc(key, rc) // ++
-		}
-		return
+	// the Want looks DB first, the inc holds the object
+	if err = f.c.Want(key, gc, inc); err != nil {
+		return // DB failure
 	}
 
-	if err != data.ErrNotFound {
-		fatal("DB failure:", err) // fatality
+	select {
+	case obj = <-gc:
+		return f.got(key, inc, obj)
+	default:
+		// not found in DB
 	}
 
-	err = nil // clear if it's data.ErrNotFound
+	// requset the object using the rq channel
+
+	if f.requset(key) == true {
+		select {
+		case obj = <-gc:
+			return f.got(key, inc, obj)
+		case <-f.closeq:
+		}
+	}
 
-	// not found
-	var gc = make(chan Object, 1) // wait for the object
+	// terminated
 
-	f.c.Want(key, gc, inc)
-	defer f.c.Unwant(key, gc) // to be memory safe
+	f.c.Unwant(key, gc)
 
-	// requset the object using the rq channel
-	if f.requset(key) == false {
+	// the object can be received just before the Unwant,
+	// and in this case it's held
+	select {
+	case obj = <-gc:
+		f.got(key, inc, obj)
+	default:
+	}
+
+	return nil, 0, ErrTerminated
+}
+
+// handle object received through the Want
+func (f *Filler) got(
+	key cipher.SHA256,
+	inc int,
+	obj Object,
+) (
+	val []byte,
+	rc int, // hard rc
+	err error,
+) {
+
+	if err = obj.Err; err != nil {
 		return
 	}
 
-	select {
-	case obj := <-gc:
-		if err = obj.Err; err != nil {
-			return
-		}
-		val = obj.Val
-		if inc > 0 {
-			rc = f.inc(key, obj.RC)
-		} else {
-			rc = obj.RC
-		}
-	case <-f.closeq:
-		err = ErrTerminated
+	val, rc = obj.Val, obj.RC
+
+	if inc > 0 {
+		rc = f.inc(key, rc)
 	}
 
 	return
@@ -122,7 +142,7 @@ func (f *Filler) isPrerequested(key cipher.SHA256) (ok bool) {
 
 // Get object from DB or request it usung provided
 // channel. The Get increments references counter
-// of value
+// of value. The rc is hard rc after the increment
 func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 
 	var inc = 1
@@ -131,17 +151,22 @@ func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 		inc = 0 // prerequested
 	}
 
-	val, rc, err = f.get(key, inc)
-	return
+	if val, rc, err = f.get(key, inc); err != nil {
+		return
+	}
+
+	return val, rc + inc, nil
 }
 
 // Fail used to terminate the Filler with
-// provided error
+// provided error. It never blocks, and first
+// error is kept
 func (f *Filler) Fail(err error) {
 	select {
 	case f.errq <- err:
-	case <-f.closeq:
+	default:
 	}
+	f.terminate()
 }
 
 //
@@ -178,15 +203,31 @@ func (f *Filler) requset(key cipher.SHA256) (ok bool) {
 	return
 }
 
-// Close terminates the Split walking and waits for
-// goroutines the split creates
-func (f *Filler) Close() {
+func (f *Filler) terminate() {
 	f.closeo.Do(func() {
+		f.mx.Lock() // no goroutine can be created after
+		defer f.mx.Unlock()
+
 		close(f.closeq)
-		f.await.Wait()
 	})
 }
 
+func (f *Filler) isTerminated() (yep bool) {
+	select {
+	case <-f.closeq:
+		return true
+	default:
+	}
+	return
+}
+
+// Close terminates the Split walking and waits for
+// goroutines the split creates
+func (f *Filler) Close() {
+	f.terminate()
+	f.await.Wait()
+}
+
 // Fill given Root returns Filler that fills given
 // Root object. To request objects, the DB doesn't
 // have, given rq channel used. The Fill used by
@@ -219,20 +260,53 @@ func (c *Container) Fill(
 	return
 }
 
-func (f *Filler) apply() {
+// release all objects held by the Filler
+func (f *Filler) release() {
+	f.mx.Lock()
+	defer f.mx.Unlock()
+
 	for key, inc := range f.incs {
-		if err := f.c.Finc(key, inc); err != nil {
+		if err := f.c.Finc(key, -inc); err != nil {
 			panic("DB failure: " + err.Error()) // TODO: handle the error
 		}
+		delete(f.incs, key)
 	}
 }
 
-func (f *Filler) reject() {
-	for key, inc := range f.incs {
-		if err := f.c.Finc(key, -inc); err != nil {
-			panic("DB failure: " + err.Error()) // TODO: handle the error
+// save the Root. All objects of the Root are in DB,
+// and all of them, that don't belong to another full
+// Root, are held by the Filler
+func (f *Filler) save() (err error) {
+
+	f.c.rcs.Lock()
+	defer f.c.rcs.Unlock()
+
+	var incs []cipher.SHA256
+	if incs, err = f.c.incRelated(f.c.getPack(f.reg), f.r); err != nil {
+		return
+	}
+
+	// the Root and the Registry
+
+	for _, key := range []cipher.SHA256{f.r.Hash, cipher.SHA256(f.r.Reg)} {
+		if _, err = f.c.Inc(key, 1); err != nil {
+			break
 		}
+		incs = append(incs, key)
+	}
+
+	var alreadyHave bool
+
+	if err == nil {
+		f.r.IsFull = true // full!
+		alreadyHave, err = f.c.AddRoot(f.r)
+	}
+
+	if err != nil || alreadyHave == true {
+		f.c.decRelated(incs)
 	}
+
+	return
 }
 
 func (f *Filler) acquire() (parall bool) {
@@ -260,10 +334,21 @@ func (f *Filler) Go(fn func()) {
 
 		// parallel
 
+		f.mx.Lock()
+		defer f.mx.Unlock()
+
+		if f.isTerminated() == true {
+			return
+		}
+
 		f.await.Add(1)
 		go func() {
 			defer f.await.Done()
-			<-f.limit // release
+
+			if f.limit != nil {
+				defer func() { <-f.limit }() // release
+			}
+
 			fn()
 		}()
 
@@ -272,7 +357,9 @@ func (f *Filler) Go(fn func()) {
 
 	// otherwise, in the very goroutine
 
-	fn()
+	if f.isTerminated() == false {
+		fn()
+	}
 
 }
 
@@ -280,23 +367,20 @@ func (f *Filler) Go(fn func()) {
 // until finish or first error
 func (f *Filler) Run() (err error) {
 
-	// save Root
+	defer func() {
+		f.Close()
+		f.r.IsFull = (err == nil)
+		f.release()
+	}()
 
-	if _, err = f.c.Set(f.r.Hash, f.r.Encode(), 1); err != nil {
+	// hold the Root
+
+	if _, err = f.c.setHeld(f.r.Hash, f.r.Encode()); err != nil {
 		return
 	}
 
 	f.inc(f.r.Hash, 0) // increment
 
-	defer func() {
-		if err != nil {
-			f.r.IsFull = false // reset
-			f.reject()
-		} else {
-			f.apply()
-		}
-	}()
-
 	if err = f.getRegistry(); err != nil {
 		return
 	}
@@ -310,23 +394,19 @@ func (f *Filler) Run() (err error) {
 
 	}
 
-	var done = make(chan struct{})
-
-	go func() {
-		f.await.Wait() // wait group
-		close(done)
-	}()
+	f.await.Wait() // wait group
 
 	select {
 	case err = <-f.errq:
-	case <-done:
-		f.r.IsFull = true // full!
-		_, err = f.c.AddRoot(f.r)
+		return // first error
+	default:
 	}
 
-	f.Close()
+	if f.isTerminated() == true {
+		return ErrTerminated
+	}
 
-	return
+	return f.save()
 }
 
 func (f *Filler) getRegistry() (err error) {
-- 
2.43.0


From 144f838cd04556353bb91a52432613abde510008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 044/100] fix: Stat panics if a head is blank

---
 skyobject/stat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/stat.go b/skyobject/stat.go
index 00e95a6..181fcc0 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -151,6 +151,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				if last == nil {
 					sf.Heads[nonce] = sh // blank head
+					continue
 				}
 
 				if roots, err = heads.Roots(nonce); err != nil {
-- 
2.43.0


From cc74af73461c8e523e8532b90822e48527980250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 045/100] fix: Preview requests objects the DB has

---
 skyobject/preview.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/preview.go b/skyobject/preview.go
index 270f4b2..b8265f8 100644
--- a/skyobject/preview.go
+++ b/skyobject/preview.go
@@ -47,8 +47,8 @@ func (p *Preview) Get(key cipher.SHA256) (val []byte, err error) {
 		return // alrady received
 	}
 
-	if val, err = p.Pack.Get(key); err != nil && err != data.ErrNotFound {
-		return // db failure
+	if val, err = p.Pack.Get(key); err == nil || err != data.ErrNotFound {
+		return // found or db failure
 	}
 
 	// not found
-- 
2.43.0


From 25a26286a01109a9ccde78e8f94d9417d11a3982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 046/100] fix: RemoveRootObjects stops on first gap of seq
 numbers

---
 cxoutils/cxoutils.go | 91 ++++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 28 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 501ef27..3061b4b 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -34,54 +34,89 @@ func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 
 		var heads []uint64
 		if heads, err = c.Heads(pk); err != nil {
+			if isNotFound(err) == true {
+				err = nil // clear
+				continue  // already deleted
+			}
 			return
 		}
 
-	HeadLoop:
 		for _, nonce := range heads {
-			var seq uint64
-			if seq, err = c.LastRootSeq(pk, nonce); err != nil {
-				err = nil // clear
-				continue  // not a real error
+
+			var seqs []uint64
+			if seqs, err = oldRoots(c, pk, nonce, keepLast); err != nil {
+				return
 			}
 
-			if seq < uint64(keepLast) {
-				continue
+			for _, seq := range seqs {
+				err = c.DelRoot(pk, nonce, seq)
+				if err != nil && isNotFound(err) == false {
+					return // a failure
+				}
+				err = nil // clear error
 			}
 
-			var goDown = seq - uint64(keepLast) // positive
+		} // head loop
 
-			for ; goDown > 0; goDown-- {
+	} // feed loop
 
-				if err = c.DelRoot(pk, nonce, goDown); err != nil {
-					if err == data.ErrNotFound {
-						err = nil // clear error
-						continue HeadLoop
-					}
-					return // a failure (CXDS not found error?)
-				}
+	return
+}
 
-			}
+// seq numbers of all Root objects of the head excluding
+// last n-th, from new to old
+func oldRoots(
+	c *skyobject.Container,
+	pk cipher.PubKey,
+	nonce uint64,
+	keepLast int,
+) (
+	seqs []uint64,
+	err error,
+) {
+
+	if keepLast < 0 {
+		return // keep all
+	}
+
+	err = c.DB().IdxDB().Tx(func(feeds data.Feeds) (err error) {
+
+		var heads data.Heads
+		if heads, err = feeds.Heads(pk); err != nil {
+			return
+		}
 
-			// seq = 0 (goDown == 0)
-			if err = c.DelRoot(pk, nonce, 0); err != nil {
-				if err == data.ErrNotFound {
-					err = nil // clear error
-					continue HeadLoop
-				}
+		var roots data.Roots
+		if roots, err = heads.Roots(nonce); err != nil {
+			return
+		}
 
+		var kept int
+
+		return roots.Descend(func(dr *data.Root) (err error) {
+			if kept < keepLast {
+				kept++
 				return
 			}
+			seqs = append(seqs, dr.Seq)
+			return
+		})
+	})
 
-			// continue HeadLoop
-
-		} // head loop
-
-	} // feed loop
+	if isNotFound(err) == true {
+		err = nil // already deleted, not a real error
+	}
 
 	return
 }
 
+// already deleted
+func isNotFound(err error) bool {
+	return err == data.ErrNotFound ||
+		err == data.ErrNoSuchHead ||
+		err == data.ErrNoSuchFeed
+}
+
 // RemoveObjects with rc == 0 from CXDS
 func RemoveObjects(c *skyobject.Container) (err error) {
 
-- 
2.43.0


From 73c9b9922edea7a1adf41fb587a591d5f566a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 047/100] fix: RemoveObjects can cause deadlock

---
 cxoutils/cxoutils.go | 10 +---------
 skyobject/cache.go   | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 3061b4b..12b810d 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -119,15 +119,7 @@ func isNotFound(err error) bool {
 
 // RemoveObjects with rc == 0 from CXDS
 func RemoveObjects(c *skyobject.Container) (err error) {
-
-	var db = c.DB().CXDS()
-
-	err = db.IterateDel(
-		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
-			return (rc == 0) && (c.IsCached(key) == false), nil
-		})
-
-	return
+	return c.DelOwnerless()
 }
 
 // TODO (kostyarin): RemoveObjects with "down to" or "timeout" feature
diff --git a/skyobject/cache.go b/skyobject/cache.go
index bf066f5..6b4ed04 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -685,6 +685,23 @@ func (c *Cache) IsCached(key cipher.SHA256) (yep bool) {
 	return
 }
 
+// DelOwnerless deletes objects with zero rc from DB. Cached
+// objects (see IsCached) are kept
+func (c *Cache) DelOwnerless() (err error) {
+
+	// the Cache calls DB under this lock, thus, calling
+	// the IsCached inside the IterateDel can cause deadlock
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	return c.db().IterateDel(
+		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
+			var _, cached = c.is[key]
+			return rc == 0 && cached == false, nil
+		})
+}
+
 // Get from cache or DB, increasing, leaving as is, or
 // reducing references counter. For most reading cases
 // the inc argument should be zero. If value doesn't
-- 
2.43.0


From c3a5c95466a610f2f57d0c33bb53134feecdd5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:26 +0000
Subject: [PATCH 048/100] fix: RootByHash returns a deleted Root with signature
 of another one

---
 skyobject/container.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 9d2c413..f490aff 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -409,7 +409,12 @@ func (c *Container) RootByHash(
 
 	var dr *data.Root
 	if dr, err = c.dataRoot(r.Pub, r.Nonce, r.Seq); err != nil {
-		return
+		return nil, err
+	}
+
+	// there is another Root with this seq number
+	if dr.Hash != hash {
+		return nil, data.ErrNotFound
 	}
 
 	r.Sig = dr.Sig
-- 
2.43.0


From f1cb14c0b6cf0a814182464db8908fd558caa3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 049/100] fix: checking of sizes of objects blocks if in-memory
 CXDS used

---
 skyobject/container.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index f490aff..7ae1bd5 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -245,11 +245,7 @@ func (c *Container) checkSize() (err error) {
 	}
 
 	err = c.db.CXDS().Iterate(
-		func(key cipher.SHA256, _ uint32, _ []byte) (err error) {
-			var val []byte
-			if val, _, err = c.db.CXDS().Get(key, 0); err != nil {
-				return
-			}
+		func(key cipher.SHA256, _ uint32, val []byte) (err error) {
 			if len(val) > c.conf.MaxObjectSize {
 				return &ObjectIsTooLargeError{key}
 			}
-- 
2.43.0


From e779f92e352557304928a7dd5cc8d66c9211b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:06 +0000
Subject: [PATCH 050/100] fix: Root with extra bytes is stored with hash that
 is not its hash

---
 skyobject/registry/errors.go | 1 +
 skyobject/registry/root.go   | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/errors.go b/skyobject/registry/errors.go
index 4933bfa..1fc93d9 100644
--- a/skyobject/registry/errors.go
+++ b/skyobject/registry/errors.go
@@ -19,6 +19,7 @@ var (
 	ErrReferenceRepresentsNil  = errors.New(
 		"reference represents nil")
 
+	ErrInvalidEncodedRoot = errors.New("invalid encoded Root")
 	ErrInvalidEncodedRefs = errors.New("invalid encoded Refs")
 	ErrInvalidRefs        = errors.New("invalid Refs")
 	ErrIndexOutOfRange    = errors.New("index out of range")
diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 994d62e..7fde73c 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"bytes"
 	"fmt"
 	"strconv"
 
@@ -82,7 +83,11 @@ func (r *Root) String() string {
 func DecodeRoot(val []byte) (r *Root, err error) {
 	r = new(Root)
 	if _, err = encoder.DeserializeRaw(val, r); err != nil {
-		r = nil
+		return nil, err
+	}
+	// the Root is received by hash of the val
+	if bytes.Equal(r.Encode(), val) == false {
+		return nil, ErrInvalidEncodedRoot
 	}
 	return
 }
-- 
2.43.0


From d1869648d68e27d628466ab85eeeeba27d8dce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 051/100] fix: closing a closed connection panics

---
 node/conn.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index a482566..b0c0902 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	initErr error
 	initq   chan struct{}
 
+	closeo sync.Once      // close the closeq once
 	closeq chan struct{}  // signal for all goroutines to exit
 	await  sync.WaitGroup // wait for all goroutines to exit
 
@@ -84,14 +85,14 @@ func (c *Conn) run() {
 	go func() {
 		defer c.await.Done()
 		if rcvErr = c.receiveMsg(); rcvErr != nil {
-			close(c.closeq)
+			c.terminate()
 		}
 	}()
 
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
-		close(c.closeq)
+		c.terminate()
 	}
 
 	// Wait for all groutines to exit.
@@ -398,9 +399,16 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
+// terminate sends closing signal to all goroutines
+func (c *Conn) terminate() {
+	c.closeo.Do(func() {
+		close(c.closeq)
+	})
+}
+
 // Close the Conn
 func (c *Conn) Close() (err error) {
-	close(c.closeq)
+	c.terminate()
 	c.await.Wait()
 
 	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
-- 
2.43.0


From 664c5156b4ae9f9cb0c3fda26989d425dda7f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 052/100] fix: second response to a request blocks receiving

---
 node/conn.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index b0c0902..f5246d0 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -484,8 +484,8 @@ func (c *Conn) receiveMsg() error {
 			c.n.Debugf(MsgReceivePin, "[%s] receive %T", c.String(), msg)
 
 			// Handle message.
-			if rq, ok := c.isResponse(rseq); ok == true {
-				rq <- msg
+			if rq, ok := c.takeRequest(rseq); ok == true {
+				rq <- msg // never blocks
 				continue
 			}
 			if err := c.handle(seq, msg); err != nil {
@@ -498,11 +498,15 @@ func (c *Conn) receiveMsg() error {
 	}
 }
 
-func (c *Conn) isResponse(rseq uint32) (rq chan<- msg.Msg, ok bool) {
+// takeRequest returns request the rseq is response for; there
+// can be only one response, thus the request is removed
+func (c *Conn) takeRequest(rseq uint32) (rq chan<- msg.Msg, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	rq, ok = c.reqs[rseq]
+	if rq, ok = c.reqs[rseq]; ok == true {
+		delete(c.reqs, rseq)
+	}
 	return
 }
 
-- 
2.43.0


From 730f4ea995823ebaa1d39ee5f5807f1db08eee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 053/100] fix: handshake panics if there is no response timeout

---
 node/handshake.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node/handshake.go b/node/handshake.go
index fbe66b5..c96fa38 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -39,6 +39,7 @@ func (c *Conn) performHandshake() error {
 	var (
 		rt time.Duration
 		tm *time.Timer
+		tc <-chan time.Time // nil, if there is no timeout
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -47,6 +48,7 @@ func (c *Conn) performHandshake() error {
 	}
 	if rt > 0 {
 		tm = time.NewTimer(rt)
+		tc = tm.C
 		defer tm.Stop()
 	}
 
@@ -81,7 +83,7 @@ func (c *Conn) performHandshake() error {
 			return fmt.Errorf("invalid response type: %T", m)
 		}
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
@@ -99,6 +101,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	var (
 		rt time.Duration
 		tm *time.Timer
+		tc <-chan time.Time // nil, if there is no timeout
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -107,6 +110,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	}
 	if rt > 0 {
 		tm = time.NewTimer(rt)
+		tc = tm.C
 		defer tm.Stop()
 	}
 
@@ -171,7 +175,7 @@ func (c *Conn) acceptHandshake() (err error) {
 		// Handshake is complete.
 		c.peerID = syn.NodeID
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
-- 
2.43.0


From 488a3c5a7f6dad3f73c729f79f2ab0eeb6f0e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 054/100] fix: sending to a peer that does not read blocks
 closing

---
 node/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index f5246d0..9baabfd 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -445,7 +445,11 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	c.sendq <- c.encodeMsg(seq, rseq, m)
+	select {
+	case c.sendq <- c.encodeMsg(seq, rseq, m):
+	case <-c.closeq:
+		return ErrClosed
+	}
 
 	return nil
 }
-- 
2.43.0


From cb283a5f1f66bb013b2c3961c513ee1bc3d769ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 055/100] fix: zero limit of connections refuses all instead of
 no limit

---
 node/node.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index ddf20bb..0756123 100644
--- a/node/node.go
+++ b/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"errors"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -366,6 +367,10 @@ func (n *Node) connCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns) + len(n.addrToConn)
 	if count >= n.config.MaxConnections {
 		return 0
@@ -378,6 +383,10 @@ func (n *Node) pendingConnCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxPendingConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns)
 	if count >= n.config.MaxPendingConnections {
 		return 0
@@ -449,10 +458,12 @@ func (n *Node) onNewConn(
 	defer n.mx.Unlock()
 
 	// Check limits for number of open connections.
-	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
+	if mc := n.config.MaxConnections; mc > 0 &&
+		len(n.pendConns)+len(n.addrToConn) >= mc {
 		return nil, false, false, ErrConnLimit
 	}
-	if len(n.pendConns) >= n.config.MaxPendingConnections {
+	if mp := n.config.MaxPendingConnections; mp > 0 &&
+		len(n.pendConns) >= mp {
 		return nil, false, false, ErrPendConnLimit
 	}
 
-- 
2.43.0


From 86664b1f5d1061099cb95aa976866d77e21c09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:10 +0000
Subject: [PATCH 056/100] fix: second connection with the same peer, or with
 itself, can be established

---
 node/errors.go    |  2 ++
 node/handshake.go | 18 ++++++------------
 node/node.go      | 47 +++++++++++++++++++++++++++++++++++++++++------
 3 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/node/errors.go b/node/errors.go
index 2bf6562..39d4059 100644
--- a/node/errors.go
+++ b/node/errors.go
@@ -11,6 +11,8 @@ var (
 	ErrClosed                  = errors.New("closed")
 	ErrNotPublic               = errors.New("not a public server")
 	ErrAlreadyHaveConnection   = errors.New("already have connection")
+	ErrInvalidPeerID           = errors.New("invalid peer id")
+	ErrSelfConnection          = errors.New("connection with itself")
 	ErrInvalidResponse         = errors.New("invalid response")
 	ErrNoConnectionsToFillFrom = errors.New("no connections to fill from")
 	ErrMaxHeadsLimit           = errors.New("max heads limit")
diff --git a/node/handshake.go b/node/handshake.go
index c96fa38..7c8d51f 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -71,10 +71,9 @@ func (c *Conn) performHandshake() error {
 		switch x := m.(type) {
 		case *msg.Ack:
 			// Check if node already has connection with peer.
-			if _, ok := c.n.hasPeer(x.NodeID); ok {
-				return ErrAlreadyHaveConnection
+			if err := c.n.addPeer(c, x.NodeID); err != nil {
+				return err
 			}
-			c.peerID = x.NodeID
 
 		case *msg.Err:
 			return errors.New(x.Err)
@@ -149,14 +148,10 @@ func (c *Conn) acceptHandshake() (err error) {
 		}
 
 		// Check if node already has connection with peer.
-		if _, ok := c.n.hasPeer(syn.NodeID); ok {
-			var (
-				err = ErrAlreadyHaveConnection
-
-				errMsg = &msg.Err{
-					Err: err.Error(),
-				}
-			)
+		if err := c.n.addPeer(c, syn.NodeID); err != nil {
+			var errMsg = &msg.Err{
+				Err: err.Error(),
+			}
 			if sendErr := c.sendMsg(c.nextSeq(), seq, errMsg); sendErr != nil {
 				c.n.Error(sendErr, "faield to send err message")
 			}
@@ -173,7 +168,6 @@ func (c *Conn) acceptHandshake() (err error) {
 		}
 
 		// Handshake is complete.
-		c.peerID = syn.NodeID
 
 	case <-tc:
 		return ErrTimeout
diff --git a/node/node.go b/node/node.go
index 0756123..120b2b8 100644
--- a/node/node.go
+++ b/node/node.go
@@ -491,14 +491,14 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 	defer n.mx.Unlock()
 
 	delete(n.pendConns, c.Address())
+	n.delPeer(c)
 
 	c.initErr = initErr
 	close(c.initq)
 }
 
 // onConnInit atomically moves pending connection to cache
-// and singals about initConn success. It also chekcs if
-// peer's pubkey, receieved during hanshake is duplicate.
+// and singals about initConn success.
 func (n *Node) onConnInit(c *Conn) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
@@ -506,7 +506,6 @@ func (n *Node) onConnInit(c *Conn) {
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
-	n.pkToConn[c.peerID] = c
 
 	close(c.initq)
 }
@@ -516,8 +515,38 @@ func (n *Node) removeConn(c *Conn) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	delete(n.addrToConn, c.Address())
-	delete(n.pkToConn, c.peerID)
+	if n.addrToConn[c.Address()] == c {
+		delete(n.addrToConn, c.Address())
+	}
+	n.delPeer(c)
+}
+
+// addPeer atomically checks peer's pubkey, receieved
+// during hanshake, and reserves it for the connection.
+func (n *Node) addPeer(c *Conn, id cipher.PubKey) error {
+	n.mx.Lock()
+	defer n.mx.Unlock()
+
+	switch {
+	case id == (cipher.PubKey{}):
+		return ErrInvalidPeerID
+	case id == n.idpk:
+		return ErrSelfConnection
+	case n.pkToConn[id] != nil:
+		return ErrAlreadyHaveConnection
+	}
+
+	c.peerID = id
+	n.pkToConn[id] = c
+
+	return nil
+}
+
+// delPeer releases pubkey of the connection (call under lock).
+func (n *Node) delPeer(c *Conn) {
+	if n.pkToConn[c.peerID] == c {
+		delete(n.pkToConn, c.peerID)
+	}
 }
 
 func (n *Node) updateServiceDiscovery() {
@@ -659,7 +688,13 @@ func (n *Node) hasPeer(id cipher.PubKey) (c *Conn, yep bool) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	c, yep = n.pkToConn[id]
+	if c, yep = n.pkToConn[id]; yep == false {
+		return
+	}
+
+	if n.addrToConn[c.Address()] != c {
+		return nil, false // pending
+	}
 	return
 }
 
-- 
2.43.0


From 4e844e9b099bde8a503654563c25ec8dce94fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:10 +0000
Subject: [PATCH 057/100] fix: failed handshake panics if two Connect calls
 wait for it, unused connections leak

---
 node/node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 120b2b8..8eac293 100644
--- a/node/node.go
+++ b/node/node.go
@@ -415,6 +415,10 @@ func (n *Node) initConn(
 	switch {
 	// In case of exisitng connection return it.
 	case !isNew && !isPending:
+		if isIncoming {
+			return nil, errors.New("already have connection from the address")
+		}
+		fc.Close() // is not used
 		return c, nil
 
 	// In case of existing pending connnection:
@@ -425,8 +429,9 @@ func (n *Node) initConn(
 		if isIncoming {
 			return nil, errors.New("already have incoming pending connection")
 		}
-		if err = c.waitForInit(); err != nil {
-			n.onConnInitErr(c, err)
+		err = c.waitForInit()
+		fc.Close() // is not used
+		if err != nil {
 			return nil, err
 		}
 		return c, nil
-- 
2.43.0


From d54c810a7aaf2b0d7015fc2f1087f23abfa78269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 058/100] fix: Connect to a peer fails because of the limit
 though the connection exists

---
 node/node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node/node.go b/node/node.go
index 8eac293..f420ad5 100644
--- a/node/node.go
+++ b/node/node.go
@@ -462,16 +462,6 @@ func (n *Node) onNewConn(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
-	// Check limits for number of open connections.
-	if mc := n.config.MaxConnections; mc > 0 &&
-		len(n.pendConns)+len(n.addrToConn) >= mc {
-		return nil, false, false, ErrConnLimit
-	}
-	if mp := n.config.MaxPendingConnections; mp > 0 &&
-		len(n.pendConns) >= mp {
-		return nil, false, false, ErrPendConnLimit
-	}
-
 	addr := fc.GetRemoteAddr().String()
 
 	// Check if connection to/from address already exists.
@@ -482,6 +472,16 @@ func (n *Node) onNewConn(
 		return c, false, true, nil
 	}
 
+	// Check limits for number of open connections.
+	if mc := n.config.MaxConnections; mc > 0 &&
+		len(n.pendConns)+len(n.addrToConn) >= mc {
+		return nil, false, false, ErrConnLimit
+	}
+	if mp := n.config.MaxPendingConnections; mp > 0 &&
+		len(n.pendConns) >= mp {
+		return nil, false, false, ErrPendConnLimit
+	}
+
 	// Create new pending connection.
 	c = n.newConnection(fc, isIncoming)
 	n.pendConns[addr] = c
-- 
2.43.0


From 9541fce0d6a4f24d7c5bf9bb1f82ae700e6d5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 059/100] fix: closed connection can stay in a transport for
 ever, or be returned by Connect

---
 node/conn.go       | 26 ++++++++++++---------
 node/node.go       |  8 +++++++
 node/transports.go | 56 +++++++++++++++++-----------------------------
 3 files changed, 43 insertions(+), 47 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 9baabfd..9e05720 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -81,9 +81,8 @@ func (c *Conn) run() {
 	// Receive messages, until close signal is received or error occures.
 	// In case of error stop all goroutines, started by connection.
 	var rcvErr error
-	c.await.Add(1)
 	go func() {
-		defer c.await.Done()
+		defer c.await.Done() // added by onConnInit
 		if rcvErr = c.receiveMsg(); rcvErr != nil {
 			c.terminate()
 		}
@@ -98,14 +97,7 @@ func (c *Conn) run() {
 	// Wait for all groutines to exit.
 	c.await.Wait()
 
-	c.n.removeConn(c)
-
-	// Remove connection from trasnport's cache and close factory.Connection.
-	if c.IsTCP() {
-		c.n.tcp.closeConn(c.Address())
-	} else {
-		c.n.udp.closeConn(c.Address())
-	}
+	c.remove()
 
 	// In connection is closed in case of error, decide which one to pass to OnDisconnect.
 	var odcErr error
@@ -406,12 +398,24 @@ func (c *Conn) terminate() {
 	})
 }
 
+// remove connection from Node's and transport's caches
+// and close factory.Connection.
+func (c *Conn) remove() {
+	c.n.removeConn(c)
+
+	if c.IsTCP() {
+		c.n.TCP().closeConn(c)
+	} else {
+		c.n.UDP().closeConn(c)
+	}
+}
+
 // Close the Conn
 func (c *Conn) Close() (err error) {
 	c.terminate()
 	c.await.Wait()
+	c.remove()
 
-	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
 	// TODO: get errors from background goroutines and retrun them.
 
 	return nil
diff --git a/node/node.go b/node/node.go
index f420ad5..2ada9f9 100644
--- a/node/node.go
+++ b/node/node.go
@@ -445,6 +445,13 @@ func (n *Node) initConn(
 		}
 
 		n.onConnInit(c)
+
+		if c.IsTCP() {
+			n.TCP().addConn(c)
+		} else {
+			n.UDP().addConn(c)
+		}
+
 		go c.run()
 
 		return c, nil
@@ -511,6 +518,7 @@ func (n *Node) onConnInit(c *Conn) {
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
+	c.await.Add(1) // receiving, see (*Conn).run
 
 	close(c.initq)
 }
diff --git a/node/transports.go b/node/transports.go
index 8bec75a..636d75d 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -113,9 +113,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = t.n.initConn(fc, false); err == nil {
-		t.addConn(c)
-	} else {
+	if c, err = t.n.initConn(fc, false); err != nil {
 		t.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -141,14 +139,12 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = t.n.initConn(fc, true)
+		_, err = t.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		t.addConn(c)
-	} else {
+	if err != nil {
 		t.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -159,22 +155,18 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 }
 
 // closeConn closes factory.Connection, underlying Conn and removes it from cache
-func (t *TCP) closeConn(addr string) error {
+func (t *TCP) closeConn(c *Conn) {
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
-	if c, ok := t.cs[addr]; ok {
-		if !c.Connection.IsClosed() {
-			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
-			c.Connection.Close()
-		}
-	} else {
-		return errors.New("not found")
+	if !c.Connection.IsClosed() {
+		t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
+		c.Connection.Close()
 	}
 
-	delete(t.cs, addr)
-
-	return nil
+	if t.cs[c.Address()] == c {
+		delete(t.cs, c.Address())
+	}
 }
 
 // Discovery returns underlying MessengerFactory that
@@ -456,9 +448,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = u.n.initConn(fc, false); err == nil {
-		u.addConn(c)
-	} else {
+	if c, err = u.n.initConn(fc, false); err != nil {
 		u.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%] closing factory.Connection",
@@ -484,14 +474,12 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = u.n.initConn(fc, true)
+		_, err = u.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		u.addConn(c)
-	} else {
+	if err != nil {
 		u.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -502,22 +490,18 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 }
 
 // closeConn closes factory.Connection, underlying Conn, and removes it from cache
-func (u *UDP) closeConn(addr string) error {
+func (u *UDP) closeConn(c *Conn) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
-	if c, ok := u.cs[addr]; ok {
-		if !c.Connection.IsClosed() {
-			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
-			c.Connection.Close()
-		}
-	} else {
-		return errors.New("not found")
+	if !c.Connection.IsClosed() {
+		u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection", c.String())
+		c.Connection.Close()
 	}
 
-	delete(u.cs, addr)
-
-	return nil
+	if u.cs[c.Address()] == c {
+		delete(u.cs, c.Address())
+	}
 }
 
 // Discovery returns underlying MessengerFactory that
-- 
2.43.0


From 2b52161b49d04d2cf79067ef87e0fb0e33e13e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 060/100] fix: connections of a feed include closed and don't
 include idle ones

---
 node/conn.go | 3 ++-
 node/node.go | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 9e05720..9243c11 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -398,9 +398,10 @@ func (c *Conn) terminate() {
 	})
 }
 
-// remove connection from Node's and transport's caches
+// remove connection from feeds, Node's and transport's caches
 // and close factory.Connection.
 func (c *Conn) remove() {
+	c.n.fs.delConn(c)
 	c.n.removeConn(c)
 
 	if c.IsTCP() {
diff --git a/node/node.go b/node/node.go
index 2ada9f9..24dde92 100644
--- a/node/node.go
+++ b/node/node.go
@@ -452,6 +452,8 @@ func (n *Node) initConn(
 			n.UDP().addConn(c)
 		}
 
+		n.fs.addConnFeed(c, cipher.PubKey{}) // no feeds yet
+
 		go c.run()
 
 		return c, nil
-- 
2.43.0


From 37e5aa90adef02eb2bae562fcd0174a3536dc5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:02 +0000
Subject: [PATCH 061/100] fix: after a filling next known Root is forgotten,
 and can't be filled

---
 node/head.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/node/head.go b/node/head.go
index d3b46ad..4234583 100644
--- a/node/head.go
+++ b/node/head.go
@@ -585,22 +585,16 @@ func (k knownRoots) removeKnown(c *Conn, seq uint64) {
 // Root objects of all peers
 func (k knownRoots) moveForward(seq uint64) {
 
-	var (
-		ks uint64
-		i  int
-	)
-
 	for c, known := range k {
 
-		for i, ks = range known {
-
-			if ks >= seq {
-				k[c] = append(known[:i], known[i+1:]...)
-				break
-			}
+		var i int
 
+		for i < len(known) && known[i] < seq {
+			i++
 		}
 
+		k[c] = known[i:]
+
 	}
 
 }
-- 
2.43.0


From 5f6ea6fde37edff995e95c4c2f75cee0850c98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:02 +0000
Subject: [PATCH 062/100] fix: late response to a request of finished filling
 panics or breaks next filling

---
 node/head.go | 62 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/node/head.go b/node/head.go
index 4234583..03531a1 100644
--- a/node/head.go
+++ b/node/head.go
@@ -92,11 +92,17 @@ func (n *nodeHead) node() *Node {
 	return n.n.fs.n
 }
 
+type succeededRequest struct {
+	c *Conn             // connection
+	f *skyobject.Filler // filler of the Root
+}
+
 type failedRequest struct {
-	c   *Conn         // connection
-	seq uint64        // seq of the filling Root
-	key cipher.SHA256 // requested object
-	err error         // failed if the err is not nil
+	c   *Conn             // connection
+	f   *skyobject.Filler // filler of the Root
+	seq uint64            // seq of the filling Root
+	key cipher.SHA256     // requested object
+	err error             // failed if the err is not nil
 }
 
 // handle local "fields" of the nodeHead
@@ -118,8 +124,8 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
-	successq chan *Conn         // succeeded requests
-	failureq chan failedRequest // failed requests
+	successq chan succeededRequest // succeeded requests
+	failureq chan failedRequest    // failed requests
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
@@ -146,13 +152,14 @@ func (n *nodeHead) handle() {
 
 			ff: make(chan error), // filling error or nil (success)
 
-			successq: make(chan *Conn),         // release connection
-			failureq: make(chan failedRequest), // failed requests
+			successq: make(chan succeededRequest), // release connection
+			failureq: make(chan failedRequest),    // failed requests
 		}
 
 		key cipher.SHA256
 		c   *Conn
 		cr  connRoot
+		sr  succeededRequest
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -163,9 +170,9 @@ func (n *nodeHead) handle() {
 
 			f.handleRequest(key)
 
-		case c = <-f.successq:
+		case sr = <-f.successq:
 
-			f.handleSuccess(c)
+			f.handleSuccess(sr)
 
 		case fc = <-f.failureq:
 
@@ -221,11 +228,15 @@ func (f *fillHead) handleRequest(key cipher.SHA256) {
 	f.triggerRequest()
 }
 
-func (f *fillHead) handleSuccess(c *Conn) {
-	f.node().Debugln(FillPin, "[fill] handleSuccess", c.String())
+func (f *fillHead) handleSuccess(sr succeededRequest) {
+	f.node().Debugln(FillPin, "[fill] handleSuccess", sr.c.String())
+
+	if sr.f != f.f {
+		return // the request belongs to finished filling
+	}
 
 	f.requesting--
-	f.fc.PushBack(c) // push
+	f.fc.PushBack(sr.c) // push
 	f.triggerRequest()
 }
 
@@ -233,8 +244,6 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 	f.node().Debugln(FillPin, "[fill] handleRequestFailure", fr.c.String(),
 		fr.key.Hex()[:7])
 
-	f.requesting--
-
 	switch fr.err {
 	case ErrInvalidResponse:
 
@@ -259,6 +268,11 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 
 	}
 
+	if fr.f != f.f {
+		return // the request belongs to finished filling
+	}
+
+	f.requesting--
 	f.rqo.PushFront(fr.key) // shift
 	f.triggerRequest()
 
@@ -382,6 +396,7 @@ func (f *fillHead) closeFiller() {
 
 	f.f.Close()
 
+	f.f, f.ft, f.tc = nil, nil, nil
 	f.rqo, f.fc, f.rq = nil, nil, nil
 
 	f.r = connRoot{}
@@ -463,7 +478,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	f.requesting++
 
 	f.await.Add(1) // nodeHead.await
-	go f.request(c, f.r.r.Seq, key)
+	go f.request(c, f.f, f.r.r.Seq, key)
 
 	return
 }
@@ -474,7 +489,12 @@ func (f *fillHead) node() *Node {
 }
 
 // (async) request object
-func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
+func (f *fillHead) request(
+	c *Conn, //                : request from
+	fill *skyobject.Filler, // : filler of the Root
+	seq uint64, //             : seq of the Root
+	key cipher.SHA256, //      : the object
+) {
 	defer f.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
@@ -483,7 +503,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
 
 	if err != nil {
-		f.failureq <- failedRequest{c, seq, key, err}
+		f.failureq <- failedRequest{c, fill, seq, key, err}
 		return
 	}
 
@@ -492,7 +512,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+			f.failureq <- failedRequest{c, fill, seq, key, ErrInvalidResponse}
 			return
 		}
 
@@ -502,10 +522,10 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 			return
 		}
 
-		f.successq <- c
+		f.successq <- succeededRequest{c, fill}
 
 	default:
-		f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+		f.failureq <- failedRequest{c, fill, seq, key, ErrInvalidResponse}
 	}
 
 }
-- 
2.43.0


From 4adcc67ffc858d9a363a775558deca750dc19292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:02 +0000
Subject: [PATCH 063/100] fix: closing of a head waits for its requests for
 ever

---
 node/head.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/node/head.go b/node/head.go
index 03531a1..4a5f8fd 100644
--- a/node/head.go
+++ b/node/head.go
@@ -203,6 +203,11 @@ func (n *nodeHead) handle() {
 
 		case err = <-errq:
 
+			// release goroutines of the head
+			n.closeo.Do(func() {
+				close(n.closeq)
+			})
+
 			f.p = connRoot{} // remove pending Root
 			if f.f != nil {
 				f.f.Close()
@@ -488,6 +493,14 @@ func (f *fillHead) node() *Node {
 	return f.n.fs.n
 }
 
+// (async) the request is failed
+func (f *fillHead) failed(fr failedRequest) {
+	select {
+	case f.failureq <- fr:
+	case <-f.closeq:
+	}
+}
+
 // (async) request object
 func (f *fillHead) request(
 	c *Conn, //                : request from
@@ -503,7 +516,7 @@ func (f *fillHead) request(
 	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
 
 	if err != nil {
-		f.failureq <- failedRequest{c, fill, seq, key, err}
+		f.failed(failedRequest{c, fill, seq, key, err})
 		return
 	}
 
@@ -512,7 +525,7 @@ func (f *fillHead) request(
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.failureq <- failedRequest{c, fill, seq, key, ErrInvalidResponse}
+			f.failed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 			return
 		}
 
@@ -522,10 +535,13 @@ func (f *fillHead) request(
 			return
 		}
 
-		f.successq <- succeededRequest{c, fill}
+		select {
+		case f.successq <- succeededRequest{c, fill}:
+		case <-f.closeq:
+		}
 
 	default:
-		f.failureq <- failedRequest{c, fill, seq, key, ErrInvalidResponse}
+		f.failed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 	}
 
 }
-- 
2.43.0


From cfe6caf9e248d83a4000ccfd20a0f3689ed45c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 064/100] fix: deadlock of node, if a head sends a Root to
 subscribers while another Root is received

---
 node/feed.go  | 17 ++++++++++---
 node/feeds.go | 33 +++++++++++++++++++++-----
 node/head.go  | 66 ++++++++++++++++++++++++++++++---------------------
 3 files changed, 80 insertions(+), 36 deletions(-)

diff --git a/node/feed.go b/node/feed.go
index 6e28e65..0b8abf9 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -72,8 +72,8 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 			var tormh = n.hs[torm]
 
-			tormh.errq <- ErrMaxHeadsLimit
-			tormh.close() // wait
+			tormh.closeByError(ErrMaxHeadsLimit)
+			n.waitHead(tormh)
 
 			delete(n.hs, torm) // remove
 
@@ -87,6 +87,16 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 }
 
+// the nodeFeeds never waits a head, because the head can
+// perform a callback that waits the nodeFeeds
+func (n *nodeFeed) waitHead(nh *nodeHead) {
+	n.fs.heads.Add(1)
+	go func() {
+		defer n.fs.heads.Done()
+		nh.await.Wait()
+	}()
+}
+
 func (n *nodeFeed) close() {
 
 	if n.this == (cipher.PubKey{}) {
@@ -94,7 +104,8 @@ func (n *nodeFeed) close() {
 	}
 
 	for _, nh := range n.hs {
-		nh.close() // close head
+		nh.terminateHead() // close head
+		n.waitHead(nh)
 	}
 
 	for c := range n.cs {
diff --git a/node/feeds.go b/node/feeds.go
index d615f3c..9cb5407 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -37,7 +37,11 @@ type nodeFeeds struct {
 
 	delcq chan *Conn // delete connection (closed connection and similar)
 
-	brorq chan connRoot // broadcast root to feed (triggered by head)
+	// broadcast root to feed (triggered by head); a head
+	// never waits the nodeFeeds
+	bros  []connRoot    // in order
+	bromx sync.Mutex    // lock the bros
+	brorq chan struct{} // there are some
 
 	// info api
 
@@ -61,6 +65,7 @@ type nodeFeeds struct {
 	rrq chan connRoot // received root
 
 	await  sync.WaitGroup // wait the handle
+	heads  sync.WaitGroup // wait closing heads
 	closeo sync.Once      // once
 	closeq chan struct{}  // terminate
 }
@@ -86,7 +91,7 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 
 	n.delcq = make(chan *Conn)
 
-	n.brorq = make(chan connRoot)
+	n.brorq = make(chan struct{}, 1)
 
 	// info api
 
@@ -122,6 +127,7 @@ func (n *nodeFeeds) close() {
 		close(n.closeq)
 	})
 	n.await.Wait()
+	n.heads.Wait()
 }
 
 func (n *nodeFeeds) terminate() {
@@ -175,8 +181,10 @@ func (n *nodeFeeds) handle() {
 		case cf = <-delcfq:
 			n.handleDelConnFeed(cf)
 
-		case cr = <-broq:
-			n.handleBroadcastRoot(cr)
+		case <-broq:
+			for _, cr = range n.takeBroadcasts() {
+				n.handleBroadcastRoot(cr)
+			}
 
 		case pk = <-addq:
 			n.handleAddFeed(pk)
@@ -369,13 +377,26 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 // (bubbling api)
 func (n *nodeFeeds) broadcastRoot(cr connRoot) {
 
+	n.bromx.Lock()
+	defer n.bromx.Unlock()
+
+	n.bros = append(n.bros, cr)
+
 	select {
-	case n.brorq <- cr:
-	case <-n.closeq:
+	case n.brorq <- struct{}{}:
+	default:
 	}
 
 }
 
+func (n *nodeFeeds) takeBroadcasts() (bros []connRoot) {
+	n.bromx.Lock()
+	defer n.bromx.Unlock()
+
+	bros, n.bros = n.bros, nil
+	return
+}
+
 // (handler)
 func (n *nodeFeeds) handleBroadcastRoot(cr connRoot) {
 
diff --git a/node/head.go b/node/head.go
index 4a5f8fd..a8a972a 100644
--- a/node/head.go
+++ b/node/head.go
@@ -16,9 +16,12 @@ import (
 type nodeHead struct {
 	n *nodeFeed // back reference
 
-	delcq chan *Conn    // delete connection
-	rrq   chan connRoot // received roots
-	errq  chan error    // close with error (max heads limit)
+	// delete connection (if Root is nil), and received roots;
+	// the nodeFeeds never waits the head
+	evs  []connRoot    // in order
+	emx  sync.Mutex    // lock the evs
+	evq  chan struct{} // there are some
+	errq chan error    // close with error (max heads limit)
 
 	// api info
 
@@ -37,10 +40,9 @@ func newNodeHead(nf *nodeFeed) (n *nodeHead) {
 
 	n.n = nf
 
-	n.delcq = make(chan *Conn)
-	n.rrq = make(chan connRoot)
+	n.evq = make(chan struct{}, 1)
 
-	n.errq = make(chan error)
+	n.errq = make(chan error, 1)
 	n.closeq = make(chan struct{})
 
 	n.await.Add(1)
@@ -54,7 +56,7 @@ func (n *nodeHead) closeByError(err error) {
 
 	select {
 	case n.errq <- err:
-	case <-n.closeq:
+	default: // already
 	}
 
 }
@@ -62,29 +64,41 @@ func (n *nodeHead) closeByError(err error) {
 // (api)
 func (n *nodeHead) delConn(c *Conn) {
 
-	select {
-	case n.delcq <- c:
-	case <-n.closeq:
-	}
+	n.addEvent(connRoot{c, nil})
 
 }
 
 // (api)
 func (n *nodeHead) receivedRoot(cr connRoot) {
 
+	n.addEvent(cr)
+}
+
+func (n *nodeHead) addEvent(ev connRoot) {
+	n.emx.Lock()
+	defer n.emx.Unlock()
+
+	n.evs = append(n.evs, ev)
+
 	select {
-	case n.rrq <- cr:
-	case <-n.closeq:
+	case n.evq <- struct{}{}:
+	default:
 	}
+}
+
+func (n *nodeHead) takeEvents() (evs []connRoot) {
+	n.emx.Lock()
+	defer n.emx.Unlock()
 
+	evs, n.evs = n.evs, nil
+	return
 }
 
 // (api)
-func (n *nodeHead) close() {
+func (n *nodeHead) terminateHead() {
 	n.closeo.Do(func() {
 		close(n.closeq)
 	})
-	n.await.Wait()
 }
 
 // code readability
@@ -138,8 +152,7 @@ func (n *nodeHead) handle() {
 	defer n.await.Done()
 
 	var (
-		delcq  = n.delcq  //
-		rrq    = n.rrq    //
+		evq    = n.evq    //
 		closeq = n.closeq //
 		errq   = n.errq   //
 		inforq = n.inforq //
@@ -157,7 +170,6 @@ func (n *nodeHead) handle() {
 		}
 
 		key cipher.SHA256
-		c   *Conn
 		cr  connRoot
 		sr  succeededRequest
 		fc  failedRequest
@@ -182,13 +194,15 @@ func (n *nodeHead) handle() {
 
 			f.handleFillingResult(err)
 
-		case cr = <-rrq: // root received
-
-			f.handleReceivedRoot(cr)
+		case <-evq: // root received or delete connection
 
-		case c = <-delcq: // delete connection
-
-			f.handleDelConn(c)
+			for _, cr = range n.takeEvents() {
+				if cr.r == nil {
+					f.handleDelConn(cr.c)
+				} else {
+					f.handleReceivedRoot(cr)
+				}
+			}
 
 		case <-f.tc: // filling timeout
 
@@ -204,9 +218,7 @@ func (n *nodeHead) handle() {
 		case err = <-errq:
 
 			// release goroutines of the head
-			n.closeo.Do(func() {
-				close(n.closeq)
-			})
+			n.terminateHead()
 
 			f.p = connRoot{} // remove pending Root
 			if f.f != nil {
-- 
2.43.0


From bf4cad5573ee6fcc5d5dc869242aee4a24ebeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 065/100] fix: node panics if connection of a Root that waits
 for filling is closed or unsubscribed

---
 node/head.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/node/head.go b/node/head.go
index a8a972a..45d7157 100644
--- a/node/head.go
+++ b/node/head.go
@@ -366,8 +366,7 @@ func (f *fillHead) maxParallel() (mp int) {
 }
 
 func (f *fillHead) createFiller(cr connRoot) {
-	f.node().Debugln(FillPin, "[fill] createFiller", cr.c.String(),
-		cr.r.Short())
+	f.node().Debugln(FillPin, "[fill] createFiller", cr.r.Short())
 
 	// broadcast the Root we are going to fill
 	f.nodeHead.n.fs.broadcastRoot(cr)
-- 
2.43.0


From 678eb2a6484c7847eba1f8d9a2bfa693f5472144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 066/100] fix: limit of heads is not enforced

---
 node/feed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node/feed.go b/node/feed.go
index 0b8abf9..dc9b8f8 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -66,9 +66,8 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 			// TODO (kostyarin): container/list or own doubly linked list ?
 
 			// max heads
-			var torm = n.ho[0]             // to remove
-			copy(n.ho, n.ho[1:])           // shift all
-			n.ho[len(n.ho)-1] = cr.r.Nonce // push
+			var torm = n.ho[0] // to remove
+			n.ho = n.ho[1:]    // shift all
 
 			var tormh = n.hs[torm]
 
@@ -81,6 +80,7 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 		nh = newNodeHead(n)
 		n.hs[cr.r.Nonce] = nh
+		n.ho = append(n.ho, cr.r.Nonce) // push
 	}
 
 	nh.receivedRoot(cr)
-- 
2.43.0


From e0acd04b13536ce869c211c2b337b19ca929ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 067/100] fix: node exits if a peer sends wanted object that is
 empty or too large

---
 node/head.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node/head.go b/node/head.go
index 45d7157..d23e5c2 100644
--- a/node/head.go
+++ b/node/head.go
@@ -535,15 +535,21 @@ func (f *fillHead) request(
 	case *msg.Object:
 		var rk = cipher.SumSHA256(x.Value)
 
-		if rk != key {
+		if rk != key || len(x.Value) == 0 {
 			f.failed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 			return
 		}
 
 		// incremented by the Want call(s)
 		if _, err := f.node().c.SetWanted(key, x.Value); err != nil {
-			f.node().Fatal("DB failure:", err)
-			return
+
+			if _, ok := err.(*skyobject.ObjectIsTooLargeError); ok == false {
+				f.node().Fatal("DB failure:", err)
+				return
+			}
+
+			// the filler has already got the error
+
 		}
 
 		select {
-- 
2.43.0


From afdb04cf7efdf13c2dbb97ded4c563777ac40272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 068/100] fix: connection is closed if the peer has no wanted
 object

---
 node/head.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/head.go b/node/head.go
index d23e5c2..50b7b30 100644
--- a/node/head.go
+++ b/node/head.go
@@ -557,6 +557,10 @@ func (f *fillHead) request(
 		case <-f.closeq:
 		}
 
+	case *msg.Err:
+		// the peer hasn't got the object
+		f.failed(failedRequest{c, fill, seq, key, ErrTimeout})
+
 	default:
 		f.failed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 	}
-- 
2.43.0


From da599a015045608c70b0517c5e003948e46e4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 069/100] fix: empty object is sent to a peer instead of error

---
 node/conn.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 9243c11..7d0c3fa 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -807,7 +807,7 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	select {
 	case obj := <-gc:
 		// got
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 		return
 	default:
 		// wait
@@ -822,7 +822,7 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 
 	select {
 	case obj := <-gc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 	case <-tc:
 		c.sendMsg(c.nextSeq(), seq, &msg.Err{}) // timeout
 	case <-c.closeq:
@@ -832,6 +832,14 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	return
 }
 
+func (c *Conn) sendObject(seq uint32, obj skyobject.Object) {
+	if obj.Err != nil {
+		c.sendErr(seq, obj.Err)
+		return
+	}
+	c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+}
+
 func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 
 	c.n.Debugf(MsgReceivePin, "[%s] handleRqPreview %s", c.String(),
-- 
2.43.0


From a419d9318c97482de17d1b9e6ad3052a96eda7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 070/100] fix: Preview accepts Root of another feed

---
 node/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index 7d0c3fa..7357a19 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -340,6 +340,9 @@ func (c *Conn) Preview(
 	case *msg.Err:
 		return errors.New("error: " + x.Err)
 	case *msg.Root:
+		if x.Feed != feed {
+			return ErrInvalidResponse
+		}
 		if r, err = c.n.c.PreviewRoot(x.Feed, x.Sig, x.Value); err != nil {
 			return
 		}
-- 
2.43.0


From 659928693d8749a4a512dcf2922037f3e55c2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:48 +0000
Subject: [PATCH 071/100] fix: Preview shows feeds a node does not share

---
 node/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index 7357a19..3b5207d 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -848,6 +848,11 @@ func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 	c.n.Debugf(MsgReceivePin, "[%s] handleRqPreview %s", c.String(),
 		rqp.Feed.Hex()[:7])
 
+	if c.n.fs.hasFeed(rqp.Feed) == false {
+		c.sendErr(seq, errors.New("do not share the feed"))
+		return
+	}
+
 	var r, err = c.n.c.LastRoot(rqp.Feed, c.n.c.ActiveHead(rqp.Feed))
 
 	if err != nil {
-- 
2.43.0


From a2155c1361f9eb9b335a1f5608736206f35849b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:13 +0000
Subject: [PATCH 072/100] fix: blank feed is reported as shared

---
 node/feeds.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/node/feeds.go b/node/feeds.go
index 9cb5407..2084c43 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -477,9 +477,9 @@ func (n *nodeFeeds) list() (list []cipher.PubKey) {
 // (handler)
 func (n *nodeFeeds) handleList() {
 
-	if n.fl == nil && len(n.fs) > 1 {
+	if n.fl == nil {
 
-		var fl = make([]cipher.PubKey, 0, len(n.fl))
+		var fl = make([]cipher.PubKey, 0, len(n.fs))
 
 		for pk := range n.fs {
 
@@ -488,9 +488,10 @@ func (n *nodeFeeds) handleList() {
 			}
 
 			fl = append(fl, pk)
-			n.fl = fl
 		}
 
+		n.fl = fl
+
 	}
 
 	select {
@@ -639,6 +640,10 @@ func (n *nodeFeeds) handleHasFeed(pk cipher.PubKey) {
 
 	var _, ok = n.fs[pk]
 
+	if pk == (cipher.PubKey{}) {
+		ok = false // special case for idle connections
+	}
+
 	select {
 	case n.hasfrn <- ok:
 	case <-n.closeq:
-- 
2.43.0


From 9cb8c89e15326f302abfb32a79b62b6a547855ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:13 +0000
Subject: [PATCH 073/100] fix: a peer that does not read blocks the node and
 other peers

---
 node/conn.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 3b5207d..721fec3 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -36,6 +36,11 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
+	// messages sent in background, in order
+	pushmx sync.Mutex    // lock the pushl
+	pushl  []msg.Msg     // list of the messages
+	pushq  chan struct{} // there are some
+
 	// # stat
 	//
 	// TODO (kostyarin): stat without mutexes to do not slow down the connection
@@ -65,6 +70,8 @@ func (n *Node) newConnection(
 
 		sendq: fc.GetChanOut(),
 
+		pushq: make(chan struct{}, 1),
+
 		reqs: make(map[uint32]chan<- msg.Msg),
 	}
 
@@ -88,6 +95,8 @@ func (c *Conn) run() {
 		}
 	}()
 
+	go c.pushing() // until close signal
+
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
@@ -224,8 +233,43 @@ func (c *Conn) RemoteFeeds() (feeds []cipher.PubKey, err error) {
 	return
 }
 
+// push sends the message in background, it never waits the peer
+func (c *Conn) push(m msg.Msg) {
+	c.pushmx.Lock()
+	defer c.pushmx.Unlock()
+
+	c.pushl = append(c.pushl, m)
+
+	select {
+	case c.pushq <- struct{}{}:
+	default:
+	}
+}
+
+// (async) send messages
+func (c *Conn) pushing() {
+	for {
+		select {
+		case <-c.pushq:
+		case <-c.closeq:
+			return
+		}
+
+		c.pushmx.Lock()
+		var pushl = c.pushl
+		c.pushl = nil
+		c.pushmx.Unlock()
+
+		for _, m := range pushl {
+			if err := c.sendMsg(c.nextSeq(), 0, m); err != nil {
+				return
+			}
+		}
+	}
+}
+
 func (c *Conn) sendRoot(r *registry.Root) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Root{
+	c.push(&msg.Root{
 		Feed:  r.Pub,
 		Nonce: r.Nonce,
 		Seq:   r.Seq,
@@ -298,7 +342,7 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 
 // just send the messege
 func (c *Conn) unsubscribe(pk cipher.PubKey) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Unsub{
+	c.push(&msg.Unsub{
 		Feed: pk,
 	})
 }
-- 
2.43.0


From db5df8648ff5da9ecd7ea26534f3edfc01305628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:45 +0000
Subject: [PATCH 074/100] fix: after concurrent Subscribe, Unsubscribe, Share
 and DontShare peers disagree about feeds of a connection

---
 node/conn.go  | 158 +++++++++++++++++++++++++++++++++++++-------------
 node/feeds.go |  77 +++++++++++++++++++-----
 node/node.go  |   2 +-
 3 files changed, 183 insertions(+), 54 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 721fec3..f6a27e4 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -38,7 +38,7 @@ type Conn struct {
 
 	// messages sent in background, in order
 	pushmx sync.Mutex    // lock the pushl
-	pushl  []msg.Msg     // list of the messages
+	pushl  []pushMsg     // list of the messages
 	pushq  chan struct{} // there are some
 
 	// # stat
@@ -50,8 +50,25 @@ type Conn struct {
 	mx sync.Mutex // locks all fields below, TODO: change to RWMutex
 
 	// request - response
-	seq  uint32                    // messege seq number (for request-response)
-	reqs map[uint32]chan<- msg.Msg // requests
+	seq  uint32              // messege seq number (for request-response)
+	reqs map[uint32]*request // requests
+}
+
+// a request waits for response
+type request struct {
+	rq   chan<- msg.Msg
+	feed cipher.PubKey // feed to subscribe to (or blank)
+
+	// the Unsubscribe called after the Subscribe,
+	// before response of the Subscribe
+	cancel bool
+}
+
+// a message and seq of request it responds to
+type pushMsg struct {
+	rseq uint32
+	seq  uint32 // seq of the message (0 for next)
+	m    msg.Msg
 }
 
 func (n *Node) newConnection(
@@ -72,7 +89,7 @@ func (n *Node) newConnection(
 
 		pushq: make(chan struct{}, 1),
 
-		reqs: make(map[uint32]chan<- msg.Msg),
+		reqs: make(map[uint32]*request),
 	}
 
 	return c
@@ -234,11 +251,24 @@ func (c *Conn) RemoteFeeds() (feeds []cipher.PubKey, err error) {
 }
 
 // push sends the message in background, it never waits the peer
-func (c *Conn) push(m msg.Msg) {
+func (c *Conn) push(seq, rseq uint32, m msg.Msg) {
 	c.pushmx.Lock()
 	defer c.pushmx.Unlock()
 
-	c.pushl = append(c.pushl, m)
+	// a newer Root replaces older one
+	if r, ok := m.(*msg.Root); ok == true {
+		var pushl = make([]pushMsg, 0, len(c.pushl)+1)
+		for _, pm := range c.pushl {
+			if x, ok := pm.m.(*msg.Root); ok == true &&
+				x.Feed == r.Feed && x.Nonce == r.Nonce && x.Seq <= r.Seq {
+				continue
+			}
+			pushl = append(pushl, pm)
+		}
+		c.pushl = pushl
+	}
+
+	c.pushl = append(c.pushl, pushMsg{rseq, seq, m})
 
 	select {
 	case c.pushq <- struct{}{}:
@@ -260,8 +290,11 @@ func (c *Conn) pushing() {
 		c.pushl = nil
 		c.pushmx.Unlock()
 
-		for _, m := range pushl {
-			if err := c.sendMsg(c.nextSeq(), 0, m); err != nil {
+		for _, pm := range pushl {
+			if pm.seq == 0 {
+				pm.seq = c.nextSeq()
+			}
+			if err := c.sendMsg(pm.seq, pm.rseq, pm.m); err != nil {
 				return
 			}
 		}
@@ -269,7 +302,7 @@ func (c *Conn) pushing() {
 }
 
 func (c *Conn) sendRoot(r *registry.Root) {
-	c.push(&msg.Root{
+	c.push(0, 0, &msg.Root{
 		Feed:  r.Pub,
 		Nonce: r.Nonce,
 		Seq:   r.Seq,
@@ -315,6 +348,9 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	var reply msg.Msg
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
+
+		// the peer can receive the request and accept it
+		c.n.fs.delConnFeed(c, feed, true)
 		return
 	}
 
@@ -335,22 +371,34 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
-	c.n.fs.addConnFeed(c, feed)
 	c.sendLastRoot(feed)
 	return
 }
 
 // just send the messege
 func (c *Conn) unsubscribe(pk cipher.PubKey) {
-	c.push(&msg.Unsub{
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	// cancel all Subscribe calls that wait for response
+	for _, rq := range c.reqs {
+		if rq.feed == pk {
+			rq.cancel = true
+		}
+	}
+
+	c.push(0, 0, &msg.Unsub{
 		Feed: pk,
 	})
 }
 
 // Unsubscribe from given feed of remote peer
 func (c *Conn) Unsubscribe(feed cipher.PubKey) {
-	c.n.fs.delConnFeed(c, feed)
-	c.unsubscribe(feed) // notify peer
+	if feed == (cipher.PubKey{}) {
+		return
+	}
+
+	c.n.fs.delConnFeed(c, feed, true) // and notify peer
 	return
 }
 
@@ -541,7 +589,7 @@ func (c *Conn) receiveMsg() error {
 
 			// Handle message.
 			if rq, ok := c.takeRequest(rseq); ok == true {
-				rq <- msg // never blocks
+				c.handleResponse(rq, msg)
 				continue
 			}
 			if err := c.handle(seq, msg); err != nil {
@@ -555,18 +603,43 @@ func (c *Conn) receiveMsg() error {
 }
 
 // takeRequest returns request the rseq is response for; there
-// can be only one response, thus the request is removed
-func (c *Conn) takeRequest(rseq uint32) (rq chan<- msg.Msg, ok bool) {
+// can be only one response, thus the request is marked
+func (c *Conn) takeRequest(rseq uint32) (rq *request, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
 	if rq, ok = c.reqs[rseq]; ok == true {
-		delete(c.reqs, rseq)
+		ok = (rq.rq != nil)
 	}
 	return
 }
 
-func (c *Conn) addRequest(seq uint32, rq chan<- msg.Msg) {
+// handleResponse adds feed to the connection, if the response
+// accepts subscription, and sends the response to the request
+func (c *Conn) handleResponse(rq *request, m msg.Msg) {
+
+	if _, ok := m.(*msg.Ok); ok == true && rq.feed != (cipher.PubKey{}) {
+		if c.n.fs.addConnFeed(connFeed{c: c, f: rq.feed, rq: rq}) == false {
+			m = &msg.Err{Err: ErrUnsubscribe.Error()}
+		}
+	}
+
+	c.mx.Lock()
+	var rc = rq.rq
+	rq.rq = nil
+	c.mx.Unlock()
+
+	rc <- m // never blocks
+}
+
+func (c *Conn) isCanceled(rq *request) bool {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	return rq.cancel
+}
+
+func (c *Conn) addRequest(seq uint32, rq *request) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
@@ -610,11 +683,14 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		seq = c.nextSeq()
 	)
 
-	c.addRequest(seq, rq)
+	if sub, ok := m.(*msg.Sub); ok == true {
+		c.sendSub(seq, &request{rq: rq, feed: sub.Feed}, sub)
+	} else {
+		c.addRequest(seq, &request{rq: rq})
+		c.sendMsg(seq, 0, m)
+	}
 	defer c.delRequest(seq)
 
-	c.sendMsg(seq, 0, m)
-
 	select {
 	case reply = <-rq:
 		return
@@ -628,12 +704,21 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 
 }
 
+// Sub and Unsub messages must be sent in order
+func (c *Conn) sendSub(seq uint32, rq *request, sub *msg.Sub) {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	c.reqs[seq] = rq
+	c.push(seq, 0, sub)
+}
+
 func (c *Conn) sendErr(rseq uint32, err error) {
 	c.sendMsg(c.nextSeq(), rseq, &msg.Err{Err: err.Error()})
 }
 
 func (c *Conn) sendOk(rseq uint32) {
-	c.sendMsg(c.nextSeq(), rseq, &msg.Ok{})
+	c.push(0, rseq, &msg.Ok{})
 }
 
 // handle messeges except responses and handshakes
@@ -713,35 +798,28 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 		return errors.New("blank public key") // fatal (invalid request)
 	}
 
-	// check first
-	if c.n.fs.hasConnFeed(c, sub.Feed) == true {
-		c.sendOk(seq) // already subscribed
-		return
-	}
+	// callback, if is not subscribed already
+	if c.n.fs.hasConnFeed(c, sub.Feed) == false {
 
-	// callback
-	var reject = c.n.onSubscribeRemote(c, sub.Feed)
+		// reject subscription by callback
+		if reject := c.n.onSubscribeRemote(c, sub.Feed); reject != nil {
+			c.sendErr(seq, reject)
+			return
+		}
 
-	// reject subscription by callback
-	if reject != nil {
-		c.sendErr(seq, reject)
-		return
 	}
 
 	// the callback can subscibe the node to the feed,
 	// and anyway we can't subscribe to a feed we don't
 	// share
 
-	if c.n.fs.hasFeed(sub.Feed) == false {
+	// add, and send Ok
+
+	if c.n.fs.addConnFeed(connFeed{c: c, f: sub.Feed, rseq: seq}) == false {
 		c.sendErr(seq, errors.New("do not share the feed"))
 		return
 	}
 
-	// ok
-
-	c.n.fs.addConnFeed(c, sub.Feed)
-	c.sendOk(seq)
-
 	c.sendLastRoot(sub.Feed) // and push last Root
 
 	return
@@ -757,7 +835,7 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
-	c.n.fs.delConnFeed(c, unsub.Feed) // delete
+	c.n.fs.delConnFeed(c, unsub.Feed, false) // delete
 	return
 }
 
diff --git a/node/feeds.go b/node/feeds.go
index 2084c43..161f7f3 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -18,6 +18,11 @@ type connRoot struct {
 type connFeed struct {
 	c *Conn
 	f cipher.PubKey
+
+	rseq uint32   // send Ok to the request of the peer (add)
+	rq   *request // own request (add)
+
+	notify bool // send Unsub to the peer (del)
 }
 
 // feeds of the Node
@@ -33,6 +38,7 @@ type nodeFeeds struct {
 	delq chan cipher.PubKey // del feed
 
 	addcfq chan connFeed // add connection to a feed
+	addcfb chan bool     // add connection to a feed boolean reply
 	delcfq chan connFeed // del connection from a feed
 
 	delcq chan *Conn // delete connection (closed connection and similar)
@@ -87,6 +93,7 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 	n.delq = make(chan cipher.PubKey) // del feed
 
 	n.addcfq = make(chan connFeed) // add connection to a feed
+	n.addcfb = make(chan bool)
 	n.delcfq = make(chan connFeed) // del connection from a feed
 
 	n.delcq = make(chan *Conn)
@@ -296,16 +303,27 @@ func (n *nodeFeeds) handleDelFeed(pk cipher.PubKey) {
 	delete(n.fs, pk)
 	n.fl = nil
 
+	for c := range nf.cs {
+		n.addIdle(c)
+	}
+
 }
 
 // (api)
-func (n *nodeFeeds) addConnFeed(c *Conn, pk cipher.PubKey) {
+func (n *nodeFeeds) addConnFeed(cf connFeed) (added bool) {
+
+	select {
+	case n.addcfq <- cf:
+	case <-n.closeq:
+		return
+	}
 
 	select {
-	case n.addcfq <- connFeed{c, pk}:
+	case added = <-n.addcfb:
 	case <-n.closeq:
 	}
 
+	return
 }
 
 // (handler)
@@ -313,30 +331,55 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleAddConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
+	select {
+	case n.addcfb <- n.addConn(cf):
+	case <-n.closeq:
+	}
+
+}
+
+func (n *nodeFeeds) addConn(cf connFeed) (added bool) {
+
 	// if the cf.f is blank the this connection is new
 
 	if cf.f == (cipher.PubKey{}) {
 		n.fs[cipher.PubKey{}].addConn(cf.c)
+		return true
+	}
+
+	// the Unsub already sent
+
+	if cf.rq != nil && cf.c.isCanceled(cf.rq) == true {
 		return
 	}
 
 	var nf, ok = n.fs[cf.f]
 
 	if ok == false {
-		nf = newNodeFeed(n, cf.f)
-		n.fs[cf.f] = nf
+
+		// the feed is not shared anymore
+
+		if cf.rq != nil {
+			cf.c.unsubscribe(cf.f)
+		}
+		return
 	}
 
 	nf.addConn(cf.c)
 	n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
 
+	if cf.rq == nil {
+		cf.c.sendOk(cf.rseq)
+	}
+
+	return true
 }
 
 // (api)
-func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey) {
+func (n *nodeFeeds) delConnFeed(c *Conn, pk cipher.PubKey, notify bool) {
 
 	select {
-	case n.delcfq <- connFeed{c, pk}:
+	case n.delcfq <- connFeed{c: c, f: pk, notify: notify}:
 	case <-n.closeq:
 	}
 
@@ -347,16 +390,24 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleDelConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
+	if cf.notify == true {
+		cf.c.unsubscribe(cf.f)
+	}
+
 	var nf, ok = n.fs[cf.f]
 
-	if ok == false {
-		return // no such feed
+	if ok == false || nf.hasConn(cf.c) == false {
+		return // no such feed, or is not subscribed
 	}
 
 	nf.delConn(cf.c)
+	n.addIdle(cf.c)
+
+}
 
-	// if the connection does't share a feed, then
-	// we put it to idle
+// if the connection does't share a feed, then
+// we put it to idle
+func (n *nodeFeeds) addIdle(c *Conn) {
 
 	for pk, nf := range n.fs {
 
@@ -364,13 +415,13 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 			continue // avoid map lookup
 		}
 
-		if nf.hasConn(cf.c) == true {
+		if nf.hasConn(c) == true {
 			return
 		}
 
 	}
 
-	n.fs[cipher.PubKey{}].addConn(cf.c) // add to idle
+	n.fs[cipher.PubKey{}].addConn(c) // add to idle
 
 }
 
@@ -588,7 +639,7 @@ func (n *nodeFeeds) handleConnectionsOfFeed(pk cipher.PubKey) {
 func (n *nodeFeeds) hasConnFeed(c *Conn, pk cipher.PubKey) (yep bool) {
 
 	select {
-	case n.hascfrq <- connFeed{c, pk}:
+	case n.hascfrq <- connFeed{c: c, f: pk}:
 	case <-n.closeq:
 		return
 	}
diff --git a/node/node.go b/node/node.go
index 24dde92..ecccebd 100644
--- a/node/node.go
+++ b/node/node.go
@@ -452,7 +452,7 @@ func (n *Node) initConn(
 			n.UDP().addConn(c)
 		}
 
-		n.fs.addConnFeed(c, cipher.PubKey{}) // no feeds yet
+		n.fs.addConnFeed(connFeed{c: c}) // no feeds yet
 
 		go c.run()
 
-- 
2.43.0


From d7d152e635633a52924340c63dc82f148802f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:45 +0000
Subject: [PATCH 075/100] fix: OnUnsubscribeRemote is never called

---
 node/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index f6a27e4..70a5ba2 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -835,7 +835,12 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
+	if c.n.fs.hasConnFeed(c, unsub.Feed) == false {
+		return // is not subscribed
+	}
+
 	c.n.fs.delConnFeed(c, unsub.Feed, false) // delete
+	c.n.onUnsubscribeRemote(c, unsub.Feed)   // callback
 	return
 }
 
-- 
2.43.0


From c407f47699eb17fc54bc8ff510a8e945b21dd2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 076/100] fix: Subscribe fails by timeout but connection gets
 the feed

---
 node/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 70a5ba2..1b27f54 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -650,7 +650,10 @@ func (c *Conn) delRequest(seq uint32) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	delete(c.reqs, seq)
+	if rq, ok := c.reqs[seq]; ok == true {
+		rq.cancel = true // if the response is being handled
+		delete(c.reqs, seq)
+	}
 }
 
 func (c *Conn) responseTimeout() (rt time.Duration) {
-- 
2.43.0


From 9bffe9051457535b2a0542f4cfcc0c4e4ed0191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 077/100] fix: closing of a node hangs, and leaves goroutines
 and a handshake

---
 node/node.go  | 91 +++++++++++++++++++++++++++++++++++++--------------
 node/swarm.go | 12 +++----
 2 files changed, 73 insertions(+), 30 deletions(-)

diff --git a/node/node.go b/node/node.go
index ecccebd..ea43f4e 100644
--- a/node/node.go
+++ b/node/node.go
@@ -79,8 +79,9 @@ type Node struct {
 	//  closing
 	//
 
-	await  sync.WaitGroup // wait for goroutines
-	closeo sync.Once      // close once
+	await    sync.WaitGroup // wait for goroutines
+	closeo   sync.Once      // close once
+	isClosed bool           // no connections and swarms after
 }
 
 // NewNode creates new Node instance using provided
@@ -438,13 +439,18 @@ func (n *Node) initConn(
 
 	// In case of new connection perform/accept handshake.
 	case isNew:
+		defer n.await.Done()
+
 		if err = c.handshake(); err != nil {
 			err = fmt.Errorf("handshake failed: %s", err)
 			n.onConnInitErr(c, err)
 			return nil, err
 		}
 
-		n.onConnInit(c)
+		if err = n.onConnInit(c); err != nil {
+			n.onConnInitErr(c, err)
+			return nil, err
+		}
 
 		if c.IsTCP() {
 			n.TCP().addConn(c)
@@ -481,6 +487,10 @@ func (n *Node) onNewConn(
 		return c, false, true, nil
 	}
 
+	if n.isClosed == true {
+		return nil, false, false, ErrClosed
+	}
+
 	// Check limits for number of open connections.
 	if mc := n.config.MaxConnections; mc > 0 &&
 		len(n.pendConns)+len(n.addrToConn) >= mc {
@@ -495,6 +505,8 @@ func (n *Node) onNewConn(
 	c = n.newConnection(fc, isIncoming)
 	n.pendConns[addr] = c
 
+	n.await.Add(1) // handshake
+
 	return c, true, false, nil
 }
 
@@ -513,16 +525,22 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 
 // onConnInit atomically moves pending connection to cache
 // and singals about initConn success.
-func (n *Node) onConnInit(c *Conn) {
+func (n *Node) onConnInit(c *Conn) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.isClosed == true {
+		return ErrClosed
+	}
+
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
 	c.await.Add(1) // receiving, see (*Conn).run
 
 	close(c.initq)
+
+	return nil
 }
 
 // removeConn reomoves connection from cache.
@@ -735,38 +753,60 @@ func (n *Node) Stat() (s *Stat) {
 // of (skyobject.Container).Close once.
 func (n *Node) Close() (err error) {
 	n.closeo.Do(func() {
+
+		// Goroutines to wait for need the lock, thus
+		// don't wait them under the lock.
 		n.mx.Lock()
-		defer n.mx.Unlock()
+		n.isClosed = true
+
+		var (
+			ss  []*Swarm
+			cs  []*Conn
+			tcp = n.tcp
+			udp = n.udp
+		)
+		for _, s := range n.ss {
+			ss = append(ss, s)
+		}
+		for _, c := range n.pendConns {
+			c.terminate()
+		}
+		for _, c := range n.addrToConn {
+			cs = append(cs, c)
+		}
+		n.mx.Unlock()
+
+		if n.rpc != nil {
+			n.rpc.Close()
+		}
 
 		// Shutdown peer exchange.
-		for _, s := range n.ss {
+		for _, s := range ss {
 			s.shutdown()
 		}
 
 		// Close all connections.
-		for _, c := range n.pendConns {
-			c.Close()
-		}
-		for _, c := range n.pkToConn {
+		for _, c := range cs {
 			c.Close()
 		}
 
 		// Shutdown all transports.
-		if n.tcp != nil {
-			n.tcp.Close()
-		}
-		if n.udp != nil {
-			n.udp.Close()
+		if tcp != nil {
+			tcp.Close()
 		}
-		if n.rpc != nil {
-			n.rpc.Close()
+		if udp != nil {
+			udp.Close()
 		}
 
+		// Wait for handshakes and RPC.
+		n.await.Wait()
+
+		// Terminate fillings.
+		n.fs.close()
+
 		// Close database.
 		err = n.c.Close()
 
-		n.await.Wait()
-
 	})
 
 	return
@@ -778,6 +818,10 @@ func (n *Node) JoinSwarm(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.isClosed == true {
+		return nil, ErrClosed
+	}
+
 	if s, ok := n.ss[feed]; ok {
 		return s, nil
 	}
@@ -793,16 +837,15 @@ func (n *Node) JoinSwarm(
 
 func (n *Node) LeaveSwarm(feed cipher.PubKey) error {
 	n.mx.Lock()
-	defer n.mx.Unlock()
-
 	s, ok := n.ss[feed]
+	delete(n.ss, feed)
+	n.mx.Unlock()
+
 	if !ok {
 		return errors.New("node is not in swarm")
 	}
 
-	s.shutdown()
-
-	delete(n.ss, feed)
+	s.shutdown() // the swarm needs the lock
 
 	return nil
 }
diff --git a/node/swarm.go b/node/swarm.go
index 37195f7..32d6af1 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -77,8 +77,9 @@ type Swarm struct {
 
 	node *Node
 
-	quit chan struct{}
-	done chan struct{}
+	quit  chan struct{}
+	quito sync.Once
+	done  chan struct{}
 
 	mu sync.RWMutex
 
@@ -191,10 +192,7 @@ LOOP:
 		select {
 		case <-s.quit:
 			break LOOP
-		default:
-		}
 
-		select {
 		case <-requestPeers:
 			if s.needPeers() {
 				s.requestPeers()
@@ -214,7 +212,9 @@ LOOP:
 }
 
 func (s *Swarm) shutdown() {
-	close(s.quit)
+	s.quito.Do(func() {
+		close(s.quit)
+	})
 	<-s.done
 }
 
-- 
2.43.0


From 99c88df53b0ec0db821af9b9bc69f0b18e387f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 078/100] fix: known peer can't be updated if the list of peers
 is full

---
 node/swarm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 32d6af1..316379c 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -139,7 +139,7 @@ func (s *Swarm) AddPeer(
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if uint64(len(s.peers)) >= s.cfg.MaxPeers {
+	if _, ok := s.peers[pk]; !ok && uint64(len(s.peers)) >= s.cfg.MaxPeers {
 		return fmt.Errorf("maximum number of peers exceeded")
 	}
 
-- 
2.43.0


From 27c93d1d13c07944abbe25605bbcca8b1e79fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 079/100] fix: peers received from other peers are added under
 blank key

---
 node/swarm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 316379c..2688d52 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -325,7 +325,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	// Update existing peers or add new one
 	for _, pi := range peers {
 		p, ok := s.peers[pi.PubKey]
-		if !ok {
+		if ok {
 			s.node.Debugf(PEXPin, "updating last seen time of peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			p.seen()
@@ -341,6 +341,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			p = msgToPeer(pi)
+			p.seen()
 			s.onPeerAdded(p)
 		}
 
-- 
2.43.0


From 0b6683f2f33fc5e08a239e23147d2c0776047d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 080/100] fix: known peers are not updated, or take place of
 new, near the limit of peers

---
 node/swarm.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 2688d52..9985541 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -288,12 +288,6 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	s.node.Debugf(PEXPin, "adding %d peers for feed %s",
 		len(peers), s.feed.Hex()[:8])
 
-	if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
-		s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
-			s.feed.Hex()[:8])
-		return
-	}
-
 	// Validate peers
 	var validPeers []msg.PeerInfo
 	for _, pi := range peers {
@@ -309,20 +303,12 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	}
 	peers = validPeers
 
-	// Shuffle and cap peers
+	// Shuffle peers
 	mathrand.Shuffle(len(peers), func(i, j int) {
 		peers[i], peers[j] = peers[j], peers[i]
 	})
-	if s.cfg.MaxPeers > 0 {
-		rcap := s.cfg.MaxPeers - uint64(len(s.peers))
-		if uint64(len(peers)) > rcap {
-			s.node.Debugf(PEXPin, "capping number of peers to be added for feed %s to %d",
-				s.feed.Hex()[:8], rcap)
-			peers = peers[:rcap]
-		}
-	}
 
-	// Update existing peers or add new one
+	// Update existing peers or add new one, up to the limit
 	for _, pi := range peers {
 		p, ok := s.peers[pi.PubKey]
 		if ok {
@@ -337,6 +323,12 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 				s.onPeerUpdated(p)
 			}
 		} else {
+			if uint64(len(s.peers)) >= s.cfg.MaxPeers {
+				s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
+					s.feed.Hex()[:8])
+				continue
+			}
+
 			s.node.Debugf(PEXPin, "adding new peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
-- 
2.43.0


From 07bbce34bce7ea2dfb0563a330a65aca2f5aabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 081/100] fix: successful connection makes number of retries of
 a peer huge

---
 node/swarm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 9985541..b228daa 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -489,7 +489,7 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 		return errPeerNotFound
 	}
 
-	p.RetryTimes--
+	p.RetryTimes = 0
 	s.peers[pk] = p
 
 	return nil
-- 
2.43.0


From d96b91911fae6fdbd092641d3fe618eb09d00b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 082/100] fix: peer without address is considered to be the
 node itself

---
 node/swarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index b228daa..0507a6a 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -345,10 +345,10 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 	if p.PubKey == s.node.ID() {
 		return true, "pubkey is same"
 	}
-	if p.TCPAddr == s.node.TCP().Address() {
+	if p.TCPAddr != "" && p.TCPAddr == s.node.TCP().Address() {
 		return true, "tcp address is same"
 	}
-	if p.UDPAddr == s.node.UDP().Address() {
+	if p.UDPAddr != "" && p.UDPAddr == s.node.UDP().Address() {
 		return true, "udp address is saem"
 	}
 
-- 
2.43.0


From 785a1460beb115bdb3a5e67fa8c3434e8594f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 083/100] fix: peers of another feed are added to a swarm

---
 node/swarm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node/swarm.go b/node/swarm.go
index 0507a6a..03b214f 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -251,6 +251,7 @@ func (s *Swarm) requestPeers() {
 				if m.Feed != s.feed {
 					err = errors.New("received peers for wrong feed")
 					// TODO: maybe call s.incPeerRetryTimes(c.PeerID())
+					break
 				}
 				s.addPeers(m.List)
 
-- 
2.43.0


From 0787a1cb2dc5154de632f375b74d9cb58a4b661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 084/100] fix: node that left a swarm closes connections with
 other nodes of the swarm

---
 node/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 1b27f54..6bd6423 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -1011,7 +1011,7 @@ func (c *Conn) handleRqPeers(seq uint32, rqp *msg.RqPeers) error {
 	s, ok := c.n.InSwarm(rqp.Feed)
 	if !ok {
 		c.sendMsg(c.nextSeq(), seq, &msg.Err{Err: "not in swarm"})
-		return errors.New("node in not in swarm")
+		return nil
 	}
 
 	peers := s.peersForExchange(c.PeerID())
-- 
2.43.0


From 6613c723e7206b7877ca25543631c569d9ff3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 085/100] fix: RPC methods of UDP use TCP

---
 node/rpc.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/node/rpc.go b/node/rpc.go
index 9aadebb..328916f 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -236,14 +236,14 @@ type UDPRPC struct {
 
 // Connect is RPC method
 func (u *UDPRPC) Connect(address string, _ *struct{}) (err error) {
-	_, err = u.n.TCP().Connect(address)
+	_, err = u.n.UDP().Connect(address)
 	return
 }
 
 // Disconnect is RPC method
 func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			err = c.Close()
 		}
 	}
@@ -252,8 +252,8 @@ func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
 
 // Subscribe is RPC method
 func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			return c.Subscribe(cf.Feed)
 		}
 		return errors.New("no such connection")
@@ -263,8 +263,8 @@ func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
 
 // Unsubscribe is RPC method
 func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			c.Unsubscribe(cf.Feed)
 			return
 		}
@@ -275,8 +275,8 @@ func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
 
 // RemoteFeeds is RPC method
 func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			var rf []cipher.PubKey
 			if rf, err = c.RemoteFeeds(); err != nil {
 				return
@@ -291,8 +291,8 @@ func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
 
 // Address is RPC method
 func (u *UDPRPC) Address(_ struct{}, address *string) (_ error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		*address = tcp.Address()
+	if udp := u.n.getUDP(); udp != nil {
+		*address = udp.Address()
 		return
 	}
 	return errors.New("to UDP transport")
-- 
2.43.0


From 531038af29ed6b65380f447feefbc9b4f8defade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 086/100] fix: a peer subscribed while the node fills a Root
 never gets the Root

---
 node/head.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/node/head.go b/node/head.go
index 50b7b30..26a97cc 100644
--- a/node/head.go
+++ b/node/head.go
@@ -131,6 +131,8 @@ type fillHead struct {
 	ft *time.Timer      // fill timeout
 	tc <-chan time.Time // ------------
 
+	failing bool // the filler is told to fail
+
 	tp   time.Time          // start point (start filling, for stat)
 	favg *statutil.Duration // average filling time
 
@@ -207,6 +209,7 @@ func (n *nodeHead) handle() {
 		case <-f.tc: // filling timeout
 
 			if f.f != nil {
+				f.failing = true
 				f.f.Fail(ErrTimeout)
 			}
 
@@ -307,11 +310,21 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 			return // ignore the old Root
 		}
 
-		f.cs.addKnown(cr.c, cr.r.Seq) // add to known
+		var added = f.cs.addKnown(cr.c, cr.r.Seq) // add to known
 
 		if cr.r.Seq == f.r.r.Seq {
-			f.fc.PushBack(cr.c) // add to filling connections
-			f.triggerRequest()
+
+			if f.failing == true {
+				if f.p.r == nil {
+					f.p = cr // try again
+				}
+				return
+			}
+
+			if added == true {
+				f.fc.PushBack(cr.c) // add to filling connections
+				f.triggerRequest()
+			}
 			return
 		}
 
@@ -417,6 +430,7 @@ func (f *fillHead) closeFiller() {
 
 	f.r = connRoot{}
 	f.requesting = 0
+	f.failing = false
 
 }
 
@@ -428,6 +442,15 @@ func (f *fillHead) handleFillingResult(err error) {
 		f.node().onRootFilled(f.r.r)     // callback
 		f.favg.Add(time.Now().Sub(f.tp)) // average time
 		f.cs.moveForward(f.r.r.Seq + 1)  // move forward
+
+		// the Root was broadcasted before the filling, peers
+		// subscribed after that, or failed to fill the Root
+		// because the node had not got it, don't have it yet
+		f.nodeHead.n.fs.broadcastRoot(f.r)
+
+		if f.p.r != nil && f.p.r.Seq <= f.r.r.Seq {
+			f.p = connRoot{} // already
+		}
 	} else {
 		f.node().onFillingBreaks(f.r.r, err) // callback
 	}
@@ -453,6 +476,7 @@ func (f *fillHead) triggerRequest() {
 
 	if fatal := f.tryRequest(); fatal == true {
 		if f.f != nil {
+			f.failing = true
 			f.f.Fail(ErrNoConnectionsToFillFrom)
 		}
 	}
@@ -586,13 +610,13 @@ func (f *fillHead) terminate() {
 
 type knownRoots map[*Conn][]uint64
 
-func (k knownRoots) addKnown(c *Conn, seq uint64) {
+func (k knownRoots) addKnown(c *Conn, seq uint64) (added bool) {
 
 	var known, ok = k[c]
 
 	if ok == false {
 		k[c] = []uint64{seq}
-		return
+		return true
 	}
 
 	for i, ks := range known {
@@ -606,7 +630,7 @@ func (k knownRoots) addKnown(c *Conn, seq uint64) {
 		if ks > seq {
 			known = append(known[:i], append([]uint64{seq}, known[i:]...)...)
 			k[c] = known
-			return
+			return true
 		}
 
 	}
@@ -615,6 +639,7 @@ func (k knownRoots) addKnown(c *Conn, seq uint64) {
 	known = append(known, seq)
 	k[c] = known
 
+	return true
 }
 
 // remove known Root object from a connection, from which
-- 
2.43.0


From f7d1099ac23cfb2640ad5ea095ee910fc9e3cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 087/100] fix: a Root received from two peers can be filled
 twice

---
 node/head.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node/head.go b/node/head.go
index 26a97cc..7035678 100644
--- a/node/head.go
+++ b/node/head.go
@@ -356,6 +356,13 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 
 	// else -> the f.r.r is nil (there aren't)
 
+	// the Root can be filled after the connection has received it
+	last, err := f.node().c.LastRootSeq(cr.r.Pub, cr.r.Nonce)
+
+	if err == nil && last >= cr.r.Seq {
+		return // ignore the old Root
+	}
+
 	f.cs.addKnown(cr.c, cr.r.Seq) // add connection to known
 
 	// callback
-- 
2.43.0


From 41719f11426babdbfd21df0d15c5d3addb2344d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 088/100] fix: NewNode with invalid secret key leaves the
 database open

---
 node/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index ea43f4e..c18f18d 100644
--- a/node/node.go
+++ b/node/node.go
@@ -107,7 +107,11 @@ func NewNode(conf *Config) (n *Node, err error) {
 		return
 	}
 
-	return NewNodeContainer(conf, c)
+	if n, err = NewNodeContainer(conf, c); n == nil {
+		c.Close() // not used
+	}
+
+	return
 }
 
 // NewNodeContainer use provided Container.
-- 
2.43.0


From 087a9fbbdb01385d9c214849a8e842ab9f13624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:29 +0000
Subject: [PATCH 089/100] fix: peer exchange accepts addresses with whitespaces

---
 node/swarm.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 03b214f..6b2c324 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"net"
-	"regexp"
 	"strconv"
 	"strings"
 	"sync"
@@ -588,11 +587,8 @@ func (s *Swarm) validatePeer(pk cipher.PubKey, tcp, udp string) error {
 }
 
 func validateAddress(addr string) error {
-	var (
-		whitespaceFilter = regexp.MustCompile(`\s`)
-		ipPort           = whitespaceFilter.ReplaceAllString(addr, "")
-		split            = strings.Split(ipPort, ":")
-	)
+	// the address is used as is, it can't contain whitespaces
+	var split = strings.Split(addr, ":")
 	if len(split) != 2 {
 		return errors.New("invalid format")
 	}
-- 
2.43.0


From 16fdb675009dd2a21b3c9617f881965e34fd2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:41 +0000
Subject: [PATCH 090/100] fix: RPC method Config always fails

---
 data/data.go | 11 +++++++++++
 node/rpc.go  | 15 +++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 8be4ef1..2e8cf40 100644
--- a/data/data.go
+++ b/data/data.go
@@ -42,6 +42,17 @@ func (d *DB) Close() (err error) {
 	return
 }
 
+// GobEncode implements gob.GobEncoder. The DB is a part of
+// configurations, that are sent by RPC, but it can't be sent
+func (d *DB) GobEncode() (_ []byte, _ error) {
+	return
+}
+
+// GobDecode implements gob.GobDecoder
+func (d *DB) GobDecode([]byte) (_ error) {
+	return
+}
+
 // NewDB creates DB by given CXDS and IdxDB.
 // The arguments must not be nil
 func NewDB(cxds CXDS, idxdb IdxDB) *DB {
diff --git a/node/rpc.go b/node/rpc.go
index 328916f..df56145 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -141,9 +141,20 @@ func (r *RPC) ConnectionsOfFeed(feed cipher.PubKey, cs *[]string) (_ error) {
 
 // Config is RPC method
 func (r *RPC) Config(_ struct{}, config *Config) (err error) {
-	*config = *r.n.config // copy
+	var (
+		c  = *r.n.config // copy
+		sc = *c.Config   // copy
+	)
+
+	// some fields can't be, and the secret
+	// key must not be, sent
+	c.SecKey = cipher.SecKey{}
+	c.Logger.Output = nil
+	sc.DB = nil
+	c.Config = &sc
+
+	*config = c
 	return
-
 }
 
 // Stat is RPC method
-- 
2.43.0


From c73ae071f3108671942cebd22d16f00eebf9616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:18 +0000
Subject: [PATCH 091/100] fix: RPC clients stay connected to closed Node

---
 node/rpc.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/node/rpc.go b/node/rpc.go
index df56145..cf14846 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"net"
 	"net/rpc"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
@@ -15,6 +16,10 @@ type rpcServer struct {
 	l net.Listener // underlying listener
 	r *rpc.Server  //
 	n *Node        // back reference
+
+	mx       sync.Mutex
+	cs       map[net.Conn]struct{} // connected clients
+	isClosed bool
 }
 
 // create RPC server
@@ -22,6 +27,7 @@ func (n *Node) newRPC() (r *rpcServer) {
 	r = new(rpcServer)
 	r.n = n
 	r.r = rpc.NewServer()
+	r.cs = make(map[net.Conn]struct{})
 	return
 }
 
@@ -46,7 +52,44 @@ func (r *rpcServer) Listen(address string) (err error) {
 
 func (r *rpcServer) run() {
 	defer r.n.await.Done()
-	r.r.Accept(r.l)
+
+	for {
+		var c, err = r.l.Accept()
+		if err != nil {
+			return // closed
+		}
+		if r.addConn(c) == false {
+			c.Close()
+			return // closed
+		}
+		r.n.await.Add(1)
+		go r.serve(c)
+	}
+}
+
+func (r *rpcServer) serve(c net.Conn) {
+	defer r.n.await.Done()
+	defer r.delConn(c)
+
+	r.r.ServeConn(c)
+}
+
+func (r *rpcServer) addConn(c net.Conn) (ok bool) {
+	r.mx.Lock()
+	defer r.mx.Unlock()
+
+	if r.isClosed == true {
+		return
+	}
+	r.cs[c] = struct{}{}
+	return true
+}
+
+func (r *rpcServer) delConn(c net.Conn) {
+	r.mx.Lock()
+	defer r.mx.Unlock()
+
+	delete(r.cs, c)
 }
 
 func (r *rpcServer) Address() (address string) {
@@ -60,6 +103,14 @@ func (r *rpcServer) Close() (err error) {
 	if r.l != nil {
 		err = r.l.Close()
 	}
+
+	r.mx.Lock()
+	defer r.mx.Unlock()
+
+	r.isClosed = true
+	for c := range r.cs {
+		c.Close()
+	}
 	return
 }
 
-- 
2.43.0


From e9812f131e96b260889d6254f8152fc48087b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 092/100] fix: a Root is not sent back to a peer failed to fill
 it

---
 node/head.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/node/head.go b/node/head.go
index 7035678..4e0276d 100644
--- a/node/head.go
+++ b/node/head.go
@@ -140,6 +140,10 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
+	// busy connections that sent the filling Root again
+	// after last request started
+	again map[*Conn]struct{}
+
 	successq chan succeededRequest // succeeded requests
 	failureq chan failedRequest    // failed requests
 
@@ -163,6 +167,7 @@ func (n *nodeHead) handle() {
 			nodeHead: n,
 			rq:       make(chan cipher.SHA256, 10),
 			cs:       make(knownRoots),
+			again:    make(map[*Conn]struct{}),
 			favg:     n.node().fillavg, // reference
 
 			ff: make(chan error), // filling error or nil (success)
@@ -279,6 +284,16 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 
 	case ErrTimeout:
 
+		if _, ok := f.again[fr.c]; ok == true && fr.f == f.f {
+
+			// the peer didn't have the object,
+			// but it can have filled the Root since
+			delete(f.again, fr.c)
+			f.fc.PushBack(fr.c)
+			break
+
+		}
+
 		// probably don't have object we're requesting anymore
 		f.cs.removeKnown(fr.c, fr.seq)
 
@@ -324,6 +339,8 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 			if added == true {
 				f.fc.PushBack(cr.c) // add to filling connections
 				f.triggerRequest()
+			} else {
+				f.again[cr.c] = struct{}{}
 			}
 			return
 		}
@@ -436,6 +453,7 @@ func (f *fillHead) closeFiller() {
 	f.rqo, f.fc, f.rq = nil, nil, nil
 
 	f.r = connRoot{}
+	f.again = make(map[*Conn]struct{})
 	f.requesting = 0
 	f.failing = false
 
@@ -452,8 +470,9 @@ func (f *fillHead) handleFillingResult(err error) {
 
 		// the Root was broadcasted before the filling, peers
 		// subscribed after that, or failed to fill the Root
-		// because the node had not got it, don't have it yet
-		f.nodeHead.n.fs.broadcastRoot(f.r)
+		// because the node had not got it, don't have it yet;
+		// the peer the Root received from can be such a peer too
+		f.nodeHead.n.fs.broadcastRoot(connRoot{nil, f.r.r})
 
 		if f.p.r != nil && f.p.r.Seq <= f.r.r.Seq {
 			f.p = connRoot{} // already
@@ -523,6 +542,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	// do the request
 
 	f.requesting++
+	delete(f.again, c)
 
 	f.await.Add(1) // nodeHead.await
 	go f.request(c, f.f, f.r.r.Seq, key)
@@ -600,6 +620,7 @@ func (f *fillHead) request(
 
 func (f *fillHead) handleDelConn(c *Conn) {
 	delete(f.cs, c) // just remove it from list of known
+	delete(f.again, c)
 
 	if f.r.c == c {
 		f.r.c = nil // GC
-- 
2.43.0


From bd7587a5f8141543ceaae3a9e0d470fa299a6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:41 +0000
Subject: [PATCH 093/100] fix: failed cleaning of the Cache fails an operation
 that is done

---
 skyobject/cache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 6b4ed04..aec2fa4 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -436,7 +436,10 @@ func (c *Cache) putItem(
 	case c.amount+1 > c.c.conf.CacheMaxAmount,
 		c.volume+len(val) > c.c.conf.CacheMaxVolume:
 
-		if err = c.cleanDown(len(val)); err != nil {
+		// the value and its rc are already in DB; if the cleaning
+		// fails, then the value is just not cached, and items that
+		// are not synced with DB are kept with their rcs
+		if c.cleanDown(len(val)) != nil {
 			return
 		}
 
@@ -479,7 +482,10 @@ func (c *Cache) putFillingItem(
 	case c.amount+1 > c.c.conf.CacheMaxAmount,
 		c.volume+len(val) > c.c.conf.CacheMaxVolume:
 
-		if err = c.cleanDown(len(val)); err != nil {
+		// the value and its rc are already in DB; if the cleaning
+		// fails, then the value is just not cached, and items that
+		// are not synced with DB are kept with their rcs
+		if c.cleanDown(len(val)) != nil {
 			return
 		}
 
-- 
2.43.0


From 909b23d8858c29b5599ef6fced4de424220d0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:45 +0000
Subject: [PATCH 094/100] fix: MaxFillingParallel doesn't affect filling

The Node never copied the option from configurations, and NewConfig
left it zero instead of the default
---
 node/node.go        | 2 ++
 skyobject/config.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/node/node.go b/node/node.go
index c18f18d..b13fdfc 100644
--- a/node/node.go
+++ b/node/node.go
@@ -163,6 +163,8 @@ func NewNodeContainer(
 	n.config = conf
 	n.config.Config = c.Config() // actual
 
+	n.maxFillingParallel = c.Config().MaxFillingParallel
+
 	n.fillavg = statutil.NewDuration(conf.Config.RollAvgSamples)
 
 	//
diff --git a/skyobject/config.go b/skyobject/config.go
index 6788db6..28a8fb9 100644
--- a/skyobject/config.go
+++ b/skyobject/config.go
@@ -221,6 +221,7 @@ func NewConfig() (conf *Config) {
 	conf.CacheMaxItemSize = CacheMaxItemSize
 
 	conf.MaxObjectSize = MaxObjectSize
+	conf.MaxFillingParallel = MaxFillingParallel
 
 	// data dir
 	conf.DataDir = DataDir()
-- 
2.43.0


From ff36cf7d3d4e22a64f0dad00c4f7a45d483c45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:14 +0000
Subject: [PATCH 095/100] fix: an index must not be opened as a database of
 objects and vice versa

---
 data/cxds/drive.go  | 7 +++++++
 data/idxdb/drive.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index c80c575..63769c8 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -120,6 +120,13 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 				return ErrNewVersion
 			}
 
+			// the buckets are created together, and the meta
+			// information belongs to a DB of another kind if
+			// there is no objects bucket
+			if tx.Bucket(objsBucket) == nil {
+				return ErrMissingMetaInfo // report
+			}
+
 		}
 
 		_, err = tx.CreateBucketIfNotExists(objsBucket)
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 542a0ec..774a1d2 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -85,6 +85,13 @@ func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 				return ErrNewVersion
 			}
 
+			// the buckets are created together, and the meta
+			// information belongs to a DB of another kind if
+			// there is no feeds bucket
+			if tx.Bucket(feedsBucket) == nil {
+				return ErrMissingMetaInfo // report
+			}
+
 		}
 
 		_, err = tx.CreateBucketIfNotExists(feedsBucket)
-- 
2.43.0


From 1adb22815c9aa29f528a70cc9a74c3bc1d9d79ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:02 +0000
Subject: [PATCH 096/100] fix: closed Node stays connected to discovery servers

---
 node/node.go       |  8 ++++++++
 node/transports.go | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/node/node.go b/node/node.go
index b13fdfc..b0bf7c8 100644
--- a/node/node.go
+++ b/node/node.go
@@ -786,6 +786,14 @@ func (n *Node) Close() (err error) {
 			n.rpc.Close()
 		}
 
+		// Leave discovery servers.
+		if tcp != nil {
+			tcp.closeDiscovery()
+		}
+		if udp != nil {
+			udp.closeDiscovery()
+		}
+
 		// Shutdown peer exchange.
 		for _, s := range ss {
 			s.shutdown()
diff --git a/node/transports.go b/node/transports.go
index 636d75d..b4dde11 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -204,6 +204,13 @@ func (t *TCP) discovery() (d *discovery.MessengerFactory) {
 	return t.d
 }
 
+// closeDiscovery closes underlying MessengerFactory, if any
+func (t *TCP) closeDiscovery() {
+	if d := t.Discovery(); d != nil {
+		d.Close()
+	}
+}
+
 // ConnectToDiscoveryServer connects to given discovery server.
 // If Discovery is nil, then it will be created
 func (t *TCP) ConnectToDiscoveryServer(address string) (err error) {
@@ -539,6 +546,13 @@ func (u *UDP) discovery() (d *discovery.MessengerFactory) {
 	return u.d
 }
 
+// closeDiscovery closes underlying MessengerFactory, if any
+func (u *UDP) closeDiscovery() {
+	if d := u.Discovery(); d != nil {
+		d.Close()
+	}
+}
+
 // ConnectToDiscoveryServer connects to given discovery server.
 // If Discovery is nil, then it will be created
 func (u *UDP) ConnectToDiscoveryServer(address string) (err error) {
-- 
2.43.0


From c70ba5b970e46b75f345bbc5ccd5deff9175bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:02 +0000
Subject: [PATCH 097/100] fix: connecting to a discovery server can send stale
 list of feeds

---
 node/transports.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/transports.go b/node/transports.go
index b4dde11..d2204b3 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -333,7 +333,7 @@ func (t *TCP) updateServiceDiscovery(feeds []cipher.PubKey) {
 func (t *TCP) onDiscoveryConnected(c *discovery.Connection) {
 
 	t.n.Debugln(DiscoveryPin, "(UDP) OnDiscoveryConencted")
-	t.updateServiceDiscovery(t.n.Feeds())
+	t.n.updateServiceDiscovery()
 
 }
 
@@ -675,7 +675,7 @@ func (u *UDP) updateServiceDiscovery(feeds []cipher.PubKey) {
 func (u *UDP) onDiscoveryConnected(c *discovery.Connection) {
 
 	u.n.Debugln(DiscoveryPin, "(UDP) OnDiscoveryConencted")
-	u.updateServiceDiscovery(u.n.Feeds())
+	u.n.updateServiceDiscovery()
 
 }
 
-- 
2.43.0


From 54d624c01255dd8d92ff3daf52c38ce046ce5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:02 +0000
Subject: [PATCH 098/100] fix: late response of a discovery server brings back
 a feed that is not shared

---
 node/conn.go       |  7 +++++++
 node/transports.go | 12 ++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 6bd6423..61b3b3c 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -345,6 +345,13 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
+	return c.subscribe(feed)
+}
+
+// subscribe to feed the Node shares; if the Node
+// doesn't share the feed, then the subscribe fails
+func (c *Conn) subscribe(feed cipher.PubKey) (err error) {
+
 	var reply msg.Msg
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
diff --git a/node/transports.go b/node/transports.go
index d2204b3..af9b69c 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -242,6 +242,10 @@ func (t *TCP) findServiceNodes(resp *discovery.QueryResp) {
 			continue // sometimes it happens, TODO (kostyarin): ask about it
 		}
 
+		if t.n.IsSharing(si.PubKey) == false {
+			continue // the DontShare has been called after the request
+		}
+
 		for _, ni := range si.Nodes {
 
 			if ni == nil {
@@ -263,7 +267,7 @@ func (t *TCP) findServiceNodes(resp *discovery.QueryResp) {
 			}
 
 			// block
-			if err = c.Subscribe(si.PubKey); err != nil {
+			if err = c.subscribe(si.PubKey); err != nil {
 				t.n.Debugf(DiscoveryPin, "[%s] can't Subscribe to %s: %v",
 					c.Address(),
 					si.PubKey.Hex()[:7],
@@ -584,6 +588,10 @@ func (u *UDP) findServiceNodes(resp *discovery.QueryResp) {
 			continue // sometimes it happens, TODO (kostyarin): ask about it
 		}
 
+		if u.n.IsSharing(si.PubKey) == false {
+			continue // the DontShare has been called after the request
+		}
+
 		for _, ni := range si.Nodes {
 
 			if ni == nil {
@@ -605,7 +613,7 @@ func (u *UDP) findServiceNodes(resp *discovery.QueryResp) {
 			}
 
 			// block
-			if err = c.Subscribe(si.PubKey); err != nil {
+			if err = c.subscribe(si.PubKey); err != nil {
 				u.n.Debugln(DiscoveryPin, "[%s] can't Subscribe to %s: %v",
 					c.Address(),
 					si.PubKey.Hex()[:7],
-- 
2.43.0


From e44bd20f48a286d15b0388d01de0607a933d378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:48 +0000
Subject: [PATCH 099/100] fix: cxocli completes to a command that exists (udp
 subsribe)

---
 cmd/cxocli/cxocli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cxocli/cxocli.go b/cmd/cxocli/cxocli.go
index be1383f..b1e262e 100644
--- a/cmd/cxocli/cxocli.go
+++ b/cmd/cxocli/cxocli.go
@@ -59,7 +59,7 @@ var (
 		"udp connect ",
 		"udp disconnect ",
 
-		"udp subscribe ",
+		"udp subsribe ",
 		"udp unsubscribe ",
 
 		"udp address ",
-- 
2.43.0


From 8948f7928a6cb1a7382e4629713fddc67bbde989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:48 +0000
Subject: [PATCH 100/100] fix: cxocli help shows all commands (is shareing)

---
 cmd/cxocli/cxocli.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/cxocli/cxocli.go b/cmd/cxocli/cxocli.go
index b1e262e..2e0c176 100644
--- a/cmd/cxocli/cxocli.go
+++ b/cmd/cxocli/cxocli.go
@@ -809,6 +809,8 @@ func (c *client) help(in []string) (err error) {
     stop sharing given feed
   list feeds
     show all feeds the node share
+  is shareing <public key>
+    is given feed shared or not
 
   tcp connect <address>
     connect to tcp address
-- 
2.43.0

