From e7ee82758f58ac49c981e80dc20e262f45dfd99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 01/23] fix: do not prefix UDP scrape responses with zero bytes

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..522486c 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From 8a6ddb1b304407a3f8e61dca1e9a56a101d01bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 02/23] fix: order UDP scrape entries as seeders, completed,
 leechers

---
 tracker/udp/protocol/scrape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 522486c..a4c76cf 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -40,8 +40,8 @@ func (s *Scrape) Unmarshall(data []byte) error {
 // ScrapeInfo holds the information for each infohash in the scrape response
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
-- 
2.43.0


From 6645872b6cf86691144757852f82937d8409aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 03/23] fix: count swarms larger than 65535 peers without
 wrapping

---
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..b0d7819 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (uint32, uint32)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..ed31823 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -81,7 +81,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete uint32
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -128,7 +128,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = uint32(len(peermap.Peers)) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..def9f81 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -14,7 +14,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint32) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..4da2e28 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   uint32
+	Incomplete uint32
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From 12854c45086e5fc8603df9ef8115de46abbf16f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:25 +0000
Subject: [PATCH 04/23] fix: return exactly the wanted peers from PeerListBytes
 and nothing for unknown hashes

---
 tracker/storage/map/hash.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index def9f81..535636d 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -81,8 +81,8 @@ func (db *Memory) PeerList(hash storage.Hash, numWant uint, removePeerId bool) (
 
 // PeerListBytes returns a byte encoded peer list for the given hash capped at num
 func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte, peers6 []byte) {
-	peers4 = pools.Peerlists4.Get()
-	peers6 = pools.Peerlists6.Get()
+	peers4 = pools.Peerlists4.Get()[:0]
+	peers6 = pools.Peerlists6.Get()[:0]
 
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
@@ -101,28 +101,21 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 		return
 	}
 
-	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
 		if peer.IP.Is6() {
-			copy(peers6[pos6:pos6+16], peer.IP.AsSlice())
-			binary.BigEndian.PutUint16(peers6[pos6+16:pos6+18], peer.Port)
-			pos6 += 18
-			if pos6+18 > cap(peers6) {
-				break
-			}
+			peers6 = append(peers6, peer.IP.AsSlice()...)
+			peers6 = binary.BigEndian.AppendUint16(peers6, peer.Port)
 		} else {
-			copy(peers4[pos4:pos4+4], peer.IP.AsSlice())
-			binary.BigEndian.PutUint16(peers4[pos4+4:pos4+6], peer.Port)
-			pos4 += 6
-			if pos4+6 > cap(peers4) {
-				break
-			}
+			peers4 = append(peers4, peer.IP.AsSlice()...)
+			peers4 = binary.BigEndian.AppendUint16(peers4, peer.Port)
+		}
+
+		numWant--
+		if numWant == 0 {
+			break
 		}
 	}
 	peermap.mutex.RUnlock()
 
-	peers4 = peers4[:pos4]
-	peers6 = peers6[:pos6]
-
 	return
 }
-- 
2.43.0


From d905f3a3e28a6c3ffee057fac56636a3a5352c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 05/23] fix: count more than 32767 peers per address without
 overflow

---
 tracker/stats/stats.go      | 2 +-
 tracker/stats/stats_slow.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..5b6fe08 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int32
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..50f47df 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int32, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
-- 
2.43.0


From 95c5e2f507b9216853197b830b0e12536cc481ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 06/23] fix: keep concurrent announces, stops and trims of the
 map database atomic

---
 tracker/storage/map/memory.go |  9 +++++++--
 tracker/storage/map/peer.go   | 15 +++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 4da2e28..d59c86b 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -106,10 +106,15 @@ func (db *Memory) trim() (peers, hashes int) {
 		peermap.mutex.Unlock()
 
 		if peersize == 0 {
+			// a peer may have been saved since the peermap was unlocked
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			peermap.mutex.RLock()
+			if len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.RUnlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..9d8a938 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -10,24 +10,28 @@ import (
 )
 
 func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash storage.Hash, id storage.PeerID) {
-	// get/create the map
+	// get/create the map, it's locked before the database is unlocked so that it can't be trimmed in between
 	memoryDb.mutex.RLock()
 	peermap, ok := memoryDb.hashmap[hash]
+	if ok {
+		peermap.mutex.Lock()
+	}
 	memoryDb.mutex.RUnlock()
 
 	// if submap doesn't exist create it
 	if !ok {
 		memoryDb.mutex.Lock()
-		peermap = memoryDb.makePeermap(hash)
+		if peermap, ok = memoryDb.hashmap[hash]; !ok {
+			peermap = memoryDb.makePeermap(hash)
+		}
+		peermap.mutex.Lock()
 		memoryDb.mutex.Unlock()
 	}
+	defer peermap.mutex.Unlock()
 
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
 
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +55,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
-- 
2.43.0


From 3f491af90d2a56dab164b00d68dec83e191ab980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 07/23] fix: count a swarm's peers under its lock when encoding
 the database

---
 tracker/storage/map/encode_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index ed31823..26551c9 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -19,6 +19,7 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 	db.mutex.RLock()
 	for hash, submap := range db.hashmap {
 		db.mutex.RUnlock()
+		submap.mutex.RLock()
 
 		// write hash and peermap size
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
@@ -29,7 +30,6 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 		}
 
 		// write peerid and peer
-		submap.mutex.RLock()
 		for id, peer := range submap.Peers {
 			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
 				return nil, err
-- 
2.43.0


From d237135cbd8a3ce8e149cdcde97b0b691fd52826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 08/23] fix: reject bad address lengths and repeated peers when
 decoding a backup

---
 tracker/storage/map/encode_binary.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 26551c9..0dcc251 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
+	"net"
 	"net/netip"
 
 	"github.com/crimist/trakx/pools"
@@ -82,6 +83,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		var count uint32
 		var complete uint32
+		if old, ok := db.hashmap[hash]; ok { // a repeated hash replaces the earlier one
+			peers -= len(old.Peers)
+			hashes--
+		}
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -102,6 +107,10 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &addrSliceLen); err != nil {
 				return
 			}
+			if addrSliceLen != net.IPv4len && addrSliceLen != net.IPv6len {
+				err = errors.New("invalid peer address length")
+				return
+			}
 			addrSlice := make([]byte, addrSliceLen)
 			if err = binary.Read(reader, binary.LittleEndian, &addrSlice); err != nil {
 				return
@@ -118,8 +127,15 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 			if err = binary.Read(reader, binary.LittleEndian, &peer.LastSeen); err != nil {
 				return
 			}
+			if old, ok := peermap.Peers[id]; ok { // a repeated peer replaces the earlier one
+				if old.Complete {
+					complete--
+				}
+				pools.Peers.Put(old)
+			} else {
+				peers++
+			}
 			peermap.Peers[id] = peer
-			peers++
 
 			if peer.Complete {
 				complete++
-- 
2.43.0


From 29ef0eab1252830c4235fa6b78daf465083c357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 09/23] fix: replace the peer and connection database files
 atomically

---
 tracker/storage/map/backup_file.go |  3 ++-
 tracker/udp/conndb.go              |  3 ++-
 tracker/utils/writefile.go         | 38 ++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)
 create mode 100644 tracker/utils/writefile.go

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..b2b716f 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/crimist/trakx/config"
 	"github.com/crimist/trakx/tracker/storage"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -72,7 +73,7 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	if err := utils.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
 
diff --git a/tracker/udp/conndb.go b/tracker/udp/conndb.go
index bc1bfdd..79b359f 100644
--- a/tracker/udp/conndb.go
+++ b/tracker/udp/conndb.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/crimist/trakx/config"
+	"github.com/crimist/trakx/tracker/utils"
 	"github.com/pkg/errors"
 	"go.uber.org/zap"
 )
@@ -92,7 +93,7 @@ func (connDb *connectionDatabase) writeToFile(path string) error {
 		return errors.Wrap(err, "failed to marshall connection database")
 	}
 
-	if err := os.WriteFile(path, encoded, 0644); err != nil {
+	if err := utils.WriteFile(path, encoded, 0644); err != nil {
 		return errors.Wrap(err, "failed to write file")
 	}
 
diff --git a/tracker/utils/writefile.go b/tracker/utils/writefile.go
new file mode 100644
index 0000000..a4411e0
--- /dev/null
+++ b/tracker/utils/writefile.go
@@ -0,0 +1,38 @@
+package utils
+
+import (
+	"os"
+	"sync"
+)
+
+var writeFileMutex sync.Mutex
+
+// WriteFile replaces the file at path with data. The data is written to a temporary file
+// which is then renamed, so the previous contents survive if the write is interrupted.
+// Concurrent calls are serialized as they may share the temporary file.
+func WriteFile(path string, data []byte, perm os.FileMode) error {
+	writeFileMutex.Lock()
+	defer writeFileMutex.Unlock()
+
+	temp := path + ".tmp"
+	file, err := os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(temp, path)
+	}
+	if err != nil {
+		os.Remove(temp)
+	}
+
+	return err
+}
-- 
2.43.0


From e41703c301186428db27481c3c79f07d999a0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 10/23] fix: do not panic on pg backups shorter than a hash

---
 tracker/storage/map/backup_pg.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..4b7bbd8 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -80,7 +80,7 @@ func (bck PgBackup) Save() error {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Binary("hash", firstHash(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
@@ -123,11 +123,19 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Binary("hash", firstHash(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
 
+// firstHash returns the first hash of an encoded database, which may be shorter.
+func firstHash(data []byte) []byte {
+	if len(data) > 20 {
+		return data[:20]
+	}
+	return data
+}
+
 func (bck PgBackup) trim() (int64, error) {
 	var trimmed int64
 
-- 
2.43.0


From d8d04934c45b3107783fac7a78ce8dc02667f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:01 +0000
Subject: [PATCH 11/23] fix: do not leave the result of the pg backup insert
 open

---
 tracker/storage/map/backup_pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index 4b7bbd8..5099d4b 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -75,7 +75,7 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
-- 
2.43.0


From 515cdd27f84108e391f2475b70933cea3f883def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 12/23] fix: read the whole action field of UDP requests

---
 tracker/udp/udptracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 8952acc..9b095b7 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -131,7 +131,7 @@ func (u *UDPTracker) WriteConns() error {
 func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	stats.Hits.Add(1)
 
-	action := protocol.Action(data[11])
+	action := protocol.Action(binary.BigEndian.Uint32(data[8:12]))
 	txid := int32(binary.BigEndian.Uint32(data[12:16]))
 
 	addr, ok := netip.AddrFromSlice(remote.IP)
@@ -141,8 +141,8 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	addr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4
 	addrPort := netip.AddrPortFrom(addr, uint16(remote.Port))
 
-	if action > protocol.ActionHeartbeat {
-		msg := u.newClientError("bad action", txid, cerrFields{"action": data[11], "addrPort": addrPort})
+	if action < protocol.ActionConnect || action > protocol.ActionHeartbeat {
+		msg := u.newClientError("bad action", txid, cerrFields{"action": action, "addrPort": addrPort})
 		u.sock.WriteToUDP(msg, remote)
 		return
 	}
-- 
2.43.0


From e7c749698b97508c3adf370d03eb37bd0a7ae183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 13/23] fix: parse only the bytes of the current HTTP request

---
 tracker/http/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 114600e..f16da44 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -31,10 +31,13 @@ type (
 // Custom HTTP parser
 // only supports GET request and up to `maxparams` params but uses no heap memory
 func parse(data []byte, size int) (parsed, error) {
+	// anything past size was left in the buffer by an earlier request
+	data = data[:size]
+
 	// uTorrent sometimes encodes scrape req in b64
 	// Example: R0VUIC9zY3JhcGU/aW5mb19oYXNoPS = GET /scrape?info_hash=
 	if bytes.HasPrefix(data, []byte("R0VU")) {
-		decoded, err := base64.StdEncoding.Decode(data, data[:size])
+		decoded, err := base64.StdEncoding.Decode(data, data)
 		if err != nil {
 			return parsed{}, errors.Wrap(err, "failed to decode base64 encoded request")
 		}
-- 
2.43.0


From 01c66f85a16ad6f24e33476b46d0c8ba48cdc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 14/23] fix: reject non-hexadecimal percent escapes

---
 tracker/http/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index f16da44..5f74f6e 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -114,6 +114,9 @@ func parse(data []byte, size int) (parsed, error) {
 	return p, nil
 }
 
+// returned by fromHexChar if the char isn't a hex digit
+const invalidHexChar = 0xff
+
 // from stdlib
 // https://github.com/golang/go/blob/2ebe77a2fda1ee9ff6fd9a3e08933ad1ebaea039/src/encoding/hex/hex.go#L84
 func fromHexChar(c byte) byte {
@@ -126,7 +129,7 @@ func fromHexChar(c byte) byte {
 		return c - 'A' + 10
 	}
 
-	return 0
+	return invalidHexChar
 }
 
 // unescapeFast unescapes url encoded []byte
@@ -145,6 +148,9 @@ func unescapeFast(bs []byte) []byte {
 			// get hex chars
 			a := fromHexChar(bs[i+1])
 			b := fromHexChar(bs[i+2])
+			if a == invalidHexChar || b == invalidHexChar {
+				return nil
+			}
 			// change percent to real byte
 			bs[i] = (a << 4) | b
 
-- 
2.43.0


From e60e4184c38ce4c54f67870474521a125233df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:35 +0000
Subject: [PATCH 15/23] fix: give each statistics reply its own header map

---
 tracker/http/fakeresp.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..9671b7a 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -8,20 +8,16 @@ import (
 // Hacky fake http response writer to serve expvar over
 
 var (
-	fakeHdr     http.Header
 	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 )
 
-func init() {
-	fakeHdr = make(http.Header)
-}
-
 type fakeRespWriter struct {
 	conn net.Conn
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	// headers aren't sent and workers must not share a map
+	return make(http.Header)
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
-- 
2.43.0


From 6f712628d0e6a3e0728d976b1b26377221f7ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 16/23] fix: take the last X-Forwarded-For entry whatever
 follows the comma

---
 tracker/http/forwarded_appeng.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..9127f7c 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -26,9 +26,8 @@ func parseForwarded(data []byte) (bool, []byte) {
 	headerValue := data[headerValueStart:headerValueEnd]
 
 	// if list contains multiple addresses use rightmost (most recent)
-	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+	if lastComma := bytes.LastIndex(headerValue, []byte(",")); lastComma != -1 {
+		headerValue = bytes.TrimPrefix(headerValue[lastComma+1:], []byte(" "))
 	}
 
 	return true, headerValue
-- 
2.43.0


From d5e77ff4fa1516cb15ddfcf6d8a51af4bded5b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:36 +0000
Subject: [PATCH 17/23] fix: read the forwarded address from the current
 request only

---
 tracker/http/worker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..479e72a 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(data[:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From 746bc0f93981af39b14d85476abb1cbe36795636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:36 +0000
Subject: [PATCH 18/23] fix: stop waiting for a process that does not exit

---
 controller/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..b519f2a 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -84,12 +84,12 @@ func (controller *Controller) Stop() error {
 
 	fmt.Print("waiting for process to exit")
 	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for ; err == nil && i < 100; err = syscall.Kill(processid, syscall.Signal(0)) {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
 		i++
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
-- 
2.43.0


From 27238a7e53b6f2d9b6f213b9c81a3c5f4bbcc1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:27 +0000
Subject: [PATCH 19/23] fix: initialise the pools before restoring a backup

---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..5c3b466 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// opening the db takes peers from the pools when restoring a backup
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From 311d39c62fc0bb6a0d9de3ba8135e3066b1c8a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:40 +0000
Subject: [PATCH 20/23] fix: do not lose requests handled while statistics are
 published

---
 tracker/stats/publish.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index bbac1bb..89e3dab 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -47,11 +47,11 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 	uptime := expvar.NewInt("trakx.internal.uptime")
 
 	utils.RunOn(config.Config.ExpvarInterval, func() {
-		// set expvars
-		hits.Set(Hits.Load())
-		connects.Set(Connects.Load())
-		announces.Set(Announces.Load())
-		scrapes.Set(Scrapes.Load())
+		// set expvars, requests / s stats are reset as they are read
+		hits.Set(Hits.Swap(0))
+		connects.Set(Connects.Swap(0))
+		announces.Set(Announces.Swap(0))
+		scrapes.Set(Scrapes.Swap(0))
 
 		seeds.Set(Seeds.Load())
 		leeches.Set(Leeches.Load())
@@ -70,11 +70,5 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 		goroutines.Set(int64(runtime.NumGoroutine()))
 		uptime.Set(int64(time.Since(initTime) / time.Second))
-
-		// reset requests / s stats
-		Hits.Store(0)
-		Connects.Store(0)
-		Announces.Store(0)
-		Scrapes.Store(0)
 	})
 }
-- 
2.43.0


From 80e94f078c902eb415a85fa3b319a0efda3649d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 21/23] fix: publish the peers of one moment

---
 tracker/stats/publish.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index 89e3dab..fa3843d 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -53,9 +53,10 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 		announces.Set(Announces.Swap(0))
 		scrapes.Set(Scrapes.Swap(0))
 
-		seeds.Set(Seeds.Load())
-		leeches.Set(Leeches.Load())
-		peers.Set(Seeds.Load() + Leeches.Load())
+		seedCount, leechCount := Seeds.Load(), Leeches.Load()
+		seeds.Set(seedCount)
+		leeches.Set(leechCount)
+		peers.Set(seedCount + leechCount)
 		ips.Set(int64(IPStats.Total()))
 		hashes.Set(int64(peerdb.Hashes()))
 		udpConnections.Set(udpconns())
-- 
2.43.0


From 13eed2e55e87c6a58b6ec45f8510ec3970296fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 22/23] fix: read the address count under its lock when
 publishing

---
 tracker/stats/publish.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index fa3843d..a481357 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -57,7 +57,9 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 		seeds.Set(seedCount)
 		leeches.Set(leechCount)
 		peers.Set(seedCount + leechCount)
+		IPStats.Lock()
 		ips.Set(int64(IPStats.Total()))
+		IPStats.Unlock()
 		hashes.Set(int64(peerdb.Hashes()))
 		udpConnections.Set(udpconns())
 
-- 
2.43.0


From e783d5099b7874694b602c2b3c6745a577d0fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:31 +0000
Subject: [PATCH 23/23] fix: print command errors as they are

The error text was used as a format string, so a reason holding a percent sign
(a path, say) was garbled.
---
 cli_entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli_entry.go b/cli_entry.go
index 208cd89..11d8840 100644
--- a/cli_entry.go
+++ b/cli_entry.go
@@ -31,7 +31,7 @@ func printHelp() {
 }
 
 func logFatal(err error) {
-	fmt.Fprintf(os.Stderr, err.Error()+"\n")
+	fmt.Fprintln(os.Stderr, err)
 	os.Exit(-1)
 }
 
-- 
2.43.0

