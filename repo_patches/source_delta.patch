From 42f036376b72626c317926a0155959361e541d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 01/22] fix: report the end of the connection instead of
 treating it as a delimiter

ScanTimeout ignored the result of Scan(), so a connection that was closed or
failed while waiting for an ACK made set operations succeed without one.
---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..aa16852 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -35,10 +35,19 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	found, err := WaitTimeout(done, timer)
+	if err != nil {
 		return out, err
 	}
 
+	// The connection ended or failed before a delimiter appeared
+	if !found {
+		if err := scanner.Err(); err != nil {
+			return out, err
+		}
+		return out, io.ErrUnexpectedEOF
+	}
+
 	// Return all characters found on the way to the delimiter
 	out = scanner.Bytes()
 
-- 
2.43.0


From ceb6d89a3a6999029de98c296f059def964217a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 02/22] fix: check which control sequence ended a token when
 reading a packet

Any of ACK, start and end was accepted in place of any other, so for example
a packet start was taken for the ACK of a set operation.
---
 libcomfo/conn.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index aa16852..05edecb 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -60,6 +60,9 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
+	// The control character that ended the last token
+	var seq byte
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -71,6 +74,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					char := data[i+1]
 					switch char {
 					case ack, start, end:
+						seq = char
 						// Advance the pointer past the 2nd command character
 						return i + 2, data[:i], nil
 					default:
@@ -94,6 +98,11 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, errScanInput
 	}
 
+	// Found another control sequence instead of ACK
+	if seq != ack {
+		return out, errScanInput
+	}
+
 	// We're not expecting data (only ACK), return
 	if !expect {
 		return
@@ -110,12 +119,22 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, errScanInput
 	}
 
+	// Found another control sequence instead of packet start
+	if seq != start {
+		return out, errScanInput
+	}
+
 	// Read second escape sequence (data + stop)
 	pr, err = ScanTimeout(scanner, timer)
 	if err != nil {
 		return out, err
 	}
 
+	// Found another control sequence instead of packet end
+	if seq != end {
+		return out, errScanInput
+	}
+
 	// Abort on invalid input
 	if len(pr) > 0 && len(pr) < 4 {
 		return out, errTooShort
-- 
2.43.0


From 7c18f8c8e6547085d1d4ed4b8b7abdddf87ac21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 03/22] fix: don't look for control sequences in the body of a
 frame

Payload, length and checksum bytes could be mistaken for the end of a packet:
an escaped 0x07 followed by 0x0F, a length or checksum of 0x07, ...
---
 libcomfo/conn.go | 55 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 05edecb..ad30bc8 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -63,10 +63,28 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	// The control character that ended the last token
 	var seq byte
 
+	// Whether the next token is the body of a frame
+	var inFrame bool
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
+		// The bytes of a frame body are not control sequences
+		body := 0
+		if inFrame {
+			body = bodyLen(data)
+		}
+
+		// No more bytes will follow, so the body is incomplete
+		if atEOF && body >= len(data) {
+			body = 0
+		}
+
 		for i := 0; i < len(data); i++ {
+			if i < body {
+				continue
+			}
+
 			// Look for escape characters
 			if data[i] == esc {
 				// Look for the given byte following the escape character within bounds
@@ -124,6 +142,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, errScanInput
 	}
 
+	inFrame = true
+
 	// Read second escape sequence (data + stop)
 	pr, err = ScanTimeout(scanner, timer)
 	if err != nil {
@@ -151,6 +171,41 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	return
 }
 
+// bodyLen returns how many of the given bytes belong to the body of a frame: its header,
+// escaped payload and checksum. Whatever their values, these don't mark the end of the
+// frame. A single escape followed by a control character can't occur in a payload, so
+// the body ends early there.
+func bodyLen(data []byte) int {
+
+	if len(data) < dataOffset {
+		return len(data)
+	}
+
+	i := dataOffset
+	for n := int(data[lenOffset]); n > 0; i++ {
+		if i+1 >= len(data) {
+			return len(data)
+		}
+
+		if data[i] == esc {
+			switch data[i+1] {
+			case esc:
+				i++
+			case ack, start, end:
+				return i
+			default:
+				// Dropped when unescaping, doesn't count towards the length
+				continue
+			}
+		}
+
+		n--
+	}
+
+	// Include the checksum
+	return i + 1
+}
+
 // WritePacket serializes a Packet into wire representation, wrapped
 // in start and end sequences, and writes to the given connection.
 func WritePacket(in Packet, conn io.Writer) (out bool, err error) {
-- 
2.43.0


From b173da4bc4f26250352ec3231763d4ab8fa772e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 04/22] fix: keep the connection usable after a query timed out

The Read of a query that timed out stayed blocked on the connection and
swallowed the response to the next query, which timed out in turn, and so on.
---
 libcomfo/conn.go | 92 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 90 insertions(+), 2 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index ad30bc8..ee276f8 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -10,8 +10,93 @@ import (
 var (
 	// Package-wide serial connection Mutex
 	pm = &sync.Mutex{}
+
+	// Guards calls
+	cm = &sync.Mutex{}
+
+	// Read calls in progress, or with results left to consume
+	calls = make(map[io.Reader]*readCall)
 )
 
+// readCall is a call to Read on a connection. It can't be canceled, so when the query
+// that made it times out, it's left to the next query. If it were abandoned, it would
+// swallow the response to that query.
+type readCall struct {
+	done chan struct{}
+	data []byte
+	err  error
+}
+
+// startRead returns the readCall in progress on the connection, or a new one.
+func startRead(conn io.Reader) *readCall {
+
+	cm.Lock()
+	defer cm.Unlock()
+
+	if c, ok := calls[conn]; ok {
+		return c
+	}
+
+	c := &readCall{done: make(chan struct{})}
+	calls[conn] = c
+
+	go func() {
+		buf := make([]byte, 4096)
+		n, err := conn.Read(buf)
+		c.data, c.err = buf[:n], err
+		close(c.done)
+	}()
+
+	return c
+}
+
+// queryReader reads from a connection on behalf of a single query.
+type queryReader struct {
+	conn io.Reader
+	quit chan struct{}
+}
+
+// Read waits for the connection until the queryReader is closed.
+func (r *queryReader) Read(p []byte) (n int, err error) {
+
+	c := startRead(r.conn)
+
+	select {
+	case <-c.done:
+	case <-r.quit:
+		return 0, errTimeout
+	}
+
+	cm.Lock()
+	defer cm.Unlock()
+
+	// The result belongs to the next query if this one has ended meanwhile
+	select {
+	case <-r.quit:
+		return 0, errTimeout
+	default:
+	}
+
+	n = copy(p, c.data)
+	c.data = c.data[n:]
+	if len(c.data) > 0 {
+		return n, nil
+	}
+
+	delete(calls, r.conn)
+
+	return n, c.err
+}
+
+// close makes Read return, without consuming anything from the connection.
+func (r *queryReader) close() {
+
+	cm.Lock()
+	defer cm.Unlock()
+
+	close(r.quit)
+}
+
 // WaitTimeout takes a channel and a timer. If the channel reads before
 // the timer expires, true is returned. If the timer expires, false is returned.
 func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error) {
@@ -29,7 +114,7 @@ func WaitTimeout(wait <-chan bool, timeout *time.Timer) (success bool, err error
 // All output found on the way is returned.
 func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err error) {
 
-	done := make(chan bool)
+	done := make(chan bool, 1)
 
 	// Advance the scanner past one delimiter
 	go func() { done <- scanner.Scan() }()
@@ -58,7 +143,10 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 // A Packet structure is extracted from the connection.
 func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err error) {
 
-	scanner := bufio.NewScanner(conn)
+	reader := &queryReader{conn: conn, quit: make(chan struct{})}
+	defer reader.close()
+
+	scanner := bufio.NewScanner(reader)
 
 	// The control character that ended the last token
 	var seq byte
-- 
2.43.0


From 23c8fa1e24ef9eecd169a8e16ca4ec4a9a631643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 05/22] fix: don't take the rest of a failed response for the
 next response

When a query failed before its response was read completely, what was left of
it was taken for the response to the next query, whose own response was left
for the one after that, and so on. The same goes for responses that arrive late.
---
 libcomfo/conn.go | 51 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index ee276f8..d16ad95 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -88,6 +88,47 @@ func (r *queryReader) Read(p []byte) (n int, err error) {
 	return n, c.err
 }
 
+// receivedLate returns whether anything was received after the last query ended.
+func receivedLate(conn io.Reader) bool {
+
+	cm.Lock()
+	defer cm.Unlock()
+
+	c, ok := calls[conn]
+	if !ok {
+		return false
+	}
+
+	select {
+	case <-c.done:
+		return true
+	default:
+		return false
+	}
+}
+
+// discard drops everything received until the timer expires or the connection fails.
+func discard(conn io.Reader, timer *time.Timer) {
+
+	for {
+		c := startRead(conn)
+
+		select {
+		case <-c.done:
+		case <-timer.C:
+			return
+		}
+
+		cm.Lock()
+		delete(calls, conn)
+		cm.Unlock()
+
+		if c.err != nil {
+			return
+		}
+	}
+}
+
 // close makes Read return, without consuming anything from the connection.
 func (r *queryReader) close() {
 
@@ -344,6 +385,11 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	pm.Lock()
 	defer pm.Unlock()
 
+	// Don't take a late response to an earlier query for the response to this one
+	if receivedLate(conn) {
+		discard(conn, time.NewTimer(10*time.Millisecond))
+	}
+
 	// Write the Packet to the connection
 	if _, err := WritePacket(in, conn); err != nil {
 		return out, err
@@ -355,11 +401,16 @@ func QueryPacket(in Packet, conn io.ReadWriter) (out Packet, err error) {
 	// Read packet from the remote
 	out, err = ReadPacket(conn, timer, in.Expect)
 	if err != nil {
+		// The rest of the response is not the response to the next query
+		if err != errTimeout {
+			discard(conn, timer)
+		}
 		return out, err
 	}
 
 	// Check for the correct response command (request command + 1)
 	if in.Expect && out.Command != in.Command+1 {
+		discard(conn, timer)
 		return out, errInvalidResponse
 	}
 
-- 
2.43.0


From 5c4e3627fc24ed829edfb5a9139c2379df5eacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 06/22] fix: don't lose fan profiles written during a call to
 SetFanProfile

---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..e7e4876 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Don't write in between another caller's read and write of the profiles
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From 59f67d948ba76d200570a092167eaa6c16ca78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 07/22] fix: refuse fan speeds that overflow instead of
 reporting wrong ones

---
 libcomfo/response_types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcomfo/response_types.go b/libcomfo/response_types.go
index 5734a01..4e90010 100644
--- a/libcomfo/response_types.go
+++ b/libcomfo/response_types.go
@@ -2,6 +2,7 @@ package libcomfo
 
 import (
 	"encoding/binary"
+	"math"
 	"strings"
 )
 
@@ -175,6 +176,11 @@ func (v *Fans) UnmarshalBinary(in []byte) error {
 		return errZeroValue
 	}
 
+	// Very small values stand for speeds that don't fit the result
+	if 1875000/uint32(inSpeed) > math.MaxUint16 || 1875000/uint32(outSpeed) > math.MaxUint16 {
+		return errTooHigh
+	}
+
 	v.InPercent = uint8(in[0])
 	v.OutPercent = uint8(in[1])
 
-- 
2.43.0


From 19539e76d301f60d8b4063987ffc860d5e73fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 08/22] fix: release the profiles cache when UpdatePoll doesn't
 know the speed

---
 comfoserver/caches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..6fb3e7b 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -220,10 +220,10 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
-- 
2.43.0


From 9db3cd75a186009855df13c7a8da28f54d480a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 09/22] fix: don't truncate fan speeds, profiles and
 percentages of requests

---
 comfoserver/helpers.go | 6 ++++++
 comfoserver/server.go  | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..543e135 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -2,6 +2,7 @@ package comfoserver
 
 import (
 	"fmt"
+	"math"
 
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 	"github.com/twitchtv/twirp"
@@ -22,6 +23,11 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 		return 0, twirp.InvalidArgumentError("Abs/Rel", errBothAbsRel.Error())
 	}
 
+	// Detect truncation
+	if target.Abs > math.MaxUint8 {
+		return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+	}
+
 	// Determine Abs/Rel speed and target speed
 	if target.Abs != 0 {
 		tgtSpeed = uint8(target.Abs)
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..482c458 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -167,6 +167,14 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	mode := uint8(fpt.GetMode())
 	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
+	// Detect truncation
+	if fpt.GetMode() > math.MaxUint8 {
+		return nil, twirp.InvalidArgumentError("Mode", "is too large")
+	}
+	if fpt.GetTargetSpeed() > math.MaxUint8 {
+		return nil, twirp.InvalidArgumentError("TargetSpeed", "is too large")
+	}
+
 	// Make sure speed mode is valid (1-4).
 	if mode < 1 || mode > 4 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
-- 
2.43.0


From 18770df3bfc17fa984f1b800af951e5cbf9bcdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 10/22] fix: read the comfort temperature under the lock in
 SetComfortTemp

---
 comfoserver/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 482c458..bdc540e 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,6 +72,10 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
+
 	origTemp := tempCache.Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
@@ -82,10 +86,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 
 	if uint8(origTemp) != targetTemp {
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
-
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
 			return nil, twirp.InternalError(err.Error())
-- 
2.43.0


From d910218ccf6d97be96574a7ca623a238bf2c8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 11/22] fix: hold the cache locks when setters read from the
 caches

---
 comfoserver/caches.go | 31 +++++++++++++++++++++++++++++--
 comfoserver/server.go | 13 +++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 6fb3e7b..784fc3d 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -65,6 +65,33 @@ type ErrorsCache struct {
 	CacheLock   sync.RWMutex `json:"-"`
 }
 
+// get returns a copy of the cached temperatures.
+func (tc *TempCache) get() libcomfo.Temps {
+
+	tc.CacheLock.Lock()
+	defer tc.CacheLock.Unlock()
+
+	return tc.Temps
+}
+
+// get returns a copy of the cached fan speeds.
+func (fc *FanCache) get() libcomfo.Fans {
+
+	fc.CacheLock.Lock()
+	defer fc.CacheLock.Unlock()
+
+	return fc.Fans
+}
+
+// get returns a copy of the cached fan profiles.
+func (fpc *FanProfilesCache) get() libcomfo.FanProfiles {
+
+	fpc.CacheLock.RLock()
+	defer fpc.CacheLock.RUnlock()
+
+	return fpc.FanProfiles
+}
+
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
@@ -231,8 +258,8 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 		fanCache.Update(true)
 
 		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		if fans := fanCache.get(); fans.InPercent == inPct &&
+			fans.OutPercent == outPct {
 			return nil
 		}
 
diff --git a/comfoserver/server.go b/comfoserver/server.go
index bdc540e..567559a 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -76,7 +76,7 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	tempLock.Lock()
 	defer tempLock.Unlock()
 
-	origTemp := tempCache.Comfort
+	origTemp := tempCache.get().Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -120,7 +120,7 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	defer fanLock.Unlock()
 
 	// Initialize speed values
-	origSpeed := fanProfilesCache.CurrentMode
+	origSpeed := fanProfilesCache.get().CurrentMode
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -202,15 +202,16 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	defer fanLock.Unlock()
 
 	// Get original fan speed of selected mode into origSpeed
+	fanProfiles := fanProfilesCache.get()
 	switch mode {
 	case 0:
-		origSpeed = fanProfilesCache.InAway
+		origSpeed = fanProfiles.InAway
 	case 1:
-		origSpeed = fanProfilesCache.InLow
+		origSpeed = fanProfiles.InLow
 	case 2:
-		origSpeed = fanProfilesCache.InMid
+		origSpeed = fanProfiles.InMid
 	case 3:
-		origSpeed = fanProfilesCache.InHigh
+		origSpeed = fanProfiles.InHigh
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
-- 
2.43.0


From 6e17e678df53bb27b0d92171d69fb471396c42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 12/22] fix: look at both fans before leaving a fan profile
 alone

---
 comfoserver/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 567559a..6721e4a 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -216,8 +216,14 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
 
-	// Modify speed if different.
-	if origSpeed != tgtSpeed {
+	// The unit's in and out fans can be configured separately. Lookup starts at 1.
+	_, origOut, err := fanProfiles.Lookup(mode + 1)
+	if err != nil {
+		return nil, twirp.InternalErrorWith(err)
+	}
+
+	// Modify speed if either fan's is different.
+	if origSpeed != tgtSpeed || origOut != tgtSpeed {
 		// Send profile command to unit.
 		err := libcomfo.SetFanProfile(mode, tgtSpeed, comfoConn)
 		if err != nil {
-- 
2.43.0


From 23b88caa8848648d20a9597ecbfa26fa86a94a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 13/22] fix: refresh the fan profiles after a failed change

---
 comfoserver/server.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 6721e4a..919b549 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -135,18 +135,22 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 		// Send target speed to the unit
 		err = libcomfo.SetSpeed(uint8(tgtSpeed), comfoConn)
 		if err != nil {
+			// The unit may have changed its speed all the same
+			fanProfilesCache.Update(true)
 			return nil, twirp.InternalError(err.Error())
 		}
 
 		// Poll the unit for the target speed
 		err = fanCache.UpdatePoll(10, uint8(tgtSpeed))
+
+		// Flush the fanProfilesCache when values have converged. If they haven't,
+		// the speed was changed on the unit nonetheless.
+		fanProfilesCache.Update(true)
+
 		if err != nil {
 			return nil, twirp.InternalError(err.Error())
 		}
 
-		// Flush the fanProfilesCache when values have converged
-		fanProfilesCache.Update(true)
-
 		// Set modified flag
 		modified = true
 	}
@@ -227,6 +231,8 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 		// Send profile command to unit.
 		err := libcomfo.SetFanProfile(mode, tgtSpeed, comfoConn)
 		if err != nil {
+			// The unit may have changed the profile all the same
+			fanProfilesCache.Update(true)
 			return nil, twirp.InternalErrorWith(err)
 		}
 
-- 
2.43.0


From 3c8f525313e99b4337539f3160b63240285007e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 14/22] fix: don't report success when flushing a cache failed

---
 comfoserver/caches.go | 83 +++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 784fc3d..1f6f49b 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -95,13 +96,15 @@ func (fpc *FanProfilesCache) get() libcomfo.FanProfiles {
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -109,23 +112,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -134,7 +131,8 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+// It returns an error if the data couldn't be obtained from the unit.
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,7 +144,7 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -155,13 +153,17 @@ func (bc *BootInfoCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+// It returns an error if the data couldn't be obtained from the unit.
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -173,7 +175,7 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -182,13 +184,17 @@ func (bc *BypassCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+// It returns an error if the data couldn't be obtained from the unit.
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -200,7 +206,7 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -209,13 +215,17 @@ func (tc *TempCache) Update(force bool) {
 		tc.LastUpdated = now
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+// It returns an error if the data couldn't be obtained from the unit.
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -227,7 +237,7 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -236,7 +246,10 @@ func (fc *FanCache) Update(force bool) {
 		fc.LastUpdated = now
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // UpdatePoll updates the cache for a maximum amount of `count` tries
@@ -274,7 +287,8 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+// It returns an error if the data couldn't be obtained from the unit.
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -286,7 +300,7 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -295,13 +309,17 @@ func (fpc *FanProfilesCache) Update(force bool) {
 		fpc.LastUpdated = now
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+// It returns an error if the data couldn't be obtained from the unit.
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -313,7 +331,7 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -322,7 +340,10 @@ func (ec *ErrorsCache) Update(force bool) {
 		ec.LastUpdated = now
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // isStale applies fuzzy logic to determine if a timestamp is within a certain
-- 
2.43.0


From 2111b653f3599d174bfc8e44de898750f8b9e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 15/22] fix: serve the boot info of units with special
 characters in their name

---
 comfoserver/protobuf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comfoserver/protobuf.go b/comfoserver/protobuf.go
index c51355b..9b37748 100644
--- a/comfoserver/protobuf.go
+++ b/comfoserver/protobuf.go
@@ -1,6 +1,8 @@
 package comfoserver
 
 import (
+	"strings"
+
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 )
 
@@ -26,7 +28,8 @@ func (b *BootInfoCache) Protobuf() *rpc.BootInfo {
 		BetaVersion:  uint32(b.BetaVersion),
 		MajorVersion: uint32(b.MajorVersion),
 		MinorVersion: uint32(b.MinorVersion),
-		DeviceName:   b.DeviceName,
+		// Protobuf strings must be valid UTF-8
+		DeviceName: strings.ToValidUTF8(b.DeviceName, "\uFFFD"),
 	}
 }
 
-- 
2.43.0


From 7fb9d6bc27fd4f7fd16cda700fc0461796cfe1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 16/22] fix: don't cut off answers to calls that take more than
 5 seconds

---
 comfo.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/comfo.go b/comfo.go
index b3dfc40..0969863 100644
--- a/comfo.go
+++ b/comfo.go
@@ -60,9 +60,10 @@ func main() {
 	router := NewRouter()
 
 	srv := &http.Server{
-		Handler:      router,
-		Addr:         viper.GetString(configListen),
-		WriteTimeout: 5 * time.Second,
+		Handler: router,
+		Addr:    viper.GetString(configListen),
+		// Changing the fan speed takes as long as the fans need to get there
+		WriteTimeout: time.Minute,
 		ReadTimeout:  5 * time.Second,
 	}
 
-- 
2.43.0


From ba261880b3dd6ef982408d28990bdbc3bef57459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 17/22] fix: use the event loop given to the Python client

---
 python/comfo/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..d778e63 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -26,10 +26,12 @@ class Comfo:
 
         if loop is None:
             try:
-                self.loop = asyncio.get_running_loop()
+                loop = asyncio.get_running_loop()
             except RuntimeError:
                 pass
 
+        self.loop = loop
+
     def ping(self) -> bool:
         """Run a simple get query against the unit to verify connectivity."""
         self.get_bootinfo()
-- 
2.43.0


From 5a96c2289189cf49781d037f7f86dfbf35715205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 18/22] fix: read the temperatures again after a failed change
 of the comfort temperature

The unit may have executed a change whose acknowledgement was lost. The
cache kept the old temperature, and a request for it was answered with
Modified=false without doing anything.
---
 comfoserver/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 919b549..61b4ac2 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -88,6 +88,8 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
+			// The unit may have changed the temperature all the same
+			tempCache.Update(true)
 			return nil, twirp.InternalError(err.Error())
 		}
 
-- 
2.43.0


From e5b0a830c17d9a489f091dcdbb4d47f0edb6ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 19/22] fix: read the fan speed and profiles from the unit
 before changing the speed

The speed in use and the percentages of the profiles were taken from a reading
up to 5 minutes old. When they had been changed on the unit's own panel since,
a change of the speed was skipped although the unit needed it, went to the
wrong speed, or failed because it waited for percentages no longer in use.
---
 comfoserver/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 61b4ac2..993886c 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -121,6 +121,9 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	// The speed and profiles may have been changed on the unit's own panel
+	fanProfilesCache.Update(true)
+
 	// Initialize speed values
 	origSpeed := fanProfilesCache.get().CurrentMode
 
-- 
2.43.0


From aefd6faf53c8979d9d016da094e8701300109271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 20/22] fix: read the fan profiles from the unit before
 changing one of them

A profile changed on the unit's own panel since the last refresh was taken for
unchanged: setting it back was reported as done without telling the unit.
---
 comfoserver/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 993886c..6aaa307 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -210,6 +210,9 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	fanLock.Lock()
 	defer fanLock.Unlock()
 
+	// The profiles may have been changed on the unit's own panel
+	fanProfilesCache.Update(true)
+
 	// Get original fan speed of selected mode into origSpeed
 	fanProfiles := fanProfilesCache.get()
 	switch mode {
-- 
2.43.0


From adbe322456da3673159f0eb7edd907947099d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 21/22] fix: read the comfort temperature from the unit before
 changing it

A temperature set on the unit's own panel since the last refresh was taken for
the old one: setting that again was reported as done without telling the unit.
---
 comfoserver/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 6aaa307..194bb6a 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -76,7 +76,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	tempLock.Lock()
 	defer tempLock.Unlock()
 
-	origTemp := tempCache.get().Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -84,6 +83,10 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
+	// The temperature may have been changed on the unit's own panel
+	tempCache.Update(true)
+	origTemp := tempCache.get().Comfort
+
 	if uint8(origTemp) != targetTemp {
 
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
-- 
2.43.0


From 72366469586ef0c9301e91049ddc48a080b35af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 22/22] fix: discard what's received after a single failed read

---
 libcomfo/conn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index d16ad95..b4a64a8 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -107,10 +107,11 @@ func receivedLate(conn io.Reader) bool {
 	}
 }
 
-// discard drops everything received until the timer expires or the connection fails.
+// discard drops everything received until the timer expires or the connection fails
+// twice in a row: more may be received after a single failure.
 func discard(conn io.Reader, timer *time.Timer) {
 
-	for {
+	for failed := 0; failed < 2; {
 		c := startRead(conn)
 
 		select {
@@ -124,7 +125,9 @@ func discard(conn io.Reader, timer *time.Timer) {
 		cm.Unlock()
 
 		if c.err != nil {
-			return
+			failed++
+		} else {
+			failed = 0
 		}
 	}
 }
-- 
2.43.0

