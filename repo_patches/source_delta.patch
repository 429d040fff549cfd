From aca917b23a645131c02a0e12a31463082605139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 01/32] fix: last common ancestor lookup of branches with
 different numbers of skip links

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..b0c0172 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) {
+			continue // After a jump the link could have fewer parents.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From a5375e670724f5c4ca00dd907abfcb1b04f7861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 02/32] fix: forks report without leashes

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..ee4451c 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -522,6 +522,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		}
 		r = append(r, frk)
 	}
+	if len(r) == 0 {
+		return r, nil // No leashes, no forks.
+	}
 	sort.Sort(byScoreAndPeersDesc(r))
 
 	longest := r[0]
-- 
2.43.0


From f7fafbe4d1a67b21bdfaa3d51890168218170315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 03/32] fix: active forks must not fall back to all peers if no
 connected peer is selected

---
 api/api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/api.go b/api/api.go
index c6f42c5..4f1c092 100644
--- a/api/api.go
+++ b/api/api.go
@@ -308,6 +308,12 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 		}
 		ps[conn.ID()] = struct{}{}
 	}
+	if len(ps) == 0 { // Empty set of peers means no filter for Forks, but here nothing is selected.
+		if err = json.NewEncoder(w).Encode([]chains.Fork{}); err != nil {
+			http.Error(w, fmt.Sprintf("Failed to marshal status to JSON: %v", err), http.StatusInternalServerError)
+		}
+		return
+	}
 	forks, err := a.linkage.Forks(ps)
 	if err != nil {
 		http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
-- 
2.43.0


From f9f5a6e74f9b25cc017172193cc5ad8435a70071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 04/32] fix: refuse peers recorded as hostile

---
 peers/registry.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..e5d244c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,12 +82,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
 		p = Peer{}
 	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
+	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
-- 
2.43.0


From d892cf9d8d4e6596519522762de6177cc241f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 05/32] fix: empty application name in handshake

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index e5d244c..2fc5433 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -96,7 +96,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if an := np.Handshake().AppName; len(an) == 0 || an[len(an)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
-- 
2.43.0


From 9070485b4da1473741ffe1ec0a1a90d2d65435bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 06/32] fix: close refused connections

---
 peers/registry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 2fc5433..49f18a7 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -72,6 +72,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -138,6 +139,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From ad7f401f1cd7002017d189ecc2dd1bc7e97327fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 07/32] fix: do not list connections of peers that were not
 recorded

---
 peers/registry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 49f18a7..455cc9c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -117,9 +117,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return putErr
+	}
 	r.connections[addr] = np
-
-	return r.storage.putPeer(p)
+	return nil
 }
 
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
-- 
2.43.0


From 5d66dba93fbc950fe4173a39d9274ece50f8c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 08/32] fix: record hostile peers with malformed names

---
 peers/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index 455cc9c..4971ad9 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"net/netip"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -94,6 +95,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = strings.ToValidUTF8(p.Name, "?")
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
@@ -101,6 +103,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = strings.ToValidUTF8(p.Name, "?")
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-- 
2.43.0


From 084d2a94c348c7945c88c7e63c7ee3879a3c234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 09/32] fix: finish failed synchronization on storage errors

---
 loading/peer_loader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..3604a49 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -241,7 +241,9 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
 			if err := pl.hp.PutBlock(it.received, pl.peer.ID()); err != nil {
-				return err
+				zap.S().Warnf("Failed to apply block '%s' for peer '%s': %v",
+					it.received.BlockID(), pl.peer.ID(), err)
+				break
 			}
 		} else {
 			break // Stop on first not received block.
-- 
2.43.0


From 0b2b03fe5b2097dadc4438bab560695bb8f689e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 10/32] fix: do not apply blocks of the previous round on
 timeout

---
 loading/peer_loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index 3604a49..dc918bb 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -150,6 +150,7 @@ func (pl *peerLoader) onTick(_ context.Context, args ...any) error {
 }
 
 func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
+	pl.queue = queue{} // Forget blocks of the previous round.
 	leash, err := pl.hp.Leash(pl.peer.ID())
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
@@ -164,6 +165,7 @@ func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
 }
 
 func (pl *peerLoader) requestIDsFromLCA(_ context.Context, _ ...any) error {
+	pl.queue = queue{} // Forget blocks of the previous round.
 	lca, err := pl.hp.LCB(pl.peer.ID())
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
-- 
2.43.0


From 48319dc5ec13258b0c9df13cd04e4e56f38a6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 11/32] fix: distributor must not block on loader after
 termination

---
 distributor.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 2807b88..14ab825 100644
--- a/distributor.go
+++ b/distributor.go
@@ -210,7 +210,10 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to append block: %w", err)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
-	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
+	select {
+	case d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}:
+	case <-d.ctx.Done():
+	}
 	return nil
 }
 
@@ -263,7 +266,10 @@ func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypt
 		ids[i] = proto.NewBlockIDFromSignature(s)
 	}
 	zap.S().Debugf("[DTR] Signatures received from '%s'", ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	select {
+	case d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}:
+	case <-d.ctx.Done():
+	}
 }
 
 func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID) {
@@ -278,7 +284,10 @@ func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID)
 	}
 	zap.S().Debugf("[DTR] Block IDs [%s..%s] received from %s",
 		ids[0].ShortString(), ids[len(ids)-1].ShortString(), ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	select {
+	case d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}:
+	case <-d.ctx.Done():
+	}
 }
 
 func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.MicroBlockInvMessage) {
-- 
2.43.0


From 32f76f52d107c298ac55a5c532babbbb6e146555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 12/32] fix: refuse blocks with out of range base target or
 timestamp

---
 chains/storage_entities.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chains/storage_entities.go b/chains/storage_entities.go
index f395ad2..a84cb63 100644
--- a/chains/storage_entities.go
+++ b/chains/storage_entities.go
@@ -3,6 +3,7 @@ package chains
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"math/big"
 	"net"
 	"net/netip"
@@ -69,6 +70,12 @@ func newBlock(scheme proto.Scheme, b *proto.Block, height uint32, parentScore *b
 	if err != nil {
 		return block{}, fmt.Errorf("failed to create new block: %w", err)
 	}
+	if b.BaseTarget > math.MaxInt64 {
+		return block{}, fmt.Errorf("failed to create new block: base target %d is too big", b.BaseTarget)
+	}
+	if b.Timestamp >= math.MaxInt64 {
+		return block{}, fmt.Errorf("failed to create new block: timestamp %d is too large", b.Timestamp)
+	}
 	return block{
 		Height:    height,
 		Timestamp: b.Timestamp,
-- 
2.43.0


From 5337c1550d0a21110cacfbe89bd16b5830f2a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 13/32] fix: close incoming connections that are not served

---
 connection_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index fdca406..ff2ee19 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -72,10 +72,12 @@ func (h *ConnectionManager) Accept(ctx context.Context, conn net.Conn) error {
 
 	ap, err := netip.ParseAddrPort(conn.RemoteAddr().String())
 	if err != nil {
+		_ = conn.Close()
 		return fmt.Errorf("failed to handle incoming connection: %w", err)
 	}
 	ver, err := h.vp.SuggestVersion(ap.Addr())
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 	params := incoming.PeerParams{
-- 
2.43.0


From 8c67af7adc563c409f37f4be1e64bf9e8f71d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 14/32] fix: keep dialing after a storage error

---
 respawn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/respawn.go b/respawn.go
index 0a9aaef..c2670da 100644
--- a/respawn.go
+++ b/respawn.go
@@ -65,6 +65,7 @@ func (r *Respawn) handleEvents() error {
 
 			if err != nil {
 				zap.S().Warnf("Failed to take available addresses: %v", err)
+				r.timer.Reset(respawnInterval)
 				continue
 			}
 			r.establishConnections(addresses)
-- 
2.43.0


From 78b64a3723767857057bcd73acd2c44fbeb3d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 15/32] fix: shutdown of a listener that failed to start

---
 listener.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/listener.go b/listener.go
index 377ff37..047d92f 100644
--- a/listener.go
+++ b/listener.go
@@ -49,9 +49,11 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if err := l.nl.Close(); err != nil {
-		zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
-		return
+	if l.nl != nil {
+		if err := l.nl.Close(); err != nil {
+			zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
+			return
+		}
 	}
 	if err := l.wait(); err != nil {
 		zap.S().Warnf("Failed to shutdown Listener: %v", err)
-- 
2.43.0


From 7c8dc0ea70323bd64f6dfbe16d3a927af34ac06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 16/32] fix: number of blocks in generators request

---
 api/api.go        | 4 ++++
 chains/storage.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 4f1c092..d7e8582 100644
--- a/api/api.go
+++ b/api/api.go
@@ -370,6 +370,10 @@ func (a *API) forkGenerators(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, fmt.Sprintf("Invalid number of blocks '%s'", addr), http.StatusBadRequest)
 		return
 	}
+	if c < 0 {
+		http.Error(w, fmt.Sprintf("Invalid number of blocks '%s'", count), http.StatusBadRequest)
+		return
+	}
 
 	ok, err := a.linkage.HasLeash(peer)
 	if err != nil {
diff --git a/chains/storage.go b/chains/storage.go
index b0c0172..45c731d 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0)
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From a8bb52f5d79165ae54c01890423d56d94367dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 17/32] fix: recursive read lock in initial statistics

---
 chains/linkage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index ee4451c..86f9be2 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -239,7 +239,7 @@ func (l *Linkage) LogInitialStats() {
 	}
 	zap.S().Infof("Heads count in storage: %d", len(heads))
 	for _, head := range heads {
-		b, blErr := l.Block(head.BlockID)
+		b, blErr := l.block(head.BlockID)
 		if blErr != nil {
 			zap.S().Errorf("Failed to get block: %v", blErr)
 			return
-- 
2.43.0


From 4e1bec6b2f7f1a62bbae6b1545bfa60fa2e64a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 18/32] fix: panic on IPv6 listening and declared addresses

---
 parameters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..c10477e 100644
--- a/parameters.go
+++ b/parameters.go
@@ -212,7 +212,7 @@ func checkName(str string) (string, error) {
 
 func parseAddress(addr string) proto.TCPAddr {
 	ap, err := netip.ParseAddrPort(addr)
-	if err != nil {
+	if err != nil || !ap.Addr().Unmap().Is4() {
 		return proto.TCPAddr{}
 	}
 	ip4 := ap.Addr().As4()
-- 
2.43.0


From 73bde0daf196a9193f0fc144c7ae46bb6bc65ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 19/32] fix: repeated versions stall the version negotiation

---
 peers/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 4971ad9..b75a446 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -378,7 +379,7 @@ func newVersions(vs []proto.Version) versions {
 	for i, v := range sorted {
 		sorted[i] = proto.NewVersion(v.Major(), v.Minor(), 0)
 	}
-	return versions(sorted)
+	return versions(slices.Compact(sorted))
 }
 
 func (vs versions) bestVersion() proto.Version {
-- 
2.43.0


From ba86cea130f44dd52ce5a2db1044457d41ff8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 20/32] fix: give up the synchronizing peer on storage errors

---
 loading/loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..4716c14 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -131,11 +131,13 @@ func (l *Loader) OK() {
 		p, err := l.registry.Peer(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get connection: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		score, err := l.linkage.LeashScore(l.pl.peer.ID())
 		if err != nil {
 			zap.S().Warnf("Failed to get peers score: %v", err)
+			l.resetLoadingPeer()
 			return
 		}
 		if diff, lagging := l.isLagging(p.Score, score); lagging {
-- 
2.43.0


From 415a642a4ec8f38220fa074fa71c55abee0cfd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 21/32] fix: report iteration errors of storages

---
 chains/storage.go | 6 ++++++
 peers/storage.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 45c731d..6fd2919 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -435,6 +435,9 @@ func (s *storage) leashes() ([]Leash, error) {
 		}
 		r = append(r, Leash{Addr: addr, BlockID: id})
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to get leashes: %w", itErr)
+	}
 	return r, nil
 }
 
@@ -681,5 +684,8 @@ func (s *storage) getHeads(sn *leveldb.Snapshot) ([]uint64, []uint64, error) {
 		headNums = append(headNums, num)
 		blockNums = append(blockNums, binary.BigEndian.Uint64(it.Value()))
 	}
+	if err := it.Error(); err != nil {
+		return nil, nil, err
+	}
 	return headNums, blockNums, nil
 }
diff --git a/peers/storage.go b/peers/storage.go
index b653beb..ca78794 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -152,6 +152,9 @@ func (s *storage) peers() ([]Peer, error) {
 		}
 		r = append(r, p)
 	}
+	if itErr := it.Error(); itErr != nil {
+		return nil, fmt.Errorf("failed to collect peers: %w", itErr)
+	}
 	return r, nil
 }
 
-- 
2.43.0


From 4bd75503b798a5bcc944aff12329ea93c613d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 22/32] fix: judge handshake versions without unsigned
 wrap-around

Version.CmpMinor squares the unsigned difference of the minor numbers, so a
handshake with minor number 2^32-1 or about 2^31 away from the recorded one
was taken as compatible and admitted.
---
 peers/registry.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index b75a446..c8cd17c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -92,7 +92,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
 	}
 
-	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
+	if !compatible(np.Handshake().Version, p.Version) {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
@@ -129,6 +129,13 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	return nil
 }
 
+// compatible reports whether the versions have the same major number and minor numbers at most one apart.
+// Version.CmpMinor can't be used here, because its unsigned arithmetic wraps around on distant minor numbers.
+func compatible(a, b proto.Version) bool {
+	x, y := int64(a.Minor()), int64(b.Minor())
+	return a.Major() == b.Major() && x-y <= 1 && y-x <= 1
+}
+
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-- 
2.43.0


From 56315b1f1e9146cd302a7f4342a1188a16e174c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 23/32] fix: forget the lag of a failed synchronization

The lag remembered from a session that timed out was compared with the lag
in a later session, possibly with another peer, so a round that had brought
progress could be taken as stalled and the session ended early.
---
 loading/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loading/loader.go b/loading/loader.go
index 4716c14..13e7f37 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -155,7 +155,7 @@ func (l *Loader) Fail() {
 	if l.pl != nil && l.pl.sm.MustState() == stateDone {
 		zap.S().Debugf("[LDR] Peer '%s' failed to load history", l.pl.peer.ID())
 		l.fc.inc(l.pl.peer.ID())
-		l.pl = nil
+		l.resetLoadingPeer()
 	}
 }
 
-- 
2.43.0


From f1f278189059370e01b669ec02078d7d22510990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 24/32] fix: complete a round that requests a block twice

A list of identifiers with a repeated identifier made a queue that was never
ready, because only the first of the equal items received the block.
---
 loading/queue.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/loading/queue.go b/loading/queue.go
index 8394403..5d4ca63 100644
--- a/loading/queue.go
+++ b/loading/queue.go
@@ -30,7 +30,6 @@ func (q *queue) put(block *proto.Block) {
 	for i, p := range q.q {
 		if p.requested == block.BlockID() {
 			q.q[i].received = block
-			return
 		}
 	}
 }
-- 
2.43.0


From b540b2a344d6327e20bfaa932536fa9d01a3425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 25/32] fix: drop micro-block announcements without payload

---
 connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index ff2ee19..e50ed56 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -117,6 +117,9 @@ func (h *ConnectionManager) Connect(ctx context.Context, addr proto.TCPAddr) err
 }
 
 func (h *ConnectionManager) skipFunc(header proto.Header) bool {
+	if header.ContentID == proto.ContentIDInvMicroblock && header.PayloadLength == 0 {
+		return true // The message without a payload can't be unmarshaled, an attempt to do so panics.
+	}
 	if r, ok := h.discarded[header.ContentID]; ok {
 		return r
 	}
-- 
2.43.0


From 9f92f5b46968ef82ed8c046b85a4ab71493a8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 26/32] fix: forget the connection of a peer even if its record
 can't be read

---
 peers/registry.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index c8cd17c..0475fff 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -177,6 +177,9 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	delete(r.pending, addr)
+	delete(r.connections, addr)
+
 	p, err := r.storage.peer(addr)
 	if err != nil {
 		if errors.Is(err, leveldb.ErrNotFound) {
@@ -185,9 +188,6 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 		return fmt.Errorf("failed to unregister peer '%s': %w", addr.String(), err)
 	}
 
-	delete(r.pending, addr)
-	delete(r.connections, addr)
-
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
 	p.p = nil
 
-- 
2.43.0


From 079e835cbd6ab10a963340ee624eee00b76c7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 27/32] fix: refuse binary blocks with counters beyond their
 size

---
 distributor.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/distributor.go b/distributor.go
index 14ab825..9350a21 100644
--- a/distributor.go
+++ b/distributor.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
@@ -177,6 +178,10 @@ func (d *Distributor) handleScoreMessage(peer peer.Peer, score []byte) {
 }
 
 func (d *Distributor) handleBlockMessage(peer peer.Peer, bm *proto.BlockMessage) {
+	if err := checkBlockCounters(bm.BlockBytes); err != nil {
+		zap.S().Warnf("Invalid block from peer '%s': %v", peer.RemoteAddr().String(), err)
+		return
+	}
 	b := &proto.Block{}
 	if err := b.UnmarshalBinary(bm.BlockBytes, d.scheme); err != nil {
 		zap.S().Warnf("Failed to unmarshal block from peer '%s': %v", peer.RemoteAddr().String(), err)
@@ -188,6 +193,32 @@ func (d *Distributor) handleBlockMessage(peer peer.Peer, bm *proto.BlockMessage)
 	}
 }
 
+// checkBlockCounters refuses a binary block with the number of transactions or features that can't fit in the block.
+// Unmarshalling allocates memory by these numbers alone, so a short message could exhaust the memory of the process.
+func checkBlockCounters(data []byte) error {
+	const (
+		txsLengthPos = 117
+		txsCountPos  = txsLengthPos + 4
+		minTxSize    = 4
+		featureSize  = 2
+	)
+	size := uint64(len(data))
+	if size < txsCountPos+4 || proto.BlockVersion(data[0]) < proto.NgBlockVersion {
+		return nil // Small numbers or an invalid block that is refused on unmarshalling.
+	}
+	if c := binary.BigEndian.Uint32(data[txsCountPos:]); uint64(c)*minTxSize > size {
+		return fmt.Errorf("block of %d bytes can't contain %d transactions", size, c)
+	}
+	featuresPos := txsCountPos + uint64(binary.BigEndian.Uint32(data[txsLengthPos:]))
+	if size < featuresPos+4 {
+		return nil // Invalid block.
+	}
+	if c := binary.BigEndian.Uint32(data[featuresPos:]); uint64(c)*featureSize > size {
+		return fmt.Errorf("block of %d bytes can't contain %d features", size, c)
+	}
+	return nil
+}
+
 func (d *Distributor) handleProtoBlockMessage(peer peer.Peer, bm *proto.PBBlockMessage) {
 	b := &proto.Block{}
 	if err := b.UnmarshalFromProtobuf(bm.PBBlockBytes); err != nil {
-- 
2.43.0


From 8b5f1930c2eaf865caa22afc4bb0a7591a2488c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 28/32] fix: survive protobuf blocks with malformed
 transactions

---
 distributor.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/distributor.go b/distributor.go
index 9350a21..bf70fa5 100644
--- a/distributor.go
+++ b/distributor.go
@@ -220,16 +220,30 @@ func checkBlockCounters(data []byte) error {
 }
 
 func (d *Distributor) handleProtoBlockMessage(peer peer.Peer, bm *proto.PBBlockMessage) {
-	b := &proto.Block{}
-	if err := b.UnmarshalFromProtobuf(bm.PBBlockBytes); err != nil {
+	b, err := unmarshalProtobufBlock(bm.PBBlockBytes)
+	if err != nil {
 		zap.S().Warnf("Failed to unmarshal protobuf block from peer '%s': %v",
 			peer.RemoteAddr().String(), err)
 		return
 	}
 	zap.S().Infof("Block '%s' received from peer '%s'", b.BlockID().String(), peer.RemoteAddr().String())
-	if err := d.handleBlock(b, peer.RemoteAddr()); err != nil {
-		zap.S().Warnf("Failed to handle block from peer '%s': %v", peer.RemoteAddr().String(), err)
+	if hErr := d.handleBlock(b, peer.RemoteAddr()); hErr != nil {
+		zap.S().Warnf("Failed to handle block from peer '%s': %v", peer.RemoteAddr().String(), hErr)
+	}
+}
+
+// unmarshalProtobufBlock turns a panic of the decoder, that happens on a malformed transaction, into an error.
+func unmarshalProtobufBlock(data []byte) (b *proto.Block, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("malformed block: %v", r)
+		}
+	}()
+	b = &proto.Block{}
+	if umErr := b.UnmarshalFromProtobuf(data); umErr != nil {
+		return nil, umErr
 	}
+	return b, nil
 }
 
 func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error {
-- 
2.43.0


From 117729743d5a89a6d72638b02bc9544b7bd2f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 29/32] fix: refuse blocks with timestamps that can't be
 presented in JSON

---
 chains/storage_entities.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chains/storage_entities.go b/chains/storage_entities.go
index a84cb63..5f99263 100644
--- a/chains/storage_entities.go
+++ b/chains/storage_entities.go
@@ -65,6 +65,9 @@ type block struct {
 	Generator []byte   `cbor:"5,keyasint"`
 }
 
+// maxTimestamp is the beginning of the year 9999, the times after that year can't be presented in JSON.
+const maxTimestamp = 253370764800000
+
 func newBlock(scheme proto.Scheme, b *proto.Block, height uint32, parentScore *big.Int) (block, error) {
 	ga, err := proto.NewAddressFromPublicKey(scheme, b.GeneratorPublicKey)
 	if err != nil {
@@ -73,7 +76,7 @@ func newBlock(scheme proto.Scheme, b *proto.Block, height uint32, parentScore *b
 	if b.BaseTarget > math.MaxInt64 {
 		return block{}, fmt.Errorf("failed to create new block: base target %d is too big", b.BaseTarget)
 	}
-	if b.Timestamp >= math.MaxInt64 {
+	if b.Timestamp > maxTimestamp {
 		return block{}, fmt.Errorf("failed to create new block: timestamp %d is too large", b.Timestamp)
 	}
 	return block{
-- 
2.43.0


From 45d92eba90145b8b1dfc4e879443a85037b09441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 30/32] fix: keep the peer registered when another connection
 with its address fails

Connections are registered by IP address. A failed attempt to connect to a peer
that had connected to us in the meantime, or a failure of its replaced
connection, removed the live connection from the registry.
---
 distributor.go    |  2 +-
 peers/registry.go | 29 +++++++++++++++++++++++++++++
 respawn.go        |  2 +-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/distributor.go b/distributor.go
index bf70fa5..2471703 100644
--- a/distributor.go
+++ b/distributor.go
@@ -136,7 +136,7 @@ func (d *Distributor) handleInternalError(peer peer.Peer, ie *peer.InternalErr)
 	if clErr := peer.Close(); clErr != nil {
 		zap.S().Warnf("Failed to close peer '%s' connection: %v", ap.Addr().String(), clErr)
 	}
-	if urErr := d.registry.UnregisterPeer(ap.Addr()); urErr != nil {
+	if urErr := d.registry.UnregisterConnection(ap.Addr(), peer); urErr != nil {
 		zap.S().Warnf("Failed to unregister peer '%s': %v", ap.Addr().String(), urErr)
 	}
 }
diff --git a/peers/registry.go b/peers/registry.go
index 0475fff..a1bc306 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -177,6 +177,35 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	return r.unregister(addr)
+}
+
+// UnregisterConnection unregisters the peer after a failure of its connection. A failure of any other connection with
+// the same address, for example of a replaced one, doesn't affect the registered peer.
+func (r *Registry) UnregisterConnection(addr netip.Addr, np peer.Peer) error {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	if c, ok := r.connections[addr]; !ok || c != np {
+		return nil
+	}
+	return r.unregister(addr)
+}
+
+// UnregisterPending ends the failed attempt to connect to the address. The peer that has connected to us in the meantime
+// stays registered.
+func (r *Registry) UnregisterPending(addr netip.Addr) error {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	if _, ok := r.connections[addr]; ok {
+		delete(r.pending, addr)
+		return nil
+	}
+	return r.unregister(addr)
+}
+
+func (r *Registry) unregister(addr netip.Addr) error {
 	delete(r.pending, addr)
 	delete(r.connections, addr)
 
diff --git a/respawn.go b/respawn.go
index c2670da..c9fcf9a 100644
--- a/respawn.go
+++ b/respawn.go
@@ -80,7 +80,7 @@ func (r *Respawn) establishConnections(addresses []netip.AddrPort) {
 			addr := proto.NewTCPAddrFromString(ap.String())
 			if cErr := r.cm.Connect(r.ctx, addr); cErr != nil {
 				zap.S().Debugf("[RSP] Failed to establish outbound connection: %v", cErr)
-				if urErr := r.reg.UnregisterPeer(ap.Addr()); urErr != nil {
+				if urErr := r.reg.UnregisterPending(ap.Addr()); urErr != nil {
 					zap.S().Warnf("Failed to unregister peer on connection failure: %v", urErr)
 					return
 				}
-- 
2.43.0


From 52aad90f9b9e571639a8c233e4a6a47c2bfcd807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 31/32] fix: don't wait for connections when sending messages

Sending to a connection with the full queue blocks, and forever if the connection is closed. A peer that doesn't read
could stop the whole service by a flood of requests for peers or by an announcement of many blocks.
---
 distributor.go    |  2 +-
 peers/outbox.go   | 71 +++++++++++++++++++++++++++++++++++++++++++++++
 peers/registry.go | 12 ++++++--
 3 files changed, 82 insertions(+), 3 deletions(-)
 create mode 100644 peers/outbox.go

diff --git a/distributor.go b/distributor.go
index 2471703..d802cfa 100644
--- a/distributor.go
+++ b/distributor.go
@@ -297,7 +297,7 @@ func (d *Distributor) handleGetPeersMessage(peer peer.Peer) {
 	peersMessage := &proto.PeersMessage{
 		Peers: infos,
 	}
-	peer.SendMessage(peersMessage)
+	d.registry.Send(peer, peersMessage)
 }
 
 func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypto.Signature) {
diff --git a/peers/outbox.go b/peers/outbox.go
new file mode 100644
index 0000000..e2b908f
--- /dev/null
+++ b/peers/outbox.go
@@ -0,0 +1,71 @@
+package peers
+
+import (
+	"sync"
+
+	"go.uber.org/zap"
+
+	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
+	"github.com/wavesplatform/gowaves/pkg/proto"
+)
+
+const outboxLimit = 1000
+
+// outbox passes messages to connections without waiting for them, the order of messages of a connection is preserved.
+// Sending a message to a connection with the full queue may block, and if the connection is closed it blocks forever.
+type outbox struct {
+	mu     sync.Mutex
+	queues map[peer.Peer][]proto.Message
+}
+
+func newOutbox() *outbox {
+	return &outbox{queues: make(map[peer.Peer][]proto.Message)}
+}
+
+func (o *outbox) send(p peer.Peer, msg proto.Message) {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+
+	queue, sending := o.queues[p]
+	if len(queue) >= outboxLimit {
+		zap.S().Debugf("[REG] Too many messages for peer '%s', message %T is dropped", p.ID().String(), msg)
+		return
+	}
+	o.queues[p] = append(queue, msg)
+	if !sending {
+		go o.run(p)
+	}
+}
+
+func (o *outbox) run(p peer.Peer) {
+	for {
+		msg, ok := o.next(p)
+		if !ok {
+			return
+		}
+		p.SendMessage(msg)
+	}
+}
+
+func (o *outbox) next(p peer.Peer) (proto.Message, bool) {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+
+	queue := o.queues[p]
+	if len(queue) == 0 {
+		delete(o.queues, p)
+		return nil, false
+	}
+	o.queues[p] = queue[1:]
+	return queue[0], true
+}
+
+// outboxPeer is the connection with messages sent through the outbox.
+type outboxPeer struct {
+	peer.Peer
+	out *outbox
+}
+
+func (p outboxPeer) SendMessage(msg proto.Message) {
+	p.out.send(p.Peer, msg)
+}
diff --git a/peers/registry.go b/peers/registry.go
index a1bc306..0e677c5 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -32,6 +32,8 @@ type Registry struct {
 	mu          sync.Mutex
 	connections map[netip.Addr]peer.Peer
 	pending     map[netip.Addr]struct{}
+
+	out *outbox
 }
 
 func NewRegistry(
@@ -55,6 +57,7 @@ func NewRegistry(
 		storage:     s,
 		connections: make(map[netip.Addr]peer.Peer),
 		pending:     make(map[netip.Addr]struct{}),
+		out:         newOutbox(),
 	}, nil
 }
 
@@ -258,7 +261,7 @@ func (r *Registry) Connections() ([]Peer, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to get active connetcions: %w", err)
 		}
-		sp.p = p
+		sp.p = outboxPeer{Peer: p, out: r.out}
 		connections[i] = sp
 		i++
 	}
@@ -403,10 +406,15 @@ func (r *Registry) Broadcast(msg proto.Message) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	for _, p := range r.connections {
-		p.SendMessage(msg)
+		r.out.send(p, msg)
 	}
 }
 
+// Send sends the message to the connection without waiting for it.
+func (r *Registry) Send(p peer.Peer, msg proto.Message) {
+	r.out.send(p, msg)
+}
+
 type versions []proto.Version
 
 func newVersions(vs []proto.Version) versions {
-- 
2.43.0


From 17d550d51996d499d76573926b2c0dcdd3f8d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 32/32] fix: guard the network listener shared by Run and
 Shutdown

---
 listener.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/listener.go b/listener.go
index 047d92f..b457e44 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"net"
+	"sync"
 
 	"go.uber.org/zap"
 	"golang.org/x/sync/errgroup"
@@ -18,6 +19,8 @@ type Listener struct {
 	declared proto.TCPAddr
 
 	cm *ConnectionManager
+
+	mu sync.Mutex // guards nl, set on start and closed on shutdown
 	nl net.Listener
 }
 
@@ -49,8 +52,11 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if l.nl != nil {
-		if err := l.nl.Close(); err != nil {
+	l.mu.Lock()
+	nl := l.nl
+	l.mu.Unlock()
+	if nl != nil {
+		if err := nl.Close(); err != nil {
 			zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
 			return
 		}
@@ -68,14 +74,16 @@ func (l *Listener) run() error {
 	if err != nil {
 		return err
 	}
+	l.mu.Lock()
 	l.nl = nl
+	l.mu.Unlock()
 
 	for {
 		select {
 		case <-l.ctx.Done():
 			return nil
 		default:
-			conn, acErr := l.nl.Accept()
+			conn, acErr := nl.Accept()
 			if acErr != nil {
 				zap.S().Errorf("Failed to accept connection: %v", acErr)
 				continue
-- 
2.43.0

