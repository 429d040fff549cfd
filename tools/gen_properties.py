#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for titles, statements and anchors)."""
import json, os
P=[]
def p(id,title,stmt,over,quant,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":quant},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(obs),"hook_needed":None}})
CS="chains/storage.go"; CL="chains/linkage.go"; CE="chains/storage_entities.go"; CU="chains/utils.go"
p("C01","Every stored block keeps its exact parent, height, score and origin",
 "For every tree of accepted blocks, each stored block reports its own identifier and parent, a height one above its parent, a cumulative score equal to the parent's score plus floor(2^64 / base target) (nothing for a zero base target), its timestamp and its generator's address. The genesis block is always present at height 1, and what is stored about a block never changes afterwards, whatever is added later or when the storage is reopened.",
 ["histories","inputs"],"every tree shape and insertion order up to 5 blocks (both identifier kinds), long chains across powers of two and 255/256 blocks, boundary base targets and timestamps, with and without reopening",
 "Tests insert a couple of fixed chains and look at single fields; they never compare the whole stored tree after every step of every small history.",
 [CL,CS,CE,CU],[("block insertion","chains/storage.go: putProtoBlock"),("attributes","chains/storage_entities.go: newBlock"),("score","chains/utils.go: calculateScore")],
 [("block record","height, timestamp, cumulative score, parent, generator by block number","chains/storage_entities.go: block")],["Linkage.Block","Linkage.HasBlock","Linkage.LeashScore"])
p("C02","Unlinked blocks are refused and repeated blocks change nothing but the leash",
 "A block whose parent is not stored, or a micro-block whose reference is not stored, is refused with the dedicated not-found error and changes nothing at all: no block, head, leash or fork. Announcing an already stored block or micro-block again, by any peer, succeeds and changes nothing except that peer's leash, which moves to it.",
 ["histories","inputs"],"every sequence up to depth 5 over in-order, out-of-order, orphan and repeated blocks and micro-blocks from two peers, compared on the complete observable state after each step",
 "Tests try one orphan; they do not check that the whole observable state is untouched, nor repeats at every point of a history.",
 [CL,CS],[("existence and parent checks","chains/linkage.go: PutBlock, PutMicroBlock")],[],["Linkage.PutBlock","Linkage.PutMicroBlock","all read methods"])
p("C03","A micro-block takes the place of the block it extends",
 "A micro-block with a stored, non-genesis reference is stored under its total block identifier with the same parent, height, score, timestamp and generator as its reference. Both the reference and the micro-block stay stored and can each be extended, by key blocks and further micro-blocks, with the heights and scores following from their own predecessor.",
 ["histories","inputs"],"every sequence of block and micro-block insertions up to depth 5 with every choice of reference, including chains of micro-blocks and forks around them",
 "Tests contain one short micro-block example; combinations with forks, repeats and later key blocks are unbounded.",
 [CL,CS],[("micro-block insertion","chains/storage.go: putMicroBlock")],[],["Linkage.PutMicroBlock","Linkage.Block","Linkage.Heads"])
p("C04","A peer's leash is the last known block it announced",
 "Each peer's leash is the stored block it announced last (block, micro-block or explicit move), the genesis block if it never announced any; other peers' actions never alter it, and it always designates a stored block. The list of leashes contains each peer that announced something exactly once with its current leash, for IPv4 and IPv6 addresses alike, and the score of a leash is the score of that block.",
 ["histories","inputs"],"every sequence up to depth 5 of announcements and moves by up to three peers with colliding address bytes (IPv4, IPv6), over a forked tree with micro-blocks",
 "Tests use one or two peers with fixed sequences and IPv4 only.",
 [CL,CS],[("leash update","chains/storage.go: updateLeash"),("leash listing","chains/storage.go: leashes")],
 [("leash record","block identifier by peer address","chains/storage.go: putLeash")],["Linkage.Leash","HasLeash","Leashes","LeashScore"])
p("C05","Chain heads are exactly the blocks nobody has built upon",
 "After every accepted block or micro-block the list of heads contains exactly the stored blocks that no stored block or micro-block was built directly upon, each exactly once. Head numbers are unique and start at 1; extending a head keeps its number, and branching off any other block gives the new head the next unused number. The active heads are exactly those heads that some peer is currently leashed to, in the same order.",
 ["histories","inputs"],"every tree shape and insertion order up to 6 insertions of blocks and micro-blocks, plus trees with more than 256 heads",
 "Tests check two fixed forks; head numbering depends on the complete insertion history.",
 [CL,CS],[("head maintenance","chains/storage.go: putHead, putNewHead"),("listing","chains/storage.go: getHeads")],
 [("head maps","head number to block number and back","chains/storage.go")],["Linkage.Heads","Linkage.ActiveHeads"])
p("C06","The last common block is the deepest block two branches share",
 "For every tree of stored blocks and every pair of leashed peers, the last common block reported for a peer is the deepest block that is an ancestor of, or equal to, both its own leash and the head of the longest leashed chain. It is computed without error or crash for every branch length and position of the branching point. For an unleashed peer it is the genesis block.",
 ["inputs","histories"],"all pairs of branch lengths up to 40 (quick) / 130 (thorough) from every branching depth up to 12 / 70, plus every tree with up to 5 blocks, micro-block ends included, against a naive parent walk",
 "Tests check a dozen pairs in one tree of depth 5; skip-pointer arithmetic differs at every height.",
 [CS,CL],[("skip pointers","chains/storage.go: putNewLinkForBlock"),("search","chains/storage.go: lca, fastBackwardFarthest")],
 [("link record","skip pointers by block number","chains/storage_entities.go: link")],["Linkage.LCB","Linkage.Fork","Linkage.Forks"])
p("C07","The forks report is exact",
 "The forks report lists each distinct leashed block of the selected peers exactly once with exactly the selected peers leashed to it, ordered by score and then by number of peers, both descending. The first one is the only one marked longest; every entry carries its head's identifier, timestamp, generator, height and score, the deepest block it shares with the longest, and the number of blocks above that; with no matching leash the report is empty. Asking for a single peer's fork gives the same data as the full report (or, when it is tied for longest, either form of the tie).",
 ["histories","inputs","configurations"],"every assignment of up to 4 peers to the blocks of every small tree and of forked trees with equal and unequal scores, with every peer filter",
 "Tests contain one fixed layout; partition, order and lengths depend on every leash and tree combination.",
 [CL,"chains/entities.go"],[("fork report","chains/linkage.go: forks, Fork"),("ordering","chains/entities.go: byScoreAndPeersDesc")],[],["Linkage.Forks","Linkage.Fork","Linkage.LCB"])
p("C08","Fork statistics and generator tallies count exactly",
 "The statistics count every fork of the full report exactly once: those longer than 5 blocks as long, all others as short. The generator tally of a block for a count N attributes the latest min(N, height) blocks of its chain, itself included, to their generators exactly, sorted by number of blocks in descending order; it neither fails nor exceeds the chain for any non-negative count.",
 ["inputs","histories"],"every small tree with every leash assignment, fork lengths 0 to 8 around the threshold, every start block and count from 0 to height + 3 and extreme counts",
 "No test exercises statistics; the tally is unbounded in count and chain shape.",
 [CL,CS],[("statistics","chains/linkage.go: Stats"),("tally","chains/linkage.go: ForkGenerators; chains/storage.go: getBlocks")],[],["Linkage.Stats","Linkage.ForkGenerators"])
p("C09","Ancestry listings follow the chain from newest to oldest",
 "Listing the last N identifiers from any stored block returns that block, then its parent, and so on, in order, without gaps or repeats, ending at the genesis block or after N entries, whichever comes first. Listing from an unknown block is an error. It does not depend on other branches or on the order in which blocks were added.",
 ["inputs","histories"],"every start block and every N in every tree up to 5 insertions incl. micro-blocks, and chains up to 300 blocks with N around 100",
 "Tests list one short chain.",
 [CS,CL],[("ancestor walk","chains/storage.go: getAncestors")],[],["Linkage.LastIDs"])
p("C10","Chain storage survives a crash at any point",
 "If the process dies at any moment while blocks, micro-blocks and leashes are being recorded, then after reopening, the chain storage opens without error and its complete observable state (blocks, heads, leashes, forks) is the one before or after the last unfinished storage update, never a mixture: no head, leash or number points to a missing block and every stored block is fully usable. Everything acknowledged before the crash is there, and the interrupted announcement can simply be repeated with the same final result as if nothing had happened.",
 ["crash_points","histories"],"every write boundary of every history up to 3 (quick) / 4 (thorough) updates of the real code, every byte-truncation of the real database journal for selected histories, reopen, full state comparison, repeat of the interrupted announcement and continued use",
 "Tests never interrupt a write.",
 [CS],[("one atomic batch per insertion","chains/storage.go: putProtoBlock, putMicroBlock, initialize")],[],["NewLinkage","all read methods"])
p("C11","A storage failure never leaves a half-made change",
 "If any single storage read or write fails during an operation on the chain state, the operation reports an error (it never reports success or a wrong answer) and does not crash, and the stored blocks and heads are either exactly as before or exactly as after the complete insertion. No lock stays held: every later operation works, and repeating the failed announcement succeeds with the same final result.",
 ["fault_sequences","histories"],"every single failing storage call of every operation after every history up to depth 3, then full state comparison and a repeat",
 "Tests never inject storage failures.",
 [CL,CS],[("error propagation","chains/storage.go"),("deferred unlock","chains/linkage.go")],[],["all methods of the chain state"])
p("C12","Concurrent use of the chain state is linearizable and deadlock-free",
 "When several goroutines announce blocks, move leashes and read the chain state concurrently, every call returns and the results of all calls are those of executing them one at a time in some order compatible with real time. In particular two simultaneous announcements of the same or sibling blocks never create duplicate numbers, lost heads or lost leashes. No two of the goroutines access the same memory without synchronization.",
 ["schedules"],"all interleavings with up to 2 preemptions (3 in thorough) at every lock, storage call and statement of 2-3 goroutines with 1-2 colliding operations each, against all sequential orders of the real code",
 "Tests are single-threaded.",
 [CL],[("readers-writer lock around every operation","chains/linkage.go")],[],["Linkage methods"])
p("C13","Hostile block data never crashes the process or poisons the chain state",
 "No block or micro-block announcement that can be received, whatever its base target, timestamp, identifiers, version or generator key, makes the process crash or hang: it is either stored exactly or refused with an error without any effect. After any such announcement every read (block, heads, leashes, forks, statistics, tallies) still works.",
 ["inputs","histories"],"all combinations of boundary base targets, timestamps, versions, identifier kinds and self/unknown/known references, as values and as wire messages of both encodings, at every position of a short history, followed by every read",
 "Tests use well-formed blocks only.",
 [CL,CE,CU,"distributor.go"],[("validation before storing","chains/storage_entities.go: newBlock"),("timestamp conversion","chains/linkage.go: safeTimestamp")],[],["Linkage.PutBlock","Linkage.PutMicroBlock","network messages"])
LL="loading/loader.go"; LP="loading/peer_loader.go"; LQ="loading/queue.go"
p("S01","Synchronization asks a lagging peer for exactly what is missing",
 "When no synchronization is in progress and some connected peer has broadcast a score higher than that of its leash, within one synchronization interval (5 s) exactly one such peer is asked for identifiers, with the list of up to 100 identifiers from its leash back towards genesis, newest first, as block identifiers for protocol 1.2 and newer and as signatures for older; peers without a known score, not lagging or not connected are never asked. When that peer answers with a non-empty list of identifiers, exactly the part of the list starting at the first unknown identifier is requested, block by block, in order, and its leash is moved to the last known identifier before that part.",
 ["histories","configurations","inputs"],"every combination of up to 3 peers (connected or not, score none/lower/equal/higher, version below/at/above 1.2), leashes at every block of a forked tree and chains longer than 100, every choice of the random pick, and every reply over known/unknown identifiers up to length 4 plus 100+",
 "Unit tests cover three mocked state transitions.",
 [LL,LP,"peers/peer.go"],[("peer selection","loading/loader.go: sync"),("requests","loading/peer_loader.go: requestIDs, requestBlocks"),("message choice","peers/peer.go: RequestBlockIDs")],[],["messages sent to peers","Linkage.Leash"])
p("S02","Downloaded blocks are applied in chain order whatever the arrival order",
 "Once all requested blocks of a synchronization round have arrived, in any order, with repeats, unrequested or empty blocks and other peers' blocks in between, they are all stored in the requested order and the peer's leash is the last of them. Until then none of the missing round is lost or applied out of order, an unrequested block never completes a round, and afterwards the next round starts immediately if the peer is still lagging and its lag has changed.",
 ["histories","inputs"],"every arrival order of up to 4 requested blocks (5 in thorough), with every single and double insertion of duplicates, junk, foreign-peer blocks and ticks",
 "Queue unit tests use three in-order blocks.",
 [LP,LQ],[("reorder queue","loading/queue.go: put, ready"),("application","loading/peer_loader.go: appendBlock")],
 [("queue","requested identifiers with received blocks","loading/queue.go")],["Linkage.HasBlock","Linkage.Leash","messages sent to peers"])
p("S03","Synchronization never gets stuck",
 "Whatever happened before (silence, partial, wrong, unlinked or hostile replies, peers disconnecting in the middle, storage errors, any number of failures), as long as some connected peer is lagging, a new request for identifiers is sent to a lagging peer within 45 seconds of the last useful reply. A silent peer is given up after 30 to 36 seconds and never blocks synchronization with others.",
 ["histories","fault_sequences"],"every sequence up to depth 4 (5 in thorough) of replies, blocks, ticks, disconnects and single storage failures, followed by silence; the next request is awaited in virtual time",
 "Tests have no clock control and no failing peers.",
 [LL,LP],[("timeout","loading/peer_loader.go: onTick"),("failure handling","loading/peer_loader.go: handleFailure; loading/loader.go: Fail, OK")],[],["messages sent to peers"])
p("S04","Other peers cannot disturb a running synchronization",
 "While one peer is being synchronized, identifiers and blocks delivered by any other peer change nothing in the session: the requests sent, the blocks applied from the session, the leash of the synchronizing peer and the moment of timeout are the same as without them. Replies arriving when no synchronization is running are ignored.",
 ["histories","inputs"],"every placement of up to 2 foreign identifier lists or blocks (requested ones included) in every session history up to depth 4, compared with the same history without them",
 "Tests have one mocked peer.",
 [LL],[("peer check","loading/loader.go: handleIDs, handleBlock")],[],["messages sent to peers","Linkage.Leash"])
p("S05","With an honest peer the chain is fully recovered",
 "If a connected lagging peer honestly answers every request that names a block of its chain, then whatever part of its chain, or of competing forks, is already stored and wherever its leash was, its whole chain becomes stored and its leash reaches the tip of its chain, within a bounded number of rounds, and synchronization then stops asking it. This holds for chains longer than one batch, for any position of the last common block that its requests reach and for several lagging peers one after another.",
 ["histories","configurations"],"every local tree and leash out of all partial stores of forked chains up to 6 blocks, honest chains of 1 to 6 and 90 to 320 blocks with batches of 100, both message families, one and two honest peers next to a silent one, every random pick",
 "Tests never run a complete synchronization.",
 [LL,LP],[("continuation","loading/loader.go: OK, isLagging"),("rounds","loading/peer_loader.go")],[],["Linkage.Leash","Linkage.HasBlock"])
p("S06","A failed synchronization keeps what it received and never moves a leash back",
 "When a synchronization round times out, exactly the received blocks that form an unbroken run from the first requested one are stored and the peer's leash ends on the last of them; blocks after a gap are not applied, and if nothing usable was received the leash is not moved by the failure, in particular never back to blocks of an earlier round. After 10 consecutive failures with a peer the next round restarts from the last common block with the longest chain instead of its leash, and the failure count starts anew after a success.",
 ["histories"],"every subset and order of received blocks of rounds up to 4 blocks followed by a timeout, after zero or one completed rounds; failure runs of 1 to 23 with a success in every position",
 "Tests have no timeouts beyond one mocked transition.",
 [LP,LL],[("partial application","loading/peer_loader.go: handleFailure"),("restart","loading/loader.go: sync, restartSync; failureCounter")],[],["Linkage.Leash","messages sent to peers"])
RR="peers/registry.go"; RS="peers/storage.go"; RV="peers/version_provider.go"
p("P01","Only acceptable peers are admitted",
 "A connected peer is admitted if and only if its address is IPv4 and not our own declared address, it is not recorded as hostile, its handshake has our network's scheme character and a version with the same major and at most one minor away from the version recorded for it, its node name is valid UTF-8, and its declared address, if any, is a valid non-loopback IPv4 address. Admission makes it listed and recorded as connected with its handshake name, nonce, version and its declared port (0 if none is declared or the declared host differs from its real address). A refused peer is closed, never listed as connected by that attempt; wrong scheme or version additionally records it as hostile.",
 ["inputs","configurations","histories"],"the full product of address kind, prior record, version distance, application name (incl. empty), declared address form and name validity, from empty and non-empty registries",
 "No test calls admission.",
 [RR],[("admission","peers/registry.go: RegisterPeer, checkPort")],[],["Registry.RegisterPeer","Connections","Peer"])
p("P02","A hostile peer stays hostile",
 "Once a peer address is recorded as hostile it is never admitted again, never offered for dialing, never suggested a protocol version, never reported as friendly and never turned back into a non-hostile record by any sequence of connections, disconnections, score updates, address discoveries or restarts.",
 ["histories"],"every sequence up to depth 5 over all registry operations on a hostile, a friendly and an unknown address, with time advancing and restarts",
 "No test covers hostility over a history.",
 [RR,RV],[("state checks","peers/registry.go: RegisterPeer, TakeAvailableAddresses; peers/version_provider.go: SuggestVersion")],[],["Registry methods"])
p("P03","Dial candidates are exact and never handed out twice",
 "The addresses handed out for dialing are exactly the known non-hostile addresses with a non-zero port that are not our own declared address, not connected, not already handed out and still pending, and whose next attempt time has come. An address handed out stays pending until it is admitted, refused or its attempt ends; after an ended attempt or connection it is offered again only after the 10 minute delay, and then it is.",
 ["histories","schedules"],"every sequence up to depth 5 of discover, take, admit, refuse, end, suggest-version and time steps (around the 10 minute limit) over three addresses",
 "No test covers the pending set or the delay.",
 [RR],[("candidate filter","peers/registry.go: TakeAvailableAddresses, UnregisterPeer")],
 [("pending","addresses handed out and not yet resolved","peers/registry.go: Registry.pending"),("next attempt","earliest next dial time","peers/peer.go: Peer.NextAttempt")],["Registry.TakeAvailableAddresses"])
p("P04","The connection list and broadcasts reflect exactly the live admitted peers",
 "The list of connections contains exactly the peers admitted and not disconnected since, each once, with their current records and able to send to the most recently admitted connection of that address, sorted by name ignoring case. A broadcast delivers the message exactly once to each of them and to nobody else. Disconnecting removes the peer from both at once and keeps its record.",
 ["histories"],"every sequence up to depth 5 of admissions, refusals, disconnects and re-admissions over three addresses, with a listing and broadcast after each step",
 "No test covers the connection list.",
 [RR],[("connection map","peers/registry.go: RegisterPeer, UnregisterPeer, Connections, Broadcast")],
 [("connections","live peer by address","peers/registry.go: Registry.connections")],["Registry.Connections","Registry.Broadcast","Peer.Send"])
p("P05","Version negotiation cycles through the configured versions",
 "An address never seen is suggested the highest configured version. An address seen but never admitted is suggested the next lower configured version each time, starting over with the highest after the lowest, so that repeated attempts try every distinct configured major.minor version; a peer admitted before is always suggested the version it was admitted with, and a hostile one none. The suggestion is remembered and used to judge the next handshake, patch numbers play no role, and a suggestion postpones the next dial attempt of a not yet admitted peer.",
 ["histories","configurations"],"all version lists up to 3 entries in all orders incl. duplicates and patch variants, all suggestion/admission sequences up to depth 6",
 "One unit test checks a fixed list without history.",
 [RV,RR],[("version list","peers/registry.go: newVersions, nextVersion"),("suggestion","peers/version_provider.go: SuggestVersion")],[],["Registry.SuggestVersion"])
p("P06","Discovered addresses are filtered and never overwrite what is known",
 "Of any list of discovered addresses exactly the not yet known, IPv4, non-loopback ones other than our own declared address are recorded, each once, as unknown peers that can be dialed at once with the announced port, and their number is returned. Invalid entries do not prevent the others from being recorded. A known address keeps its record unchanged whatever is announced about it.",
 ["inputs","histories"],"all lists up to 3 entries over new, known, connected, hostile, duplicate, loopback, own, IPv6, unspecified-port and invalid addresses, from several registry states",
 "No test covers discovery.",
 [RR],[("filter","peers/registry.go: AppendAddresses")],[],["Registry.AppendAddresses","Registry.Peers"])
p("P07","Peer records are durable and exact",
 "Whatever is recorded about a peer (address, port, nonce, name, version, state, next attempt time, score of any size) is read back identically, individually and in listings, at once and after the registry is reopened, and updating one peer or one attribute never changes others. Friendly peers are exactly the recorded connected ones; listings are sorted by name ignoring case. A crash at any moment leaves a registry that opens with each record either entirely old or entirely new.",
 ["histories","crash_points","inputs"],"every sequence up to depth 4 of all registry operations with boundary values followed by a reopen; every write boundary and every journal truncation of selected histories",
 "One test stores and reads two peers without reopening.",
 [RS,RR],[("record encoding","peers/storage.go: putPeer, peer, peers")],[],["Registry.Peer","Peers","FriendlyPeers","Addresses"])
p("P08","Concurrent use of the peer registry is linearizable and deadlock-free",
 "When admissions, disconnects, score updates, dial selections, version suggestions, discoveries and listings run concurrently, every call returns and the results and final state are those of executing them one at a time in some order compatible with real time. In particular two concurrent dial selections never hand out the same address twice, and no score update or disconnect is lost. No two of the goroutines access the same memory without synchronization.",
 ["schedules"],"all interleavings with up to 2 preemptions (3 in thorough) at every lock, storage call and statement of 2-3 goroutines with 1-2 colliding operations each, against all sequential orders of the real code",
 "Tests are single-threaded.",
 [RR,RV],[("one mutex around every operation","peers/registry.go")],[],["Registry methods"])
D="distributor.go"
p("N01","Every received message is handled safely and keeps the service running",
 "Whatever sequence of well-formed, malformed, truncated, empty or unexpected messages and connection events arrives from peers, the message dispatcher neither crashes nor stops: after each of them the next valid message takes its normal effect (also when some peers never read what is sent to them), and a malformed one has no effect on chains, peers or other connections. Each kind of handled message has exactly its own effect: scores set the sender's score, peers lists add addresses, peer requests are answered to the sender with the friendly peers, blocks and micro-blocks are recorded for the sender.",
 ["inputs","histories"],"every truncation and every single-byte corruption class of each handled message kind, unexpected kinds, IPv4/IPv6 and unregistered senders, each followed by a valid probe; sequences of two",
 "There are no tests for the dispatcher.",
 [D],[("dispatch","distributor.go: handleMessage and handlers")],[],["chain state","peer registry","messages sent"])
p("N02","Blocks and identifiers are attributed to their sender and passed on in order",
 "Every parsable block received from a peer is recorded for that peer's address when its parent is known, and in either case is passed to synchronization exactly once, attributed to that peer, in the order of arrival; identifier lists and signature lists are passed on the same way with the same content and order. A message of one peer is never attributed to another, and both block encodings and both identifier kinds are treated alike.",
 ["histories","inputs"],"every sequence up to depth 4 of block, protobuf block, identifier and signature messages from two peers with known, unknown and repeated content, observed at the synchronization input and in the chain state",
 "There are no tests for the dispatcher.",
 [D],[("hand-over channels","distributor.go: handleBlock, handleSignaturesMessage, handleBlockIDsMessage")],[],["synchronization input channels","Linkage.Leash"])
p("N03","The message filter passes exactly the message kinds the service consumes",
 "Messages of every kind the service acts upon (peer requests and lists, signatures, block identifiers, blocks in both encodings, scores and micro-block announcements) are let through on both incoming and outgoing connections, and known kinds it never uses (transactions, micro-block bodies, snapshots, requests for blocks or identifiers, checkpoints) are dropped before being read. The same filter, network name, node name, nonce and declared address are presented on every connection, with the version suggested for that peer.",
 ["inputs","configurations"],"all 256 message kinds on incoming and outgoing connections, for several configurations, each kind let through checked to have an effect when consumed",
 "There are no tests for the connection manager.",
 ["connection_manager.go",D],[("discard table","connection_manager.go: NewConnectionManager, skipFunc")],[],["connection parameters"])
p("N04","Refused connections are closed and leave no trace",
 "An incoming connection that is not served (unparsable remote address, hostile peer, or a registry error) is closed and never reaches the handshake; an outgoing attempt to a hostile or invalid address is not made. A connected peer that is refused by the registry is closed exactly in that case, and an admitted peer is not closed until its connection fails or the service stops.",
 ["inputs","histories","fault_sequences"],"all remote address forms and prior peer states for accept and connect, every single storage failure during acceptance and admission, and every refusal reason",
 "There are no tests for the connection manager.",
 ["connection_manager.go",RR,D],[("early returns","connection_manager.go: Accept, Connect"),("refusal","peers/registry.go: RegisterPeer")],[],["net.Conn.Close","peer Close"])
p("N05","Dialing goes on forever",
 "As long as the service runs, every 10 seconds all currently eligible known addresses are dialed, each once and without waiting for one another; neither failures of attempts, slow attempts, nor storage errors ever stop later rounds. A failed attempt makes the address eligible again after the 10 minute delay, for any number of failures.",
 ["histories","fault_sequences","schedules"],"every combination of outcomes (fail at once, hang, connect and drop, connect and stay) for up to 3 addresses over 3 rounds, every single storage failure in a round, and all schedules with one preemption",
 "There are no tests for dialing.",
 ["respawn.go","connection_manager.go",RR],[("dial timer","respawn.go: handleEvents"),("attempt end","respawn.go: establishConnections")],[],["outgoing connection attempts"])
p("N06","The service always shuts down",
 "After the termination signal every component stops and the whole service terminates, whatever it was doing at that moment: messages in flight or queued, a synchronization in progress, dialing, serving, or a listener that failed to start. No component stays blocked, nothing crashes, the exit code is zero, both databases are closed at the end and no component uses them after that; the next start works.",
 ["schedules","crash_points"],"the termination signal at every scheduling point of 11 activity scenarios of the whole service, with one (thorough two) further deviation from the default schedule; failing listener; storage failures; termination right after start",
 "There are no tests for the service.",
 ["forkdetector.go",D,"listener.go","respawn.go",LL,"api/api.go"],[("shutdown order","forkdetector.go: run"),("context cancellation","loops of all services")],[],["termination of the service"])
p("N07","Connection lifecycle is tracked end to end",
 "When a connection, incoming or outgoing, completes its handshake acceptably, the peer is listed as connected; when it then fails, it is closed, no longer listed, and eligible for dialing again after the delay, while its leash, score and record stay. Neither a failed attempt to dial a peer that has connected meanwhile nor the failure of a connection that a newer one of the same address has replaced affects the listed connection. Connected peers are asked for peer lists every minute and addresses learnt this way are dialed in turn. A restart keeps all records and leashes and starts with no connections.",
 ["histories","configurations"],"every sequence of 3 (thorough 4) of incoming connects, failures, messages, delays and restarts, for every outcome of the dialing of two addresses, on the whole service with a simulated network",
 "There are no tests for the service.",
 [D,"listener.go","respawn.go","connection_manager.go",RR],[("connected and error events","distributor.go: handleConnected, handleInternalError"),("ping","distributor.go: pingConnections")],[],["Registry.Connections","messages sent","dial attempts"])
p("A01","The HTTP API shows exactly the current state",
 "Every view of the HTTP API (all peers, friendly peers, connections, heads, leashes, status counts, forks, one peer's fork and its generators) is valid JSON and presents exactly the state of the chains and the peer registry at that moment: the same entries, order, counts and values that the underlying state defines, nothing missing and nothing extra.",
 ["histories","inputs"],"all views after every history up to depth 3 of chain and peer operations and after selected larger states, compared field by field with the reference state",
 "There are no tests for the API.",
 ["api/api.go","api/entities.go"],[("handlers","api/api.go")],[],["HTTP responses"])
p("A02","No HTTP request can crash or block the service",
 "Every request, whatever path, method, peer filter, address or block count (including negative, huge and malformed ones) and in whatever state of the service (fresh database, no connections, storage errors), gets a complete response: malformed parameters a client error, unknown peers not found, storage failures a server error, valid requests a success. No request panics, uses unbounded memory, or leaves anything locked, and the same request works afterwards.",
 ["inputs","histories","fault_sequences"],"the product of all routes with boundary parameters on fresh, empty, forked and connected states; every single storage failure during every view",
 "There are no tests for the API.",
 ["api/api.go",CL],[("parameter parsing","api/api.go: getPeers, fork, forkGenerators"),("error responses","api/api.go")],[],["HTTP responses"])
p("A03","Peer filters select exactly the requested peers",
 "Filtering forks by a list of peers (comma separated, spaces and empty items ignored) reports exactly the forks of those peers that have a leash; the active forks report only ever considers currently connected peers, intersected with the filter if one is given, and is empty when none match. An empty filter means all leashed peers for forks and all connected peers for active forks; a filter with an invalid entry is a client error.",
 ["inputs","configurations"],"every subset of up to 3 peers as leashed, as connected and as filter, with every filter notation variant, IPv4 and IPv6",
 "There are no tests for the API.",
 ["api/api.go",CL],[("filter","api/api.go: getPeers, activeForks; chains/linkage.go: forks")],[],["HTTP responses"])
p("K01","Start-up parameters are accepted or refused correctly",
 "The service starts exactly when its parameters are valid (existing database folder, known blockchain type, well-formed peer list, version list, bind addresses and a name of 1 to 255 bytes) and otherwise terminates with an error message and a non-zero exit code, without a crash and without touching the databases. Valid parameters take effect: the selected chain's genesis and scheme, the built-in and given seed peers, the versions, the name and the declared address are those used.",
 ["inputs","configurations"],"each parameter over its boundary values with all others valid, and all pairs of deviations, on the real start-up path with a simulated network",
 "There are no tests for parameters.",
 ["parameters.go","forkdetector.go"],[("parsing","parameters.go: newParameters")],[],["exit code","dialed addresses","handshake parameters"])
p("E01","The histories of all serving peers are loaded end to end",
 "Whatever else happens (peers that disconnect and return, extend their chains with blocks and micro-blocks or reorganize to chains of greater score, the service restarting, or other peers that claim great scores, list unknown blocks or never read what is sent to them), once every chain stays unchanged and its peer stays connected and serves it, the leash of that peer reaches the tip of its chain, and the leashes, forks, active forks and the single peer's fork shown by the API are those of the complete chains. After that no more blocks or identifiers are requested. This holds for both block encodings and both kinds of identifier lists.",
 ["histories","schedules"],"the whole service with two serving peers (chains of up to 135 blocks) and a hostile one: every sequence of 2 (thorough 3) events of waiting, extension, reorganization, disconnection, joining, restart, hostile messages; every schedule with one (thorough two) preemptions around simultaneous events of both peers",
 "There are no tests for the service.",
 ["forkdetector.go",D,LL,"loading/peer_loader.go",CL,RR,"api/api.go"],[("choice of peer","loading/loader.go"),("history","loading/peer_loader.go"),("blocks","chains/linkage.go: PutBlock, PutMicroBlock")],[],["/api/leashes","/api/forks","/api/active-forks","requests sent to peers"])
p("E02","The running service is free of data races",
 "In no execution of the running service do two goroutines access the same variable, structure field or map, at least one of them writing, without being ordered by synchronization (locks, channels, start and end of goroutines): neither while starting, connecting, dialing, receiving messages, loading blocks, serving any API request, failing or shutting down. Such accesses crash the process (maps) or give unpredictable results, whatever the tests observed.",
 ["schedules","histories","fault_sequences"],"whole-service histories of connections, messages, timers, API requests, storage failures, restarts and signals with up to one (thorough two) preemptions; every execution is judged for all schedules with the same order of synchronization (happens-before)",
 "The tests start no more than one component and never under the race detector's schedules.",
 ["forkdetector.go","listener.go","connection_manager.go",D,LL,"loading/peer_loader.go",CL,RR,"api/api.go"],[("registry mutex","peers/registry.go"),("linkage lock","chains/linkage.go"),("channels of the loader","loading/loader.go: Run"),("network listener","listener.go: Shutdown")],[],["memory accesses of the service's goroutines"])
p("E03","Nothing is left behind by what has ended",
 "Once an operation on the chains or the peer registry, an HTTP request or the handling of a message has returned, successfully or with an error, every database snapshot and iterator it opened is released. The goroutines that served a connection, a dialing attempt or a request end with it: after all connections have ended and all attempts have finished, the service has exactly the goroutines it started with, whatever happened before (blocks loaded, peers hostile or refused, nodes that do not read, storage failures). Otherwise a service that runs for months runs out of memory or disk.",
 ["histories","fault_sequences","inputs"],"the whole service: every sequence of 2 (thorough 3) of 11 events around loading and of incoming connections around dialing, followed by the end of all connections; the histories of the single components with every single storage failure",
 "The tests neither count goroutines nor snapshots, and never run the service.",
 [D,"listener.go","respawn.go","connection_manager.go",LL,CS,RR,"peers/storage.go","api/api.go"],[("snapshots and iterators","chains/storage.go, peers/storage.go: Release"),("goroutines per connection","listener.go: run; respawn.go: establishConnections"),("goroutines per peer","peers/peer.go")],[],["goroutines of the service","unreleased snapshots and iterators"])
p("E04","A killed service starts again and completes its work",
 "If the service is killed at any moment, or the machine loses power and with it the last writes to either database (also during the first start, or while the service is starting again after it was killed), the next start succeeds and all given peers are known. Without lost writes every recorded peer and leash is still there and no leash has moved back. All known addresses are dialed again within the usual delays, and as soon as the serving peers are connected, all their chains are loaded completely: leashes, forks, active forks and single forks are those of the complete chains, as if nothing had happened.",
 ["crash_points","histories"],"the whole service with two serving peers killed before every write to its databases while starting, loading, dialing and during every sequence of 2 (thorough 3) events, with every combination of up to 3 (4) lost writes of each database in smaller histories, and a second kill at every write while starting again",
 "There are no tests for the service, and none that ends without closing the storages.",
 ["forkdetector.go",CS,CL,"peers/storage.go",RR,LL,"loading/peer_loader.go"],[("genesis","chains/storage.go: initialize"),("blocks before leashes","chains/linkage.go: PutBlock, PutMicroBlock"),("records","peers/registry.go"),("seed peers","forkdetector.go: run")],[],["databases after a crash","/api/leashes","/api/forks","dial attempts"])
p("E05","The running service survives storage failures",
 "If a storage call of the running service fails (a read, an iteration, a snapshot, or a write, whether it took effect or not), whatever the service is doing, it neither crashes nor ends nor blocks. The message, connection attempt or round in which the failure occurs may be lost, but nothing else is: peers can connect, announcements take effect, requests are answered, and as soon as the serving peers are connected and announce their scores again, all their chains are loaded completely, leashes, forks, active forks and single forks are those of the complete chains, and loading comes to rest.",
 ["fault_sequences","histories"],"the whole service with two serving peers, one (thorough two) failing storage calls at any position while connecting, loading, dialing and during 10 kinds of events after every other one of them",
 "There are no tests for the service and none with failing storages.",
 ["forkdetector.go",D,LL,"loading/peer_loader.go",CL,CS,RR,"peers/storage.go","respawn.go"],[("error paths of the loops","distributor.go, respawn.go, loading/loader.go"),("failed rounds","loading/peer_loader.go: handleFailure"),("atomic batches","chains/storage.go")],[],["API","requests sent to peers","exit of the service"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
