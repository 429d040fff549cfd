package main

import (
	"encoding/binary"
	"math"
	"net/netip"
	"slices"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	g "github.com/wavesplatform/gowaves/pkg/grpc/generated/waves"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// Check C13: hostile block data.

// hostilePut stores a block that may be refused; an accepted one must be stored exactly.
func (e *cEnv) hostilePut(b *proto.Block, a netip.Addr) bool {
	x := e.x
	x.Op("put block %s (parent %s, v%d, base target %d, ts %d) by %s", blkName(b.BlockID()), blkName(b.Parent), b.Version, b.BaseTarget, b.Timestamp, a)
	err := e.l.PutBlock(b, a)
	if err != nil {
		return false
	}
	e.hostileStored(b, a)
	return true
}

func (e *cEnv) hostileStored(b *proto.Block, a netip.Addr) {
	x := e.x
	if _, ok := e.r.blocks[b.BlockID()]; !ok {
		x.Check(b.Timestamp <= math.MaxInt64, "a block with timestamp %d is stored", b.Timestamp)
	}
	x.Check(e.r.put(b, a) == nil, "block %s with an unknown parent is stored", blkName(b.BlockID()))
}

// extreme values of the numbers in a block.
var extremes = []uint64{0, 1, 2, 153722867, 1 << 32, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, 1 << 63, math.MaxUint64}

// hostileBlock picks a block whose fields deviate from normal ones in up to two respects.
func (e *cEnv) hostileBlock(n int, devs int) *proto.Block {
	x := e.x
	b := attr(n, e.r.order[len(e.r.order)-1], true).proto()
	// The parent is any known one or an extreme one.
	first := 0
	for i := 0; i < devs; i++ {
		f := first + x.Choose(7-first)
		first = f
		switch f {
		case 0:
			return b
		case 1:
			b.BaseTarget = extremes[x.Choose(len(extremes))]
		case 2:
			b.Timestamp = extremes[x.Choose(len(extremes))]
		case 3:
			b.Version = proto.BlockVersion([]byte{0, 1, 4, 6, 255}[x.Choose(5)])
		case 4:
			// Identifiers: of either kind, repeated, zero, or of the same bytes as another one.
			switch x.Choose(6) {
			case 0:
				b.Version, b.ID, b.BlockSignature = 3, idN(n, false), sigN(n)
			case 1:
				b.Version, b.ID, b.BlockSignature = 3, proto.NewBlockIDFromSignature(crypto.Signature{}), crypto.Signature{}
			case 2:
				b.ID = proto.NewBlockIDFromDigest(crypto.Digest{})
			case 3:
				b.ID = gen1ID
				if !gen1ID.IsSignature() {
					b.Version = 5
				} else {
					b.Version, b.BlockSignature = 3, gen1ID.Signature()
				}
			case 4:
				b.ID = e.r.order[len(e.r.order)-1]
			case 5:
				// Half of a known signature as a digest.
				d := crypto.Digest{}
				copy(d[:], gen1ID.Bytes())
				b.ID = proto.NewBlockIDFromDigest(d)
			}
		case 5:
			switch k := x.Choose(5); k {
			case 0:
				b.Parent = b.BlockID()
			case 1:
				b.Parent = proto.NewBlockIDFromDigest(crypto.Digest{})
			case 2:
				b.Parent = proto.NewBlockIDFromSignature(crypto.Signature{})
			case 3:
				b.Parent = gen1ID
			case 4:
				b.Parent = idN(n, false)
			}
		case 6:
			b.GeneratorPublicKey = crypto.PublicKey{}
			if x.Bool() {
				for i := range b.GeneratorPublicKey {
					b.GeneratorPublicKey[i] = 255
				}
			}
		}
	}
	return b
}

func pbVariants() []func(h *g.Block) {
	set := func(f func(h *g.Block_Header)) func(*g.Block) {
		return func(b *g.Block) {
			if b.Header != nil {
				f(b.Header)
			}
		}
	}
	fill := func(n int, v byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = v
		}
		return b
	}
	l := []func(*g.Block){func(b *g.Block) { b.Header = nil }, func(b *g.Block) { b.Transactions = []*g.SignedTransaction{{}} }, func(b *g.Block) { b.Transactions = []*g.SignedTransaction{nil} }}
	for _, n := range []int{0, 1, 32, 63, 64, 65} {
		l = append(l, func(b *g.Block) { b.Signature = fill(n, 0) }, func(b *g.Block) { b.Signature = fill(n, 255) })
		l = append(l, set(func(h *g.Block_Header) { h.Reference = fill(n, 0) }), set(func(h *g.Block_Header) { h.Reference = fill(n, 9) }))
	}
	l = append(l, func(b *g.Block) { b.Signature = gen1ID.Bytes() })
	for _, n := range []int{0, 1, 31, 32, 33, 96} {
		l = append(l, set(func(h *g.Block_Header) { h.Generator = fill(n, 0) }), set(func(h *g.Block_Header) { h.GenerationSignature = fill(n, 0) }), set(func(h *g.Block_Header) { h.StateHash = fill(n, 1) }), set(func(h *g.Block_Header) { h.TransactionsRoot = fill(n, 1) }))
	}
	for _, v := range []int64{0, 1, -1, math.MinInt64, math.MaxInt64 - 1, math.MaxInt64, 1 << 32} {
		l = append(l, set(func(h *g.Block_Header) { h.BaseTarget = v }), set(func(h *g.Block_Header) { h.Timestamp = v }), set(func(h *g.Block_Header) { h.RewardVote = v }))
	}
	for _, v := range []int32{0, 1, 2, 3, 4, 5, 6, 255, 256, -1, math.MaxInt32, math.MinInt32} {
		l = append(l, set(func(h *g.Block_Header) { h.Version = v }), set(func(h *g.Block_Header) { h.ChainId = v }))
	}
	l = append(l, set(func(h *g.Block_Header) { h.FeatureVotes = []uint32{1, 1 << 31, math.MaxUint32} }), set(func(h *g.Block_Header) { h.ChallengedHeader = &g.Block_Header_ChallengedHeader{} }),
		set(func(h *g.Block_Header) {
			h.ChallengedHeader = &g.Block_Header_ChallengedHeader{BaseTarget: -1, GenerationSignature: fill(96, 1), Generator: fill(32, 1), HeaderSignature: fill(64, 1)}
		}))
	return l
}

// binVariants are modifications of a block in the binary encoding of version 3.
func binVariants(n int) []func(b []byte) []byte {
	var l []func([]byte) []byte
	put := func(o int, v ...byte) {
		l = append(l, func(b []byte) []byte {
			if o+len(v) <= len(b) {
				copy(b[o:], v)
			}
			return b
		})
	}
	for _, v := range []byte{0, 1, 2, 4, 5, 6, 255} {
		put(0, v)
	}
	for _, v := range extremes {
		put(1, binary.BigEndian.AppendUint64(nil, v)...)
		put(77, binary.BigEndian.AppendUint64(nil, v)...)
	}
	for _, v := range []uint32{0, 3, 5, 39, 41, 1000, math.MaxInt32, math.MaxUint32} {
		put(73, binary.BigEndian.AppendUint32(nil, v)...)
		put(117, binary.BigEndian.AppendUint32(nil, v)...)
		if v < 1<<20 {
			put(121, binary.BigEndian.AppendUint32(nil, v)...)
			put(125, binary.BigEndian.AppendUint32(nil, v)...)
		}
	}
	put(9, make([]byte, 64)...)
	put(9, gen1ID.Bytes()...)
	put(n-64, make([]byte, 64)...)
	put(n-64, gen1ID.Bytes()...)
	put(n-96, make([]byte, 32)...)
	for _, c := range []int{1, 32, 64, 72, 73, 96, 97, n - 1} {
		l = append(l, func(b []byte) []byte { return b[:max(0, len(b)-c)] })
	}
	for _, c := range []int{1, 4, 64} {
		l = append(l, func(b []byte) []byte { return append(b, make([]byte, c)...) })
	}
	return l
}

// hungry tells that the decoder of binary blocks would allocate a lot of memory for the counters of a block.
func hungry(d []byte) bool {
	if len(d) < 125 || d[0] < 3 {
		return false
	}
	if binary.BigEndian.Uint32(d[121:]) > 1<<16 {
		return true
	}
	p := 121 + int(binary.BigEndian.Uint32(d[117:]))
	return p+4 <= len(d) && binary.BigEndian.Uint32(d[p:]) > 1<<16
}

func init() {
	register(&Check{
		ID: "C13",
		Scenarios: func(th bool) []Scenario {
			depth := 2
			if th {
				depth = 3
			}
			return []Scenario{
				{Name: "blocks", Opt: seqOpt, Run: func(x *X) {
					e := newChain(x, pA, pB)
					e.put(attr(2, gen1ID, true).proto(), pA)
					for i := 0; i < depth; i++ {
						if x.Seen(e.hash(), depth-i) {
							return
						}
						devs := 2
						if i > 0 {
							devs = 1
						}
						b := e.hostileBlock(10+i, devs)
						p := e.peers[x.Choose(2)]
						e.hostilePut(b, p)
						if e.fresh() {
							e.cmpAll()
						}
					}
					// Normal blocks are still stored.
					last := e.r.order[len(e.r.order)-1]
					e.put(attr(30, last, true).proto(), pA)
					e.put(attr(31, gen1ID, false).proto(), pB)
					e.cmpAll()
					e.reopen()
					e.cmpAll()
				}},
				{Name: "micro-blocks", Opt: seqOpt, Run: func(x *X) {
					e := newChain(x, pA, pB)
					e.put(attr(2, gen1ID, true).proto(), pA)
					e.put(attr(3, gen1ID, false).proto(), pB)
					zs, zd := proto.NewBlockIDFromSignature(crypto.Signature{}), proto.NewBlockIDFromDigest(crypto.Digest{})
					for i := 0; i < depth; i++ {
						if x.Seen(e.hash(), depth-i) {
							return
						}
						ids := append(append([]proto.BlockID{}, e.r.order...), zs, zd, idN(40+i, true), idN(40+i, false))
						ref, tot := ids[x.Choose(len(ids))], ids[x.Choose(len(ids))]
						p := e.peers[x.Choose(2)]
						x.Op("micro-block %s on %s by %s", blkName(tot), blkName(ref), p)
						pk := pkN(0)
						if x.Bool() {
							pk = crypto.PublicKey{}
						}
						err := e.l.PutMicroBlock(&proto.MicroBlockInv{PublicKey: pk, TotalBlockID: tot, Reference: ref}, p)
						if err == nil {
							x.Check(e.r.putMicro(ref, tot, p) == nil, "a micro-block without a proper reference is stored")
						}
						if e.fresh() {
							e.cmpAll()
						}
					}
					last := e.r.order[len(e.r.order)-1]
					e.put(attr(30, last, true).proto(), pA)
					e.micro(idN(30, true), idN(32, true), pB)
					e.cmpAll()
				}},
				{Name: "received blocks", Opt: seqOpt, Run: func(x *X) {
					vs.SetPoints(false)
					e := newNet(x, "/vs", "8.8.8.9:6868", nVers)
					e.dispatch(true)
					w := mkWires()
					a := e.join(rA, hsOf(goodApp, ver(1, 5, 0), "a", 1, nil))
					b := e.join(rB, hsOf(goodApp, ver(1, 5, 0), "b", 1, nil))
					first := w.a
					a.recv(first.m)
					vs.Quiesce()
					e.ce.hostileStored(first.b, rA)
					rounds := 1
					for i := 0; i < rounds; i++ {
						var blk *proto.Block
						var msg []byte
						var what string
						if x.Bool() {
							base := mkWire(wblk{n: 50 + i, parent: first.b.BlockID(), ver: 5, bt: 77, ts: 1460678700000, gen: 1, pb: true})
							pb, err := base.b.ToProtobuf(scheme)
							x.Check(err == nil, "ToProtobuf: %v", err)
							vs := pbVariants()
							i1 := x.Choose(len(vs))
							vs[i1](pb)
							i2 := x.Choose(len(vs))
							vs[i2](pb)
							d, err := pb.MarshalVTStrict()
							if err != nil || len(d) == 0 {
								return
							}
							msg = frame(&proto.PBBlockMessage{PBBlockBytes: d})
							what = "a modified protobuf block"
							func() {
								defer func() { _ = recover() }()
								o := &proto.Block{}
								if o.UnmarshalFromProtobuf(d) == nil {
									blk = o
								}
							}()
						} else {
							base := mkWire(wblk{n: 50 + i, parent: first.b.BlockID(), ver: 3, bt: 77, ts: 1460678700000, gen: 1})
							d := append([]byte{}, base.m[17:]...)
							vs := binVariants(len(d))
							d = vs[x.Choose(len(vs))](d)
							d = vs[x.Choose(len(vs))](d)
							if len(d) == 0 {
								return // Undecodable message, see N01.
							}
							msg = frame(&proto.BlockMessage{BlockBytes: d})
							what = "a modified binary block"
							o := &proto.Block{}
							if !hungry(d) && o.UnmarshalBinary(slices.Clip(d), scheme) == nil {
								blk = o
							}
						}
						x.Op("%s from %s", what, a.addr)
						a.recv(msg)
						vs.Quiesce()
						x.Check(a.closed == 0, "the connection is closed")
						if blk != nil {
							ok, err := e.ce.l.HasBlock(blk.BlockID())
							x.Check(err == nil, "HasBlock: %v", err)
							if ok {
								e.ce.hostileStored(blk, rA)
							}
						}
					}
					e.ce.peers = []netip.Addr{rA, rB}
					e.ce.univ = append(e.ce.univ, w.b.b.BlockID())
					e.ce.cmpAll()
					x.State(e.hash())
					// Blocks of the other peer are still stored.
					b.recv(w.b.m)
					vs.Quiesce()
					e.ce.hostileStored(w.b.b, rB)
					e.ce.cmpAll()
				}},
				{Name: "long chain of extreme scores", Opt: seqOpt, Run: func(x *X) {
					// Scores add up beyond any machine word; heights and links stay exact.
					e := newChain(x, pA, pB)
					bt := []uint64{1, 2, math.MaxInt64, 0}[x.Choose(4)]
					alt := []uint64{1, math.MaxInt64, 3}[x.Choose(3)]
					n := []int{3, 40, 300}[x.Choose(3)]
					p := gen1ID
					for i := 0; i < n; i++ {
						b := attr(1000+i, p, i%3 > 0).proto()
						b.BaseTarget = bt
						if i%2 == 1 {
							b.BaseTarget = alt
						}
						b.Timestamp = extremes[i%8]
						if e.hostilePut(b, pA) {
							p = b.BlockID()
						}
					}
					e.put(attr(30, gen1ID, true).proto(), pB)
					for _, id := range []proto.BlockID{p, gen1ID, idN(30, true), idN(1000+n/2, (n/2)%3 > 0)} {
						e.cmpBlock(id)
					}
					e.cmpHeads()
					e.cmpForks(nil)
					e.cmpLCB()
					e.cmpStats()
					e.cmpLeashes()
					e.cmpLast(p, n)
					e.cmpGenerators(p, 100)
					x.State(e.hash())
				}},
			}
		},
		Bounds: "every sequence of 2 (thorough 3) blocks of which the first deviates from a normal one in up to two fields with all extreme values, the others in one; every sequence of 2 (3) micro-block announcements with any pair of known, unknown and zero identifiers; every pair of about 90 modifications of a protobuf block and of about 70 modifications of a binary block received from a peer; chains of up to 300 blocks with extreme scores; each followed by normal blocks and all queries",
	})
}
