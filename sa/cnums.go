package main

// W04: peer identifiers and the numbers of the protocol.

import (
	"go/constant"
	"go/types"
	"sort"
)

func init() { checks["W04"] = checkW04 }

// protocolNumbers are the numbers the Nimiq protocol gives to the names of package wire.
var protocolNumbers = map[string]int64{
	"ServicesNone": 0, "ServicesNano": 1, "ServicesLight": 2, "ServicesFull": 4,
	"ProtocolDumb": 0, "ProtocolWSS": 1, "ProtocolRTC": 2, "ProtocolWS": 4,
	"NetAddressIPv4": 0, "NetAddressIPv6": 1, "NetAddressUnspecified": 2, "NetAddressUnknown": 3,
	"HashBlake2b": 1, "HashSha256": 3,
	"TxBasic": 0, "TxExtended": 1, "TxFlagNone": 0, "TxFlagContractCreation": 1,
	"AccountBasic": 0, "AccountVesting": 1, "AccountHTLC": 2, "AccountStaking": 3,
	"InvError": 0, "InvTx": 1, "InvBlock": 2, "VectorsMaxCount": 1000,
	"DirectionForward": 1, "DirectionBackward": 2,
	"MessageVersion": 0, "MessageInv": 1, "MessageGetData": 2, "MessageGetHeader": 3, "MessageNotFound": 4,
	"MessageGetBlocks": 5, "MessageBlock": 6, "MessageHeader": 7, "MessageTx": 8, "MessageMempool": 9,
	"MessageReject": 10, "MessageSubscribe": 11, "MessageAddr": 20, "MessageGetAddr": 21, "MessagePing": 22,
	"MessagePong": 23, "MessageSignal": 30, "MessageGetChainProof": 40, "MessageChainProof": 41,
	"MessageGetAccountsProof": 42, "MessageAccountsProof": 43, "MessageGetAccountsTreeChunk": 44,
	"MessageAccountsTreeChunk": 45, "MessageGetTxProof": 47, "MessageTxProof": 48, "MessageGetTxReceipts": 49,
	"MessageTxReceipts": 50, "MessageGetBlockProof": 51, "MessageBlockProof": 52, "MessageGetHead": 60,
	"MessageHead": 61, "MessageVerAck": 90,
}

// protocolSchemes are the URI schemes of the transport protocols.
var protocolSchemes = map[int64]string{0: "dumb", 1: "wss", 2: "rtc", 4: "ws"}

func checkW04(c *Ctx) {
	c.explained = "Every exported number of package wire is read from the type-checked program and compared with the number the protocol gives to that name. GetPeerID is analysed for keys of every length: its result is the first 16 bytes of the Blake2b hash of the whole key. ProtocolScheme is analysed for each of the 256 protocol numbers, all constants propagated."
	var names []string
	for n := range protocolNumbers {
		names = append(names, n)
	}
	sort.Strings(names)
	wire := P.pkg("wire")
	for _, n := range names {
		var k *types.Const
		if wire != nil {
			k, _ = wire.Pkg.Scope().Lookup(n).(*types.Const)
		}
		if !c.must(k != nil, "anchored", "wire."+n, "constant %s", n) {
			continue
		}
		v, exact := constant.Int64Val(constant.ToInt(k.Val()))
		c.must(exact && v == protocolNumbers[n], "number", P.pos(k.Pos()), "%s is %s, the protocol has %d", n, k.Val(), protocolNumbers[n])
	}
	// peer ID
	fn := repoFn("wire", "GetPeerID")
	where := fnPos(fn)
	key := symSlice("peerKey")
	ip := newInterp()
	outs := c.run(ip, "wire.GetPeerID", func() []Outcome {
		return ip.exec(newState(), fn, []Val{key}, nil, 0)
	})
	c.noPanics("wire.GetPeerID", outs)
	for _, o := range outs {
		if o.pan != nil || infeasible(o.st.f) {
			continue
		}
		got, ok := retBytes(o.ret[0])
		want, _ := blake(newState().bytesOf(key, 0)).slice(o.st.f, cLin(0), cLin(16))
		c.mustSt(ok && seqEqual(o.st.f, got, want), o.st, "peer ID", where, "the ID of a peer is %s", clip(o.ret[0].Key(), 300))
		c.unmodified(o, "unmodified", where, "GetPeerID")
	}
	// schemes
	fn = repoFn("wire", "ProtocolScheme")
	where = fnPos(fn)
	for p := int64(0); p < 256; p++ {
		want, known := protocolSchemes[p]
		if !known {
			want = "invalid"
		}
		ip := newInterp()
		outs := c.run(ip, "wire.ProtocolScheme", func() []Outcome {
			return ip.exec(newState(), fn, []Val{IntV{cLin(p)}}, nil, 0)
		})
		c.noPanics("wire.ProtocolScheme", outs)
		seen := 0
		for _, o := range outs {
			if o.pan != nil || infeasible(o.st.f) {
				continue
			}
			seen++
			q, ok := retBytes(o.ret[0])
			c.mustSt(ok && seqEqual(o.st.f, q, constSeq([]byte(want))), o.st, "scheme", where, "the scheme of protocol %d is %s, expected %q", p, clip(o.ret[0].Key(), 100), want)
		}
		c.must(seen > 0, "vacuous", where, "protocol %d has a scheme", p)
	}
}
