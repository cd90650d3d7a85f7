// Package genesis_test (placed there by an overlay) demonstrates, against the real code, the genuine defects
// that were found in terorie/nimiq-go and repaired by "fix:" commits.
// Run with /verif/defects/run.sh [repo-dir]; every test fails on the original
// commit (3b69134) and passes on the repaired tree.
package genesis_test

import (
	"bytes"
	"errors"
	"math"
	"math/big"
	"testing"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
)

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s panicked: %v", what, r)
		}
	}()
	f()
}

func TestF01PointerErrorSwallowed(t *testing.T) {
	type inner struct{ C complex64 }
	v := struct{ P *inner }{P: &inner{}}
	if b, err := beserial.Marshal(nil, &v); err == nil {
		t.Errorf("unencodable value behind pointer encoded as %x without error", b)
	}
}

func TestF02NilAndNonPointer(t *testing.T) {
	noPanic(t, "Unmarshal(non-pointer)", func() {
		if _, err := beserial.Unmarshal([]byte{1}, 5); err == nil {
			t.Error("no error")
		}
	})
	noPanic(t, "Unmarshal(nil)", func() {
		if _, err := beserial.Unmarshal([]byte{1}, nil); err == nil {
			t.Error("no error")
		}
	})
	noPanic(t, "Marshal(non-pointer)", func() {
		if _, err := beserial.Marshal(nil, 5); err == nil {
			t.Error("no error")
		}
	})
	noPanic(t, "Size(non-pointer)", func() {
		if _, err := beserial.Size(5); err == nil {
			t.Error("no error")
		}
	})
	noPanic(t, "UnmarshalMessage(mempool)", func() {
		m, err := wire.UnmarshalMessage(wire.MessageMempool, nil)
		if err != nil || m.Type() != wire.MessageMempool {
			t.Error(m, err)
		}
	})
	noPanic(t, "MarshalMessage(mempool)", func() {
		b, err := wire.MarshalMessage(wire.MempoolMessage)
		if err != nil || !bytes.Equal(b, []byte{0, 0, 0, 0, 0, 0, 0, 9}) {
			t.Error(b, err)
		}
	})
}

func TestF03Size(t *testing.T) {
	b := struct{ B bool }{}
	if n, err := beserial.Size(&b); n != 1 || err != nil {
		t.Error("bool", n, err)
	}
	var m wire.BlockMessage
	m.Body = &wire.BlockBody{}
	if _, err := wire.MarshalMessage(&m); err != nil {
		t.Error("block message", err)
	}
}

func TestF04LenTagOverflow(t *testing.T) {
	body := wire.BlockBody{ExtraData: make([]byte, 256)}
	if b, err := beserial.Marshal(nil, &body); err == nil {
		t.Errorf("256 bytes written with 8-bit length prefix %d", b[20])
	}
}

func TestF05CombinedTags(t *testing.T) {
	noPanic(t, "combined tag", func() {
		v := struct {
			P *string `beserial:"optional,len_tag=uint8"`
		}{}
		if b, err := beserial.Marshal(nil, &v); err != nil || !bytes.Equal(b, []byte{0}) {
			t.Error(b, err)
		}
	})
}

func TestF06BitSetOverflow(t *testing.T) {
	buf := make([]byte, 1+32+255*32)
	buf[0] = 250
	noPanic(t, "interlink", func() {
		var il wire.BlockInterlink
		_, _ = il.UnmarshalBESerial(buf)
	})
	var bs wire.BitSet
	if n, err := bs.UnmarshalBESerial(buf); n != 33 || err != nil {
		t.Error(n, err)
	}
}

func TestF07Interlink(t *testing.T) {
	buf := []byte{1, 0x00}
	for i := 0; i < 32; i++ {
		buf = append(buf, byte(i+1))
	}
	var il wire.BlockInterlink
	n, err := il.UnmarshalBESerial(buf)
	if err != nil || n != len(buf) {
		t.Fatal(n, err)
	}
	if !bytes.Equal(il.Hashes[0][:], buf[2:]) {
		t.Errorf("wrong hash read: %x", il.Hashes[0][:])
	}
	out, err := il.MarshalBESerial(nil)
	if err != nil || !bytes.Equal(out, buf) {
		t.Errorf("round trip: %d bytes vs %d (%v)", len(out), len(buf), err)
	}
}

func TestF08NetAddressType(t *testing.T) {
	buf := append([]byte{wire.NetAddressIPv6}, make([]byte, 16)...)
	var na wire.NetAddress
	if _, err := na.UnmarshalBESerial(buf); err != nil {
		t.Fatal(err)
	}
	out, _ := na.MarshalBESerial(nil)
	if !bytes.Equal(out, buf) {
		t.Errorf("round trip: %x vs %x", out, buf)
	}
}

func TestF09PeerAddress(t *testing.T) {
	pa := wire.PeerAddress{Detail: &wire.PeerAddressSrv{Host: "a"}}
	pa.Protocol = wire.ProtocolWS
	pa.NetAddress.IP = make([]byte, 4)
	buf, err := pa.MarshalBESerial(nil)
	if err != nil {
		t.Fatal(err)
	}
	var pb wire.PeerAddress
	n, err := pb.UnmarshalBESerial(buf)
	if err != nil || n != len(buf) {
		t.Fatal(n, err)
	}
	sz, err := pb.SizeBESerial()
	if err != nil || sz != n {
		t.Fatal(sz, err)
	}
}

func TestF10Inv(t *testing.T) {
	buf := append([]byte{0, 1, 0, 0, 0, 2}, make([]byte, 32)...)
	m, err := wire.UnmarshalMessage(wire.MessageInv, buf)
	if err != nil {
		t.Fatal(err)
	}
	if iv := m.(*wire.InvMessage); len(iv.Vectors) != 1 || iv.Vectors[0].Type != wire.InvBlock {
		t.Error(iv)
	}
	out, err := wire.MarshalMessage(m)
	if err != nil || !bytes.Equal(out[8:], buf) {
		t.Error(out, err)
	}
	if _, err := wire.MarshalMessage(&wire.GetTxProofMessage{}); err != nil {
		t.Error(err)
	}
}

func TestF11HeaderMessageType(t *testing.T) {
	if got := new(wire.HeaderMessage).Type(); got != wire.MessageHeader {
		t.Error(got)
	}
}

func TestF12BasicOverflow(t *testing.T) {
	acc := &wire.BasicAccount{Value: 0}
	after, err := acc.ApplyOutgoingTx(&wire.BasicTx{Value: math.MaxUint64, Fee: 1}, 1)
	if err == nil {
		t.Errorf("empty account spent 2^64-1, now has %d", after.Balance())
	}
	rich := &wire.BasicAccount{Value: 2}
	if after, err := rich.ApplyIncomingTx(&wire.BasicTx{Value: math.MaxUint64}, 1); err == nil {
		t.Errorf("credit wrapped around to %d", after.Balance())
	}
}

func ownerProof(t *testing.T, pub *[32]byte) []byte {
	p := wire.SignatureProof{PublicKey: *pub}
	b, err := beserial.Marshal(nil, &p)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func TestF13Vesting(t *testing.T) {
	var pub [32]byte
	owner := wire.PublicKeyToAddress(&pub)
	proof := ownerProof(t, &pub)
	acc := &wire.VestingAccount{Value: 100, Owner: owner, VestingStart: 0, VestingStepBlocks: 10, VestingStepAmount: 50, VestingTotalAmount: 100}
	// Schedule exceeds balance at height 1000: may not spend more than the balance.
	if after, err := acc.ApplyOutgoingTx(&wire.ExtendedTx{Value: 200, Proof: proof}, 1000); err == nil {
		t.Errorf("overspent vesting contract, now has %d", after.Balance())
	}
	// Fee must be deducted.
	after, err := acc.ApplyOutgoingTx(&wire.ExtendedTx{Value: 10, Fee: 5, Proof: proof}, 1000)
	if err != nil || after.Balance() != 85 {
		t.Error("fee not deducted", after, err)
	}
	// Cumulative spending must respect the schedule.
	after, err = acc.ApplyOutgoingTx(&wire.ExtendedTx{Value: 50, Proof: proof}, 10)
	if err != nil {
		t.Fatal(err)
	}
	if after, err := after.ApplyOutgoingTx(&wire.ExtendedTx{Value: 50, Proof: proof}, 10); err == nil {
		t.Errorf("first step released twice, now has %d", after.Balance())
	}
	// A step only unlocks when it is complete.
	if after, err := acc.ApplyOutgoingTx(&wire.ExtendedTx{Value: 45, Proof: proof}, 9); err == nil {
		t.Errorf("released inside of a step, now has %d", after.Balance())
	}
}

func TestF14HTLCFee(t *testing.T) {
	var pub [32]byte
	addr := wire.PublicKeyToAddress(&pub)
	acc := &wire.HTLCAccount{Value: 100, Sender: addr, Timeout: 1}
	proof := append([]byte{3}, ownerProof(t, &pub)...)
	after, err := acc.ApplyOutgoingTx(&wire.ExtendedTx{Value: 10, Fee: 5, Proof: proof}, 2)
	if err != nil || after.Balance() != 85 {
		t.Error("fee not deducted", after, err)
	}
	if after, err := acc.ApplyOutgoingTx(&wire.ExtendedTx{Value: 100, Fee: 5, Proof: proof}, 2); err == nil {
		t.Error("fee exceeds balance", after)
	}
}

func TestF15NoPanicOnContracts(t *testing.T) {
	basic, ext := &wire.BasicTx{}, &wire.ExtendedTx{}
	for _, acc := range []wire.Account{new(wire.BasicAccount), new(wire.VestingAccount), new(wire.HTLCAccount)} {
		for _, tx := range []wire.Tx{basic, ext} {
			noPanic(t, "ApplyIncomingTx", func() { _, _ = acc.ApplyIncomingTx(tx, 1) })
			noPanic(t, "ApplyOutgoingTx", func() { _, _ = acc.ApplyOutgoingTx(tx, 1) })
			noPanic(t, "Init", func() { _ = acc.Init(tx, 1, 1) })
		}
	}
}

func TestF16PushMalformed(t *testing.T) {
	accs := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	noPanic(t, "no body", func() {
		if err := accs.Push(&wire.Block{Header: wire.BlockHeader{Height: 1}}); err == nil {
			t.Error("accepted block without body")
		}
	})
	noPanic(t, "height 0", func() {
		if err := accs.Push(&wire.Block{Body: &wire.BlockBody{}}); err == nil {
			t.Error("accepted block at height 0")
		}
	})
}

func TestF17Atomic(t *testing.T) {
	store := tree.NewMemStore()
	pm := &tree.PMTree{Store: store}
	accs := accounts.NewAccounts(pm)
	var pub [32]byte
	sender := wire.PublicKeyToAddress(&pub)
	accs.PutAccount(&sender, &wire.BasicAccount{Value: 10})
	before := pm.Hash()
	err := accs.Push(&wire.Block{
		Header: wire.BlockHeader{Height: 1},
		Body: &wire.BlockBody{Txs: []wire.WrapTx{
			{Tx: &wire.BasicTx{SenderPubKey: pub, Value: 7}},
			{Tx: &wire.BasicTx{SenderPubKey: pub, Value: 7}},
		}},
	})
	if err == nil {
		t.Fatal("accepted")
	}
	if after := pm.Hash(); after != before {
		t.Error("failed block changed the state")
	}
}

func TestF18Compress(t *testing.T) {
	noPanic(t, "tree.Nibbles.Compress", func() {
		if b := (tree.Nibbles{1, 2}).Compress(); !bytes.Equal(b, []byte{0x12}) {
			t.Error(b)
		}
	})
	noPanic(t, "wire.Nibbles.Compress", func() {
		if b := (wire.Nibbles{1, 2, 3}).Compress(); !bytes.Equal(b, []byte{0x12, 0x30}) {
			t.Error(b)
		}
	})
}

func TestF19CountryCode(t *testing.T) {
	for a := 'A'; a <= 'Z'; a++ {
		for d := 0; d < 100; d++ {
			s := "N" + string(a) + string(rune('0'+d/10)) + string(rune('0'+d%10)) + "46LK9YHVD9LBTDJ48Y2P3J4C37HRYDL5"
			if _, err := address.Decode(s); err == nil && a != 'Q' {
				t.Fatal("accepted", s)
			}
		}
	}
}

func TestF20SupplyAfterMax(t *testing.T) {
	if testing.Short() {
		t.Skip()
	}
	if a, b := policy.SupplyAfter(math.MaxUint32-1), policy.SupplyAfter(math.MaxUint32); b < a {
		t.Error("supply shrinks", a, b)
	}
}

func TestF21SmallTarget(t *testing.T) {
	noPanic(t, "TargetToCompact(1)", func() {
		if c := wire.TargetToCompact(*big.NewInt(1)); c != 0x01010000 {
			t.Errorf("%#x", c)
		}
	})
	noPanic(t, "TargetToCompact(0)", func() { wire.TargetToCompact(*big.NewInt(0)) })
}

func TestF22GenesisConfig(t *testing.T) {
	p, err := genesis.OpenProfile(genesis.ProfileTest)
	if err != nil {
		t.Fatal(err)
	}
	c := p.Config
	if c.NetworkID != 1 || len(c.SeedPeers) != 4 || c.GenesisHash[0] != 0x1f {
		t.Errorf("%+v", c)
	}
}

func TestF23Registry(t *testing.T) {
	for _, m := range []wire.Message{&wire.GetTxProofMessage{}, &wire.GetTxReceiptsMessage{}} {
		if got, err := wire.UnmarshalMessage(m.Type(), make([]byte, 36)[:]); err != nil && got == nil {
			if _, unknown := err.(wire.UnknownMessageError); unknown {
				t.Error("own message type unknown", m.Type())
			}
		}
	}
}

type custom struct{ V uint8 }

func (c *custom) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 1 {
		return 0, beserial.ErrUnexpectedEOF
	}
	c.V = b[0]
	return 1, nil
}
func (c *custom) MarshalBESerial(b []byte) ([]byte, error) { return append(b, c.V), nil }
func (c *custom) SizeBESerial() (int, error)               { return 1, nil }

func TestF24OptionalCustom(t *testing.T) {
	type s struct {
		P *custom `beserial:"optional"`
	}
	noPanic(t, "optional custom", func() {
		var v s
		if err := beserial.UnmarshalFull([]byte{1, 7}, &v); err != nil || v.P.V != 7 {
			t.Error(err)
		}
		if b, err := beserial.Marshal(nil, &s{}); err != nil || !bytes.Equal(b, []byte{0}) {
			t.Error(b, err)
		}
	})
}

func TestF25UnknownType(t *testing.T) {
	accs := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	var pub [32]byte
	sender := wire.PublicKeyToAddress(&pub)
	accs.PutAccount(&sender, &wire.BasicAccount{Value: 10})
	err := accs.Push(&wire.Block{
		Header: wire.BlockHeader{Height: 1},
		Body: &wire.BlockBody{Txs: []wire.WrapTx{{Tx: &wire.ExtendedTx{
			Sender: sender, SenderType: 0xFF, Value: 7, RecipientType: 0xFF,
		}}}},
	})
	if err == nil {
		t.Error("block naming account type 255 was accepted")
	}
}

func TestF26FeeOverflow(t *testing.T) {
	accs := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	const half = uint64(1) << 63
	a, b := [20]byte{1}, [20]byte{2}
	accs.PutAccount(&a, &wire.BasicAccount{Value: half})
	accs.PutAccount(&b, &wire.BasicAccount{Value: half})
	miner := [20]byte{3}
	err := accs.Push(&wire.Block{
		Header: wire.BlockHeader{Height: 1},
		Body: &wire.BlockBody{MinerAddr: miner, Txs: []wire.WrapTx{
			{Tx: &wire.ExtendedTx{Sender: a, Fee: half, Recipient: [20]byte{4}}},
			{Tx: &wire.ExtendedTx{Sender: b, Fee: half, Recipient: [20]byte{4}}},
		}},
	})
	if got := accs.GetAccount(&miner).Balance(); err == nil && got < half {
		t.Errorf("fees of 2^64 were accepted, the miner received %d", got)
	}
}

func TestF27TrailingSpaces(t *testing.T) {
	addr := [20]byte{1, 2, 3}
	got, err := address.Decode(address.Encode(&addr) + " ")
	if err != nil || got != addr {
		t.Error("an address followed by a space was rejected:", err)
	}
}

type f28Byte byte

func TestF28NamedByteArray(t *testing.T) {
	var v struct{ A [4]f28Byte }
	noPanic(t, "decoding an array of a named byte type", func() {
		if _, err := beserial.Unmarshal([]byte{1, 2, 3, 4}, &v); err != nil || v.A != [4]f28Byte{1, 2, 3, 4} {
			t.Errorf("decoded %v, %v", v.A, err)
		}
	})
}

type f29Num uint16

func (o *f29Num) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 3 {
		return 0, beserial.ErrUnexpectedEOF
	}
	*o = f29Num(b[1])<<8 | f29Num(b[2])
	return 3, nil
}
func (o *f29Num) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, 7, byte(*o>>8), byte(*o)), nil
}
func (o *f29Num) SizeBESerial() (int, error) { return 3, nil }

func TestF29ElementsWithCodec(t *testing.T) {
	v := struct{ A [2]f29Num }{[2]f29Num{1, 2}}
	b, err := beserial.Marshal(nil, &v)
	if err != nil {
		t.Fatal(err)
	}
	if n, err := beserial.Size(&v); err != nil || n != len(b) {
		t.Errorf("size %d, %v for %d bytes", n, err, len(b))
	}
}

func TestF30ServiceFlags(t *testing.T) {
	if wire.ServicesNano != 1 || wire.ServicesLight != 2 || wire.ServicesFull != 4 {
		t.Errorf("service flags are %d, %d, %d, the protocol has 1, 2, 4", wire.ServicesNano, wire.ServicesLight, wire.ServicesFull)
	}
}

func TestF31TruncatedSlice(t *testing.T) {
	// 2 addresses announced, 1 byte there
	var m wire.GetTxProofMessage
	_, err := beserial.Unmarshal(append(make([]byte, 32), 0, 2, 7), &m)
	if !errors.Is(err, beserial.ErrUnexpectedEOF) {
		t.Errorf("a truncated message gives %v", err)
	}
}

func TestF32LockedOverspend(t *testing.T) {
	// 100 held, all of it locked
	c := &wire.VestingAccount{Value: 100, VestingStart: 10, VestingTotalAmount: 100}
	_, err := c.ApplyOutgoingTx(&wire.ExtendedTx{Value: 5}, 5)
	var over *wire.OverspendError
	if !errors.As(err, &over) || over.Available >= over.Spend {
		t.Errorf("spending locked funds gives %v", err)
	}
}
