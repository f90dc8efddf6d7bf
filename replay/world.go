package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

var jsonSer = serialize.NewJSONSerializer()
var protoSer = serialize.NewProtoBufSerializer()

// mem is a store for everything one device keeps.
type mem struct {
	persist  bool // keep serialised bytes only, as a database would
	ser      *serialize.Serializer
	idpair   *identity.KeyPair
	regID    uint32
	live     map[string]*record.Session
	fresh    map[string]*record.Session // records made by LoadSession
	bytes    map[string][]byte
	ident    map[string]string
	pre      map[uint32]*record.PreKey
	preB     map[uint32][]byte
	signed   map[uint32]*record.SignedPreKey
	signedB  map[uint32][]byte
	gr       map[string]*grecord.SenderKey
	grB      map[string][]byte
	distrust map[string]bool // fingerprints that are not trusted
	log      []string
	onStore  func(rec *record.Session)
	keepNew  bool // LoadSession keeps the record it makes for an unknown address
}

func newMem(ser *serialize.Serializer, persist bool) *mem {
	return &mem{persist: persist, ser: ser, live: map[string]*record.Session{}, fresh: map[string]*record.Session{}, bytes: map[string][]byte{}, ident: map[string]string{},
		pre: map[uint32]*record.PreKey{}, preB: map[uint32][]byte{}, signed: map[uint32]*record.SignedPreKey{}, signedB: map[uint32][]byte{},
		gr: map[string]*grecord.SenderKey{}, grB: map[string][]byte{}, distrust: map[string]bool{}}
}

func (m *mem) ev(f string, a ...interface{}) { m.log = append(m.log, fmt.Sprintf(f, a...)) }

// changes lists the events that change something.
func (m *mem) changes() []string {
	var out []string
	for _, e := range m.log {
		switch strings.SplitN(e, " ", 2)[0] {
		case "StoreSession", "DeleteSession", "RemovePreKey", "StorePreKey", "SaveIdentity", "StoreSenderKey", "RemoveSignedPreKey", "StoreSignedPreKey", "DeleteAllSessions":
			out = append(out, e)
		}
	}
	return out
}

func (m *mem) GetIdentityKeyPair() *identity.KeyPair { return m.idpair }
func (m *mem) GetLocalRegistrationId() uint32        { return m.regID }
func (m *mem) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	m.ev("SaveIdentity %s %s", a.String(), k.Fingerprint())
	m.ident[a.String()] = k.Fingerprint()
}
func (m *mem) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	m.ev("IsTrustedIdentity %s", a.String())
	if m.distrust[k.Fingerprint()] {
		return false
	}
	old, ok := m.ident[a.String()]
	return !ok || old == k.Fingerprint()
}
func (m *mem) LoadPreKey(id uint32) *record.PreKey {
	m.ev("LoadPreKey %d", id)
	if m.persist {
		b, ok := m.preB[id]
		if !ok {
			return nil
		}
		r, err := record.NewPreKeyFromBytes(b, m.ser.PreKeyRecord)
		if err != nil {
			panic(err)
		}
		return r
	}
	return m.pre[id]
}
func (m *mem) StorePreKey(id uint32, r *record.PreKey) {
	m.ev("StorePreKey %d", id)
	m.pre[id] = r
	m.preB[id] = r.Serialize()
}
func (m *mem) ContainsPreKey(id uint32) bool { _, ok := m.pre[id]; return ok }
func (m *mem) RemovePreKey(id uint32) {
	m.ev("RemovePreKey %d", id)
	delete(m.pre, id)
	delete(m.preB, id)
}
func (m *mem) newRecord() *record.Session { return record.NewSession(m.ser.Session, m.ser.State) }
func (m *mem) LoadSession(a *protocol.SignalAddress) *record.Session {
	m.ev("LoadSession %s", a.String())
	k := a.String()
	if m.persist {
		b, ok := m.bytes[k]
		if !ok {
			return m.newRecord()
		}
		r, err := record.NewSessionFromBytes(b, m.ser.Session, m.ser.State)
		if err != nil {
			panic(err)
		}
		return r
	}
	if r, ok := m.live[k]; ok {
		return r
	}
	if r, ok := m.fresh[k]; ok {
		return r
	}
	r := m.newRecord()
	if m.keepNew {
		m.fresh[k] = r
	}
	return r
}
func (m *mem) GetSubDeviceSessions(name string) []uint32 { return nil }
func (m *mem) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	m.ev("StoreSession %s", a.String())
	m.live[a.String()] = r
	delete(m.fresh, a.String())
	m.bytes[a.String()] = r.Serialize()
	if m.onStore != nil {
		m.onStore(r)
	}
}
func (m *mem) ContainsSession(a *protocol.SignalAddress) bool { _, ok := m.live[a.String()]; return ok }
func (m *mem) DeleteSession(a *protocol.SignalAddress) {
	m.ev("DeleteSession %s", a.String())
	delete(m.live, a.String())
	delete(m.fresh, a.String())
	delete(m.bytes, a.String())
}
func (m *mem) DeleteAllSessions() {
	m.ev("DeleteAllSessions")
	m.live = map[string]*record.Session{}
	m.bytes = map[string][]byte{}
}
func (m *mem) LoadSignedPreKey(id uint32) *record.SignedPreKey {
	m.ev("LoadSignedPreKey %d", id)
	if m.persist {
		b, ok := m.signedB[id]
		if !ok {
			return nil
		}
		r, err := record.NewSignedPreKeyFromBytes(b, m.ser.SignedPreKeyRecord)
		if err != nil {
			panic(err)
		}
		return r
	}
	return m.signed[id]
}
func (m *mem) LoadSignedPreKeys() []*record.SignedPreKey {
	var out []*record.SignedPreKey
	for _, r := range m.signed {
		out = append(out, r)
	}
	return out
}
func (m *mem) StoreSignedPreKey(id uint32, r *record.SignedPreKey) {
	m.ev("StoreSignedPreKey %d", id)
	m.signed[id] = r
	m.signedB[id] = r.Serialize()
}
func (m *mem) ContainsSignedPreKey(id uint32) bool { _, ok := m.signed[id]; return ok }
func (m *mem) RemoveSignedPreKey(id uint32) {
	m.ev("RemoveSignedPreKey %d", id)
	delete(m.signed, id)
	delete(m.signedB, id)
}
func skn(n *protocol.SenderKeyName) string { return n.GroupID() + "|" + n.Sender().String() }
func (m *mem) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) {
	m.ev("StoreSenderKey %s", skn(n))
	m.gr[skn(n)] = r
	m.grB[skn(n)] = r.Serialize()
}
func (m *mem) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey {
	m.ev("LoadSenderKey %s", skn(n))
	if m.persist {
		b, ok := m.grB[skn(n)]
		if !ok {
			return nil
		}
		r, err := grecord.NewSenderKeyFromBytes(b, m.ser.SenderKeyRecord, m.ser.SenderKeyState)
		if err != nil {
			panic(err)
		}
		return r
	}
	return m.gr[skn(n)]
}

// snapshot is everything the store holds, as text.
func (m *mem) snapshot() string {
	var s []string
	for k, r := range m.live {
		s = append(s, "session "+k+" "+string(r.Serialize()))
	}
	for k, r := range m.fresh {
		if x := string(r.Serialize()); x != string(m.newRecord().Serialize()) {
			s = append(s, "new session "+k+" "+x)
		}
	}
	for k, r := range m.bytes {
		s = append(s, "stored session "+k+" "+string(r))
	}
	for k, r := range m.ident {
		s = append(s, "identity "+k+" "+r)
	}
	for k, r := range m.pre {
		s = append(s, fmt.Sprint("prekey ", k, string(r.Serialize())))
	}
	for k, r := range m.signed {
		s = append(s, fmt.Sprint("signed ", k, string(r.Serialize())))
	}
	for k, r := range m.gr {
		s = append(s, "group "+k+" "+string(r.Serialize()))
	}
	for k, r := range m.grB {
		s = append(s, "stored group "+k+" "+string(r))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// diff shows the first differing line of two snapshots.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := ""
			if i < len(y) {
				o = y[i]
			}
			j := 0
			for j < len(x[i]) && j < len(o) && x[i][j] == o[j] {
				j++
			}
			if j > 60 {
				j -= 60
			} else {
				j = 0
			}
			return trim(x[i][j:], 400) + "\n  -> " + trim(o[j:], 400)
		}
	}
	return "more lines"
}

// user is one device.
type user struct {
	name   string
	addr   *protocol.SignalAddress
	st     *mem
	spkID  uint32
	spk    *ecc.ECKeyPair
	spkSig [64]byte
}

// farIDs are ids of prekeys next to the boundaries of narrower types.
var farIDs = []uint32{127, 128, 255, 256, 32768, 65535, 65536, 0xFFFFFE, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}

func rb(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func arr32(b []byte) (a [32]byte) { copy(a[:], b); return }

func rkey(r *rand.Rand) *ecc.ECKeyPair { return ecc.CreateKeyPair(rb(r, 32)) }

func ridentity(r *rand.Rand) *identity.KeyPair {
	k := rkey(r)
	return identity.NewKeyPair(identity.NewKey(k.PublicKey()), k.PrivateKey())
}

func newUser(c *C, name string, ser *serialize.Serializer, persist bool) *user {
	u := &user{name: name, addr: protocol.NewSignalAddress(name, uint32(1+c.r.Intn(3)))}
	u.st = newMem(ser, persist)
	u.st.keepNew = !persist && c.r.Intn(2) == 0
	u.st.idpair = ridentity(c.r)
	u.st.regID = c.r.Uint32()
	if c.r.Intn(4) == 0 {
		u.st.regID = []uint32{0, 1, 0x3FFF, 0x4000, 1<<31 - 1, 1 << 31, 1<<32 - 1}[c.r.Intn(7)]
	}
	u.spkID = uint32(c.r.Intn(1000))
	if c.r.Intn(3) == 0 {
		u.spkID = []uint32{0, 1000, 0xFFFFFF, 0x1000000, 0x1000000 + uint32(c.r.Intn(1000)), 1 << 31, 1<<32 - 1, c.r.Uint32()}[c.r.Intn(8)]
	}
	u.spk = rkey(c.r)
	u.spkSig = ecc.CalculateSignature(u.st.idpair.PrivateKey(), u.spk.PublicKey().Serialize())
	u.st.StoreSignedPreKey(u.spkID, record.NewSignedPreKey(u.spkID, int64(c.r.Uint32()), u.spk, u.spkSig, ser.SignedPreKeyRecord))
	for i := 0; i < 6; i++ {
		id := uint32(i)
		if i == 5 {
			id = 0xFFFFFF
		}
		u.st.StorePreKey(id, record.NewPreKey(id, rkey(c.r), ser.PreKeyRecord))
	}
	for _, id := range farIDs {
		u.st.StorePreKey(id, record.NewPreKey(id, rkey(c.r), ser.PreKeyRecord))
	}
	u.st.log = nil
	return u
}

// builder and cipher of u for talking to p.
func (u *user) builder(p *user) *session.Builder {
	return session.NewBuilderFromSignal(u.st, p.addr, u.st.ser)
}
func (u *user) cipher(p *user) *session.Cipher { return session.NewCipher(u.builder(p), p.addr) }

// bundle of u; opk < 0: without a one-time prekey.
func (u *user) bundle(opk int64) *prekey.Bundle {
	id := optional.NewEmptyUint32()
	var pub ecc.ECPublicKeyable
	if opk >= 0 {
		id = optional.NewOptionalUint32(uint32(opk))
		pub = u.st.pre[uint32(opk)].KeyPair().PublicKey()
	}
	return prekey.NewBundle(u.st.regID, u.addr.DeviceID(), id, u.spkID, pub, u.spk.PublicKey(), u.spkSig, u.st.idpair.PublicKey())
}

// have replaces the id of a used one-time prekey by -1.
func (u *user) have(opk int64) int64 {
	if opk >= 0 && u.st.pre[uint32(opk)] == nil {
		return -1
	}
	return opk
}

// wire is a message as it arrives at the other end.
type wire struct {
	pre *protocol.PreKeySignalMessage
	sig *protocol.SignalMessage
	raw []byte
}

func (w *wire) inner() *protocol.SignalMessage {
	if w.pre != nil {
		return w.pre.WhisperMessage()
	}
	return w.sig
}

func parse(raw []byte, typ uint32, ser *serialize.Serializer) (*wire, error) {
	w := &wire{raw: raw}
	var err error
	if typ == protocol.PREKEY_TYPE {
		w.pre, err = protocol.NewPreKeySignalMessageFromBytes(raw, ser.PreKeySignalMessage, ser.SignalMessage)
	} else {
		w.sig, err = protocol.NewSignalMessageFromBytes(raw, ser.SignalMessage)
	}
	return w, err
}

func (u *user) enc(c *C, p *user, text []byte) *wire {
	m, err := u.cipher(p).Encrypt(text)
	c.Check(err == nil, "Encrypt by %s: %v", u.name, err)
	w, err := parse(m.Serialize(), m.Type(), u.st.ser)
	c.Check(err == nil, "parsing a message of %s: %v", u.name, err)
	return w
}

func (u *user) dec(p *user, w *wire) ([]byte, error) {
	if w.pre != nil {
		return u.cipher(p).DecryptMessage(w.pre)
	}
	return u.cipher(p).Decrypt(w.sig)
}

func (u *user) mustDec(c *C, p *user, w *wire, text []byte) {
	b, err := u.dec(p, w)
	c.Check(err == nil, "%s cannot decrypt a genuine message (counter %d): %v", u.name, w.inner().Counter(), err)
	c.Check(bytes.Equal(b, text), "%s decrypted %x, sent was %x", u.name, b, text)
}

// mustReject checks that w is refused and nothing changes.
func (u *user) mustReject(c *C, p *user, w *wire, why string) {
	before := u.st.snapshot()
	u.st.log = nil
	b, err := u.dec(p, w)
	c.Check(err != nil, "%s: accepted (plaintext %x)", why, b)
	c.Check(b == nil, "%s: an error and a plaintext (%x)", why, b)
	c.Check(len(u.st.changes()) == 0, "%s: rejected, but the stores were changed: %v", why, u.st.changes())
	after := u.st.snapshot()
	c.Check(before == after, "%s: rejected, but the state changed:\n  %s", why, diff(before, after))
}

func (u *user) rec(p *user) *record.Session { return u.st.LoadSession(p.addr) }

// view of the serialised session
type kst struct {
	CipherKey, MacKey, IV []byte
	Index                 uint32
}
type chainV struct {
	SenderRatchetKeyPublic, SenderRatchetKeyPrivate []byte
	ChainKey                                        *struct {
		Key   []byte
		Index uint32
	}
	MessageKeys []kst
}
type stateV struct {
	LocalIdentityPublic  []byte
	LocalRegistrationID  uint32
	NeedsRefresh         bool
	PendingKeyExchange   *record.PendingKeyExchangeStructure
	PendingPreKey        *record.PendingPreKeyStructure
	PreviousCounter      uint32
	ReceiverChains       []chainV
	RemoteIdentityPublic []byte
	RemoteRegistrationID uint32
	RootKey              []byte
	SenderBaseKey        []byte
	SenderChain          *chainV
	SessionVersion       int
}
type sessV struct {
	SessionState   *stateV
	PreviousStates []*stateV
}

func view(r *record.Session) *sessV {
	var v sessV
	if err := json.Unmarshal(r.Serialize(), &v); err != nil {
		panic(err)
	}
	return &v
}

func js(x interface{}) string { b, _ := json.Marshal(x); return string(b) }

func (v *stateV) chain(pub []byte) *chainV {
	for i := range v.ReceiverChains {
		if bytes.Equal(v.ReceiverChains[i].SenderRatchetKeyPublic, pub) {
			return &v.ReceiverChains[i]
		}
	}
	return nil
}

// setVersion returns a copy of the record whose current state has the given version.
func setVersion(r *record.Session, version int, ser *serialize.Serializer) *record.Session {
	st, err := ser.Session.Deserialize(r.Serialize())
	if err != nil {
		panic(err)
	}
	st.SessionState.SessionVersion = version
	n, err := record.NewSessionFromStructure(st, ser.Session, ser.State)
	if err != nil {
		panic(err)
	}
	return n
}

// edit changes the stored session of u with p.
func (u *user) edit(p *user, f func(st *record.SessionStructure)) {
	st, err := u.st.ser.Session.Deserialize(u.rec(p).Serialize())
	if err != nil {
		panic(err)
	}
	f(st)
	n, err := record.NewSessionFromStructure(st, u.st.ser.Session, u.st.ser.State)
	if err != nil {
		panic(err)
	}
	log := u.st.log
	u.st.StoreSession(p.addr, n)
	u.st.log = log
}

// gedit changes the stored sender keys of u.
func (u *user) gedit(name *protocol.SenderKeyName, f func(st *grecord.SenderKeyStructure)) {
	st, err := u.st.ser.SenderKeyRecord.Deserialize(u.st.LoadSenderKey(name).Serialize())
	if err != nil {
		panic(err)
	}
	f(st)
	n, err := grecord.NewSenderKeyFromStruct(st, u.st.ser.SenderKeyRecord, u.st.ser.SenderKeyState)
	if err != nil {
		panic(err)
	}
	log := u.st.log
	u.st.StoreSenderKey(name, n)
	u.st.log = log
}

// far is a distance that takes a small counter next to one of the places
// where a narrower representation or a small limit would show.
func (c *C) far() uint32 {
	x := []uint32{100, 128, 256, 1000, 2000, 4096, 5000, 10000, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 20000, c.r.Uint32() >> 1}[c.r.Intn(14)]
	return x - uint32(c.r.Intn(12))
}

// shift moves the sending chain of a, and the chain of b that receives from
// it, to a far position, as if that many messages had been exchanged on it.
// All other parts of the sessions stay.
func (c *C) shift(a, b *user) uint32 {
	d := c.far()
	sc := view(a.rec(b)).SessionState.SenderChain
	if sc == nil || view(b.rec(a)).SessionState.chain(sc.SenderRatchetKeyPublic) == nil {
		return 0
	}
	pub := sc.SenderRatchetKeyPublic
	a.edit(b, func(st *record.SessionStructure) {
		st.SessionState.SenderChain.ChainKey.Index += d
	})
	b.edit(a, func(st *record.SessionStructure) {
		for _, ch := range st.SessionState.ReceiverChains {
			if bytes.Equal(ch.SenderRatchetKeyPublic, pub) {
				ch.ChainKey.Index += d
				for _, k := range ch.MessageKeys {
					k.Index += d
				}
			}
		}
	})
	c.Note("chain of %s moved by %d", a.name, d)
	return d
}

// gshift does the same for a sender key of a group.
func (c *C) gshift(n *protocol.SenderKeyName, us ...*user) uint32 {
	d := c.far()
	for _, u := range us {
		u.gedit(n, func(st *grecord.SenderKeyStructure) {
			for _, s := range st.SenderKeyStates {
				s.SenderChainKey.Iteration += d
				for _, k := range s.Keys {
					k.Iteration += d
				}
			}
		})
	}
	c.Note("iterations moved by %d", d)
	return d
}

// pair sets up two users with a session from a to b whose first message bob has read.
func pair(c *C, ser *serialize.Serializer, persist bool) (a, b *user) {
	a, b = newUser(c, "alice", ser, persist), newUser(c, "bob", ser, persist)
	c.past(a, b)
	c.start(a, b, 1)
	c.talk(a, b)
	return
}

// past gives a and b, at times, sessions from before.
func (c *C) past(a, b *user) {
	if c.r.Intn(4) > 0 {
		return
	}
	for i := 1 + c.r.Intn(3); i > 0; i-- {
		x, y := a, b
		if c.r.Intn(2) == 0 {
			x, y = b, a
		}
		c.Note("earlier session from %s", x.name)
		opk := int64(-1)
		if c.r.Intn(2) == 0 {
			opk = int64(farIDs[c.r.Intn(len(farIDs))])
		}
		c.start(x, y, opk)
		if c.r.Intn(4) == 0 {
			continue
		}
		c.talk(x, y)
		for j := c.r.Intn(4); j > 0; j-- {
			c.talk(y, x)
			x, y = y, x
		}
	}
}

func (c *C) start(a, b *user, opk int64) {
	opk = b.have(opk)
	err := a.builder(b).ProcessBundle(b.bundle(opk))
	c.Check(err == nil, "ProcessBundle: %v", err)
}

// size is a length below n, or at times a long one or a multiple of a block.
func (c *C) size(n int) int {
	switch c.r.Intn(24) {
	case 0:
		return []int{0, 1, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257}[c.r.Intn(14)]
	case 1:
		return []int{512, 1000, 1024, 4080, 4095, 4096, 4097, 8192, 16383, 16384, 65535, 65536, 70000}[c.r.Intn(13)] - c.r.Intn(2)
	}
	return c.r.Intn(n)
}

// text of a message, sometimes empty or of whole blocks.
func (c *C) text() []byte {
	switch c.r.Intn(10) {
	case 0, 1:
		return []byte{}
	case 2:
		return rb(c.r, []int{15, 16, 17, 31, 32, 48}[c.r.Intn(6)])
	}
	return rb(c.r, 1+c.r.Intn(20))
}

// talk sends one message from a to b.
func (c *C) talk(a, b *user) {
	t := rb(c.r, c.size(40))
	b.mustDec(c, a, a.enc(c, b, t), t)
}

func (c *C) ser() *serialize.Serializer {
	if c.r.Intn(3) == 0 {
		return jsonSer
	}
	return protoSer
}

// groups

func (u *user) gbuilder() *groups.SessionBuilder {
	return groups.NewGroupSessionBuilder(u.st, u.st.ser)
}
func (u *user) gcipher(n *protocol.SenderKeyName) *groups.GroupCipher {
	return groups.NewGroupCipher(u.gbuilder(), n, u.st)
}

type gkey struct {
	Iteration uint32
	IV        []byte
	CipherKey []byte
	Seed      []byte
}
type gstateV struct {
	Keys           []gkey
	KeyID          uint32
	SenderChainKey *struct {
		Iteration uint32
		ChainKey  []byte
	}
	SigningKeyPrivate []byte
	SigningKeyPublic  []byte
}
type gview struct{ SenderKeyStates []*gstateV }

func (u *user) gv(n *protocol.SenderKeyName) *gview {
	var v gview
	r := u.st.LoadSenderKey(n)
	if r == nil {
		return nil
	}
	if err := json.Unmarshal(r.Serialize(), &v); err != nil {
		panic(err)
	}
	return &v
}
