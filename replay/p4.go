package main

import (
	"strings"
	"sync"
	"time"

	"github.com/RadicalApp/complete"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func init() { props["C25"] = c25 }

// outcome records the callbacks of one asynchronous call.
type outcome struct {
	mu   sync.Mutex
	succ []complete.Result
	fail []string
	nilR bool
	hit  chan struct{}
}

func newOutcome() *outcome { return &outcome{hit: make(chan struct{}, 64)} }

func (o *outcome) OnSuccess(r *complete.Result) {
	o.mu.Lock()
	if r == nil {
		o.nilR = true
		o.succ = append(o.succ, complete.Result{})
	} else {
		o.succ = append(o.succ, *r)
	}
	o.mu.Unlock()
	o.hit <- struct{}{}
}

func (o *outcome) OnFailure(m string) {
	o.mu.Lock()
	o.fail = append(o.fail, m)
	o.mu.Unlock()
	o.hit <- struct{}{}
}

// wait until every call reported something, and a little longer.
func (c *C) wait(what string, os []*outcome) {
	for i, o := range os {
		select {
		case <-o.hit:
		case <-time.After(20 * time.Second):
			c.Failf("%s: call %d of %d reports nothing within 20 s", what, i, len(os))
		}
	}
	time.Sleep(60 * time.Millisecond)
	for i, o := range os {
		o.mu.Lock()
		ns, nf, nr := len(o.succ), len(o.fail), o.nilR
		o.mu.Unlock()
		c.Check(ns+nf == 1, "%s: call %d of %d reports %d successes and %d failures", what, i, len(os), ns, nf)
		c.Check(!nr, "%s: call %d of %d succeeds without a result", what, i, len(os))
	}
}

func c25(t *T) {
	t.Case("identity key pairs", t.n(6), func(c *C) {
		n := 1 + c.r.Intn(8)
		var os []*outcome
		for i := 0; i < n; i++ {
			o := newOutcome()
			os = append(os, o)
			keyhelper.GenerateIdentityKeyPairAsync(o)
		}
		c.Note("%d calls", n)
		c.wait("GenerateIdentityKeyPairAsync", os)
		seen := map[[32]byte]bool{}
		for _, o := range os {
			c.Check(len(o.succ) == 1, "no success: %v", o.fail)
			kp, ok := o.succ[0].Data.(*identity.KeyPair)
			c.Check(ok && kp != nil, "the result is a %T", o.succ[0].Data)
			c.Check(strings.HasSuffix(o.succ[0].DataType, "identity.KeyPair"), "type name %q", o.succ[0].DataType)
			priv := kp.PrivateKey().Serialize()
			c.Check(priv == clamped(priv), "the private key is not clamped")
			c.Check(kp.PublicKey().PublicKey().PublicKey() == x25519base(priv), "the public key is not that of the private key")
			c.Check(!seen[priv], "two calls give the same key")
			seen[priv] = true
		}
	})
	t.Case("identity key pairs, random source fails", t.n(4), func(c *C) {
		bad := c.r.Intn(32)
		c.Note("after %d bytes", bad)
		withRand(&badRand{bad}, func() {
			o := newOutcome()
			keyhelper.GenerateIdentityKeyPairAsync(o)
			c.wait("GenerateIdentityKeyPairAsync", []*outcome{o})
			c.Check(len(o.fail) == 1, "success although the random source fails")
		})
	})
	t.Case("signatures", t.n(6), func(c *C) {
		n := 1 + c.r.Intn(6)
		ids := []*identity.KeyPair{}
		msgs := [][]byte{}
		var os []*outcome
		for i := 0; i < n; i++ {
			ids = append(ids, ridentity(c.r))
			msgs = append(msgs, rb(c.r, c.r.Intn(120)))
		}
		for i := 0; i < n; i++ {
			o := newOutcome()
			os = append(os, o)
			ecc.CalculateSignatureAsync(ids[i].PrivateKey(), msgs[i], o)
		}
		c.Note("%d calls", n)
		c.wait("CalculateSignatureAsync", os)
		var vs []*outcome
		var want []bool
		for i, o := range os {
			c.Check(len(o.succ) == 1, "no success: %v", o.fail)
			s, ok := o.succ[0].Data.([64]byte)
			c.Check(ok, "the result is a %T", o.succ[0].Data)
			pub := ids[i].PublicKey().PublicKey()
			c.Check(oracleVerify(pub.PublicKey(), msgs[i], s), "the signature of call %d does not verify", i)
			m := append([]byte{}, msgs[i]...)
			s2 := s
			k := pub
			good := true
			switch c.r.Intn(5) {
			case 0:
				s2[c.r.Intn(63)] ^= 1 << uint(c.r.Intn(8))
				good = false
			case 1:
				m = append(m, 7)
				good = false
			case 2:
				k = ridentity(c.r).PublicKey().PublicKey()
				good = false
			}
			v := newOutcome()
			vs, want = append(vs, v), append(want, good)
			ecc.VerifySignatureAsync(k, m, s2, v)
		}
		c.wait("VerifySignatureAsync", vs)
		for i, v := range vs {
			if !want[i] {
				c.Check(len(v.fail) == 1, "a wrong signature is reported as valid")
				continue
			}
			c.Check(len(v.succ) == 1, "a right signature is reported as invalid: %v", v.fail)
			r, ok := v.succ[0].Data.(bool)
			c.Check(ok && r, "the result is %v", v.succ[0].Data)
		}
	})
	t.Case("signatures, random source fails", t.n(3), func(c *C) {
		// the synchronous operation ignores a failing source: same outcome here
		id := ridentity(c.r)
		m := rb(c.r, 20)
		withRand(&badRand{c.r.Intn(64)}, func() {
			o := newOutcome()
			ecc.CalculateSignatureAsync(id.PrivateKey(), m, o)
			c.wait("CalculateSignatureAsync", []*outcome{o})
		})
	})
}
