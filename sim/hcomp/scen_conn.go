package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
	"github.com/levilutz/basiccoin/verifsim/hx"
	net "github.com/levilutz/basiccoin/verifsim/shim/net"
	"github.com/levilutz/basiccoin/verifsim/shim/os"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// conn: two ends of a peer connection exchanging values both ways.

func init() {
	hx.Register(&hx.Scenario{Name: "conn", Gen: genConn, Run: runConn, Opt: compOptions})
}

const connKinds = 9

func genConn(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawComp(r, p)
	if r.N(3) > 0 {
		p.Cfg["preempt"] = []int64{10, 100, 0}[r.N(3)]
	}
	n := 3 + r.N(40)
	if thorough {
		n = 3 + r.N(120)
	}
	for k := 0; k < n; k++ {
		// direction, kind, seed, pause before (ms), how the reader waits
		pause := int64(0)
		switch r.N(8) {
		case 0:
			pause = int64(r.N(300))
		case 1:
			pause = int64(r.N(4000))
		case 2:
			if r.N(10) == 0 {
				pause = int64(25000 + r.N(10000))
			}
		}
		p.Add(int64(k), "send", int64(r.N(2)), int64(r.N(connKinds)), int64(r.U64()>>1), pause, int64(r.N(3)))
	}
	if r.N(4) == 0 {
		// after so many bytes or at an instant the connection fails
		p.Cfg["fail"] = int64(1 + r.N(3))
		p.Cfg["failat"] = int64(r.N(20000))
		if r.N(2) == 0 {
			p.Cfg["failat"] = int64(r.N(300))
		}
	}
	p.Cfg["loss"] = []int64{0, 0, 0, 20}[r.N(4)]
}

// value is one thing sent.
type value struct {
	kind int
	raw  []byte
	num  uint64
	h    core.HashT
	b    core.Block
	m    core.MerkleNode
	t    core.Tx
	flag bool
}

func rh(r *simrt.RNG) (h core.HashT) {
	b := make([]byte, 32)
	r.Fill(b)
	switch r.N(12) {
	case 0:
		b = make([]byte, 32)
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	}
	return core.NewHashTFromBytes(b)
}

func rnum(r *simrt.RNG) uint64 {
	return []uint64{0, 1, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, r.U64(), r.U64() & 0xffff}[r.N(10)]
}

func rbytes(r *simrt.RNG, max int) []byte {
	n := r.N(max + 1)
	b := make([]byte, n)
	r.Fill(b)
	return b
}

func makeValue(kind int, seed uint64) *value {
	r := simrt.NewRNG(seed)
	v := &value{kind: kind}
	switch kind {
	case 0: // message
		n := []int{0, 1, 2, 3, 255, 256, 257, 4096, 65533, 65534, 65535, r.N(65536), r.N(300), r.N(300)}[r.N(14)]
		v.raw = make([]byte, n)
		r.Fill(v.raw)
	case 1: // too big a message
		v.raw = make([]byte, []int{65536, 65537, 70000, 131072}[r.N(4)])
	case 2: // string
		v.raw = []byte(fmt.Sprintf("cmd:%x", rbytes(r, 30)))
	case 3:
		v.num = rnum(r)
	case 4:
		v.h = rh(r)
	case 5:
		v.flag = r.N(2) == 0
	case 6:
		v.b = core.Block{PrevBlockId: rh(r), MerkleRoot: rh(r), Target: rh(r), Noise: rh(r), Nonce: rnum(r), MinedTime: rnum(r)}
	case 7:
		v.m = core.MerkleNode{LChild: rh(r), RChild: rh(r)}
	case 8:
		t := core.Tx{IsCoinbase: r.N(3) == 0, MinBlock: rnum(r), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
		ni, no := r.N(5), r.N(5)
		if r.N(10) == 0 {
			no = r.N(300)
		}
		for k := 0; k < ni; k++ {
			t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: rh(r), Ind: rnum(r), Value: rnum(r)}, PublicKey: rbytes(r, 200), Signature: rbytes(r, 200)})
		}
		for k := 0; k < no; k++ {
			t.Outputs = append(t.Outputs, core.TxOut{Value: rnum(r), PublicKeyHash: rh(r)})
		}
		v.t = t
	}
	return v
}

func (v *value) write(c *prot.Conn) {
	switch v.kind {
	case 0, 1:
		c.Write(v.raw)
	case 2:
		c.WriteString(string(v.raw))
	case 3:
		c.WriteUint64(v.num)
	case 4:
		c.WriteHashT(v.h)
	case 5:
		c.WriteBool(v.flag)
	case 6:
		c.WriteBlock(v.b)
	case 7:
		c.WriteMerkle(v.m)
	case 8:
		c.WriteTx(v.t)
	}
}

func sameTx(a, b core.Tx) bool {
	if a.IsCoinbase != b.IsCoinbase || a.MinBlock != b.MinBlock || len(a.Inputs) != len(b.Inputs) || len(a.Outputs) != len(b.Outputs) {
		return false
	}
	for i := range a.Inputs {
		if a.Inputs[i].Utxo != b.Inputs[i].Utxo || !bytes.Equal(a.Inputs[i].PublicKey, b.Inputs[i].PublicKey) || !bytes.Equal(a.Inputs[i].Signature, b.Inputs[i].Signature) {
			return false
		}
	}
	for i := range a.Outputs {
		if a.Outputs[i] != b.Outputs[i] {
			return false
		}
	}
	return true
}

func (v *value) same(o *value) bool {
	return bytes.Equal(v.raw, o.raw) && v.num == o.num && v.h == o.h && v.flag == o.flag && v.b == o.b && v.m == o.m && sameTx(v.t, o.t)
}

func (v *value) String() string {
	switch v.kind {
	case 0, 1:
		return fmt.Sprintf("%d bytes %.16x", len(v.raw), v.raw)
	case 2:
		return fmt.Sprintf("%q", v.raw)
	case 3:
		return fmt.Sprint(v.num)
	case 4:
		return v.h.String()
	case 5:
		return fmt.Sprint(v.flag)
	case 6:
		return fmt.Sprintf("%v", v.b)
	case 7:
		return fmt.Sprintf("%v", v.m)
	}
	return fmt.Sprintf("tx with %d inputs, %d outputs", len(v.t.Inputs), len(v.t.Outputs))
}

// read reads a value like want; ok is false once the connection has an error.
func readValue(c *prot.Conn, want *value) (v *value) {
	v = &value{kind: want.kind}
	switch want.kind {
	case 0:
		v.raw = c.Read()
	case 2:
		v.raw = []byte(c.ReadString())
	case 3:
		v.num = c.ReadUint64()
	case 4:
		v.h = c.ReadHashT()
	case 5:
		v.flag = c.ReadBool()
	case 6:
		v.b = c.ReadBlock(want.b.Hash())
	case 7:
		v.m = c.ReadMerkle(want.m.Hash())
	case 8:
		v.t = c.ReadTx(want.t.Hash())
	}
	return v
}

func runConn(x *hx.Run) {
	c := newComp(x, "C11 C13")
	hosts := []*simrt.Host{x.W.NewHost("a", "10.0.0.1"), x.W.NewHost("b", "10.0.0.2")}
	if l := x.Plan.C("loss"); l > 0 {
		x.W.SetLoss(hosts[0], hosts[1], int(l))
	}
	// what each direction carries
	var dir [2][]hx.Op
	for _, op := range x.Plan.Ops {
		d := int(op.Arg(0)) & 1
		dir[d] = append(dir[d], op)
	}
	failing := x.Plan.C("fail") > 0
	conns := make([]*prot.Conn, 2)
	failed := false
	paused := false
	good := [2]int{}
	left := [2]int{}
	side := func(k int) func() {
		return func() {
			var cn *prot.Conn
			if k == 0 {
				l, err := net.ListenTCP("tcp", &net.TCPAddr{Port: 21720})
				if err != nil {
					panic(err)
				}
				tc, err := l.AcceptTCP()
				if err != nil {
					return
				}
				cn = prot.NewConn(prot.NewParams("runtime-a", false, false), tc)
			} else {
				simrt.Sleep(10 * time.Millisecond)
				var err error
				for try := 0; try < 20; try++ {
					cn, err = prot.ResolveConn(prot.NewParams("runtime-b", true, false), "10.0.0.1:21720")
					if err == nil || failed {
						break
					}
					simrt.Sleep(500 * time.Millisecond)
				}
				if err != nil {
					if !failed {
						x.Fail("C11", "connect-failed", "cannot connect: %v", err)
					}
					return
				}
			}
			if cn.HasErr() {
				if !failed {
					x.Fail("C11 C12", "handshake-failed", "end %d: handshake failed: %v", k, cn.Err())
				}
				return
			}
			if want := []string{"runtime-b", "runtime-a"}[k]; cn.PeerRuntimeId() != want {
				x.Fail("C11 C14", "wrong-peer-id", "end %d: the other end is %q, read as %q", k, want, cn.PeerRuntimeId())
			}
			conns[k] = cn
			// A connection is used by one task at a time: take turns, as peers do,
			// by the plan's order.
			for _, op := range x.Plan.Ops {
				d := int(op.Arg(0)) & 1
				v := makeValue(int(op.Arg(1)), uint64(op.Arg(2)))
				if d == k {
					if op.Arg(3) > 0 {
						simrt.Sleep(time.Duration(op.Arg(3)) * time.Millisecond)
					}
					v.write(cn)
					if v.kind == 1 {
						if !cn.HasErr() {
							x.Fail("C11", "oversize-accepted", "a message of %d bytes was accepted", len(v.raw))
							return
						}
						x.Probe("oversize-refused")
						cn.Err()
						continue
					}
					if cn.HasErr() {
						err := cn.Err()
						if !failed && !paused {
							x.Fail("C11", "write-failed", "end %d: writing %v failed: %v", k, v, err)
						}
						return
					}
					continue
				}
				if v.kind == 1 {
					continue
				}
				at := x.W.Now()
				var got *value
				if v.kind == 0 && op.Arg(4) > 0 {
					// wait briefly, again and again, as an idle peer does
					d := []time.Duration{0, 100 * time.Millisecond, time.Millisecond}[op.Arg(4)]
					for try := 0; ; try++ {
						raw := cn.ReadTimeout(d)
						if !cn.HasErr() {
							got = &value{kind: 0, raw: raw}
							break
						}
						err := cn.Err()
						if os.IsTimeout(err) && x.W.Now()-at < int64(80*time.Second) {
							x.Probe("gave-up-waiting")
							continue
						}
						if !failed && !paused {
							x.Fail("C11 C12", "read-failed", "end %d: waiting for %v failed: %v", k, v, err)
						}
						return
					}
				} else {
					got = readValue(cn, v)
					if cn.HasErr() {
						err := cn.Err()
						// the other side paused for longer than reads wait
						if x.W.Now()-at >= int64(29*time.Second) {
							paused = true
						}
						if !failed && !paused {
							x.Fail("C11 C12", "read-failed", "end %d: reading %v failed: %v", k, v, err)
						}
						return
					}
				}
				x.Checked(1)
				if !got.same(v) {
					x.Fail("C11", "read-altered", "end %d read %v, the other end wrote %v", k, got, v)
					return
				}
				good[k]++
			}
			left[k] = 1
			simrt.Sleep(5 * time.Second)
		}
	}
	pa := x.W.Start(hosts[0], "a", nil, nil, side(0))
	pb := x.W.Start(hosts[1], "b", nil, nil, side(1))
	if failing {
		simrt.Sleep(time.Duration(x.Plan.C("failat")) * time.Millisecond)
		failed = true
		switch x.Plan.C("fail") {
		case 1:
			x.W.Fault("reset")
			x.W.ResetConns(hosts[0], hosts[1])
		case 2:
			x.W.Fault("kill")
			pb.Kill()
		case 3:
			x.W.Fault("partition")
			x.W.Cut(hosts[0], hosts[1])
		}
	}
	_ = c
	if (!pa.Wait(2000*time.Second) || !pb.Wait(2000*time.Second)) && (!failed || conns[0] != nil && conns[1] != nil) {
		x.Fail("C11", "stuck", "an end of the connection neither reads, writes nor fails")
	}
	x.Probe("values-read")
}
