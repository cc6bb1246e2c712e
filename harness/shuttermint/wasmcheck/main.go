// Command wasmcheck runs the WebAssembly modules that users encrypt with under node and compares
// them to the keypers' code.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"

	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

func must(err error) {
	if err != nil {
		panic(vt.InfraError(err.Error()))
	}
}

type jsArg struct {
	T string `json:"t"`
	V string `json:"v"`
}

type answer struct {
	Names     []string `json:"names"`
	Type      string   `json:"type"`
	Value     string   `json:"value"`
	Changed   bool     `json:"changed"`
	Exception string   `json:"exception"`
	Ended     string   `json:"ended"`
}

func (a answer) String() string {
	if a.Exception != "" {
		return "exception " + a.Exception
	}
	v := a.Value
	if len(v) > 200 {
		v = v[:200] + "..."
	}
	return a.Type + " " + v + " " + a.Ended
}

// module is a wasm module running in a node process.
type module struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *strings.Builder
	has  map[string]bool
	last map[string]*lastCall
}

func startModule(name string) *module {
	m := &module{name: name, err: &strings.Builder{}, has: map[string]bool{}, last: map[string]*lastCall{}}
	m.cmd = exec.Command("/usr/bin/env", "node", os.Getenv("VERIF_WASM_DRIVER"), os.Getenv("VERIF_WASM_EXEC"), filepath.Join(os.Getenv("VERIF_WASM_DIR"), name+".wasm"))
	m.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	m.cmd.Stderr = m.err
	var err error
	m.in, err = m.cmd.StdinPipe()
	must(err)
	out, err := m.cmd.StdoutPipe()
	must(err)
	m.out = bufio.NewReaderSize(out, 1<<20)
	must(m.cmd.Start())
	a, ok := m.read()
	if !ok {
		panic(vt.InfraError("module " + name + " doesn't start: " + m.err.String()))
	}
	for _, n := range a.Names {
		m.has[n] = true
	}
	return m
}

func (m *module) read() (a answer, ok bool) {
	for {
		l, err := m.out.ReadString('\n')
		if err != nil {
			return a, false
		}
		if strings.HasPrefix(l, "{") {
			must(json.Unmarshal([]byte(l), &a))
			return a, true
		}
	}
}

func (m *module) close() {
	_ = m.in.Close()
	_ = m.cmd.Process.Kill()
	_ = m.cmd.Wait()
}

// call calls a function of the module, and calls it again sometimes: the answer is the same, whatever
// was called before. A module that ends or throws is a violation.
func (m *module) call(k *vt.K, fn string, args ...jsArg) (answer, bool) {
	a, ok := m.once(k, fn, args...)
	if !ok {
		return a, ok
	}
	var l *lastCall
	switch k.R.Intn(5) {
	case 0:
		l = &lastCall{fn, args, a}
	case 1: // an earlier one
		if l = m.last[fn]; l == nil {
			return a, ok
		}
	default:
		m.last[fn] = &lastCall{fn, args, a}
		return a, ok
	}
	b, ok := m.once(k, l.fn, l.args...)
	if !ok {
		return a, ok
	}
	k.Count("calls repeated")
	return a, k.Check(b.Type == l.a.Type && b.Value == l.a.Value, "another-answer", "%s.wasm: %s(%v) gives %v, called again %v", m.name, l.fn, l.args, l.a, b)
}

type lastCall struct {
	fn   string
	args []jsArg
	a    answer
}

func (m *module) once(k *vt.K, fn string, args ...jsArg) (answer, bool) {
	if args == nil {
		args = []jsArg{}
	}
	b, err := json.Marshal(map[string]interface{}{"fn": fn, "args": args})
	must(err)
	_, err = m.in.Write(append(b, '\n'))
	must(err)
	ch := make(chan bool, 1)
	var a answer
	go func() {
		var ok bool
		a, ok = m.read()
		ch <- ok
	}()
	select {
	case ok := <-ch:
		if !ok {
			k.Failf("module-dies", "%s.wasm dies in %s(%v): %s", m.name, fn, args, m.err.String())
			return a, false
		}
	case <-time.After(100 * time.Second):
		k.Failf("hang", "%s.wasm: %s(%v) doesn't return within 100 seconds", m.name, fn, args)
		return a, false
	}
	k.Count("calls of " + m.name + "." + fn)
	if a.Exception != "" || a.Ended != "" {
		k.Failf("module-fails", "%s.wasm: %s(%v): %v\n%s", m.name, fn, args, a, m.err.String())
		return a, false
	}
	if a.Changed {
		k.Failf("arguments-changed", "%s.wasm: %s(%v) changes its arguments", m.name, fn, args)
		return a, false
	}
	return a, true
}

// eon is a group of keypers with an eon key.
type eon struct {
	n, t    int
	kg      []*epochkg.EpochKG
	pub     *shcrypto.EonPublicKey
	keyperN int
}

func newEon(r *rand.Rand) *eon {
	e := &eon{n: 1 + r.Intn(5)}
	e.t = 1 + r.Intn(e.n)
	var polys []*shcrypto.Polynomial
	var gammas []*shcrypto.Gammas
	for i := 0; i < e.n; i++ {
		p, err := shcrypto.RandomPolynomial(r, shcrypto.DegreeFromThreshold(uint64(e.t)))
		must(err)
		polys, gammas = append(polys, p), append(gammas, p.Gammas())
	}
	e.pub = shcrypto.ComputeEonPublicKey(gammas)
	var shares []*shcrypto.EonPublicKeyShare
	for i := 0; i < e.n; i++ {
		shares = append(shares, shcrypto.ComputeEonPublicKeyShare(i, gammas))
	}
	for i := 0; i < e.n; i++ {
		evals := []*big.Int{}
		for _, p := range polys {
			evals = append(evals, p.EvalForKeyper(i))
		}
		e.kg = append(e.kg, epochkg.NewEpochKG(&puredkg.Result{Eon: 1, NumKeypers: uint64(e.n), Threshold: uint64(e.t), Keyper: uint64(i),
			SecretKeyShare: shcrypto.ComputeEonSecretKeyShare(evals), PublicKey: e.pub, PublicKeyShares: shares}))
	}
	return e
}

// key computes the epoch's key the way the keypers do.
func (e *eon) key(r *rand.Rand, epoch uint64) *shcrypto.EpochSecretKey {
	at := e.kg[r.Intn(e.n)]
	for _, i := range r.Perm(e.n)[:e.t] {
		err := at.HandleEpochSecretKeyShare(&epochkg.EpochSecretKeyShare{Eon: 1, Epoch: epoch, Sender: uint64(i), Share: e.kg[i].ComputeEpochSecretKeyShare(epoch)})
		must(err)
	}
	k := at.SecretKeys[epoch]
	if k == nil {
		panic(vt.InfraError("no epoch key"))
	}
	return k
}

func epochBytes(e uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, e)
	return b
}

func randMessage(r *rand.Rand) []byte {
	n := []int{0, 1, 31, 32, 33, 63, 64, 65, 256, 255, 257, 32 * 255, 32 * 256, 32 * 257}[r.Intn(14)]
	if r.Intn(2) == 0 {
		n = r.Intn(300)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(8) == 0 {
		for i := range b {
			b[i] = []byte{0, 0xff, 32}[n%3]
		}
	}
	return b
}

var okTypes = []string{"u8", "u8", "clamped", "view", "buffer"}

func good(r *rand.Rand, b []byte) jsArg { return jsArg{okTypes[r.Intn(len(okTypes))], hex.EncodeToString(b)} }

// native runs the keypers' own decryption; ok is false if it refuses.
func native(enc []byte, key []byte) (msg []byte, ok bool, panics string) {
	panics = vt.NoPanic(func() {
		m := new(shcrypto.EncryptedMessage)
		if m.Unmarshal(enc) != nil {
			return
		}
		k := new(shcrypto.EpochSecretKey)
		if k.Unmarshal(key) != nil {
			return
		}
		d, err := m.Decrypt(k)
		msg, ok = d, err == nil
	})
	return
}

type modules struct {
	both, enc, dec *module
}

func startAll() *modules { return &modules{startModule("both"), startModule("encrypt"), startModule("decrypt")} }

func (ms *modules) close() {
	ms.both.close()
	ms.enc.close()
	ms.dec.close()
}

func isError(a answer) bool { return a.Type == "string" && strings.HasPrefix(a.Value, "Error: ") }

func (ms *modules) checkDecrypt(k *vt.K, what string, enc, key []byte) bool {
	want, ok, panics := native(enc, key)
	if panics != "" {
		k.Count("inputs the library can't handle")
		return true
	}
	for _, m := range []*module{ms.both, ms.dec} {
		a, alive := m.call(k, "shcrypto_decrypt", good(k.R, enc), good(k.R, key))
		if !alive {
			return false
		}
		if ok && a.Type == "string" && a.Value == "0x"+hex.EncodeToString(want) || !ok && isError(a) {
			continue
		}
		k.Failf("decrypt", "%s.wasm: decrypting %s (%x) with %x gives %v, the keypers get %x (%v)", m.name, what, enc, key, a, want, ok)
		return false
	}
	k.Count("decryptions: " + what)
	if ok {
		k.Count("decryptions that succeed")
	} else {
		k.Count("decryptions refused")
	}
	return true
}

func wasmCase(ms *modules) func(k *vt.K) {
	return func(k *vt.K) {
		r := k.R
		e := newEon(r)
		epoch := []uint64{0, 1, 255, 256, 1 << 32, math.MaxUint64, 1 << 63, r.Uint64(), uint64(r.Intn(100000))}[r.Intn(9)]
		msg := randMessage(r)
		var sigma shcrypto.Block
		r.Read(sigma[:])
		if r.Intn(10) == 0 {
			sigma = shcrypto.Block{}
		}
		key := e.key(r, epoch)
		keyB, pubB := key.Marshal(), e.pub.Marshal()
		k.Tracef("epoch %d, message of %d bytes, %d of %d keypers", epoch, len(msg), e.t, e.n)
		want := shcrypto.Encrypt(append([]byte{}, msg...), e.pub, shcrypto.ComputeEpochID(epochBytes(epoch)), sigma).Marshal()
		var enc []byte
		for _, m := range []*module{ms.both, ms.enc} {
			a, ok := m.call(k, "shcrypto_encrypt", good(r, msg), good(r, pubB), good(r, epochBytes(epoch)), good(r, sigma[:]))
			if !ok {
				return
			}
			if !k.Check(a.Type == "string" && a.Value == "0x"+hex.EncodeToString(want), "encrypt", "%s.wasm encrypts %x for epoch %d to %v, expected %x", m.name, msg, epoch, a, want) {
				return
			}
			b, err := hex.DecodeString(a.Value[2:])
			must(err)
			enc = b
		}
		got, ok, _ := native(enc, keyB)
		if !k.Check(ok && string(got) == string(msg), "keypers-decrypt", "the keypers decrypt %x to %x (%v), not to the user's %x", enc, got, ok, msg) {
			return
		}
		if !ms.checkDecrypt(k, "good message", enc, keyB) {
			return
		}
		// another epoch's key, another eon's, changed messages
		other := epoch + 1 + uint64(r.Intn(3))
		otherKey := e.key(r, other).Marshal()
		if !ms.checkDecrypt(k, "with another key", enc, otherKey) {
			return
		}
		bad := append([]byte{}, enc...)
		bad[r.Intn(len(bad))] ^= 1 << uint(r.Intn(8))
		if !ms.checkDecrypt(k, "altered message", bad, keyB) {
			return
		}
		if !ms.checkDecrypt(k, "truncated message", enc[:r.Intn(len(enc))], keyB) {
			return
		}
		if !ms.checkDecrypt(k, "extended message", append(append([]byte{}, enc...), make([]byte, 1+r.Intn(40))...), keyB) {
			return
		}
		badKey := append([]byte{}, keyB...)
		badKey[r.Intn(len(badKey))] ^= 1 << uint(r.Intn(8))
		if !ms.checkDecrypt(k, "with an altered key", enc, badKey) {
			return
		}
		// verifying keys
		for _, v := range []struct {
			what string
			key  []byte
			pub  []byte
			ep   uint64
			want string
		}{
			{"right", keyB, pubB, epoch, "boolean true"},
			{"of another epoch", otherKey, pubB, epoch, "boolean false"},
			{"for another epoch", keyB, pubB, other, "boolean false"},
			{"of another eon", keyB, newEon(r).pub.Marshal(), epoch, "boolean false"},
			{"altered", badKey, pubB, epoch, "boolean false"},
		} {
			if v.what == "altered" && new(shcrypto.EpochSecretKey).Unmarshal(badKey) != nil {
				v.want = "error"
			}
			if v.what == "for another epoch" && r.Intn(2) == 0 {
				// the same bytes in another order
				if sw := binary.LittleEndian.Uint64(epochBytes(epoch)); sw != epoch {
					v.ep = sw
				}
			}
			a, alive := ms.both.call(k, "shcrypto_verifyDecryptionKey", good(r, v.key), good(r, v.pub), good(r, epochBytes(v.ep)))
			if !alive {
				return
			}
			if !k.Check(a.Type+" "+a.Value == v.want || v.want == "error" && isError(a), "verify", "verifyDecryptionKey with a key that is %s gives %v, expected %s (key %x, eon key %x, epoch %d)", v.what, a, v.want, v.key, v.pub, v.ep) {
				return
			}
			k.Count("verifications: " + v.what)
		}
		if !badArguments(k, ms, [][]byte{msg, pubB, epochBytes(epoch), sigma[:]}, [][]byte{enc, keyB}, [][]byte{keyB, pubB, epochBytes(epoch)}) {
			return
		}
		k.Eval(fmt.Sprintf("%x %d", msg, epoch), len(msg) > 0)
		if k.Idx%40 == 0 {
			k.Sample(map[string]interface{}{"epoch": epoch, "message_bytes": len(msg), "keypers": e.n, "threshold": e.t, "encrypted_bytes": len(enc)})
		}
	}
}

// badArguments: wrong numbers, types and lengths of arguments give an error and do no harm.
func badArguments(k *vt.K, ms *modules, enc, dec, ver [][]byte) bool {
	r := k.R
	for i := 0; i < 8; i++ {
		type target struct {
			m    *module
			fn   string
			args [][]byte
			free int // argument that may have any length
		}
		ts := []target{{ms.both, "shcrypto_encrypt", enc, 0}, {ms.enc, "shcrypto_encrypt", enc, 0}, {ms.both, "shcrypto_decrypt", dec, -1}, {ms.dec, "shcrypto_decrypt", dec, -1}, {ms.both, "shcrypto_verifyDecryptionKey", ver, -1}}
		t := ts[r.Intn(len(ts))]
		var args []jsArg
		for _, a := range t.args {
			args = append(args, good(r, a))
		}
		at := r.Intn(len(args))
		what := ""
		switch r.Intn(4) {
		case 0:
			args = args[:at]
			what = "too few arguments"
		case 1:
			args = append(args, good(r, []byte{1}))
			what = "too many arguments"
		case 2:
			args[at].T = []string{"array", "arraybuffer", "u16", "string", "number", "null", "undefined", "object", "function", "bool"}[r.Intn(10)]
			what = "an argument of type " + args[at].T
		case 3:
			if at == t.free || t.fn == "shcrypto_decrypt" && at == 0 {
				at = 1
			}
			b := append([]byte{}, t.args[at]...)
			if n := r.Intn(4); n == 0 {
				b = nil
			} else if n == 1 && len(t.args[at]) == 8 || n == 2 && len(t.args[at]) == 32 {
				b = append(b, 0)
			} else {
				b = b[:r.Intn(len(b))]
			}
			args[at] = good(r, b)
			what = "an argument of wrong length"
		}
		a, alive := t.m.call(k, t.fn, args...)
		if !alive {
			return false
		}
		if !k.Check(isError(a), "bad-arguments", "%s.wasm: %s with %s gives %v instead of an error: %v", t.m.name, t.fn, what, a, args) {
			return false
		}
		k.Count("bad arguments refused")
		k.Seen("bad arguments", what)
	}
	return true
}

func checkC32(c *vt.C) {
	if os.Getenv("VERIF_WASM_DIR") == "" {
		panic(vt.InfraError("the modules aren't there"))
	}
	// a set of modules per worker, used for many cases
	pool := make(chan *modules, 5)
	var all []*modules
	var wg sync.WaitGroup
	var mux sync.Mutex
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					c.Infra("%v", r)
				}
			}()
			ms := startAll()
			mux.Lock()
			all = append(all, ms)
			mux.Unlock()
			pool <- ms
		}()
	}
	wg.Wait()
	if len(all) == 0 {
		return
	}
	defer func() {
		for _, ms := range all {
			ms.close()
		}
	}()
	for _, want := range []struct {
		m   *module
		fns []string
	}{{all[0].both, []string{"shcrypto_encrypt", "shcrypto_decrypt", "shcrypto_verifyDecryptionKey"}}, {all[0].enc, []string{"shcrypto_encrypt"}}, {all[0].dec, []string{"shcrypto_decrypt"}}} {
		for _, f := range want.fns {
			if !want.m.has[f] {
				c.Failf("missing-function", "%s.wasm doesn't provide %s", want.m.name, f)
				return
			}
		}
	}
	c.Cases("wasm", c.N(150, 6000), len(all), func(k *vt.K) {
		ms := <-pool
		defer func() { pool <- ms }()
		if ms.both.cmd.ProcessState != nil {
			return
		}
		wasmCase(ms)(k)
		if k.Failed() { // the modules may be unusable
			ms.close()
			*ms = *startAll()
		}
	})
	c.Require("bad arguments refused", 100)
	c.Require("decryptions refused", 50)
	c.Require("decryptions that succeed", 50)
}

func main() {
	vt.Main([]vt.Check{
		{ID: "C32", Level: "exploration", CaseLimit: 600 * time.Second, MinEvals: 60, Run: checkC32, Assumptions: []string{"the modules are compiled with Go instead of TinyGo", "the library behind them is the one shuttermint's go.mod names"},
			Rule: "one case = one eon key, epoch and message: encrypted, decrypted and verified by the modules and the keypers' code, with altered, truncated and foreign messages and keys and bad arguments; non-trivial if the message isn't empty; distinct by message and epoch"},
	})
}
