package base

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/crypto"
	"github.com/axgrid/axutils/zip"
	"pgregory.net/rapid"
)

func keyBytes(n int, seed uint32) []byte { return fw.Blob{Len: n, Kind: "rand", Seed: seed}.Bytes() }

func stdGCM(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

// ---------------------------------------------------------------------------
// C15 AES fidelity

type aesCase struct {
	KeyLen  int       `json:"kl"`
	KeySeed uint32    `json:"ks"`
	Msgs    []fw.Blob `json:"msgs"`
	Par     int       `json:"par,omitempty"`
	BadKey  int       `json:"bad"`
}

func genAES(t *rapid.T) aesCase {
	c := aesCase{
		KeyLen:  rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "keylen"),
		KeySeed: uint32(rapid.IntRange(0, 1000).Draw(t, "key")),
		BadKey:  rapid.SampledFrom([]int{0, 1, 8, 15, 17, 23, 25, 31, 33, 64}).Draw(t, "badkey"),
	}
	for range rapid.IntRange(1, 6).Draw(t, "nmsgs") {
		c.Msgs = append(c.Msgs, fw.DrawBlob(t, "msg", 1<<20))
	}
	return c
}

func genAESPar(t *rapid.T) aesCase {
	c := genAES(t)
	c.Par = rapid.IntRange(2, 4).Draw(t, "par")
	for i := range c.Msgs {
		c.Msgs[i].Len %= 5000
	}
	return c
}

var seenNonces = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

func runAES(e *fw.Env, c aesCase) {
	key := keyBytes(c.KeyLen, c.KeySeed)
	std := stdGCM(key)
	a := crypto.NewAES(append([]byte{}, key...))
	type held struct{ ct, ctCopy, pt, msg []byte }
	var all []held
	var mu sync.Mutex
	noteNonce := func(n []byte) {
		seenNonces.Lock()
		defer seenNonces.Unlock()
		if seenNonces.m[string(n)] {
			e.Report("the nonce %x was used before", n)
		}
		seenNonces.m[string(n)] = true
	}
	one := func(bl fw.Blob) {
		msg := bl.Bytes()
		in := append([]byte{}, msg...)
		ct, err := a.Encrypt(in)
		if err != nil {
			e.Report("encrypting %d bytes with a %d-byte key: %v", len(msg), c.KeyLen, err)
			return
		}
		if !bytes.Equal(in, msg) {
			e.Report("Encrypt changed its input")
		}
		if len(ct) != len(msg)+28 {
			e.Report("%d bytes encrypt to %d bytes, want %d (12-byte nonce, 16-byte tag)", len(msg), len(ct), len(msg)+28)
			return
		}
		noteNonce(ct[:12])
		if p, err := std.Open(nil, ct[:12], ct[12:], nil); err != nil || !bytes.Equal(p, msg) {
			e.Report("standard AES-GCM does not read the ciphertext of %d bytes: %v", len(msg), err)
		}
		cc := append([]byte{}, ct...)
		pt, err := a.Decrypt(ct)
		if err != nil || !bytes.Equal(pt, msg) {
			e.Report("round trip of %d bytes fails: %v", len(msg), err)
		}
		if !bytes.Equal(ct, cc) {
			e.Report("Decrypt changed its input")
		}
		// another instance with the same key reads it; and what the standard library wrote
		if p, err := crypto.NewAES(append([]byte{}, key...)).Decrypt(ct); err != nil || !bytes.Equal(p, msg) {
			e.Report("a second instance with the same key cannot read %d bytes: %v", len(msg), err)
		}
		nonce := keyBytes(12, bl.Seed+5)
		sct := std.Seal(append([]byte{}, nonce...), nonce, msg, nil)
		if p, err := a.Decrypt(sct); err != nil || !bytes.Equal(p, msg) {
			e.Report("cannot read %d bytes sealed by standard AES-GCM: %v", len(msg), err)
		}
		mu.Lock()
		all = append(all, held{ct, cc, pt, msg})
		mu.Unlock()
		e.Label(fw.SizeLabel(len(msg)))
		e.NonTrivial(len(msg) > 0)
	}
	if c.Par > 1 {
		var wg sync.WaitGroup
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range c.Msgs {
					one(c.Msgs[(i+g)%len(c.Msgs)])
				}
			}()
		}
		wg.Wait()
	} else {
		e.Bubble(func() { // the clock stands still: nonces do not come from it
			for _, m := range c.Msgs {
				one(m)
			}
		})
	}
	for _, h := range all {
		if !bytes.Equal(h.ct, h.ctCopy) || !bytes.Equal(h.pt, h.msg) {
			e.Fail("an earlier result was overwritten by a later call")
		}
	}
	bad := crypto.NewAES(keyBytes(c.BadKey, c.KeySeed))
	if ct, err := bad.Encrypt([]byte("x")); err == nil {
		e.Fail("a %d-byte key encrypts (%d bytes) instead of failing", c.BadKey, len(ct))
	}
	if _, err := bad.Decrypt(make([]byte, 40)); err == nil {
		e.Fail("a %d-byte key decrypts instead of failing", c.BadKey)
	}
}

// nonces: no byte position of the nonce is constant over a batch, and the same
// message never encrypts twice to the same bytes.
type nonceCase struct {
	KeyLen int    `json:"kl"`
	Seed   uint32 `json:"s"`
	N      int    `json:"n"`
	Inst   int    `json:"inst"`
}

func runNonce(e *fw.Env, c nonceCase) {
	e.Bubble(func() {
		key := keyBytes(c.KeyLen, c.Seed)
		var inst []*crypto.AES
		for i := 0; i < c.Inst; i++ {
			inst = append(inst, crypto.NewAES(append([]byte{}, key...)))
		}
		seen := map[string]bool{}
		var first []byte
		var varies [12]bool
		for i := 0; i < c.N; i++ {
			ct, err := inst[i%c.Inst].Encrypt([]byte("same message"))
			if err != nil || len(ct) < 12 {
				e.Fail("encrypt: %v", err)
			}
			n := ct[:12]
			if seen[string(n)] {
				e.Fail("nonce %x repeats within %d encryptions", n, i+1)
			}
			seen[string(n)] = true
			if first == nil {
				first = append([]byte{}, n...)
			}
			for j := range n {
				if n[j] != first[j] {
					varies[j] = true
				}
			}
		}
		e.NonTrivial(c.N >= 40)
		if c.N >= 40 {
			for j, v := range varies {
				if !v {
					e.Fail("byte %d of the nonce is always %#x over %d encryptions", j, first[j], c.N)
				}
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C16 AES integrity

type tamperCase struct {
	KeyLen int     `json:"kl"`
	Key    uint32  `json:"ks"`
	Msg    fw.Blob `json:"msg"`
	Op     string  `json:"op"`
	Pos    int     `json:"pos"` // per 10000 of the length
	Bit    int     `json:"bit"`
	Junk   fw.Blob `json:"junk"`
}

func genTamper(t *rapid.T) tamperCase {
	return tamperCase{
		KeyLen: rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "keylen"),
		Key:    uint32(rapid.IntRange(0, 1000).Draw(t, "key")),
		Msg:    fw.DrawBlob(t, "msg", 70000),
		Op:     rapid.SampledFrom([]string{"flip", "truncate", "short", "extend", "cutfront", "wrongkey", "wronglen", "swap", "junk", "zerotag", "splice"}).Draw(t, "op"),
		Pos:    rapid.IntRange(0, 9999).Draw(t, "pos"),
		Bit:    rapid.IntRange(0, 7).Draw(t, "bit"),
		Junk:   fw.DrawBlob(t, "junk", 300),
	}
}

func runTamper(e *fw.Env, c tamperCase) {
	key := keyBytes(c.KeyLen, c.Key)
	a := crypto.NewAES(key)
	msg := c.Msg.Bytes()
	ct, err := a.Encrypt(msg)
	if err != nil {
		e.Fail("encrypt: %v", err)
	}
	orig := append([]byte{}, ct...)
	at := c.Pos * len(ct) / 10000
	dec := a
	switch c.Op {
	case "flip":
		ct[at] ^= 1 << c.Bit
	case "truncate":
		ct = ct[:at]
	case "short":
		ct = ct[:min(c.Pos%30, len(ct)-1)]
	case "extend":
		if c.Junk.Len == 0 {
			c.Junk.Len = 1
		}
		ct = append(ct, c.Junk.Bytes()...)
	case "cutfront":
		ct = ct[min(1+at, len(ct)):]
	case "wrongkey":
		k := append([]byte{}, key...)
		k[c.Pos%len(k)] ^= 1 << c.Bit
		dec = crypto.NewAES(k)
	case "wronglen":
		n := []int{16, 24, 32}[(c.Pos+1)%3]
		if n == c.KeyLen {
			n = map[int]int{16: 24, 24: 32, 32: 16}[n]
		}
		k := make([]byte, n)
		copy(k, key)
		dec = crypto.NewAES(k)
	case "swap":
		j := (at + 1 + c.Bit) % len(ct)
		ct[at], ct[j] = ct[j], ct[at]
	case "junk":
		ct = c.Junk.Bytes()
	case "zerotag":
		for i := len(ct) - 16; i < len(ct); i++ {
			ct[i] = 0
		}
	case "splice":
		// the nonce of one message and the body of another
		ct2, err := a.Encrypt(msg)
		if err != nil {
			e.Fail("encrypt: %v", err)
		}
		ct = append(append([]byte{}, ct2[:12]...), ct[12:]...)
	}
	if dec == a && bytes.Equal(ct, orig) {
		return
	}
	e.NonTrivial(true)
	e.Label(c.Op)
	e.LabelIf(len(ct) < 28, "shorter than nonce and tag")
	tampered := append([]byte{}, ct...)
	var pt []byte
	if p := fw.Call(func() { pt, err = dec.Decrypt(ct) }); p != nil {
		e.Fail("Decrypt of %d bytes (%s) panics: %v", len(ct), c.Op, p)
	}
	if err == nil {
		e.Fail("Decrypt accepts a ciphertext changed by %q (%d bytes) and returns %d bytes", c.Op, len(ct), len(pt))
	}
	if len(pt) != 0 {
		e.Fail("Decrypt of a ciphertext changed by %q returns %d bytes beside the error", c.Op, len(pt))
	}
	// the rejected bytes are as they were: with the change undone they open
	if !bytes.Equal(ct, tampered) {
		e.Fail("Decrypt changed the bytes it rejected (%q)", c.Op)
	}
	// the untouched ciphertext still opens
	if p, err := a.Decrypt(orig); err != nil || !bytes.Equal(p, msg) {
		e.Fail("the untouched ciphertext does not open after a failed attempt: %v", err)
	}
}

// ---------------------------------------------------------------------------
// C17 MD5

type md5Case struct {
	Texts []fw.Blob `json:"t"`
}

func runMD5(e *fw.Env, c md5Case) {
	var held [][]byte
	for _, b := range c.Texts {
		s := string(b.Bytes())
		e.NonTrivial(len(s) > 0)
		e.Label(fw.SizeLabel(len(s)))
		w := md5.Sum([]byte(s))
		if g := crypto.GetMD5Hash(s); g != hex.EncodeToString(w[:]) {
			e.Fail("GetMD5Hash of %d bytes is %q, want %x", len(s), g, w)
		}
		g := crypto.GetMD5HashBytes(s)
		if !bytes.Equal(g, w[:]) {
			e.Fail("GetMD5HashBytes of %d bytes is %x, want %x", len(s), g, w)
		}
		held = append(held, g)
	}
	for i, b := range c.Texts {
		w := md5.Sum(b.Bytes())
		if !bytes.Equal(held[i], w[:]) {
			e.Fail("the digest bytes returned by an earlier call changed")
		}
	}
}

// ---------------------------------------------------------------------------
// C18 gzip fidelity

type zipCase struct {
	Data  []fw.Blob `json:"d"`
	Level int       `json:"lvl"`
	Name  string    `json:"name"`
	Extra int       `json:"extra"`
	Flush bool      `json:"flush"`
	Par   int       `json:"par,omitempty"`
}

func genZip(t *rapid.T) zipCase {
	c := zipCase{
		Level: rapid.IntRange(flate.HuffmanOnly, flate.BestCompression).Draw(t, "level"),
		Name:  rapid.SampledFrom([]string{"", "a.txt", "file with spaces"}).Draw(t, "name"),
		Extra: rapid.IntRange(0, 40).Draw(t, "extra"),
		Flush: rapid.Bool().Draw(t, "flush"),
	}
	for range rapid.IntRange(1, 4).Draw(t, "n") {
		c.Data = append(c.Data, fw.DrawBlob(t, "data", 1<<20))
	}
	return c
}

// genZipBig: tens of megabytes.
func genZipBig(t *rapid.T) zipCase {
	c := zipCase{Level: rapid.SampledFrom([]int{flate.BestSpeed, flate.HuffmanOnly}).Draw(t, "level")}
	c.Data = []fw.Blob{{Len: rapid.SampledFrom([]int{1<<22 + 1, 9 << 20, 17 << 20, 33 << 20, 70 << 20}).Draw(t, "len") + rapid.IntRange(0, 3).Draw(t, "more"),
		Kind: rapid.SampledFrom([]string{"zero", "runs", "ff"}).Draw(t, "kind"), Seed: 7}}
	return c
}

func genZipPar(t *rapid.T) zipCase {
	c := genZip(t)
	c.Par = rapid.IntRange(2, 4).Draw(t, "par")
	for i := range c.Data {
		c.Data[i].Len %= 3000
	}
	return c
}

func runZip(e *fw.Env, c zipCase) {
	type held struct{ z, zc, u, data []byte }
	var all []held
	var mu sync.Mutex
	one := func(b fw.Blob) {
		data := b.Bytes()
		in := append([]byte{}, data...)
		z, err := zip.GZipData(in)
		if err != nil {
			e.Report("GZipData of %d bytes: %v", len(data), err)
			return
		}
		zc := append([]byte{}, z...)
		u, err := zip.GUnzipData(z)
		if err != nil || !bytes.Equal(u, data) {
			e.Report("round trip of %d bytes gives %d bytes, %v", len(data), len(u), err)
			return
		}
		if !bytes.Equal(in, data) || !bytes.Equal(z, zc) {
			e.Report("an argument was modified")
		}
		// a standard reader accepts it as exactly one complete gzip member
		br := bytes.NewReader(z)
		r, err := gzip.NewReader(br)
		if err != nil {
			e.Report("not a gzip stream: %v", err)
			return
		}
		r.Multistream(false)
		got, err := io.ReadAll(r)
		if err != nil || !bytes.Equal(got, data) || br.Len() != 0 {
			e.Report("a standard reader gets %d of %d bytes, %v, %d bytes left over", len(got), len(data), err, br.Len())
		}
		mu.Lock()
		all = append(all, held{z, zc, u, data})
		mu.Unlock()
		e.NonTrivial(len(data) > 0)
		e.Label(fw.SizeLabel(len(data)))
	}
	if c.Par > 1 {
		var wg sync.WaitGroup
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range c.Data {
					one(c.Data[(i+g)%len(c.Data)])
				}
			}()
		}
		wg.Wait()
	} else {
		for _, b := range c.Data {
			one(b)
		}
	}
	for _, h := range all {
		if !bytes.Equal(h.z, h.zc) || !bytes.Equal(h.u, h.data) {
			e.Fail("a result returned earlier was overwritten by a later call")
		}
	}
	if e.Failed() || c.Par > 1 {
		return
	}
	// what any standard writer produced can be read, also several members in a row
	var stream, want []byte
	for i, b := range c.Data {
		var buf bytes.Buffer
		w, err := gzip.NewWriterLevel(&buf, c.Level)
		if err != nil {
			panic(err)
		}
		w.Name, w.Comment = c.Name, c.Name
		if c.Extra > 0 {
			w.Extra = make([]byte, c.Extra)
		}
		w.ModTime = time.Unix(int64(i)*1000, 0)
		d := b.Bytes()
		w.Write(d[:len(d)/2])
		if c.Flush {
			w.Flush()
		}
		w.Write(d[len(d)/2:])
		w.Close()
		if i == 0 {
			u, err := zip.GUnzipData(buf.Bytes())
			if err != nil || !bytes.Equal(u, d) {
				e.Fail("cannot read %d bytes from a standard writer (level %d, extra %d): %v", len(d), c.Level, c.Extra, err)
			}
		}
		stream = append(stream, buf.Bytes()...)
		want = append(want, d...)
	}
	if u, err := zip.GUnzipData(stream); err != nil || !bytes.Equal(u, want) {
		e.Fail("a stream of %d gzip members with %d bytes unpacks to %d bytes, %v", len(c.Data), len(want), len(u), err)
	}
}

// ---------------------------------------------------------------------------
// C19 gzip corruption

type zipBadCase struct {
	Data fw.Blob `json:"d"`
	Op   string  `json:"op"`
	Pos  int     `json:"pos"`
	Bit  int     `json:"bit"`
	Junk fw.Blob `json:"junk"`
}

func genZipBad(t *rapid.T) zipBadCase {
	return zipBadCase{
		Data: fw.DrawBlob(t, "data", 70000),
		Op:   rapid.SampledFrom([]string{"flip", "truncate", "cuttail", "junk", "crc", "size", "magicjunk", "set", "append"}).Draw(t, "op"),
		Pos:  rapid.IntRange(0, 9999).Draw(t, "pos"),
		Bit:  rapid.IntRange(0, 7).Draw(t, "bit"),
		Junk: fw.DrawBlob(t, "junk", 400),
	}
}

func runZipBad(e *fw.Env, c zipBadCase) {
	data := c.Data.Bytes()
	z, err := zip.GZipData(append([]byte{}, data...))
	if err != nil {
		e.Fail("GZipData: %v", err)
	}
	orig := append([]byte{}, z...)
	if len(z) < 18 {
		e.Fail("a gzip stream of %d bytes has no room for header and trailer", len(z))
	}
	at := c.Pos * len(z) / 10000
	mustFail := false
	anyData := false
	switch c.Op {
	case "flip":
		z[at] ^= 1 << c.Bit
	case "set":
		z[at] = byte(c.Junk.Seed)
	case "truncate":
		z = z[:at]
		mustFail = true
	case "cuttail":
		z = z[:len(z)-1-c.Pos%min(18, len(z))]
		mustFail = true
	case "crc":
		z[len(z)-8+c.Pos%4] ^= 1 << c.Bit
		mustFail = true
	case "size":
		z[len(z)-4+c.Pos%4] ^= 1 << c.Bit
		mustFail = true
	case "junk":
		z = c.Junk.Bytes()
		anyData = true
	case "magicjunk":
		z = append([]byte{0x1f, 0x8b, 8, byte(c.Bit)}, c.Junk.Bytes()...)
		anyData = true
	case "append":
		if c.Junk.Len == 0 {
			c.Junk.Len = 1
		}
		j := c.Junk.Bytes()
		j[0] = 7
		z = append(z, j...)
	}
	if bytes.Equal(z, orig) {
		return
	}
	e.NonTrivial(true)
	e.Label(c.Op)
	var u []byte
	if p := fw.Call(func() { u, err = zip.GUnzipData(z) }); p != nil {
		e.Fail("GUnzipData panics on %s: %v", c.Op, p)
	}
	if err != nil {
		e.Label("error")
		return
	}
	if mustFail {
		e.Fail("GUnzipData accepts a stream damaged by %q (%d of %d bytes, position %d)", c.Op, len(z), len(orig), at)
	}
	if anyData {
		// arbitrary bytes: only a stream a standard reader accepts may pass
		r, err := gzip.NewReader(bytes.NewReader(z))
		if err == nil {
			var w []byte
			if w, err = io.ReadAll(r); err == nil && bytes.Equal(w, u) {
				return
			}
		}
		e.Fail("GUnzipData accepts %d bytes that are no gzip stream", len(z))
	}
	e.Label("damage without effect")
	if !bytes.Equal(u, data) {
		e.Fail("GUnzipData returns other data from a stream damaged by %q at %d", c.Op, at)
	}
}

func init() {
	fw.Add("C15", "roundtrip", "a message that is not empty", genAES, runAES, []fw.Run{fw.Plain(24000)})
	fw.Add("C15", "nonces", "at least 40 encryptions of one message", func(t *rapid.T) nonceCase {
		return nonceCase{rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "kl"), uint32(rapid.IntRange(0, 99).Draw(t, "seed")), rapid.IntRange(2, 400).Draw(t, "n"), rapid.IntRange(1, 5).Draw(t, "inst")}
	}, runNonce, []fw.Run{fw.Plain(1500)})
	fw.Add("C15", "parallel", "a message that is not empty, from several goroutines", genAESPar, runAES, []fw.Run{fw.Race(600)})
	fw.Add("C16", "tamper", "the ciphertext or the key differs from the original", genTamper, runTamper, []fw.Run{fw.Plain(80000)})
	fw.AddParallel("C16", "the ciphertext or the key differs from the original", genTamper, runTamper, []fw.Run{fw.Plain(2000), fw.Race(300)})
	genMD5 := func(max int) func(t *rapid.T) md5Case {
		return func(t *rapid.T) md5Case {
			var c md5Case
			for range rapid.IntRange(1, 4).Draw(t, "n") {
				c.Texts = append(c.Texts, fw.DrawBlob(t, "text", max))
			}
			return c
		}
	}
	fw.Add("C17", "digest", "a text that is not empty", genMD5(1<<20), runMD5, []fw.Run{fw.Plain(40000)})
	fw.AddParallel("C17", "a text that is not empty", genMD5(5000), runMD5, []fw.Run{fw.Plain(4000), fw.Race(500)})
	fw.Add("C18", "roundtrip", "data that is not empty", genZip, runZip, []fw.Run{fw.Plain(4000)})
	fw.Add("C18", "big", "data that is not empty", genZipBig, runZip, []fw.Run{fw.Plain(8)})
	fw.Add("C18", "parallel", "data that is not empty, from several goroutines", genZipPar, runZip, []fw.Run{fw.Race(200)})
	fw.Add("C19", "damage", "the stream differs from the original", genZipBad, runZipBad, []fw.Run{fw.Plain(24000)})
	fw.AddParallel("C19", "the stream differs from the original", genZipBad, runZipBad, []fw.Run{fw.Plain(1000), fw.Race(150)})
	_ = fmt.Sprint
	_ = rand.Int
}
