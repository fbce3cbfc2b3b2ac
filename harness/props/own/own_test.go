package own

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"axverif/fw"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/comparer"
	"github.com/axgrid/axutils/crypto"
	"github.com/axgrid/axutils/crypto_fs"
	"github.com/axgrid/axutils/flow"
	axnet "github.com/axgrid/axutils/net"
	"github.com/axgrid/axutils/zip"
	"pgregory.net/rapid"
)

// C59: what a call returns, and what it is given, belongs to the caller. The same
// operations are run five times: with a caller that leaves all slices and maps
// alone, with one that overwrites them and appends to them as soon as it has read
// them, with one that overwrites them with elements of their own, with one that keeps them to the end, and with one that
// does the one and the other. All must observe the same, and
// what is kept must not change.

type ownOp struct {
	Op int `json:"op"`
	K  int `json:"k,omitempty"`
	N  int `json:"n,omitempty"`
	V  int `json:"v,omitempty"`
}
type ownCase struct {
	Kind string  `json:"kind"`
	Size int     `json:"size"`
	Fn   bool    `json:"fn,omitempty"`
	Ops  []ownOp `json:"ops"`
}

var kinds = []string{"set", "hashset", "twokey", "guava", "request", "chunk", "shard", "shardchunk", "processor", "archive", "codec", "codec", "compare", "crypto", "zip"}

func genOwn(kinds []string) func(*rapid.T) ownCase {
	return func(t *rapid.T) ownCase {
		c := ownCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Size: rapid.IntRange(1, 6).Draw(t, "size"), Fn: rapid.Bool().Draw(t, "fn")}
		c.Ops = fw.Ops(t, "ops", 1, 40, rapid.Custom(func(t *rapid.T) ownOp {
			return ownOp{
				Op: rapid.IntRange(0, 11).Draw(t, "op"), K: rapid.IntRange(0, 5).Draw(t, "k"),
				N: rapid.SampledFrom([]int{0, 1, 2, 3, 7, 8, 9, 16, 40}).Draw(t, "n"), V: rapid.IntRange(0, 255).Draw(t, "v"),
			}
		}))
		return c
	}
}

const (
	plain = iota
	scribble
	muddle
	keep
	mixed // keeps one, overwrites the next
)

var modes = []string{"that leaves all it hands in and gets alone", "that overwrites what it got, and what it handed in after the call,", "that overwrites all with one element of what it got or handed in", "that keeps what it got", "that keeps one and overwrites the next"}

// run is one run of the operations.
type run struct {
	e    *fw.Env
	mode int
	log  []string
	kept []func()
	outs int
	ins  int
	turn int
}

// act is what the caller does with the next slice or map.
func (r *run) act() int {
	if r.mode != mixed {
		return r.mode
	}
	r.turn++
	return []int{keep, scribble}[r.turn%2]
}

func (r *run) note(format string, a ...any) { r.log = append(r.log, fmt.Sprintf(format, a...)) }

// out is called with a slice that was returned, and has been read.
func out[T any](r *run, what string, s []T, junk T) {
	if len(s) > 0 {
		r.outs++
	}
	switch r.act() {
	case scribble:
		s = s[:cap(s)]
		for i := range s {
			s[i] = junk
		}
	case muddle: // all the same, and nothing that was not there
		for i := range s {
			s[i] = s[0]
		}
	case keep:
		was := fmt.Sprintf("%v", s)
		n := len(r.log)
		r.kept = append(r.kept, func() {
			if now := fmt.Sprintf("%v", s); now != was {
				r.e.Fail("what %s returned (observation %d) was %s then and is %s now", what, n, was, now)
			}
		})
		// the room behind it is the caller's as well
		_ = append(s, junk)
	}
}

// in calls f with s, which has room behind it, and checks that f writes to neither.
func in[T any](r *run, what string, s []T, junk T, f func([]T)) {
	if len(s) > 0 {
		r.ins++
	}
	room := append(slices.Clone(s), junk, junk, junk, junk, junk, junk, junk, junk)
	was := fmt.Sprintf("%v", room)
	f(room[:len(s)])
	if now := fmt.Sprintf("%v", room); now != was {
		r.e.Fail("%s wrote to the slice it was given, or behind it: %s before, %s after", what, was, now)
	}
	switch r.mode { // the mixed caller leaves alone what it handed in: results may point into it
	case scribble:
		for i := range room {
			room[i] = junk
		}
	case muddle:
		for i := range room {
			room[i] = room[0]
		}
	}
}

func sorted[T int | string](s []T) []T {
	s = slices.Clone(s)
	slices.Sort(s)
	return s
}

func numbers(o ownOp) []int {
	var s []int
	for i := range min(o.N, 9) {
		s = append(s, (o.K+i*o.V)%11)
	}
	return s
}

func data(o ownOp) []byte {
	s := make([]byte, 0, o.N)
	for i := range o.N {
		s = append(s, byte(o.V+i*(o.K+1)))
	}
	return s
}

// what builds the object of the case; it returns its operations and its end.
func (r *run) object(c ownCase, ctx context.Context, dir string) (do func(o ownOp), end func()) {
	end = func() {}
	const junk = -999
	switch c.Kind {
	case "set":
		var s *collections.Set[int]
		in(r, "NewSet", []int{1, 2, 3}[:c.Size%4], junk, func(x []int) { s = collections.NewSet(x...) })
		do = func(o ownOp) {
			x := numbers(o)
			switch o.Op {
			case 0, 1:
				in(r, "AddAll", x, junk, func(x []int) { s.AddAll(x...) })
			case 2:
				in(r, "HasAll", x, junk, func(x []int) { r.note("HasAll %v: %v", x, s.HasAll(x...)) })
			case 3:
				in(r, "HasAny", x, junk, func(x []int) { r.note("HasAny %v: %v", x, s.HasAny(x...)) })
			case 4, 5, 6:
				l := s.Values()
				if o.Op == 6 {
					l = s.All()
				}
				r.note("values %v, %d", sorted(l), s.Size())
				out(r, "Set.Values", l, junk)
			case 7:
				s.Remove(o.K)
			case 8: // a clone is the caller's
				d := s.Clone()
				r.note("clone %v, equal: %v", sorted(d.Values()), d.Equals(s))
				if act := r.act(); act == scribble || act == muddle {
					d.Add(junk)
					for _, v := range d.Values() {
						d.Remove(v)
					}
				}
			case 9:
				if o.V < 60 {
					s.Clear()
				}
			default:
				s.Add(o.K)
			}
		}
	case "hashset":
		b := collections.NewHashSet[int]()
		if c.Fn {
			b = b.WithMaxCount(c.Size)
		}
		s := b.Build()
		do = func(o ownOp) {
			switch o.Op {
			case 0, 1, 2:
				s.Add(o.V % 9)
			case 3:
				r.note("HasOrCreate %d: %v", o.V%9, s.HasOrCreate(o.V%9))
			case 4:
				s.Delete(o.V % 9)
			case 5:
				if o.V < 60 {
					s.Clear()
				}
			case 6:
				r.note("Has %d: %v", o.V%9, s.Has(o.V%9))
			default:
				l := s.Keys()
				r.note("keys %v, %d", sorted(l), s.Count())
				out(r, "HashSet.Keys", l, junk)
			}
		}
	case "twokey":
		m := collections.NewTwoKeyMap[int, string, int]()
		do = func(o ownOp) {
			switch o.Op {
			case 0, 1, 2:
				m.Put(o.K, fmt.Sprint(o.N%5), o.V)
			case 3:
				m.Remove(o.K)
			case 4:
				m.RemoveByK2(fmt.Sprint(o.N % 5))
			case 5:
				v, ok := m.Get(o.K)
				r.note("Get %d: %d %v", o.K, v, ok)
			case 6:
				v, ok := m.GetByK2(fmt.Sprint(o.N % 5))
				r.note("GetByK2 %d: %d %v", o.N%5, v, ok)
			case 7, 8, 9:
				l := m.Keys()
				r.note("keys %v, %d", sorted(l), m.Len())
				out(r, "TwoKeyMap.Keys", l, junk)
			default:
				l := m.KeysK2()
				r.note("second keys %v", sorted(l))
				out(r, "TwoKeyMap.KeysK2", l, "junk")
			}
		}
	case "guava":
		b := collections.NewGuavaMap[int, int]().WithContext(ctx)
		if c.Fn {
			b = b.WithMaxCount(c.Size)
		}
		if c.Size > 3 {
			b = b.WithReadTimeout(time.Hour)
		}
		m := b.Build()
		do = func(o ownOp) {
			switch o.Op {
			case 0, 1, 2:
				m.Set(o.K, o.V)
			case 3:
				r.note("HasOrCreate %d: %v", o.K, m.HasOrCreate(o.K, o.V))
			case 4:
				m.Delete(o.K)
			case 5:
				if o.V < 60 {
					m.Clear()
				}
			case 6:
				v, err := m.Get(o.K)
				r.note("Get %d: %d %v", o.K, v, err)
			case 7:
				r.note("Has %d: %v, %d", o.K, m.Has(o.K), m.Size())
			default:
				x := m.GetStored()
				was := fmt.Sprint(x)
				r.note("stored %s", was)
				if len(x) > 0 {
					r.outs++
				}
				switch r.act() {
				case scribble:
					clear(x)
					x[junk] = junk
				case muddle:
					for k := range x {
						x[k] = o.V
					}
				case keep:
					r.kept = append(r.kept, func() {
						if now := fmt.Sprint(x); now != was {
							r.e.Fail("what GetStored returned was %s then and is %s now", was, now)
						}
					})
				}
			}
		}
	case "request":
		var m *collections.RequestMap[int, string]
		var init []*collections.RequestMapInitializer[int, string]
		for k := range c.Size {
			x := &collections.RequestMapInitializer[int, string]{Key: k, Result: fmt.Sprint("initial ", k)}
			if k%2 == 1 {
				x.Err = fmt.Errorf("initial error %d", k)
			}
			init = append(init, x)
		}
		other := &collections.RequestMapInitializer[int, string]{Key: 99, Result: "junk"}
		in(r, "NewRequestMap", init, other, func(x []*collections.RequestMapInitializer[int, string]) {
			m = collections.NewRequestMap(ctx, time.Hour, x...)
		})
		if r.mode != plain {
			for _, x := range init {
				*x = *other
			}
		}
		do = func(o ownOp) {
			if o.Op < 2 {
				r.note("Count: %d", m.Count())
				return
			}
			v, err := m.GetOrCreateWithErr(o.K, func(k int) (string, error) { return fmt.Sprint("result ", k, o.V), nil })
			r.note("request of %d: %q %v", o.K, v, err)
		}
	case "chunk", "shardchunk":
		chunk := func(what string, l []int) {
			r.note("%s %v", what, l)
			out(r, "a chunk channel", l, junk)
		}
		var add func(int)
		var poll func()
		if c.Kind == "chunk" {
			b := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(c.Size).WithChunkTimeout(10 * time.Millisecond)
			if c.Fn {
				b = b.WithChunkFunc(func(l []int) { chunk("chunk", l) })
			}
			ch := b.Build()
			add = ch.Add
			poll = func() {
				for !c.Fn && len(ch.C()) > 0 {
					chunk("chunk", <-ch.C())
				}
			}
		} else {
			incoming := make(chan int, 1000)
			b := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(2).WithShardFunc(func(v int) int { return v }).
				WithChunkSize(c.Size).WithChunkTimeout(10 * time.Millisecond).WithIncomingChan(incoming)
			ch, err := b.Build()
			if err != nil {
				r.e.Fail("%v", err)
			}
			add = func(v int) { incoming <- v }
			poll = func() {
				for k := range 2 {
					for len(ch.C(k)) > 0 {
						chunk(fmt.Sprint("chunk of ", k), <-ch.C(k))
					}
				}
				l, a, b := ch.Sizes()
				r.note("sizes %v %d %d", l, a, b)
				out(r, "ShardChunk.Sizes", l, junk)
			}
		}
		n := 0
		do = func(o ownOp) {
			for range min(o.N, 16) {
				n++
				add(n)
				fw.Settle()
			}
			if o.Op > 6 {
				fw.Sleep(time.Duration(o.K) * 4 * time.Millisecond)
			}
			if o.Op%3 > 0 {
				poll()
			}
		}
		end = func() {
			fw.Sleep(time.Second)
			poll()
		}
	case "shard":
		ch, err := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(c.Size).WithShardFunc(func(v int) int { return v }).Build()
		if err != nil {
			r.e.Fail("%v", err)
		}
		do = func(o ownOp) {
			switch {
			case o.Op < 6:
				_ = ch.Add(o.V)
				fw.Settle()
			case o.Op < 8:
				for k := o.K % c.Size; len(ch.C(k)) > 0; {
					r.note("item %d", <-ch.C(k))
				}
				fw.Settle()
			default:
				l := ch.Sizes()
				r.note("sizes %v", l)
				out(r, "ShardChan.Sizes", l, junk)
			}
		}
	case "processor":
		type step = func(int, *[]int) error
		mk := func(n int) step {
			return func(ev int, st *[]int) error {
				*st = append(*st, n)
				if ev == n {
					return fmt.Errorf("step %d refuses", n)
				}
				return nil
			}
		}
		b := flow.NewProcessor[int, *[]int]()
		proc := b.Build()
		n := 0
		do = func(o ownOp) {
			switch {
			case o.Op < 5:
				var steps []step
				for range 1 + o.K%4 {
					n++
					steps = append(steps, mk(n))
				}
				in2(r, steps, mk(junk), func(x []step) { b = b.RouteOn(func(ev int) bool { return ev != o.V }, x...) })
				proc = b.Build()
			default:
				var st []int
				err := proc(o.V%(n+2), &st)
				r.note("event %d: %v %v", o.V%(n+2), st, err != nil)
			}
		}
	case "archive":
		for i := range 4 {
			os.WriteFile(filepath.Join(dir, fmt.Sprint("file", i)), data(ownOp{N: 100 * (i + c.Size), K: i}), 0o644)
		}
		save := filepath.Join(dir, "..", "archive")
		b := crypto_fs.NewCryptoFSBuilder().WithSavePath(save).AddFolder(dir)
		if err := b.Save(); err != nil {
			r.e.Fail("Save: %v", err)
		}
		a, err := crypto_fs.CryptoFSFromFile(save, nil)
		if err != nil {
			r.e.Fail("CryptoFSFromFile: %v", err)
		}
		do = func(o ownOp) {
			name := filepath.Join(dir, fmt.Sprint("file", o.K%4))
			switch {
			case o.Op < 5:
				l, err := a.ReadDir(dir)
				r.note("ReadDir %v %v", names(l), err)
				if r.mode < keep { // how an entry prints is not what it says
					out(r, "ReadDir", l, fs.DirEntry(nil))
				}
			case o.Op < 6:
				l, err := a.ReadDir(dir)
				if err != nil {
					r.e.Fail("%v", err)
				}
				x, err := l[o.K%4].Info()
				r.note("entry %v %v %v", l[o.K%4].Name(), err, x.Size())
			default:
				f, err := a.Open(name)
				if err != nil {
					r.e.Fail("Open: %v", err)
				}
				defer f.Close()
				buf := make([]byte, o.N+1, o.N+20)
				k, err := f.Read(buf)
				r.note("Read %d of %s: %x %v", o.N+1, filepath.Base(name), buf[:k], err)
				out(r, "Read", buf, 0xEE)
				rest, err := io.ReadAll(f)
				r.note("rest %x %v", rest, err)
				out(r, "ReadAll", rest, 0xEE)
			}
		}
	case "codec":
		do = func(o ownOp) {
			d := data(o)
			const junk = 0xEE
			switch o.Op {
			case 0:
				l := axnet.GetBytesFromInt(o.V*1000003, o.N%9)
				r.note("int %x", l)
				out(r, "GetBytesFromInt", l, junk)
			case 1:
				orders := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}
				for _, v := range []any{uint8(o.V), uint16(o.V * 257), uint32(o.V * 65539), uint64(o.V) << 40} {
					l := axnet.PackUint(orders[o.K%2], v)
					r.note("pack %T %x", v, l)
					out(r, "PackUint", l, junk)
				}
			case 2:
				l := axnet.GetBytesFromUInt32(uint32(o.V) << 13)
				r.note("u32 %x", l)
				out(r, "GetBytesFromUInt32", l, junk)
				l = axnet.GetBytesFromUInt16(uint16(o.V) << 5)
				r.note("u16 %x", l)
				out(r, "GetBytesFromUInt16", l, junk)
			case 3:
				in(r, "AddSize32", d, junk, func(d []byte) {
					l := axnet.AddSize32(d)
					r.note("size32 %x", l)
					out(r, "AddSize32", l, junk)
				})
			case 4:
				in(r, "AddSize16", d, junk, func(d []byte) {
					l := axnet.AddSize16(d)
					r.note("size16 %x", l)
					out(r, "AddSize16", l, junk)
				})
			case 5:
				in(r, "Chunk", d, junk, func(d []byte) {
					l := axnet.Chunk(d, o.K+1)
					r.note("chunks %x", l)
					out(r, "Chunk", l, nil) // the list; the chunks are views of what was given
				})
			case 6:
				in(r, "ByteToBoolArray", d, junk, func(d []byte) {
					l := axnet.ByteToBoolArray(d)
					if o.K%2 == 0 {
						l = axnet.ByteToBoolArray(d, o.N*8*o.K/6)
					}
					r.note("bools %v", l)
					out(r, "ByteToBoolArray", l, o.V%2 == 0)
				})
			case 7:
				var bits []bool
				for i := range o.N {
					bits = append(bits, (o.V>>(i%8))&1 == 1)
				}
				in(r, "BoolArrayToByte", bits, true, func(bits []bool) {
					l := axnet.BoolArrayToByte(bits)
					r.note("bytes %x", l)
					out(r, "BoolArrayToByte", l, junk)
				})
			case 8, 9:
				l := axnet.CreateAllTrueBoolArray(o.N)
				r.note("true %v", l)
				out(r, "CreateAllTrueBoolArray", l, false)
			default:
				in(r, "CopyBytes", d, junk, func(d []byte) {
					l := axnet.CopyBytes(d, o.N*o.K/5)
					r.note("copy %x", l)
					out(r, "CopyBytes", l, junk)
				})
			}
		}
	case "compare":
		do = func(o ownOp) {
			var cur, mod []elem
			for i := range o.N {
				cur = append(cur, elem{uint64(i), i})
				if i%3 != o.K%4 {
					mod = append(mod, elem{uint64(i + o.V%5), -i})
				}
			}
			in(r, "CompareSlice", cur, elem{7, junk}, func(cur []elem) {
				in(r, "CompareSlice", mod, elem{8, junk}, func(mod []elem) {
					a, b, d := comparer.CompareSlice(cur, mod)
					r.note("%v %v %v", a, b, d)
					out(r, "CompareSlice", a, elem{9, junk})
					out(r, "CompareSlice", b, elem{9, junk})
					out(r, "CompareSlice", d, elem{9, junk})
				})
			})
		}
	case "crypto":
		a := crypto.NewAES(bytes.Repeat([]byte{byte(c.Size)}, 16+8*(c.Size%3)))
		var sealed [][]byte // copies of what was encrypted
		do = func(o ownOp) {
			switch {
			case o.Op < 4:
				in(r, "Encrypt", data(o), 0xEE, func(d []byte) {
					x, err := a.Encrypt(d)
					if err != nil {
						r.e.Fail("Encrypt: %v", err)
					}
					sealed = append(sealed, slices.Clone(x))
					r.note("encrypted %d bytes to %d", len(d), len(x))
					out(r, "Encrypt", x, 0xEE)
				})
			case o.Op < 9:
				if len(sealed) == 0 {
					return
				}
				in(r, "Decrypt", sealed[o.V%len(sealed)], 0xEE, func(x []byte) {
					p, err := a.Decrypt(x)
					r.note("decrypted %x %v", p, err)
					out(r, "Decrypt", p, 0xEE)
				})
			default:
				h := crypto.GetMD5HashBytes(fmt.Sprint(o.K))
				r.note("md5 %x %s", h, crypto.GetMD5Hash(fmt.Sprint(o.K)))
				out(r, "GetMD5HashBytes", h, 0xEE)
			}
		}
	case "zip":
		var packed [][]byte
		do = func(o ownOp) {
			if o.Op < 5 || len(packed) == 0 {
				in(r, "GZipData", data(o), 0xEE, func(d []byte) {
					x, err := zip.GZipData(d)
					if err != nil {
						r.e.Fail("GZipData: %v", err)
					}
					packed = append(packed, slices.Clone(x))
					r.note("packed %x", x)
					out(r, "GZipData", x, 0xEE)
				})
				return
			}
			in(r, "GUnzipData", packed[o.V%len(packed)], 0xEE, func(x []byte) {
				d, err := zip.GUnzipData(x)
				r.note("unpacked %x %v", d, err)
				out(r, "GUnzipData", d, 0xEE)
			})
		}
	}
	return do, end
}

// in2 is in for functions, which cannot be compared.
func in2[T any](r *run, s []T, junk T, f func([]T)) {
	r.ins++
	s = append(slices.Clone(s), junk, junk)
	f(s[:len(s)-2])
	if r.mode == scribble || r.mode == muddle {
		for i := range s {
			s[i] = junk
		}
	}
}

type elem struct {
	id  uint64
	pos int
}

func (x elem) GetId() uint64 { return x.id }

func names(l []fs.DirEntry) (res []string) {
	for _, x := range l {
		if x == nil {
			res = append(res, "nil")
		} else {
			res = append(res, x.Name())
		}
	}
	sort.Strings(res)
	return res
}

func play(e *fw.Env, c ownCase, mode int) *run {
	r := &run{e: e, mode: mode}
	dir := ""
	if c.Kind == "archive" {
		root, err := os.MkdirTemp("", "axv-own-")
		if err != nil {
			panic(err)
		}
		defer func() {
			if strings.Contains(root, "axv-own-") {
				os.RemoveAll(root)
			}
		}()
		dir = filepath.Join(root, "tree")
		os.Mkdir(dir, 0o755)
	}
	body := func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		do, end := r.object(c, ctx, dir)
		for _, o := range c.Ops {
			do(o)
		}
		end()
		for _, f := range r.kept {
			f()
		}
	}
	switch c.Kind {
	case "guava", "request", "chunk", "shard", "shardchunk":
		e.Bubble(body)
	default:
		e.Main(body)
	}
	return r
}

func runOwn(e *fw.Env, c ownCase) {
	e.Label(c.Kind)
	e.LeakIsViolation = true
	want := play(e, c, plain)
	for mode := scribble; mode <= mixed && !e.Failed(); mode++ {
		got := play(e, c, mode)
		if e.Failed() {
			return
		}
		for i := range max(len(got.log), len(want.log)) {
			g, w := "nothing more", "nothing more"
			if i < len(got.log) {
				g = got.log[i]
			}
			if i < len(want.log) {
				w = want.log[i]
			}
			if g != w {
				e.Fail("%s: observation %d of a caller %s is %q; that of one %s is %q", c.Kind, i, modes[mode], g, modes[plain], w)
			}
		}
	}
	e.NonTrivial(want.outs+want.ins > 0 && len(want.log) > 1)
}

func init() {
	fw.Add("C59", "callers", "a slice or map was handed in or out, and at least two things were observed", genOwn(kinds), runOwn, []fw.Run{fw.Plain(30000), fw.Race(4000)})
}
