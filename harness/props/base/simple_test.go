package base

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"slices"
	"sort"
	"sync"

	"axverif/fw"

	"github.com/axgrid/axutils/comparer"
	"github.com/axgrid/axutils/flow"
	axmath "github.com/axgrid/axutils/math"
	axnet "github.com/axgrid/axutils/net"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C08 flow

type flowStep struct {
	Kind   string `json:"k"` // on | onEvent | do
	Mod    int    `json:"m"` // the condition: (event+state)%Mod==Rem, or event%Mod==Rem
	Rem    int    `json:"r"`
	Add    int    `json:"a"`           // what do adds to the state
	ErrMod int    `json:"e,omitempty"` // do fails when event%ErrMod==0
	ID     int    `json:"-"`
}
type flowRoute struct {
	RouteOn bool       `json:"on,omitempty"` // built by RouteOn(Steps[0] condition, the rest as do)
	Steps   []flowStep `json:"st"`
}
type flowCase struct {
	Routes []flowRoute `json:"routes"`
	Events []int       `json:"events"`
	Par    int         `json:"par,omitempty"`
}

func genFlow(t *rapid.T) flowCase {
	step := rapid.Custom(func(t *rapid.T) flowStep {
		s := flowStep{
			Kind: rapid.SampledFrom([]string{"do", "onEvent", "on"}).Draw(t, "kind"),
			Mod:  rapid.IntRange(1, 4).Draw(t, "mod"),
			Add:  rapid.IntRange(-2, 5).Draw(t, "add"),
		}
		s.Rem = rapid.IntRange(0, s.Mod-1).Draw(t, "rem")
		if s.Kind == "do" && fw.Pct(t, "fails", 25) {
			s.ErrMod = rapid.IntRange(1, 3).Draw(t, "errmod")
		}
		return s
	})
	route := rapid.Custom(func(t *rapid.T) flowRoute {
		r := flowRoute{RouteOn: rapid.Bool().Draw(t, "routeOn"), Steps: rapid.SliceOfN(step, 0, 6).Draw(t, "steps")}
		if r.RouteOn {
			for len(r.Steps) < 2 {
				r.Steps = append(r.Steps, step.Draw(t, "fill"))
			}
			r.Steps[0].Kind = "onEvent"
			for i := 1; i < len(r.Steps); i++ {
				r.Steps[i].Kind = "do"
			}
		}
		return r
	})
	return flowCase{
		Routes: rapid.SliceOfN(route, 0, 6).Draw(t, "routes"),
		Events: rapid.SliceOfN(rapid.IntRange(0, 7), 1, 6).Draw(t, "events"),
	}
}

type flowState struct {
	V     int
	Trace []string
}

func runFlow(e *fw.Env, c flowCase) {
	errs := map[int]error{}
	id := 0
	for i := range c.Routes {
		for j := range c.Routes[i].Steps {
			c.Routes[i].Steps[j].ID = id
			errs[id] = fmt.Errorf("step %d fails", id)
			id++
		}
	}
	cond := func(s flowStep) func(int, *flowState) bool {
		return func(ev int, st *flowState) bool {
			if s.Kind == "on" {
				return (ev+st.V%8+8)%s.Mod == s.Rem
			}
			return ev%s.Mod == s.Rem
		}
	}
	do := func(s flowStep) func(int, *flowState) error {
		return func(ev int, st *flowState) error {
			st.Trace = append(st.Trace, fmt.Sprintf("d%d", s.ID))
			st.V += s.Add
			if s.ErrMod > 0 && ev%s.ErrMod == 0 {
				return errs[s.ID]
			}
			return nil
		}
	}
	evCond := func(s flowStep) func(int) bool {
		return func(ev int) bool { return ev%s.Mod == s.Rem }
	}
	b := flow.NewProcessor[int, *flowState]()
	for _, r := range c.Routes {
		if r.RouteOn {
			var dos []func(int, *flowState) error
			for _, s := range r.Steps[1:] {
				dos = append(dos, do(s))
			}
			b = b.RouteOn(evCond(r.Steps[0]), dos...)
			continue
		}
		b = b.Route(func(rb *flow.ProcessorRouterBuilder[int, *flowState]) {
			for _, s := range r.Steps {
				switch s.Kind {
				case "on":
					rb = rb.On(cond(s))
				case "onEvent":
					rb = rb.OnEvent(evCond(s))
				default:
					rb = rb.Do(do(s))
				}
			}
		})
	}
	proc := b.Build()
	// reference: routes in order, steps in order, stop at the first refusal
	ref := func(ev int, st *flowState) (filtered bool, err error) {
		for _, r := range c.Routes {
			if r.RouteOn {
				for _, s := range r.Steps[1:] {
					if !cond(r.Steps[0])(ev, st) {
						return true, nil
					}
					if err := do(s)(ev, st); err != nil {
						return false, err
					}
				}
				continue
			}
			for _, s := range r.Steps {
				if s.Kind != "do" {
					if !cond(s)(ev, st) {
						return true, nil
					}
				} else if err := do(s)(ev, st); err != nil {
					return false, err
				}
			}
		}
		return false, nil
	}
	st, want := &flowState{}, &flowState{}
	for i, ev := range c.Events {
		err := proc(ev, st)
		filtered, werr := ref(ev, want)
		switch {
		case werr != nil:
			e.Label("step error")
			if err != werr {
				e.Fail("event %d (#%d): got error %v, want the failing step's error %v", ev, i, err, werr)
			}
		case filtered:
			e.Label("refused by a condition")
			if err == nil {
				e.Fail("event %d (#%d): a condition refused the event, but no error came back", ev, i)
			}
			for _, x := range errs {
				if errors.Is(err, x) {
					e.Fail("event %d (#%d): a condition refused the event, but the error of a step came back: %v", ev, i, err)
				}
			}
		default:
			e.Label("passed")
			if err != nil {
				e.Fail("event %d (#%d): unexpected error %v", ev, i, err)
			}
		}
		if fmt.Sprint(st.Trace) != fmt.Sprint(want.Trace) || st.V != want.V {
			e.Fail("event %d (#%d): steps run %v state %d, want %v state %d", ev, i, st.Trace, st.V, want.Trace, want.V)
		}
	}
	e.NonTrivial(id >= 2 && len(want.Trace) >= 2)
	if c.Par < 2 {
		return
	}
	// the built processor keeps nothing between or across calls
	e.Label("parallel")
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.Par; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := &flowState{}
			<-start
			for _, ev := range c.Events {
				proc(ev, mine)
			}
			if fmt.Sprint(mine.Trace) != fmt.Sprint(want.Trace) || mine.V != want.V {
				e.Report("goroutine %d: steps run %v state %d, want %v state %d", g, mine.Trace, mine.V, want.Trace, want.V)
			}
		}()
	}
	close(start)
	wg.Wait()
}

// genFlowBig: hundreds of routes, or of steps in one, and the refusal, if any, late in them.
func genFlowBig(t *rapid.T) flowCase {
	n := rapid.SampledFrom([]int{1, 60, 70, 129, 130, 260, 500}).Draw(t, "routes")
	steps := rapid.SampledFrom([]int{1, 2, 65, 130, 260, 1100}).Draw(t, "steps")
	steps = min(steps, max(1, 2200/n))
	seed := rapid.IntRange(0, 1000000).Draw(t, "seed")
	refusal := rapid.IntRange(-1, n*steps-1).Draw(t, "refusal")
	if refusal >= 0 && rapid.Bool().Draw(t, "end") {
		refusal = n*steps - 1 - refusal%9
	}
	c := flowCase{Events: rapid.SliceOfN(rapid.IntRange(0, 7), 1, 3).Draw(t, "events")}
	id := 0
	for range n {
		r := flowRoute{}
		for range steps {
			seed = (seed*1103515245 + 12345) % (1 << 31)
			s := flowStep{Kind: []string{"do", "onEvent", "on", "do"}[seed>>8%4], Mod: 1, Add: seed >> 12 % 5}
			if id == refusal || id == refusal+1 {
				s.Mod, s.ErrMod = 3, 2
			}
			id++
			r.Steps = append(r.Steps, s)
		}
		c.Routes = append(c.Routes, r)
	}
	return c
}

func genFlowPar(t *rapid.T) flowCase {
	c := genFlow(t)
	c.Par = rapid.IntRange(2, 4).Draw(t, "par")
	return c
}

// ---------------------------------------------------------------------------
// C09 integer codecs

type intCase struct {
	V     uint64 `json:"v"`
	Count int    `json:"count"`
	Width int    `json:"w"`
	Big   bool   `json:"big"`
	Own   int    `json:"own,omitempty"` // a byte order of the user's own
	Extra []byte `json:"x"`
}

func genInt(t *rapid.T) intCase {
	return intCase{
		V: rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<56 - 1, 1<<63 - 1, 1 << 63, math.MaxUint64, 0x0102030405060708}),
			rapid.Custom(func(t *rapid.T) uint64 { return rapid.Uint64().Draw(t, "raw") * 0x9E3779B97F4A7C15 })).Draw(t, "v"),
		Count: rapid.IntRange(0, 12).Draw(t, "count"),
		Width: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "width"),
		Big:   rapid.Bool().Draw(t, "big"),
		Extra: rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "extra"),
		Own:   rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "own"),
	}
}

// pdp is the byte order of the PDP-11: little-endian words, the high one first.
type pdp struct{}

func (pdp) Uint16(b []byte) uint16 { return binary.LittleEndian.Uint16(b) }
func (pdp) Uint32(b []byte) uint32 {
	return uint32(binary.LittleEndian.Uint16(b))<<16 | uint32(binary.LittleEndian.Uint16(b[2:]))
}
func (o pdp) Uint64(b []byte) uint64     { return uint64(o.Uint32(b))<<32 | uint64(o.Uint32(b[4:])) }
func (pdp) PutUint16(b []byte, v uint16) { binary.LittleEndian.PutUint16(b, v) }
func (pdp) PutUint32(b []byte, v uint32) {
	binary.LittleEndian.PutUint16(b, uint16(v>>16))
	binary.LittleEndian.PutUint16(b[2:], uint16(v))
}
func (o pdp) PutUint64(b []byte, v uint64) {
	o.PutUint32(b, uint32(v>>32))
	o.PutUint32(b[4:], uint32(v))
}
func (pdp) String() string { return "PDP" }

type ownOrder struct{ binary.ByteOrder }

func runInt(e *fw.Env, c intCase) {
	e.NonTrivial(c.V > 255)
	// little-endian of the value cut to count bytes; sign extension above 8
	n := int(c.V)
	got := axnet.GetBytesFromInt(n, c.Count)
	if len(got) != c.Count {
		e.Fail("GetBytesFromInt(%d,%d) has %d bytes", n, c.Count, len(got))
	}
	for i, b := range got {
		want := byte(0)
		if i < 8 {
			want = byte(uint64(n) >> (8 * i))
		} else if n < 0 {
			want = 0xff
		}
		if b != want {
			e.Fail("GetBytesFromInt(%d,%d) byte %d is %#x, want %#x", n, c.Count, i, b, want)
		}
	}
	low := n
	if c.Count < 8 {
		low = int(uint64(n) & (1<<(8*c.Count) - 1))
	}
	keep := append([]byte{}, got...)
	if back := axnet.GetIntFromBytes(got); back != low {
		e.Fail("GetIntFromBytes(GetBytesFromInt(%d,%d)) = %d, want %d", n, c.Count, back, low)
	}
	if !bytes.Equal(keep, got) {
		e.Fail("GetIntFromBytes changed its argument from %x to %x", keep, got)
	}
	// arbitrary bytes: the first eight count
	arb := append(append([]byte{}, c.Extra...), got...)
	var num uint64
	for i := range min(8, len(arb)) {
		num |= uint64(arb[i]) << (8 * i)
	}
	if back := axnet.GetIntFromBytes(arb); back != int(num) {
		e.Fail("GetIntFromBytes(%x) = %d, want %d", arb, back, int(num))
	}
	// a second call does not touch the first result
	_ = axnet.GetBytesFromInt(^n, c.Count)
	if !bytes.Equal(keep, got) {
		e.Fail("the result of GetBytesFromInt(%d,%d) changed from %x to %x with the next call", n, c.Count, keep, got)
	}
	var order binary.ByteOrder = binary.LittleEndian
	if c.Big {
		order = binary.BigEndian
	}
	ref := make([]byte, 8)
	for i := range c.Width {
		sh := 8 * i
		if c.Big {
			sh = 8 * (c.Width - 1 - i)
		}
		ref[i] = byte(c.V >> sh)
	}
	switch {
	case c.Own == 1:
		order = pdp{}
		switch c.Width {
		case 2:
			order.PutUint16(ref, uint16(c.V))
		case 4:
			order.PutUint32(ref, uint32(c.V))
		case 8:
			order.PutUint64(ref, c.V)
		}
	case c.Own == 3:
		order = ownOrder{order} // the same one, in the user's clothes
	case c.Own == 2 && !c.Big:
		order = binary.NativeEndian // little-endian where this runs
		if binary.NativeEndian.Uint16([]byte{1, 0}) != 1 {
			order = binary.LittleEndian
		}
	}
	ref = ref[:c.Width]
	var packed []byte
	switch c.Width {
	case 1:
		packed = axnet.PackUint(order, uint8(c.V))
	case 2:
		packed = axnet.PackUint(order, uint16(c.V))
	case 4:
		packed = axnet.PackUint(order, uint32(c.V))
	default:
		packed = axnet.PackUint(order, c.V)
	}
	_, _, _, _ = axnet.PackUint(order, uint8(^c.V)), axnet.PackUint(order, uint16(^c.V)), axnet.PackUint(order, uint32(^c.V)), axnet.PackUint(order, ^c.V)
	if !bytes.Equal(packed, ref) {
		e.Fail("PackUint(%v, %d as uint%d) = %x, want %x", order, c.V, 8*c.Width, packed, ref)
	}
	// trailing bytes do not matter
	in := append(append([]byte{}, ref...), c.Extra...)
	var got64 uint64
	var err error
	switch c.Width {
	case 1:
		v := uint8(77)
		err = axnet.UnpackUint(order, in, &v)
		got64 = uint64(v)
	case 2:
		v := uint16(77)
		err = axnet.UnpackUint(order, in, &v)
		got64 = uint64(v)
	case 4:
		v := uint32(77)
		err = axnet.UnpackUint(order, in, &v)
		got64 = uint64(v)
	default:
		v := uint64(77)
		err = axnet.UnpackUint(order, in, &v)
		got64 = v
	}
	want := c.V
	if c.Width < 8 {
		want &= 1<<(8*c.Width) - 1
	}
	if err != nil || got64 != want {
		e.Fail("UnpackUint(%v, %x as uint%d) = %d, %v; want %d", order, in, 8*c.Width, got64, err, want)
	}
	le := make([]byte, 4)
	for i := range le {
		le[i] = byte(c.V >> (8 * i))
	}
	if b := axnet.GetBytesFromUInt32(uint32(c.V)); !bytes.Equal(b, le) {
		e.Fail("GetBytesFromUInt32(%d) = %x, want %x", uint32(c.V), b, le)
	}
	if v := axnet.GetUInt32FromBytes(append(append([]byte{}, le...), c.Extra...)); v != uint32(c.V) {
		e.Fail("GetUInt32FromBytes(%x) = %d, want %d", le, v, uint32(c.V))
	}
	if b := axnet.GetBytesFromUInt16(uint16(c.V)); !bytes.Equal(b, le[:2]) {
		e.Fail("GetBytesFromUInt16(%d) = %x, want %x", uint16(c.V), b, le[:2])
	}
	if v := axnet.GetUInt16FromBytes(append(append([]byte{}, le[:2]...), c.Extra...)); v != uint16(c.V) {
		e.Fail("GetUInt16FromBytes(%x) = %d, want %d", le[:2], v, uint16(c.V))
	}
	keepIn := append([]byte{}, in...)
	// an unsupported target is an error and touches nothing
	iv, nv, sv, fv := int64(5), int(5), "five", 5.0
	for _, target := range []any{&iv, &nv, &sv, &fv, uint64(5), uint32(5), uint16(5), uint8(5), nil, &in, new(bool)} {
		if err := axnet.UnpackUint(order, in, target); err == nil {
			e.Fail("UnpackUint into %T gives no error", target)
		}
	}
	// neither is an unsupported value packed into anything
	for _, v := range []any{int64(5), int(5), uint(5), "five", 5.0, nil, true, &c.V, []byte{1}} {
		var out []byte
		if pn := fw.Call(func() { out = axnet.PackUint(order, v) }); pn == nil && len(out) > 0 {
			e.Fail("PackUint of a %T gives %x", v, out)
		} else if pn == nil {
			e.Fail("PackUint of a %T is not refused", v)
		}
	}
	if iv != 5 || nv != 5 || sv != "five" || fv != 5 || !bytes.Equal(in, keepIn) {
		e.Fail("a failed UnpackUint changed something: %d %d %q %v %x", iv, nv, sv, fv, in)
	}
}

// ---------------------------------------------------------------------------
// C10 framing and slicing

type frameCase struct {
	Data  fw.Blob `json:"data"`
	Size  int     `json:"size"`
	Copy  int     `json:"copy"` // per mille of the length
	Slack int     `json:"slack"`
}

func genFrame(t *rapid.T) frameCase {
	c := frameCase{Data: fw.DrawBlob(t, "data", 1<<21), Slack: rapid.SampledFrom([]int{0, 1, 64}).Draw(t, "slack")}
	c.Copy = rapid.IntRange(0, 1000).Draw(t, "copy")
	n := c.Data.Len
	cand := []int{1, 2, 3, 7, 16, 1000, 4096, 65536, n, n + 1, n - 1, n / 2, (n + 1) / 2, n / 3, 2 * n}
	c.Size = rapid.OneOf(rapid.SampledFrom(cand), rapid.IntRange(1, 70)).Draw(t, "size")
	if c.Size < 1 {
		c.Size = 1
	}
	if n/c.Size > 20000 {
		c.Size = n/20000 + 1
	}
	return c
}

func runFrame(e *fw.Env, c frameCase) {
	data := c.Data.Bytes()
	data = append(make([]byte, 0, len(data)+c.Slack), data...) // spare capacity must not matter
	orig := append([]byte{}, data...)
	n := len(data)
	e.NonTrivial(n > 1)
	e.Label(fw.SizeLabel(n))

	f32 := axnet.AddSize32(data)
	if len(f32) != n+4 || binary.LittleEndian.Uint32(f32) != uint32(n) || !bytes.Equal(f32[4:], orig) {
		e.Fail("AddSize32 of %d bytes: %d bytes, size field %x", n, len(f32), f32[:4])
	}
	if n <= 65535 {
		f16 := axnet.AddSize16(data)
		if len(f16) != n+2 || binary.LittleEndian.Uint16(f16) != uint16(n) || !bytes.Equal(f16[2:], orig) {
			e.Fail("AddSize16 of %d bytes: %d bytes, size field %x", n, len(f16), f16[:2])
		}
	}
	chunks := axnet.Chunk(data, c.Size)
	want := (n + c.Size - 1) / c.Size
	if len(chunks) != want {
		e.Fail("Chunk of %d bytes by %d: %d chunks, want %d", n, c.Size, len(chunks), want)
	}
	var cat []byte
	for i, ch := range chunks {
		w := c.Size
		if i == len(chunks)-1 {
			w = n - i*c.Size
		}
		if len(ch) != w {
			e.Fail("Chunk of %d bytes by %d: chunk %d has %d bytes, want %d", n, c.Size, i, len(ch), w)
		}
		cat = append(cat, ch...)
	}
	if !bytes.Equal(cat, orig) {
		e.Fail("Chunk of %d bytes by %d: the chunks joined differ from the data", n, c.Size)
	}
	l := n * c.Copy / 1000
	cp := axnet.CopyBytes(data, l)
	if !bytes.Equal(cp, orig[:l]) {
		e.Fail("CopyBytes(%d of %d bytes) differs from the data", l, n)
	}
	for i := range cp {
		cp[i] ^= 0x5a
	}
	_ = append(cp, 0xaa)
	_ = append(f32, 0xaa)
	if !bytes.Equal(data, orig) {
		e.Fail("the input of %d bytes was modified, or the copy shares memory with it", n)
	}
	if !bytes.Equal(f32[4:], orig) {
		e.Fail("the frame shares memory with a copy")
	}
}

// ---------------------------------------------------------------------------
// C11 bits

type bitsCase struct {
	Bits  []bool `json:"bits"`
	Bytes []byte `json:"bytes"`
	Count int    `json:"count"`
	All   int    `json:"all"`
	Long  int    `json:"long"`
}

func genBits(t *rapid.T) bitsCase {
	c := bitsCase{
		Bits:  fw.Ops(t, "bits", 0, 80, rapid.Bool()),
		Bytes: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"),
		All:   rapid.IntRange(0, 300).Draw(t, "all"),
	}
	c.Count = rapid.IntRange(0, 8*len(c.Bytes)).Draw(t, "count")
	if fw.Pct(t, "islong", 10) {
		c.Long = rapid.IntRange(0, 70000).Draw(t, "long")
	}
	return c
}

func runBits(e *fw.Env, c bitsCase) {
	bits := c.Bits
	if c.Long > 0 {
		bits = make([]bool, c.Long)
		for i := range bits {
			bits[i] = i*i%7 < 3 || len(c.Bits) > 0 && c.Bits[i%len(c.Bits)]
		}
		e.Label("long")
	}
	e.NonTrivial(len(bits) > 1 && len(bits)%8 != 0)
	packed := axnet.BoolArrayToByte(append([]bool{}, bits...))
	if len(packed) != (len(bits)+7)/8 {
		e.Fail("BoolArrayToByte of %d bits: %d bytes", len(bits), len(packed))
	}
	for i := 0; i < 8*len(packed); i++ {
		want := i < len(bits) && bits[i]
		if (packed[i/8]>>(i%8)&1 == 1) != want {
			e.Fail("BoolArrayToByte of %d bits: bit %d is %v, want %v", len(bits), i, !want, want)
		}
	}
	back := axnet.ByteToBoolArray(packed, len(bits))
	if len(back) != len(bits) {
		e.Fail("round trip of %d bits gives %d bits", len(bits), len(back))
	}
	for i := range bits {
		if back[i] != bits[i] {
			e.Fail("round trip of %d bits: bit %d flipped", len(bits), i)
		}
	}
	un := axnet.ByteToBoolArray(c.Bytes)
	if len(un) != 8*len(c.Bytes) {
		e.Fail("ByteToBoolArray of %d bytes: %d bits", len(c.Bytes), len(un))
	}
	for i, b := range un {
		if b != (c.Bytes[i/8]>>(i%8)&1 == 1) {
			e.Fail("ByteToBoolArray(%x): bit %d is %v", c.Bytes, i, b)
		}
	}
	if again := axnet.BoolArrayToByte(un); !bytes.Equal(again, c.Bytes) {
		e.Fail("bytes %x come back as %x", c.Bytes, again)
	}
	if cut := axnet.ByteToBoolArray(c.Bytes, c.Count); len(cut) != c.Count {
		e.Fail("ByteToBoolArray(%x, %d): %d bits", c.Bytes, c.Count, len(cut))
	} else {
		for i := range cut {
			if cut[i] != un[i] {
				e.Fail("ByteToBoolArray(%x, %d): bit %d flipped", c.Bytes, c.Count, i)
			}
		}
	}
	// earlier results stay as they were, and the arguments too
	keepPacked, keepBack, keepBytes := append([]byte{}, packed...), append([]bool{}, back...), append([]byte{}, c.Bytes...)
	inv := make([]bool, len(bits))
	for i := range bits {
		inv[i] = !bits[i]
	}
	keepInv := append([]bool{}, inv...)
	invPacked := axnet.BoolArrayToByte(inv)
	_ = axnet.ByteToBoolArray(invPacked, len(inv))
	if !bytes.Equal(packed, keepPacked) || !slices.Equal(back, keepBack) {
		e.Fail("the result for %d bits changed with a later call", len(bits))
	}
	if !slices.Equal(inv, keepInv) || !bytes.Equal(c.Bytes, keepBytes) {
		e.Fail("packing changed its argument")
	}
	for i := range un {
		un[i] = !un[i]
	}
	if !bytes.Equal(c.Bytes, keepBytes) {
		e.Fail("unpacked bits share memory with the bytes")
	}
	all := axnet.CreateAllTrueBoolArray(c.All)
	if len(all) != c.All {
		e.Fail("CreateAllTrueBoolArray(%d) has %d", c.All, len(all))
	}
	for i, b := range all {
		if !b {
			e.Fail("CreateAllTrueBoolArray(%d)[%d] is false", c.All, i)
		}
	}
}

// ---------------------------------------------------------------------------
// C13 math

type mathCase struct {
	A, B  int64   // integers, cut to each width
	FA    float64 `json:"fa"`
	FB    float64 `json:"fb"`
	Inf   int     `json:"inf"` // 1: FA=+Inf, 2: FA=-Inf, 3: FB=+Inf, 4: FB=-Inf
	Value int64   `json:"value"`
	Shift int     `json:"shift"`
}

func genMath(t *rapid.T) mathCase {
	var edges []int64
	for _, k := range []uint{7, 8, 15, 16, 31, 32, 52, 53, 63} {
		for d := int64(-2); d <= 2; d++ {
			edges = append(edges, int64(uint64(1)<<k)+d, -int64(uint64(1)<<k)+d)
		}
	}
	val := rapid.OneOf(rapid.Int64(), rapid.SampledFrom(edges), rapid.Int64Range(-20, 20), rapid.Custom(func(t *rapid.T) int64 {
		return int64(rapid.Uint64().Draw(t, "raw") * 0x9E3779B97F4A7C15)
	}))
	c := mathCase{A: val.Draw(t, "a"), B: val.Draw(t, "b"), Value: val.Draw(t, "value"), Shift: rapid.IntRange(-25, 18).Draw(t, "shift")}
	if fw.Pct(t, "decimal", 30) { // next to a multiple of a power of ten, where a rounded quotient is wrong
		k := rapid.IntRange(1, 18).Draw(t, "power")
		p := int64(1)
		for i := 0; i < k; i++ {
			p *= 10
		}
		c.Value = rapid.Int64Range(1, 9).Draw(t, "digit") * p
		c.Value += rapid.Int64Range(-2, 2).Draw(t, "off")
		if rapid.Bool().Draw(t, "negative") {
			c.Value = -c.Value
		}
		c.Shift = -rapid.IntRange(max(1, k-3), k).Draw(t, "back")
	}
	if fw.Pct(t, "near", 30) {
		c.B = c.A + rapid.Int64Range(-2, 2).Draw(t, "delta")
	}
	c.FA = rapid.Float64().Draw(t, "fa")
	c.FB = rapid.Float64().Draw(t, "fb")
	if fw.Pct(t, "feq", 15) {
		c.FB = c.FA
	}
	if fw.Pct(t, "isinf", 10) {
		c.Inf = rapid.IntRange(1, 4).Draw(t, "inf")
	}
	if math.IsInf(c.FA, 0) || math.IsNaN(c.FA) {
		c.FA = 0
	}
	if math.IsInf(c.FB, 0) || math.IsNaN(c.FB) {
		c.FB = 0
	}
	// keep the product within an int: the statement is about exact results
	for {
		lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(c.Shift, 0))), nil)
		p := new(big.Int).Mul(big.NewInt(c.Value), lim)
		if p.IsInt64() {
			break
		}
		if c.Value > -100 && c.Value < 100 {
			c.Shift--
		} else {
			c.Value /= 10
		}
	}
	return c
}

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

func minmax[T num](e *fw.Env, name string, mn, mx func(a, b T) T, a, b T) {
	lo, hi := a, b
	if hi < lo {
		lo, hi = hi, lo
	}
	if g := mn(a, b); g != lo {
		e.Fail("minimum of %s %v and %v is %v", name, a, b, g)
	}
	if g := mx(a, b); g != hi {
		e.Fail("maximum of %s %v and %v is %v", name, a, b, g)
	}
}

func runMath(e *fw.Env, c mathCase) {
	e.NonTrivial(c.A != c.B || c.Shift != 0)
	switch c.Inf {
	case 1:
		c.FA = math.Inf(1)
	case 2:
		c.FA = math.Inf(-1)
	case 3:
		c.FB = math.Inf(1)
	case 4:
		c.FB = math.Inf(-1)
	}
	a, b := c.A, c.B
	minmax(e, "int", axmath.Min, axmath.Max, int(a), int(b))
	minmax(e, "int64", axmath.Min64, axmath.Max64, a, b)
	minmax(e, "int32", axmath.Min32, axmath.Max32, int32(a), int32(b))
	minmax(e, "int16", axmath.Min16, axmath.Max16, int16(a), int16(b))
	minmax(e, "int8", axmath.Min8, axmath.Max8, int8(a), int8(b))
	minmax(e, "uint", axmath.MinUInt, axmath.MaxUInt, uint(a), uint(b))
	minmax(e, "uint64", axmath.MinUInt64, axmath.MaxUInt64, uint64(a), uint64(b))
	minmax(e, "uint32", axmath.MinUInt32, axmath.MaxUInt32, uint32(a), uint32(b))
	minmax(e, "uint16", axmath.MinUInt16, axmath.MaxUInt16, uint16(a), uint16(b))
	minmax(e, "uint8", axmath.MinUInt8, axmath.MaxUInt8, uint8(a), uint8(b))
	minmax(e, "float32", axmath.MinFloat32, axmath.MaxFloat32, float32(c.FA), float32(c.FB))
	minmax(e, "float64", axmath.MinFloat64, axmath.MaxFloat64, c.FA, c.FB)
	minmax(e, "float64", axmath.MinFloat64, axmath.MaxFloat64, float64(a), float64(b))

	got := axmath.IntPointMove(int(c.Value), c.Shift)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(c.Shift))), nil)
	want := new(big.Int)
	if c.Shift >= 0 {
		e.Label("shift right by " + fmt.Sprint(c.Shift))
		want.Mul(big.NewInt(c.Value), p)
	} else {
		e.Label("shift left")
		want.Quo(big.NewInt(c.Value), p) // truncates toward zero
	}
	if want.Cmp(big.NewInt(int64(got))) != 0 {
		e.Fail("IntPointMove(%d, %d) = %d, want %v", c.Value, c.Shift, got, want)
	}
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// ---------------------------------------------------------------------------
// C14 comparer

type cmpCase struct {
	Cur   []uint64 `json:"cur"`
	Mod   []uint64 `json:"mod"`
	Scale int      `json:"scale"`
}

func genCmp(t *rapid.T) cmpCase {
	id := rapid.OneOf(rapid.Uint64Range(0, 6), rapid.Uint64Range(0, 40), rapid.SampledFrom([]uint64{0, math.MaxUint64, 1 << 63, 1 << 32, 1<<32 + 1, 1 << 31, math.MaxUint64 - 1}))
	c := cmpCase{Cur: fw.Ops(t, "cur", 0, 60, id), Mod: fw.Ops(t, "mod", 0, 60, id)}
	if fw.Pct(t, "big", 3) {
		c.Scale = rapid.SampledFrom([]int{300, 1100, 5000}).Draw(t, "scale")
	}
	return c
}

type elemA struct {
	id  uint64
	pos int
}
type elemB struct {
	id  uint64
	pos int
}

func (a elemA) GetId() uint64  { return a.id }
func (b *elemB) GetId() uint64 { return b.id }

func runCmp(e *fw.Env, c cmpCase) {
	if c.Scale > 0 {
		for i := 0; i < c.Scale; i++ {
			c.Cur = append(c.Cur, uint64(i*2+100))
			c.Mod = append(c.Mod, uint64(i*3+100))
		}
		e.Label("large")
	}
	var cur []elemA
	var mod []*elemB
	for i, id := range c.Cur {
		cur = append(cur, elemA{id, i})
	}
	for i, id := range c.Mod {
		mod = append(mod, &elemB{id, i})
	}
	cur0 := append([]elemA{}, cur...)
	mod0 := append([]*elemB{}, mod...)
	del, create, modify := comparer.CompareSlice(cur, mod)
	in := func(ids []uint64, x uint64) bool {
		i := sort.Search(len(ids), func(i int) bool { return ids[i] >= x })
		return i < len(ids) && ids[i] == x
	}
	sc := append([]uint64{}, c.Cur...)
	sm := append([]uint64{}, c.Mod...)
	sort.Slice(sc, func(i, j int) bool { return sc[i] < sc[j] })
	sort.Slice(sm, func(i, j int) bool { return sm[i] < sm[j] })
	var wdel, wmod []elemA
	var wcre []*elemB
	for _, x := range cur0 {
		if in(sm, x.id) {
			wmod = append(wmod, x)
		} else {
			wdel = append(wdel, x)
		}
	}
	for _, x := range mod0 {
		if !in(sc, x.id) {
			wcre = append(wcre, x)
		}
	}
	e.NonTrivial(len(wdel) > 0 && len(wcre) > 0 && len(wmod) > 0)
	if fmt.Sprint(del) != fmt.Sprint(wdel) || fmt.Sprint(modify) != fmt.Sprint(wmod) {
		e.Fail("CompareSlice(%v, %v): delete %v modify %v; want %v and %v", cur0, c.Mod, del, modify, wdel, wmod)
	}
	if len(create) != len(wcre) {
		e.Fail("CompareSlice(%v, %v): %d to create, want %d", cur0, c.Mod, len(create), len(wcre))
	}
	for i := range wcre {
		if create[i] != wcre[i] {
			e.Fail("CompareSlice(%v, %v): element %d to create is %v, want %v", cur0, c.Mod, i, *create[i], *wcre[i])
		}
	}
	for i := range cur0 {
		if cur[i] != cur0[i] {
			e.Fail("CompareSlice changed its first argument")
		}
	}
	for i := range mod0 {
		if mod[i] != mod0[i] {
			e.Fail("CompareSlice changed its second argument")
		}
	}
}

func init() {
	fw.Add("C08", "chains", "at least two steps configured and two run", genFlow, runFlow, []fw.Run{fw.Plain(60000)})
	fw.Add("C08", "big", "at least two steps configured and two run", genFlowBig, runFlow, []fw.Run{fw.Plain(300)})
	fw.Add("C08", "parallel", "at least two steps configured and two run, from several goroutines at once", genFlowPar, runFlow, []fw.Run{fw.Race(1500)})
	fw.Add("C09", "codecs", "the value needs more than one byte", genInt, runInt, []fw.Run{fw.Plain(200000)})
	fw.AddParallel("C09", "the value needs more than one byte", genInt, runInt, []fw.Run{fw.Race(1500)})
	fw.Add("C10", "frames", "the data has at least two bytes", genFrame, runFrame, []fw.Run{fw.Plain(60000)})
	fw.AddParallel("C10", "the data has at least two bytes", genFrame, runFrame, []fw.Run{fw.Race(1500)})
	fw.Add("C11", "bits", "a bit count that is not a multiple of 8", genBits, runBits, []fw.Run{fw.Plain(80000)})
	fw.AddParallel("C11", "a bit count that is not a multiple of 8", genBits, runBits, []fw.Run{fw.Race(1500)})
	fw.Add("C13", "numbers", "the operands differ or the shift is not zero", genMath, runMath, []fw.Run{fw.Plain(200000)})
	fw.Add("C14", "diff", "something to delete, to create and to modify", genCmp, runCmp, []fw.Run{fw.Plain(80000)})
	fw.AddParallel("C14", "something to delete, to create and to modify", genCmp, runCmp, []fw.Run{fw.Race(1500)})
}
