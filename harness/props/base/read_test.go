package base

import (
	"bytes"
	"errors"
	"io"
	"net"
	"time"

	"axverif/fw"

	axnet "github.com/axgrid/axutils/net"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C12 exact reads

type seg struct {
	Len   int `json:"n"`
	Delay int `json:"d"` // virtual ms before the segment is sent
}
type readOp struct {
	N       int `json:"n"`
	Timeout int `json:"t"` // ms
}
type readCase struct {
	Conn    string   `json:"conn"` // pipe | script
	Segs    []seg    `json:"segs"`
	Close   bool     `json:"close"` // the peer closes at the end
	Timed   bool     `json:"timed"`
	Reads   []readOp `json:"reads"`
	EOFWith bool     `json:"eofwith"`         // script: the last bytes come together with io.EOF
	Fault   int      `json:"fault,omitempty"` // script: Read fails once so many segments are read, counted from 1
	Idle    int      `json:"idle,omitempty"`  // script: Reads of nothing before each segment
	DLErr   int      `json:"dlerr,omitempty"` // script: setting the deadline fails at this read, counted from 1
	Seed    uint32   `json:"seed"`
}

func genRead(t *rapid.T) readCase {
	c := readCase{
		Conn:    rapid.SampledFrom([]string{"pipe", "script"}).Draw(t, "conn"),
		Close:   rapid.Bool().Draw(t, "close"),
		EOFWith: rapid.Bool().Draw(t, "eofwith"),
		Seed:    uint32(rapid.IntRange(0, 1000).Draw(t, "seed")),
	}
	c.Timed = rapid.Bool().Draw(t, "timed")
	n := rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 9), rapid.IntRange(1, 9), rapid.SampledFrom([]int{64, 1000, 4095, 4096, 4097, 5000, 32768, 32769, 65536, 70000}))
	c.Segs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) seg {
		return seg{n.Draw(t, "n"), rapid.SampledFrom([]int{0, 0, 1, 5, 10, 30}).Draw(t, "delay")}
	}), 0, 10).Draw(t, "segs")
	if c.Conn == "script" {
		c.Idle = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "idle")
		if fw.Pct(t, "fault", 25) {
			c.Fault = rapid.IntRange(1, len(c.Segs)+1).Draw(t, "at")
		}
		if c.Timed && fw.Pct(t, "dlerr", 20) {
			c.DLErr = rapid.IntRange(1, 4).Draw(t, "dlerrat")
		}
	}
	c.Reads = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) readOp {
		return readOp{rapid.OneOf(rapid.IntRange(0, 20), n).Draw(t, "n"), rapid.SampledFrom([]int{1, 3, 5, 10, 12, 50, 1000, 1, 3, 5, 10, 12, 50, 1000, 0, -5}).Draw(t, "timeout")}
	}), 1, 6).Draw(t, "reads")
	return c
}

// scriptConn hands out the segments one Read at a time, without time passing.
type scriptConn struct {
	net.Conn
	segs    [][]byte
	eofWith bool
	fault   int // segments left when Read fails
	idle    int
	idled   int
	dlErr   bool
}

var errFault = errors.New("injected fault")

func (s *scriptConn) SetReadDeadline(t time.Time) error {
	if s.dlErr {
		return errFault
	}
	return nil
}
func (s *scriptConn) SetDeadline(t time.Time) error { return s.SetReadDeadline(t) }
func (s *scriptConn) Close() error                  { return nil }
func (s *scriptConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.idled < s.idle {
		s.idled++
		return 0, nil
	}
	if s.fault >= 0 && len(s.segs) <= s.fault {
		return 0, errFault
	}
	if len(s.segs) == 0 {
		return 0, io.EOF
	}
	s.idled = 0
	n := copy(p, s.segs[0])
	if n == len(s.segs[0]) {
		s.segs = s.segs[1:]
		if len(s.segs) == 0 && s.eofWith {
			return n, io.EOF
		}
	} else {
		s.segs[0] = s.segs[0][n:]
	}
	return n, nil
}

func runRead(e *fw.Env, c readCase) {
	total := 0
	for _, s := range c.Segs {
		total += s.Len
	}
	stream := fw.Blob{Len: total, Kind: "rand", Seed: c.Seed}.Bytes()
	if c.Conn == "script" {
		sc := &scriptConn{eofWith: c.EOFWith, idle: c.Idle, fault: -1}
		avail := total // bytes that come before a fault
		if c.Fault > 0 {
			sc.fault = len(c.Segs) + 1 - c.Fault
			avail = 0
			for _, s := range c.Segs[:c.Fault-1] {
				avail += s.Len
			}
		}
		at := 0
		for _, s := range c.Segs {
			sc.segs = append(sc.segs, append([]byte{}, stream[at:at+s.Len]...))
			at += s.Len
		}
		at = 0
		for i, r := range c.Reads {
			var got []byte
			var err error
			sc.dlErr = c.DLErr == i+1
			if c.Timed {
				got, err = axnet.ReadNBytesWithTimeout(sc, r.N, time.Hour)
			} else {
				got, err = axnet.ReadNBytes(sc, r.N)
			}
			if sc.dlErr {
				e.Label("the deadline cannot be set")
				e.NonTrivial(true)
				if err == nil {
					e.Fail("read %d of %d bytes with a timeout succeeds although the deadline cannot be set", i, r.N)
				}
				return
			}
			if at+r.N <= avail {
				if err != nil || len(got) != r.N || !bytes.Equal(got, stream[at:at+r.N]) {
					e.Fail("read %d of %d bytes at offset %d of %d: got %d bytes, %v", i, r.N, at, total, len(got), err)
				}
				at += r.N
				e.NonTrivial(r.N > 0)
				e.Label("full read")
				continue
			}
			e.Label("short stream")
			e.NonTrivial(true)
			if err == nil {
				e.Fail("read %d of %d bytes at offset %d succeeds although only %d bytes are left", i, r.N, at, avail-at)
			}
			e.LabelIf(c.Fault > 0, "the connection fails")
			return
		}
		return
	}
	e.Bubble(func() {
		a, b := net.Pipe()
		defer a.Close()
		defer b.Close()
		start := time.Now()
		// arrival[i]: virtual time at which byte i is offered at the earliest
		var arrive []time.Duration
		var t time.Duration
		for _, s := range c.Segs {
			t += time.Duration(s.Delay) * time.Millisecond
			for j := 0; j < s.Len; j++ {
				arrive = append(arrive, t)
			}
		}
		endAt := t
		go func() {
			at := 0
			for _, s := range c.Segs {
				// absolute schedule, so that a slow reader does not shift it
				d := time.Duration(0)
				if at < len(arrive) {
					d = arrive[at] - time.Since(start)
				}
				if d > 0 {
					time.Sleep(d)
				}
				if _, err := a.Write(stream[at : at+s.Len]); err != nil {
					return
				}
				at += s.Len
			}
			if c.Close {
				a.Close()
			}
		}()
		at := 0
		for i, r := range c.Reads {
			now := time.Since(start)
			var got []byte
			var err error
			var deadline time.Duration
			if c.Timed {
				// a timeout of nothing, or less, is over at once
				deadline = now + time.Duration(max(0, r.Timeout))*time.Millisecond
				got, err = axnet.ReadNBytesWithTimeout(b, r.N, time.Duration(r.Timeout)*time.Millisecond)
			} else {
				if at+r.N > total && !c.Close {
					return // would wait for ever, rightly
				}
				got, err = axnet.ReadNBytes(b, r.N)
			}
			took := time.Since(start)
			enough := at+r.N <= total
			var ready time.Duration
			if enough && r.N > 0 {
				ready = arrive[at+r.N-1]
			} else if !enough {
				ready = endAt
			}
			if c.Timed {
				if took > deadline {
					e.Fail("read %d of %d bytes with timeout %dms returned after %v", i, r.N, r.Timeout, took-now)
				}
				if ready == deadline && ready > now || r.Timeout <= 0 && ready <= now && enough {
					return // arrival exactly at the deadline: either is right
				}
				if ready > deadline || !enough && !c.Close {
					e.NonTrivial(true)
					e.Label("timeout")
					if err == nil {
						e.Fail("read %d of %d bytes with timeout %dms succeeds although the bytes are not there in time", i, r.N, r.Timeout)
					}
					if took != deadline {
						e.Fail("read %d of %d bytes with timeout %dms gave up after %v", i, r.N, r.Timeout, took-now)
					}
					// what came meanwhile is lost; the next read has its own timeout
					for at < total && arrive[at] < deadline {
						at++
					}
					if at < total && arrive[at] == deadline {
						return
					}
					fw.Settle()
					continue
				}
			}
			if !enough {
				e.Label("peer closed early")
				e.NonTrivial(true)
				if err == nil {
					e.Fail("read %d of %d bytes succeeds although the peer closed after %d more bytes", i, r.N, total-at)
				}
				return
			}
			if err != nil || len(got) != r.N || !bytes.Equal(got, stream[at:at+r.N]) {
				e.Fail("read %d of %d bytes at offset %d of %d (timed %v): got %d bytes, %v", i, r.N, at, total, c.Timed, len(got), err)
			}
			if want := max(now, ready); r.N > 0 && took != want {
				e.Fail("read %d of %d bytes returned at %v, its last byte was there at %v", i, r.N, took, want)
			}
			at += r.N
			e.NonTrivial(r.N > 0)
			e.Label("full read")
		}
	})
}

func init() {
	fw.Add("C12", "reads", "a read of at least one byte, or one that must fail", genRead, runRead, []fw.Run{fw.Plain(50000)})
}
