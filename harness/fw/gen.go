package fw

import (
	"fmt"
	"math/rand/v2"

	"pgregory.net/rapid"
)

// Blob describes a byte slice without holding it, so that a case stays small.
type Blob struct {
	Len  int    `json:"n"`
	Kind string `json:"k"`
	Seed uint32 `json:"s"`
}

// Bytes builds the slice the blob describes.
func (b Blob) Bytes() []byte {
	out := make([]byte, b.Len)
	r := rand.New(rand.NewPCG(uint64(b.Seed), 99))
	switch b.Kind {
	case "zero":
	case "ff":
		for i := range out {
			out[i] = 0xff
		}
	case "text":
		const al = "the quick brown fox jumps over a lazy dog\n 0123456789"
		for i := range out {
			out[i] = al[r.IntN(len(al))]
		}
	case "runs":
		for i := 0; i < len(out); {
			v := byte(r.Uint32())
			for n := 1 + r.IntN(300); n > 0 && i < len(out); n-- {
				out[i] = v
				i++
			}
		}
	default:
		for i := range out {
			out[i] = byte(r.Uint32())
		}
	}
	return out
}

var edgeLens = []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513,
	1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535}
var hugeLens = []int{65536, 65537, 100_000, 131072, 200_003, 262143, 262144, 262145, 524288, 1 << 20, 1<<20 + 1, 1_500_000}

// DrawBlob draws a blob of at most max bytes.
func DrawBlob(t *rapid.T, label string, max int) Blob {
	var n int
	switch c := rapid.IntRange(0, 99).Draw(t, label+"-class"); {
	case c < 45:
		n = rapid.IntRange(0, 64).Draw(t, label+"-len")
	case c < 75:
		n = rapid.SampledFrom(edgeLens).Draw(t, label+"-len")
	case c < 96:
		n = rapid.IntRange(0, 20000).Draw(t, label+"-len")
	default:
		n = rapid.SampledFrom(hugeLens).Draw(t, label+"-len")
	}
	if n > max {
		n = max
	}
	return Blob{
		Len:  n,
		Kind: rapid.SampledFrom([]string{"rand", "zero", "text", "runs", "ff"}).Draw(t, label+"-kind"),
		Seed: uint32(rapid.IntRange(0, 1<<20).Draw(t, label+"-seed")),
	}
}

// SizeLabel classes a size.
func SizeLabel(n int) string {
	switch {
	case n == 0:
		return "size 0"
	case n <= 16:
		return "size 1-16"
	case n <= 256:
		return "size 17-256"
	case n <= 4096:
		return "size 257-4096"
	case n <= 65535:
		return "size 4097-65535"
	}
	return "size >65535"
}

// Ops draws a list of at least min elements, mostly 1 to about 40, in a shape
// that rapid can shrink by dropping runs and single elements.
func Ops[T any](t *rapid.T, label string, min, max int, gen *rapid.Generator[T]) []T {
	if max <= 8 || rapid.IntRange(0, 3).Draw(t, label+"-shape") == 0 {
		return rapid.SliceOfN(gen, min, max).Draw(t, label)
	}
	inner := rapid.SliceOfN(gen, 0, 16)
	var out []T
	for _, s := range rapid.SliceOfN(inner, 1, 1+max/8).Draw(t, label) {
		out = append(out, s...)
	}
	if len(out) > max {
		out = out[:max]
	}
	for i := 0; len(out) < min; i++ {
		out = append(out, gen.Draw(t, fmt.Sprintf("%s-fill%d", label, i)))
	}
	return out
}

// Pct draws true in about p of 100 cases, shrinking to false.
func Pct(t *rapid.T, label string, p int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-p
}
