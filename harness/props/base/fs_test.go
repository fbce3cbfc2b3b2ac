package base

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"axverif/fw"

	"github.com/axgrid/axutils/crypto_fs"
	"pgregory.net/rapid"
)

// A tree is a list of nodes; a node's parent is an earlier directory (or the root).
type node struct {
	Parent int     `json:"p"` // index into Nodes, -1 for the root
	Name   string  `json:"n"`
	Dir    bool    `json:"d,omitempty"`
	Data   fw.Blob `json:"b"`
	Link   int     `json:"l,omitempty"` // a symbolic link to the file with this index, plus one
}
type fsCase struct {
	Nodes   []node `json:"nodes"`
	Mode    string `json:"mode"` // abs | rel | relroot | files | mixed
	KeyLen  int    `json:"kl"`   // 0: not encrypted
	Key     uint32 `json:"k"`
	BufSize int    `json:"buf"`
	Old     int    `json:"old"`             // size of an archive that is there before, 0: none
	Par     int    `json:"par,omitempty"`   // so many goroutines read the archive at once
	Again   int    `json:"again,omitempty"` // then so many files change, one comes, and the tree is added again
	// C21
	Op  string `json:"op,omitempty"`
	Pos int    `json:"pos,omitempty"`
	Bit int    `json:"bit,omitempty"`
}

var names = []string{"a", "b", "file.txt", "UPPER", "with space", "юникод", ".hidden", "x.tar.gz", "c-d_e", "0", "long-name-long-name-long-name-long-name-long-name-long-name", "name\nline", "[glob*]", "a.b.c", "日本", "Z"}

func genTree(t *rapid.T, maxBlob int) []node {
	n := rapid.IntRange(0, 14).Draw(t, "nodes")
	var out []node
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		var dirs []int
		dirs = append(dirs, -1)
		for j, x := range out {
			if x.Dir {
				dirs = append(dirs, j)
			}
		}
		nd := node{Parent: rapid.SampledFrom(dirs).Draw(t, "parent"), Dir: rapid.IntRange(0, 9).Draw(t, "dir") >= 7,
			Name: rapid.SampledFrom(names).Draw(t, "name")}
		k := fmt.Sprintf("%d/%s", nd.Parent, nd.Name)
		if used[k] {
			continue
		}
		used[k] = true
		if !nd.Dir {
			var files []int
			for j, x := range out {
				if !x.Dir && x.Link == 0 {
					files = append(files, j)
				}
			}
			if len(files) > 0 && fw.Pct(t, "link", 7) {
				nd.Link = 1 + rapid.SampledFrom(files).Draw(t, "to")
			} else {
				nd.Data = fw.DrawBlob(t, "data", maxBlob)
			}
		}
		out = append(out, nd)
	}
	return out
}

func genFS(t *rapid.T) fsCase {
	return fsCase{
		Nodes:   genTree(t, 300000),
		Mode:    rapid.SampledFrom([]string{"abs", "rel", "relroot", "dot", "unclean", "files", "mixed", "parts"}).Draw(t, "mode"),
		KeyLen:  rapid.SampledFrom([]int{0, 16, 24, 32}).Draw(t, "kl"),
		Key:     uint32(rapid.IntRange(0, 100).Draw(t, "key")),
		BufSize: rapid.SampledFrom([]int{1, 3, 512, 4096, 100000}).Draw(t, "buf"),
		Old:     rapid.SampledFrom([]int{0, 0, 10, 500000}).Draw(t, "old"),
		Again:   rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "again"),
	}
}

// world is a scratch folder with the tree of a case.
type world struct {
	dir   string
	tree  string // absolute path of the tree's root
	paths []string
	data  [][]byte
	c     fsCase
	key   []byte
	// what the archive must hold: path -> node index, -1 for the root
	want map[string]int
}

func newWorld(c fsCase) *world {
	dir, err := os.MkdirTemp("", "axv-fs-")
	if err != nil {
		panic(err)
	}
	w := &world{dir: dir, tree: filepath.Join(dir, "tree-root"), c: c, want: map[string]int{}}
	if err := os.Mkdir(w.tree, 0o755); err != nil {
		panic(err)
	}
	for _, n := range c.Nodes {
		p := w.tree
		if n.Parent >= 0 {
			p = w.paths[n.Parent]
		}
		p = filepath.Join(p, n.Name)
		w.paths = append(w.paths, p)
		var b []byte
		if n.Dir {
			err = os.Mkdir(p, 0o755)
		} else if n.Link > 0 {
			b = w.data[n.Link-1]
			err = os.Symlink(w.paths[n.Link-1], p)
		} else {
			b = n.Data.Bytes()
			err = os.WriteFile(p, b, 0o644)
		}
		if err != nil {
			panic(err)
		}
		w.data = append(w.data, b)
	}
	if c.KeyLen > 0 {
		w.key = keyBytes(c.KeyLen, c.Key)
	}
	return w
}

func (w *world) close() {
	os.Chdir("/")
	if strings.Contains(w.dir, "axv-fs-") {
		os.RemoveAll(w.dir)
	}
}

// closed checks that no file of the case is open.
func (w *world) closed(e *fw.Env, when string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, w.dir+"/") {
			e.Fail("after %s the file %s is still open", when, strings.TrimPrefix(to, w.dir))
		}
	}
}

func (w *world) archive() string { return filepath.Join(w.dir, "out.bin") }

// fill adds the tree to the builder in the case's mode and notes what must be there.
func (w *world) fill(b *crypto_fs.CryptoFSBuilder) {
	add := func(prefix string) {
		w.want[prefix] = -1
		for i, p := range w.paths {
			rel, _ := filepath.Rel(w.tree, p)
			w.want[filepath.Join(prefix, rel)] = i
		}
	}
	switch w.c.Mode {
	case "rel":
		os.Chdir(w.dir)
		b.AddFolder("tree-root")
		add("tree-root")
	case "dot":
		os.Chdir(w.dir)
		b.WithRootDir("./")
		b.AddFolder("tree-root/")
		add("tree-root")
	case "unclean":
		b.AddFolder(w.dir + "//./no/../tree-root/")
		add(w.tree)
	case "relroot":
		os.Chdir("/")
		b.WithRootDir(w.dir)
		b.AddFolder("tree-root")
		add(w.tree)
	case "files":
		for i, p := range w.paths {
			if !w.c.Nodes[i].Dir {
				b.AddFile(p)
				w.want[p] = i
			}
		}
	case "parts": // one by one, what lies in the root
		for i, p := range w.paths {
			w.want[p] = i
			if w.c.Nodes[i].Parent == -1 && w.c.Nodes[i].Dir {
				b.AddFolder(p)
			} else if w.c.Nodes[i].Parent == -1 {
				b.AddFile(p)
			}
		}
	case "mixed":
		b.AddFolder(w.tree)
		add(w.tree)
		extra := filepath.Join(w.dir, "extra.dat")
		os.WriteFile(extra, []byte("extra file"), 0o644)
		b.AddFile(extra)
		w.want[extra] = len(w.paths)
		w.paths = append(w.paths, extra)
		w.data = append(w.data, []byte("extra file"))
		w.c.Nodes = append(w.c.Nodes, node{Parent: -2, Name: "extra.dat"})
	default:
		b.AddFolder(w.tree)
		add(w.tree)
	}
}

// change writes new content into n files of the tree, and adds one to it.
func (w *world) change(n int) {
	for i, x := range w.c.Nodes {
		if !x.Dir && x.Link == 0 && x.Parent > -2 && n > 0 {
			n--
			b := append([]byte("changed "), w.data[i][:len(w.data[i])/2]...)
			if err := os.WriteFile(w.paths[i], b, 0o644); err != nil {
				panic(err)
			}
			w.data[i] = b
			for j, y := range w.c.Nodes {
				if y.Link == i+1 {
					w.data[j] = b
				}
			}
		}
	}
	if w.c.Mode != "mixed" { // which has appended its extra file
		p, b := filepath.Join(w.tree, "came-later"), []byte("this file came later")
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		w.paths, w.data = append(w.paths, p), append(w.data, b)
		w.c.Nodes = append(w.c.Nodes, node{Parent: -1, Name: "came-later"})
	}
}

func (w *world) isDir(i int) bool     { return i < 0 || w.c.Nodes[i].Dir }
func (w *world) base(p string) string { return filepath.Base(p) }
func (w *world) children(p string) (out []string) {
	for q := range w.want {
		if q != p && filepath.Dir(q) == p {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return
}

func readBounded(r io.Reader, limit, buf int) ([]byte, error) {
	var out []byte
	b := make([]byte, buf)
	idle := 0
	for {
		n, err := r.Read(b)
		out = append(out, b[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			if idle++; idle > 100 {
				return out, fmt.Errorf("no progress")
			}
		} else {
			idle = 0
		}
		if len(out) > limit {
			return out, fmt.Errorf("the file never ends: %d bytes read", len(out))
		}
	}
}

// scribble destroys what was read: it is the reader's own.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

// verify compares the opened archive with the tree.
func (w *world) verify(e *fw.Env, cfs crypto_fs.CryptoFS) {
	var keys []string
	for p := range w.want {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		i := w.want[p]
		f, err := cfs.Open(p)
		if err != nil {
			e.Fail("Open(%q): %v", p, err)
		}
		st, err := f.Stat()
		if err != nil {
			e.Fail("Stat of %q: %v", p, err)
		}
		if st.IsDir() != w.isDir(i) || st.Mode().IsDir() != w.isDir(i) {
			e.Fail("%q: IsDir %v, mode %v; directory: %v", p, st.IsDir(), st.Mode(), w.isDir(i))
		}
		if st.Name() != w.base(p) {
			e.Fail("%q: the name in Stat is %q, want %q", p, st.Name(), w.base(p))
		}
		if pn := fw.Call(func() { st.ModTime(); st.Sys() }); pn != nil {
			e.Fail("%q: ModTime or Sys of its info panics: %v", p, pn)
		}
		if !w.isDir(i) {
			want := w.data[i]
			if st.Size() != int64(len(want)) {
				e.Fail("%q: size %d, want %d", p, st.Size(), len(want))
			}
			got, err := readBounded(f, len(want)+10, w.c.BufSize)
			if err != nil || !bytes.Equal(got, want) {
				e.Fail("%q: reading %d bytes by %d gives %d bytes, %v", p, len(want), w.c.BufSize, len(got), err)
			}
			scribble(got)
			// two handles at once do not disturb each other
			f1, e1 := cfs.Open(p)
			f2, e2 := cfs.Open(p)
			if e1 != nil || e2 != nil {
				e.Fail("Open(%q) again: %v %v", p, e1, e2)
			}
			half := make([]byte, len(want)/2)
			if _, err := io.ReadFull(f1, half); err != nil {
				e.Fail("%q: reading the first half: %v", p, err)
			}
			g2, err2 := readBounded(f2, len(want)+10, 4096)
			g1, err1 := readBounded(f1, len(want)+10, 4096)
			if err1 != nil || err2 != nil || !bytes.Equal(append(half, g1...), want) || !bytes.Equal(g2, want) {
				e.Fail("%q: two open handles disturb each other (%d and %d bytes, %v %v)", p, len(half)+len(g1), len(g2), err1, err2)
			}
			f1.Close()
			f2.Close()
			if _, err := cfs.ReadDir(p); err == nil {
				e.Fail("ReadDir of the file %q succeeds", p)
			}
			e.Label(fw.SizeLabel(len(want)))
		} else {
			ents, err := cfs.ReadDir(p)
			if err != nil {
				e.Fail("ReadDir(%q): %v", p, err)
			}
			kids := w.children(p)
			var got, want []string
			for _, x := range ents {
				got = append(got, x.Name())
			}
			for _, k := range kids {
				want = append(want, w.base(k))
			}
			sort.Strings(got)
			sort.Strings(want)
			if fmt.Sprint(got) != fmt.Sprint(want) || len(got) != len(want) {
				e.Fail("ReadDir(%q) lists %q, want %q", p, got, want)
			}
			for _, x := range ents {
				k := filepath.Join(p, x.Name())
				j, ok := w.want[k]
				if !ok {
					e.Fail("ReadDir(%q) lists the unknown %q", p, x.Name())
				}
				if x.IsDir() != w.isDir(j) || x.Type().IsDir() != w.isDir(j) || x.Type().IsRegular() == w.isDir(j) {
					e.Fail("ReadDir(%q): entry %q has IsDir %v and type %v; directory: %v", p, x.Name(), x.IsDir(), x.Type(), w.isDir(j))
				}
				inf, err := x.Info()
				if err != nil || inf.Name() != x.Name() || inf.IsDir() != x.IsDir() {
					e.Fail("ReadDir(%q): the info of entry %q disagrees with it: %v", p, x.Name(), err)
				}
				if !w.isDir(j) && inf.Size() != int64(len(w.data[j])) {
					e.Fail("ReadDir(%q): the info of %q says %d bytes, want %d", p, x.Name(), inf.Size(), len(w.data[j]))
				}
			}
			clear(ents) // the listing is the caller's
		}
		f.Close()
		missing := filepath.Join(p, "no-such-entry")
		if _, err := cfs.Open(missing); !errors.Is(err, fs.ErrNotExist) {
			e.Fail("Open of the missing %q: %v", missing, err)
		}
		if _, err := cfs.ReadDir(missing); !errors.Is(err, fs.ErrNotExist) {
			e.Fail("ReadDir of the missing %q: %v", missing, err)
		}
	}
	// a walk from the root finds exactly the tree
	if w.c.Mode != "files" && w.c.Mode != "parts" {
		root := w.tree
		if w.c.Mode == "rel" || w.c.Mode == "dot" {
			root = "tree-root"
		}
		var got []string
		err := fs.WalkDir(cfs, root, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			got = append(got, p)
			if len(got) > 1000 {
				return errors.New("the walk does not end")
			}
			i, ok := w.want[p]
			if !ok {
				return fmt.Errorf("the walk visits the unknown %q", p)
			}
			if d.IsDir() != w.isDir(i) {
				return fmt.Errorf("the walk says directory=%v for %q", d.IsDir(), p)
			}
			return nil
		})
		if err != nil {
			e.Fail("walking %q: %v", root, err)
		}
		var want []string
		for _, p := range keys {
			if p == root || strings.HasPrefix(p, root+"/") {
				want = append(want, p)
			}
		}
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			e.Fail("walking %q visits %q, want %q", root, got, want)
		}
	}
	// fs helpers on the same archive
	for _, p := range keys {
		if i := w.want[p]; !w.isDir(i) && len(w.data[i]) <= 70000 {
			f, err := cfs.Open(p)
			if err != nil {
				e.Fail("Open(%q): %v", p, err)
			}
			got, err := io.ReadAll(io.LimitReader(f, int64(len(w.data[i])+100)))
			if err != nil || !bytes.Equal(got, w.data[i]) {
				e.Fail("%q: io.ReadAll gives %d bytes, want %d, %v", p, len(got), len(w.data[i]), err)
			}
			scribble(got)
			if f, err = cfs.Open(p); err != nil {
				e.Fail("Open(%q): %v", p, err)
			}
			var buf bytes.Buffer
			if _, err = io.Copy(&buf, f); err != nil || !bytes.Equal(buf.Bytes(), w.data[i]) { // uses WriteTo where there is one
				e.Fail("%q: io.Copy gives %d bytes, want %d, %v", p, buf.Len(), len(w.data[i]), err)
			}
			scribble(buf.Bytes())
			if r, ok := f.(io.ReaderAt); ok && len(w.data[i]) > 2 {
				half := make([]byte, len(w.data[i])/2)
				if n, err := r.ReadAt(half, 2); n < len(half) && len(half)+2 <= len(w.data[i]) || !bytes.Equal(half[:n], w.data[i][2:2+n]) {
					e.Fail("%q: ReadAt gives %d bytes, %v", p, n, err)
				}
			}
			if r, ok := f.(io.Seeker); ok {
				if n, err := r.Seek(0, io.SeekStart); n == 0 && err == nil {
					if again, err := io.ReadAll(io.LimitReader(f, int64(len(w.data[i])+100))); err != nil || !bytes.Equal(again, w.data[i]) {
						e.Fail("%q: after Seek to the beginning there are %d bytes, %v", p, len(again), err)
					}
				}
			}
			got, err = fs.ReadFile(cfs, p)
			if err != nil || !bytes.Equal(got, w.data[i]) {
				e.Fail("%q: fs.ReadFile gives %d bytes, want %d, %v", p, len(got), len(w.data[i]), err)
			}
			scribble(got)
		}
	}
}

func (w *world) keyed(b *crypto_fs.CryptoFSBuilder) *crypto_fs.CryptoFSBuilder {
	if w.key != nil {
		b.WithAES(w.key)
	}
	return b
}

func (w *world) save(e *fw.Env, b *crypto_fs.CryptoFSBuilder) {
	w.keyed(b)
	w.closed(e, "adding")
	if err := b.WithSavePath(w.archive()).Save(); err != nil {
		e.Fail("Save: %v", err)
	}
	w.closed(e, "Save")
}

func runFS(e *fw.Env, c fsCase) {
	w := newWorld(c)
	defer w.close()
	if c.Old > 0 {
		os.WriteFile(w.archive(), make([]byte, c.Old), 0o644)
	}
	b := crypto_fs.NewCryptoFSBuilder()
	w.fill(b)
	if c.Again > 0 && c.Mode != "mixed" {
		if c.Again > 1 {
			w.save(e, b) // which leaves the builder as it is
		}
		w.change(c.Again)
		w.fill(b)
		e.Label("added again after a change")
	}
	w.save(e, b)
	// the archive is self-contained
	os.Chdir("/")
	if strings.HasPrefix(w.tree, os.TempDir()) {
		os.RemoveAll(w.tree)
	}
	cfs, err := crypto_fs.CryptoFSFromFile(w.archive(), w.key)
	if err != nil {
		e.Fail("opening the archive: %v", err)
	}
	w.closed(e, "opening the archive")
	files := 0
	for _, i := range w.want {
		if !w.isDir(i) {
			files++
		}
	}
	e.NonTrivial(files > 0 && len(w.want) > 1)
	e.Label(c.Mode)
	e.LabelIf(c.KeyLen > 0, "encrypted")
	for _, n := range c.Nodes {
		e.LabelIf(n.Link > 0, "symbolic link to a file")
	}
	w.verify(e, cfs)
	if c.Par > 0 {
		var wg sync.WaitGroup
		for range c.Par {
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.Main(func() { w.verify(e, cfs) })
			}()
		}
		wg.Wait()
	}
	w.verify(e, cfs) // reading changes nothing
}

// genFSPar makes archives that several goroutines read at once.
func genFSPar(t *rapid.T) fsCase {
	c := genFS(t)
	c.Par = rapid.IntRange(2, 4).Draw(t, "par")
	return c
}

// ---------------------------------------------------------------------------
// C21 confidentiality and integrity

func genFSSecret(t *rapid.T) fsCase {
	c := fsCase{
		Nodes:   genTree(t, 20000),
		Mode:    rapid.SampledFrom([]string{"abs", "files", "mixed"}).Draw(t, "mode"),
		KeyLen:  rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "kl"),
		Key:     uint32(rapid.IntRange(0, 100).Draw(t, "key")),
		BufSize: 512,
		Op:      rapid.SampledFrom([]string{"leak", "flip", "truncate", "wrongkey", "nokey", "append", "zero", "short", "plainkey"}).Draw(t, "op"),
		Pos:     rapid.IntRange(0, 9999).Draw(t, "pos"),
		Bit:     rapid.IntRange(0, 7).Draw(t, "bit"),
	}
	return c
}

func runFSSecret(e *fw.Env, c fsCase) {
	w := newWorld(c)
	defer w.close()
	b := crypto_fs.NewCryptoFSBuilder()
	w.fill(b)
	plain := c.Op == "plainkey"
	key := w.key
	if plain {
		w.key = nil
	}
	w.save(e, b)
	arc, err := os.ReadFile(w.archive())
	if err != nil {
		e.Fail("no archive after Save: %v", err)
	}
	orig := append([]byte{}, arc...)
	e.Label(c.Op)
	key2 := key
	at := c.Pos * len(arc) / 10000
	switch c.Op {
	case "leak":
		e.NonTrivial(len(w.want) > 1)
		seen := map[[12]byte]bool{}
		for o := 0; o+12 <= len(arc); o++ {
			seen[[12]byte(arc[o:])] = true
		}
		for p, i := range w.want {
			if len(w.base(p)) >= 8 && bytes.Contains(arc, []byte(w.base(p))) {
				e.Fail("the encrypted archive shows the name %q", w.base(p))
			}
			if !w.isDir(i) {
				d := w.data[i]
				for o := 0; o+12 <= len(d); o += 12 {
					if seen[[12]byte(d[o:])] {
						e.Fail("the encrypted archive shows 12 bytes of the content of %q", p)
					}
				}
			}
		}
		w2 := filepath.Join(w.dir, "second.bin")
		if err := b.WithSavePath(w2).Save(); err != nil {
			e.Fail("second Save: %v", err)
		}
		arc2, _ := os.ReadFile(w2)
		if len(arc2) > 28 && bytes.Equal(arc2, arc) {
			e.Fail("two saves of one tree give the same encrypted bytes")
		}
		return
	case "flip":
		arc[at] ^= 1 << c.Bit
	case "truncate":
		arc = arc[:at]
	case "short":
		arc = arc[:min(c.Pos%29, len(arc))]
	case "append":
		arc = append(arc, byte(c.Pos), byte(c.Bit))
	case "zero":
		n := 1 + c.Pos%40
		for i := at; i < len(arc) && i < at+n; i++ {
			arc[i] = 0
		}
	case "wrongkey":
		key2 = append([]byte{}, key...)
		key2[c.Pos%len(key2)] ^= 1 << c.Bit
	case "nokey":
		key2 = nil
	}
	if c.Op != "wrongkey" && c.Op != "nokey" && !plain && bytes.Equal(arc, orig) {
		return
	}
	e.NonTrivial(true)
	os.WriteFile(w.archive(), arc, 0o644)
	var cfs crypto_fs.CryptoFS
	if p := fw.Call(func() { cfs, err = crypto_fs.CryptoFSFromFile(w.archive(), key2) }); p != nil {
		e.Fail("opening an archive of %d bytes (%s) panics: %v", len(arc), c.Op, p)
	}
	if err == nil {
		e.Fail("an archive changed by %q (%d bytes) opens: %v", c.Op, len(arc), cfs != nil)
	}
}

// ---------------------------------------------------------------------------
// C22 failures

type fsFailCase struct {
	fsCase
	Kind string  `json:"kind"`
	Junk fw.Blob `json:"junk"`
}

func genFSFail(t *rapid.T) fsFailCase {
	c := fsFailCase{
		fsCase: fsCase{
			Nodes:   genTree(t, 9000),
			Mode:    rapid.SampledFrom([]string{"abs", "files", "mixed"}).Draw(t, "mode"),
			KeyLen:  rapid.SampledFrom([]int{0, 16, 32}).Draw(t, "kl"),
			Key:     uint32(rapid.IntRange(0, 100).Draw(t, "key")),
			BufSize: 512,
			Pos:     rapid.IntRange(0, 9999).Draw(t, "pos"),
			Bit:     rapid.IntRange(0, 7).Draw(t, "bit"),
		},
		Kind: rapid.SampledFrom([]string{"badkey", "nodir", "isdir", "full", "missingfile", "missingfolder", "dangling", "folderasfile", "junk", "trunc", "mutate", "noarchive", "twice"}).Draw(t, "kind"),
	}
	c.Junk = fw.DrawBlob(t, "junk", 400)
	return c
}

func runFSFail(e *fw.Env, c fsFailCase) {
	w := newWorld(c.fsCase)
	defer w.close()
	b := crypto_fs.NewCryptoFSBuilder()
	e.Label(c.Kind)
	e.NonTrivial(true)
	open := func(p string, key []byte) (cfs crypto_fs.CryptoFS, err error) {
		if pn := fw.Call(func() { cfs, err = crypto_fs.CryptoFSFromFile(p, key) }); pn != nil {
			e.Fail("opening an archive (%s) panics: %v", c.Kind, pn)
		}
		w.closed(e, "opening an archive ("+c.Kind+")")
		return
	}
	saveErr := func(b *crypto_fs.CryptoFSBuilder) (err error) {
		if pn := fw.Call(func() { err = b.Save() }); pn != nil {
			e.Fail("Save (%s) panics: %v", c.Kind, pn)
		}
		w.closed(e, "Save ("+c.Kind+")")
		return
	}
	switch c.Kind {
	case "badkey":
		w.fill(b)
		w.save(e, b)
		before, _ := os.ReadFile(w.archive())
		bad := []int{0, 1, 15, 17, 31, 33}[c.Pos%6]
		if err := saveErr(b.WithAES(keyBytes(bad, 1))); err == nil {
			e.Fail("Save with a %d-byte key succeeds", bad)
		}
		after, err := os.ReadFile(w.archive())
		if err != nil || !bytes.Equal(before, after) {
			e.Fail("a Save that failed for its %d-byte key damaged the archive that was there (%d bytes, now %d)", bad, len(before), len(after))
		}
		if _, err := open(w.archive(), keyBytes(bad, 1)); err == nil {
			e.Fail("opening with a %d-byte key succeeds", bad)
		}
	case "nodir":
		w.fill(b)
		if err := saveErr(b.WithSavePath(filepath.Join(w.dir, "no", "such", "dir", "x.bin"))); err == nil {
			e.Fail("Save into a missing folder reports success")
		}
	case "isdir":
		w.fill(b)
		if err := saveErr(b.WithSavePath(w.tree)); err == nil {
			e.Fail("Save onto a folder reports success")
		}
	case "full":
		w.fill(b)
		if w.key != nil {
			b.WithAES(w.key)
		}
		if err := saveErr(b.WithSavePath("/dev/full")); err == nil {
			e.Fail("Save onto a full device reports success")
		}
	case "missingfile", "missingfolder":
		if pn := fw.Call(func() {
			miss := filepath.Join(w.dir, "missing", "thing")
			if c.Pos%2 == 0 {
				miss = filepath.Join(w.dir, "missing")
			}
			if c.Kind == "missingfile" {
				b.AddFile(miss)
			} else {
				b.AddFolder(miss)
			}
		}); pn != nil {
			e.Fail("adding a missing path (%s) panics: %v", c.Kind, pn)
		}
		w.fill(b)
		w.save(e, b)
		cfs, err := open(w.archive(), w.key)
		if err != nil {
			e.Fail("the archive does not open: %v", err)
		}
		w.verify(e, cfs)
		if _, err := cfs.Open(filepath.Join(w.dir, "missing")); !errors.Is(err, fs.ErrNotExist) {
			e.Fail("the missing path is in the archive: %v", err)
		}
	case "dangling":
		// what cannot be read does not get into the archive with some other content
		sub := filepath.Join(w.dir, "links")
		os.Mkdir(sub, 0o755)
		link := filepath.Join(sub, "to-nowhere")
		if err := os.Symlink(filepath.Join(w.dir, "nowhere"), link); err != nil {
			e.Label("no links")
			break
		}
		if pn := fw.Call(func() {
			b.AddFolder(sub)
			if c.Pos%2 == 0 {
				b.AddFile(link)
			}
		}); pn != nil {
			e.Fail("adding a link to nowhere panics: %v", pn)
		}
		w.fill(b)
		if err := saveErr(w.keyed(b).WithSavePath(w.archive())); err != nil {
			break // it may be reported
		}
		cfs, err := open(w.archive(), w.key)
		if err != nil {
			e.Fail("the archive does not open: %v", err)
		}
		w.verify(e, cfs)
		if data, err := fs.ReadFile(cfs, link); err == nil {
			e.Fail("a file that cannot be read is in the archive with %d bytes", len(data))
		}
	case "folderasfile":
		sub := filepath.Join(w.dir, "a-folder")
		os.Mkdir(sub, 0o755)
		for _, p := range []string{w.tree, sub} {
			if c.Pos%2 == 0 {
				p += "/"
			}
			if pn := fw.Call(func() { b.AddFile(p) }); pn != nil {
				e.Fail("adding a folder as a file panics: %v", pn)
			}
		}
		w.fill(b)
		if pn := fw.Call(func() { b.AddFile(w.tree) }); pn != nil {
			e.Fail("adding a folder as a file panics: %v", pn)
		}
		w.save(e, b)
		cfs, err := open(w.archive(), w.key)
		if err != nil {
			e.Fail("the archive does not open: %v", err)
		}
		w.verify(e, cfs)
		if f, err := cfs.Open(sub); err == nil {
			if st, err := f.Stat(); err == nil && !st.IsDir() {
				e.Fail("a folder added as a file is in the archive as a file")
			}
		}
	case "junk":
		os.WriteFile(w.archive(), c.Junk.Bytes(), 0o644)
		if _, err := open(w.archive(), w.key); err == nil {
			e.Fail("%d arbitrary bytes open as an archive", c.Junk.Len)
		}
	case "trunc":
		w.fill(b)
		w.save(e, b)
		arc, _ := os.ReadFile(w.archive())
		arc = arc[:c.Pos*len(arc)/10000]
		os.WriteFile(w.archive(), arc, 0o644)
		if _, err := open(w.archive(), w.key); err == nil {
			e.Fail("an archive cut to %d bytes opens", len(arc))
		}
	case "mutate":
		w.fill(b)
		w.save(e, b)
		arc, _ := os.ReadFile(w.archive())
		arc[c.Pos*len(arc)/10000] ^= 1 << c.Bit
		os.WriteFile(w.archive(), arc, 0o644)
		cfs, err := open(w.archive(), w.key)
		if w.key != nil && err == nil {
			e.Fail("an encrypted archive with a flipped bit opens")
		}
		if err == nil {
			// whatever it holds now, using it must not panic
			if pn := fw.Call(func() {
				for p := range w.want {
					if f, err := cfs.Open(p); err == nil {
						f.Stat()
						readBounded(f, 1<<20, 4096)
					}
					cfs.ReadDir(p)
				}
			}); pn != nil {
				e.Fail("using a damaged archive panics: %v", pn)
			}
		}
	case "noarchive":
		if _, err := open(filepath.Join(w.dir, "absent.bin"), w.key); err == nil {
			e.Fail("a missing archive opens")
		}
	case "twice":
		// saving the same builder again, elsewhere, gives the same content
		w.fill(b)
		w.save(e, b)
		second := filepath.Join(w.dir, "second.bin")
		if err := saveErr(b.WithSavePath(second)); err != nil {
			e.Fail("second Save: %v", err)
		}
		for _, p := range []string{w.archive(), second} {
			cfs, err := open(p, w.key)
			if err != nil {
				e.Fail("opening %s: %v", path.Base(p), err)
			}
			w.verify(e, cfs)
		}
	}
}

func init() {
	fw.Add("C20", "trees", "the archive holds at least one file and two entries", genFS, runFS, []fw.Run{fw.Plain(6000)})
	fw.Add("C20", "shared", "the archive holds at least one file and two entries", genFSPar, runFS, []fw.Run{fw.Plain(500), fw.Race(300)})
	fw.Add("C21", "secrets", "the archive was changed, the key is wrong, or the tree has entries to leak", genFSSecret, runFSSecret, []fw.Run{fw.Plain(8000)})
	fw.Add("C22", "failures", "every case (a fault is injected in each)", genFSFail, runFSFail, []fw.Run{fw.Plain(8000)})
}
