package main

import (
	"bytes"
	"compress/bzip2"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/pkg/opencorpora"
	"github.com/amarin/gomorphy/verif/pbt"
	"github.com/amarin/gomorphy/verif/tree"
	"github.com/amarin/gomorphy/verif/web"
	"github.com/amarin/gomorphy/verif/xio"

	"pgregory.net/rapid"
)

// pack compresses with the bzip2 tool: an encoder that is no part of what is tested.
func pack(data []byte, level int) []byte {
	cmd := exec.Command("bzip2", "-z", "-c", "-"+strconv.Itoa(level))
	cmd.Stdin = bytes.NewReader(data)
	var out bytes.Buffer
	cmd.Stdout = &out
	pbt.Must(cmd.Run())
	return out.Bytes()
}

var ignoreLimit sync.Once

// withDisk runs f on a disk where no file can get longer than n bytes.
func withDisk(n int, f func()) {
	ignoreLimit.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	const fsize = 1
	var old syscall.Rlimit
	pbt.Must(syscall.Getrlimit(fsize, &old))
	low := old
	low.Cur = uint64(n)
	pbt.Must(syscall.Setrlimit(fsize, &low))
	defer func() { pbt.Must(syscall.Setrlimit(fsize, &old)) }()
	f()
}

// describe names what is under a path.
func describe(data []byte, ok bool) string {
	if !ok {
		return "missing"
	}
	return fmt.Sprintf("%d bytes", len(data))
}

// ---------------------------------------------------------------- O03

// payload is something packed.
type payload struct {
	Size, Pattern, Level int
	Twice                bool // two streams one after the other
	Prev                 int  // length of the dictionary unpacked before, negative: none
	At                   []int
}

var (
	packed   = map[string][]byte{}
	contents = map[string][]byte{}
)

func (p payload) content() []byte {
	k := fmt.Sprint(p.Size, p.Pattern)
	if c, ok := contents[k]; ok {
		return c
	}
	r := rand.New(rand.NewSource(int64(p.Pattern)))
	b := make([]byte, p.Size)
	for i := range b {
		switch p.Pattern % 4 {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = "<g v=\"NOUN\"/>\n"[i%14]
		case 2:
			b[i] = byte('a' + r.Intn(3))
		case 3:
			b[i] = 0
		}
	}
	contents[k] = b
	return b
}

func (p payload) archive() []byte {
	k := fmt.Sprint(p.Size, p.Pattern, p.Level, p.Twice)
	if c, ok := packed[k]; ok {
		return c
	}
	c := p.content()
	var res []byte
	if p.Twice {
		half := len(c) / 2
		res = append(pack(c[:half], p.Level), pack(c[half:], 9)...)
	} else {
		res = pack(c, p.Level)
	}
	if len(packed) > 200 {
		packed, contents = map[string][]byte{}, map[string][]byte{}
	}
	packed[k] = res
	return res
}

// unpack unpacks archive in dir and compares with what has to come of it; want nil: an error.
func unpack(dir string, archive, want []byte, prev int, what string) error {
	out := filepath.Join(dir, unpackedName)
	writeFile(filepath.Join(dir, archiveName), archive)
	if prev < 0 {
		pbt.Must(os.RemoveAll(out))
	} else {
		writeFile(out, bytes.Repeat([]byte("earlier\n"), prev/8+1)[:prev])
	}
	return unpackAs(dir, want, what)
}

func unpackAs(dir string, want []byte, what string) error {
	before := tree.Snapshot(dir)
	err := opencorpora.NewLoader(dir).UnpackUpdate()
	after := tree.Snapshot(dir)
	if d := tree.Diff(before, after, unpackedName); len(d) > 0 {
		return pbt.Errf("%s: %s", what, strings.Join(d, ", "))
	}
	if want == nil {
		if err == nil {
			return pbt.Errf("%s: unpacked without error", what)
		}
		if now, ok := after[unpackedName]; ok && now != before[unpackedName] {
			return pbt.Errf("%s: reported as %q, but the unpacked dictionary is now a %s", what, err, now)
		}
		return nil
	}
	if err != nil {
		return pbt.Errf("%s: %v", what, err)
	}
	got, ok := readIf(filepath.Join(dir, unpackedName))
	if !ok || !bytes.Equal(got, want) {
		return pbt.Errf("%s: unpacked to %s, differing at byte %d from the %d bytes packed", what, describe(got, ok), firstDiff(got, want), len(want))
	}
	return nil
}

// reference is what a damaged archive gives by the library's decoder, nil if it is refused.
func reference(archive []byte) []byte {
	data, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(archive)))
	if err != nil {
		return nil
	}
	if data == nil {
		data = []byte{}
	}
	return data
}

func genPayload(t *rapid.T) payload {
	return payload{
		Size:    rapid.SampledFrom([]int{0, 1, 2, 100, 4095, 4096, 32768, 99000, 100001, 250000}).Draw(t, "size"),
		Pattern: rapid.IntRange(0, 7).Draw(t, "pattern"),
		Level:   rapid.SampledFrom([]int{1, 1, 2, 9}).Draw(t, "level"),
		Twice:   rapid.IntRange(0, 3).Draw(t, "twice") == 0,
		Prev:    rapid.SampledFrom([]int{-1, 0, 1, 5000, 400000}).Draw(t, "previous"),
		At:      rapid.SliceOfN(rapid.IntRange(0, 1<<22), 6, 6).Draw(t, "at"),
	}
}

func o03() pbt.Property {
	return pbt.Property{
		ID:          "O03",
		Level:       "fault_enumeration",
		Rule:        "an archive of at least 100 bytes of content (whole ones), one whose damage is behind its first 4 bytes (damaged ones), a disk that fills up inside the dictionary (full disks)",
		Assumptions: []string{"archives are made with the bzip2 tool; for flipped bits, which may happen to mean nothing, the decoder of the standard library tells what is damage"},
		Shards:      8,
		Facets: []pbt.Facet{
			pbt.Rapid("whole", 1200, 20000, genPayload, func(ctx *pbt.Ctx, p payload) error {
				ctx.NonTrivialIf(p.Size >= 100)
				ctx.LabelIf(p.Twice, "two streams")
				ctx.LabelIf(p.Size > 100000 && p.Level == 1, "several blocks")
				ctx.Exec(1)
				return unpack(ctx.Scratch(), p.archive(), p.content(), p.Prev, fmt.Sprintf("archive of %d bytes", p.Size))
			}),
			pbt.Rapid("cut", 500, 9000, genPayload, func(ctx *pbt.Ctx, p payload) error {
				a := p.archive()
				first := len(a)
				if p.Twice {
					first = len(pack(p.content()[:p.Size/2], p.Level))
				}
				at := append([]int{0, 1, 3, 4, 10, 13, 14, len(a) / 2, len(a) - 11, len(a) - 5, len(a) - 1}, p.At...)
				for i, n := range at {
					if i >= len(at)-len(p.At) {
						n %= len(a)
					}
					if n < 0 || n >= len(a) || n == first {
						continue
					}
					ctx.Exec(1)
					ctx.NonTrivialIf(n > 4)
					if err := unpack(ctx.Scratch(), a[:n], nil, p.Prev, fmt.Sprintf("archive cut after %d of %d bytes", n, len(a))); err != nil {
						return err
					}
				}
				return nil
			}),
			pbt.Rapid("flipped", 500, 9000, genPayload, func(ctx *pbt.Ctx, p payload) error {
				a := p.archive()
				for i, n := range p.At {
					bad := append([]byte(nil), a...)
					if i == 0 {
						bad = append(bad, []byte("\x00more")[:1+n%5]...)
					} else {
						bad[n%len(a)] ^= 1 << (n % 8)
					}
					want := reference(bad)
					ctx.Exec(1)
					ctx.LabelIf(want == nil, "damage")
					ctx.NonTrivialIf(want == nil && (i == 0 || n%len(a) > 4))
					if err := unpack(ctx.Scratch(), bad, want, p.Prev, fmt.Sprintf("archive of %d bytes, bit %d of byte %d flipped", len(a), n%8, n%len(a))); err != nil {
						return err
					}
				}
				return nil
			}),
			pbt.Rapid("full-disk", 400, 6000, genPayload, func(ctx *pbt.Ctx, p payload) error {
				dir := ctx.Scratch()
				a := p.archive()
				for i, n := range append([]int{0, 1, p.Size - 1, p.Size, p.Size + 1, 4096, 32768}, p.At[:2]...) {
					if i >= 7 {
						n %= p.Size + 1
					}
					if n < 0 {
						continue
					}
					want := p.content()
					if n < p.Size {
						want = nil
						ctx.NonTrivialIf(n > 0)
					}
					out := filepath.Join(dir, unpackedName)
					writeFile(filepath.Join(dir, archiveName), a)
					pbt.Must(os.RemoveAll(out))
					if p.Prev >= 0 {
						writeFile(out, bytes.Repeat([]byte("earlier\n"), p.Prev/8+1)[:p.Prev])
					}
					ctx.Exec(1)
					var err error
					withDisk(n, func() {
						err = unpackAs(dir, want, fmt.Sprintf("%d bytes unpacked on a disk full after %d", p.Size, n))
					})
					if err != nil {
						return err
					}
				}
				return nil
			}),
			failingCalls(160, 6000, "unpack"),
			everyFailingCall("unpack"),
			pbt.Enum("large", func(tier string, yield func(payload) bool) {
				sizes := []int{1<<20 + 1, 3000000}
				if tier == "thorough" {
					sizes = append(sizes, 1<<20, 1<<22, 10000000, 40000000)
				}
				for _, n := range []int{1 << 26, 1 << 27}[:1+bti(tier == "thorough")] {
					// as long as the dictionary really is, or nearly
					if !yield(payload{Size: n + 1<<22 + 1, Pattern: 1, Level: 9, Prev: -1}) {
						return
					}
				}
				for _, n := range sizes {
					for pattern := 0; pattern < 4; pattern++ {
						for _, prev := range []int{-1, 5000} {
							if !yield(payload{Size: n, Pattern: pattern, Level: 1 + 8*(pattern%2), Twice: pattern == 2, Prev: prev}) {
								return
							}
						}
					}
				}
			}, func(ctx *pbt.Ctx, p payload) error {
				dir, a, c := ctx.Scratch(), p.archive(), p.content()
				ctx.NonTrivial()
				ctx.Label("%d bytes", p.Size)
				ctx.Exec(1)
				if err := unpack(dir, a, c, p.Prev, fmt.Sprintf("archive of %d bytes", p.Size)); err != nil {
					return err
				}
				if p.Size > 1<<26 {
					packed, contents = map[string][]byte{}, map[string][]byte{}
					return nil
				}
				first := len(a)
				if p.Twice {
					first = len(pack(c[:p.Size/2], p.Level))
				}
				// the last bytes are the whole content with its checksum missing
				for _, n := range []int{len(a) / 2, len(a) * 9 / 10, len(a) - 11, len(a) - 4, len(a) - 1} {
					if n == first {
						continue
					}
					ctx.Exec(1)
					if err := unpack(dir, a[:n], nil, p.Prev, fmt.Sprintf("archive of %d bytes cut after %d of %d", p.Size, n, len(a))); err != nil {
						return err
					}
				}
				for _, n := range []int{len(a) * 2 / 3, len(a) * 19 / 20, len(a) - 3} {
					bad := append([]byte(nil), a...)
					bad[n] ^= 0x10
					ctx.Exec(1)
					if err := unpack(dir, bad, reference(bad), p.Prev, fmt.Sprintf("archive of %d bytes, byte %d of %d flipped", p.Size, n, len(a))); err != nil {
						return err
					}
				}
				for _, n := range []int{p.Size / 2, p.Size - 1} {
					if p.Prev < 0 {
						pbt.Must(os.RemoveAll(filepath.Join(dir, unpackedName)))
					} else {
						writeFile(filepath.Join(dir, unpackedName), bytes.Repeat([]byte("earlier\n"), p.Prev/8+1)[:p.Prev])
					}
					writeFile(filepath.Join(dir, archiveName), a)
					ctx.Exec(1)
					var err error
					withDisk(n, func() {
						err = unpackAs(dir, nil, fmt.Sprintf("%d bytes unpacked on a disk full after %d", p.Size, n))
					})
					if err != nil {
						return err
					}
				}
				return nil
			}),
			pbt.Enum("obstacles", func(_ string, yield func(int) bool) {
				for i := 0; i < 14; i++ {
					if !yield(i) {
						return
					}
				}
			}, func(ctx *pbt.Ctx, kind int) error {
				top := ctx.Scratch()
				dir := filepath.Join(top, "data")
				p := payload{Size: 20000, Pattern: 2, Level: 9}
				archive, out := filepath.Join(dir, archiveName), filepath.Join(dir, unpackedName)
				if kind >= 2 {
					pbt.Must(os.Mkdir(dir, 0o755))
				}
				var want []byte
				what := ""
				ctx.NonTrivial()
				ctx.Exec(1)
				switch kind {
				case 0:
					what = "no data directory"
				case 1:
					what = "a file as data directory"
					writeFile(dir, []byte("x"))
				case 2, 3:
					what = "no archive"
				case 4, 5:
					what = "a directory as archive"
					pbt.Must(os.Mkdir(archive, 0o755))
				case 6:
					what = "a dangling link as archive"
					pbt.Must(os.Symlink("nowhere", archive))
				case 7:
					what = "a link to itself as archive"
					pbt.Must(os.Symlink(archive, archive))
				case 8:
					what = "an empty archive"
					writeFile(archive, nil)
				case 9, 10:
					what = "a directory in place of the dictionary"
					writeFile(archive, p.archive())
					pbt.Must(os.Mkdir(out, 0o755))
					if kind == 10 {
						writeFile(filepath.Join(out, "x"), []byte("y"))
					}
				case 11:
					what = "a dictionary in place of the archive"
					writeFile(archive, p.content())
				case 12:
					what = "a link to an archive"
					other := filepath.Join(top, "elsewhere.bz2")
					writeFile(other, p.archive())
					pbt.Must(os.Symlink(other, archive))
					want = p.content()
				case 13:
					what = "unpacked twice"
					if err := unpack(dir, p.archive(), p.content(), -1, what); err != nil {
						return err
					}
					want = p.content()
				}
				if kind == 3 || kind == 5 {
					writeFile(out, []byte("earlier"))
				}
				before := tree.Snapshot(top)
				err := opencorpora.NewLoader(dir).UnpackUpdate()
				after := tree.Snapshot(top)
				if want != nil {
					if err != nil {
						return pbt.Errf("%s: %v", what, err)
					}
					if d := tree.Diff(before, after, "data/"+unpackedName); len(d) > 0 {
						return pbt.Errf("%s: %s", what, strings.Join(d, ", "))
					}
					if got, ok := readIf(out); !ok || !bytes.Equal(got, want) {
						return pbt.Errf("%s: wrong dictionary (%s)", what, describe(got, ok))
					}
					return nil
				}
				if err == nil {
					return pbt.Errf("%s: unpacked without error", what)
				}
				if d := tree.Diff(before, after, "data"); len(d) > 0 {
					return pbt.Errf("%s: reported as %q, but %s", what, err, strings.Join(d, ", "))
				}
				return nil
			}),
		},
	}
}

// ---------------------------------------------------------------- O04

// asked is a question whether an update is required.
type asked struct {
	Local  int // what is in place of the archive
	Mtime  int // nanoseconds behind the whole second
	Kind   int // of the answer
	Status int
	Date   int // kind of date
	Later  int // seconds the date is later than the archive
	Shift  int // seconds the archive is later than it usually is
	Moved  int // the answer is at another address, told so with this status
	Hops   int // and there again
	Length int `json:",omitempty"` // told of the archive, see web.Answer
}

var dateKinds = []string{"date", "no date", "unreadable date"}

var unreadable = []string{"yesterday", "0", "2026-01-01", "Mon, 02 Jan", "-", "Mon, 99 Jan 2006 15:04:05 GMT", "Mon, 02 Foo 2006 15:04:05 GMT", "1136214245", "Mon, 02 Jan 2006 25:04:05 GMT", "\xd0\xbf\xd0\xbd"}

const base = 1600000000

func (a asked) date() string {
	switch a.Date {
	case 1:
		return ""
	case 2:
		return unreadable[abs(a.Later)%len(unreadable)]
	}
	return time.Unix(int64(base+a.Shift+a.Later), 0).UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
}

func bti(b bool) int {
	if b {
		return 1
	}
	return 0
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

var localNames = []string{"no archive", "no data directory", "an archive", "an empty archive", "a link to an archive", "a link to itself", "a file as data directory", "a name too long", "a huge archive"}

func runAsked(ctx *pbt.Ctx, c asked) error {
	s := web.Start()
	top := ctx.Scratch()
	dir := filepath.Join(top, "data")
	if c.Local != 1 && c.Local != 6 && c.Local != 7 {
		pbt.Must(os.Mkdir(dir, 0o755))
	}
	archive := filepath.Join(dir, archiveName)
	mtime := time.Unix(int64(base+c.Shift), int64(c.Mtime))
	want, contact, fails := false, true, false
	switch c.Local {
	case 0, 1:
		want, contact = true, false
	case 2, 3, 8:
		writeFile(archive, []byte("some archive")[:12*(c.Local%3)/2%13])
		if c.Local == 8 {
			pbt.Must(os.Truncate(archive, 5<<32))
		}
		pbt.Must(os.Chtimes(archive, mtime, mtime))
	case 4:
		other := filepath.Join(top, "elsewhere")
		writeFile(other, []byte("linked"))
		pbt.Must(os.Chtimes(other, mtime, mtime))
		pbt.Must(os.Symlink(other, archive))
	case 5:
		pbt.Must(os.Symlink(archiveName, archive))
		fails = true
	case 6:
		writeFile(dir, []byte("not a directory"))
		fails = true
	case 7:
		dir = filepath.Join(top, strings.Repeat("n", 300))
		fails = true
	}
	if !fails && contact {
		switch {
		case c.Kind != web.Whole || c.Status != 200:
			fails = true
		case c.Date == 2:
			want = true
		case c.Date == 0:
			want = time.Unix(int64(base+c.Shift+c.Later), 0).After(mtime)
		}
	}
	s.Script(func(_ string, n int) web.Answer {
		if n %= c.Hops + 1; n < c.Hops {
			// of the dates on the way none is that of the archive
			return web.Answer{Status: c.Moved, Location: fmt.Sprintf("http://elsewhere.test/%d", n), LM: []string{"", asked{Shift: c.Shift, Later: c.Later + 7200}.date(), asked{Shift: c.Shift, Later: c.Later - 7200}.date(), "unreadable"}[(n+c.Moved)%4]}
		}
		return web.Answer{Kind: c.Kind, Status: c.Status, LM: c.date(), Body: []byte("the archive, not asked for"), Length: c.Length}
	})
	what := fmt.Sprintf("%s, server: %s status %d %s %q", localNames[c.Local], web.KindName(c.Kind), c.Status, dateKinds[c.Date], c.date())
	if c.Hops > 0 {
		what += fmt.Sprintf(", after %d redirections with %d", c.Hops, c.Moved)
	}
	if c.Length == 1 {
		what += ", no length"
	} else if c.Length > 1 {
		what += fmt.Sprintf(", length %d", c.Length-2)
	}
	ctx.LabelIf(c.Hops > 0, "redirected")
	ctx.Label("%s", localNames[c.Local])
	ctx.LabelIf(want, "required")
	ctx.NonTrivialIf(contact)
	var before map[string]string
	if c.Local != 8 {
		before = tree.Snapshot(top)
	}
	loader := opencorpora.NewLoader(dir)
	for i := 0; i < 2; i++ { // asking again gives the same answer
		ctx.Exec(1)
		got, err := loader.IsUpdateRequired()
		switch {
		case fails && err == nil:
			return pbt.Errf("%s: answered %v without error", what, got)
		case fails && got:
			return pbt.Errf("%s: answered yes with error %v", what, err)
		case !fails && err != nil:
			return pbt.Errf("%s: %v", what, err)
		case !fails && got != want:
			return pbt.Errf("%s, local file of %v: answered %v", what, mtime.UTC(), got)
		}
	}
	if !contact && len(s.Requests()) > 0 {
		return pbt.Errf("%s: nothing to compare with, but the server was asked: %v", what, s.Requests())
	}
	if s.Count("GET") > 0 {
		return pbt.Errf("%s: the question downloaded something: %v", what, s.Requests())
	}
	if before != nil {
		if d := tree.Diff(before, tree.Snapshot(top)); len(d) > 0 {
			return pbt.Errf("%s: asking has %s", what, strings.Join(d, ", "))
		}
	}
	if c.Local >= 2 && c.Local <= 4 {
		if info, err := os.Stat(archive); err != nil || !info.ModTime().Equal(mtime) {
			return pbt.Errf("%s: asking changed the time of the archive", what)
		}
	}
	if exists := loader.IsDownloadExists(); exists != (c.Local >= 2 && c.Local <= 4 || c.Local == 8) {
		return pbt.Errf("%s: download exists: %v", what, exists)
	}
	return nil
}

func o04() pbt.Property {
	statuses := []int{200, 201, 204, 206, 301, 302, 304, 400, 403, 404, 410, 500, 503}
	// archives of the epoch, of this year, of years to come
	shifts := []int{-base, -base + 86400, -base + 1<<31 - 86400, -base + 1<<31 - 1, -base + 1<<31 + 86400, 400000000, 1000000000, 2000000000}
	moves := []int{301, 302, 303, 307, 308}
	// from the year 1 to the year 9999, around the ends of what 32 and 64 bits hold in seconds or nanoseconds
	extremeDates := []int{-62135596800 - base, -62135596800 - base + 1, -9223372037 - base, -9223372036 - base, -2147483649 - base, -2147483648 - base, -base - 1, -base, -base + 1,
		2147483647 - base, 2147483648 - base, 4294967295 - base, 4294967296 - base, 9223372036 - base, 9223372037 - base, 253402300799 - base}
	return pbt.Property{
		ID:          "O04",
		Rule:        "something has been downloaded, so that the server counts",
		Assumptions: []string{"dates of the server are in the format HTTP prescribes (RFC 1123, GMT) or in none at all; obsolete formats are not tried", "permissions, which the checks running as root have, are tried as failing system calls"},
		Shards:      4,
		Facets: []pbt.Facet{
			failingCalls(120, 4000, "required"),
			everyFailingCall("required"),
			pbt.Rapid("question", 2500, 60000, func(t *rapid.T) asked {
				a := asked{
					Local: rapid.SampledFrom([]int{0, 1, 2, 2, 2, 2, 2, 3, 4, 5, 6, 7, 8}).Draw(t, "local"), Status: 200,
					Mtime: rapid.SampledFrom([]int{0, 1, 500000000, 999999999}).Draw(t, "mtime"),
					Date:  rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "date"),
					Later: rapid.SampledFrom([]int{0, 1, -1, 2, -2, 60, -60, 3600, -3600, 86400, -86400, 31536000, -31536000, 1000000000, -1000000000}).Draw(t, "later"),
				}
				if rapid.IntRange(0, 2).Draw(t, "other status") == 0 {
					a.Status = rapid.SampledFrom(statuses).Draw(t, "status")
				}
				if rapid.IntRange(0, 5).Draw(t, "extreme date") == 0 {
					a.Later = rapid.SampledFrom(extremeDates).Draw(t, "extreme")
				}
				if rapid.IntRange(0, 2).Draw(t, "archive of another time") == 0 { // future ones too
					a.Shift = rapid.SampledFrom(shifts).Draw(t, "shift")
					a.Later = rapid.SampledFrom([]int{0, 1, -1, 3600, -3600, 86400, -86400, 31536000}).Draw(t, "later than that")
				}
				if rapid.IntRange(0, 3).Draw(t, "moved") == 0 {
					a.Moved = rapid.SampledFrom(moves).Draw(t, "redirection")
					a.Hops = rapid.IntRange(1, 4).Draw(t, "hops")
				}
				if rapid.IntRange(0, 2).Draw(t, "length") == 0 {
					a.Length = rapid.SampledFrom([]int{1, 2, 3, 12 + 2, 5<<32 + 2}).Draw(t, "length told")
				}
				if rapid.IntRange(0, 4).Draw(t, "failure") == 0 {
					a.Kind = rapid.IntRange(web.Whole, web.CutHead).Draw(t, "kind")
				}
				return a
			}, runAsked),
			pbt.Enum("table", func(_ string, yield func(asked) bool) {
				for local := range localNames {
					for _, status := range statuses {
						for date := range dateKinds {
							for _, later := range []int{-1, 0, 1} {
								if !yield(asked{Local: local, Status: status, Date: date, Later: later}) {
									return
								}
							}
						}
					}
					for kind := web.Drop; kind <= web.CutHead; kind++ {
						if !yield(asked{Local: local, Status: 200, Kind: kind, Later: 5}) {
							return
						}
					}
					for _, later := range extremeDates {
						if !yield(asked{Local: local, Status: 200, Later: later}) {
							return
						}
					}
					for _, shift := range shifts {
						for _, later := range []int{-86400, -1, 0, 1, 86400} {
							if !yield(asked{Local: local, Status: 200, Later: later, Shift: shift}) {
								return
							}
						}
					}
					for i, moved := range moves {
						for _, later := range []int{-1, 0, 1} {
							if !yield(asked{Local: local, Status: 200, Later: later, Moved: moved, Hops: 1 + i%3}) {
								return
							}
						}
						if !yield(asked{Local: local, Status: 404, Moved: moved, Hops: 1}) {
							return
						}
					}
				}
			}, runAsked),
		},
	}
}

// ---------------------------------------------------------------- O06

// saved is an index and what happens to it when it is saved.
type saved struct {
	H    history
	Prev int // what is under the name before
	At   []int
}

func (c *saved) engine(ctx *pbt.Ctx) (*engine, error) {
	e := newEngine(ctx, &c.H)
	return e, e.run()
}

// mustLoad loads what was saved and compares it.
func mustLoad(dir string, m *model, max int) error {
	idx, err := loaded(dir)
	if err != nil {
		return pbt.Errf("saved without error, but loading: %v", err)
	}
	return m.everything(idx, max)
}

func o06() pbt.Property {
	cfg := genConfig{ops: 20, odd: true, kinds: []string{"tag", "word", "attach", "attach", "attach", "reload", "optimise"}}
	gen := func(t *rapid.T) saved {
		return saved{genHistory(t, cfg), rapid.IntRange(0, 2).Draw(t, "previous"), rapid.SliceOfN(rapid.IntRange(0, 1<<20), 4, 4).Draw(t, "at")}
	}
	save := func(max int) func(*pbt.Ctx, saved) error {
		return func(ctx *pbt.Ctx, c saved) error {
			e, err := c.engine(ctx)
			if err != nil {
				return err
			}
			dir := ctx.Scratch()
			previous(dir, c.Prev)
			loader := opencorpora.NewLoader(dir)
			to := filepath.Join(dir, compiledName)
			ctx.NonTrivialIf(e.m.words() >= 2)
			var first []byte
			for round := 0; round < 3; round++ {
				ctx.Exec(1)
				if err = loader.SaveIndex(e.idx, to); err != nil {
					return pbt.Errf("saving, time %d: %v", round+1, err)
				}
				if d := tree.Diff(map[string]string{".": "directory"}, tree.Snapshot(dir), compiledName); len(d) > 0 {
					return pbt.Errf("saving has %s", strings.Join(d, ", "))
				}
				if err = e.m.everything(e.idx, max); err != nil {
					return pbt.Errf("after saving, time %d: %v", round+1, err)
				}
				if err = mustLoad(dir, e.m, max); err != nil {
					return pbt.Errf("saved, time %d: %v", round+1, err)
				}
				got, _ := readIf(to)
				if round == 0 {
					first = got
				} else if !bytes.Equal(first, got) {
					return pbt.Errf("saved again, the file differs at byte %d", firstDiff(first, got))
				}
			}
			return nil
		}
	}
	full := func(positions int) func(*pbt.Ctx, saved) error {
		return func(ctx *pbt.Ctx, c saved) error {
			e, err := c.engine(ctx)
			if err != nil {
				return err
			}
			dir := ctx.Scratch()
			loader := opencorpora.NewLoader(dir)
			to := filepath.Join(dir, compiledName)
			if err = loader.SaveIndex(e.idx, to); err != nil {
				return pbt.Errf("saving: %v", err)
			}
			whole, _ := readIf(to)
			if len(whole) == 0 {
				return pbt.Errf("saved without error, but there is no file")
			}
			pbt.Must(os.Remove(to))
			previous(dir, c.Prev)
			at := xio.Positions(len(whole), positions)
			for _, n := range c.At {
				at = append(at, n%(len(whole)+1))
			}
			ctx.NonTrivialIf(e.m.words() >= 2)
			for _, n := range append(at, len(whole), len(whole)+1) {
				before := tree.Snapshot(dir)
				ctx.Exec(1)
				withDisk(n, func() { err = loader.SaveIndex(e.idx, to) })
				if n >= len(whole) {
					if err != nil {
						return pbt.Errf("%d bytes saved on a disk with room for %d: %v", len(whole), n, err)
					}
					if err = mustLoad(dir, e.m, 300); err != nil {
						return err
					}
					continue
				}
				if err == nil {
					return pbt.Errf("%d bytes saved without error on a disk full after %d", len(whole), n)
				}
				after := tree.Snapshot(dir)
				if _, ok := after[compiledName]; !ok {
					delete(before, compiledName) // nothing left under the name is good enough
				}
				if d := tree.Diff(before, after); len(d) > 0 {
					return pbt.Errf("disk full after %d of %d bytes: reported as %q, but %s", n, len(whole), err, strings.Join(d, ", "))
				}
				if len(whole) < 5000 {
					if err = e.m.everything(e.idx, 0); err != nil {
						return pbt.Errf("after a failed saving: %v", err)
					}
				}
				if _, ok := after[compiledName]; !ok {
					previous(dir, c.Prev)
				}
			}
			return e.m.everything(e.idx, 300)
		}
	}
	return pbt.Property{
		ID:          "O06",
		Level:       "fault_enumeration",
		Rule:        "an index of at least 2 words with tags",
		Assumptions: []string{"a full disk is simulated by a limit on the size of files: writes up to it succeed, the one across it is cut or refused", "permissions, which the checks running as root have, are tried as failing system calls"},
		Shards:      8,
		Facets: []pbt.Facet{
			failingCalls(240, 8000, "save", "load"),
			everyFailingCall("save", "load"),
			pbt.Rapid("save", 1500, 30000, gen, save(0)),
			pbt.Rapid("full-disk", 120, 2000, gen, full(120)),
			pbt.Enum("large", func(tier string, yield func(saved) bool) {
				sizes := []int{300, 3000, 20000}
				if tier == "thorough" {
					sizes = append(sizes, 100000)
				}
				for i, n := range sizes {
					for prev := 0; prev < 3; prev++ {
						if !yield(saved{H: bulkHistory(n, i+prev), Prev: prev}) {
							return
						}
					}
				}
			}, func(ctx *pbt.Ctx, c saved) error {
				if err := full(12)(ctx, c); err != nil {
					return err
				}
				pbt.Must(os.RemoveAll(filepath.Join(ctx.Scratch(), compiledName)))
				return save(3000)(ctx, c)
			}),
			pbt.Rapid("obstacles", 300, 5000, func(t *rapid.T) saved {
				c := gen(t)
				c.Prev = rapid.IntRange(0, 6).Draw(t, "obstacle")
				return c
			}, func(ctx *pbt.Ctx, c saved) error {
				e, err := c.engine(ctx)
				if err != nil {
					return err
				}
				top := ctx.Scratch()
				dir := filepath.Join(top, "data")
				to := filepath.Join(dir, compiledName)
				what := []string{"missing directory", "a file as directory", "a directory in place", "a directory with content in place", "an empty name", "a name too long", "a link to itself as directory"}[c.Prev]
				ctx.Label("%s", what)
				ctx.NonTrivialIf(e.m.words() >= 2)
				ctx.Exec(1)
				switch c.Prev {
				case 1:
					writeFile(dir, []byte("x"))
				case 2, 3:
					pbt.Must(os.MkdirAll(to, 0o755))
					if c.Prev == 3 {
						writeFile(filepath.Join(to, "x"), []byte("y"))
					}
				case 4:
					to = ""
				case 5:
					pbt.Must(os.Mkdir(dir, 0o755))
					to = filepath.Join(dir, strings.Repeat("x", 300))
				case 6:
					pbt.Must(os.Symlink("data", dir))
				}
				before := tree.Snapshot(top)
				loader := opencorpora.NewLoader(dir)
				tree.In(top, func() { err = loader.SaveIndex(e.idx, to) })
				if err == nil {
					return pbt.Errf("%s: saved without error", what)
				}
				if d := tree.Diff(before, tree.Snapshot(top)); len(d) > 0 {
					return pbt.Errf("%s: reported as %q, but %s", what, err, strings.Join(d, ", "))
				}
				if idx, err := loader.LoadIndex(); err == nil {
					return pbt.Errf("%s: loading gave no error (%v)", what, idx != nil)
				}
				return e.m.everything(e.idx, 0)
			}),
			pbt.Rapid("load", 400, 6000, gen, func(ctx *pbt.Ctx, c saved) error {
				e, err := c.engine(ctx)
				if err != nil {
					return err
				}
				dir := ctx.Scratch()
				loader := opencorpora.NewLoader(dir)
				to := filepath.Join(dir, compiledName)
				if idx, err := loader.LoadIndex(); err == nil {
					return pbt.Errf("loading a missing file gave no error (%v)", idx != nil)
				}
				if err = loader.SaveIndex(e.idx, to); err != nil {
					return pbt.Errf("saving: %v", err)
				}
				whole, _ := readIf(to)
				ctx.NonTrivialIf(e.m.words() >= 2)
				for _, n := range xio.Positions(len(whole), 60) {
					if n >= len(whole) {
						continue
					}
					writeFile(to, whole[:n])
					before := tree.Snapshot(dir)
					ctx.Exec(1)
					if _, err = loader.LoadIndex(); err == nil {
						return pbt.Errf("loading %d of %d bytes gave no error", n, len(whole))
					}
					if d := tree.Diff(before, tree.Snapshot(dir)); len(d) > 0 {
						return pbt.Errf("loading has %s", strings.Join(d, ", "))
					}
				}
				writeFile(to, whole)
				return mustLoad(dir, e.m, 0)
			}),
			pbt.Rapid("load-rotten", 2000, 60000, func(t *rapid.T) rotten {
				return rotten{File: genFile(t, rapid.Bool().Draw(t, "small")), Rot: rapid.SliceOfN(rapid.Custom(genRot), 0, 3).Draw(t, "rot")}
			}, func(ctx *pbt.Ctx, c rotten) error {
				data := c.bytes(ctx)
				verdict, why, f := judge(data)
				dir := ctx.Scratch()
				writeFile(filepath.Join(dir, compiledName), data)
				before := tree.Snapshot(dir)
				ctx.Exec(1)
				idx, err := opencorpora.NewLoader(dir).LoadIndex()
				if d := tree.Diff(before, tree.Snapshot(dir)); len(d) > 0 {
					return pbt.Errf("loading has %s", strings.Join(d, ", "))
				}
				ctx.NonTrivialIf(len(f.Nodes) > 2)
				ctx.LabelIf(verdict == mustFail, "refused")
				switch {
				case verdict == mustFail && err == nil:
					return pbt.Errf("loaded without error, though %s", why)
				case verdict == mustBe && err != nil:
					return pbt.Errf("a good file does not load: %v", err)
				case verdict == mustBe:
					return f.model().everything(idx, 300)
				}
				return nil
			}),
		},
	}
}
