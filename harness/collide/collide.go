// Package collide makes pairs of different sequences which common hash functions do not tell apart:
// whatever recognises values by such a hash alone takes one for the other.
package collide

import (
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"slices"
	"strconv"
	"sync"
)

// Encoding turns the values of a sequence to the bytes which are hashed.
type Encoding struct {
	Name  string
	Bytes func([]int) []byte
}

var (
	Bytes1 = Encoding{"bytes", func(v []int) []byte {
		b := make([]byte, len(v))
		for i, x := range v {
			b[i] = byte(x)
		}
		return b
	}}
	Big2 = Encoding{"big endian", func(v []int) []byte {
		b := make([]byte, 0, 2*len(v))
		for _, x := range v {
			b = append(b, byte(x>>8), byte(x))
		}
		return b
	}}
	Little2 = Encoding{"little endian", func(v []int) []byte {
		b := make([]byte, 0, 2*len(v))
		for _, x := range v {
			b = append(b, byte(x), byte(x>>8))
		}
		return b
	}}
	UTF8 = Encoding{"UTF-8", func(v []int) []byte {
		var b []byte
		for _, x := range v {
			b = append(b, string(rune(x))...)
		}
		return b
	}}
)

// bases of polynomial hashes; 1 is a plain sum.
var bases = []int{1, 2, 3, 5, 7, 16, 17, 31, 33, 37, 53, 61, 101, 131, 137, 199, 223, 229, 233, 239, 241, 251}

type sum func(v []int, enc Encoding) uint32

func fold(prime, start uint32, xorFirst bool) sum {
	return func(v []int, _ Encoding) uint32 {
		h := start
		for _, x := range v {
			if xorFirst {
				h = (h ^ uint32(x)) * prime
			} else {
				h = h*prime ^ uint32(x)
			}
		}
		return h
	}
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

var sums = []sum{
	func(v []int, enc Encoding) uint32 { h := fnv.New32(); _, _ = h.Write(enc.Bytes(v)); return h.Sum32() },
	func(v []int, enc Encoding) uint32 { h := fnv.New32a(); _, _ = h.Write(enc.Bytes(v)); return h.Sum32() },
	func(v []int, enc Encoding) uint32 { return crc32.ChecksumIEEE(enc.Bytes(v)) },
	func(v []int, enc Encoding) uint32 { return crc32.Checksum(enc.Bytes(v), castagnoli) },
	func(v []int, enc Encoding) uint32 { return adler32.Checksum(enc.Bytes(v)) },
	fold(16777619, 2166136261, false),
	fold(16777619, 2166136261, true),
	fold(16777619, 0, false),
	fold(16777619, 0, true),
	fold(31, 0, false),
	fold(33, 5381, false),
	fold(33, 5381, true),
}

// Kinds is the number of hash functions there are pairs for.
var Kinds = 2*len(bases) + 1 + len(sums)

type random uint32

func (r *random) upto(n int) int { // 0..n-1
	*r = *r*1664525 + 1013904223
	return int(uint64(*r>>4) * uint64(n) >> 28)
}

// Pair makes two different sequences in ascending order of values lo..hi, of the same length.
func Pair(kind int, seed uint32, lo, hi int, enc Encoding) (a, b []int) {
	r := random(seed*2654435761 + 977)
	kind %= Kinds
	if kind >= 2*len(bases)+1 {
		return searched(kind-2*len(bases)-1, seed, lo, hi, enc)
	}
	some := func(n, lo, hi int) []int { // n values in ascending order
		v := make([]int, n)
		for i := range v {
			v[i] = lo + r.upto(hi-lo+1)
		}
		slices.Sort(v)
		return v
	}
	before, after := r.upto(6), r.upto(6)
	if r.upto(3) == 0 {
		before, after = r.upto(30), r.upto(30)
	}
	if kind == 2*len(bases) { // exclusive or of all: two neighbours differ in the last bit
		for _, v := range some(before+after+2, (lo+1)/2, (hi-1)/2) {
			a = append(a, 2*v)
		}
		b = slices.Clone(a)
		for k := range a {
			if k >= before+2 { // past the two
				a[k]++
				b[k]++
			}
		}
		b[before]++
		b[before+1]++
		return a, b
	}
	base := bases[kind%len(bases)]
	if base > hi-lo-2 {
		base = bases[kind%6]
	}
	middle := lo + r.upto(hi-base-lo)
	if kind < len(bases) { // earlier values weigh more: one more here, base less in the next
		a = append(some(before+1, lo, middle), some(after+1, middle+1+base, hi)...)
		b = slices.Clone(a)
		b[before]++
		b[before+1] -= base
		return a, b
	}
	x := middle + base + r.upto(hi-middle-base) // later values weigh more
	y := x + r.upto(hi-x)
	a = append(append(some(before, lo, middle), x, y), some(after, y+1, hi)...)
	b = slices.Clone(a)
	b[before] -= base
	b[before+1]++
	return a, b
}

var (
	lock  sync.Mutex
	found = map[string][][2][]int{}
)

// searched takes a pair among the many found by comparing the hashes of several hundred thousand sequences.
func searched(n int, seed uint32, lo, hi int, enc Encoding) (a, b []int) {
	lock.Lock()
	defer lock.Unlock()
	key := strconv.Itoa(n) + " " + strconv.Itoa(lo) + " " + strconv.Itoa(hi) + " " + enc.Name
	pairs, ok := found[key]
	if !ok {
		const tries = 300000
		hashes := make([]uint64, tries)
		sequence := func(i int) []int {
			r := random(uint32(i)*2654435761 + 99)
			shortest := 5
			if hi-lo < 100 {
				shortest = 9
			}
			v := make([]int, shortest+i%3)
			for k := range v {
				v[k] = lo + r.upto(hi-lo+1)
			}
			slices.Sort(v)
			return v
		}
		for i := range hashes {
			hashes[i] = uint64(sums[n](sequence(i), enc))<<32 | uint64(i)
		}
		slices.Sort(hashes)
		for i := 1; i < tries && len(pairs) < 50; i++ {
			if hashes[i]>>32 != hashes[i-1]>>32 {
				continue
			}
			x, y := sequence(int(uint32(hashes[i-1]))), sequence(int(uint32(hashes[i])))
			if len(x) == len(y) && !slices.Equal(x, y) {
				pairs = append(pairs, [2][]int{x, y})
			}
		}
		found[key] = pairs
	}
	if len(pairs) == 0 {
		return []int{lo, lo}, []int{lo, hi}
	}
	p := pairs[seed%uint32(len(pairs))]
	return append([]int{}, p[0]...), append([]int{}, p[1]...)
}
