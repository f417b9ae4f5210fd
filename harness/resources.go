package main

// Measured decodes for spec/Resources.tla, and deep nesting.

import (
	"bufio"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	commands["resources"] = cmdResources
	commands["nest"] = cmdNest
}

type resSub struct {
	A int32    `protobuf:"varint,1,opt"`
	L []int32  `protobuf:"varint,2,rep"`
	S []string `protobuf:"bytes,3,rep"`
	X *resSub  `protobuf:"bytes,4,opt"`
}

type resTop struct {
	I   []int32              `protobuf:"varint,1,rep"`
	S   []string             `protobuf:"bytes,2,rep"`
	B   [][]byte             `protobuf:"bytes,3,rep"`
	M   []*resSub            `protobuf:"bytes,4,rep"`
	MI  map[int32]int32      `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	MS  map[string]*resSub   `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	MB  map[uint64][]byte    `protobuf:"bytes,7,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	D   []float64            `protobuf:"fixed64,8,rep"`
	One *resSub              `protobuf:"bytes,9,opt"`
	Str string               `protobuf:"bytes,10,opt"`
	Byt []byte               `protobuf:"bytes,11,opt"`
	Z   []int64              `protobuf:"zigzag64,12,rep"`
	F   []uint32             `protobuf:"fixed32,13,rep"`
	O   proto.Option[string] `protobuf:"bytes,14,opt"`
	P   *int64               `protobuf:"varint,15,opt"`
	Q   []bool               `protobuf:"varint,17,rep"`
}

func lv(n uint64, body []byte) []byte { // field n, length-delimited
	b := appendUvarint(nil, n<<3|2)
	b = appendUvarint(b, uint64(len(body)))
	return append(b, body...)
}

func appendUvarint(b []byte, u uint64) []byte {
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

type shape struct {
	name  string
	max   int // repetitions
	piece func(i int) []byte
	wrap  uint64 // the pieces are the payload of this field
	count func(m *resTop) int
}

func one(m *resTop) int { return -1 } // as many as asked for

var shapes = []shape{
	{"rep varint", 1 << 20, func(i int) []byte { return []byte{0x08, byte(i & 0x7f)} }, 0, func(m *resTop) int { return len(m.I) }},
	{"rep zigzag", 1 << 19, func(i int) []byte { return []byte{0x60, byte(i & 0x7f)} }, 0, func(m *resTop) int { return len(m.Z) }},
	{"rep bool", 1 << 19, func(i int) []byte { return []byte{0x88, 0x01, byte(i & 1)} }, 0, func(m *resTop) int { return len(m.Q) }},
	{"rep fixed64", 1 << 18, func(i int) []byte { return []byte{0x41, 1, 2, 3, 4, 5, 6, 7, byte(i)} }, 0, func(m *resTop) int { return len(m.D) }},
	{"rep fixed32", 1 << 18, func(i int) []byte { return []byte{0x6d, 1, 2, 3, byte(i)} }, 0, func(m *resTop) int { return len(m.F) }},
	{"rep empty string", 1 << 19, func(i int) []byte { return []byte{0x12, 0} }, 0, func(m *resTop) int { return len(m.S) }},
	{"rep string", 1 << 18, func(i int) []byte { return []byte{0x12, 3, 'a', 'b', byte(i & 0x7f)} }, 0, func(m *resTop) int { return len(m.S) }},
	{"rep empty bytes", 1 << 19, func(i int) []byte { return []byte{0x1a, 0} }, 0, func(m *resTop) int { return len(m.B) }},
	{"rep bytes", 1 << 18, func(i int) []byte { return []byte{0x1a, 2, 'a', byte(i)} }, 0, func(m *resTop) int { return len(m.B) }},
	{"rep empty message", 1 << 19, func(i int) []byte { return []byte{0x22, 0} }, 0, func(m *resTop) int { return len(m.M) }},
	{"rep message", 1 << 17, func(i int) []byte { return []byte{0x22, 6, 0x08, 1, 0x10, 2, 0x1a, 0} }, 0, func(m *resTop) int { return len(m.M) }},
	{"map int", 1 << 17, func(i int) []byte {
		return lv(5, append(appendUvarint([]byte{0x08}, uint64(i)), 0x10, 1))
	}, 0, func(m *resTop) int { return len(m.MI) }},
	{"map fixed bytes", 1 << 16, func(i int) []byte {
		return lv(7, []byte{0x09, byte(i), byte(i >> 8), byte(i >> 16), 0, 0, 0, 0, 0x80, 0x12, 1, 'x'})
	}, 0, func(m *resTop) int { return len(m.MB) }},
	{"map string message", 1 << 16, func(i int) []byte {
		return lv(6, append(lv(1, []byte(strconv.Itoa(i))), 0x12, 0))
	}, 0, func(m *resTop) int { return len(m.MS) }},
	{"map same key", 1 << 18, func(i int) []byte { return []byte{0x2a, 4, 0x08, 1, 0x10, 2} }, 0, one},
	{"map empty entry", 1 << 18, func(i int) []byte { return []byte{0x2a, 0} }, 0, one},
	{"scalar again", 1 << 18, func(i int) []byte { return []byte{0x78, byte(i & 0x7f)} }, 0, one},
	{"string again", 1 << 17, func(i int) []byte { return []byte{0x52, 3, 'x', 'y', 'z'} }, 0, one},
	{"bytes again", 1 << 17, func(i int) []byte { return []byte{0x5a, 3, 'x', 'y', 'z'} }, 0, one},
	{"option again", 1 << 17, func(i int) []byte { return []byte{0x72, 3, 'x', 'y', 'z'} }, 0, one},
	{"message again", 1 << 17, func(i int) []byte { return []byte{0x4a, 4, 0x08, 1, 0x10, 2} }, 0, func(m *resTop) int {
		if m.One == nil {
			return 0
		}
		return len(m.One.L)
	}},
	{"unknown varint", 1 << 18, func(i int) []byte { return []byte{0xa0, 0x06, 1} }, 0, one},
	{"unknown bytes", 1 << 18, func(i int) []byte { return []byte{0xa2, 0x06, 1, 'x'} }, 0, one},
	{"unknown fixed", 1 << 18, func(i int) []byte { return []byte{0xa5, 0x06, 1, 2, 3, 4} }, 0, one},
	{"nested rep", 1 << 18, func(i int) []byte { return []byte{0x10, 1} }, 9, func(m *resTop) int {
		if m.One == nil {
			return 0
		}
		return len(m.One.L)
	}},
	{"one string", 1 << 20, func(i int) []byte { return []byte{byte(i)} }, 10, func(m *resTop) int { return len(m.Str) }},
	{"one bytes", 1 << 20, func(i int) []byte { return []byte{byte(i)} }, 11, func(m *resTop) int { return len(m.Byt) }},
	{"one unknown", 1 << 20, func(i int) []byte { return []byte{byte(i)} }, 90, one},
	{"string in message", 1 << 20, func(i int) []byte { return []byte{byte(i)} }, 2, func(m *resTop) int {
		if len(m.S) == 0 {
			return 0
		}
		return len(m.S[0])
	}},
}

func cmdResources(e *Env) {
	f, err := os.Create(e.Trace)
	must(err)
	w := bufio.NewWriter(f)
	watchdog(e.Limit)
	progress, err = os.Create(e.Arg)
	must(err)
	emit := func(name string, reps int, in []byte, want string, count func(*resTop) int) {
		best, kb, st, got, n := int64(1<<62), int64(1<<62), int64(1<<62), "", -1
		for k := 0; k < 3; k++ {
			m := new(resTop)
			var m0, m1 runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&m0)
			t := time.Now()
			var err error
			s0 := steps()
			how := guardCall(func() { err = proto.Unmarshal(in, m) })
			if x := steps() - s0; x < st {
				st = x
			}
			d := time.Since(t).Milliseconds()
			runtime.ReadMemStats(&m1)
			got, _ = classify(err)
			if how != "" {
				got = how
			}
			if d < best {
				best = d
			}
			if x := int64(m1.TotalAlloc-m0.TotalAlloc) >> 10; x < kb {
				kb = x
			}
			if count != nil {
				n = count(m)
				if n == -1 {
					n = reps
				}
			}
			if how != "" || d < 5 {
				break
			}
		}
		w.WriteString(js(map[string]any{"shape": name, "reps": reps, "bytes": len(in), "want": want, "err": got,
			"count": n, "kb": kb, "ms": best, "steps": st}) + "\n")
		w.Flush()
	}
	proto.Unmarshal([]byte{0x08, 1}, new(resTop)) // analyse the type first
	for i, s := range shapes {
		for reps := 1; reps <= s.max>>uint(e.N); reps *= 2 {
			mark(i, reps)
			var in []byte
			for j := 0; j < reps; j++ {
				in = append(in, s.piece(j)...)
			}
			if s.wrap != 0 {
				in = lv(s.wrap, in)
			}
			emit(s.name, reps, in, "accept", s.count)
		}
	}
	// lengths that are only claimed, in every length-delimited field, in
	// messages, map entries and unknown fields
	i := 0
	for _, claim := range []uint64{100, 1 << 10, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 8} {
		for _, num := range []uint64{2, 3, 4, 5, 6, 7, 9, 10, 11, 14, 90} {
			for _, mid := range []uint64{0, 1, 2, 3, 4} {
				in := appendUvarint(appendUvarint(nil, mid<<3|2), claim)
				in = append(in, "abcdefgh"...)
				if mid != 0 {
					in = lv(num, in)
				} else {
					in = appendUvarint(appendUvarint(nil, num<<3|2), claim)
					in = append(in, "abcdefgh"...)
				}
				want := "reject"
				switch num {
				case 2, 3, 10, 11, 14, 90: // the payload is not looked into
					if mid != 0 {
						want = "any"
					}
				}
				i++
				mark(len(shapes), i)
				emit(fmt.Sprintf("claim %d in %d/%d", claim, num, mid), 1, in, want, nil)
			}
		}
	}
	must(w.Flush())
	must(f.Close())
}

// nestInput is a DRec nested n levels deep through field num (2: sub,
// 3: repeated, 4: map value).
func nestInput(n int, num byte, payload int) []byte {
	// lengths from the inside out
	var heads [][]byte
	size := 2 * payload
	for i := 0; i < n; i++ {
		var h []byte
		if num == 4 {
			in := appendUvarint([]byte{0x12}, uint64(size))
			h = appendUvarint([]byte{0x22}, uint64(len(in)+size))
			h = append(h, in...)
		} else {
			h = appendUvarint([]byte{num<<3 | 2}, uint64(size))
		}
		heads = append(heads, h)
		size += len(h)
	}
	b := make([]byte, 0, size)
	for i := n - 1; i >= 0; i-- {
		b = append(b, heads[i]...)
	}
	for i := 0; i < payload; i++ {
		b = append(b, 0x08, 1)
	}
	return b
}

// cmdNest: decodes a message nested -n levels through field -arg; the
// innermost has as many fields as the first further argument says.
func cmdNest(e *Env) {
	num, _ := strconv.Atoi(e.Arg)
	payload := 1
	if len(e.Args) > 0 {
		payload, _ = strconv.Atoi(e.Args[0])
	}
	in := nestInput(e.N, byte(num), payload)
	debug.SetMaxStack(1000000000) // what Go programs have
	m := new(DRec)
	time.AfterFunc(e.Limit, func() {
		fmt.Fprintln(os.Stderr, "HANG")
		os.Exit(97)
	})
	must(proto.Unmarshal([]byte{8, 1}, new(DRec))) // the type is known
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t := time.Now()
	how, err := "", error(nil)
	s0 := steps()
	how = guardCall(func() { err = proto.Unmarshal(in, m) })
	st := steps() - s0
	ms := time.Since(t).Milliseconds()
	runtime.ReadMemStats(&m1)
	// how deep is it really
	depth := 0
	for p := m; p != nil; {
		var q *DRec
		switch num {
		case 2:
			q = p.Sub
		case 3:
			if len(p.Kids) == 1 {
				q = p.Kids[0]
			}
		case 4:
			q = p.By[0]
		}
		if q == nil {
			if p.V != 1 {
				depth = -2
			}
			break
		}
		depth++
		p = q
	}
	c, _ := classify(err)
	if how != "" {
		c = how
	}
	fmt.Println(js(map[string]any{"shape": fmt.Sprintf("nest %d x %d", num, payload), "reps": e.N, "bytes": len(in), "want": "accept", "err": c, "count": depth, "kb": (m1.TotalAlloc - m0.TotalAlloc) >> 10, "ms": ms, "steps": st}))
}
