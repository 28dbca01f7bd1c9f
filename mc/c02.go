package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode/utf16"

	"github.com/Wieku/gosu-pp/beatmap"

	"vmc/core"
)

// envReader is the environment: every Read is answered as the explorer decides.
type envReader struct {
	data   []byte
	off    int
	answer func(r *envReader, max int) (n int, err error)
	empty  int
}

var errDisk = errors.New("injected read error")

func (r *envReader) Read(p []byte) (int, error) {
	rest := len(r.data) - r.off
	max := rest
	if len(p) < max {
		max = len(p)
	}
	n, err := r.answer(r, max)
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	return n, err
}

// fill is the default answer.
func fill(r *envReader, max int) (int, error) {
	if max == 0 && r.off == len(r.data) {
		return 0, io.EOF
	}
	return max, nil
}

func encode(text, enc string) []byte {
	switch enc {
	case "utf8":
		return []byte(text)
	case "utf8bom":
		return append([]byte{0xEF, 0xBB, 0xBF}, text...)
	}
	u := utf16.Encode([]rune(text))
	var b bytes.Buffer
	put := func(v uint16) {
		if enc == "utf16le" {
			b.Write([]byte{byte(v), byte(v >> 8)})
		} else {
			b.Write([]byte{byte(v >> 8), byte(v)})
		}
	}
	put(0xFEFF)
	for _, v := range u {
		put(v)
	}
	return b.Bytes()
}

func c02tmpl(small bool) *Tmpl {
	t := base()
	t.Meta = []string{"Title:Tä", "TitleUnicode:é曲𝄞", "Creator:C", "Version:V"}
	t.General = []string{"AudioFilename: a.mp3"}
	t.Diff = []string{"OverallDifficulty:8", "SliderMultiplier:2"}
	t.Events = nil
	t.Times = []string{"0,500"}
	t.Obj = []string{"1,2,3,5,0", "10,20,300,2,0,L|50:20,2,40", "5,6,900,8,0,1000"}
	if small {
		t.Obj = t.Obj[:2]
		t.General = nil
	}
	return t
}

func init() {
	register("C02", "one execution = one file read through one sequence of environment answers (short reads, empty reads, errors, end of file)", func(th bool) []core.Scenario {
		encs := []string{"utf8", "utf8bom", "utf16le", "utf16be"}
		type src struct {
			data []byte
			want string
		}
		mk := func(t *Tmpl) (out []src) {
			for _, e := range encs {
				d := encode(t.Text()+"\n", e)
				bm, err := beatmap.ParseFromByte(d)
				if err != nil {
					out = append(out, src{d, "unparsable: " + err.Error()})
					continue
				}
				out = append(out, src{d, obs(bm)})
			}
			return
		}
		full, small := mk(c02tmpl(false)), mk(c02tmpl(true))
		check := func(x *core.X, s src, r *envReader) {
			bm, err := beatmap.ParseFromReader(r)
			x.Op(1)
			x.Trace(1)
			if err != nil {
				x.Fail("reading the same bytes in other pieces failed: %v", err)
			}
			if g := obs(bm); g != s.want {
				x.Fail("the parsed beatmap depends on how the stream is split: %s", diffLine(s.want, g))
			}
		}
		mustErr := func(x *core.X, r *envReader) {
			bm, err := beatmap.ParseFromReader(r)
			x.Op(1)
			x.Trace(1)
			if err == nil {
				x.Fail("a failing reader (at byte %d of %d) went unnoticed; beatmap with %d objects returned", r.off, len(r.data), len(bm.HitObjects))
			}
			if bm != nil {
				x.Fail("a beatmap was returned along with error %v", err)
			}
		}
		// what the reader does after it has failed once: keep failing, report end of file, or go on as if nothing happened
		after := []string{"fails again", "ends", "goes on"}
		kinds := []error{errDisk, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, os.ErrDeadlineExceeded, context.Canceled, io.ErrShortBuffer, bufio.ErrTooLong, fmt.Errorf("wrapped: %w", io.EOF),
			os.ErrClosed, net.ErrClosed, syscall.EINTR, syscall.EAGAIN, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}, &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}, context.DeadlineExceeded}
		deviate := func(enc int, set []src, x *core.X) {
			s := set[enc]
			reads := 0
			failAt, then := -1, 0
			r := &envReader{data: s.data}
			var log []string
			r.answer = func(r *envReader, max int) (int, error) {
				reads++
				if failAt >= 0 {
					switch then {
					case 1:
						return 0, io.EOF
					case 2:
						return fill(r, max)
					}
					return 0, errDisk
				}
				// choices: 0 default, 1..max: n=choice-1 bytes, max+1: EOF with the data,
				// max+2 .. 2max+2: error after k bytes
				w := 2*max + 3
				c := x.Dev(w)
				switch {
				case c == 0:
					return fill(r, max)
				case c <= max:
					log = append(log, fmt.Sprintf("short read of %d at %d", c-1, r.off))
					return c - 1, nil
				case c == max+1:
					if r.off+max == len(r.data) {
						log = append(log, fmt.Sprintf("%d bytes with EOF at %d", max, r.off))
						return max, io.EOF
					}
					return fill(r, max)
				default:
					k := c - max - 2
					failAt, then = r.off+k, x.Choose(len(after))
					log = append(log, fmt.Sprintf("error after %d bytes at %d, then it %s", k, r.off, after[then]))
					return k, errDisk
				}
			}
			x.Desc(func() string { return fmt.Sprintf("%s, %d bytes: %v", encs[enc], len(s.data), log) })
			bm, err := beatmap.ParseFromReader(r)
			x.Op(reads)
			x.Trace(1)
			x.State(core.NewH().I(enc).S(strings.Join(log, ";")).Sum())
			if failAt >= 0 {
				x.Outcome(2)
				if err == nil {
					x.Fail("read error at byte %d of %d went unnoticed; a beatmap with %d objects was returned", failAt, len(s.data), len(bm.HitObjects))
				}
				x.Assert(bm == nil, "a beatmap was returned along with error %v", err)
				return
			}
			x.Outcome(1)
			x.Assert(err == nil, "reading the same bytes in other pieces failed: %v", err)
			if g := obs(bm); g != s.want {
				x.Fail("the parsed beatmap depends on how the stream is split: %s", diffLine(s.want, g))
			}
		}
		failing := func(x *core.X, s src, at, style, then int, fault error, one bool) {
			failed := false
			x.Desc(func() string {
				return fmt.Sprintf("error %q at %d of %d, style %d one=%v, then it %s", fault, at, len(s.data), style, one, after[then])
			})
			x.State(core.NewH().I(at).I(style).I(then).S(fault.Error()).I(len(s.data)).Sum())
			mustErr(x, &envReader{data: s.data, answer: func(r *envReader, max int) (int, error) {
				if failed {
					switch then {
					case 1:
						return 0, io.EOF
					case 2:
						return fill(r, max)
					}
					return 0, fault
				}
				left := at - r.off
				if left <= 0 {
					if style == 2 && r.empty < 3 {
						r.empty++
						return 0, nil
					}
					failed = true
					return 0, fault
				}
				if max > left {
					max = left
				}
				if one && max > 1 {
					max = 1
				}
				if style == 1 && max == left {
					failed = true
					return max, fault
				}
				return max, nil
			}})
		}
		bigT := c02tmpl(false)
		for i := 0; i < 400; i++ {
			bigT.Obj = append(bigT.Obj, fmt.Sprintf("%d,%d,%d,1,0,0:0:0:0:%s", i%512, i%384, 1000+i*100, strings.Repeat("é", 20)))
		}
		big := mk(bigT)
		big = []src{big[0], big[3]}
		step := 61
		if th {
			step = 3
		}
		scs := []core.Scenario{
			{Name: "chunk-size", Bound: "every constant chunk size 1..600 in 4 encodings", Body: func(x *core.X) {
				s := full[x.Choose(len(full))]
				k := 1 + x.Choose(600)
				x.Desc(func() string { return fmt.Sprintf("chunks of %d, %d bytes", k, len(s.data)) })
				x.State(core.NewH().I(k).I(len(s.data)).Sum())
				check(x, s, &envReader{data: s.data, answer: func(r *envReader, max int) (int, error) {
					if max > k {
						max = k
					}
					return fill(r, max)
				}})
			}},
			{Name: "one-deviation", Bound: "one departure (short or empty read, error with or without data, EOF with data) of every size at every read, 4 encodings", Budget: 1, Body: func(x *core.X) {
				deviate(x.Choose(len(full)), full, x)
			}},
			{Name: "error-per-byte", Bound: "an error at every byte offset in three delivery styles, 1-byte and full reads before it, the reader failing again, ending or going on afterwards", Body: func(x *core.X) {
				s := full[x.Choose(len(full))]
				failing(x, s, x.Choose(len(s.data)+1), x.Choose(3), x.Choose(len(after)), errDisk, x.Bool())
			}},
			{Name: "error-kinds", Bound: fmt.Sprintf("each of %d kinds of error at every byte offset, with and without data", len(kinds)), Body: func(x *core.X) {
				s := full[0]
				failing(x, s, x.Choose(len(s.data)+1), x.Choose(2), x.Choose(2), kinds[x.Choose(len(kinds))], false)
			}},
			{Name: "big-file-errors", Bound: fmt.Sprintf("a 30 KB file with an error at every offset divisible by %d, reads of 4096 and 1000 bytes", step), Body: func(x *core.X) {
				s := big[x.Choose(len(big))]
				at := step * x.Choose(len(s.data)/step+1)
				st, th := x.Choose(2), x.Choose(len(after))
				failing(x, s, at, st, th, errDisk, false)
			}},
			{Name: "big-file-chunks", Bound: "a 30 KB file in constant chunks of every size 1..128 and 900..1100, 2000..2100, 4000..4200, 8100..8300", Body: func(x *core.X) {
				s := big[x.Choose(len(big))]
				k := []int{1, 65, 900, 1000, 2000, 2050, 4000, 4050, 4100, 4150, 8100, 8150, 8200, 8250}[x.Choose(14)] + x.Choose(64)
				x.Desc(func() string { return fmt.Sprintf("chunks of %d, %d bytes", k, len(s.data)) })
				x.State(core.NewH().I(k).I(len(s.data)).Sum())
				check(x, s, &envReader{data: s.data, answer: func(r *envReader, max int) (int, error) {
					if max > k {
						max = k
					}
					return fill(r, max)
				}})
			}},
			{Name: "empty-reads", Bound: "1 to 20, 50, 60, 99..101, 128, 150, 256, 1000 empty reads before every read of k=1..8 bytes", Body: func(x *core.X) {
				s := full[x.Choose(len(full))]
				run := 1 + x.Choose(29)
				if run > 20 {
					run = []int{50, 60, 99, 100, 101, 128, 150, 256, 1000}[run-21]
				}
				k := 1 + x.Choose(8)
				x.Desc(func() string { return fmt.Sprintf("%d empty reads, %d-byte reads", run, k) })
				check(x, s, &envReader{data: s.data, answer: func(r *envReader, max int) (int, error) {
					if r.empty < run {
						r.empty++
						return 0, nil
					}
					r.empty = 0
					if max > k {
						max = k
					}
					return fill(r, max)
				}})
			}},
			{Name: "long-lines", Bound: "lines of 3 KB .. 9 MB read whole, lines of 11 MB (thorough 21 MB) rejected, in every section", Body: func(x *core.X) {
				sizes := []int{3000, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 3 << 20, 5 << 20, 9 << 20, 11 << 20}
				if th {
					sizes = append(sizes, 2<<20, 4<<20, 4<<20-1, 6<<20, 7<<20, 8<<20, 8<<20+1, 21<<20)
				}
				n := sizes[x.Choose(len(sizes))]
				where := x.Choose(7)
				t := c02tmpl(false)
				pad := strings.Repeat("x", n)
				switch where {
				case 0:
					t.Meta = append(t.Meta, "Tags:"+pad)
				case 1:
					t.General = append([]string{"Foo:" + pad}, t.General...)
				case 2:
					t.Diff = append([]string{"//" + pad}, t.Diff...)
				case 3:
					t.Events = []string{"0,0,\"" + pad + "\""}
				case 4:
					t.Times = append([]string{"//" + pad}, t.Times...)
				case 5:
					t.Obj = append([]string{"7,8,1,1,0,0:0:0:0:" + pad}, t.Obj...)
				case 6:
					t.Obj = append(t.Obj, "7,8,5000,1,0,0:0:0:0:"+pad)
				}
				x.Desc(func() string { return fmt.Sprintf("a line of %d bytes in section %d", n, where) })
				x.State(core.NewH().I(n).I(where).Sum())
				bm, err := beatmap.ParseFromByte([]byte(t.Text()))
				x.Op(1)
				x.Trace(1)
				if n > 10<<20 {
					x.Outcome(2)
					x.Assert(err != nil || n < 10<<20 || whole(bm, where, n), "a line of %d bytes was silently dropped or cut", n)
					return
				}
				x.Outcome(1)
				x.Assert(err == nil, "a line of %d bytes was not read: %v", n, err)
				x.Assert(whole(bm, where, n), "content was lost around a line of %d bytes", n)
			}},
			{Name: "huge-files", Bound: "files of 9, 11, 19, 21, 33 (thorough 65, 130) MB made of short lines: everything before, among and after them is read", Body: func(x *core.X) {
				sizes := []int{9, 11, 19, 21, 33}
				if th {
					sizes = append(sizes, 65, 130)
				}
				mb := sizes[x.Choose(len(sizes))]
				where := x.Choose(3)
				t := c02tmpl(false)
				l := "//" + strings.Repeat("w", 4093)
				pad := strings.TrimSuffix(strings.Repeat(l+"\n", mb<<20/4096), "\n")
				switch where {
				case 0:
					t.Meta = append([]string{pad}, t.Meta...)
				case 1:
					t.Times = append([]string{pad}, t.Times...)
				case 2:
					t.Obj = append(append([]string{"9,9,1,1,0", pad}, t.Obj...), "8,8,99999,1,0")
				}
				want, err := beatmap.ParseFromByte([]byte(strings.Replace(t.Text(), pad, "", 1)))
				if err != nil {
					x.Fail("%v", err)
				}
				x.Desc(func() string { return fmt.Sprintf("a file of %d MB, most of it in section %d", mb, where) })
				x.State(core.NewH().I(mb).I(where).Sum())
				bm, err := beatmap.ParseFromByte([]byte(t.Text()))
				x.Op(2)
				x.Trace(1)
				x.Assert(err == nil, "not read: %v", err)
				x.Assert(obs(bm) == obs(want), "content was lost: %s", diffLine(obs(want), obs(bm)))
			}},
			{Name: "reader-kinds", Bound: "every kind of reader of the standard library (byte, string and buffered readers, pipes, sections, limits, concatenations, tees, files, one-byte, half and data-with-error readers, readers that can also seek, write out or be read at an offset), started at 5 positions after foreign content: only what remains is read", Body: func(x *core.X) {
				s := full[x.Choose(len(full))]
				junk := []string{"", "x", "osu file format v3\n[General]\nStackLeniency:0.1\n[HitObjects]\n1,1,1,1,0\n", "\xff\xfe", strings.Repeat("osu file format v9\n", 300)}[x.Choose(5)]
				kind := x.Choose(len(readerKinds))
				k := readerKinds[kind]
				x.Desc(func() string { return fmt.Sprintf("%s over %d bytes after %d others", k.name, len(s.data), len(junk)) })
				x.State(core.NewH().I(kind).I(len(junk)).I(len(s.data)).Sum())
				all := append([]byte(junk), s.data...)
				r, done := k.mk(all, len(junk))
				if done != nil {
					defer done()
				}
				bm, err := beatmap.ParseFromReader(r)
				x.Op(1)
				x.Trace(1)
				x.Assert(err == nil, "not read: %v", err)
				if g := obs(bm); g != s.want {
					x.Fail("the parsed beatmap depends on the kind of reader: %s", diffLine(s.want, g))
				}
			}},
			{Name: "aliasing", Bound: "parsing leaves the given bytes as they were, and overwriting them afterwards with each of 4 fillers leaves the beatmap as it was: 4 encodings x whole and sub-slices with spare capacity, a 30 KB file, two real maps", Body: func(x *core.X) {
				srcs := append(append([]src{}, full...), big...)
				i := x.Choose(len(srcs) + len(corpora))
				var data []byte
				if i < len(srcs) {
					data = srcs[i].data
				} else {
					data = []byte(corpora[i-len(srcs)])
				}
				pad := []int{0, 1, 5000}[x.Choose(3)]
				fill := []byte{0, 'x', '\n', 0xff}[x.Choose(4)]
				x.Desc(func() string { return fmt.Sprintf("file %d, %d bytes around it, overwritten with %q", i, pad, fill) })
				x.State(core.NewH().I(i).I(pad).I(int(fill)).Sum())
				buf := bytes.Repeat([]byte{'7'}, len(data)+2*pad)
				copy(buf[pad:], data)
				orig := append([]byte{}, buf...)
				bm, err := beatmap.ParseFromByte(buf[pad : pad+len(data)])
				x.Op(1)
				x.Trace(2)
				x.Assert(err == nil, "not read: %v", err)
				x.Assert(bytes.Equal(buf, orig), "parsing changed the given bytes or what lies around them")
				w := obs(bm)
				if i < len(srcs) {
					x.Assert(w == srcs[i].want, "a sub-slice parses differently: %s", diffLine(srcs[i].want, w))
				}
				for j := range buf {
					buf[j] = fill
				}
				x.Assert(obs(bm) == w, "the beatmap changes when the bytes it was read from are overwritten: %s", diffLine(w, obs(bm)))
			}},
			{Name: "exact-sizes", Bound: "files of exactly 512, 1024, 2048, 4096, 8192, 12288 and 65536 bytes, and up to 2 more or less, ending in each of 12 ways (empty fields, blanks, NUL, no line end), read as bytes, from a reader and byte by byte", Body: func(x *core.X) {
				size := []int{512, 1024, 2048, 4096, 8192, 12288, 65536}[x.Choose(7)] - 2 + x.Choose(5)
				end := []string{"7,8,9000,1,0", "7,8,9000,1,", "7,8,9000,1,0\n", "7,8,9000,1,\n", "7,8,9000,1,0 ", "7,8,9000,1, ", "7,8,9000,1,\t", "7,8,9000,1,0\n\n\n", "7,8,9000,1,0\r\n", "7,8,9000,1,\x00", "7,8,9000,2,0,L|9:9,1,30,2|,", "7,8,9000,5,0,0:0:0:0:"}[x.Choose(12)]
				t := c02tmpl(true)
				t.Obj = append(t.Obj, "@")
				txt := t.Text()
				txt = txt[:strings.Index(txt, "@")] + end
				pad := size - len(txt)
				if pad < 8 {
					return
				}
				how := x.Choose(3)
				x.Desc(func() string { return fmt.Sprintf("%d bytes ending in %q, way %d", size, end, how) })
				x.State(core.NewH().I(size).S(end).I(how).Sum())
				short := parse(x, strings.Replace(txt, "[HitObjects]", "//pad\n[HitObjects]", 1))
				txt = strings.Replace(txt, "[HitObjects]", "//"+strings.Repeat("p", pad-3)+"\n[HitObjects]", 1)
				x.Assert(len(txt) == size, "the text has %d bytes", len(txt))
				var bm *beatmap.BeatMap
				var err error
				switch how {
				case 0:
					bm, err = beatmap.ParseFromByte([]byte(txt))
				case 1:
					bm, err = beatmap.ParseFromReader(strings.NewReader(txt))
				default:
					bm, err = beatmap.ParseFromReader(iotest.OneByteReader(strings.NewReader(txt)))
				}
				x.Op(1)
				x.Trace(1)
				x.Assert(err == nil, "the file was rejected: %v", err)
				x.Assert(len(short.HitObjects) == 3, "%d objects", len(short.HitObjects))
				x.Assert(obs(bm) == obs(short), "the length of the file matters: %s", diffLine(obs(short), obs(bm)))
			}},
			{Name: "file-size", Bound: "files of 2..40 KB in 61-byte steps: every object present", Body: func(x *core.X) {
				k := x.Choose(700)
				t := c02tmpl(false)
				t.Obj = nil
				for i := 0; i < k; i++ {
					t.Obj = append(t.Obj, fmt.Sprintf("%d,%d,%d,1,0,0:0:0:0:%s", i%512, i%384, 1000+i*100, strings.Repeat("z", 30)))
				}
				x.Desc(func() string { return fmt.Sprint(k, " objects") })
				x.State(uint64(k))
				bm := parse(x, t.Text())
				x.Trace(1)
				x.Assert(len(bm.HitObjects) == k && bm.Circles == k, "%d of %d objects read", len(bm.HitObjects), k)
			}},
		}
		if th {
			scs = append(scs, core.Scenario{Name: "two-deviations", Bound: "every pair of departures on a 200-byte file", Budget: 2, Body: func(x *core.X) {
				deviate(x.Choose(len(small)), small, x)
			}})
		}
		return scs
	})
}

func whole(bm *beatmap.BeatMap, where, n int) bool {
	if bm == nil {
		return false
	}
	ok := bm.Creator == "C" && bm.Difficulty.GetOD() == 8 && bm.SliderMultiplier == 2 && bm.Timings.HasPoints() && bm.Audio == "a.mp3"
	want := 3
	switch where {
	case 0:
		ok = ok && len(bm.Tags) == n
	case 3:
		ok = ok && len(bm.Bg) == n
	case 5, 6:
		want = 4
	}
	return ok && len(bm.HitObjects) == want
}

type readerKind struct {
	name string
	mk   func(all []byte, at int) (io.Reader, func())
}

// fancy offers every optional interface of a reader; what lies before base is foreign content.
type fancy struct {
	*bytes.Reader
}

type seekFails struct {
	r *bytes.Reader
}

func (s seekFails) Read(p []byte) (int, error)            { return s.r.Read(p) }
func (s seekFails) Seek(int64, int) (int64, error)        { return 0, errDisk }
func (s seekFails) ReadAt(p []byte, o int64) (int, error) { return 0, errDisk }
func (s seekFails) Len() int                              { return 1 << 40 }
func (s seekFails) Size() int64                           { return -1 }
func (s seekFails) Close() error                          { return errDisk }

func skip(r io.Reader, n int) io.Reader {
	if _, err := io.CopyN(io.Discard, r, int64(n)); err != nil {
		panic(err)
	}
	return r
}

var readerKinds = []readerKind{
	{"bytes.Reader", func(a []byte, n int) (io.Reader, func()) { return skip(bytes.NewReader(a), n), nil }},
	{"strings.Reader", func(a []byte, n int) (io.Reader, func()) { return skip(strings.NewReader(string(a)), n), nil }},
	{"bytes.Buffer", func(a []byte, n int) (io.Reader, func()) {
		return skip(bytes.NewBuffer(append([]byte{}, a...)), n), nil
	}},
	{"bufio.Reader of 16", func(a []byte, n int) (io.Reader, func()) {
		return skip(bufio.NewReaderSize(bytes.NewReader(a), 16), n), nil
	}},
	{"bufio.Reader of 4096 over a seekable one", func(a []byte, n int) (io.Reader, func()) { return skip(bufio.NewReader(bytes.NewReader(a)), n), nil }},
	{"bufio.Reader of 1 MB with something peeked", func(a []byte, n int) (io.Reader, func()) {
		r := bufio.NewReaderSize(bytes.NewReader(a), 1<<20)
		skip(r, n)
		r.Peek(3)
		return r, nil
	}},
	{"io.Pipe", func(a []byte, n int) (io.Reader, func()) {
		r, w := io.Pipe()
		go func() {
			w.Write(a)
			w.Close()
		}()
		return skip(r, n), func() { r.Close() }
	}},
	{"SectionReader", func(a []byte, n int) (io.Reader, func()) {
		return io.NewSectionReader(bytes.NewReader(a), int64(n), int64(len(a)-n)), nil
	}},
	{"SectionReader read to the middle", func(a []byte, n int) (io.Reader, func()) {
		return skip(io.NewSectionReader(bytes.NewReader(a), 0, int64(len(a))), n), nil
	}},
	{"LimitReader", func(a []byte, n int) (io.Reader, func()) {
		return io.LimitReader(skip(bytes.NewReader(append(append([]byte{}, a...), a...)), n), int64(len(a)-n)), nil
	}},
	{"MultiReader", func(a []byte, n int) (io.Reader, func()) {
		m := n + (len(a)-n)/2
		return io.MultiReader(bytes.NewReader(a[n:m]), strings.NewReader(""), bytes.NewReader(a[m:])), nil
	}},
	{"TeeReader", func(a []byte, n int) (io.Reader, func()) {
		return io.TeeReader(skip(bytes.NewReader(a), n), io.Discard), nil
	}},
	{"iotest one byte", func(a []byte, n int) (io.Reader, func()) {
		return iotest.OneByteReader(skip(bytes.NewReader(a), n)), nil
	}},
	{"iotest half", func(a []byte, n int) (io.Reader, func()) { return iotest.HalfReader(skip(bytes.NewReader(a), n)), nil }},
	{"iotest data with error", func(a []byte, n int) (io.Reader, func()) {
		return iotest.DataErrReader(skip(bytes.NewReader(a), n)), nil
	}},
	{"io.NopCloser", func(a []byte, n int) (io.Reader, func()) { return io.NopCloser(skip(bytes.NewReader(a), n)), nil }},
	{"embedded", func(a []byte, n int) (io.Reader, func()) {
		r := bytes.NewReader(a)
		skip(r, n)
		return fancy{r}, nil
	}},
	{"a reader whose other methods fail", func(a []byte, n int) (io.Reader, func()) {
		r := bytes.NewReader(a)
		skip(r, n)
		return seekFails{r}, nil
	}},
	{"os.File", func(a []byte, n int) (io.Reader, func()) {
		f, err := os.CreateTemp("", "vmc")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		f.Write(a)
		f.Seek(int64(n), 0)
		return f, func() { f.Close() }
	}},
}
