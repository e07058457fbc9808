package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"testing/iotest"

	gxio "github.com/vipally/gx/io"
	"gxv/mc"
)

var errRead = errors.New("scripted read error")

type werr struct{ d, k int }

func (e werr) Error() string { return fmt.Sprintf("scripted write error of dst %d call %d", e.d, e.k) }

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + 1)
	}
	return b
}

// reader replays a script of chunk sizes; end: 0 EOF alone, 1 EOF with the last
// chunk, 2 error alone, 3 error with the last chunk.
type reader struct {
	data   []byte
	chunks []int
	end    int
	i, pos int
	idle   int
	ended  bool
	rerr   error // instead of errRead
}

func (r *reader) failure() error {
	if r.rerr != nil {
		return r.rerr
	}
	return errRead
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (r *reader) Read(p []byte) (int, error) {
	if r.ended || r.i >= len(r.chunks) {
		r.ended = true
		if r.idle++; r.idle > 1000 {
			panic("reads on for ever after the end")
		}
		if r.end >= 2 {
			return 0, r.failure()
		}
		return 0, io.EOF
	}
	want := r.chunks[r.i]
	n := want
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	for j := n; j < len(p); j++ { // a reader may use the rest as scratch space
		p[j] = 0xEE
	}
	r.pos += n
	if n == want {
		r.i++
	} else {
		r.chunks = append([]int(nil), r.chunks...)
		r.chunks[r.i] = want - n
	}
	if r.i == len(r.chunks) && r.end == 1 {
		r.ended = true
		return n, io.EOF
	}
	if r.i == len(r.chunks) && r.end == 3 {
		r.ended = true
		return n, r.failure()
	}
	return n, nil
}

// wtReader is the same source that also implements io.WriterTo (one chunk per write).
type wtReader struct{ reader }

func (r *wtReader) WriteTo(w io.Writer) (n int64, err error) {
	buf := make([]byte, 16)
	for {
		k, er := r.Read(buf)
		if k > 0 {
			m, ew := w.Write(buf[:k])
			n += int64(m)
			if ew != nil {
				return n, ew
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		}
		if er == io.EOF {
			return n, nil
		}
		if er != nil {
			return n, er
		}
	}
}

// writer replays anomalies: act[call] = 0 ok, 1 short 0, 2 short n-1, 3 error 0,
// 4 error n-1, 5 error n.
type writer struct {
	d    int
	act  map[int]int
	k    int
	got  []byte
	fail bool
	errs []error
	sh   bool
	err  error // instead of a werr
}

func (w *writer) Write(p []byte) (int, error) {
	a := w.act[w.k]
	w.k++
	if w.k > 5000 {
		panic("writes for ever")
	}
	n := len(p)
	switch a {
	case 1, 3:
		n = 0
	case 2, 4:
		n = len(p) - 1
	}
	if n < 0 {
		n = 0
	}
	w.got = append(w.got, p[:n]...)
	if a >= 3 {
		e := error(werr{w.d, w.k})
		if w.err != nil {
			e = w.err
		}
		w.errs = append(w.errs, e)
		return n, e
	}
	if n < len(p) {
		w.sh = true
	}
	return n, nil
}

// verdict checks one finished copy.
func verdict(data []byte, readErr bool, ws []*writer, n int64, err error) error {
	all := true
	anyW, anyS := false, false
	for i, w := range ws {
		if !bytes.HasPrefix(data, w.got) {
			return fmt.Errorf("dst %d of %d received %v, not a prefix of %v", i, len(ws), clip(w.got), clip(data))
		}
		if int64(len(w.got)) < n {
			return fmt.Errorf("count %d but dst %d accepted only %d bytes", n, i, len(w.got))
		}
		if len(w.got) != len(data) {
			all = false
		}
		anyW = anyW || len(w.errs) > 0
		anyS = anyS || w.sh
	}
	if n < 0 {
		return fmt.Errorf("count %d", n)
	}
	if err == nil {
		if !all {
			return fmt.Errorf("nil error, but not every dst has all %d bytes", len(data))
		}
		if n != int64(len(data)) {
			return fmt.Errorf("nil error, but count %d of %d", n, len(data))
		}
		if readErr {
			return fmt.Errorf("read error not returned")
		}
		if anyW || anyS {
			return fmt.Errorf("write error/short write not returned")
		}
		return nil
	}
	if err == io.EOF {
		return fmt.Errorf("EOF returned as an error")
	}
	if !readErr && !anyW && !anyS {
		return fmt.Errorf("error %v although nothing failed", err)
	}
	if readErr && !anyW && !anyS && err != errRead {
		return fmt.Errorf("error %v instead of the read error", err)
	}
	if anyW && !anyS && !readErr {
		ok := false
		for _, w := range ws {
			for _, e := range w.errs {
				ok = ok || e == err
			}
		}
		if !ok {
			return fmt.Errorf("error %v instead of the write error", err)
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// decode: c = [kind, buf, ndst, end, nchunks, chunks..., (dst call act)*]
func run(c mc.Case, t *mc.T) error {
	kind, bs, nd, end, nc := c[0], c[1], c[2], c[3], c[4]
	chunks := append([]int(nil), c[5:5+nc]...)
	total := 0
	for _, k := range chunks {
		total += k
	}
	data := pattern(total)
	var ws []*writer
	var dst []io.Writer
	for i := 0; i < nd; i++ {
		w := &writer{d: i, act: map[int]int{}}
		ws = append(ws, w)
		dst = append(dst, w)
	}
	for r := c[5+nc:]; len(r) >= 3; r = r[3:] {
		ws[r[0]].act[r[1]] = r[2]
	}
	orig := append([]byte(nil), data...)
	rd := reader{data: data, chunks: chunks, end: end}
	var src io.Reader = &rd
	if kind == 1 {
		src = &wtReader{rd}
	}
	var n int64
	var err error
	if bs == 0 {
		n, err = gxio.Copys(src, dst...)
	} else if bs < 0 {
		n, err = gxio.CopysBuffer(src, nil, dst...)
	} else {
		n, err = gxio.CopysBuffer(src, make([]byte, bs, bs+2), dst...)
	}
	t.Steps += int64(nd * (nc + 1))
	if !bytes.Equal(data, orig) {
		return fmt.Errorf("source data modified")
	}
	if kind == 1 && end >= 2 || kind == 0 && end >= 2 {
		// the read error counts only when the source was asked that far
		r := &rd
		if w, ok := src.(*wtReader); ok {
			r = &w.reader
		}
		return verdict(data, r.ended, ws, n, err)
	}
	return verdict(data, false, ws, n, err)
}

var actName = []string{"ok", "short:0", "short:n-1", "error:0", "error:n-1", "error:n"}

func show(c mc.Case) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s, buffer %s, %d dsts, source chunks %v then %s", []string{"plain reader", "reader with WriteTo"}[c[0]], map[bool]string{true: "default", false: fmt.Sprint(c[1])}[c[1] <= 0], c[2], []int(c[5:5+c[4]]), []string{"EOF", "(last with) EOF", "error", "(last with) error"}[c[3]])
	for r := c[5+c[4]:]; len(r) >= 3; r = r[3:] {
		fmt.Fprintf(&b, "; dst %d write %d %s", r[0], r[1], actName[r[2]])
	}
	return b.String()
}

func main() {
	mc.Main("C15", func(r *mc.Run) {
		r.Assume = append(r.Assume, "writers obey io.Writer up to short writes without error (0<=n<=len(p), data not retained or modified); non-empty buffers")
		maxChunks, maxCalls := r.Pick(3, 4), r.Pick(4, 6)
		gen := func(kind int, bufs []int, maxD, anomalies int) func(emit func(mc.Case)) {
			return func(emit func(mc.Case)) {
				for _, bs := range bufs {
					for nd := 1; nd <= maxD; nd++ {
						for end := 0; end < 4; end++ {
							mc.Strings(4, 0, maxChunks, func(ch mc.Case) {
								base := append(mc.Case{kind, bs, nd, end, len(ch)}, ch...)
								emit(base)
								slots := nd * maxCalls
								for a := 0; a < slots; a++ {
									for x := 1; x < 6; x++ {
										one := append(append(mc.Case(nil), base...), a/maxCalls, a%maxCalls, x)
										emit(one)
										if anomalies < 2 {
											continue
										}
										for b := a + 1; b < slots; b++ {
											for y := 1; y < 6; y++ {
												emit(append(append(mc.Case(nil), one...), b/maxCalls, b%maxCalls, y))
											}
										}
									}
								}
							})
						}
					}
				}
			}
		}
		r.Enumerate(mc.Enum{Name: "plain faults", Bounds: fmt.Sprintf("every source of up to %d reads of 0..3 bytes ending in EOF/error alone or with the last data, buffers 1,2,3,default, 1..3 dsts, up to 2 anomalous writes (5 kinds) at any of the first %d writes of any dst", maxChunks, maxCalls),
			Gen: gen(0, []int{0, 1, 2, 3}, r.Pick(2, 3), 2), Run: run, Show: show})
		r.Enumerate(mc.Enum{Name: "plain faults 4 dsts", Bounds: "as above, 4 dsts, one anomalous write",
			Gen: gen(0, []int{-1, 2}, 4, 1), Run: run, Show: show})
		r.Enumerate(mc.Enum{Name: "WriterTo faults", Bounds: "same sources with WriteTo, 1..3 dsts, up to 2 anomalous writes",
			Gen: gen(1, []int{0, 2}, r.Pick(2, 3), 2), Run: run, Show: show})
		r.Enumerate(mc.Enum{Name: "WriterTo 4 dsts", Bounds: "same sources with WriteTo, up to 4 dsts, one anomalous write",
			Gen: gen(1, []int{0}, 4, 1), Run: run, Show: show})
		r.Enumerate(mc.Enum{Name: "late faults", Bounds: "sources of 5..300 reads of 1..3 bytes, with and without WriteTo, 1, 2, 3, 5, 8, 17, 33, 64 and 100 dsts: no fault, and each anomalous write at the first, the last and 6 other writes of the first, the last and the middle dst", Show: show,
			Gen: func(emit func(mc.Case)) {
				for kind := 0; kind < 2; kind++ {
					for _, n := range []int{5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 129, 256, 300} {
						for _, nd := range []int{1, 2, 3, 5, 8, 17, 33, 64, 100} {
							for end := 0; end < 4; end++ {
								for _, bs := range []int{0, 3} {
									base := mc.Case{kind, bs, nd, end, n}
									for i := 0; i < n; i++ {
										base = append(base, 1+(i*i+i/3)%3)
									}
									emit(base)
									for _, d := range []int{0, nd / 2, nd - 1} {
										for _, k := range []int{0, 4, n / 4, n / 3, n / 2, n - n/5, n - 2, n - 1} {
											for x := 1; x < 6; x++ {
												emit(append(append(mc.Case(nil), base...), d, k, x))
											}
										}
									}
								}
							}
						}
					}
				}
			}, Run: run})
		ids := []error{errRead, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF), errors.New("EOF"), errors.New(""), os.ErrClosed, os.ErrDeadlineExceeded, &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, timeoutErr{}, context.Canceled, bufio.ErrBufferFull, werr{1, 2}}
		r.Enumerate(mc.Enum{Name: "error identities", Bounds: fmt.Sprintf("%d error values (of the standard library, wrapped end of file, temporary, timeouts) returned by the source with or without data after 0..3 reads, or by the first, middle or last of 1..3 dsts on its first, second or third write with 0, n-1 or n bytes accepted; with and without WriteTo, buffers 2 and default: that error is returned", len(ids)),
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(ids), 2, 2, 3, 2+9, 4) },
			Show: func(c mc.Case) string {
				return fmt.Sprintf("error %q (%T), WriteTo %v, buffer %d, %d dsts, place %d, reads/bytes %d", ids[c[0]].Error(), ids[c[0]], c[1] == 1, c[2], c[3]+1, c[4], c[5])
			},
			Run: func(c mc.Case, t *mc.T) error {
				want, nd := ids[c[0]], c[3]+1
				chunks := []int{2, 1, 3, 2}
				rd := reader{chunks: chunks, rerr: want}
				if c[4] < 2 {
					rd.end = 2 + c[4]
					if rd.chunks = chunks[:c[5]]; c[5] == 0 && c[4] == 1 {
						return nil // no data to come with
					}
				}
				total := 0
				for _, k := range rd.chunks {
					total += k
				}
				rd.data = pattern(total)
				var ws []*writer
				var dst []io.Writer
				for i := 0; i < nd; i++ {
					ws = append(ws, &writer{d: i, act: map[int]int{}, err: want})
					dst = append(dst, ws[i])
				}
				if c[4] >= 2 {
					if c[5] == 3 {
						return nil
					}
					ws[(c[4]-2)/3%nd].act[(c[4]-2)%3] = 3 + c[5]
				}
				var src io.Reader = &rd
				if c[1] == 1 {
					src = &wtReader{rd}
				}
				var buf []byte
				if c[2] == 1 {
					buf = make([]byte, 2)
				}
				n, err := gxio.CopysBuffer(src, buf, dst...)
				t.Steps += int64(nd)
				if err != want {
					return fmt.Errorf("returned the error %v, not %v", err, want)
				}
				for i, w := range ws {
					if !bytes.HasPrefix(rd.data, w.got) || n < 0 || int64(len(w.got)) < n {
						return fmt.Errorf("count %d, dst %d has %v", n, i, w.got)
					}
					if c[4] < 2 && len(w.got) != total {
						return fmt.Errorf("dst %d has %d of the %d bytes read before the error", i, len(w.got), total)
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "no destination", Bounds: "sources of 0..3 reads of 0..3 bytes, ending in EOF or an error, with and without WriteTo: no panic, every byte is read, its end reported",
			Gen: func(emit func(mc.Case)) {
				for kind := 0; kind < 2; kind++ {
					for end := 0; end < 4; end++ {
						mc.Strings(4, 0, 3, func(ch mc.Case) { emit(append(mc.Case{kind, 0, 0, end, len(ch)}, ch...)) })
					}
				}
			}, Show: show, Run: run})
		huge := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 3}
		r.Enumerate(mc.Enum{Name: "huge copies", Bounds: "sources of 5 lengths from 2 to 4 GB, buffers of 32 kB and 1 MB, with and without WriteTo, 1..3 dsts that count: no fault, and a write error or a short write behind them",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(huge), 2, 2, 3, 3) },
			Show: func(c mc.Case) string {
				return fmt.Sprintf("%d bytes, buffer %d, WriteTo %v, %d dsts, fault %d", huge[c[0]], c[1], c[2] == 1, c[3]+1, c[4])
			},
			Run: func(c mc.Case, t *mc.T) error {
				total := huge[c[0]]
				var src io.Reader = &zeros{left: total}
				if c[2] == 1 {
					src = zerosTo{&zeros{left: total}}
				}
				var buf []byte
				if c[1] == 1 {
					buf = make([]byte, 1<<20)
				}
				outs := make([]counter, c[3]+1)
				var dst []io.Writer
				for i := range outs {
					outs[i].fault = -1
					dst = append(dst, &outs[i])
				}
				bad := errors.New("bad")
				want := error(nil)
				if c[4] > 0 {
					o := &outs[c[3]]
					o.fault, o.err, want = total, bad, bad
					if c[4] == 2 {
						o.err, want = nil, io.ErrShortWrite
					}
					if c[2] == 1 {
						src = zerosTo{&zeros{left: total + 10}}
					} else {
						src = &zeros{left: total + 10}
					}
				}
				n, err := gxio.CopysBuffer(src, buf, dst...)
				t.Steps += int64(len(dst))
				if err != want {
					return fmt.Errorf("error %v, expected %v", err, want)
				}
				if c[4] == 0 && n != total || n < 0 || n > total {
					return fmt.Errorf("returned %d for %d bytes", n, total)
				}
				for i := range outs {
					if c[4] == 0 && outs[i].n != total {
						return fmt.Errorf("dst %d got %d bytes of %d", i, outs[i].n, total)
					}
				}
				return nil
			}})
		lens := []int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 100000, 131073, 262145, 1000000, 1048577}
		kinds := []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "plain", "one byte at a time", "halves", "data with EOF", "bufio", "limited", "pipe", "multi"}
		bufs := []int{-1, 0, 1, 7, 512, 4096, 32768, 40000}
		r.Enumerate(mc.Enum{Name: "std sources", Bounds: "std readers x 21 lengths around the buffer sizes x 8 buffers x 1..4 dsts",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(kinds), len(lens), len(bufs), 4) },
			Show: func(c mc.Case) string {
				return fmt.Sprintf("%s, %d bytes, buffer %d, %d dsts", kinds[c[0]], lens[c[1]], bufs[c[2]], c[3]+1)
			},
			Run: func(c mc.Case, t *mc.T) error {
				data := pattern(lens[c[1]])
				type ro struct{ io.Reader }
				var src io.Reader
				switch c[0] {
				case 0:
					src = bytes.NewReader(data)
				case 1:
					src = bytes.NewBuffer(append([]byte(nil), data...))
				case 2:
					src = strings.NewReader(string(data))
				case 3:
					src = ro{bytes.NewReader(data)}
				case 4:
					if len(data) > 5000 || bufs[c[2]] == 1 {
						data = data[:min(len(data), 5000)]
					}
					src = iotest.OneByteReader(bytes.NewReader(data))
				case 5:
					src = iotest.HalfReader(bytes.NewReader(data))
				case 6:
					src = iotest.DataErrReader(bytes.NewReader(data))
				case 7:
					src = bufio.NewReaderSize(bytes.NewReader(data), 100)
				case 8:
					src = io.LimitReader(bytes.NewReader(append(append([]byte(nil), data...), 1, 2, 3)), int64(len(data)))
				case 9:
					pr, pw := io.Pipe()
					go func() { pw.Write(data); pw.Close() }()
					src = pr
				case 10:
					src = io.MultiReader(bytes.NewReader(data[:len(data)/3]), bytes.NewReader(data[len(data)/3:]))
				}
				outs := make([]bytes.Buffer, c[3]+1)
				var dst []io.Writer
				for i := range outs {
					dst = append(dst, &outs[i])
				}
				var n int64
				var err error
				switch b := bufs[c[2]]; {
				case b < 0:
					n, err = gxio.CopysBuffer(src, nil, dst...)
				case b == 0:
					n, err = gxio.Copys(src, dst...)
				default:
					n, err = gxio.CopysBuffer(src, make([]byte, b), dst...)
				}
				t.Steps += int64(len(dst))
				if err != nil || n != int64(len(data)) {
					return fmt.Errorf("returned %d, %v for %d bytes", n, err, len(data))
				}
				for i := range outs {
					if !bytes.Equal(outs[i].Bytes(), data) {
						return fmt.Errorf("dst %d got %d bytes of %d, or different ones", i, outs[i].Len(), len(data))
					}
				}
				return nil
			}})
	})
}

// zeros is a source of many bytes, counter a destination that counts them.
type zeros struct{ left int64 }

func (z *zeros) Read(p []byte) (int, error) {
	if z.left == 0 {
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > z.left {
		n = z.left
	}
	z.left -= n
	return int(n), nil
}

type zerosTo struct{ *zeros }

func (z zerosTo) WriteTo(w io.Writer) (t int64, err error) {
	b := make([]byte, 1<<20)
	for z.left > 0 {
		k, _ := z.Read(b)
		n, err := w.Write(b[:k])
		t += int64(n)
		if err != nil {
			return t, err
		}
		if n < k {
			return t, io.ErrShortWrite
		}
	}
	return t, nil
}

type counter struct {
	n     int64
	fault int64 // accepts no more than that
	err   error
}

func (c *counter) Write(p []byte) (int, error) {
	if c.fault >= 0 && c.n+int64(len(p)) > c.fault {
		k := c.fault - c.n
		c.n = c.fault
		return int(k), c.err
	}
	c.n += int64(len(p))
	return len(p), nil
}
