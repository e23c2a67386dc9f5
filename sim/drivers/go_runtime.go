package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
)

// World is implemented by each per-world glue file.
type World interface {
	New(m int) any
	Load(m int, t *Tok) any
	Fill(m int, o any, t *Tok)
	Dump(o any, b *strings.Builder) // writes " <m> tokens..."
	Size(o any) int
	Write(o any, w io.Writer, tag bool)
	Read(m int, r io.Reader) (any, error)
	Proc(r io.Reader, max int) ([]any, error)
	Unpack(r io.Reader) ([]any, error)
	PSize(l []any) int
	Pack(l []any, w io.Writer)
}

type Tok struct {
	t []string
	i int
}

func (t *Tok) S() string    { t.i++; return t.t[t.i-1] }
func (t *Tok) More() bool   { return t.i < len(t.t) }
func (t *Tok) I() int       { v, e := strconv.Atoi(t.S()); chk(e); return v }
func (t *Tok) Int() int64   { v, e := strconv.ParseInt(t.S(), 10, 64); chk(e); return v }
func (t *Tok) Uint() uint64 { v, e := strconv.ParseUint(t.S(), 10, 64); chk(e); return v }
func (t *Tok) Str() string  { b, e := hex.DecodeString(t.S()[1:]); chk(e); return string(b) }
func chk(e error) {
	if e != nil {
		panic("harness: " + e.Error())
	}
}
func putI(b *strings.Builder, v int64)  { b.WriteString(" "); b.WriteString(strconv.FormatInt(v, 10)) }
func putU(b *strings.Builder, v uint64) { b.WriteString(" "); b.WriteString(strconv.FormatUint(v, 10)) }
func putS(b *strings.Builder, s string) { b.WriteString(" s"); b.WriteString(hex.EncodeToString([]byte(s))) }
func b2i(v bool) uint64 {
	if v {
		return 1
	}
	return 0
}

// ---- tasks: one runs at a time; they park inside simulated readers and writers ----
type task struct {
	run  chan string
	ctl  chan string
	name int
}

var tasks = map[int]*task{}
var current *task

func park(what string) string {
	t := current
	t.ctl <- "park " + what
	a := <-t.run
	return a
}

type parkReader struct{ n int }

var errSim = errors.New("simulated I/O error")

func (r *parkReader) Read(p []byte) (int, error) {
	a := park("r " + strconv.Itoa(len(p)))
	f := strings.SplitN(a, " ", 2)
	var d []byte
	if len(f) > 1 {
		var e error
		d, e = hex.DecodeString(f[1])
		chk(e)
	}
	n := copy(p, d)
	if n != len(d) {
		panic("harness: over-long delivery")
	}
	r.n += n
	switch f[0] {
	case "d":
		return n, nil
	case "de":
		return n, io.EOF
	case "dx":
		return n, errSim
	}
	panic("harness: bad action")
}

type parkWriter struct{ buf []byte }

func (w *parkWriter) Write(p []byte) (int, error) {
	a := park("w " + hex.EncodeToString(p))
	if a == "k" {
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	n, e := strconv.Atoi(a[2:])
	chk(e)
	if n > len(p) {
		n = len(p)
	}
	w.buf = append(w.buf, p[:n]...)
	return n, errSim
}

type plainReader struct{ r *bytes.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

type src struct {
	left func() int // bytes not consumed yet; nil for a parked source
	r    io.Reader
	pr   *parkReader
	n    int
}

// The same bytes behind the readers users have: buffers, sections of files, buffered and bare readers.
func source(c int, d []byte) *src {
	s := &src{n: len(d)}
	br := bytes.NewReader(d)
	s.r, s.left = br, br.Len
	switch c % 7 {
	case 1:
		s.r = plainReader{br}
	case 2:
		bb := bytes.NewBuffer(append([]byte{}, d...))
		s.r, s.left = bb, bb.Len
	case 3:
		sr := strings.NewReader(string(d))
		s.r, s.left = sr, sr.Len
	case 4:
		bu := bufio.NewReaderSize(plainReader{br}, 16)
		s.r, s.left = bu, func() int { return bu.Buffered() + br.Len() }
	case 5: // the reader is in the middle of something longer
		mid := bytes.NewReader(append(bytes.Repeat([]byte{0x01}, 11), d...))
		_, e := mid.Seek(11, io.SeekStart)
		chk(e)
		s.r, s.left = mid, mid.Len
	case 6:
		all := append(append(bytes.Repeat([]byte{0x01}, 5), d...), 1, 2, 3, 0, 0, 0, 0, 1, 1, 1)
		se := io.NewSectionReader(bytes.NewReader(all), 5, int64(len(d)))
		s.r, s.left = se, func() int { o, e := se.Seek(0, io.SeekCurrent); chk(e); return len(d) - int(o) }
	}
	return s
}

func (s *src) pos() int {
	if s.pr != nil {
		return s.pr.n
	}
	return s.n - s.left()
}

type plainWriter struct{ w io.Writer }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

type sink struct {
	b   *bytes.Buffer
	bw  *bufio.Writer
	o   io.Writer
	pw  *parkWriter
	pre int
}

func (s *sink) w() io.Writer {
	if s.pw != nil {
		return s.pw
	}
	return s.o
}

var slots = map[int]any{}
var lists = map[int][]any{}
var srcs = map[int]*src{}
var sinks = map[int]*sink{}

func run(line string) (res string) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.HasPrefix(s, "harness:") {
				res = "fatal " + s
			} else {
				res = "panic " + strings.ReplaceAll(s, "\n", " ")
			}
		}
	}()
	T := &Tok{t: strings.Fields(line)}
	w := worlds[T.I()]
	op := T.S()
	var b strings.Builder
	dumpl := func(l []any) {
		putI(&b, int64(len(l)))
		for _, m := range l {
			w.Dump(m, &b)
		}
	}
	clean := func(e error) string { return strings.ReplaceAll(e.Error(), "\n", " ") }
	switch op {
	case "new":
		h, m := T.I(), T.I()
		slots[h] = w.New(m)
		b.WriteString("ok")
		w.Dump(slots[h], &b)
	case "load":
		h, m := T.I(), T.I()
		slots[h] = w.Load(m, T)
		return "ok"
	case "refill":
		h, i, m := T.I(), T.I(), T.I()
		if i < 0 {
			w.Fill(m, slots[h], T)
		} else {
			w.Fill(m, lists[h][i], T)
		}
		return "ok"
	case "get":
		b.WriteString("ok")
		w.Dump(slots[T.I()], &b)
	case "free":
		delete(slots, T.I())
		return "ok"
	case "size":
		return fmt.Sprintf("ok %d", w.Size(slots[T.I()]))
	case "mklist":
		L := T.I()
		l := []any{}
		for T.More() {
			l = append(l, slots[T.I()])
		}
		lists[L] = l
		return "ok"
	case "lget":
		b.WriteString("ok")
		dumpl(lists[T.I()])
	case "lfree":
		delete(lists, T.I())
		return "ok"
	case "lpsize":
		return fmt.Sprintf("ok %d", w.PSize(lists[T.I()]))
	case "src":
		c := T.I()
		h := ""
		if T.More() {
			h = T.S()
		}
		d, e := hex.DecodeString(h)
		chk(e)
		srcs[c] = source(c, d)
		return "ok"
	case "srcpark":
		c := T.I()
		pr := &parkReader{}
		srcs[c] = &src{r: pr, pr: pr}
		return "ok"
	case "srcclose":
		delete(srcs, T.I())
		return "ok"
	case "pos":
		s := srcs[T.I()]
		f := 0
		if s.left != nil && s.left() == 0 {
			f = 1
		}
		return fmt.Sprintf("ok %d %d", s.pos(), f)
	case "read":
		s := srcs[T.I()]
		m, h := T.I(), T.I()
		o, e := w.Read(m, s.r)
		if e != nil {
			return fmt.Sprintf("err %s", clean(e))
		}
		putI(&b, int64(s.pos()))
		w.Dump(o, &b)
		if h >= 0 {
			slots[h] = o
		}
		return "ok" + b.String()
	case "proc", "unpack":
		s := srcs[T.I()]
		var l []any
		var e error
		if op == "proc" {
			l, e = w.Proc(s.r, T.I())
		} else {
			l, e = w.Unpack(s.r)
		}
		L := T.I()
		if e != nil {
			return fmt.Sprintf("err %s", clean(e))
		}
		putI(&b, int64(s.pos()))
		dumpl(l)
		if L >= 0 {
			lists[L] = l
		}
		return "ok" + b.String()
	case "sink":
		c := T.I()
		T.I()
		pre := T.I()
		bb := bytes.NewBuffer(bytes.Repeat([]byte{0xEE}, pre))
		k := &sink{b: bb, o: bb, pre: pre}
		switch c % 3 {
		case 1:
			k.o = plainWriter{bb}
		case 2:
			k.bw = bufio.NewWriterSize(bb, 16)
			k.o = k.bw
		}
		sinks[c] = k
		return "ok"
	case "sinkpark":
		sinks[T.I()] = &sink{pw: &parkWriter{}}
		return "ok"
	case "sinkget":
		s := sinks[T.I()]
		if s.pw != nil {
			return "ok x" + hex.EncodeToString(s.pw.buf)
		}
		if s.bw != nil {
			chk(s.bw.Flush())
		}
		d := s.b.Bytes()
		for i := 0; i < s.pre; i++ {
			if d[i] != 0xEE {
				return "bad bytes before the start position were overwritten"
			}
		}
		return "ok x" + hex.EncodeToString(d[s.pre:])
	case "sinkclose":
		delete(sinks, T.I())
		return "ok"
	case "write":
		s := sinks[T.I()]
		h, tag := T.I(), T.I()
		w.Write(slots[h], s.w(), tag != 0)
		return "ok"
	case "lwrite":
		s := sinks[T.I()]
		for _, m := range lists[T.I()] {
			w.Write(m, s.w(), true)
		}
		return "ok"
	case "lpack":
		s := sinks[T.I()]
		w.Pack(lists[T.I()], s.w())
		return "ok"
	default:
		return "fatal unknown op " + op
	}
	return b.String()
}

func step(id int, act string, first bool) string {
	t := tasks[id]
	current = t
	t.run <- act
	r := <-t.ctl
	if strings.HasPrefix(r, "done ") {
		delete(tasks, id)
	}
	return r
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, e := in.ReadString('\n')
		if e != nil {
			return
		}
		line = strings.TrimRight(line, "\n")
		var r string
		if strings.HasPrefix(line, "spawn ") {
			f := strings.SplitN(line, " ", 3)
			id, _ := strconv.Atoi(f[1])
			t := &task{run: make(chan string), ctl: make(chan string), name: id}
			tasks[id] = t
			cmd := f[2]
			go func() {
				<-t.run
				t.ctl <- "done " + run(cmd)
			}()
			r = step(id, "", true)
		} else if strings.HasPrefix(line, "resume ") {
			f := strings.SplitN(line, " ", 3)
			id, _ := strconv.Atoi(f[1])
			r = step(id, f[2], false)
		} else {
			r = run(line)
		}
		out.WriteString(r)
		out.WriteString("\n")
		out.Flush()
	}
}
