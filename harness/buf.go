package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

func init() { modes["buf"] = runBuf }

type jBufOp struct {
	O   string `json:"o"`
	B   string `json:"b"`
	P   B      `json:"p"`
	N   int    `json:"n"`
	Off int    `json:"off"`
	Wh  int    `json:"wh"`
}
type jBuf struct {
	Sid    int      `json:"sid"`
	MemLim int64    `json:"memlim"`
	ReqLim int64    `json:"reqlim"`
	ResLim int64    `json:"reslim"`
	Dir    string   `json:"dir"`
	Other  bool     `json:"other"`
	Unit   int      `json:"unit"` // every byte of the scenario stands for so many
	Ops    []jBufOp `json:"ops"`
}

func errClass(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, ms.ErrOutOfFileLimit):
		return "limit"
	case errors.Is(err, ms.ErrOutOfMemLimit):
		return "mem"
	case errors.Is(err, ms.ErrBufferReaded):
		return "readed"
	case errors.Is(err, io.EOF):
		return "eof"
	}
	return "io"
}

func setFileLimit(n int64) {
	var l syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
	if n < 0 {
		l.Cur = l.Max
	} else {
		l.Cur = uint64(n)
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
}

// filesIn counts the files below dir and tells whether only their owner may use them
func filesIn(dir string) (n int, private bool) {
	private = true
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			n++
			if fi.Mode().Perm()&0077 != 0 {
				private = false
			}
		}
		return nil
	})
	return
}

type rwBuf interface {
	io.ReadWriteSeeker
	io.WriterTo
	String() (string, error)
	Bytes() ([]byte, error)
	Len() int64
	Close() error
}

func runBuf(raw json.RawMessage, r *Rec) {
	j := jBuf{Unit: 1}
	must(json.Unmarshal(raw, &j))
	u := j.Unit
	j.MemLim, j.ReqLim, j.ResLim = j.MemLim*int64(u), j.ReqLim*int64(u), j.ResLim*int64(u)
	large := func(p []byte) []byte {
		res := make([]byte, 0, len(p)*u)
		for _, c := range p {
			res = append(res, bytes.Repeat([]byte{c}, u)...)
		}
		return res
	}
	small := func(p []byte) B { // what is no sequence of whole units stays as it is
		res := make(B, 0, len(p)/u+1)
		for i := 0; i < len(p); i += u {
			if i+u > len(p) || bytes.Count(p[i:i+u], p[i:i+1]) != u {
				if len(p) > 20000 {
					p = p[:20000]
				}
				return B(p)
			}
			res = append(res, p[i])
		}
		return res
	}
	count := func(n int64) int64 {
		if n > 0 && n%int64(u) == 0 {
			return n / int64(u)
		} else if n > 0 && u > 1 {
			return n + 1<<20 // no number of whole units
		}
		return n
	}
	signal.Ignore(syscall.SIGXFSZ)
	top := filepath.Join(scratch, fmt.Sprintf("buf-%d", j.Sid))
	must(os.MkdirAll(top, 0700))
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "tmp")
	switch j.Dir {
	case "ok":
		must(os.Mkdir(dir, 0700))
	case "missing":
	case "nested":
		dir = filepath.Join(top, "a", "b", "tmp")
	case "blocked":
		must(ioutil.WriteFile(dir, nil, 0600))
	}
	eng := ms.NewEngine()
	eng.TmpPath = dir
	eng.RequestBodyInMem, eng.RequestBody, eng.ResponseBody = j.MemLim, j.ReqLim, j.ResLim
	t, err := eng.NewTransaction()
	if err != nil {
		r.add(E{"err": "new"})
		return
	}
	eng2 := eng // a second transaction whose files are in the same directory
	if j.Other {
		eng2 = ms.NewEngine()
		eng2.TmpPath = dir
		eng2.RequestBodyInMem, eng2.RequestBody, eng2.ResponseBody = j.MemLim, j.ReqLim, j.ResLim
	}
	t2, err := eng2.NewTransaction()
	if err != nil {
		r.add(E{"err": "new"})
		return
	}
	if j.Dir == "blocked" {
		must(os.Remove(dir))
		must(ioutil.WriteFile(dir, nil, 0600))
	}
	defer setFileLimit(-1)
	away := filepath.Join(top, "away")
	for _, o := range j.Ops {
		tx := t
		if o.B == "req2" || o.B == "res2" {
			tx = t2
		}
		var b rwBuf = tx.Request.Body
		if o.B[:3] == "res" {
			b = tx.Response.Body
		}
		var n int
		var n64 int64
		var err error
		data := B{}
		switch o.O {
		case "write":
			p := large(o.P)
			n, err = b.Write(p)
			for i := range p { // the caller may reuse its memory
				p[i] ^= 0xff
			}
		case "append":
			p := large(o.P)
			if o.B[:3] == "req" {
				err = tx.AppendRequestBody(p)
			} else {
				err = tx.AppendResponseBody(p)
			}
			for i := range p {
				p[i] ^= 0xff
			}
			n = -1
		case "read":
			p := make([]byte, o.N*u)
			n, err = b.Read(p)
			data = small(p[:n])
		case "seek":
			n64, err = b.Seek(int64(o.Off*u), o.Wh)
			n = int(n64)
		case "copy":
			var w bytes.Buffer
			n64, err = b.WriteTo(&w)
			n, data = int(n64), small(w.Bytes())
		case "string":
			var s string
			s, err = b.String()
			n, data = len(s), small([]byte(s))
		case "bytes":
			var s []byte
			s, err = b.Bytes()
			n, data = len(s), small(append([]byte{}, s...))
		case "close":
			err = b.Close()
		case "dir":
			if o.N == 0 {
				must(os.Rename(dir, away))
			} else {
				must(os.Rename(away, dir))
			}
		case "full":
			if o.N > 0 {
				o.N *= u
			}
			setFileLimit(int64(o.N))
		default:
			panic("op " + o.O)
		}
		e := E{"err": errClass(err), "n": count(int64(n)), "data": data, "len": E{"req": count(t.Request.Body.Len()), "res": count(t.Response.Body.Len()),
			"req2": count(t2.Request.Body.Len()), "res2": count(t2.Response.Body.Len())}}
		if err != nil && (o.O == "seek" || o.O == "string" || o.O == "bytes") {
			e["n"], e["data"] = 0, B{}
		}
		fs, priv := filesIn(top)
		if j.Dir == "blocked" {
			fs--
		}
		e["files"], e["priv"] = fs, priv
		r.add(e)
	}
}
