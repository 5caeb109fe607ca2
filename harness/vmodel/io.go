package vmodel

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"
	"syscall"
	"time"
)

// Models of files, of the loopback network and of gzip, see vsym.

var files = map[string][]byte{}

type answer func() (int, string, string, []byte)

var answers = map[string]answer{}

const dir, host = "/scratch/", "http://127.0.0.1:4711/"

// PutFile models vsym.PutFile.
func PutFile(name string, b []byte) string {
	files[dir+name] = b
	return "file://" + dir + name
}

// ReadFile models os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	b, ok := files[name]
	if !ok {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	return append([]byte{}, b...), nil
}

type fileInfo struct {
	name string
	size int
}

func (f fileInfo) Name() string       { return f.name }
func (f fileInfo) Size() int64        { return int64(f.size) }
func (f fileInfo) Mode() os.FileMode  { return 0o644 }
func (f fileInfo) ModTime() time.Time { return time.Time{} }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() any           { return nil }

// Stat models os.Stat.
func Stat(name string) (os.FileInfo, error) {
	b, ok := files[name]
	if !ok {
		return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return fileInfo{name[strings.LastIndexByte(name, '/')+1:], len(b)}, nil
}

// Serve models vsym.Serve.
func Serve(path string, a func() (int, string, string, []byte)) string {
	answers[host+path] = a
	return host + path
}

// NewRequest models http.NewRequest.
func NewRequest(method, u string, body io.Reader) (*http.Request, error) {
	if strings.Contains(u, " ") {
		return nil, errors.New("invalid character in host name")
	}
	return &http.Request{Method: method, URL: &url.URL{Opaque: u}, Header: http.Header{}}, nil
}

// Do models (*http.Client).Do.
func Do(c *http.Client, r *http.Request) (*http.Response, error) {
	a := answers[r.URL.Opaque]
	if a == nil {
		if !strings.HasPrefix(r.URL.Opaque, host) {
			return nil, errors.New("no such host")
		}
		return &http.Response{StatusCode: 404, Status: "404", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil))}, nil
	}
	st, h, v, b := a()
	p := &http.Response{StatusCode: st, Status: "status", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b))}
	if h != "" {
		p.Header.Set(h, v)
	}
	return p, nil
}

func gunzip(b []byte) (data []byte, header, ok bool) { panic("native") }

type unzipped struct {
	r  *bytes.Reader
	ok bool
}

var zips = map[*gzip.Reader]*unzipped{}

// GzipNewReader models gzip.NewReader.
func GzipNewReader(r io.Reader) (*gzip.Reader, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(b) == 0 {
		return nil, io.EOF
	}
	d, header, ok := gunzip(b)
	if !header {
		return nil, gzip.ErrHeader
	}
	z := &gzip.Reader{}
	zips[z] = &unzipped{bytes.NewReader(d), ok}
	return z, nil
}

// GzipRead models (*gzip.Reader).Read.
func GzipRead(z *gzip.Reader, p []byte) (int, error) {
	u := zips[z]
	n, err := u.r.Read(p)
	if err == io.EOF && !u.ok {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// GzipClose models (*gzip.Reader).Close.
func GzipClose(z *gzip.Reader) error { return nil }

var open = map[*os.File]*bytes.Reader{}

// FileOpen models os.Open.
func FileOpen(name string) (*os.File, error) {
	b, err := ReadFile(name)
	if err != nil {
		return nil, err
	}
	f := new(os.File)
	open[f] = bytes.NewReader(b)
	return f, nil
}

// FileRead models (*os.File).Read.
func FileRead(f *os.File, p []byte) (int, error) {
	r := open[f]
	if r == nil {
		return 0, os.ErrClosed
	}
	return r.Read(p)
}

// FileWriteTo models (*os.File).WriteTo.
func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	r := open[f]
	if r == nil {
		return 0, os.ErrClosed
	}
	return r.WriteTo(w)
}

// FileClose models (*os.File).Close.
func FileClose(f *os.File) error {
	if open[f] == nil {
		return os.ErrClosed
	}
	delete(open, f)
	return nil
}

// NewRequestWithContext models http.NewRequestWithContext.
func NewRequestWithContext(_ context.Context, method, u string, body io.Reader) (*http.Request, error) {
	return NewRequest(method, u, body)
}

type decoder struct {
	r    io.Reader
	buf  []byte
	read bool
}

var decoders = map[*json.Decoder]*decoder{}

// JSONNewDecoder models json.NewDecoder.
func JSONNewDecoder(r io.Reader) *json.Decoder {
	d := &json.Decoder{}
	decoders[d] = &decoder{r: r}
	return d
}

func firstJSON(b []byte) (value, rest []byte, err string) { panic("native") }

// JSONDecode models (*json.Decoder).Decode.
func JSONDecode(d *json.Decoder, v any) error {
	m := decoders[d]
	if !m.read {
		b, err := io.ReadAll(m.r)
		if err != nil {
			return err
		}
		m.buf, m.read = b, true
	}
	if len(m.buf) == 0 {
		return io.EOF
	}
	value, rest, err := firstJSON(m.buf)
	if err != "" {
		return errors.New(err)
	}
	m.buf = rest
	return json.Unmarshal(value, v)
}

var encoders = map[*json.Encoder]io.Writer{}

// JSONNewEncoder models json.NewEncoder.
func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := &json.Encoder{}
	encoders[e] = w
	return e
}

// JSONEncode models (*json.Encoder).Encode.
func JSONEncode(e *json.Encoder, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = encoders[e].Write(append(b, '\n'))
	return err
}

func write(w io.Writer, s string) (int, error) {
	if f, ok := w.(*os.File); ok && open[f] == nil {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

// Models of functions of package fmt; what is written to standard output or error is lost.
func Fprint(w io.Writer, a ...any) (int, error)            { return write(w, fmt.Sprint(a...)) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return write(w, fmt.Sprintln(a...)) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return write(w, fmt.Sprintf(f, a...)) }
