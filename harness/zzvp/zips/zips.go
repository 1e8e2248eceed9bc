// Package zips makes zip files: natively real ones; in the engine the text is a
// token that the models of archive/zip look up.
package zips

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"os"
	"strconv"

	"github.com/uber/prototool/internal/zzvp/vp"
)

// Entry is a file of a zip file, or a directory when its name ends with a
// slash. Reading a bad one gives an error at its end.
type Entry struct {
	Name string
	Mode os.FileMode
	Data string
	Bad  bool
}

const token = "PK\x01zip"

var known [][]Entry

// Text is the content of a zip file.
func Text(l []Entry) string {
	if vp.Symbolic() {
		known = append(known, l)
		return token + strconv.Itoa(len(known)-1)
	}
	b := &bytes.Buffer{}
	w := zip.NewWriter(b)
	marks := [][2]string{}
	for i, e := range l {
		h := &zip.FileHeader{Name: e.Name, Method: zip.Store}
		h.SetMode(e.Mode)
		data := e.Data
		if e.Bad {
			data = "BADENTRY" + strconv.Itoa(i) + data
			marks = append(marks, [2]string{data, "XXX" + data[3:]})
		}
		f, err := w.CreateHeader(h)
		if err == nil && data != "" {
			_, err = f.Write([]byte(data))
		}
		if err != nil {
			panic(err)
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	s := b.Bytes()
	for _, m := range marks {
		s = bytes.Replace(s, []byte(m[0]), []byte(m[1]), 1)
	}
	return string(s)
}

type file struct {
	f *zip.File
	e Entry
}

var files []file

//vp:model archive/zip.NewReader
func zipNewReader(r io.ReaderAt, size int64) (*zip.Reader, error) {
	b := make([]byte, size)
	if n, err := r.ReadAt(b, 0); n < int(size) {
		return nil, err
	}
	for i, l := range known {
		if string(b) == token+strconv.Itoa(i) {
			z := &zip.Reader{}
			for _, e := range l {
				f := &zip.File{FileHeader: zip.FileHeader{Name: e.Name}}
				f.SetMode(e.Mode)
				z.File = append(z.File, f)
				files = append(files, file{f, e})
			}
			return z, nil
		}
	}
	return nil, zip.ErrFormat
}

type reader struct {
	data string
	bad  bool
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.bad {
			return 0, zip.ErrChecksum
		}
		return 0, io.EOF
	}
	n := copy(p, r.data)
	r.data = r.data[n:]
	return n, nil
}

func (r *reader) Close() error { return nil }

//vp:model (*archive/zip.File).Open
func zipOpen(f *zip.File) (io.ReadCloser, error) {
	for _, x := range files {
		if x.f == f {
			return &reader{x.e.Data, x.e.Bad}, nil
		}
	}
	return nil, errors.New("unknown file")
}
