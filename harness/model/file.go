package model

import (
	"errors"
	"io"
	"os"
)

// Files in memory, in place of os.File. One process uses them; a write is
// complete and in order, as on a local file system.

type inode struct {
	name string
	data []byte
}

type handle struct {
	f      *os.File
	ino    *inode
	pos    int64
	closed bool
	app    bool
	ro, wo bool
}

var (
	inodes  []*inode
	handles []*handle

	errNotExist = errors.New("file does not exist")
	errExist    = errors.New("file already exists")
	errClosed   = errors.New("file already closed")
	errInvalid  = errors.New("invalid argument")
	errMode     = errors.New("bad file descriptor")
)

func lookup(name string) *inode {
	for _, i := range inodes {
		if i.name == name {
			return i
		}
	}
	return nil
}

func hnd(f *os.File) (*handle, error) {
	if f == nil {
		return nil, errInvalid
	}
	for _, h := range handles {
		if h.f == f {
			if h.closed {
				return nil, errClosed
			}
			return h, nil
		}
	}
	return nil, errInvalid
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	i := lookup(name)
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, errNotExist
		}
		i = &inode{name: name}
		inodes = append(inodes, i)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, errExist
	}
	if flag&os.O_TRUNC != 0 {
		i.data = nil
	}
	f := new(os.File)
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	handles = append(handles, &handle{f: f, ino: i, app: flag&os.O_APPEND != 0, ro: acc == os.O_RDONLY, wo: acc == os.O_WRONLY})
	return f, nil
}

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func FileClose(f *os.File) error {
	h, err := hnd(f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

func FileSync(f *os.File) error {
	_, err := hnd(f)
	return err
}

func FileName(f *os.File) string {
	h, err := hnd(f)
	if err != nil {
		return ""
	}
	return h.ino.name
}

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := hnd(f)
	if err != nil {
		return 0, err
	}
	p := off
	switch whence {
	case 0:
	case 1:
		p += h.pos
	case 2:
		p += int64(len(h.ino.data))
	default:
		return 0, errInvalid
	}
	if p < 0 {
		return 0, errInvalid
	}
	h.pos = p
	return p, nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	h, err := hnd(f)
	if err != nil {
		return 0, err
	}
	if h.wo {
		return 0, errMode
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.data[h.pos:])
	h.pos += int64(n)
	return n, nil
}

func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hnd(f)
	if err != nil {
		return 0, err
	}
	if h.wo {
		return 0, errMode
	}
	if off < 0 {
		return 0, errInvalid
	}
	if off > int64(len(h.ino.data)) {
		off = int64(len(h.ino.data))
	}
	n := copy(b, h.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func put(h *handle, b []byte, off int64) {
	if int64(len(h.ino.data)) < off {
		h.ino.data = append(h.ino.data, make([]byte, off-int64(len(h.ino.data)))...)
	}
	n := copy(h.ino.data[off:], b)
	h.ino.data = append(h.ino.data, b[n:]...)
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h, err := hnd(f)
	if err != nil {
		return 0, err
	}
	if h.ro {
		return 0, errMode
	}
	if h.app {
		h.pos = int64(len(h.ino.data))
	}
	put(h, b, h.pos)
	h.pos += int64(len(b))
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := hnd(f)
	if err != nil {
		return 0, err
	}
	if h.ro || h.app {
		return 0, errMode
	}
	if off < 0 {
		return 0, errInvalid
	}
	put(h, b, off)
	return len(b), nil
}

func (i *inode) truncate(n int64) error {
	if n < 0 {
		return errInvalid
	}
	if n > int64(len(i.data)) {
		i.data = append(i.data, make([]byte, n-int64(len(i.data)))...)
	}
	i.data = i.data[:n]
	return nil
}

func FileTruncate(f *os.File, n int64) error {
	h, err := hnd(f)
	if err != nil {
		return err
	}
	if h.ro {
		return errInvalid
	}
	return h.ino.truncate(n)
}

func Truncate(name string, n int64) error {
	i := lookup(name)
	if i == nil {
		return errNotExist
	}
	return i.truncate(n)
}

func ReadFile(name string) ([]byte, error) {
	i := lookup(name)
	if i == nil {
		return nil, errNotExist
	}
	return append([]byte{}, i.data...), nil
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	i := lookup(name)
	if i == nil {
		i = &inode{name: name}
		inodes = append(inodes, i)
	}
	i.data = append([]byte{}, b...)
	return nil
}
