package vfs

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/uber/prototool/internal/zzvp/vp"
)

const symRoot = "/vp"

// node is a file or directory; live says whether it is there now.
type node struct {
	path   string
	parent string
	dir    bool
	live   bool
	data   []byte
	mode   os.FileMode
	rules  []Rule
}

type handle struct {
	f      *os.File
	n      *node
	off    int
	read   bool
	write  bool
	append bool
	closed bool
}

type call struct{ path, args string }

var (
	nodes   []*node
	index   map[string]*node
	handles []*handle
	calls   []call
	cwd     string
	temps   int
	exits   []*exit
	env     map[string]string
	noDiff  bool
)

type exit struct {
	p    *os.ProcessState
	code int
}

func start() {
	if nodes == nil {
		cwd = symRoot
		index = map[string]*node{}
		for _, d := range []string{"/", symRoot, "/tmp", "/home"} {
			n := &node{path: d, parent: "/", dir: true, live: true, mode: 0755 | os.ModeDir}
			nodes = append(nodes, n)
			index[d] = n
		}
	}
}

func abs(p string) string {
	start()
	if !filepath.IsAbs(p) {
		p = filepath.Join(cwd, p)
	}
	return filepath.Clean(p)
}

// find is the live node at p.
func find(p string) *node {
	n := index[p]
	if n == nil {
		n = index[abs(p)]
	}
	if n != nil && n.live {
		return n
	}
	return nil
}

// put makes the node at p, live or not before.
func put(p string, dir bool) *node {
	p = abs(p)
	if n := index[p]; n != nil {
		n.dir, n.live, n.data, n.rules, n.mode = dir, true, nil, nil, 0644
		if dir {
			n.mode = 0755 | os.ModeDir
		}
		return n
	}
	n := &node{path: p, parent: filepath.Dir(p), dir: dir, live: true, mode: 0644}
	if dir {
		n.mode = 0755 | os.ModeDir
	}
	nodes = append(nodes, n)
	index[p] = n
	return n
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// missing is the error for a path with no node: ENOTDIR below a file.
func missing(op, p string) error {
	for d := filepath.Dir(abs(p)); d != "/"; d = filepath.Dir(d) {
		if n := find(d); n != nil {
			if !n.dir {
				return perr(op, p, syscall.ENOTDIR)
			}
			break
		}
	}
	return perr(op, p, syscall.ENOENT)
}

type info struct {
	name string
	size int64
	mode os.FileMode
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.mode&os.ModeDir != 0 }
func (i *info) Sys() interface{}   { return nil }

func infoOf(n *node) *info {
	return &info{name: filepath.Base(n.path), size: int64(len(n.data)), mode: n.mode}
}

//vp:model os.Stat
func osStat(p string) (os.FileInfo, error) {
	if p == "" {
		return nil, perr("stat", p, syscall.ENOENT)
	}
	n := find(p)
	if n == nil {
		return nil, missing("stat", p)
	}
	return infoOf(n), nil
}

//vp:model os.Lstat
func osLstat(p string) (os.FileInfo, error) {
	i, err := osStat(p)
	if err != nil {
		err.(*os.PathError).Op = "lstat"
	}
	return i, err
}

//vp:model os.Getwd
func osGetwd() (string, error) {
	start()
	return cwd, nil
}

//vp:model os.Getenv
func osGetenv(k string) string {
	if v, ok := env[k]; ok {
		return v
	}
	if k == "HOME" {
		return "/home"
	}
	return ""
}

//vp:model os.LookupEnv
func osLookupEnv(k string) (string, bool) {
	_, ok := env[k]
	return osGetenv(k), ok || k == "HOME"
}

//vp:model os.TempDir
func osTempDir() string { return "/tmp" }

//vp:model os.OpenFile
func osOpenFile(p string, flag int, mode os.FileMode) (*os.File, error) {
	n := find(p)
	if p == "" {
		return nil, perr("open", p, syscall.ENOENT)
	}
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, missing("open", p)
		}
		d := find(filepath.Dir(abs(p)))
		if d == nil {
			return nil, missing("open", p)
		}
		if !d.dir {
			return nil, perr("open", p, syscall.ENOTDIR)
		}
		n = put(p, false)
		n.mode = mode
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if n.dir && w {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = nil
		}
	}
	f := &os.File{}
	handles = append(handles, &handle{f: f, n: n, read: flag&os.O_WRONLY == 0, write: w, append: flag&os.O_APPEND != 0})
	return f, nil
}

//vp:model os.Open
func osOpen(p string) (*os.File, error) { return osOpenFile(p, os.O_RDONLY, 0) }

//vp:model os.Create
func osCreate(p string) (*os.File, error) {
	return osOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//vp:model os.ReadFile
func osReadFile(p string) ([]byte, error) {
	n := find(p)
	if n == nil {
		return nil, missing("open", p)
	}
	if n.dir {
		return nil, perr("read", p, syscall.EISDIR)
	}
	return append([]byte{}, n.data...), nil
}

//vp:model os.WriteFile
func osWriteFile(p string, data []byte, mode os.FileMode) error {
	f, err := osOpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	fileClose(f)
	return err
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	i := strings.LastIndex(pattern, "*")
	if i < 0 {
		return filepath.Join(dir, pattern+strconv.Itoa(temps))
	}
	return filepath.Join(dir, pattern[:i]+strconv.Itoa(temps)+pattern[i+1:])
}

//vp:model os.CreateTemp
func osCreateTemp(dir, pattern string) (*os.File, error) {
	return osOpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//vp:model os.MkdirTemp
func osMkdirTemp(dir, pattern string) (string, error) {
	p := tempName(dir, pattern)
	return p, osMkdir(p, 0700)
}

//vp:model os.Mkdir
func osMkdir(p string, mode os.FileMode) error {
	if find(p) != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	d := find(filepath.Dir(abs(p)))
	if d == nil {
		return missing("mkdir", p)
	}
	if !d.dir {
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	put(p, true)
	return nil
}

//vp:model os.MkdirAll
func osMkdirAll(p string, mode os.FileMode) error {
	if n := find(p); n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	if d := filepath.Dir(abs(p)); d != abs(p) {
		if err := osMkdirAll(d, mode); err != nil {
			return err
		}
	}
	put(p, true)
	return nil
}

func below(p, d string) bool { return d == "/" || strings.HasPrefix(p, d+"/") }

//vp:model os.Remove
func osRemove(p string) error {
	n := find(p)
	if n == nil {
		return missing("remove", p)
	}
	if n.dir {
		for _, m := range nodes {
			if below(m.path, n.path) && m.live {
				return perr("remove", p, syscall.ENOTEMPTY)
			}
		}
	}
	n.live = false
	return nil
}

//vp:model os.RemoveAll
func osRemoveAll(p string) error {
	p = abs(p)
	for _, m := range nodes {
		if m.path == p || below(m.path, p) {
			m.live = false
		}
	}
	return nil
}

//vp:model os.Rename
func osRename(a, b string) error {
	n := find(a)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if d := find(filepath.Dir(abs(b))); d == nil || !d.dir {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	a, b = abs(a), abs(b)
	if a == b {
		return nil
	}
	if t := find(b); t != nil {
		if t.dir && !n.dir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
		}
		if !t.dir && n.dir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOTDIR}
		}
		if t.dir {
			for _, m := range nodes {
				if below(m.path, b) && m.live {
					return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
				}
			}
		}
	}
	for _, m := range nodes {
		if (m.path == a || below(m.path, a)) && m.live {
			t := put(b+m.path[len(a):], m.dir)
			t.data, t.mode, t.rules = m.data, m.mode, m.rules
			m.live = false
		}
	}
	return nil
}

//vp:model os.Chmod
func osChmod(p string, mode os.FileMode) error {
	n := find(p)
	if n == nil {
		return missing("chmod", p)
	}
	n.mode = mode | n.mode&os.ModeDir
	return nil
}

func names(d string) []string {
	d = abs(d)
	var l []string
	for _, m := range nodes {
		if m.parent == d && m.path != "/" && m.live {
			s := filepath.Base(m.path)
			i := len(l)
			l = append(l, s)
			for i > 0 && l[i-1] > s {
				l[i] = l[i-1]
				i--
			}
			l[i] = s
		}
	}
	return l
}

//vp:model path/filepath.readDirNames
func readDirNames(d string) ([]string, error) {
	n := find(d)
	if n == nil {
		return nil, missing("open", d)
	}
	if !n.dir {
		return nil, perr("readdirent", d, syscall.ENOTDIR)
	}
	return names(d), nil
}

//vp:model os.ReadDir
func osReadDir(d string) ([]os.DirEntry, error) {
	ns, err := readDirNames(d)
	if err != nil {
		return nil, err
	}
	var l []os.DirEntry
	for _, s := range ns {
		l = append(l, fs.FileInfoToDirEntry(infoOf(find(filepath.Join(d, s)))))
	}
	return l, nil
}

func hOf(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	if f == os.Stdout || f == os.Stderr || f == os.Stdin {
		vp.Unsupported("standard files")
	}
	return nil
}

//vp:model (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h := hOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	if h.off >= len(h.n.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += n
	return n, nil
}

//vp:model (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	h := hOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	if !h.write {
		return 0, perr("write", h.n.path, syscall.EBADF)
	}
	if h.append {
		h.off = len(h.n.data)
	}
	d := append([]byte{}, h.n.data[:h.off]...)
	d = append(d, b...)
	if e := h.off + len(b); e < len(h.n.data) {
		d = append(d, h.n.data[e:]...)
	}
	h.n.data = d
	h.off += len(b)
	return len(b), nil
}

//vp:model (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//vp:model (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := fileWrite(f, b)
	return int64(n), err
}

//vp:model (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	h := hOf(f)
	n, err := w.Write(h.n.data[h.off:])
	h.off += n
	return int64(n), err
}

//vp:model (*os.File).Close
func fileClose(f *os.File) error {
	h := hOf(f)
	if h == nil || h.closed {
		return os.ErrClosed
	}
	h.closed = true
	return nil
}

//vp:model (*os.File).Sync
func fileSync(f *os.File) error { return nil }

//vp:model (*os.File).Name
func fileName(f *os.File) string { return hOf(f).n.path }

//vp:model (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) { return infoOf(hOf(f).n), nil }

//vp:model (*os.File).Readdirnames
func fileReaddirnames(f *os.File, n int) ([]string, error) { return readDirNames(hOf(f).n.path) }

//vp:model (*os.File).ReadDir
func fileReadDir(f *os.File, n int) ([]os.DirEntry, error) { return osReadDir(hOf(f).n.path) }

//vp:model (*os.File).Truncate
func fileTruncate(f *os.File, n int64) error {
	h := hOf(f)
	if int(n) > len(h.n.data) {
		vp.Unsupported("growing by truncation")
	}
	h.n.data = append([]byte{}, h.n.data[:n]...)
	return nil
}

//vp:model (*os.File).Seek
func fileSeek(f *os.File, off int64, whence int) (int64, error) {
	h := hOf(f)
	switch whence {
	case io.SeekStart:
		h.off = int(off)
	case io.SeekCurrent:
		h.off += int(off)
	case io.SeekEnd:
		h.off = len(h.n.data) + int(off)
	}
	return int64(h.off), nil
}

// ---- programs ----

//vp:model os/exec.Command
func execCommand(name string, args ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
}

//vp:model os/exec.CommandContext
func execCommandContext(ctx context.Context, name string, args ...string) *exec.Cmd {
	return execCommand(name, args...)
}

//vp:model os/exec.LookPath
func execLookPath(name string) (string, error) {
	if strings.Contains(name, "/") {
		n := find(name)
		if n != nil && !n.dir && n.mode&0111 != 0 {
			return name, nil
		}
		return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
	}
	if n := find(Path("onpath/" + name)); n != nil {
		return n.path, nil
	}
	if name == "diff" && !noDiff {
		return "/usr/bin/diff", nil
	}
	return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
}

// mDiff is the program diff with -u: all of one file replaced by the other.
func mDiff(c *exec.Cmd) int {
	var files []string
	for _, a := range c.Args[1:] {
		if strings.HasPrefix(a, "-") && a != "-u" && a != "--unified" {
			vp.Unsupported("diff with " + a)
		}
		if !strings.HasPrefix(a, "-") {
			files = append(files, a)
		}
	}
	if len(files) != 2 || c.Stdout == nil {
		vp.Unsupported("diff of other than two files")
	}
	a, b := find(files[0]), find(files[1])
	if a == nil || b == nil || a.dir || b.dir {
		if c.Stderr != nil {
			c.Stderr.Write([]byte("diff: no such file\n"))
		}
		return 2
	}
	if string(a.data) == string(b.data) {
		return 0
	}
	x, n := diffLines("-", string(a.data))
	y, m := diffLines("+", string(b.data))
	c.Stdout.Write([]byte("--- " + files[0] + "\t2020-01-01 00:00:00.000000000 +0000\n+++ " + files[1] + "\t2020-01-01 00:00:00.000000001 +0000\n@@ -" + n + " +" + m + " @@\n" + x + y))
	return 1
}

// diffLines has every line of s with a mark before, and the range of lines.
func diffLines(mark, s string) (string, string) {
	out, n := "", 0
	for s != "" {
		n++
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			out += mark + s + "\n\\ No newline at end of file\n"
			break
		}
		out += mark + s[:i+1]
		s = s[i+1:]
	}
	switch n {
	case 0:
		return out, "0,0"
	case 1:
		return out, "1"
	}
	return out, "1," + strconv.Itoa(n)
}

//vp:model (*os/exec.Cmd).Run
func cmdRun(c *exec.Cmd) error {
	if c.Path == "diff" && noDiff {
		return &exec.Error{Name: "diff", Err: exec.ErrNotFound}
	}
	if c.Path == "diff" || c.Path == "/usr/bin/diff" && find(c.Path) == nil {
		return exited(c, mDiff(c))
	}
	n := find(c.Path)
	if !strings.Contains(c.Path, "/") {
		n = find(Path("onpath/" + c.Path))
		if n == nil {
			return &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
		}
	}
	if n == nil || n.dir {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	if n.mode&0111 == 0 {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EACCES}
	}
	args := strings.Join(c.Args[1:], "\n")
	calls = append(calls, call{n.path, args})
	code := 99
	rules := n.rules
	for i, l := range scripts {
		if string(n.data) == scriptToken+strconv.Itoa(i) {
			rules = l
		}
	}
	for _, r := range rules {
		if strings.Contains("\n"+args+"\n", r.Match) {
			if r.Stdout != "" && c.Stdout != nil {
				c.Stdout.Write([]byte(r.Stdout))
			}
			if r.Stderr != "" && c.Stderr != nil {
				c.Stderr.Write([]byte(r.Stderr))
			}
			for i, a := range c.Args {
				if r.Out != "" && a == "-o" && i+1 < len(c.Args) {
					if osWriteFile(c.Args[i+1], []byte(r.Out), 0644) != nil {
						vp.Unsupported("an output of a program that cannot be written")
					}
				}
			}
			if r.Copy != "" {
				copyTree(Path(r.Copy), c.Args[len(c.Args)-1])
			}
			code = r.Exit
			break
		}
	}
	return exited(c, code)
}

// copyTree copies the nodes below a directory.
func copyTree(from, to string) {
	for _, n := range append([]*node(nil), nodes...) {
		if n.live && strings.HasPrefix(n.path, from+"/") {
			m := put(abs(to)+n.path[len(from):], n.dir)
			m.data, m.mode = n.data, n.mode
		}
	}
}

func exited(c *exec.Cmd, code int) error {
	p := &os.ProcessState{}
	c.ProcessState = p
	exits = append(exits, &exit{p, code})
	if code != 0 {
		return &exec.ExitError{ProcessState: p}
	}
	return nil
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

//vp:model (*os/exec.Cmd).Output
func cmdOutput(c *exec.Cmd) ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	s := &sink{}
	c.Stdout = s
	err := cmdRun(c)
	return s.b, err
}

//vp:model (*os/exec.Cmd).CombinedOutput
func cmdCombinedOutput(c *exec.Cmd) ([]byte, error) {
	s := &sink{}
	c.Stdout, c.Stderr = s, s
	err := cmdRun(c)
	return s.b, err
}

//vp:model (*os.ProcessState).ExitCode
func procExitCode(p *os.ProcessState) int {
	for _, e := range exits {
		if e.p == p {
			return e.code
		}
	}
	return -1
}

//vp:model (*os.ProcessState).String
func procString(p *os.ProcessState) string { return "exit status " + strconv.Itoa(procExitCode(p)) }

//vp:model os/signal.Notify
func mNotify(c chan<- os.Signal, sig ...os.Signal) {}
