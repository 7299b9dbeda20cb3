package world

// A file system replacing the os package's under symbolic execution. Natively
// the harnesses work on real files in v.TempDir().

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"recengine/internal/zzverif/v"
)

type node struct {
	path string
	dir  bool
	data []byte
	perm os.FileMode
}

type handle struct {
	f      *os.File
	n      *node
	name   string
	pos    int
	add    bool
	rd, wr bool
	closed bool
}

var (
	nodes   []*node
	handles []*handle
	limit   = -1
	temps   = 0
	mortal  = false // the process may die at any change of a file
	dead    = false
)

// dies tells whether the process is dead when it is about to change a file.
func dies() bool {
	if mortal && !dead && v.Bool("dies now") {
		dead = true
		return true
	}
	return dead
}

func isClean(p string) bool {
	return len(p) > 1 && p[0] == '/' && p[len(p)-1] != '/' &&
		!strings.Contains(p, "//") && !strings.Contains(p, "/.")
}

func clean(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = v.TempDir() + "/" + p
	}
	if isClean(p) {
		return p
	}
	var parts []string
	for _, x := range strings.Split(p, "/") {
		switch x {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, x)
		}
	}
	return "/" + strings.Join(parts, "/")
}

func parent(p string) string {
	i := strings.LastIndex(p, "/")
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

func lookup(p string) *node {
	for _, n := range nodes {
		if n.path == p {
			return n
		}
	}
	if p == "/" || p == "/tmp" || p == v.TempDir() {
		return &node{path: p, dir: true}
	}
	return nil
}

func fail(op, name string, e syscall.Errno) error {
	return &fs.PathError{Op: op, Path: name, Err: e}
}

// inDir checks that the directory of a clean path exists.
func inDir(p string) syscall.Errno {
	d := lookup(parent(p))
	if d == nil {
		return syscall.ENOENT
	}
	if !d.dir {
		return syscall.ENOTDIR
	}
	return 0
}

//verif:subst os.OpenFile
func openFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	p := clean(name)
	if p == "" {
		return nil, fail("open", name, syscall.ENOENT)
	}
	n := lookup(p)
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if e := inDir(p); e != 0 {
			return nil, fail("open", name, e)
		}
		if flag&os.O_CREATE == 0 {
			return nil, fail("open", name, syscall.ENOENT)
		}
		if dies() {
			return nil, fail("open", name, syscall.EIO)
		}
		n = &node{path: p, perm: perm & 0755}
		nodes = append(nodes, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, fail("open", name, syscall.EEXIST)
		}
		if n.dir && (acc != os.O_RDONLY || flag&os.O_CREATE != 0) {
			return nil, fail("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			if dies() {
				return nil, fail("open", name, syscall.EIO)
			}
			n.data = nil
		}
	}
	h := &handle{
		f: new(os.File), n: n, name: name, add: flag&os.O_APPEND != 0,
		rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY,
	}
	handles = append(handles, h)
	return h.f, nil
}

//verif:subst os.Open
func open(name string) (*os.File, error) { return openFile(name, os.O_RDONLY, 0) }

//verif:subst os.Create
func create(name string) (*os.File, error) {
	return openFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func tempName(pattern string) string {
	s := string([]byte{'0' + byte(temps/10%10), '0' + byte(temps%10)})
	temps++
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return pattern[:i] + s + pattern[i+1:]
	}
	return pattern + s
}

//verif:subst os.CreateTemp
func createTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for {
		name := tempName(pattern)
		f, err := openFile(dir+"/"+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

func find(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	for _, h := range handles {
		if h.f == f {
			if h.closed {
				return nil, &fs.PathError{Op: op, Path: h.name, Err: os.ErrClosed}
			}
			return h, nil
		}
	}
	return nil, os.ErrInvalid
}

func (h *handle) readAt(b []byte, pos int) (int, error) {
	if !h.rd {
		return 0, fail("read", h.name, syscall.EBADF)
	}
	if h.n.dir {
		return 0, fail("read", h.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if pos >= len(h.n.data) {
		return 0, io.EOF
	}
	return copy(b, h.n.data[pos:]), nil
}

func (h *handle) writeAt(b []byte, pos int) (int, error) {
	if !h.wr {
		return 0, fail("write", h.name, syscall.EBADF)
	}
	var err error
	if limit >= 0 && pos+len(b) > limit {
		err = fail("write", h.name, syscall.EFBIG)
		k := limit - pos
		if k < 0 {
			k = 0
		}
		b = b[:k]
	}
	if len(b) == 0 {
		return 0, err
	}
	if was := dead; dies() {
		err = fail("write", h.name, syscall.EIO)
		if was || len(b) < 2 {
			return 0, err
		}
		// some of the bytes may have been written
		b = b[:[]int{0, 1, len(b) / 2, len(b) - 1}[v.Choose("written", 4)]]
		if len(b) == 0 {
			return 0, err
		}
	}
	d := h.n.data
	for len(d) < pos {
		d = append(d, 0)
	}
	n := copy(d[pos:], b)
	h.n.data = append(d, b[n:]...)
	return len(b), err
}

//verif:subst (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h, err := find(f, "read")
	if err != nil {
		return 0, err
	}
	n, err := h.readAt(b, h.pos)
	h.pos += n
	return n, err
}

//verif:subst (*os.File).ReadAt
func fileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := find(f, "read")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, fail("readat", h.name, syscall.EINVAL)
	}
	n, err := h.readAt(b, int(off))
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

var std []*os.File

// newFile makes the standard streams.
//
//verif:subst os.NewFile
func newFile(fd uintptr, name string) *os.File {
	f := &os.File{}
	std = append(std, f)
	return f
}

//verif:subst (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	for _, s := range std {
		if s == f {
			return len(b), nil
		}
	}
	h, err := find(f, "write")
	if err != nil {
		return 0, err
	}
	if h.add {
		h.pos = len(h.n.data)
	}
	n, err := h.writeAt(b, h.pos)
	h.pos += n
	return n, err
}

//verif:subst (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//verif:subst (*os.File).WriteAt
func fileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := find(f, "write")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, fail("writeat", h.name, syscall.EINVAL)
	}
	return h.writeAt(b, int(off))
}

//verif:subst (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	var total int64
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := fileWrite(f, buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

//verif:subst (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	var total int64
	buf := make([]byte, 512)
	for {
		n, err := fileRead(f, buf)
		if n > 0 {
			k, werr := w.Write(buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

//verif:subst (*os.File).Seek
func fileSeek(f *os.File, offset int64, whence int) (int64, error) {
	h, err := find(f, "seek")
	if err != nil {
		return 0, err
	}
	p := offset
	switch whence {
	case io.SeekCurrent:
		p += int64(h.pos)
	case io.SeekEnd:
		p += int64(len(h.n.data))
	}
	if p < 0 {
		return 0, fail("seek", h.name, syscall.EINVAL)
	}
	h.pos = int(p)
	return p, nil
}

//verif:subst (*os.File).Truncate
func fileTruncate(f *os.File, size int64) error {
	h, err := find(f, "truncate")
	if err != nil {
		return err
	}
	if size < 0 || !h.wr {
		return fail("truncate", h.name, syscall.EINVAL)
	}
	return h.n.resize(h.name, int(size))
}

func (n *node) resize(name string, size int) error {
	if limit >= 0 && size > limit && size > len(n.data) {
		return fail("truncate", name, syscall.EFBIG)
	}
	if size != len(n.data) && dies() {
		return fail("truncate", name, syscall.EIO)
	}
	for len(n.data) < size {
		n.data = append(n.data, 0)
	}
	n.data = n.data[:size]
	return nil
}

//verif:subst os.Truncate
func truncate(name string, size int64) error {
	n := lookup(clean(name))
	if n == nil {
		return fail("truncate", name, syscall.ENOENT)
	}
	if n.dir {
		return fail("truncate", name, syscall.EISDIR)
	}
	if size < 0 {
		return fail("truncate", name, syscall.EINVAL)
	}
	return n.resize(name, int(size))
}

//verif:subst (*os.File).Close
func fileClose(f *os.File) error {
	h, err := find(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

//verif:subst (*os.File).Sync
func fileSync(f *os.File) error {
	_, err := find(f, "sync")
	return err
}

//verif:subst (*os.File).Chmod
func fileChmod(f *os.File, mode os.FileMode) error {
	h, err := find(f, "chmod")
	if err == nil {
		h.n.perm = mode & 0777
	}
	return err
}

//verif:subst (*os.File).Name
func fileName(f *os.File) string {
	for _, h := range handles {
		if h.f == f {
			return h.name
		}
	}
	return ""
}

type info struct {
	name string
	dir  bool
	size int64
	perm os.FileMode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return i.perm
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

func (n *node) info() os.FileInfo {
	return info{n.path[strings.LastIndex(n.path, "/")+1:], n.dir, int64(len(n.data)), n.perm}
}

//verif:subst (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	h, err := find(f, "stat")
	if err != nil {
		return nil, err
	}
	return h.n.info(), nil
}

//verif:subst os.Stat
func stat(name string) (os.FileInfo, error) {
	p := clean(name)
	n := lookup(p)
	if p == "" || n == nil {
		return nil, fail("stat", name, syscall.ENOENT)
	}
	return n.info(), nil
}

//verif:subst os.Lstat
func lstat(name string) (os.FileInfo, error) { return stat(name) }

//verif:subst os.ReadFile
func readFile(name string) ([]byte, error) {
	f, err := openFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	h := handles[len(handles)-1]
	h.closed = true
	if h.n.dir {
		return nil, fail("read", name, syscall.EISDIR)
	}
	_ = f
	return append([]byte{}, h.n.data...), nil
}

//verif:subst os.WriteFile
func writeFile(name string, data []byte, perm os.FileMode) error {
	f, err := openFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	fileClose(f)
	return err
}

func drop(n *node) {
	var rest []*node
	for _, x := range nodes {
		if x != n {
			rest = append(rest, x)
		}
	}
	nodes = rest
}

func hasChildren(p string) bool {
	for _, x := range nodes {
		if strings.HasPrefix(x.path, p+"/") {
			return true
		}
	}
	return false
}

//verif:subst os.Rename
func rename(from, to string) error {
	bad := func(e syscall.Errno) error {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	pf, pt := clean(from), clean(to)
	n := lookup(pf)
	if pf == "" || pt == "" || n == nil {
		return bad(syscall.ENOENT)
	}
	if e := inDir(pt); e != 0 {
		return bad(e)
	}
	if pf == pt {
		return nil
	}
	if dies() {
		return bad(syscall.EIO)
	}
	t := lookup(pt)
	if t != nil {
		if t.dir && !n.dir {
			return bad(syscall.EEXIST)
		}
		if !t.dir && n.dir {
			return bad(syscall.ENOTDIR)
		}
		if t.dir && hasChildren(pt) {
			return bad(syscall.ENOTEMPTY)
		}
		drop(t)
	}
	for _, x := range nodes {
		if strings.HasPrefix(x.path, pf+"/") {
			x.path = pt + x.path[len(pf):]
		}
	}
	n.path = pt
	return nil
}

//verif:subst os.Remove
func remove(name string) error {
	p := clean(name)
	n := lookup(p)
	if p == "" || n == nil {
		return fail("remove", name, syscall.ENOENT)
	}
	if n.dir && hasChildren(p) {
		return fail("remove", name, syscall.ENOTEMPTY)
	}
	if dies() {
		return fail("remove", name, syscall.EIO)
	}
	drop(n)
	return nil
}

//verif:subst os.RemoveAll
func removeAll(name string) error {
	p := clean(name)
	if dies() {
		return fail("unlinkat", name, syscall.EIO)
	}
	var rest []*node
	for _, x := range nodes {
		if x.path != p && !strings.HasPrefix(x.path, p+"/") {
			rest = append(rest, x)
		}
	}
	nodes = rest
	return nil
}

//verif:subst os.Mkdir
func mkdir(name string, perm os.FileMode) error {
	p := clean(name)
	if p == "" {
		return fail("mkdir", name, syscall.ENOENT)
	}
	if lookup(p) != nil {
		return fail("mkdir", name, syscall.EEXIST)
	}
	if e := inDir(p); e != 0 {
		return fail("mkdir", name, e)
	}
	if dies() {
		return fail("mkdir", name, syscall.EIO)
	}
	nodes = append(nodes, &node{path: p, dir: true})
	return nil
}

//verif:subst os.MkdirAll
func mkdirAll(name string, perm os.FileMode) error {
	p := clean(name)
	if p == "" {
		return nil
	}
	for i := 1; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		n := lookup(p[:i])
		if n == nil {
			if p[:i] == "" {
				continue
			}
			if dies() {
				return fail("mkdir", name, syscall.EIO)
			}
			nodes = append(nodes, &node{path: p[:i], dir: true})
		} else if !n.dir {
			return fail("mkdir", name, syscall.ENOTDIR)
		}
	}
	return nil
}

//verif:subst os.MkdirTemp
func mkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for {
		name := dir + "/" + tempName(pattern)
		err := mkdir(name, 0700)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		if err != nil {
			return "", err
		}
		return name, nil
	}
}

//verif:subst os.Link
func link(from, to string) error {
	bad := func(e syscall.Errno) error {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	n, pt := lookup(clean(from)), clean(to)
	if n == nil || pt == "" {
		return bad(syscall.ENOENT)
	}
	if e := inDir(pt); e != 0 {
		return bad(e)
	}
	if lookup(pt) != nil {
		return bad(syscall.EEXIST)
	}
	v.Fail("model: no hard links")
	return nil
}

// list is the contents of a directory, sorted.
func list(p string) []os.FileInfo {
	var r []os.FileInfo
	for _, n := range nodes {
		if parent(n.path) == p {
			r = append(r, n.info())
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

//verif:subst os.ReadDir
func readDir(name string) ([]os.DirEntry, error) {
	n := lookup(clean(name))
	if n == nil {
		return nil, fail("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, fail("readdirent", name, syscall.ENOTDIR)
	}
	var r []os.DirEntry
	for _, i := range list(n.path) {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, nil
}

//verif:subst (*os.File).Readdir
func fileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	h, err := find(f, "readdirent")
	if err != nil {
		return nil, err
	}
	if !h.n.dir {
		return nil, fail("readdirent", h.name, syscall.ENOTDIR)
	}
	all := list(h.n.path)
	if h.pos < len(all) {
		all = all[h.pos:]
	} else {
		all = nil
	}
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	h.pos += len(all)
	return all, nil
}

//verif:subst (*os.File).ReadDir
func fileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	all, err := fileReaddir(f, n)
	var r []os.DirEntry
	for _, i := range all {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, err
}

//verif:subst (*os.File).Readdirnames
func fileReaddirnames(f *os.File, n int) ([]string, error) {
	all, err := fileReaddir(f, n)
	var r []string
	for _, i := range all {
		r = append(r, i.Name())
	}
	return r, err
}

//verif:subst os.Chdir
func chdir(name string) error {
	if clean(name) != v.TempDir() {
		v.Fail("model: only the scratch directory can be the working directory")
	}
	return nil
}

//verif:subst os.Getwd
func getwd() (string, error) { return v.TempDir(), nil }

//verif:subst os.Chmod
func chmod(name string, mode os.FileMode) error {
	n := lookup(clean(name))
	if n == nil {
		return fail("chmod", name, syscall.ENOENT)
	}
	n.perm = mode & 0777
	return nil
}

// LimitFiles makes writes beyond the first n bytes of any file fail (-1: no limit).
func LimitFiles(n int) {
	if !v.Native() {
		limit = n
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	var r syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
	r.Cur = r.Max
	if n >= 0 {
		r.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

// OpenFiles counts the open files in the scratch directory.
func OpenFiles() int {
	k := 0
	if !v.Native() {
		for _, h := range handles {
			if !h.closed {
				k++
			}
		}
		return k
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, e := range fds {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			if strings.HasPrefix(t, v.TempDir()) {
				k++
			}
		}
	}
	return k
}

// Files lists the files (not directories) of the scratch directory, sorted.
func Files() []string {
	var r []string
	if !v.Native() {
		for _, n := range nodes {
			if !n.dir {
				r = append(r, n.path)
			}
		}
	} else {
		filepath.WalkDir(v.TempDir(), func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				r = append(r, p)
			}
			return nil
		})
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// Has tells whether a name is in the list.
func Has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// Dying sets a directory up, and lets the process die at any change of a file
// while during works on it. Afterwards the files are as they were then.
func Dying(setup, during func(dir string), after func(dir string, died bool)) {
	dies := v.Bool("dies")
	if dies {
		v.Option("nondet", 1) // a native run may not catch the moment
	}
	if !v.Native() {
		dir := v.TempDir() + "/d/"
		v.Assert(os.Mkdir(dir, 0755) == nil, "the directory is made")
		setup(dir)
		mortal = dies
		during(dir)
		mortal, dead = false, false
		for _, h := range handles {
			h.closed = true
		}
		after(dir, dies)
		return
	}
	if !dies {
		dir := v.TempDir() + "/d/"
		v.Assert(os.Mkdir(dir, 0755) == nil, "the directory is made")
		setup(dir)
		during(dir)
		after(dir, false)
		return
	}
	// natively: look at the files while they are being changed
	tried := map[string]bool{}
	for i := 0; i < 400; i++ {
		dir := v.TempDir() + "/d" + strconv.Itoa(i) + "/"
		v.Assert(os.Mkdir(dir, 0755) == nil, "the directory is made")
		setup(dir)
		var states []map[string]string
		stop, done := make(chan bool), make(chan bool)
		go func() {
			last := ""
			for {
				a := snapshot(dir)
				b := snapshot(dir)
				if key := fmt.Sprint(a); fmt.Sprint(b) == key && key != last {
					last = key
					states = append(states, a)
				}
				select {
				case <-stop:
					close(done)
					return
				default:
				}
			}
		}()
		during(dir)
		close(stop)
		<-done
		for k, st := range states {
			if key := fmt.Sprint(st); tried[key] {
				continue
			} else {
				tried[key] = true
			}
			again := v.TempDir() + "/d" + strconv.Itoa(i) + "." + strconv.Itoa(k) + "/"
			v.Assert(os.Mkdir(again, 0755) == nil, "the directory is made")
			for name, data := range st {
				v.Assert(os.WriteFile(again+name, []byte(data), 0644) == nil, "a file is written")
			}
			after(again, true)
		}
		os.RemoveAll(dir)
	}
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if b, err := os.ReadFile(dir + e.Name()); err == nil {
			m[e.Name()] = string(b)
		}
	}
	return m
}
