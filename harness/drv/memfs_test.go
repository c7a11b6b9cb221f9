package drv

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"
)

// memfs is a file system implementation in memory, to put a driver on. It does
// exactly what disko.FileSystemImplementer asks of implementations. It records
// every breach of what the interface guarantees to implementations, counts open
// handles, and can be told to fail.
type memfs struct {
	c        *pbt.C
	root     *node
	bs       int
	features disko.FSFeatures
	attrs    bool     // handles support Chmod and so on
	dots     []string // "." and "..", or one of them, if directories list them
	garbage  byte
	nextID   uint64

	breaches   []string        // violated guarantees
	missing    []string        // names of nonexistent objects that were asked for
	open       map[*handle]int // open handles, and where they were opened
	opened     int
	calls      int
	extraCalls int // are fine as well
	inodes     int // how they are numbered

	failClose bool // the next Close fails

	missingMethods map[string]bool // what handles leave to driver.NopObjectHandle
	nopCalls       []string        // calls of these

	failIn    int // the failIn-th fallible call from now fails, 0 = none
	failWhat  string
	fault     disko.DriverError
	delivered string // the call that failed

	chtimes []time.Time // arguments of the last Chtimes
}

type node struct {
	id       uint64
	mode     os.FileMode
	data     []byte // whole blocks
	size     int64
	kids     map[string]*node
	parent   *node
	nlink    int
	uid, gid int
	atime    time.Time
	mtime    time.Time
	ctime    time.Time
	dead     bool
}

func newMemfs(c *pbt.C, bs int) *memfs {
	fs := &memfs{c: c, bs: bs, open: map[*handle]int{}, attrs: true, garbage: 0xD7}
	fs.features = disko.FSFeatures{
		HasDirectories: true, HasSymbolicLinks: true, HasHardLinks: true, HasCreatedTime: true, HasAccessedTime: true,
		HasModifiedTime: true, HasChangedTime: true, HasUnixPermissions: true, HasUserID: true, HasGroupID: true,
		DefaultNameEncoding: "utf8", DefaultBlockSize: bs,
	}
	fs.root = fs.newNode(os.ModeDir|0o755, nil)
	return fs
}

// inode gives the inode number of an object. What they look like is up to file
// systems.
func (fs *memfs) inode(id uint64) uint64 {
	switch fs.inodes {
	case 1:
		return id << 32
	case 2:
		return id>>1 | id<<63
	case 3:
		return ^id
	}
	return id
}

func (fs *memfs) newNode(mode os.FileMode, parent *node) *node {
	fs.nextID++
	n := &node{id: fs.nextID, mode: mode, parent: parent, nlink: 1, uid: 1, gid: 1}
	if mode.IsDir() {
		n.kids = map[string]*node{}
	}
	stamp := time.Date(2001, 2, 3, 4, 5, int(fs.nextID), 0, time.UTC)
	n.atime, n.mtime, n.ctime = stamp, stamp, stamp
	return n
}

// errMisuse is what calls return that the contract rules out; drivers can't rely
// on implementations telling them what was wrong.
var errMisuse = disko.ErrInvalidFileDescriptor.WithMessage("misuse of the implementation")

func (fs *memfs) breach(format string, args ...any) {
	fs.breaches = append(fs.breaches, fmt.Sprintf(format, args...))
}

// tick is called by every method; fallible ones return what it returns.
func (fs *memfs) tick(what string) disko.DriverError {
	fs.calls++
	if fs.calls > 50000+fs.extraCalls {
		fs.c.Fatalf("the driver makes calls without end, now %s", what)
	}
	if fs.failIn > 0 && !strings.HasSuffix(what, "(infallible)") && (fs.failWhat == "" || fs.failWhat == what) {
		fs.failIn--
		if fs.failIn == 0 {
			fs.delivered = what
			return fs.fault
		}
	}
	return nil
}

func (fs *memfs) blocks(size int64) int { return int((size + int64(fs.bs) - 1) / int64(fs.bs)) }

// setData puts contents into a node directly.
func (fs *memfs) setData(n *node, data []byte) {
	n.size = int64(len(data))
	n.data = make([]byte, fs.blocks(n.size)*fs.bs)
	copy(n.data, data)
	for i := len(data); i < len(n.data); i++ {
		n.data[i] = fs.garbage
	}
}

func (n *node) contents() []byte { return n.data[:n.size] }

// handle ----------------------------------------------------------------------

type handle struct {
	fs     *memfs
	n      *node
	dir    *node // the directory it was found in
	name   string
	closed bool
}

type fileHandle struct{ *handle }
type dirHandle struct{ *handle }
type attrFileHandle struct {
	*handle
	attrHandle
}
type attrDirHandle struct {
	dirHandle
	attrHandle
}
type attrHandle struct{ h *handle }

func (fs *memfs) handleFor(n, dir *node, name string) disko.ObjectHandle {
	h := &handle{fs: fs, n: n, dir: dir, name: name}
	fs.opened++
	fs.open[h] = fs.opened
	if fs.missingMethods != nil {
		return partialHandle{h: attrDirHandle{dirHandle{h}, attrHandle{h}}}
	}
	switch {
	case n.mode.IsDir() && fs.attrs:
		return attrDirHandle{dirHandle{h}, attrHandle{h}}
	case n.mode.IsDir():
		return dirHandle{h}
	case fs.attrs:
		return attrFileHandle{h, attrHandle{h}}
	}
	return fileHandle{h}
}

// own returns the handle behind one that the driver passed in.
func (fs *memfs) own(what string, oh disko.ObjectHandle) *handle {
	var h *handle
	if x, ok := oh.(interface{ raw() *handle }); ok {
		h = x.raw()
	}
	if h == nil || h.fs != fs {
		fs.breach("%s was passed a handle (%T) that this implementation didn't make", what, oh)
		return nil
	}
	h.use(what)
	return h
}

func (h *handle) raw() *handle { return h }

func (h *handle) use(what string) {
	if h.closed {
		h.fs.breach("%s used a closed handle of %q", what, h.name)
	}
}

func (h *handle) String() string { return fmt.Sprintf("%q (%s)", h.name, h.n.mode) }

func (h *handle) Stat() disko.FileStat {
	h.use("Stat")
	h.fs.tick("Stat (infallible)")
	n := h.n
	s := disko.FileStat{
		DeviceID: 77, InodeNumber: h.fs.inode(n.id), Nlinks: uint64(n.nlink), ModeFlags: n.mode, Uid: uint32(n.uid), Gid: uint32(n.gid),
		Size: n.size, BlockSize: int64(h.fs.bs), NumBlocks: int64(h.fs.blocks(n.size)),
		LastAccessed: n.atime, LastModified: n.mtime, LastChanged: n.ctime, CreatedAt: n.ctime,
	}
	if n.mode.IsDir() {
		// As usual on Unix: its name, '.', and the '..' of its subdirectories.
		s.Nlinks = 2
		for _, kid := range n.kids {
			if kid.mode.IsDir() {
				s.Nlinks++
			}
		}
	}
	return s
}

func (h *handle) Resize(newSize uint64) disko.DriverError {
	h.use("Resize")
	if err := h.fs.tick("Resize"); err != nil {
		return err
	}
	if h.n.mode.IsDir() {
		h.fs.breach("Resize of the directory %q", h.name)
		return errMisuse
	}
	if newSize > 1<<26 {
		return disko.ErrNoSpaceOnDevice
	}
	n, fs := h.n, h.fs
	old := n.data
	n.size = int64(newSize)
	n.data = make([]byte, fs.blocks(n.size)*fs.bs)
	k := copy(n.data, old)
	// Contents of new blocks, and whatever is past the end of the object, are up
	// to the implementation.
	for ; k < len(n.data); k++ {
		n.data[k] = fs.garbage
	}
	for i := int(n.size); i < len(n.data); i++ {
		n.data[i] = fs.garbage
	}
	return nil
}

func (h *handle) blockRange(what string, index common.LogicalBlock, bytes int) []byte {
	bs := h.fs.bs
	if bytes == 0 || bytes%bs != 0 {
		h.fs.breach("%s of %q with %d bytes, block size %d", what, h.name, bytes, bs)
		return nil
	}
	if uint64(index) > uint64(len(h.n.data)/bs) || uint64(index)+uint64(bytes/bs) > uint64(len(h.n.data)/bs) {
		h.fs.breach("%s of %q: %d blocks from %d of %d", what, h.name, bytes/bs, index, len(h.n.data)/bs)
		return nil
	}
	return h.n.data[int(index)*bs : int(index)*bs+bytes]
}

func (h *handle) ReadBlocks(index common.LogicalBlock, buffer []byte) disko.DriverError {
	h.use("ReadBlocks")
	if err := h.fs.tick("ReadBlocks"); err != nil {
		return err
	}
	b := h.blockRange("ReadBlocks", index, len(buffer))
	if b == nil {
		return errMisuse
	}
	copy(buffer, b)
	return nil
}

func (h *handle) WriteBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	h.use("WriteBlocks")
	if err := h.fs.tick("WriteBlocks"); err != nil {
		return err
	}
	b := h.blockRange("WriteBlocks", index, len(data))
	if b == nil {
		return errMisuse
	}
	copy(b, data)
	return nil
}

func (h *handle) ZeroOutBlocks(index common.LogicalBlock, count uint) disko.DriverError {
	h.use("ZeroOutBlocks")
	if err := h.fs.tick("ZeroOutBlocks"); err != nil {
		return err
	}
	b := h.blockRange("ZeroOutBlocks", index, int(count)*h.fs.bs)
	if b == nil {
		return errMisuse
	}
	clear(b)
	return nil
}

func (h *handle) Unlink() disko.DriverError {
	h.use("Unlink")
	if err := h.fs.tick("Unlink"); err != nil {
		return err
	}
	if h.n == h.fs.root {
		h.fs.breach("Unlink of the root directory")
		return errMisuse
	}
	if len(h.n.kids) > 0 {
		h.fs.breach("Unlink of the directory %q, which isn't empty", h.name)
		return errMisuse
	}
	if h.dir.kids[h.name] != h.n {
		h.fs.breach("Unlink of %q, which is gone", h.name)
		return errMisuse
	}
	delete(h.dir.kids, h.name)
	h.n.nlink--
	h.n.dead = h.n.nlink == 0
	return nil
}

func (h *handle) Name() string {
	h.use("Name")
	if h.n == h.fs.root {
		return "/"
	}
	return h.name
}

func (h *handle) SameAs(other disko.ObjectHandle) bool {
	h.use("SameAs")
	o := h.fs.own("SameAs", other)
	return o != nil && o.n == h.n
}

func (h *handle) Close() error {
	if h.closed {
		h.fs.breach("handle of %q closed twice", h.name)
		return disko.ErrFileDescriptorBadState
	}
	h.closed = true
	delete(h.fs.open, h)
	if h.fs.failClose {
		h.fs.failClose = false
		h.fs.delivered = "Close"
		return h.fs.fault
	}
	return nil
}

func (d dirHandle) ListDir() ([]string, disko.DriverError) {
	d.use("ListDir")
	fault := d.fs.tick("ListDir")
	names := []string{}
	for name := range d.n.kids {
		names = append(names, name)
	}
	sort.Strings(names)
	if fault != nil {
		// The names that come with an error are meaningless.
		return names[:len(names)/2], fault
	}
	// Wherever the file system keeps them.
	at := len(names) / 2
	names = append(names[:at:at], append(append([]string{}, d.fs.dots...), names[at:]...)...)
	return names, nil
}

func (a attrHandle) Chmod(mode os.FileMode) disko.DriverError {
	a.h.use("Chmod")
	if err := a.h.fs.tick("Chmod"); err != nil {
		return err
	}
	if mode&^(os.ModePerm|os.ModeSetuid|os.ModeSetgid|os.ModeSticky) != 0 {
		a.h.fs.breach("Chmod of %q with %s, which aren't only permission bits", a.h.name, mode)
	}
	a.h.n.mode = a.h.n.mode&os.ModeType | mode
	return nil
}

func (a attrHandle) Chown(uid, gid int) disko.DriverError {
	a.h.use("Chown")
	if err := a.h.fs.tick("Chown"); err != nil {
		return err
	}
	a.h.n.uid, a.h.n.gid = uid, gid
	return nil
}

func (a attrHandle) Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt time.Time) disko.DriverError {
	fs := a.h.fs
	a.h.use("Chtimes")
	if err := fs.tick("Chtimes"); err != nil {
		return err
	}
	fs.chtimes = []time.Time{createdAt, lastAccessed, lastModified, lastChanged, deletedAt}
	f := fs.features
	for i, has := range []bool{f.HasCreatedTime, f.HasAccessedTime, f.HasModifiedTime, f.HasChangedTime, f.HasDeletedTime} {
		if !has && !fs.chtimes[i].IsZero() {
			fs.breach("Chtimes of %q with unsupported timestamp %d", a.h.name, i)
		}
	}
	if !deletedAt.IsZero() && !a.h.n.dead {
		fs.breach("Chtimes of %q sets the deletion time of an object that exists", a.h.name)
	}
	if !lastAccessed.IsZero() {
		a.h.n.atime = lastAccessed
	}
	if !lastModified.IsZero() {
		a.h.n.mtime = lastModified
	}
	if !lastChanged.IsZero() {
		a.h.n.ctime = lastChanged
	}
	return nil
}

// partialHandle is a handle for which some methods aren't implemented.
type partialHandle struct {
	driver.NopObjectHandle
	h attrDirHandle
}

func (p partialHandle) raw() *handle { return p.h.handle }

// lacks tells if a method is one of those that aren't implemented.
func (p partialHandle) lacks(method string) bool {
	fs := p.raw().fs
	if fs.missingMethods[method] || method == "ListDir" && !p.raw().n.mode.IsDir() {
		fs.nopCalls = append(fs.nopCalls, method)
		return true
	}
	return false
}

func (p partialHandle) Name() string         { return p.h.Name() }
func (p partialHandle) Stat() disko.FileStat { return p.h.Stat() }
func (p partialHandle) String() string       { return p.h.String() }

func (p partialHandle) Resize(newSize uint64) disko.DriverError {
	if p.lacks("Resize") {
		return p.NopObjectHandle.Resize(newSize)
	}
	return p.h.Resize(newSize)
}

func (p partialHandle) ReadBlocks(index common.LogicalBlock, buffer []byte) disko.DriverError {
	if p.lacks("ReadBlocks") {
		return p.NopObjectHandle.ReadBlocks(index, buffer)
	}
	return p.h.ReadBlocks(index, buffer)
}

func (p partialHandle) WriteBlocks(index common.LogicalBlock, data []byte) disko.DriverError {
	if p.lacks("WriteBlocks") {
		return p.NopObjectHandle.WriteBlocks(index, data)
	}
	return p.h.WriteBlocks(index, data)
}

func (p partialHandle) ZeroOutBlocks(index common.LogicalBlock, count uint) disko.DriverError {
	if p.lacks("ZeroOutBlocks") {
		return p.NopObjectHandle.ZeroOutBlocks(index, count)
	}
	return p.h.ZeroOutBlocks(index, count)
}

func (p partialHandle) Unlink() disko.DriverError {
	if p.lacks("Unlink") {
		return p.NopObjectHandle.Unlink()
	}
	return p.h.Unlink()
}

func (p partialHandle) SameAs(other disko.ObjectHandle) bool { return p.h.SameAs(other) }

func (p partialHandle) Close() error {
	if p.lacks("Close") {
		return p.NopObjectHandle.Close()
	}
	return p.h.Close()
}

func (p partialHandle) ListDir() ([]string, disko.DriverError) {
	if p.lacks("ListDir") {
		return p.NopObjectHandle.ListDir()
	}
	return p.h.ListDir()
}

func (p partialHandle) Chmod(mode os.FileMode) disko.DriverError {
	if p.lacks("Chmod") {
		return p.NopObjectHandle.Chmod(mode)
	}
	return p.h.Chmod(mode)
}

func (p partialHandle) Chown(uid, gid int) disko.DriverError {
	if p.lacks("Chown") {
		return p.NopObjectHandle.Chown(uid, gid)
	}
	return p.h.Chown(uid, gid)
}

func (p partialHandle) Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt time.Time) disko.DriverError {
	if p.lacks("Chtimes") {
		return disko.CastToDriverError(p.NopObjectHandle.Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt))
	}
	return p.h.Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt)
}

// file system -----------------------------------------------------------------

func (fs *memfs) Mount(flags disko.MountFlags) disko.DriverError { return nil }
func (fs *memfs) Flush() disko.DriverError                       { return nil }
func (fs *memfs) Unmount() disko.DriverError                     { return nil }
func (fs *memfs) FSStat() disko.FSStat                           { return disko.FSStat{BlockSize: uint(fs.bs)} }
func (fs *memfs) GetFSFeatures() disko.FSFeatures                { return fs.features }

func (fs *memfs) GetRootDirectory() disko.ObjectHandle {
	fs.tick("GetRootDirectory (infallible)")
	return fs.handleFor(fs.root, nil, "/")
}

func (fs *memfs) checkName(what, name string) bool {
	if name == "" || name == "." || name == ".." {
		fs.breach("%s with the name %q", what, name)
		return false
	}
	for _, ch := range name {
		if ch == '/' {
			fs.breach("%s with the name %q", what, name)
			return false
		}
	}
	return true
}

func (fs *memfs) parentNode(what string, parent disko.ObjectHandle) (*node, disko.DriverError) {
	h := fs.own(what, parent)
	if h == nil {
		return nil, errMisuse
	}
	if !h.n.mode.IsDir() {
		fs.breach("%s with the parent %s, which is no directory", what, h)
		return nil, errMisuse
	}
	if h.n.dead {
		fs.breach("%s with the parent %s, which was deleted", what, h)
		return nil, errMisuse
	}
	return h.n, nil
}

func (fs *memfs) CreateObject(name string, parent disko.ObjectHandle, perm os.FileMode) (disko.ObjectHandle, disko.DriverError) {
	if err := fs.tick("CreateObject"); err != nil {
		return nil, err
	}
	dir, err := fs.parentNode("CreateObject", parent)
	if err != nil {
		return nil, err
	}
	if !fs.checkName("CreateObject", name) {
		return nil, errMisuse
	}
	if dir.kids[name] != nil {
		fs.breach("CreateObject of %q, which exists", name)
		return nil, errMisuse
	}
	if t := perm & os.ModeType; t != 0 && t != os.ModeDir {
		fs.breach("CreateObject of %q with mode %s", name, perm)
	}
	n := fs.newNode(perm, dir)
	dir.kids[name] = n
	return fs.handleFor(n, dir, name), nil
}

func (fs *memfs) GetObject(name string, parent disko.ObjectHandle) (disko.ObjectHandle, disko.DriverError) {
	if err := fs.tick("GetObject"); err != nil {
		return nil, err
	}
	dir, err := fs.parentNode("GetObject", parent)
	if err != nil {
		return nil, err
	}
	n := dir.kids[name]
	if n == nil {
		if fs.checkName("GetObject", name) {
			fs.missing = append(fs.missing, name)
		}
		return nil, disko.ErrNotFound.WithMessage(name)
	}
	return fs.handleFor(n, dir, name), nil
}

// linkfs is a memfs that supports hard links.
type linkfs struct{ *memfs }

func (fs linkfs) CreateHardLink(source, targetParentDir disko.ObjectHandle, targetName string) (disko.ObjectHandle, disko.DriverError) {
	if err := fs.tick("CreateHardLink"); err != nil {
		return nil, err
	}
	src := fs.own("CreateHardLink", source)
	if src == nil {
		return nil, errMisuse
	}
	dir, err := fs.parentNode("CreateHardLink", targetParentDir)
	if err != nil {
		return nil, err
	}
	if src.n.mode.IsDir() {
		fs.breach("CreateHardLink of the directory %q", src.name)
		return nil, errMisuse
	}
	if !fs.checkName("CreateHardLink", targetName) {
		return nil, errMisuse
	}
	if dir.kids[targetName] != nil {
		fs.breach("CreateHardLink to %q, which exists", targetName)
		return nil, errMisuse
	}
	dir.kids[targetName] = src.n
	src.n.nlink++
	return fs.handleFor(src.n, dir, targetName), nil
}
