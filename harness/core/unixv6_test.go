package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"testing"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko/file_systems/unixv6"
	"pgregory.net/rapid"
)

// The layout of the mode word of Unix V6, from inode.h in the sixth edition:
// IALLOC 0100000, IFMT 060000 (IFDIR 040000, IFCHR 020000, IFBLK 060000), ILARG
// 010000, ISUID 04000, ISGID 02000.
func v6Type(flags uint16) os.FileMode {
	switch flags & 0o60000 {
	case 0o60000:
		return os.ModeDevice
	case 0o40000:
		return os.ModeDir
	case 0o20000:
		return os.ModeCharDevice
	}
	return 0
}

func v6Mode(flags uint16) os.FileMode {
	mode := os.FileMode(flags&0o777) | v6Type(flags)
	if flags&0o4000 != 0 {
		mode |= os.ModeSetuid
	}
	if flags&0o2000 != 0 {
		mode |= os.ModeSetgid
	}
	return mode
}

func TestU01_FlagsFromDisk(t *testing.T) {
	pbt.Check(t, 32000, 1500000, "16-bit mode words of Unix V6 inodes, converted to file modes and back; non-trivial: any special bit",
		func(c *pbt.C) {
			flags := uint16(pbt.Int(0, 0xffff).Draw(c.T, "flags"))
			c.Describe("%06o", flags)
			c.NonTrivial(flags&^0o777 != 0)
			mode, err := unixv6.ConvertFSFlagsToStandard(flags)
			if err != nil {
				c.Fatalf("ConvertFSFlagsToStandard(%06o): %v", flags, err)
			}
			if want := v6Mode(flags); mode != want {
				c.Fatalf("ConvertFSFlagsToStandard(%06o) = %v, expected %v", flags, mode, want)
			}
			back, err := unixv6.ConvertStandardFlagsToFS(mode)
			if err != nil {
				c.Fatalf("ConvertStandardFlagsToFS(%v): %v", mode, err)
			}
			// Everything comes back, except what file modes have no place for: how the blocks are
			// organized, and the sticky bit which isn't used. The inode is certainly allocated.
			if want := flags&^0o11000 | 0o100000; back != want {
				c.Fatalf("%06o is %v, and that %06o, expected %06o", flags, mode, back, want)
			}
		})
}

func TestU01_FlagsToDisk(t *testing.T) {
	supported := []os.FileMode{0, os.ModeDir, os.ModeDevice, os.ModeCharDevice}
	unsupported := []os.FileMode{os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeIrregular,
		os.ModeDir | os.ModeSymlink, os.ModeDir | os.ModeDevice, os.ModeSymlink | os.ModeSocket}
	pbt.Check(t, 24000, 1000000, "file modes of supported and unsupported types with random permissions and special bits, "+
		"converted to the words on disk and back; non-trivial: not a plain file, or special bits",
		func(c *pbt.C) {
			perm := os.FileMode(pbt.Int(0, 0o777).Draw(c.T, "permissions"))
			special := os.FileMode(0)
			for _, s := range []os.FileMode{os.ModeSetuid, os.ModeSetgid} {
				if rapid.Bool().Draw(c.T, s.String()) {
					special |= s
				}
			}
			if pbt.Int(0, 4).Draw(c.T, "supported") == 0 {
				kind := unsupported[pbt.Int(0, len(unsupported)-1).Draw(c.T, "type")]
				mode := perm | special | kind
				c.Describe("%v", mode)
				c.Label("unsupported type")
				c.NonTrivial(true)
				if got, err := unixv6.ConvertStandardFlagsToFS(mode); err == nil {
					c.Fatalf("Unix V6 doesn't support %v, but ConvertStandardFlagsToFS returned %06o", mode, got)
				}
				return
			}
			kind := supported[pbt.Int(0, len(supported)-1).Draw(c.T, "type")]
			mode := perm | special | kind
			c.Describe("%v", mode)
			c.NonTrivial(kind != 0 || special != 0)
			flags, err := unixv6.ConvertStandardFlagsToFS(mode)
			if err != nil {
				c.Fatalf("ConvertStandardFlagsToFS(%v): %v", mode, err)
			}
			if flags&0o100000 == 0 || flags&0o11000 != 0 || v6Mode(flags) != mode {
				c.Fatalf("ConvertStandardFlagsToFS(%v) = %06o, which means %v", mode, flags, v6Mode(flags))
			}
			back, err := unixv6.ConvertFSFlagsToStandard(flags)
			if err != nil || back != mode {
				c.Fatalf("%v is %06o, and that %v (%v)", mode, flags, back, err)
			}
		})
}

func TestU02_Inodes(t *testing.T) {
	pbt.Check(t, 32000, 1500000, "random Unix V6 inodes, with sizes around multiples of the block size and powers of 256; "+
		"non-trivial: more than 65535 bytes or a partial last block",
		func(c *pbt.C) {
			size := pbt.Int(0, 1<<24-1).Draw(c.T, "size")
			switch pbt.Int(0, 3).Draw(c.T, "size class") {
			case 0:
				size %= 1 << 16
			case 1:
				size = min(1<<24-1, max(0, size&^511+pbt.Int(-2, 2).Draw(c.T, "offset")))
			case 2:
				size %= 1024
			}
			word := func(name string) uint32 {
				if pbt.Int(0, 3).Draw(c.T, name+" class") == 0 {
					return rapid.SampledFrom([]uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff}).Draw(c.T, name)
				}
				return uint32(pbt.Int(0, 0xffffffff).Draw(c.T, name))
			}
			inumber := unixv6.Inumber(pbt.Int(0, 0xffff).Draw(c.T, "inumber"))
			raw := unixv6.RawInode{
				Flags: uint16(pbt.Int(0, 0xffff).Draw(c.T, "flags")),
				NLink: pbt.Byte().Draw(c.T, "nlink"), UID: pbt.Byte().Draw(c.T, "uid"), GID: pbt.Byte().Draw(c.T, "gid"),
				// i_size0 (a char, the high byte), then i_size1 (an int in the byte order of the PDP-11).
				Size:         [3]uint8{uint8(size >> 16), uint8(size), uint8(size >> 8)},
				AccessedTime: word("accessed"), ModifiedTime: word("modified"),
			}
			for i := range raw.Addr {
				raw.Addr[i] = unixv6.BlockNum(pbt.Int(0, 0xffff).Draw(c.T, "addr"))
			}
			c.Describe("%d %+v", inumber, raw)
			c.NonTrivial(size > 0xffff || size%512 != 0)
			stat, err := unixv6.RawInodeToStat(inumber, raw)
			if err != nil {
				c.Fatalf("RawInodeToStat(%+v): %v", raw, err)
			}
			check := func(what string, got, want any) {
				if got != want {
					c.Fatalf("inode %d %+v: %s is %v, expected %v", inumber, raw, what, got, want)
				}
			}
			check("InodeNumber", stat.InodeNumber, uint64(inumber))
			check("Nlinks", stat.Nlinks, uint64(raw.NLink))
			check("Uid", stat.Uid, uint32(raw.UID))
			check("Gid", stat.Gid, uint32(raw.GID))
			check("ModeFlags", stat.ModeFlags, v6Mode(raw.Flags))
			check("Size", stat.Size, int64(size))
			check("BlockSize", stat.BlockSize, int64(512))
			check("NumBlocks", stat.NumBlocks, int64((size+511)/512))
			check("LastAccessed", stat.LastAccessed.Unix(), int64(raw.AccessedTime))
			check("LastModified", stat.LastModified.Unix(), int64(raw.ModifiedTime))
			for what, t := range map[string]time.Time{"CreatedAt": stat.CreatedAt, "LastChanged": stat.LastChanged, "DeletedAt": stat.DeletedAt} {
				if !t.IsZero() {
					c.Fatalf("%s is %v, but Unix V6 has no such timestamp", what, t)
				}
			}
		})
}

// What the constants of the package stand for, according to inode.h.
var v6Flags = []struct {
	name string
	flag uint16
	bit  uint16
	mode os.FileMode
}{
	{"FlagIsAllocated", unixv6.FlagIsAllocated, 0o100000, 0},
	{"FlagIsLargeFile", unixv6.FlagIsLargeFile, 0o10000, 0},
	{"FlagSetUID", unixv6.FlagSetUID, 0o4000, os.ModeSetuid},
	{"FlagSetGID", unixv6.FlagSetGID, 0o2000, os.ModeSetgid},
	{"FlagOwnerR", unixv6.FlagOwnerR, 0o400, 0o400},
	{"FlagOwnerW", unixv6.FlagOwnerW, 0o200, 0o200},
	{"FlagOwnerX", unixv6.FlagOwnerX, 0o100, 0o100},
	{"FlagGroupR", unixv6.FlagGroupR, 0o40, 0o40},
	{"FlagGroupW", unixv6.FlagGroupW, 0o20, 0o20},
	{"FlagGroupX", unixv6.FlagGroupX, 0o10, 0o10},
	{"FlagOtherR", unixv6.FlagOtherR, 0o4, 0o4},
	{"FlagOtherW", unixv6.FlagOtherW, 0o2, 0o2},
	{"FlagOtherX", unixv6.FlagOtherX, 0o1, 0o1},
	{"OwnerPermMask", unixv6.OwnerPermMask, 0o700, 0o700},
	{"GroupPermMask", unixv6.GroupPermMask, 0o70, 0o70},
	{"OtherPermMask", unixv6.OtherPermMask, 0o7, 0o7},
}

func TestU01_Constants(t *testing.T) {
	types := []struct {
		flag, bits uint16
		mode       os.FileMode
	}{
		{unixv6.FileTypePlainFile, 0, 0}, {unixv6.FileTypeDirectory, 0o40000, os.ModeDir},
		{unixv6.FileTypeCharDevice, 0o20000, os.ModeCharDevice}, {unixv6.FileTypeBlockDevice, 0o60000, os.ModeDevice},
	}
	pbt.Check(t, 4000, 100000, "mode words put together from the named constants of a type and any flags; non-trivial: at least two flags",
		func(c *pbt.C) {
			kind := types[pbt.Int(0, 3).Draw(c.T, "type")]
			word, bits, mode := kind.flag, kind.bits, kind.mode
			n := 0
			for _, f := range v6Flags {
				if pbt.Int(0, 3).Draw(c.T, f.name) == 0 {
					word |= f.flag
					bits |= f.bit
					mode |= f.mode
					n++
					c.AddDesc("%s ", f.name)
				}
			}
			c.AddDesc("type %06o", kind.bits)
			c.NonTrivial(n > 1)
			if word != bits {
				c.Fatalf("%s is %06o, expected %06o", c.String(), word, bits)
			}
			if word&unixv6.FileTypeMask != kind.bits {
				c.Fatalf("%s: the type of %06o is %06o, expected %06o", c.String(), word, word&unixv6.FileTypeMask, kind.bits)
			}
			if got, err := unixv6.ConvertFSFlagsToStandard(word); err != nil || got != mode {
				c.Fatalf("%s: ConvertFSFlagsToStandard(%06o) = %v, %v, expected %v", c.String(), word, got, err, mode)
			}
		})
}

func TestU02_InodeBytes(t *testing.T) {
	pbt.Check(t, 8000, 300000, "the 32 bytes of random inodes as they are in the i-list, read with encoding/binary; non-trivial: all",
		func(c *pbt.C) {
			b := make([]byte, 32)
			for i := range b {
				b[i] = pbt.Byte().Draw(c.T, "byte")
			}
			c.Describe("% x", b)
			c.NonTrivial(true)
			if n := binary.Size(unixv6.RawInode{}); n != 32 {
				c.Fatalf("an inode has 32 bytes, but a RawInode %d", n)
			}
			var raw unixv6.RawInode
			if err := binary.Read(bytes.NewReader(b), binary.LittleEndian, &raw); err != nil {
				c.Fatalf("reading %s: %v", c.String(), err)
			}
			stat, err := unixv6.RawInodeToStat(7, raw)
			if err != nil {
				c.Fatalf("RawInodeToStat(% x): %v", b, err)
			}
			mode := v6Mode(uint16(b[0]) | uint16(b[1])<<8)
			size := int64(b[5])<<16 | int64(b[6]) | int64(b[7])<<8
			if stat.ModeFlags != mode || stat.Nlinks != uint64(b[2]) || stat.Uid != uint32(b[3]) || stat.Gid != uint32(b[4]) || stat.Size != size {
				c.Fatalf("% x: RawInodeToStat gives %+v, expected mode %v, size %d", b, stat, mode, size)
			}
			// The blocks are the caller's to interpret.
			for i, a := range raw.Addr {
				if want := unixv6.BlockNum(b[8+2*i]) | unixv6.BlockNum(b[9+2*i])<<8; a != want {
					c.Fatalf("% x: block %d is %d, expected %d", b, i, a, want)
				}
			}
		})
}

func TestU02_SuperblockBytes(t *testing.T) {
	pbt.Check(t, 2000, 60000, "the first 416 bytes of random superblocks, read with encoding/binary; non-trivial: all",
		func(c *pbt.C) {
			seed := pbt.Int(1, 1<<31-1).Draw(c.T, "seed")
			b := make([]byte, 512)
			for i, x := 0, uint32(seed); i < len(b); i++ {
				x = x*1664525 + 1013904223
				b[i] = byte(x >> 24)
			}
			c.Describe("seed %d", seed)
			c.NonTrivial(true)
			var raw unixv6.RawSuperblock
			if err := binary.Read(bytes.NewReader(b), binary.LittleEndian, &raw); err != nil {
				c.Fatalf("reading % x: %v", b, err)
			}
			// struct filsys: isize, fsize, nfree, free[100], ninode, inode[100], flock, ilock, fmod
			at := 0
			word := func(what string, got uint16) {
				if want := uint16(b[at]) | uint16(b[at+1])<<8; got != want {
					c.Fatalf("%s at %d is %#x, expected %#x", what, at, got, want)
				}
				at += 2
			}
			word("isize", raw.NumInodeBlocks)
			word("fsize", raw.TotalBlocks)
			word("nfree", raw.NumFreeListEntries)
			for i := 0; i < 100; i++ {
				word(fmt.Sprintf("free[%d]", i), uint16(raw.FreeList[i]))
			}
			word("ninode", raw.NumIlistEntries)
			for i := 0; i < 100; i++ {
				word(fmt.Sprintf("inode[%d]", i), uint16(raw.InumberList[i]))
			}
			if raw.FLock != b[at] || raw.ILock != b[at+1] || raw.FModFlags != b[at+2] {
				c.Fatalf("flock, ilock and fmod are %#x %#x %#x, expected % x", raw.FLock, raw.ILock, raw.FModFlags, b[at:at+3])
			}
		})
}
