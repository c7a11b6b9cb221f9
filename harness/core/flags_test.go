package core

import (
	"os"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"pgregory.net/rapid"
)

func TestE02_OpenFlags(t *testing.T) {
	type flag struct {
		name string
		os   int
		io   disko.IOFlags
	}
	access := []flag{
		{"O_RDONLY", os.O_RDONLY, disko.O_RDONLY},
		{"O_WRONLY", os.O_WRONLY, disko.O_WRONLY},
		{"O_RDWR", os.O_RDWR, disko.O_RDWR},
	}
	common := []flag{
		{"O_APPEND", os.O_APPEND, disko.O_APPEND},
		{"O_CREATE", os.O_CREATE, disko.O_CREATE},
		{"O_EXCL", os.O_EXCL, disko.O_EXCL},
		{"O_TRUNC", os.O_TRUNC, disko.O_TRUNC},
		{"O_SYNC", os.O_SYNC, disko.O_SYNC},
	}
	// Without an equivalent in the os package.
	only := []flag{
		{"O_NOFOLLOW", 0, disko.O_NOFOLLOW},
		{"O_DIRECTORY", 0, disko.O_DIRECTORY},
		{"O_TMPFILE", 0, disko.O_TMPFILE},
		{"O_NOATIME", 0, disko.O_NOATIME},
		{"O_PATH", 0, disko.O_PATH},
	}
	pbt.Check(t, 32000, 1500000, "random combinations of open flags in the notation of the os package and in disko's; "+
		"non-trivial: at least two flags besides the access mode",
		func(c *pbt.C) {
			mode := access[pbt.Int(0, 2).Draw(c.T, "access")]
			set := map[string]bool{mode.name: true}
			osFlags, ioFlags := mode.os, mode.io
			c.Describe("%s", mode.name)
			for _, f := range common {
				if rapid.Bool().Draw(c.T, f.name) {
					set[f.name] = true
					osFlags |= f.os
					ioFlags |= f.io
					c.AddDesc("|%s", f.name)
				}
			}
			c.NonTrivial(len(set) > 2)
			if got := disko.OSFlagsToIOFlags(osFlags); got != ioFlags {
				c.Fatalf("OSFlagsToIOFlags(%#x) = %#x, expected %#x", osFlags, int(got), int(ioFlags))
			}
			for _, f := range only {
				if pbt.Int(0, 3).Draw(c.T, f.name) == 0 {
					set[f.name] = true
					ioFlags |= f.io
					c.AddDesc("|%s", f.name)
				}
			}
			expect := func(name string, got, want bool) {
				if got != want {
					c.Fatalf("%v: %s() = %v, expected %v", pbt.SortedKeys(set), name, got, want)
				}
			}
			expect("Read", ioFlags.Read(), set["O_RDONLY"] || set["O_RDWR"])
			expect("Write", ioFlags.Write(), set["O_WRONLY"] || set["O_RDWR"])
			expect("Append", ioFlags.Append(), set["O_APPEND"])
			expect("Create", ioFlags.Create(), set["O_CREATE"])
			expect("Truncate", ioFlags.Truncate(), set["O_TRUNC"])
			expect("Exclusive", ioFlags.Exclusive(), set["O_EXCL"])
			expect("Synchronous", ioFlags.Synchronous(), set["O_SYNC"])
			expect("NoFollow", ioFlags.NoFollow(), set["O_NOFOLLOW"])
			expect("RequiresWritePerm", ioFlags.RequiresWritePerm(), set["O_WRONLY"] || set["O_RDWR"] || set["O_TRUNC"])
			for _, f := range only {
				expect(f.name, ioFlags&f.io != 0, set[f.name])
			}
		})
}

func TestE02_MountFlags(t *testing.T) {
	pbt.Check(t, 12000, 250000, "random combinations of mount flags and custom bits; non-trivial: at least two rights",
		func(c *pbt.C) {
			rights := []struct {
				name string
				flag disko.MountFlags
				is   func(disko.MountFlags) bool
			}{
				{"Read", disko.MountFlagsAllowRead, disko.MountFlags.CanRead},
				{"Write", disko.MountFlagsAllowWrite, disko.MountFlags.CanWrite},
				{"Insert", disko.MountFlagsAllowInsert, disko.MountFlags.CanInsert},
				{"Delete", disko.MountFlagsAllowDelete, disko.MountFlags.CanDelete},
				{"Administer", disko.MountFlagsAllowAdminister, disko.MountFlags.CanAdminister},
				{"PreserveTimestamps", disko.MountFlagsPreserveTimestamps, func(f disko.MountFlags) bool {
					return f&disko.MountFlagsPreserveTimestamps != 0
				}},
				{"custom", disko.MountFlagsCustomStart, func(f disko.MountFlags) bool {
					return f&^disko.MountFlagsMask != 0
				}},
			}
			flags := disko.MountFlags(0)
			set := make([]bool, len(rights))
			n := 0
			for i, r := range rights {
				set[i] = rapid.Bool().Draw(c.T, r.name)
				if set[i] {
					flags |= r.flag
					n++
				}
			}
			c.Describe("%#x", int(flags))
			c.NonTrivial(n > 1)
			for i, r := range rights {
				if r.is(flags) != set[i] {
					c.Fatalf("%s of %#x is %v, expected %v", r.name, int(flags), !set[i], set[i])
				}
				// The combinations include what their names say.
				if got, want := disko.MountFlagsAllowAll&r.flag != 0, i < 5; got != want {
					c.Fatalf("MountFlagsAllowAll includes %s: %v", r.name, got)
				}
				if got, want := disko.MountFlagsAllowReadWrite&r.flag != 0, i < 2; got != want {
					c.Fatalf("MountFlagsAllowReadWrite includes %s: %v", r.name, got)
				}
			}
		})
}

var fileTypes = []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeDevice, os.ModeDevice | os.ModeCharDevice,
	os.ModeNamedPipe, os.ModeSocket, os.ModeIrregular}

func TestE02_FileModes(t *testing.T) {
	perms := []struct {
		name string
		flag os.FileMode
		bits os.FileMode
	}{
		{"S_IXOTH", disko.S_IXOTH, 0o1}, {"S_IWOTH", disko.S_IWOTH, 0o2}, {"S_IROTH", disko.S_IROTH, 0o4},
		{"S_IXGRP", disko.S_IXGRP, 0o10}, {"S_IWGRP", disko.S_IWGRP, 0o20}, {"S_IRGRP", disko.S_IRGRP, 0o40},
		{"S_IXUSR", disko.S_IXUSR, 0o100}, {"S_IWUSR", disko.S_IWUSR, 0o200}, {"S_IRUSR", disko.S_IRUSR, 0o400},
		{"S_IRWXO", disko.S_IRWXO, 0o7}, {"S_IRWXG", disko.S_IRWXG, 0o70}, {"S_IRWXU", disko.S_IRWXU, 0o700},
		{"S_IEXEC", disko.S_IEXEC, 0o100}, {"S_IWRITE", disko.S_IWRITE, 0o200}, {"S_IREAD", disko.S_IREAD, 0o400},
		{"DefaultFileModeFlags", disko.DefaultFileModeFlags, 0o644},
		{"DefaultDirModeFlags", disko.DefaultDirModeFlags &^ os.ModeDir, 0o755},
	}
	unix := []struct {
		name string
		flag os.FileMode
		bits os.FileMode
	}{
		{"S_ISVTX", disko.S_ISVTX, 0o1000}, {"S_ISGID", disko.S_ISGID, 0o2000}, {"S_ISUID", disko.S_ISUID, 0o4000},
		{"S_IFIFO", disko.S_IFIFO, 0o10000}, {"S_IFCHR", disko.S_IFCHR, 0o20000}, {"S_IFDIR", disko.S_IFDIR, 0o40000},
		{"S_IFREG", disko.S_IFREG, 0o100000}, {"S_IFBLK", disko.S_IFBLK, 0o60000}, {"S_IFLNK", disko.S_IFLNK, 0o120000},
		{"S_IFSOCK", disko.S_IFSOCK, 0o140000}, {"S_IFMT", disko.S_IFMT, 0o170000},
	}
	pbt.Check(t, 12000, 500000, "random permissions and file types; non-trivial: some permissions and not a plain file",
		func(c *pbt.C) {
			var mode, bits os.FileMode
			for _, p := range perms {
				if pbt.Int(0, 4).Draw(c.T, p.name) == 0 {
					mode |= p.flag
					bits |= p.bits
				}
			}
			var raw, rawBits os.FileMode
			for _, p := range unix {
				if pbt.Int(0, 4).Draw(c.T, p.name) == 0 {
					raw |= p.flag
					rawBits |= p.bits
				}
			}
			if mode != bits || raw != rawBits {
				c.Fatalf("permissions or types are %o %o, expected %o %o", mode, raw, bits, rawBits)
			}
			if disko.DefaultDirModeFlags&os.ModeType != os.ModeDir {
				c.Fatalf("the default mode of directories is %v", disko.DefaultDirModeFlags)
			}
			kind := fileTypes[pbt.Int(0, len(fileTypes)-1).Draw(c.T, "type")]
			special := rapid.SampledFrom([]os.FileMode{0, os.ModeSetuid, os.ModeSetgid, os.ModeSticky,
				os.ModeSetuid | os.ModeSetgid | os.ModeSticky}).Draw(c.T, "special")
			stat := disko.FileStat{ModeFlags: mode | kind | special}
			c.Describe("%v %o", stat.ModeFlags, uint32(raw))
			c.NonTrivial(mode != 0 && kind != 0)
			if stat.IsDir() != (kind == os.ModeDir) || stat.IsFile() != (kind == 0) || stat.IsSymlink() != (kind == os.ModeSymlink) {
				c.Fatalf("%v: IsDir %v, IsFile %v, IsSymlink %v", stat.ModeFlags, stat.IsDir(), stat.IsFile(), stat.IsSymlink())
			}
		})
}
