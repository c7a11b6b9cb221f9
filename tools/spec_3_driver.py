D = "driver/driver.go"
F = "driver/file.go"

prop("D01", "Paths are normalized by their components alone",
     """NormalizePath turns every nonempty path, absolute or relative to the working directory, into the absolute path that
     results from walking its components: '.' and empty ones stay, '..' goes up but never above the root, everything else
     goes down. Normalizing the result again changes nothing.""",
     ["inputs"], "All strings (bounded length) and working directories up to 5 levels deep.",
     "No test covers the driver; odd combinations of slashes and dots are what goes wrong with paths.",
     [D], [("NormalizePath", D)],
     package="drv", technique=PBT + ": differential against a component-by-component reference",
     note="Generated paths; no proof. The empty path is left out: POSIX and Go's path package disagree on it.",
     observe=["BaseDriver.NormalizePath", "BaseDriver.Chdir"])

prop("D02", "The driver's namespace operations behave like the os package",
     """On any tree of directories and files, each sequence of creating, opening, removing, listing, stat and directory-changing
     operations through the driver has the outcome the corresponding os functions have: success or the same kind of error, and
     exactly that change to the tree. Directories can be opened for reading, to list them. Relative paths follow the working directory throughout.""",
     ["inputs", "histories"], "All trees of up to 12 objects and operation sequences of up to 20 steps.",
     """No test runs the driver at all; its behavior depends on combinations of path form, existing objects, open flags and
     history.""",
     [D, "driver/fsobject.go"],
     [("getObjectAtPathFollowingLink", D), ("OpenFile", D), ("Mkdir", D), ("Remove", D), ("ReadDir", D), ("Chdir", D)],
     state=[("workingDirPath", "absolute path of the working directory", D)],
     package="drv", technique=PBT + ": model-based operation sequences on an in-memory implementation",
     note="Random sequences against a model of the POSIX semantics. Where driver and os differ on purpose (RemoveAll of a "
          "missing path), either is accepted.",
     observe=["all path-based BaseDriver methods", "the tree held by the implementation"])

prop("D03", "Files hold exactly what was written to them, to the byte",
     """Through every sequence of opening in any mode, reading, writing, seeking, truncating, syncing and closing of files, and
     of ReadFile, WriteFile and Truncate, the data and positions are those of ordinary files. After Sync, Close or a change
     with O_SYNC the file system holds exactly the file's bytes and its exact size, and no other file has changed.""",
     ["inputs", "histories"], "All operation sequences of up to 30 steps on 5 files, up to 3 of them open, blocks of 1-512 bytes.",
     "No test writes a file through the driver; sizes that aren't a multiple of the block size are where bytes get lost.",
     [F, D, "file_systems/common/basicstream/basicstream.go", "file_systems/common/blockcache/blockcache.go"],
     [("NewFileFromObjectHandle connects stream, cache and object", F), ("WriteFile", D), ("ReadFile", D)],
     package="drv", technique=PBT + ": model-based operation sequences against byte slices",
     note="Random sequences on a simulated implementation that leaves garbage in all unused space.",
     observe=["File methods", "BaseDriver.ReadFile", "BaseDriver.WriteFile", "contents held by the implementation"])

prop("D04", "Symbolic links are resolved as POSIX does, and cycles are detected",
     """Every path that leads through symbolic links (absolute, relative, chained) is resolved as POSIX does: relative links
     from the directory they are in, '..' in a link after the links in front of it, the last component only by operations
     that follow links. Dangling links lead to
     'not found', and a path that leads through a cycle always gives an error instead of hanging; creation and removal
     concern the link or its target just as in the os package.""",
     ["inputs", "histories"], "All trees of up to 20 objects, mostly links, and sequences of up to 40 operations.",
     "No test creates a symbolic link; chains, cycles and relative links in subdirectories are combinations.",
     [D], [("resolveSymlink", D), ("getObjectAtPathNoFollow", D), ("getObjectAtPathFollowingLink", D)],
     package="drv", technique=PBT + ": model-based lookups and operations on generated link graphs",
     note="Random link graphs. '..' in paths given to the driver is resolved lexically, as it documents; in link texts, as POSIX does.",
     observe=["all path-based BaseDriver methods"])

prop("D05", "Nothing is modified that the mount flags don't allow",
     """With any combination of mount flags, an operation that needs a permission the image wasn't mounted with (changing
     contents needs write, creating insert, removing delete, changing mode or owner administer) fails as
     'read-only file system' and changes nothing. Every operation that the flags do allow works as usual.""",
     ["inputs", "histories"], "All combinations of the flags, trees of up to 12 objects, sequences of up to 20 operations.",
     "No test mounts anything through the driver; each operation has its own check, easily forgotten.",
     [D, F, "api.go"], [("requireMountFlag", D), ("MountFlags predicates", "api.go")],
     package="drv", technique=PBT + ": model-based operation sequences under generated mount flags",
     note="Two points the documentation leaves open aren't asserted: the read flag, and Chtimes with administer but not write.",
     observe=["all modifying BaseDriver methods", "File.Chmod", "File.Chown"])

prop("D06", "Implementations get only the calls their contract promises",
     """Whatever the user does, the driver calls a file system implementation only as its interfaces guarantee: with the
     implementation's own, unclosed handles, existing directories as parents, single-component names, block ranges inside
     the object in whole blocks. It never creates what exists, unlinks directories that aren't empty, or passes mode bits or
     timestamps the guarantees exclude.""",
     ["inputs", "histories"], "All trees of up to 14 objects, sequences of up to 25 operations, and all feature sets.",
     "The guarantees are prose in api.go; no test implements the interface and checks them.",
     [D, F, "driver/fsobject.go", "api.go"],
     [("unwrapObjectHandle", "driver/fsobject.go"), ("existence checks before CreateObject and CreateHardLink", D),
      ("block ranges passed by the cache callbacks", F)],
     package="drv", technique=PBT + ": operation sequences on a contract-checking implementation",
     note="""Known finding: GetObject is called for names that don't exist, although the documentation excludes that. It is
     listed in known_findings.txt; everything else is decided as usual.""",
     observe=["calls of FileSystemImplementer, HardLinkImplementer, ObjectHandle"])

prop("D07", "Directory listings are complete, exact and correctly paged",
     """Listing a directory, by path or opened as a file, gives each object in it exactly once, without '.' and '..', with its right name, type, size and
     other information. Reading it in pages by any mix of ReadDir, Readdir and Readdirnames calls and limits delivers
     each entry once, as many as asked for while there are any, and io.EOF at the end only if there was a limit.""",
     ["inputs", "histories"], "All directories of up to 12 objects and sequences of paging calls.",
     "No test lists a directory through the driver; paging is stateful.",
     [F, D, "driver/dirent.go"],
     [("ReadDir", F), ("readDir", D), ("DirectoryEntry", "driver/dirent.go")],
     state=[("readDirResultPointer", "how far a listing got", F)],
     package="drv", technique=PBT + ": generated directories and paging sequences against the set of entries",
     note="What follows after io.EOF isn't asserted.",
     observe=["BaseDriver.ReadDir", "File.ReadDir", "File.Readdir", "File.Readdirnames"])

prop("D08", "MkdirAll and RemoveAll create and remove exactly the right objects",
     """MkdirAll creates exactly the directories that are missing on the way to the given path, and RemoveAll removes exactly
     the given directory and everything in it, in all trees. Neither touches anything else: what symbolic links inside a
     removed directory lead to stays, the root is never removed, and a call that can't succeed changes nothing.""",
     ["inputs", "histories"], "All trees of up to 20 objects including links, sequences of up to 8 calls.",
     "No test calls either; recursion over real trees and links isn't covered by examples.",
     [D], [("MkdirAll", D), ("RemoveAll", D), ("removeDirectory", D)],
     package="drv", technique=PBT + ": model-based operations on generated trees",
     note="Random trees; no proof.", observe=["BaseDriver.MkdirAll", "BaseDriver.RemoveAll"])

prop("D09", "Hard links are the same file under another name",
     """Linking gives a file another name: contents, attributes and changes are shared between all names, SameFile tells
     that they are the same and others (also of other file systems) aren't, and removing one name leaves the rest. Directories can't be linked, existing
     names are never replaced, and file systems without hard links refuse.""",
     ["inputs", "histories"], "All trees of up to 10 objects and sequences of up to 25 operations.",
     "No test creates a hard link.",
     [D], [("Link", D), ("SameFile", D)],
     package="drv", technique=PBT + ": model-based operation sequences, comparing objects by identity",
     note="Random sequences; no proof.", observe=["BaseDriver.Link", "BaseDriver.SameFile"])

prop("D10", "Attribute changes reach the right object with the right values",
     """Chmod, Chown, Lchown, Chtimes and their File counterparts give exactly the requested values (an ID of -1 none) to exactly the object that
     the path leads to, following links except for Lchown. Only permission bits and timestamps that the file system has are
     passed on, and file systems without the attribute report an error. Stat of an open file shows changes at once, and GetFSFeatures tells what there is.""",
     ["inputs", "histories"], "All trees of up to 14 objects with links, all feature sets, sequences of up to 15 changes.",
     "No test changes an attribute.",
     [D, F], [("Chmod", D), ("Chown", D), ("Lchown", D), ("Chtimes", D), ("File.Chmod", F)],
     package="drv", technique=PBT + ": model-based operation sequences, comparing all attributes of all objects",
     note="Random sequences; no proof.",
     observe=["BaseDriver.Chmod", "BaseDriver.Chown", "BaseDriver.Lchown", "BaseDriver.Chtimes"])

prop("D11", "Failures of the file system below are reported and contained",
     """If the implementation fails at any point during an operation of the driver, the operation reports that failure, or
     has nonetheless had its entire effect; it never claims success wrongly. Objects it doesn't concern and the working
     directory are unaffected, and once the implementation works again, so does everything, with open files losing nothing.""",
     ["inputs", "histories", "faults"], "All trees of up to 14 objects, sequences of up to 15 operations, each access a possible fault.",
     "No test lets an implementation fail.",
     [D, F], [("error returns", D), ("WriteFile reports the failure of Close", D), ("Sync and Close", F)],
     package="drv", technique=PBT + ": model-based operation sequences with fault injection",
     note="One fault per operation at generated points; no proof.",
     observe=["all BaseDriver and File methods"])

prop("D12", "Every object handle is closed exactly once",
     """Whatever an operation's outcome, including failures at any point, the driver has closed every handle the
     implementation gave it by the time the operation returns, except those of open files, which Close closes. No handle is
     closed twice or used after it was closed, even if the user closes a file again, which is an error.""",
     ["inputs", "histories", "faults"], "All trees of up to 14 objects, sequences of up to 20 operations, each access a possible fault.",
     "No test counts handles; leaks show only in error paths.",
     [D, F], [("deferred Close calls", D), ("File.Close", F)],
     package="drv", technique=PBT + ": operation sequences with fault injection and handle accounting",
     note="Failures of closing a handle are injected only when files are closed.",
     observe=["ObjectHandle.Close"])

N = "driver/nopobject.go"
prop("D13", "Implementations may leave out what they can't do",
     """NopObjectHandle has every method that handles can have; each reports ErrNotImplemented, returns zero values, and does
     nothing. On a file system whose handles are built on it and implement any subset of the methods, operations that don't need the missing
     ones work as usual; all others report ErrNotImplemented and leave everything that they don't concern as it was.""",
     ["inputs", "histories"], "All sets of up to 4 missing methods, trees of up to 12 objects, sequences of up to 15 operations.",
     "No test uses NopObjectHandle.",
     [N, D, F], [("NopObjectHandle", N), ("listDir", "driver/fsobject.go"), ("BaseDriver", D)],
     package="drv", technique=PBT + ": model-based operation sequences on file systems with generated gaps",
     note="Handles always have Stat, Name and SameAs.",
     observe=["all NopObjectHandle and BaseDriver methods"])
