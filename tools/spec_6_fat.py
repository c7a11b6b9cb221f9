F = "file_systems/fat/"
_fc, _fd, _fb = F + "common.go", F + "dirent.go", F + "driverbase.go"
_VOL = PBT + ": generated volumes of all FAT versions against the tree they were generated from"

prop("V01", "FAT boot sectors yield the geometry the FAT specification defines",
     """For the boot sector of any valid FAT12, FAT16 or FAT32 volume, however it arrives in pieces, all fields are decoded, and the
     number of data sectors and clusters, the start of the data, the sizes of FATs, root directory and clusters, and the FAT version are those
     that Microsoft's specification defines.""",
     ["inputs"], "All valid combinations of sector, cluster, FAT, root directory and volume sizes.",
     "The tests check a handful of boot sectors; the errors are at the limits between versions and in rarely used sizes.",
     [_fc], [("NewFATBootSectorFromStream", _fc), ("DetermineFATVersion", _fc)],
     package="fat", technique=PBT + ": generated boot sectors against the specification's formulas",
     note="Random parameters biased to the limits between FAT versions; no proof.",
     observe=["NewFATBootSectorFromStream", "FATBootSector"])

prop("V02", "Malformed FAT boot sectors are refused",
     """Boot sectors whose sector or cluster sizes are impossible, or whose parts don't fit on the volume, are refused as a corrupted
     file system; ones cut off or unreadable are I/O errors that keep their cause. Nothing is returned with an error, and whatever is
     accepted describes data that lies within the volume.""",
     ["inputs", "faults"], "All field values in valid and arbitrary boot sectors, cut off or failing anywhere.",
     "The tests try a few values of two fields.",
     [_fc], [("NewFATBootSectorFromStream", _fc)],
     package="fat", technique=PBT + ": generated corruptions of boot sectors",
     note="Random corruptions of one field each, and arbitrary bytes; no proof.",
     observe=["NewFATBootSectorFromStream"])

prop("V03", "FAT directory entries are decoded completely and exactly",
     """Any 32 bytes of a FAT directory entry decode to the name, attributes, size, first cluster, mode and times that are stored in them, in all forms they can be asked for; deleted
     entries get their first character back, free ones are reported as such, nameless ones as corrupted, and fewer bytes are
     refused.""",
     ["inputs"], "All names, attributes, clusters, sizes and times.",
     "The tests decode a few entries.",
     [_fd], [("NewRawDirentFromBytes", _fd), ("NewDirentFromRaw", _fd), ("AttrFlagsToFileMode", _fd)],
     package="fat", technique=PBT + ": generated entries against an independent decoder",
     note="Random bytes biased to special first characters; no proof.",
     observe=["NewRawDirentFromBytes", "NewDirentFromRaw", "Dirent"])

prop("V04", "FAT timestamps convert exactly in any time zone",
     """Dates and times in FAT format convert to exactly the local date and time they denote, to 10 ms, in any time zone and on any day. Timestamps of entries
     can be set to anything since 1980, which is then returned, and to nothing earlier; creation and deletion times
     depend on whether the entry is deleted.""",
     ["inputs", "histories"], "All dates and times, four time zones, sequences of setting timestamps.",
     "The tests convert a few timestamps in one time zone.",
     [_fd], [("DateFromInt", _fd), ("TimestampFromParts", _fd), ("SetLastModifiedAt", _fd), ("SetCreatedAt", _fd)],
     package="fat", technique=PBT + ": generated timestamps and setter sequences",
     note="Dates without a month or day aren't asserted, nor what DateFromInt gives for days without a midnight.",
     observe=["DateFromInt", "TimestampFromParts", "Dirent's getters and setters"])

prop("V05", "I/O failures on FAT volumes are reported and never yield wrong data",
     """If any access to the disk, the FAT or a directory fails, the operation that needed it reports that failure; a cut image never yields data
     that isn't on it. If removing a file fails before its entry is gone, none of its clusters are released, no others ever are, and those that
     stay allocated because releasing one fails still are an intact chain from the first cluster on.""",
     ["faults", "inputs"], "The first 15 accesses of any operation failing, and images cut off at any byte of the object's clusters.",
     "No test lets an access fail.",
     [_fb], [("readAbsoluteSectors", _fb), ("readDirFromDirent", _fb), ("ReadFile", _fb), ("Remove", _fb)],
     package="fat", technique=PBT + ": fault injection on generated volumes",
     note="The nth access for random n; no proof.", observe=["FATDriver", "calls of FATDriverCommon"])

prop("V06", "Damaged FAT cluster chains are detected",
     """If the cluster chain of a file or directory leads back to itself, to a free, reserved, bad or nonexistent cluster, or ends too early for the
     file's size, or if an entry of a directory has no name, reading it reports the damage instead of hanging or returning wrong data. Other files can still
     be read, and removing the damaged one releases only its own clusters.""",
     ["inputs", "faults"], "All kinds of damage at any place in the chains of volumes of all FAT versions.",
     "The tests never follow a chain.",
     [_fb], [("listClusters", _fb), ("ReadFile", _fb), ("Remove", _fb)],
     package="fat", technique=PBT + ": generated corruptions of cluster chains",
     note="One damage per volume; damage in clusters that aren't needed may be reported or not.", observe=["FATDriver.ReadFile", "FATDriver.Readdir", "FATDriver.Remove"])

prop("V07", "Files on FAT volumes are read completely and exactly",
     """ReadFile returns exactly the contents of the file, for files of any size, with any cluster chain, anywhere in the directory tree,
     and for any way of writing its path. Directories are refused, and nothing is modified.""",
     ["inputs"], "Files of up to 4 clusters in trees of up to about 60 objects, on volumes of all FAT versions and cluster sizes.",
     "No test reads a file.",
     [_fb], [("ReadFile", _fb), ("listClusters", _fb), ("readCluster", _fb), ("resolvePathToDirent", _fb)],
     package="fat", technique=_VOL, note="The volume is kept by a stand-in for the FAT12, 16 and 32 drivers, which don't exist yet.",
     observe=["FATDriver.ReadFile", "calls of FATDriverCommon"])

prop("V08", "Directories on FAT volumes are listed and searched exactly",
     """Readdir lists exactly the entries of a directory that aren't deleted, up to its end, with their types, sizes and times. Stat and Lstat find
     exactly the objects that exist, by any way of writing their path; anything else is reported as missing or not a directory.
     SameFile tells whether two are the same file, false for those from elsewhere.""",
     ["inputs"], "Nested directories of any number of clusters with deleted entries and garbage after the end.",
     "No test lists a directory.",
     [_fb, _fd], [("Readdir", _fb), ("Stat", _fb), ("SameFile", _fb), ("clusterToDirentSlice", _fd), ("findInDirectory", _fb)],
     package="fat", technique=_VOL, note="SameFile of two empty files is a known finding. Volume labels, long names and lower case aren't generated.",
     observe=["FATDriver.Readdir", "FATDriver.Stat", "FATDriver.Lstat", "FATDriver.SameFile"])

prop("V09", "Removing a file from a FAT volume releases exactly its clusters",
     """Remove first deletes the directory entry of the file in its directory, and then releases each of the file's clusters once and no
     others. Directories and missing objects are refused without modifying anything, and all other files keep their contents.""",
     ["histories", "inputs"], "Sequences of up to 8 removals, of files of any size anywhere in the tree, whose clusters may then be reused for new ones.",
     "No test removes a file.",
     [_fb], [("Remove", _fb), ("listClusters", _fb)],
     package="fat", technique=PBT + ": model-based sequences of removals on generated volumes",
     note="Calls of FATDriverCommon are recorded by a stand-in.", observe=["FATDriver.Remove", "calls of FATDriverCommon"])

prop("V10", "Changing attributes on FAT volumes updates only that entry",
     """Chmod and Chtimes update exactly one entry, that of the object, and only its write permissions (in its attributes and modes alike) or its two timestamps. Timestamps before 1980,
     changing owners, and links of any kind are refused without modifying anything.""",
     ["inputs", "histories"], "All permissions, timestamps and objects, sequences of up to 10 operations.",
     "No test changes attributes.",
     [_fb, _fd], [("Chmod", _fb), ("Chtimes", _fb), ("Chown", _fb), ("Link", _fb)],
     package="fat", technique=PBT + ": model-based operation sequences on generated volumes",
     note="What UpdateDirent gets is checked; storing it is up to the FAT12, 16 and 32 drivers.", observe=["FATDriver.Chmod", "FATDriver.Chtimes", "calls of FATDriverCommon"])
