T8 = "file_systems/fat8/"
_fmt = T8 + "formattingdriver.go"
_drv = T8 + "driver.go"
_io = T8 + "iobase.go"
_com = T8 + "common.go"
_rd = T8 + "readingdriver.go"

prop("T01", "Formatting FAT8 images lays out exactly the documented structures",
     """Formatting an image of any valid size, however long the file is, whatever it contains, and however the size is given, makes it exactly that
     size, with erased directory entries, a blank information sector, three equal FATs in which only the directory track is
     reserved, and nulls elsewhere. Invalid sizes are refused and leave the file alone.""",
     ["inputs", "histories"], "All three sizes, files of any initial length, repeated formats.",
     "The tests format twice, and compare the result with itself instead of the expected image.",
     [_fmt, _com], [("FormatImage", _fmt), ("GetGeometry", _com)],
     package="fat8", technique=PBT + ": generated formats against an independent layout",
     note="The reserved FAT entries are those of the directory track; the images in testdata disagree about them with each other.",
     observe=["FAT8Driver.FormatImage", "the image file"])

prop("T02", "Mounted FAT8 volumes report exactly their free and total space",
     """A mounted FAT8 volume reports its number of blocks, and as free exactly those of the clusters that its FAT marks as free.
     The answer stays the same until something changes. Images that can't be FAT8 are refused as corrupted.""",
     ["inputs"], "All FATs on images of all three sizes, and images of other sizes.",
     "The tests never mount an image.",
     [_drv, _fmt], [("Mount", _drv), ("newFSStat", _fmt)],
     package="fat8", technique=PBT + ": generated FATs against counting",
     note="Directory entries in use aren't generated, since the driver doesn't read them yet.",
     observe=["FAT8Driver.Mount", "FAT8Driver.FSStat", "FAT8Driver.GetFAT"])

prop("T03", "FAT8 sectors and clusters are read and written exactly where they are",
     """Reading and writing sectors and clusters of a FAT8 image accesses exactly the bytes belonging to them and no others. What was
     read doesn't change later, and changing it, or data that was written, afterwards has no effect on the image. Numbers outside the image and data of the wrong length are refused without touching the image.""",
     ["inputs", "histories"], "All sector and cluster numbers over the whole unsigned range, sequences of up to 25 accesses.",
     "No test accesses sectors or clusters.",
     [_io], [("ReadDiskBlocks", _io), ("WriteDiskBlocks", _io), ("ReadAbsoluteCluster", _io), ("WriteAbsoluteCluster", _io)],
     package="fat8", technique=PBT + ": model-based operation sequences against a byte array",
     note="Random sequences with boundary-biased arguments; no proof.",
     observe=["FAT8Driver.ReadDiskBlocks", "WriteDiskBlocks", "ReadAbsoluteCluster", "WriteAbsoluteCluster", "IsValidCluster"])

prop("T04", "The clusters of a FAT8 file are those its directory entry lists",
     """The nth cluster of a file is read from and written to the nth cluster in its directory entry's list, for files with any
     list of clusters; other files and the rest of the image don't change. Indexes past the end and data of the wrong length
     are refused.""",
     ["inputs", "histories"], "All lists of up to 7 clusters and sequences of up to 15 accesses.",
     "No test accesses files.",
     [_io], [("ReadFileCluster", _io), ("WriteFileCluster", _io)],
     state=[("clusters", "clusters of the file in order", _drv)],
     package="fat8", technique=PBT + ": model-based operation sequences against a byte array",
     note="The list isn't exported, so it's found by its type; if there is no such field anymore, only files without clusters are checked.",
     observe=["FAT8Driver.ReadFileCluster", "FAT8Driver.WriteFileCluster"])

prop("T05", "Disagreeing FAT copies are detected and nothing is mounted",
     """An image is mounted only if its three FATs are equal in every byte; otherwise mounting reports a corrupted file system,
     changes nothing, and the volume can be mounted once it has been repaired.""",
     ["inputs", "faults"], "All single and double changes to any of the copies.",
     "No test mounts an image.",
     [_io, _drv], [("GetFAT", _io), ("Mount", _drv)],
     package="fat8", technique=PBT + ": generated corruptions",
     note="Random changes biased to first and last entries; no proof.",
     observe=["FAT8Driver.Mount", "FAT8Driver.GetFAT"])

prop("T06", "FAT8 volumes go through mount, flush, and unmount without damage",
     """In any order of operations, a mounted FAT8 image can be neither mounted again nor formatted, and after unmounting it can
     be both. Mounting always takes over what is on the image by then, and mounting, flushing and unmounting never
     change an image whose contents haven't been changed through the driver.""",
     ["inputs", "histories"], "All sequences of up to 30 operations.",
     "No test mounts an image.",
     [_drv, _fmt], [("isMounted", _drv), ("Flush", _drv), ("Unmount", _drv)],
     state=[("isMounted", "whether the volume is mounted", _drv), ("fat", "the FAT as it was when mounting", _drv)],
     package="fat8", technique=PBT + ": model-based operation sequences",
     note="Random sequences; no proof.",
     observe=["FAT8Driver.Mount", "Unmount", "Flush", "FormatImage", "FSStat", "the image file"])

prop("T07", "FAT8 file names survive being stored, and only the valid ones are",
     """Every name of up to six ASCII characters and an extension of up to three is stored as nine upper-case, space-padded characters and
     reads back as itself in upper case; different names are stored differently. Longer names are refused as such, and so are other characters and stored names of other than nine bytes.""",
     ["inputs"], "All names of printable ASCII characters with stems of 1-9 and extensions of 0-5 characters; names with other characters; stored names of 0-20 bytes.",
     "The tests try four names.",
     [_com], [("FilenameToBytes", _com), ("BytesToFilename", _com)],
     package="fat8", technique=PBT + ": round trips and injectivity on generated names",
     note="Names ending with a period and with trailing spaces are left out: FAT8 can't tell them from others.",
     observe=["fat8.FilenameToBytes", "fat8.BytesToFilename"])

prop("T08", "FAT8 file sizes follow from clusters and unused sectors",
     """The size of a binary file is that of its clusters minus the unused sectors of the last one, and names are found and
     compared without regard to case or a leading slash. Missing files are reported as missing.""",
     ["inputs"], "All file tables of up to 6 files of up to 7 clusters.",
     "No test asks for a file's status.",
     [_rd], [("Stat", _rd), ("SameFile", _rd)],
     state=[("dirents", "directory entries by upper-case name", _drv)],
     package="fat8", technique=PBT + ": generated file tables against arithmetic",
     note="The table isn't exported (and nothing fills it yet), so it's found by its type; without it only missing files are checked.",
     observe=["FAT8Driver.Stat", "FAT8Driver.SameFile"])

prop("T09", "FAT8 never reports success when the image couldn't be accessed",
     """If the image file can't be written or can't be accessed anymore, every operation on the FAT8 volume that needs it reports
     an error, the others work, and the image stays as it was.""",
     ["inputs", "faults", "histories"], "All sequences of up to 8 operations on read-only and closed files.",
     "No test lets an access fail.",
     [_io, _drv, _fmt], [("ReadDiskBlocks", _io), ("WriteDiskBlocks", _io), ("FormatImage", _fmt)],
     package="fat8", technique=PBT + ": operation sequences with injected faults",
     note="The faults are those a real file can be made to have: not writable, closed.",
     observe=["all FAT8Driver methods"])
