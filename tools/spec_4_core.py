prop("E01", "Errors keep what they were made from, however they are chained",
     """However an error is built from sentinels, NewError, WithMessage, Wrap and CastToDriverError, errors.Is finds every error it
     was made from and no other one, errors.As finds wrapped error types, and the message is that of the parts in order,
     joined by colons. Deriving an error never changes the one it is derived from.""",
     ["inputs", "histories"], "All histories of up to 12 errors, including foreign, joined and incomparable ones.",
     "The tests look at one WithMessage and one Wrap; deeper and branching chains behave differently.",
     ["errors.go"], [("customDriverError", "errors.go"), ("CastToDriverError", "errors.go")],
     package="core", technique=PBT + ": random derivation histories against a set-and-text model",
     note="Random histories; no proof.",
     observe=["DriverError.WithMessage", "DriverError.Wrap", "CastToDriverError", "NewError", "errors.Is", "errors.As"])

prop("E02", "Open, mount and mode flags mean the same in every combination",
     """Every combination of open flags of the os package is translated into exactly the corresponding disko flags, and each
     predicate on open flags, mount flags and file modes is true exactly if the flags it stands for are set, whatever else is.
     The permission and type constants have the values Unix gives them.""",
     ["inputs"], "All combinations of flags with a valid access mode.",
     "No test touches flags. A clash of two flags shows only when particular ones are combined.",
     ["flags.go", "api.go"], [("OSFlagsToIOFlags", "flags.go"), ("MountFlags", "api.go"), ("FileStat.IsDir", "api.go")],
     package="core", technique=PBT + ": random flag combinations against sets of names",
     note="Most combinations are covered in every run; the access mode 3 and O_DSYNC alone, which disko doesn't define, are left out.",
     observe=["OSFlagsToIOFlags", "IOFlags predicates", "MountFlags predicates", "FileStat.IsDir", "IsFile", "IsSymlink"])

prop("G01", "Disk geometries are found by name and give the exact image size",
     """Every predefined disk can be looked up by its slug, any number of times, and has its documented geometry; any other slug
     is an error. The size of an image in bytes is exactly the size of the disk in bits rounded up to whole bytes, for every
     geometry, and block size times block count for file system information.""",
     ["inputs", "histories"], "All predefined disks and all geometries of up to 2^62 bits.",
     "No test covers the disks package. Rounding shows only for odd word lengths, overflow only for large disks.",
     ["disks/disks.go", "disks/disk-geometries.csv", "api.go"],
     [("TotalSizeBytes", "disks/disks.go"), ("GetPredefinedDiskGeometry", "disks/disks.go"), ("FSStat.TotalSizeBytes", "api.go")],
     package="core", technique=PBT + ": generated lookups and geometries against a table and big-integer arithmetic",
     note="The table is compared to a copy made when the checks were written; disks added later don't matter.",
     observe=["disks.GetPredefinedDiskGeometry", "DiskGeometry.TotalSizeBytes", "FSStat.TotalSizeBytes"])

V6 = "file_systems/unixv6/dirents.go"

prop("U01", "Unix V6 mode words survive the conversion to file modes and back",
     """Every mode word of a Unix V6 inode converts to the file mode with the same type, permissions, and set-ID bits, and back to
     itself (as an allocated inode). File modes of types that Unix V6 doesn't have are refused.""",
     ["inputs"], "All 65536 mode words and all file modes.",
     "The package has no tests.",
     [V6], [("ConvertFSFlagsToStandard", V6), ("ConvertStandardFlagsToFS", V6)],
     package="core", technique=PBT + ": round trips and a reference taken from the sixth edition's inode.h",
     note="Random words; the ones of no meaning (large file, sticky) are expected to be dropped.",
     observe=["unixv6.ConvertFSFlagsToStandard", "unixv6.ConvertStandardFlagsToFS"])

prop("U02", "Unix V6 inodes are read field by field as the system stored them",
     """The status of a Unix V6 inode has its number, link count, owner, group, 24-bit size, number of 512-byte blocks that takes,
     and its two timestamps, as the sixth edition stores them. Timestamps it doesn't have are undefined. Reading the bytes of an inode
     or superblock into their structures puts each field where the sixth edition has it.""",
     ["inputs"], "All inodes.",
     "The package has no tests; byte order and rounding only show for large or odd sizes.",
     [V6], [("RawInodeToStat", V6)],
     package="core", technique=PBT + ": generated inodes encoded independently, compared after decoding",
     note="Random inodes; no proof.",
     observe=["unixv6.RawInodeToStat"])
