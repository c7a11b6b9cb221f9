BC = "file_systems/common/blockcache/"
BS = "file_systems/common/basicstream/"

prop("B01", "The block cache behaves like a flat byte array",
     """Through any sequence of reads, writes, direct block accesses, loads, flushes and resizes, every read from a block
     cache gives exactly the bytes last written there, or else what the storage held, and null bytes in blocks that
     growing added. Sizes always agree with the contents, and a cache without resize support refuses to be resized and
     stays as it was.""",
     ["inputs", "histories"], "All operation sequences on caches of 0-40 blocks of 1-512 bytes.",
     """The tests call each method once or twice on fresh caches with all blocks loaded or all missing; the mix of loaded,
     missing and changed blocks across resizes is what goes wrong.""",
     [BC + "blockcache.go"],
     [("loadBlockRange before access", BC + "blockcache.go"), ("Resize", BC + "blockcache.go")],
     package="cache", technique=PBT + ": model-based operation sequences against a byte array",
     note="Random operation sequences of up to about 30 steps; no proof.",
     observe=["BlockCache.ReadAt", "BlockCache.WriteAt", "BlockCache.Read", "BlockCache.Data", "BlockCache.Resize"])

prop("B02", "Flushing writes back exactly the changed blocks, once",
     """A flush writes every block changed since the last flush to the storage exactly once with its current contents, and
     no other block; afterwards the storage equals the cache. A block is read from the storage at most once, and only if
     an operation concerned it.""",
     ["inputs", "histories"], "All operation sequences on caches of 1-40 blocks.",
     """The tests flush once after one write. Lost dirty marks show only after a particular history of partial writes,
     reloads, flushes and resizes.""",
     [BC + "blockcache.go"],
     [("dirtyBlocks bitmap", BC + "blockcache.go"), ("loadedBlocks bitmap", BC + "blockcache.go")],
     package="cache", technique=PBT + ": model-based operation sequences with a recording storage",
     note="Random operation sequences; no proof.",
     observe=["BlockCache.Flush", "BlockCache.FlushRange", "fetch and flush callbacks"])

prop("B03", "The block cache refuses every access outside its bounds",
     """An access to a block cache is accepted if and only if it lies entirely inside the cache, for every starting
     block and length including those near the limits of the integer types. A refused access reports that an argument is
     out of range, and changes neither the caller's buffer nor the cache nor the storage.""",
     ["inputs"], "All block numbers and lengths over the whole unsigned range, caches of 0-40 blocks.",
     "The tests try one access just past the end; integer overflow in the bounds check needs huge numbers.",
     [BC + "blockcache.go"], [("CheckBounds", BC + "blockcache.go")],
     package="cache", technique=PBT + ": generated bounds against big-integer arithmetic",
     note="Boundary-biased random arguments; no proof.",
     observe=["BlockCache.CheckBounds", "BlockCache.ReadAt", "BlockCache.WriteAt", "BlockCache.GetSlice"])

prop("B04", "Storage failures never corrupt the block cache",
     """If reading, writing or resizing the storage fails during an operation on a block cache, the operation reports that
     failure, and contents, size and the blocks still to be written are what they were before (except for what a
     flush had already written). Once the storage works again, so does the cache, and nothing is lost.""",
     ["inputs", "histories", "faults"], "All operation sequences on caches of 1-24 blocks, every callback a possible fault.",
     "No test lets a callback fail.",
     [BC + "blockcache.go"],
     [("blocks are marked loaded after a successful fetch only", BC + "blockcache.go"),
      ("blocks are marked clean after a successful flush only", BC + "blockcache.go")],
     package="cache", technique=PBT + ": model-based operation sequences with fault injection",
     note="One fault at a time per operation, at generated points; no proof.",
     observe=["all BlockCache methods", "fetch, flush and resize callbacks"])

prop("B05", "Caches over streams and slices stay in step with the image",
     """A block cache over a stream or byte slice reads the blocks of the image from their places starting at the given
     offset, and after a flush the image holds exactly the cache's contents there and is unchanged elsewhere. Resizing
     resizes the stream along or is refused; failing, short or chunked accesses to the stream are reported or completed,
     never silently dropped.""",
     ["inputs", "histories", "faults"], "All operation sequences on wrapped streams and slices, all chunkings and fault positions.",
     "The tests wrap one well-behaved stream and read it; growing, offsets, short reads and failing writes aren't tried.",
     [BC + "blockcache.go"],
     [("WrapStream", BC + "blockcache.go"), ("WrapSlice", BC + "blockcache.go")],
     package="cache", technique=PBT + ": model-based operation sequences over a fault-injecting stream",
     note="Random sequences; no proof.",
     observe=["blockcache.WrapStream", "blockcache.WrapSlice", "BlockCache.Flush", "BlockCache.Resize"])

prop("S01", "File streams behave like an operating system's file",
     """Any sequence of reads, writes, seeks, positioned accesses and truncations on a file stream gives the same data,
     counts, positions, sizes and end-of-file conditions as on an ordinary file. In particular gaps read as null bytes,
     writing past the end extends the file, and appending always writes at the end.""",
     ["inputs", "histories"], "All operation sequences of up to 25 steps over files of a few blocks of 1-512 bytes.",
     """The tests read and seek in prepared files; writes crossing blocks or the end, and what a truncation leaves behind in
     the last block, depend on the history.""",
     [BS + "basicstream.go"],
     [("implReadAt", BS + "basicstream.go"), ("implWriteAt", BS + "basicstream.go"),
      ("Truncate null-fills", BS + "basicstream.go")],
     package="stream", technique=PBT + ": model-based operation sequences against a byte slice",
     note="Random operation sequences; no proof.",
     observe=["BasicStream.Read", "Write", "ReadAt", "WriteAt", "Seek", "Truncate", "Tell", "Size"])

prop("S02", "Synced file data is in the storage, exactly",
     """After Sync or Close of a file stream, or any change through a stream opened with O_SYNC, the storage holds exactly
     the stream's contents, null bytes up to the end of the last block, and as many blocks as needed. A new stream over that
     storage reads the same file.""",
     ["inputs", "histories"], "All operation sequences of up to 20 steps.",
     "The tests check one write; data left in the cache shows only when the storage is read behind its back.",
     [BS + "basicstream.go", BC + "blockcache.go"],
     [("Sync", BS + "basicstream.go"), ("Close", BS + "basicstream.go"), ("O_SYNC", BS + "basicstream.go")],
     package="stream", technique=PBT + ": model-based operation sequences, reading the storage after each sync",
     note="Random operation sequences; no proof.",
     observe=["BasicStream.Sync", "BasicStream.Close", "the storage below"])

prop("S03", "File streams honor their open flags and reject bad arguments",
     """A file stream permits exactly the operations that its flags allow: no reading if opened for writing only, no
     writing or truncating if opened for reading only. Anything else, and every negative or impossible offset,
     size or seek origin, is refused with an error and leaves contents and position alone.""",
     ["inputs", "histories"], "All flag combinations and operation sequences; offsets over the whole 64-bit range.",
     "The tests try single operations with a single flag.",
     [BS + "basicstream.go", "flags.go"],
     [("flag checks at the start of operations", BS + "basicstream.go"), ("IOFlags", "flags.go")],
     package="stream", technique=PBT + ": model-based operation sequences over all flag combinations",
     note="Random operation sequences; no proof.",
     observe=["all BasicStream methods"])

prop("S04", "Copying to and from file streams is complete or reported",
     """ReadFrom and WriteTo of a file stream move exactly the data from the current position to the end of the source, in
     whatever pieces reader and writer work, and return the number of bytes moved. If the other side fails,
     the error is reported, and what was moved until then is kept and counted.""",
     ["inputs", "faults"], "All contents, positions, reader and writer chunkings and fault positions (bounded sizes).",
     "The tests copy one buffer with a reader that returns everything at once.",
     [BS + "basicstream.go"], [("ReadFrom", BS + "basicstream.go"), ("WriteTo", BS + "basicstream.go")],
     package="stream", technique=PBT + ": model-based copies with chunking and failing peers",
     note="Random copies; no proof.", observe=["BasicStream.ReadFrom", "BasicStream.WriteTo", "io.Copy"])

prop("S05", "File streams report storage failures and keep their contents",
     """If the storage below a file stream fails or is full during an operation, the operation reports it, and the file then
     holds what it held before plus exactly the bytes reported as written. Once the storage works again, the stream can be
     used and synced without losing anything.""",
     ["inputs", "histories", "faults"], "All operation sequences, every storage access a possible fault.",
     "No test lets the storage below a stream fail.",
     [BS + "basicstream.go", BC + "blockcache.go"],
     [("error returns of implReadAt and implWriteAt", BS + "basicstream.go")],
     package="stream", technique=PBT + ": model-based operation sequences with fault injection",
     note="Random faults; no proof.", observe=["all BasicStream methods"])
