C = "utilities/compression/"
PBT = "property-based testing (rapid)"

prop("C01", "RLE8 compression is lossless",
     """Compressing any byte sequence with RLE8 and decompressing the result gives back exactly the original bytes.
     Both directions report exactly the number of bytes they wrote, and neither depends on how the input stream hands
     out its data.""",
     ["inputs"], "All byte sequences (bounded at about 500 KB) and all ways a reader may split them into reads.",
     """The tests round-trip three fixed shapes and one random string. Runs at every length around the 257-byte limit,
     next to each other, and arriving in arbitrary pieces are not sampled.""",
     [C + "rle8.go", C + "rle_grouper.go"],
     [("CompressRLE8 splits runs into groups of at most 257", C + "rle8.go"),
      ("DecompressRLE8 forgets the last byte after a group", C + "rle8.go")],
     package="compress", technique=PBT + ": round trip over generated run-structured data and reader chunkings",
     note="""Tens of thousands of generated inputs per run; no proof. Trusts rapid's generator and bytes.Equal.""",
     observe=["compression.CompressRLE8", "compression.DecompressRLE8"])

prop("C02", "RLE8 produces and understands the documented encoding",
     """The RLE8 encoder puts out exactly the documented form: single bytes as they are, a run of 2 to 257 equal bytes
     as the byte twice and a count of further repetitions, longer runs as consecutive runs. The decoder expands every
     stream of that form, including ones the encoder wouldn't produce, and reports an unexpected end of data
     if and only if the stream ends where a count belongs.""",
     ["inputs"], "All byte sequences to encode and all byte sequences to decode (bounded in length).",
     """The tests compare a dozen fixed encodings and one truncated stream; a self-consistent but different format
     would pass a round trip, and non-canonical streams are never decoded.""",
     [C + "rle8.go", C + "doc.go"],
     [("greedy grouping of runs", C + "rle8.go"), ("repeat count handling in the decoder", C + "rle8.go")],
     package="compress", technique=PBT + ": differential against a reference encoder and decoder",
     note="Reference implementations written from doc.go; agreement on all generated inputs, no proof.",
     observe=["compression.CompressRLE8", "compression.DecompressRLE8"])

prop("C03", "Recursive RLE is lossless, repeatable and encoded as documented",
     """Recursive run-length encoding of any byte sequence, applied once or repeatedly, is undone exactly by decompressing
     as often. The encoding is the documented one (a run is the byte twice, then as many 255s as fit, then the
     remainder), its decoder accepts every such stream and reports an unexpected end of data for incomplete ones, and
     both directions report the number of bytes they wrote.""",
     ["inputs"], "All byte sequences to encode and to decode (bounded), one to four passes.",
     """No test touches the recursive codec at all.""",
     [C + "rle8.go"],
     [("CompressRLERecursive", C + "rle8.go"), ("DecompressRLERecursive", C + "rle8.go")],
     package="compress", technique=PBT + ": round trip, and differential against a reference codec",
     note="Reference codec written from the function's documentation; no proof.",
     observe=["compression.CompressRLERecursive", "compression.DecompressRLERecursive"])

prop("C04", "Compressed disk images expand to the original image",
     """Any image compressed for storage (run-length encoding, then gzip) expands to exactly the same bytes, both when
     written to a stream and when returned as one slice. The reported sizes are the compressed and the expanded size in
     bytes.""",
     ["inputs"], "All images (bounded at about 500 KB) and all ways a reader may split the streams.",
     "Three fixed shapes of data are tested, all read and written in one piece.",
     [C + "compression.go", C + "rle8.go"],
     [("the gzip writer is closed before the count is taken", C + "compression.go"),
      ("countingWriter", C + "compression.go")],
     package="compress", technique=PBT + ": round trip over generated images",
     note="Generated images only; trusts compress/gzip.",
     observe=["compression.CompressImage", "compression.DecompressImage", "compression.DecompressImageToBytes"])

prop("C05", "Damaged compressed images are never silently accepted",
     """Expanding a compressed image that was cut short or altered either reports an error or still gives exactly the
     original image. It never reports success with other contents, and never crashes.""",
     ["inputs", "fault_sequences"], "All images with one generated piece of damage at any position; all RLE8 payloads inside a valid gzip stream.",
     "Only one truncated RLE8 stream is tested; no damaged gzip stream ever is.",
     [C + "compression.go", C + "rle8.go"],
     [("errors of the gzip reader end decoding", C + "rle8.go"), ("missing repeat counts are reported", C + "rle8.go")],
     package="compress", technique=PBT + ": mutation of valid compressed images",
     note="""A mutation that fools gzip's CRC-32 would be reported wrongly; at about 1 in 2^32 for damage that isn't
     always detected, this is neglected.""",
     observe=["compression.DecompressImage", "compression.DecompressImageToBytes"])

prop("C06", "The run grouper returns every run of its input, in order",
     """Reading runs from any input returns the maximal runs of equal bytes in order, each with its exact length, and end
     of file with an invalid run afterwards, as often as asked. A read error in the middle is returned as such and
     never as the end of the data or as a complete run.""",
     ["inputs", "fault_sequences"], "All byte sequences (bounded), reader chunkings, and read errors after any number of bytes.",
     "The tests group a handful of literal byte strings.",
     [C + "rle_grouper.go"],
     [("GetNextRun unreads the first byte of the next run", C + "rle_grouper.go"),
      ("GetNextRun tells EOF from other errors", C + "rle_grouper.go")],
     package="compress", technique=PBT + ": comparison with runs computed directly, with injected read errors",
     note="Generated inputs only.", observe=["compression.RLEGrouper"])

prop("C07", "Compression reports failures of its streams",
     """If reading the input or writing the output fails at any point, every compressor and decompressor reports an error
     and never success. What it had put out until then is the beginning of the correct output, as far as it was not
     still inside gzip.""",
     ["fault_sequences", "inputs"], "All data (bounded), a failure at any byte position of the input or the output, with several kinds of errors, including short writes and errors easily mistaken for the end of the data.",
     "No test makes a stream fail during compression.",
     [C + "rle8.go", C + "compression.go", C + "rle_grouper.go"],
     [("read and write errors are returned", C + "rle8.go"), ("errors of closing the gzip writer are returned", C + "compression.go")],
     package="compress", technique=PBT + ": fault injection at generated stream positions",
     note="One fault per case, position generated, all codecs and both directions.",
     observe=["compression.CompressRLE8", "compression.CompressImage", "compression.DecompressImage", "compression.CompressRLERecursive"])

prop("C08", "The image tools round-trip files and signal failure",
     """Packing a file with the zipping tool and unpacking the result with the unzipping tool reproduces the file exactly,
     also over existing longer output files, with exit status 0 and the sizes reported. Wrong arguments, missing input,
     output that can't be written and damaged compressed data give a message and a nonzero exit status.""",
     ["inputs", "fault_sequences"], "All file contents (bounded), fresh and existing outputs, and one misuse or fault per case.",
     "The commands have no tests.",
     ["cmd/zipimage/main.go", "cmd/unzipimage/main.go"],
     [("exit statuses of main", "cmd/zipimage/main.go"), ("exit statuses of main", "cmd/unzipimage/main.go")],
     package="compress", technique=PBT + ": runs the built commands on generated files",
     note="Runs the real binaries in a scratch directory; /dev/full stands for a full disk.",
     tools={"PBT_ZIPIMAGE": "github.com/dargueta/disko/cmd/zipimage",
            "PBT_UNZIPIMAGE": "github.com/dargueta/disko/cmd/unzipimage"},
     observe=["zipimage", "unzipimage"])
