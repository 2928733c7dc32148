MON = "runtime monitoring: the real code runs under random and hostile workloads while an online checker compares every observation with an independent model (overflow checks and debug assertions on)"
I = ["inputs"]

prop("C01", "Data streams behave like a byte array with a cursor",
     "Whatever sequence of size, seek, read and exact-read operations is performed on a file-backed or in-memory data stream, every returned count, position and byte is what an array of the stream's size with a cursor gives: reads never return bytes from elsewhere, are short only at the end, and an exact read either fills the buffer or fails. An error reported by the underlying stream is never turned into success. Positional reads through one shared stream by several threads each deliver the bytes at their own position.",
     ["histories", "inputs", "schedules", "fault_sequences"], "all operation sequences, stream sizes, in-memory data shorter than the stream size, underlying short reads, errors and thread interleavings; seek targets not negative",
     "the unit tests read one fixed file at a handful of offsets and never combine operations, faults or threads",
     ["keramics-core/src/data_stream.rs", "keramics-core/src/fake_data_stream.rs", "keramics-core/src/os_data_stream.rs", "keramics-core/src/macros.rs"],
     [("default positional and exact reads", "keramics-core/src/data_stream.rs"), ("zero filled in-memory stream", "keramics-core/src/fake_data_stream.rs")],
     "Random schedules against an array model; interleavings are those the OS produced. Assumes seeks below 2^62.", MON + "; concurrent readers and injected read faults")

prop("C02", "Checksums equal their definitions for every split of the data",
     "Adler-32, CRC-32, weak CRC-32 and CRC-64 contexts deliver, for all data, initial values and polynomials, the value the defining polynomial arithmetic gives. The value does not depend on how the data is split over updates, and finalizing or reusing a context does not disturb later results.",
     ["inputs", "histories"], "all data, initial values, polynomials and splits into update calls; Adler-32 initial values are valid Adler-32 values",
     "the unit tests check one or two fixed vectors per checksum, none of which crosses a reduction boundary or splits the data",
     ["keramics-checksums/src"], [("deferred modulo", "keramics-checksums/src/adler32.rs"), ("table driven update", "keramics-checksums/src/crc32.rs")],
     "Bitwise reference definitions over random and worst-case data; data beyond 2^32 bytes against recorded values.", MON)

prop("C03", "Message digests equal their standards for every split of the message",
     "MD5, SHA-1, SHA-224, SHA-256 and SHA-512 contexts deliver the digest the standards define for every message, however the message is split over updates, including empty updates and messages of any length around block boundaries. A context can be reused for a following message without influence of the earlier one.",
     ["inputs", "histories"], "all messages, all splits into update calls, reuse of contexts",
     "the unit tests hash a few fixed messages in one or two updates and leave most lengths modulo the block size untouched",
     ["keramics-hashes/src"], [("block buffering and padding", "keramics-hashes/src/sha256.rs"), ("length encoding", "keramics-hashes/src/sha512.rs")],
     "Independent one-shot implementations; every length to 300, random messages up to 1.2 MB and messages beyond 2^32 bits and 2^32 bytes.", MON)

prop("C04", "Single-byte code pages decode and encode as published",
     "Every byte of every supported single-byte encoding (ISO-8859, Windows, KOI8 and Macintosh code pages) decodes to the published code point or is refused when undefined; every code point encodes to the byte that decodes to it or is refused. After a refusal, the decoder or encoder continues with the next byte or code point, so that sequences are never cut off, repeated or endlessly refused, and encodable text survives a round trip.",
     I, "all bytes, all code points U+0000 to U+10FFFF, all sequences, all 36 supported single-byte encodings",
     "the unit tests encode and decode one byte range per encoding and never mix valid with invalid input",
     ["keramics-encodings/src"], [("decoder and encoder tables", "keramics-encodings/src")],
     "Exhaustive over bytes and code points; sequences sampled. Reference: Python codecs; three Macintosh pages recorded from the pinned commit.", MON)

prop("C05", "Windows code page 932 decodes and encodes as published",
     "Every one- and two-byte sequence of code page 932 outside the user-defined area decodes to the published code point or is refused, and every code point encodes to bytes that decode to it or is refused. Text made of encodable characters survives a round trip, and damaged text is decoded item by item without losing its valid remainder.",
     I, "all one- and two-byte sequences outside the user-defined area, all code points, random text",
     "the unit tests touch a handful of the more than 7000 double-byte characters",
     ["keramics-encodings/src/windows932.rs"], [("lead and trail byte tables", "keramics-encodings/src/windows932.rs")],
     "Exhaustive over pairs and code points against Python's cp932.", MON)

prop("C06", "UTF-8 is decoded and encoded exactly as Unicode defines it",
     "The UTF-8 decoder accepts exactly the well-formed sequences and yields their code points; overlong forms, code points beyond U+10FFFF, surrogates and truncated sequences are refused, one error for each ill-formed part, after which decoding continues with the next character. The encoder produces the well-formed sequence of every scalar value.",
     I, "all byte strings and all code points",
     "the unit tests decode a few well-formed strings and a few isolated bad sequences",
     ["keramics-encodings/src/utf8.rs"], [("decoder state machine", "keramics-encodings/src/utf8.rs")],
     "Exhaustive up to 2 bytes and over scalars, boundary bytes for 3 and 4, random beyond. Oracle: std UTF-8 validation.", MON)

prop("C07", "Base64 decodes to the encoded data or is refused",
     "Data encoded as Base64, padded or not and starting at any offset, decodes to the data through the stream and the whole-buffer interface. White space is skipped by a stream that allows it and refused by one that does not and by the whole-buffer interface. Characters outside the alphabet, misplaced or wrong padding and impossible lengths are refused, a too small output buffer is reported, and no input makes the decoder panic.",
     I, "all data, padding options, white space, output buffer sizes and arbitrary character strings",
     "the unit tests decode a few fixed strings", ["keramics-encodings/src/base64.rs"], [("stream decoder", "keramics-encodings/src/base64.rs")],
     "Independent encoder; random damage. White space around padding is left unspecified.", MON)

prop("C08", "Byte strings keep their text through reading, comparing and converting",
     "A byte string read from a field ends at the first NUL, compares equal with exactly the text or bytes it holds, and shows its decoded text with backslashes doubled and undecodable bytes replaced rather than dropped or panicking. Extending it with a string in another encoding, or with code points, appends the re-encoded text, or fails when a character cannot be decoded or represented.",
     I, "all byte contents and supported encodings", "the unit tests use ASCII text in a few encodings",
     ["keramics-types/src/byte_string.rs"], [("field reading and conversion", "keramics-types/src/byte_string.rs")],
     "Random text and bytes against models built on the checked codecs.", MON)

prop("C09", "UCS-2 and UTF-16 strings are read, shown, compared and folded faithfully",
     "A 16-bit string is read in either byte order up to its first NUL element, an incomplete last element being ignored; a UTF-16 string shows its text with every unpaired surrogate replaced and nothing else lost, a UCS-2 string with backslashes doubled and surrogates escaped, and neither panics. Comparison orders by element value, and case-insensitive comparison folds every 16-bit value as the NTFS upper-case table does.",
     I, "all sequences of 16-bit elements, both byte orders, odd sizes; all 65536 values for case folding", "the unit tests compare a few ASCII names",
     ["keramics-types/src/ucs2_string.rs", "keramics-types/src/utf16_string.rs", "keramics-encodings/src"], [("case folding mappings", "keramics-types/src/ucs2_string.rs")],
     "Case table exhaustive (recorded from the pinned commit, cross-checked with Unicode); strings sampled.", MON)

prop("C10", "UUIDs round-trip through bytes and text",
     "Every 16-byte identifier read in either byte order is shown in the canonical lower-case form, and parsing that form, with upper-case digits or in braces, gives the same identifier. Damaged spellings are refused and no string makes the parser panic. Exactly the identifier without and the one with all bits set are told to be the Nil and the Max identifier.",
     I, "all identifiers, byte orders and strings", "the unit tests parse and print a few identifiers",
     ["keramics-types/src/uuid.rs"], [("byte order and text conversion", "keramics-types/src/uuid.rs")],
     "Random identifiers and spellings.", MON)

prop("C11", "Timestamps are shown as the calendar date and time they represent",
     "Every FAT date, FAT time and date (with and without 10 ms fraction), FILETIME and POSIX timestamp (32-bit seconds, 64-bit with nanoseconds) is shown as the proleptic Gregorian date and time it represents, with the fraction its resolution provides, including negative values, leap days and century years. No value panics or loops for more than a moment.",
     I, "all timestamp values of all supported types; every day of the years -399 to 10400", "the unit tests convert one or two recent dates per type",
     ["keramics-datetime/src"], [("day number to date conversion", "keramics-datetime/src/util.rs")],
     "Every day over 10800 years and every FAT date; other ranges sampled.", MON)

prop("C12", "The signature scanner finds what is there and only that",
     "For every set of distinct signatures a scanner can be built, and scanning data with buffers that hold the whole header range and the whole footer range reports a header or footer signature whenever one of them occurs at its place, and reports nothing that does not occur. Every occurrence of an unbound signature within a buffer is covered by a reported match.",
     ["inputs", "configurations"], "all signature sets (bound to start, to end, unbound; shared patterns, prefixes, overlaps) and data, whole or in pieces; sets small enough for the scan tree to stay small",
     "the unit tests scan for a few fixed signatures", ["keramics-sigscan/src"], [("scan tree construction", "keramics-sigscan/src/scan_tree.rs"), ("skip table", "keramics-sigscan/src/skip_table.rs"), ("header, footer and unbound scan", "keramics-sigscan/src/scan_context.rs")],
     "Random signature sets against a naive matcher.", MON)

prop("C13", "Structures read through a layout map show the values of their bytes",
     "A structure described by a layout map is read from exactly its bytes at the position asked for, or refused when the data ends earlier; its debug output shows every field in order with the value its bytes encode in the declared type, byte order, width and format, including bit fields, arrays, nested structures, conditional groups and modifiers. The integer conversions from bytes give the value of those bytes in the named byte order. A layout map that contradicts itself (unknown types, orders or formats, missing names, bit fields that do not add up, a byte order that is missing) does not compile.",
     ["inputs", "configurations"], "all data, all supported field types, byte orders, formats and bit field widths; fixed set of structures covering them",
     "the unit tests inspect generated tokens for a few members and never run the generated code on varying data",
     ["keramics-layout-map/src/macros.rs", "keramics-layout-map/src/structure.rs", "keramics-types/src/macros.rs"], [("code generation", "keramics-layout-map/src/structure.rs"), ("byte conversions", "keramics-types/src/macros.rs")],
     "Six derived structures covering every data type, random data, independent reader and formatter.", MON)

prop("C14", "Hexdumps and array listings show every value exactly once",
     "A hexdump shows every byte at its offset with its printable character, in rows of 16 including a shorter last row; with grouping, rows equal to the last row shown are replaced by a single marker and nothing else is left out. Array listings show all values in order, once each, or one value with its number of repetitions when all are equal.",
     I, "all data sizes and contents, all array sizes, grouped and not", "the unit tests format two fixed buffers",
     ["keramics-core/src/formatters.rs"], [("row and group handling", "keramics-core/src/formatters.rs")],
     "Random data with repeated rows; independent formatter.", MON)

prop("C15", "Debug output and error traces tell what happened without changing it",
     "Turning debug output on never changes the result of reading a structure or scanning for signatures; the text written is the position, hexdump and field values of what was read, in order, and nothing is written while it is off. Debug output turned on in one thread does not turn it on in another. An error carries the message of every frame it passed through, in order.",
     ["inputs", "configurations", "schedules"], "all data and structures of the layout map property, all signature sets, both settings, concurrent threads, traces of any number of frames",
     "the unit tests never run with debug output on", ["keramics-core/src/mediator.rs", "keramics-core/src/errors.rs", "keramics-layout-map/src/structure.rs", "keramics-sigscan/src/scan_tree.rs"],
     [("per-thread mediator", "keramics-core/src/mediator.rs"), ("error frames", "keramics-core/src/errors.rs")],
     "Standard output captured and compared with a model.", MON)

CM = MON + "; independent encoders produce the data"
def comp(id, title, statement, why, files, mechanism, note):
    prop(id, title, statement, I, "all data, all block structures and parameters the format allows, output buffers of the exact size, smaller and larger", why,
         ["keramics-compression/src/" + f for f in files], mechanism, note, CM)

comp("C16", "DEFLATE and zlib data decompresses to the data it was made from",
     "Valid DEFLATE data of any mix of stored, fixed and dynamic blocks, with any complete codes and any match the format allows, decompresses to exactly the original bytes and reports their number; so does zlib data with any window size, and zlib data whose Adler-32 checksum does not match is refused. A buffer that is too small is refused or filled with the start of the data, never overrun.",
     "the unit tests decompress one or two files made by one compressor, which uses a small part of the format",
     ["deflate.rs", "huffman.rs", "zlib.rs"], [("dynamic code tables", "keramics-compression/src/deflate.rs"), ("canonical decoding", "keramics-compression/src/huffman.rs")],
     "Random encoder using every block type, code size repeat and extreme code; data to 300 kB.")
comp("C17", "Bzip2 data decompresses to the data it was made from",
     "Valid bzip2 data of any number of blocks, block sizes 1 to 9, tables with code sizes 1 to 20, any selectors and run lengths, decompresses to exactly the original bytes and reports their number; data whose block or stream checksum does not match is refused.",
     "the unit tests decompress one small file of a single block",
     ["bzip2.rs", "huffman.rs"], [("inverse Burrows-Wheeler transform and run lengths", "keramics-compression/src/bzip2.rs"), ("block and stream checksums", "keramics-compression/src/bzip2.rs")],
     "Random encoder; blocks to 900000 bytes.")
comp("C18", "LZNT1 data decompresses to the data it was made from",
     "Valid LZNT1 data of compressed and raw chunks, with matches on both sides of every offset and length boundary, decompresses to exactly the original bytes and reports their number.",
     "the unit tests decompress one file whose matches rarely touch the boundaries at which the tuple layout changes",
     ["lznt1.rs"], [("tuple layout by position", "keramics-compression/src/lznt1.rs")], "Random and boundary-directed encoder.")
comp("C19", "LZVN and LZFSE data decompresses to the data it was made from",
     "Valid LZVN data of any opcodes, and valid LZFSE data of uncompressed, LZVN and entropy coded (version 1 and 2) blocks in any order, decompresses to exactly the original bytes and reports their number.",
     "the unit tests decompress one sample per codec, of one block type",
     ["lzvn.rs", "lzfse.rs"], [("opcode table", "keramics-compression/src/lzvn.rs"), ("finite state entropy tables", "keramics-compression/src/lzfse.rs")],
     "Random encoder over all opcodes, block types and frequency tables; version 1 headers are taken to be packed.")
comp("C20", "ADC data decompresses to the data it was made from",
     "Valid Apple Data Compression data of any literals, short and long matches decompresses to exactly the original bytes and reports their number.",
     "the unit tests decompress one small sample", ["adc.rs"], [("match opcodes", "keramics-compression/src/adc.rs")], "Random encoder.")
comp("C21", "LZX data decompresses to the data it was made from",
     "Valid LZX chunks (as in Windows Imaging) of verbatim, aligned and uncompressed blocks, with any codes, recent distances and translated call instructions, decompress to exactly the original bytes and report their number.",
     "the unit tests decompress three recorded chunks, none with uncompressed blocks",
     ["lzx.rs", "huffman.rs"], [("code sizes relative to the previous block", "keramics-compression/src/lzx.rs"), ("recent distances", "keramics-compression/src/lzx.rs")],
     "Random encoder, chunks to 32768 bytes.")
prop("C22", "Damaged compressed data is refused or decoded the same way every time",
     "Whatever bytes any decompressor is given, it returns a result within moments, without panicking; what it produces depends on these bytes alone, not on the previous content of the buffer, on data the context decoded before or on debug output being on; and it never claims more bytes than the buffer holds.",
     ["inputs", "histories", "configurations"], "all byte strings, buffer sizes, previous contents, orders of use of a context, debug output on and off",
     "the unit tests only give valid data to fresh contexts", ["keramics-compression/src"], [("bounds checks of all decompressors", "keramics-compression/src"), ("state kept in contexts", "keramics-compression/src")],
     "Mutated valid streams and random data, each decoded twice into differently filled buffers.", CM)

FM = MON + "; independent builders write the images"
prop("C23", "MBR partitions are listed and read as the boot records describe them",
     "On a disk with a master boot record, every primary partition and every logical partition of the chain of extended boot records, and nothing else, is listed with its entry index, type, flags, offset and size, whatever the order and place of the records; reading a partition gives exactly the bytes of its range and ends at its end. The sector size is told from the disk, or can be set. A boot record without its signature is refused.",
     ["inputs", "histories", "configurations"], "all valid partition layouts, sector sizes 512 to 4096, chains of up to 60 extended boot records, all reads and seeks within a partition",
     "the unit tests use one recorded disk that is not part of the repository's buildable tests",
     ["keramics-formats/src/mbr/volume_system.rs", "keramics-formats/src/mbr/partition.rs"],
     [("chain of extended boot records", "keramics-formats/src/mbr/volume_system.rs"), ("reads limited to the partition", "keramics-formats/src/mbr/partition.rs")],
     "Random disks; at most 60 extended boot records.", FM)
prop("C24", "GPT and APM partitions are listed and read as their tables describe them",
     "On a disk with a GUID partition table or an Apple partition map, every used entry, and nothing else, is listed in order with its identifiers or names, flags, offset and size; reading a partition gives exactly the bytes of its range and ends at its end. A GPT header or entry array that does not match its checksum is never used, and partition map entries without signature or with another number of entries are refused.",
     ["inputs", "histories", "configurations"], "all valid tables of up to some 140 entries, sector sizes 512 to 4096 (GPT), all reads and seeks within a partition, single bit damage of headers and entries",
     "the unit tests use one recorded disk per format that is not part of the repository's buildable tests",
     ["keramics-formats/src/gpt", "keramics-formats/src/apm"],
     [("header and entry checksums", "keramics-formats/src/gpt"), ("partition map entries", "keramics-formats/src/apm/volume_system.rs")],
     "Random disks with an independent CRC-32.", FM)
prop("C25", "Damaged partition tables are refused or read the same way every time",
     "Whatever a disk with an MBR, GPT or APM contains, opening it and reading its partitions returns within moments without panicking, and the partitions and bytes found are the same when the disk is opened again or debug output is on.",
     ["inputs", "configurations"], "all damaged disks, including tables with matching checksums, debug output on and off",
     "the unit tests only open valid disks", ["keramics-formats/src/mbr", "keramics-formats/src/gpt", "keramics-formats/src/apm"],
     [("range checks of table fields", "keramics-formats/src/gpt"), ("end of the chain of extended boot records", "keramics-formats/src/mbr/volume_system.rs")],
     "Mutated valid disks, checksums made right again half of the time.", FM)
prop("C26", "Sparse disk images and sparse bundles read as the disk they hold",
     "A Mac sparse disk image and a sparse bundle, with any band size and any bands present, absent or shorter than the band size, read exactly as the disk they describe: present bands give their bytes at their place, everything else is zero, the size is the one described, and reads end at it. Band numbers out of range are refused. The bundle's settings are read from its property list whatever valid XML writes them.",
     ["inputs", "histories"], "all valid images and bundles to several hundred bands, all reads and seeks, valid XML property lists with comments, references, CDATA sections and other keys",
     "the unit tests read one recorded image per format that is not part of the repository's buildable tests",
     ["keramics-formats/src/sparseimage", "keramics-formats/src/sparsebundle", "keramics-formats/src/plist", "keramics-formats/src/block_tree.rs"],
     [("band numbers array", "keramics-formats/src/sparseimage"), ("band files by hexadecimal name", "keramics-formats/src/sparsebundle"), ("XML property list", "keramics-formats/src/plist")],
     "Random images against a model of the disk.", FM)
prop("C27", "VHD disks and chains of differential disks read as the disk they hold",
     "A fixed, dynamic or differential VHD, with any block size and any sectors present, reads exactly as the disk it describes: sectors its bitmaps mark present come from the file, others from its parent or are zero, also where parent and child differ in size; reads end at the size of the disk. Every layer of a chain of differential disks is available with its type, identifier, and parent. A parent with another identifier, a missing one and a cycle of parents are refused.",
     ["inputs", "histories"], "all valid chains of up to 5 disks, block sizes 512 bytes to 2 MiB, all reads and seeks of every layer",
     "the unit tests read three recorded disks that are not part of the repository's buildable tests",
     ["keramics-formats/src/vhd", "keramics-formats/src/block_tree.rs"],
     [("sector bitmaps", "keramics-formats/src/vhd"), ("chain of parents", "keramics-formats/src/vhd/image.rs")],
     "Random chains against a model of every layer; blocks of more than 4 GiB of file offset included.", FM)
prop("C28", "VHDX disks and chains of differential disks read as the disk they hold",
     "A fixed, dynamic or differential VHDX, with any block size, sector size and order of its regions, reads exactly as the disk it describes: blocks in the file come from the file, also beyond the first chunk of the block allocation table, partially present blocks sector by sector from file or parent, absent blocks of a differential disk from its parent, all others are zero, also where parent and child differ in size. Every layer of a chain is available with its type, sizes, identifier and parent; the identifier is that of the newer header. A header or region table that does not match its checksum is never used; a parent with another identifier, a missing one and a cycle of parents are refused.",
     ["inputs", "histories"], "all valid chains of up to 4 disks without pending log, block sizes 1 to 256 MiB, sector sizes 512 and 4096, disks of many chunks, all reads and seeks of every layer",
     "the unit tests read three recorded disks that are not part of the repository's buildable tests",
     ["keramics-formats/src/vhdx", "keramics-formats/src/block_tree.rs"],
     [("block allocation table chunks", "keramics-formats/src/vhdx/file.rs"), ("sector bitmaps", "keramics-formats/src/vhdx/sector_bitmap.rs"), ("chain of parents", "keramics-formats/src/vhdx/image.rs")],
     "Random chains against a model of every layer; the log is not replayed.", FM)
prop("C29", "QCOW disks and chains of backing files read as the disk they hold",
     "A QCOW file of version 1, 2 or 3, with any cluster and table size, reads exactly as the disk it describes: allocated clusters come from the file, clusters without table or entry from the backing file or are zero, clusters of version 3 that are marked so are zero, also where file and backing file differ in size; reads end at the size of the disk. Every layer of a chain is available with its version, size and backing file name. A missing or other backing file, a cycle of backing files and encrypted disks are refused.",
     ["inputs", "histories"], "all valid chains of up to 5 disks without compressed clusters, cluster sizes 512 bytes to 256 KiB, all reads and seeks of every layer",
     "the unit tests read one recorded version 3 disk without backing file that is not part of the repository's buildable tests",
     ["keramics-formats/src/qcow", "keramics-formats/src/block_tree.rs"],
     [("level 1 and 2 tables", "keramics-formats/src/qcow/file.rs"), ("chain of backing files", "keramics-formats/src/qcow/image.rs")],
     "Random chains against a model of every layer; compressed clusters are not supported by the code and not covered.", FM)
prop("C30", "UDIF disk images read as the disk they hold",
     "A UDIF image whose block ranges are stored raw, as zeros, or compressed with ADC, zlib, bzip2 or LZFSE reads exactly as the disk it describes, whatever the number, size and order of its block tables and ranges, the position of its data fork and plist and the sharing of stored data between ranges, with comment and terminator entries ignored; an image without plist is its data fork. Seeks and reads end at the size of the disk. Images whose ranges leave gaps, overlap, have no sectors, are of an unknown type or lie outside the data fork are refused.",
     ["inputs", "histories"], "all valid images of one compression method apart from LZMA, ranges up to 8 MiB of compressed data, all reads and seeks, with data between ranges shared or not",
     "the unit tests read five recorded images that are not part of the repository's buildable tests",
     ["keramics-formats/src/udif", "keramics-formats/src/plist"],
     [("block ranges", "keramics-formats/src/udif/file.rs"), ("block tables", "keramics-formats/src/udif/block_table.rs"), ("plist", "keramics-formats/src/plist/xmlplist.rs")],
     "Random images by an independent encoder against a model of the disk; LZMA is not supported by the code.", FM)
prop("C31", "Expert Witness (EWF) images read as the medium they hold",
     "An EWF image (E01 after EnCase 1 to 7, SMART S01) of any number of segment files, chunk and sector size reads exactly as the medium it holds: compressed and uncompressed chunks in sectors or table sections, a partial last chunk, base offsets and offsets beyond 2 GiB. Seeks and reads end at the size of the medium. Sizes, media type, error granularity, set identifier, stored hashes and the values of header and header2 sections are reported as stored. A missing segment file, another segment number or set identifier, contradicting section sizes, any changed byte of a structure with a checksum and a compressed chunk with a wrong checksum are refused.",
     ["inputs", "histories"], "all valid images up to 780 segment files, chunk sizes 512 bytes to 512 KiB, all reads and seeks, all single changed bytes of checksummed structures",
     "the unit tests read one recorded image of one segment file that is not part of the repository's buildable tests",
     ["keramics-formats/src/ewf", "keramics-formats/src/lru_cache.rs", "keramics-formats/src/block_tree.rs"],
     [("chunk tables", "keramics-formats/src/ewf/image.rs"), ("sections", "keramics-formats/src/ewf/file.rs"), ("header values", "keramics-formats/src/ewf/header2.rs")],
     "Random images by an independent writer against a model of the medium; checksums of uncompressed chunks are not verified by the code and not claimed.", FM)
IMAGES = "Whatever the file of a disk image (%s) contains, opening it and reading its layers returns within moments without panicking or exhausting memory, and the layers and bytes found are the same when it is opened again or debug output is on."
prop("C32", "Damaged disk images are refused or read the same way every time",
     IMAGES % "VHD, VHDX, QCOW, UDIF, EWF, sparse disk image, sparse bundle",
     ["inputs", "configurations"], "all damaged images, debug output on and off",
     "the unit tests only open valid images", ["keramics-formats/src/vhd", "keramics-formats/src/vhdx", "keramics-formats/src/qcow", "keramics-formats/src/udif", "keramics-formats/src/plist", "keramics-formats/src/ewf", "keramics-formats/src/sparseimage", "keramics-formats/src/sparsebundle"],
     [("range checks of header fields", "keramics-formats/src/vhd"), ("range checks of table entries", "keramics-formats/src/sparseimage")],
     "Mutated valid images; what a failed read leaves in the buffer is not looked at.", FM)
prop("C33", "FAT-12, FAT-16 and FAT-32 file systems list and read as they were written",
     "A FAT-12, FAT-16 or FAT-32 file system of any sector size, cluster size, number of clusters, number and size of allocation tables and number of root directory entries opens as what it is: the format follows from the number of clusters, the label is that of the root directory or else of the boot record. Every directory lists exactly the entries in use before its terminator, each once: with its long name when the stored long name entries belong to it by checksum, else with its short name in the case its flags ask for; the size, attribute flags, times and kind are as stored. Deleted entries, volume labels, orphaned long names and '.' and '..' are not listed. The data of a file is the chain of its clusters up to its size, however fragmented, wherever in the volume. An entry is found by its name and path in any case, and by its identifier; a name that is not in the directory is not found.",
     ["inputs", "histories"], "all valid volumes up to 16 TiB, directory trees of up to five levels and 120 files, names of 1 to 255 UTF-16 elements",
     "the unit tests read one recorded FAT-12 volume of a handful of files",
     ["keramics-formats/src/fat"],
     [("directory entries", "keramics-formats/src/fat/directory_entries.rs"), ("allocation table", "keramics-formats/src/fat/block_allocation_table.rs"), ("file data", "keramics-formats/src/fat/block_stream.rs")],
     "Random volumes by an independent writer against a model of the tree; short names of ASCII letters only; short aliases of long names are not looked up. Two known findings on identifiers.", FM)
prop("C34", "ext2, ext3 and ext4 file systems list and read as they were written",
     "An ext2, ext3 or ext4 file system of any block size, number and size of block groups, inode size and combination of supported features opens as what it is: version, feature flags, number of inodes, label, last mount path and times as stored, wherever the inode tables are. Every directory lists exactly the entries in use but '.' and '..', each once, whatever blocks the directory is made of; an entry has the mode, owner, group, size, number of links, times (with nanoseconds and years beyond 2038 where stored), number of attributes, symbolic link target and device as stored. The data of a file is what was written, by direct and indirect blocks or by extents of any depth, inside the inode where stored there, with zeros where nothing is allocated or where blocks are not initialized. An entry is found by its exact name, path and inode number; a name that is not in the directory is not found. With metadata checksums a superblock, group descriptor or inode with a changed bit is refused.",
     ["inputs", "histories"], "all valid file systems up to 2^32 + 2^20 blocks of 64 KiB, directory trees of up to some 260 files, files up to the largest the format allows",
     "the unit tests read one recorded ext2 volume of a handful of files",
     ["keramics-formats/src/ext"],
     [("data of a file", "keramics-formats/src/ext/block_stream.rs"), ("extents", "keramics-formats/src/ext/extents_tree.rs"), ("indirect blocks", "keramics-formats/src/ext/block_numbers_tree.rs"), ("directory entries", "keramics-formats/src/ext/directory_tree.rs"), ("inodes", "keramics-formats/src/ext/inode_table.rs")],
     "Random file systems by an independent writer against a model of the tree; meta block groups, checksums of directories and extents, values of attributes and encrypted names are not covered. One known finding on device identifiers.", FM)
prop("C35", "NTFS file systems list and read as they were written",
     "An NTFS file system of version 1.2, 3.0 or 3.1, of any sector, cluster, MFT entry and index entry size, opens as what it is: version, label, serial number, flags and number of MFT entries as stored, wherever the master file table is and in however many pieces. Every directory lists exactly its entries, each once (a short name with its long name), whatever nodes its index is made of, of whatever size and over however many runs. An entry has the times, attribute flags, size, names, parent, link target, attributes and named data streams as stored, in one or more MFT entries; deleted, empty and bad MFT entries are reported as such. The data of a stream is what was written, stored in the MFT entry or in runs, compressed in compression units or by the Windows Overlay Filter, with zeros where it is sparse and beyond the valid size. An entry is found by name (in any spelling, unless the directory is case-sensitive), by path and by MFT entry number; a name that is not in the directory is not found.",
     ["inputs", "histories"], "all valid file systems with clusters of 512 bytes to 2 MiB, MFT entries up to 32 KiB, directory trees of up to some 300 entries, files of more than 1 TiB",
     "the unit tests read one recorded NTFS volume of a handful of files",
     ["keramics-formats/src/ntfs"],
     [("runs of a stream", "keramics-formats/src/ntfs/block_ranges.rs"), ("compression units", "keramics-formats/src/ntfs/compressed_stream.rs"), ("overlay filter", "keramics-formats/src/ntfs/wof_compressed_stream.rs"), ("directory index", "keramics-formats/src/ntfs/directory_index.rs"), ("attributes and attribute lists", "keramics-formats/src/ntfs/mft_attributes.rs")],
     "Random file systems by an independent writer against a model of the tree; encryption, reparse points outside of the MFT entry, overlay filter methods other than LZX (their decoder is missing from the repository) and targets of junctions are not covered.", FM)
prop("C36", "Damaged file systems are refused or read the same way every time",
     IMAGES.replace("the file of a disk image (%s) contains, opening it and reading its layers", "a volume with a file system (%s) contains, opening it, listing its directories, looking up what they list and reading the files").replace("the layers and bytes found", "the entries and bytes found") % "FAT, ext, NTFS",
     ["inputs", "configurations"], "all damaged volumes, debug output on and off",
     "the unit tests only open valid volumes", ["keramics-formats/src/fat", "keramics-formats/src/ext", "keramics-formats/src/ntfs"],
     [("range checks of the superblock", "keramics-formats/src/ext/superblock.rs"), ("trees of blocks", "keramics-formats/src/ext/extents_tree.rs"), ("allocation table and chains", "keramics-formats/src/fat/block_allocation_table.rs"), ("directory entries", "keramics-formats/src/fat/directory_entries.rs")],
     "Mutated valid volumes; what a failed read leaves in the buffer is not looked at.", FM)
prop("C37", "The documentation shows everything its pages contain, tables included",
     "The preprocessor of the documentation gives back every book it is given with the same structure, and every chapter, at any depth, shows the same text, formatting and blocks as written. Every table becomes a table with all its rows and cells, each once and in order, with the formatting, links and images of their content; a cell that is to span all columns does so; missing cells are empty and surplus ones left out. Draft chapters are left alone. Input that is not a book is refused with an error and without output.",
     I, "all books and chapters of headings, paragraphs, code, lists, quotes, raw HTML and tables, also inside list items; every page of docs/formats; alignment of columns not included",
     "the preprocessor has no tests", ["docs/mdbook-tables"],
     [("conversion of table events", "docs/mdbook-tables/src/main.rs")],
     "Random books and the real pages; both sides rendered with the Markdown library the book tool uses.", MON + "; the program is run as the book tool runs it")
prop("C38", "The virtual file system shows what is in images, partitions and file systems",
     "Scanning a file finds everything in it: the image, its newest layer, the partitions in it and the file system in each, with locations that open. What a location gives does not depend on what was opened before. An image lists one entry per layer and a volume system one per partition, with the names of their format, their size and their content; other names do not exist. A file system inside of them lists, each once and below the right directory, the same entries with the same type, size, times, link target, data streams and content as when read directly, by walking it, by path and by name of the data stream; missing paths are not found. A file of the operating system has the type, size, times and content that the operating system gives.",
     ["inputs", "histories"], "all stacks of an image (EWF, QCOW, sparse, UDIF, VHD, VHDX, or none) of one or two layers, a volume system (APM, GPT, MBR, or none) and FAT, ext and NTFS file systems; all other images of the monitors C23 to C31; files, directories, links, pipes and sockets",
     "the unit tests open a few recorded images, and check no location inside of more than one layer",
     ["keramics-vfs/src", "keramics-formats/src/scanner.rs"],
     [("scan for what is inside", "keramics-vfs/src/scanner/scanner.rs"), ("cache of opened file systems", "keramics-vfs/src/context.rs"), ("entries of all formats", "keramics-vfs/src/file_entry.rs"), ("walk", "keramics-vfs/src/finder/finder.rs"), ("signatures", "keramics-formats/src/scanner.rs")],
     "Random stacks written to scratch files; what has the signatures of two formats is only opened, not scanned; listing of directories of the operating system is not implemented in the repository and not covered, nor is the fake file system.", FM)
prop("C39", "The command line tools report what is in the files they are given",
     "The digest of a file, of standard input, of the media in an image and of every data stream in every file system of an image is that of the bytes in question, in each of the five methods. The hierarchy names every layer, volume and file system, with its path. A bodyfile has a line for every file entry, named data stream and NTFS file name, with the path, identifier, mode, owner, group, size, times and, when asked for, the MD5 of its content. Exporting a path or a named data stream writes exactly its bytes, and nothing for what does not exist. Information shown about an image, partition, file system or file entry (by path or by identifier, at any offset in the source) is what was stored. Names are escaped, and those of ext shown and looked up in the encoding that is asked for. Whatever a damaged file contains, the tools end, with or without an error message.",
     ["inputs"], "all stacks of an image of one or two layers, a volume system and FAT, ext and NTFS file systems; all other images and partition tables of the monitors C23 to C31; streams of up to 300 kB; damaged file systems, images and partition tables",
     "the tools do not build in the test run, and have tests of single helpers only",
     ["keramics-tools/src"],
     [("digests of all data streams", "keramics-tools/src/hasher.rs"), ("bodyfile times", "keramics-tools/src/bodyfile.rs"), ("bodyfile lines and hierarchy", "keramics-tools/src/image_tool.rs"), ("escaped names", "keramics-tools/src/display_path.rs"), ("export", "keramics-tools/src/writer.rs"), ("offset into the source", "keramics-tools/src/range_stream.rs"), ("information", "keramics-tools/src/info")],
     "The tools are built from /repo's source and run as an unprivileged user in a scratch directory; of what the information tool prints, sizes, offsets, counts, names, modes, owners, flags and paths are compared, not the wording; bodyfiles of file systems with unreadable data are left out.", MON + "; the tools are run as processes and their output is compared with the model")
