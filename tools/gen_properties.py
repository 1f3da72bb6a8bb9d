#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook="re-exports behind cfg(md_recover_verif): the crate has no library target", state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "RAID 5/6 placement of data and parity equals Linux MD's",
 "For every RAID 5 and RAID 6 layout Linux MD defines, every number of devices, every chunk size and every array sector, the computed member sector, data device and parity device(s) are exactly those Linux MD uses. The level and layout codes decode to the corresponding algorithm, and every code MD does not define decodes to \"unsupported\".",
 ["inputs", "configurations"], "all (level, layout) codes; 2..64 devices (3.. for RAID 6); chunk sizes from one sector to the largest; sectors over whole rotation periods anywhere in the 64-bit address space",
 "Unit tests pin a handful of sectors per layout with small sizes; a rotation slip at one stripe phase, device count or beyond 2^32 sectors is outside them.",
 ["src/md/raid5/algorithm.rs", "src/md/raid6/algorithm.rs", "src/md/algorithm.rs"],
 [("sector placement", "src/md/raid5/algorithm.rs: compute_sector"), ("sector placement", "src/md/raid6/algorithm.rs: compute_sector"), ("layout codes", "src/md/algorithm.rs: from_level_and_layout")],
 ["Raid5Algorithm/Raid6Algorithm::compute_sector", "MdAlgorithm::from_level_and_layout"])

prop("C02", "A healthy RAID 6 array reads back exactly what was stored on it",
 "For every complete, consistent RAID 6 array as mdadm creates it (any superblock version, layout, device count, chunk size, member size, data offset, member sector size), opening the members in any order gives a block device of 512-byte blocks with exactly the array's data sectors, and every block reads as the data stored there. A block number past the end, or a buffer smaller than a block, is an error, and a larger buffer gets one block. Handles cloned from the array see the same contents.",
 ["inputs", "configurations", "histories"], "superblock versions x 14 layouts x 4..8 devices x chunk sizes x data offsets x member block sizes x orders of listing; every sector of small arrays, and windows of huge (> 2^32 sector) ones",
 "The existing tests never read from an assembled array at all; data offsets, partial chunks, device order and big sizes are untested.",
 ["src/md/array.rs", "src/md/definition.rs", "src/md/format.rs", "src/md/raid6/algorithm.rs", "src/md/algorithm.rs"],
 [("read path", "src/md/array.rs: read_block"), ("size", "src/md/format.rs: data_sector_count")],
 ["MdArray::open", "MdArray as BlockDevice", "BlockDeviceReader<MdArray>"])

prop("C03", "An inconsistent or incomplete stripe never yields wrong data",
 "Whatever is wrong with a RAID 6 array (bytes of any one member silently changed in a stripe, members missing, truncated, unreadable or listed twice, reads that fail, are interrupted or come back short), reading a block either returns the data that was stored there or an error. An error never spreads to stripes that are intact and readable, and damage confined to Q (which is not used for reading) never prevents a read.",
 ["fault_sequences", "inputs", "configurations"], "all layouts, every position of one changed byte of a stripe with every bit pattern class on every member; every subset of members; every place of a fault in the sequence of device reads (bounded number of faults)",
 "No existing test reads a damaged array; the parity test is a loop over every byte of every device that a sampled test cannot cover.",
 ["src/md/raid6/algorithm.rs", "src/md/array.rs", "src/ext/read_all.rs"],
 [("parity check", "src/md/raid6/algorithm.rs: read_sector"), ("role uniqueness", "src/md/array.rs: open")],
 ["MdArray::read_block"])

prop("C04", "The MD superblock of a device is found wherever Linux would put it",
 "For every device size and every combination of valid, damaged and absent superblocks at the four possible places, opening the device reports: too small if it cannot hold any superblock, otherwise the valid superblock at the first of 1.2, 1.1, 1.0, 0.90 places that has one, otherwise missing. A candidate with the wrong magic number, wrong major version or malformed version 0 descriptors is not accepted, and a place that cannot be read does not hide a superblock elsewhere.",
 ["inputs", "configurations", "fault_sequences"], "device sizes around every threshold and alignment, sector sizes, all combinations of candidate states, positions of unreadable ranges, short and interrupted reads",
 "There are no tests of discovery; alignment and size arithmetic only fails at particular sizes.",
 ["src/md/device/device.rs", "src/md/device/superblock.rs", "src/md/superblock/version_0/superblock.rs", "src/md/superblock/version_1/superblock.rs"],
 [("probing", "src/md/device/device.rs: from_block_device"), ("validity", "src/md/superblock/*/superblock.rs: valid")],
 ["MdDevice::from_block_device", "MdDevice.superblock"])

prop("C05", "MD superblock fields decode to what Linux wrote",
 "Every field of a version 0 superblock (of either byte order) and of a version 1 superblock is reported with the value and unit Linux gives it: identity, name, level, layout, size, chunk size, device count, event count, data offset, reshape state, the device's own slot, and the role of every slot. Feature-dependent fields are reported only when their feature is set, and no stored bytes make decoding fail to terminate or crash.",
 ["inputs"], "per field: every single bit and boundary values, pairs of fields, all 65536 role codes, both byte orders, all descriptor states and truncated storage",
 "Tests decode one or two captured superblocks, where most fields are zero or equal.",
 ["src/md/superblock/version_0", "src/md/superblock/version_1", "src/md/superblock/role.rs", "src/md/superblock/reshape_status.rs"],
 [("field layout", "src/md/superblock/version_{0,1}/"), ("roles", "src/md/superblock/role.rs")],
 ["Superblock trait accessors"])

prop("C06", "Assembly does not depend on listing order; conflicts are never guessed",
 "The result of assembling a set of devices (diagnosis, size, and for every block the data or the fact of an error) is the same for every order in which they are listed. Roles recorded by the members are combined so that definite information wins over spare, faulty or unused slots, and a slot about which two members make different definite claims, or that two listed devices both fill, is never used for reading. Members that disagree on level, layout, chunk size, size or device count make the array unreadable rather than wrongly read.",
 ["inputs", "histories", "configurations"], "all role tables over the kinds of roles for several members, all permutations and subsets of listed members, duplicates, every pairwise disagreement of format fields",
 "No test assembles devices that disagree; order dependence shows only in some permutations.",
 ["src/md/array.rs", "src/md/format.rs", "src/md/superblock/role.rs"],
 [("role reconciliation", "src/md/array.rs: open"), ("format agreement", "src/md/array.rs: open; src/md/format.rs")],
 ["MdArray::open", "MdArray::block_count/read_block", "MdArray::diagnose"])

prop("C07", "The diagnosis reports exactly which devices disagree, and on what",
 "For every attribute that all members must share, the diagnosis reports a problem exactly when listed members with superblocks differ in it, and then maps every value that occurs to exactly the devices that hold it; for the slot, which members must not share, it lists exactly the values held more than once. Devices that are too small, lack a superblock, or carry one are classified exactly so. The diagnosis of members that agree is clean.",
 ["inputs", "configurations"], "three devices, every attribute alone and every pair of attributes, every assignment of values to devices, superblock versions, missing and too small devices",
 "One missing field comparison or a swapped pair of fields is invisible to tests that never diagnose anything.",
 ["src/md/definition.rs", "src/md/diagnosis/diagnosis.rs", "src/ext/multi_map.rs"],
 [("comparison", "src/md/definition.rs: diagnose"), ("grouping", "src/ext/multi_map.rs")],
 ["MdArray::diagnose"])

prop("C08", "The byte-stream view of a block device is a flat file",
 "Over any block device, any sequence of reads (of any length), seeks (from start, current position or end, in and out of range) and clones gives exactly what a flat file of the device's bytes gives: same bytes, same positions, an end of file only at the end, errors for negative positions. A seek or read that fails leaves the stream usable, and no sequence crashes.",
 ["histories", "inputs", "fault_sequences"], "all operation sequences up to a depth over boundary-directed arguments, block sizes and counts, with I/O faults at any block access",
 "Tests perform single fixed read/seek patterns; bugs need particular sequences (buffered block, then seek, then read over an edge).",
 ["src/block_device/reader.rs"],
 [("buffered position", "src/block_device/reader.rs: Read and Seek")],
 ["BlockDeviceReader: Read, Seek, try_clone"],
 state=[("buffer", "the block that was read last", "src/block_device/reader.rs"), ("position", "block number and offset in block", "src/block_device/reader.rs")])

prop("C09", "Every block device reads exactly the addressed block, or reports why not",
 "For files, in-memory devices and native devices (and views stacked on them): the block count is the number of whole blocks, reading block n yields exactly the bytes at n times the block size and says how many, a block outside the device or a buffer that is too small is an error, and a larger buffer is allowed. Short or interrupted reads of the underlying storage never yield wrong or incomplete blocks. Reads by number do not depend on, and sequential reads follow, the operations that came before.",
 ["histories", "inputs", "fault_sequences", "configurations"], "operation sequences over boundary block numbers, block sizes and buffer sizes for each kind of device, ioctl results for native devices",
 "Existing tests cover a few in-memory reads; file and native devices are not tested.",
 ["src/block_device/file.rs", "src/block_device/in_memory.rs", "src/block_device/native.rs", "src/block_device/internal.rs", "src/ioctl/blk.rs"],
 [("bounds and full reads", "src/block_device/*.rs: read_block"), ("geometry", "src/block_device/native.rs; src/ioctl/blk.rs")],
 ["BlockDevice::{block_size, block_count, read_block, try_clone}", "Read, Seek"])

prop("C10", "An ext4 superblock is accepted exactly when it is trustworthy",
 "A superblock is accepted exactly if its magic number is right, its checksum is right where it says it has one (and it has one where the filesystem has metadata checksums), its block size and checksum type are ones the program supports, and its cluster size, clusters per group, error policy and flex group size are not nonsensical; otherwise the filesystem is refused, without crashing or guessing. A filesystem with incompatible features the program does not know is refused; unknown compatible features change nothing. In particular, any single changed bit of a checksummed superblock is noticed.",
 ["inputs"], "every single bit flip (all 8192) and pairs in thorough, magic values, all block-size exponents, checksum types and feature combinations, truncated storage at every length",
 "Tests hold four real superblocks and one random block.",
 ["src/ext4/superblock/superblock.rs", "src/ext4/superblock/checksum.rs", "src/ext4/superblock/checksum_type.rs", "src/ext4/fs.rs", "src/ext4/crc.rs"],
 [("acceptance", "src/ext4/superblock/superblock.rs: valid, checksum_valid"), ("opening", "src/ext4/fs.rs: open")],
 ["ext4 Superblock::valid", "Ext4Fs::open"])

prop("C11", "ext4 metadata fields decode to what Linux wrote",
 "Every field of superblocks, group descriptors and inodes is reported with the value Linux gives it, including values split into low and high halves, features, flags, modes, user and group ids, sizes, link counts and block counts. Fields that the on-disk size or features of the filesystem do not provide are not taken from unrelated bytes. Unknown flag bits never change the meaning of the known ones.",
 ["inputs", "configurations"], "per field: every bit and boundary values of each half against zero and all-ones backgrounds; every mode; inode sizes and extra sizes; 32- and 64-bit descriptors",
 "Captured samples have zero in nearly every high half.",
 ["src/ext4/superblock/superblock.rs", "src/ext4/block_group/descriptor.rs", "src/ext4/inode/inode.rs", "src/ext4/inode/file_mode.rs"],
 [("field layout", "src/ext4/{superblock,block_group,inode}/"), ("wide fields", "src/ext/wide_unsigned.rs")],
 ["accessors of Superblock, BlockGroupDescriptor, Inode"])

prop("C12", "Inode numbers lead to the right on-disk inode",
 "For every filesystem geometry (block size, inodes per group, inode size, descriptor size, number of groups, position of inode tables up to 48-bit block numbers, first data block, clusters, meta block groups, filesystems that are not 64-bit), opening inode number n yields the inode stored in slot (n-1) mod inodes-per-group of group (n-1) div inodes-per-group. Inode number 0 and numbers beyond the filesystem's inode count are errors. Other contents of group descriptors and which inodes were opened before make no difference. A filesystem whose group descriptors have a nonsensical size is refused.",
 ["inputs", "configurations"], "all inode numbers of small filesystems in all geometries; boundary numbers of large ones, with tables beyond 2^32 blocks",
 "Tests open only the root directory of one image.",
 ["src/ext4/fs.rs", "src/ext4/block_group/descriptor.rs", "src/ext4/superblock/superblock.rs"],
 [("location", "src/ext4/fs.rs")],
 ["Ext4Fs::open / open_root / inode lookup"])

prop("C13", "A regular file reads as exactly its logical contents",
 "For every shape of extent tree (depth, fan-out, extent lengths, order of physical blocks, 48-bit block numbers, preallocated extents reading as zeros) and every file size, reading a regular file that has no holes block by block yields its bytes in order, exactly as many as its size, and then the end of file. A hole never yields wrong data: only zeros or an error.",
 ["inputs", "histories", "configurations"], "all extent layouts of up to N logical blocks (compositions into extents, tree depths 0..4), file sizes around block edges, buffer sizes",
 "No test reads a regular file; trees deeper than the inode never occur in tests.",
 ["src/ext4/regular_file.rs", "src/ext4/file.rs", "src/ext4/extent/tree.rs", "src/ext4/extent/extent.rs", "src/ext4/extent/index.rs"],
 [("extent walk", "src/ext4/file.rs"), ("end of file", "src/ext4/regular_file.rs")],
 ["Ext4RegularFile::read_next_block"])

prop("C14", "A malformed extent tree is an error, never wrong data, a crash or a loop",
 "For every damaged extent tree (wrong magic, entry count beyond capacity, depth inconsistent between levels, unsorted or overlapping entries, entries outside the parent's range, blocks outside the filesystem, cycles), reading the file yields a prefix of correct data or zeros for what is not mapped, and then an error or the end; where entries are out of order or not where the entry of their node says, there is an error. It always ends and never crashes.",
 ["inputs", "configurations"], "each damage at each node of trees of depth 0..3, all header values at the boundaries, pairs of damages, reference cycles between nodes",
 "No test contains a damaged tree.",
 ["src/ext4/extent/tree.rs", "src/ext4/extent/header.rs", "src/ext4/file.rs"],
 [("validation", "src/ext4/extent/tree.rs, header.rs"), ("progress", "src/ext4/file.rs")],
 ["Ext4RegularFile: Read", "Ext4Directory: Iterator"])

prop("C15", "A directory lists exactly its entries, in order",
 "Iterating a linear directory yields each used entry once, in on-disk order, with its exact name bytes (1 to 255 bytes, any byte but NUL), inode number and type, and nothing for unused entries, padding, deleted entries or checksum tails. This holds over any division into blocks and extents and any record lengths. Malformed records are reported as errors, never as made-up entries.",
 ["inputs", "configurations"], "all packings of up to N entries into blocks, name lengths 1..255, deleted entries at every position, record slack, block sizes, with and without checksums and file types; malformed record lengths and name lengths at every position",
 "Tests list one empty root directory and decode two captured entries.",
 ["src/ext4/directory/directory.rs", "src/ext4/directory/block.rs", "src/ext4/directory/dir_entry.rs", "src/ext4/directory/dir_entry_tail.rs"],
 [("record walk", "src/ext4/directory/block.rs"), ("entry decoding", "src/ext4/directory/dir_entry.rs")],
 ["Ext4Directory: Iterator"])

prop("C16", "Damage to checksummed directory blocks and extent nodes is detected",
 "On a filesystem with metadata checksums, a directory block or an extent tree block of which any byte covered by its checksum was changed, or that belongs to another inode or generation, is reported as an error and nothing from it is returned; an undamaged one is always accepted. The checksum seed comes from the superblock's seed if that feature is set and from the filesystem's UUID otherwise.",
 ["inputs", "fault_sequences"], "every byte and bit of directory blocks and extent blocks, other inode numbers and generations, both sources of the seed, block sizes",
 "Tests check one captured checksum; detection is a statement about all corruptions.",
 ["src/ext4/directory/block.rs", "src/ext4/extent/tree.rs", "src/ext4/crc.rs", "src/ext4/superblock/superblock.rs", "src/ext4/inode/inode.rs"],
 [("directory tail", "src/ext4/directory/dir_entry_tail.rs"), ("extent tail", "src/ext4/extent/tail.rs"), ("seed", "src/ext4/superblock/superblock.rs; src/ext4/inode/inode.rs")],
 ["Ext4Directory: Iterator", "Ext4RegularFile: Read"])

prop("C17", "Open files, directories and clones never disturb each other",
 "With any number of regular files, directories and clones of devices, arrays or filesystems (of one or of several) open at once, every interleaving of their operations gives each of them exactly the results it gets alone. This includes devices whose handles share one file position.",
 ["schedules", "histories"], "all interleavings of the operations of two and three handles up to a bounded number of operations each, over independent and shared file positions",
 "Tests hold a single handle at a time.",
 ["src/ext4/fs.rs", "src/ext4/file.rs", "src/block_device/file.rs", "src/block_device/reader.rs", "src/md/array.rs"],
 [("independent positions", "src/ext4/file.rs; src/block_device/reader.rs"), ("positioned reads", "src/block_device/file.rs")],
 ["Ext4RegularFile, Ext4Directory, BlockDeviceReader, MdArray handles"])

prop("C18", "I/O faults surface as errors and never change results",
 "Whatever single operations on the underlying device fail, are interrupted, come back short or report the end too early while a filesystem is opened, a directory listed or a file read, everything that is returned equals the fault-free result up to the first reported error; a fault that could not be hidden is reported. Short and interrupted reads are transparent. Nothing crashes, and the handles may be used (and yield no wrong data) afterwards.",
 ["fault_sequences", "histories"], "every operation on the device as the place of a fault, every kind of fault, up to two (three) faults per run",
 "No test injects a fault.",
 ["src/ext/read_all.rs", "src/ext4/fs.rs", "src/ext4/file.rs", "src/ext4/directory/directory.rs", "src/ext4/regular_file.rs"],
 [("error propagation", "src/ext4/*.rs"), ("full reads", "src/ext/read_all.rs")],
 ["Ext4Fs, Ext4Directory, Ext4RegularFile over a fault-injecting device"])

prop("C19", "The command only ever reads, and reports on every device",
 "Running the command on any list of devices never modifies them or anything else; it prints the diagnosis of the array they form if all can be opened, and otherwise names exactly those that cannot be opened, with the reason. The order of the arguments changes nothing else.",
 ["inputs", "configurations"], "all lists of up to three (four) arguments over kinds of devices (member, other member, blank, small, missing, not a block device, unreadable)",
 "There are no tests of the command.",
 ["src/main.rs", "src/md/device/device.rs", "src/block_device/native.rs", "src/ioctl/blk.rs"],
 [("command", "src/main.rs"), ("read-only open", "src/md/device/device.rs: open_path")],
 ["the md-recover executable: output, system calls, file contents"], hook=None)

prop("C20", "No input makes the program crash, hang or exhaust memory",
 "For any bytes whatsoever on the devices, opening them, assembling, diagnosing, reading blocks, opening a filesystem, looking up inodes, listing directories and reading files each end in a result or an error within bounded time and memory. They never panic, overflow, loop for ever or use memory in proportion to a claimed rather than the actual size of a device or structure.",
 ["inputs"], "every 8-, 16- and 32-bit field position of every metadata structure set to boundary values, alone and in pairs, on small MD arrays and filesystems, plus truncation at every boundary",
 "Robustness is a statement about all inputs; tests have well-formed inputs plus one random block.",
 ["src/ext4", "src/md", "src/block_device"],
 [("checked arithmetic and validation", "throughout")],
 ["all public operations"])

prop("C21", "A filesystem on a RAID 6 array reads the same as on a plain disk",
 "For every layout and chunk size, an ext4 filesystem stored on a RAID 6 array gives, through assembly, exactly the listing and file contents that it gives on a plain device. If a member is damaged, whatever is returned is still that, or an error.",
 ["configurations", "inputs", "fault_sequences"], "14 layouts x device counts x chunk sizes smaller and larger than filesystem blocks x superblock versions, with each metadata or data block corrupted on one member",
 "There is no end-to-end test.",
 ["src/md/array.rs", "src/block_device/reader.rs", "src/ext4/fs.rs"],
 [("layering", "Ext4Fs over BlockDeviceReader over MdArray over MdDevice")],
 ["Ext4Fs<BlockDeviceReader<MdArray>>"])

prop("C22", "File-name strings compare, hash and convert coherently",
 "Equality and ordering of strings used as ext4 names and labels are those of plain byte strings, whatever holds the bytes; strings that are equal hash equally, and strings read from NUL-terminated fields end before the first NUL. Conversion to bytes keeps every byte, and conversion to text succeeds exactly for valid UTF-8, with lossy display otherwise.",
 ["inputs"], "all pairs and triples of strings over a small alphabet with NUL and non-ASCII bytes up to a length, in every representation",
 "Tests compare a few strings.",
 ["src/ext4/string.rs"],
 [("comparison", "src/ext4/string.rs")],
 ["Ext4String: Eq, Ord, Hash, From"])

prop("C23", "Timestamps decode to the exact moment",
 "Every on-disk ext4 time (seconds with epoch extension bits and nanoseconds in inodes, 40-bit seconds in superblocks) is reported as exactly the moment Linux means, from 1901 to 2446 and whether or not the extra fields exist. Values that are not valid times never crash the program.",
 ["inputs"], "all epoch bits x boundary seconds x boundary nanoseconds including invalid ones, every bit of each field, all fields of every structure",
 "Tests check a few moments in 2020s, with epoch bits zero.",
 ["src/ext4/inode/time.rs", "src/ext4/inode/inode.rs", "src/ext4/superblock/superblock.rs", "src/ext/system_time.rs"],
 [("decoding", "src/ext4/inode/time.rs; src/ext/system_time.rs")],
 ["time accessors"])

prop("C24", "Damage in one place never affects what does not need that place",
 "A place of a device that cannot be read or holds damaged data affects only what is stored there. Apart from the superblock and group descriptors, reading an inode's data needs only its inode, and each next directory entry or file block only the extent nodes and directory or data blocks up to it; everything that needs none of the damaged places is still returned, completely and exactly as without the damage. On a RAID 6 array, a damaged or unreadable sector of a member affects only the array's sectors in the same row of its stripe; a device is recognised as long as its superblock can be read, whatever else on it cannot, and nothing but the superblock of a spare is needed.",
 ["fault_sequences", "inputs", "configurations"], "every sector (and pairs and triples of blocks) unreadable, every byte changed, every region overwritten in several ways, and everything damaged but what is needed for each prefix of each file; plain devices, streams and all RAID 6 layouts",
 "Tests read sound images only, so reading, checking or caching more than is needed goes unnoticed until a disk has a bad sector, which is when the tool is used.",
 ["src/ext4/fs.rs", "src/ext4/extent/tree.rs", "src/ext4/directory/directory.rs", "src/ext4/regular_file.rs", "src/md/array.rs", "src/md/raid6/algorithm.rs", "src/block_device/reader.rs"],
 [("reading on demand", "src/ext4/extent/tree.rs; src/ext4/directory/directory.rs"), ("single inodes", "src/ext4/fs.rs: read_inode"), ("parity per sector", "src/md/raid6/algorithm.rs: read_sector")],
 ["Ext4Fs::open/open_file", "Ext4Directory iteration", "Ext4RegularFile::read_next_block", "MdArray::read_block"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
