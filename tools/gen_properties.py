#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the list stays readable in review."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))

# ------------------------------------------------------------------ importing files
p("A01", "An imported file reads back byte for byte",
  "Whatever bytes are imported as a file, with any chunk size of at least one and any branching factor of at least two, importing terminates and reading the emitted blocks back from the last emitted (root) block yields exactly the imported bytes, in order. The reported total size equals the number of bytes imported, also after every block of the read. This holds for empty files, files ending exactly on chunk or link-block boundaries, and files of any tree depth; branching factors below two, with which importing could not end, are refused.",
  ["inputs", "configurations"], "all contents, chunk sizes >= 1, branching factors >= 2 and push segmentations",
  "The tests import six fixed contents with branching factor 174 only (depth at most 2) and compare one CID; none reads an imported file back.",
  ["src/file/adder.rs", "src/file/reader.rs", "src/file/visit.rs", "src/walk.rs"],
  [("chunking and buffering", "FileAdder::push / Chunker::accept"), ("link block compaction", "BalancedCollector::flush_links"), ("reading", "FileVisit::continue_walk")],
  ["blocks returned by push/finish", "bytes returned by the file visitor and the walker", "reported sizes"])
p("A02", "Import result does not depend on how the input is fed",
  "For a given configuration the sequence of blocks emitted while importing is a function of the content alone: it is the same for every way of splitting the content into pushes, including empty pushes. Each push consumes a prefix of what it is given - at least one byte of a non-empty input, never more than it was given and never past the end of the current chunk - and returns at most two blocks. After pushing everything reported as unconsumed again, no byte is lost or duplicated.",
  ["inputs", "histories"], "all contents, configurations and segmentations into pushes",
  "One content with one chunk size is pushed in 31 uniform segment sizes and only the root CID is compared; non-uniform and empty pushes, and push's return values, are not examined.",
  ["src/file/adder.rs"],
  [("whole-chunk fast path versus buffered path", "FileAdder::push"), ("chunk acceptance", "Chunker::accept")],
  ["(blocks, consumed) of each push", "blocks of finish"])
p("A03", "Imported blocks form a complete, correctly addressed DAG",
  "Every block emitted by the importer comes with the version 1, dag-pb, SHA2-256 identifier of exactly the emitted bytes. Every link in an emitted block points at a block emitted earlier, every emitted block except the last is linked from a later one, and the last emitted block is the root from which all the others are reached.",
  ["inputs", "configurations"], "all contents, chunk sizes, branching factors and push segmentations",
  "Tests compare individual CIDs of a few hand-picked files; order, closure and reachability are never checked as such.",
  ["src/file/adder.rs"],
  [("hashing", "render_and_hash"), ("link bookkeeping", "Link / BalancedCollector::partition_link")],
  ["(Cid, block) pairs emitted by push/finish"])
p("A04", "Imported file layout is the balanced layout, bit for bit",
  "The imported tree is the canonical balanced layout: all chunks have the configured size except a shorter last one, all leaves are at the same depth, every link block except the last on its level has exactly the configured number of links, and a level is added only when more than one node remains. In each block the file size, the per-link sizes and the cumulative sizes recorded in links equal the true sizes of the linked subtrees, and the block is the canonical protobuf serialization with links before data. A file that fits in one chunk is a single block, and an empty file is a single block recording size zero without content.",
  ["inputs", "configurations"], "all contents, chunk sizes >= 1 and branching factors >= 2",
  "Tests pin the root CIDs of trees with at most 238 leaves and branching factor 174, so deeper trees, other fan-outs and exact-power boundaries are never seen.",
  ["src/file/adder.rs", "src/pb.rs", "src/pb/merkledag.rs", "src/pb/unixfs.rs"],
  [("level-wise compaction", "BalancedCollector::flush_links"), ("size accounting", "BalancedCollector::partition_link"), ("serialization", "FlatUnixFs::write_message")],
  ["emitted blocks compared with an independently built tree"])

# ------------------------------------------------------------------ reading files
p("R01", "Any well-formed file tree is read completely and in order",
  "For every well-formed UnixFS file tree - balanced, trickle, lopsided or mixed in depth, with leaves of either file or raw type, with or without an explicit size on leaves, single or many blocks, with repeated or empty leaves - both the low-level visitor and the tree walker return exactly the file's bytes in order, request each block exactly when it is due in depth-first order, and then finish. The total size is reported correctly at the start and at every later point of the visit, and so is the root's metadata.",
  ["inputs"], "all well-formed file trees",
  "Two five-block fixtures of the same seven bytes are read; nested link blocks, leaves without sizes, repeated or empty leaves never occur.",
  ["src/file/visit.rs", "src/file/reader.rs", "src/walk.rs"],
  [("depth-first stack of pending links", "FileVisit::continue_walk"), ("range bookkeeping", "RangeLinks"), ("continuity checks", "Ending::check_is_suitable_next")],
  ["requested links", "returned bytes", "file_size and metadata at every step"])
p("R02", "A ranged read returns exactly the requested part of the file",
  "Visiting a well-formed file with a target byte range returns exactly the bytes of the file inside that range, in order - nothing if the range is empty, reversed or beyond the end - for every position of the range relative to block boundaries and every depth of the tree. Blocks which neither overlap nor touch the range are never requested, and the visit ends without error.",
  ["inputs"], "all well-formed file trees and all pairs of range bounds",
  "Five ranges of one flat file are read and a slicing helper is checked on eight examples, which the source itself marks as likely buggy; nested trees are never range-read.",
  ["src/file/visit.rs"],
  [("pruning of links", "block_is_in_target_range"), ("slicing of content", "target_slice")],
  ["requested links", "returned bytes"])
p("R03", "Announced pending links are exactly what will be needed",
  "At every point of a file visit, tree walk or sharded lookup which is not finished, the first announced pending link is the block that must be supplied next, and the rest are, in order, the already known blocks needed after it; later steps consume this list from the front and only ever add the newly found children in front of it (or, for sharded lookups, behind it). No needed block is missing from the announcements and none is announced more often than it will be requested.",
  ["inputs", "histories"], "all well-formed trees, at every step of a visit, walk or lookup",
  "One test looks at the announcements of one single-link lookup; all others only use the first link.",
  ["src/file/visit.rs", "src/walk.rs", "src/dir/sharded_lookup.rs"],
  [("announcement", "FileVisit::pending_links / Walker::pending_links / ShardedLookup::pending_links")],
  ["pending_links before and after every step"])
p("R04", "Structurally broken file trees are reported, never misread",
  "Reading a file tree that is structurally broken fails with an error at the offending block, both in the visitor and in the walker: different numbers of links and sizes, a size but neither links nor content, a link block without size, content beside links, metadata on a non-root block, directory-sharding properties, a non-file node inside the file, a child span reaching outside its parent's, a gap or overlap between consecutive leaves, sizes beyond 64 bits, or an unparsable block or link. The bytes returned before the error are a correct prefix of the file, and the error kind names the defect.",
  ["inputs", "fault_sequences"], "all well-formed file trees times all single structural corruptions, at any block",
  "Four unit tests call the range checker directly; no test feeds a broken tree to the visitor or walker.",
  ["src/file/reader.rs", "src/file/visit.rs", "src/file.rs", "src/walk.rs"],
  [("node checks", "FileReader::from_parts / from_continued"), ("continuity checks", "Ending::check_is_suitable_next"), ("error mapping", "impl From<FileReadFailed> for walk::Error")],
  ["error value and returned prefix"])

# ------------------------------------------------------------------ walking trees
p("W01", "A walk reports every entry of a tree exactly once and correctly",
  "Walking any well-formed tree of plain directories, hash-sharded directories, files and symlinks, nested in any way, reports every entry exactly once in depth-first link order, with the right kind, path (root name joined with the entry names on the way), identifier, metadata, symlink target or file content; blocks that merely continue a sharded directory are reported as such with that block's identifier and the directory's path. The walk requests every block of the tree once per reference, and announces the end exactly after the last one.",
  ["inputs"], "all well-formed trees, and root names",
  "Three fixture trees are walked (at most nine directory blocks, one level of shards, no empty directories, no directories inside shards, no metadata) and only path counts are compared.",
  ["src/walk.rs", "src/dir.rs"],
  [("path maintenance", "InnerEntry::set_path"), ("entry kind transitions", "InnerEntry::as_*"), ("pending stack", "Walker::next")],
  ["ContinuedWalk values, requested links and should_continue at every step"])
p("W02", "Walk paths never leave the root and reflect single link names",
  "Every path reported by a walk is the given root name followed by the names of the links on the way down, each a single normal path component. A tree containing a directory or shard link whose name is empty, '.', '..' or contains a slash makes the walk fail with an error; it never panics and never reports a path outside the root name or at a wrong depth.",
  ["inputs"], "all trees, including ones with hostile link names anywhere in them",
  "All tests use benign names; hostile names hit assertions and todo!s that no test exercises.",
  ["src/walk.rs"],
  [("name validation", "convert_link / convert_sharded_link"), ("path maintenance", "InnerEntry::set_path")],
  ["paths and errors of Walker::next"])
p("W03", "File segments of a walk are framed correctly",
  "While walking, the segments of each file arrive consecutively, the first one and only the first one is flagged first, the last one and only the last one is flagged last, and all carry the file's own path, identifier of the file's root, metadata and total size. The concatenated segments are the file's content, and blocks of link nodes contribute empty segments.",
  ["inputs"], "all well-formed trees with files of any shape",
  "One five-block file is checked for flags; files inside directories and files following files are not.",
  ["src/walk.rs"],
  [("framing", "FileSegment::first / later"), ("file state across blocks", "InnerKind::File")],
  ["ContinuedWalk::File values"])

# ------------------------------------------------------------------ directories
p("D01", "Resolving in a plain directory or dag-pb node is exact",
  "Resolving a name against a plain UnixFS directory, or a dag-pb node that carries no or no valid UnixFS message, finds the target of the link with exactly that name, reports not found when there is none, and reports an error naming both links when two or more match. Files, symlinks and other non-directory nodes, and blocks that are not dag-pb, give an error; the outcome depends on nothing but the block and the name.",
  ["inputs"], "all blocks and names",
  "One dag-pb node is resolved with five names; duplicates, prefixes, empty names, multi-byte names and broken links are not tried.",
  ["src/dir.rs"],
  [("link filter", "resolve"), ("duplicate detection", "MultipleMatchingLinks")],
  ["result of resolve"])
p("D02", "A sharded directory lookup finds a name exactly when it exists",
  "Looking up a name in a hash-sharded directory of any shape, supplying the requested blocks, ends with the target of the entry of exactly that name if the directory has one, and with not found if it has none - the latter only after every bucket was requested, each exactly once. Entry names of any length and alphabet are matched as a whole, and the answer is the same when the lookup is converted to own its name in the middle.",
  ["inputs"], "all sharded directories (any bucket structure and name set) and all looked-up names",
  "One shard with a direct hit and one fixture shard are used; no test completes a lookup over two or more buckets.",
  ["src/dir/sharded_lookup.rs", "src/dir.rs"],
  [("partitioning into match and buckets", "ShardedLookup::partition"), ("breadth-first queue", "ShardedLookup::continue_walk")],
  ["MaybeResolved values and requested links"])
p("D03", "Unsupported directory nodes are refused everywhere",
  "A plain directory carrying file or shard properties (content, file size, block sizes, hash type, fan-out) and a shard with any hash type other than 34, any fan-out other than 256, a file size or block sizes is refused with an error stating the offending values, whether it is met by resolving, by continuing a sharded lookup or by walking, as root or further down. A bucket that is not a shard, and a node of the metadata type or of an undefined type met on a walk, are refused likewise, while supported nodes are never refused.",
  ["inputs"], "all combinations of properties on directory and shard nodes, at all positions",
  "Two hand-made shards are refused by the lookup; plain directories, walking and nested positions are untested.",
  ["src/dir/directory.rs", "src/dir/sharded_lookup.rs", "src/dir.rs", "src/walk.rs", "src/pb/unixfs.rs"],
  [("directory check", "check_directory_supported"), ("shard check", "ShardedLookup::check_supported"), ("type dispatch", "Walker::next / resolve")],
  ["errors of resolve, continue_walk and Walker::next"])
p("D04", "Walking and resolving agree on every directory",
  "For every well-formed tree, the entries a walk lists directly below a directory are exactly the names that resolve in that directory, each resolving to the identifier the walk reported for it, and no other name resolves.",
  ["inputs"], "all well-formed trees of plain and sharded directories",
  "No test both walks and resolves the same directory.",
  ["src/dir.rs", "src/dir/sharded_lookup.rs", "src/walk.rs"],
  [("link naming", "convert_link / convert_sharded_link versus resolve / partition")],
  ["ContinuedWalk values and MaybeResolved values on the same tree"])

p("D05", "A lookup reports the first defect of a sharded directory",
  "Whatever the blocks of a sharded directory hold, a lookup takes them in breadth-first order, following every bucket link in link order as often as it occurs, announces exactly the buckets still to be read, and ends at the first block which has the name or a defect, or with not found when none are left. The error says which defect it is: a block that is not dag-pb or not UnixFS, that has no UnixFS data, is of another type than a shard (with the type) or has unsupported properties (with their values), or a bucket link or matching entry with a broken identifier. Two or more entries of the name in one block give an error with positions and targets of the first two, or with the reason why the second is broken.",
  ["inputs"], "all finite graphs of shard blocks, broken or not, and all names",
  "No test has a shard with two matching entries, a broken bucket link, a repeated or circular bucket, or an unreadable bucket.",
  ["src/dir/sharded_lookup.rs", "src/dir.rs"],
  [("partition of links", "ShardedLookup::partition"), ("bucket parsing", "ShardedLookup::continue_walk"), ("duplicates", "MultipleMatchingLinks::from")],
  ["LookupError / ResolveError of every step", "ShardedLookup::pending_links"])

# ------------------------------------------------------------------ building trees
p("B01", "A built tree contains exactly the links that were put",
  "Building a tree from any sequence of accepted links emits one block per implied directory, children before parents and the (wrapping or single) root last, each with its full path; the block holds exactly the entries put below that path, sorted by name, with the given identifiers and sizes for links and the emitted identifiers and sizes for subdirectories. Each identifier is the version 1 dag-pb SHA2-256 one of the emitted bytes, each size the block's length plus the sizes of its entries, the bytes are the canonical serialization, and the result does not depend on the order in which the links were put. Borrowed and owned iteration give the same results.",
  ["inputs", "histories", "configurations"], "all sequences of put operations and tree options, with links of any identifier version and codec",
  "Tests compare the CIDs of five small trees (at most seven directories, one entry order each).",
  ["src/dir/builder/buffered.rs", "src/dir/builder/iter.rs", "src/dir/builder/dir_builder.rs", "src/dir/builder/custom_pb.rs"],
  [("post-order stack", "PostOrderIterator::next_borrowed"), ("path maintenance", "update_full_path"), ("serialization", "CustomFlatUnixFs::write_message"), ("buffer reuse", "PostOrderIterator::render_directory")],
  ["OwnedTreeNode / TreeNode values"])
p("B02", "Invalid insertions are refused and leave no trace",
  "Putting a link or directory metadata at a path is refused with the matching error, exactly when the path is rooted, has an empty segment or ends in a slash, when it would replace an existing entry, when it passes through or targets an existing non-directory link, or when it would add a second top-level entry without wrapping. A refused operation has no effect at all on the tree that is built afterwards; everything else is accepted, including metadata for directories that already exist.",
  ["inputs", "histories"], "all histories of put and metadata operations, valid and invalid ones interleaved",
  "Each refusal is provoked once, mostly by should_panic tests that do not look at the error; none builds the tree after a refusal.",
  ["src/dir/builder/buffered.rs", "src/dir/builder/dir_builder.rs"],
  [("path validation before insertion", "BufferingTreeBuilder::modify_with"), ("duplicate detection", "DirBuilder::put_leaf / add_or_get_node")],
  ["result of each operation and the tree built afterwards"])
p("B03", "Metadata set on a directory ends up in that directory",
  "When metadata is set for a directory before building, the emitted block of that directory, and of no other, carries exactly the last mode and modification time set, whether the directory was created by the metadata call or by links before or after it. Walking the built tree reports that metadata for that directory, and directories without metadata are unaffected.",
  ["inputs", "histories"], "all interleavings of metadata and link operations and all metadata values",
  "The only test with metadata sets the default (empty) value and compares paths only.",
  ["src/dir/builder/buffered.rs", "src/dir/builder/dir_builder.rs", "src/dir/builder/iter.rs"],
  [("metadata storage", "DirBuilder::set_metadata"), ("rendering", "PostOrderIterator::render_directory")],
  ["blocks emitted by the tree iterator", "metadata reported by the walker"])
p("B04", "Directory blocks never exceed the configured size limit",
  "With a block size limit configured, building never emits a directory block larger than the limit; at the first directory whose serialization is larger it reports an error carrying exactly that size, and afterwards the iteration is over, without panicking. A block of exactly the limit is emitted, the default limit is 512 KiB, and without a limit nothing is refused.",
  ["inputs", "configurations"], "all trees and limits, including limits equal to and one off the exact block size",
  "No test sets a limit or builds a directory near the default one.",
  ["src/dir/builder/iter.rs", "src/dir/builder.rs"],
  [("limit check", "PostOrderIterator::render_directory")],
  ["results of the tree iterator, before and after an error"])
p("E01", "Import, build, walk and resolve compose to the identity",
  "A file system image - nested directories, files with arbitrary content, symlinks - imported file by file, with directories built from the resulting links, comes back unchanged when the emitted blocks are walked from the root: same paths, kinds, contents, symlink targets and directory metadata. Every path of the image resolves segment by segment from the root to the identifier of its entry, and paths not in the image do not resolve.",
  ["inputs", "configurations"], "all file system images and import configurations",
  "No test uses importer, builder, walker and resolver together.",
  ["src/file/adder.rs", "src/symlink.rs", "src/dir/builder/iter.rs", "src/walk.rs", "src/dir.rs"],
  [("shared block format", "src/pb.rs")],
  ["walk and resolve results on imported blocks"])
p("S01", "Symlink blocks carry their target unchanged",
  "Serializing a symlink appends to the given buffer, leaving what was in it untouched, exactly the canonical symlink block for the target path. Walking that block, as root or inside a directory, reports a symlink with exactly the bytes of the target.",
  ["inputs"], "all target strings (empty, long, any alphabet) and buffer contents",
  "Two targets of one and six characters are used.",
  ["src/symlink.rs", "src/walk.rs"],
  [("serialization", "serialize_symlink_block"), ("reading", "Walker::next")],
  ["buffer contents", "ContinuedWalk::Symlink"])

# ------------------------------------------------------------------ codecs
p("C01", "Node data of a dag-pb block is exactly its data field",
  "For every dag-pb block, extracting the node data yields exactly the bytes of its data field, or nothing when it has none, without copying; the wrapping form gives back the same data, compares equal to exactly those bytes, and returns the wrapped block unchanged. Blocks that are not dag-pb give an error.",
  ["inputs"], "all byte strings as blocks, including empty data fields anywhere in the block",
  "Only the internal range helper is tested, on non-empty ranges and never for a range at the very end of the block.",
  ["src/dagpb.rs"],
  [("range recovery", "subslice_to_range"), ("wrapping", "NodeData")],
  ["node_data, wrap_node_data, NodeData accessors"])
p("C02", "Encoding and decoding of nodes are inverse and sizes are exact",
  "Serializing any dag-pb node, link, UnixFS message or combined node and parsing the bytes again gives an equal value, with absent, empty and present fields kept apart; the announced size equals the number of bytes written, links are written before data and fields in ascending order. Parsing any canonical block and serializing it again reproduces the block.",
  ["inputs"], "all field combinations and values of all message types",
  "Two captured blocks are parsed; nothing is serialized by the tests except through the importer.",
  ["src/pb.rs", "src/pb/merkledag.rs", "src/pb/unixfs.rs"],
  [("size computation and writing", "MessageWrite impls"), ("reading", "MessageRead impls")],
  ["parsed values, written bytes, announced sizes"])
p("C03", "Decoding follows the protobuf wire format on every input",
  "For every byte string, parsing it as a dag-pb block with an inner UnixFS message gives the field values the protobuf wire format assigns to it - the last value for repeated singular fields, all values in order for repeated ones, unknown fields skipped - or an error when it is not well-formed, when a field runs past its message, a name is not UTF-8 or the node type is undefined. A missing or empty inner message and a malformed one are told apart from a malformed outer block, and in both cases the outer links stay available.",
  ["inputs"], "all byte strings",
  "Four captured, well-formed blocks are parsed.",
  ["src/pb.rs", "src/pb/merkledag.rs", "src/pb/unixfs.rs"],
  [("reading", "MessageRead impls"), ("two-stage parsing", "TryFrom<&[u8]> for FlatUnixFs")],
  ["FlatUnixFs::try_parse results compared with an independent decoder"])
p("M01", "Mode and modification time are reported exactly",
  "The mode and modification time recorded in the root block of a file, directory, sharded directory or symlink are reported exactly by every interface that reports metadata, for all values, including absent ones, negative seconds and all nanosecond values; absent nanoseconds read as zero. Conversion to a file time keeps seconds and nanoseconds.",
  ["inputs"], "all metadata values on all node kinds",
  "No test has a block with metadata.",
  ["src/lib.rs", "src/walk.rs", "src/file/visit.rs", "src/file/reader.rs", "src/pb/unixfs.rs"],
  [("conversion", "From<&UnixFs> for Metadata"), ("propagation", "FileVisit / InnerEntry")],
  ["Metadata returned by visitor and walker"])

# ------------------------------------------------------------------ robustness
p("X01", "No input block can crash or hang the library",
  "Whatever byte strings are supplied as blocks - random, truncated, bit-flipped, spliced, or well-formed with inconsistent sizes, names or links - to any parsing, visiting, walking, resolving or lookup operation, at any step, the operation returns a value or an error after work bounded by the size of the block. It never panics, aborts, overflows, reads outside the block or loops, and all errors and states can be displayed; returned content is a part of the supplied block.",
  ["inputs", "histories"], "all sequences of byte strings supplied to all entry points",
  "The tests supply well-formed blocks, except three deliberately wrong ones.",
  ["src/pb.rs", "src/dagpb.rs", "src/file/reader.rs", "src/file/visit.rs", "src/dir.rs", "src/dir/sharded_lookup.rs", "src/walk.rs"],
  [("parsing", "MessageRead impls"), ("arithmetic on sizes", "RangeLinks, Ending"), ("slicing", "target_slice"), ("state machine", "InnerEntry::as_*")],
  ["process outcome (panic, abort, sanitizer report, CPU budget) of every operation"])
p("X02", "Reused caches and interleaved walks never change results",
  "Every visit, walk and lookup gives the same results, step by step, with a fresh cache, no cache, or a cache left behind by any earlier completed, abandoned or failed operation, also on other trees, and with any number of other operations interleaved. Repeating an operation on the same blocks gives the same results.",
  ["inputs", "histories", "schedules"], "all sequences and interleavings of visits, walks and lookups sharing caches",
  "Caches are passed through in two tests but never reused across trees or after an error.",
  ["src/file/visit.rs", "src/dir/sharded_lookup.rs", "src/dir.rs", "src/walk.rs"],
  [("clearing on return", "From<Vec<_>> for visit::Cache / From<VecDeque<_>> for dir::Cache"), ("taking", "start_from_reader / lookup_or_start")],
  ["step-by-step traces with and without shared caches"])
p("X03", "Broken links are reported with their position, name and hash",
  "When an operation needs the target of a link whose hash is missing or not a valid identifier, it fails with an error that carries the zero-based position of that link in its block, its name and its hash bytes, and says so when displayed. Broken links the operation does not need - other names in a resolve, children outside a target range - do not make it fail.",
  ["inputs", "fault_sequences"], "all trees with a broken link at any position of any block, for all operations",
  "No test has a broken link.",
  ["src/lib.rs", "src/dir.rs", "src/dir/sharded_lookup.rs", "src/file/visit.rs", "src/walk.rs"],
  [("conversion", "try_convert_cid / to_pending / convert_link"), ("error payload", "InvalidCidInLink")],
  ["error values"])

p("X04", "Operations can change threads and run on several at once",
  "Imports, directory builds, file visits, walks and lookups, the caches they use and the errors and items they yield may be handed to another thread between any two steps, and may be looked at from several threads at the same time. Any number of operations may run on different threads at once, with caches passed between them, and each gives step by step the same results, errors included, as when it runs alone on one thread. Nothing one operation does is seen by another one on any thread.",
  ["inputs", "histories", "schedules"], "all sets of operations and all schedules of their steps on any number of threads",
  "No test uses a second thread, and nothing in the tests would fail to compile or to pass if a type lost the ability to change threads or if operations shared state.",
  ["src/file/adder.rs", "src/file/visit.rs", "src/dir/sharded_lookup.rs", "src/dir/builder/buffered.rs", "src/dir/builder/iter.rs", "src/walk.rs", "src/lib.rs"],
  [("state owned by each operation", "FileAdder, FileVisit, Walker, ShardedLookup, PostOrderIterator"), ("caches", "visit::Cache / dir::Cache"), ("boxed errors", "ResolveError, FileReadFailed, TreeConstructionFailed")],
  ["step-by-step logs with and without threads", "ThreadSanitizer reports", "Send and Sync of the public types"])
p("X05", "Long operations retain memory for what is pending only",
  "Between the steps of an import, visit, walk or lookup the memory retained is bounded by what is still pending - the announced links and the longest path for reading, two chunks and the links not yet in a block for importing - however many blocks were already processed and however large the file or tree is. Dropping an operation frees what it used, and any number of finished operations leaves nothing behind.",
  ["inputs", "histories"], "all files and trees of any size, at every step of an operation on them, and any sequence of operations",
  "The tests process at most a few hundred blocks and never look at memory.",
  ["src/file/adder.rs", "src/file/visit.rs", "src/dir/sharded_lookup.rs", "src/walk.rs", "src/dir/builder/iter.rs"],
  [("stack of pending links", "FileVisit, Walker::pending"), ("queue", "ShardedLookup"), ("reused buffers", "FileAdder, visit::Cache, dir::Cache")],
  ["bytes in use after every step, by a counting allocator"])

p("X06", "Errors say what is wrong and keep its cause",
  "Every error of a visit, walk, lookup, resolve, parse or build is of the kind of the actual defect and carries its values - the real type of an unexpected node (also when asked whether it is a file or a directory), unsupported properties, metadata, positions and targets of links, the refused path, the size of a block - and its displayed text tells them. A block that is not dag-pb, one whose data is not UnixFS and one without UnixFS data are told apart as far as the error type allows. An error that stems from a parse failure or a broken identifier gives it as its source and in its text, other errors have no source, and turning an error into a more general one loses nothing.",
  ["inputs"], "all defects of all blocks and paths, for every operation that can meet them",
  "Tests match a few error variants and never look at values, text, source or conversion of an error.",
  ["src/lib.rs", "src/pb.rs", "src/file.rs", "src/walk.rs", "src/dir.rs", "src/dir/directory.rs", "src/dir/sharded_lookup.rs", "src/dir/builder.rs"],
  [("display", "fmt::Display impls"), ("cause", "std::error::Error::source impls"), ("conversion", "From impls between errors, LookupError::into_resolve_error"), ("types", "UnexpectedNodeType")],
  ["error values, displayed text, source()"])

p("X07", "No argument can crash the writing operations",
  "Importing, building a directory tree and writing a symlink never panic, abort, overflow the stack or loop, whatever content, chunk size of at least one, branching factor of at least two, path, metadata or link is given - empty, invalid, in any script, megabytes long or tens of thousands of segments deep - in any order, as long as the sizes add up to less than 2^64. Every call makes progress or returns an error, also calls after a refused one or after the end, and every operation can be given up and dropped at any step. Their states and errors can be displayed at any time.",
  ["inputs", "histories", "configurations"], "all arguments to all writing operations, in every order, given up at every step",
  "Paths in the tests have at most seven segments, all in ASCII; no builder is dropped before its iteration is complete, and no state is displayed.",
  ["src/file/adder.rs", "src/dir/builder.rs", "src/dir/builder/buffered.rs", "src/dir/builder/dir_builder.rs", "src/dir/builder/iter.rs", "src/symlink.rs"],
  [("path handling", "BufferingTreeBuilder::modify_with, update_full_path"), ("display", "FileAdder, LinkFormatter, BufferingTreeBuilder"), ("giving up", "Drop of DirBuilder, PostOrderIterator"), ("chunking", "FileAdder::push")],
  ["process outcome (panic, abort, signal, CPU budget) of every operation", "progress of every call"])

p("X08", "Work is proportional to what is handled",
  "Importing a file, building a directory tree, visiting, walking, looking up a name, parsing and writing take work in proportion to what they handle - bytes of content, chunks, links, names, blocks and, for walks, the paths reported - up to a logarithmic factor. Twice as much input takes about twice the work whatever its shape: any chunk size, branching factor and feeding, flat, deep, lopsided or chained trees, any order of insertion, any range, reused caches. What was already handled and what is still pending does not make the next step slower.",
  ["inputs", "histories", "configurations"], "all shapes of input in growing sizes for every operation",
  "The largest input of the tests has some hundred chunks; nothing looks at how much work is done.",
  ["src/file/adder.rs", "src/file/visit.rs", "src/walk.rs", "src/dir/sharded_lookup.rs", "src/dir/builder/buffered.rs", "src/dir/builder/iter.rs", "src/pb.rs"],
  [("compaction of links", "BalancedCollector::flush_links"), ("pending links", "FileVisit::continue_walk, Walker::next, ShardedLookup::continue_walk"), ("path handling", "PostOrderIterator, BufferingTreeBuilder::modify_with"), ("parsing", "FlatUnixFs::try_from")],
  ["instructions executed between the first and the last call of an operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
