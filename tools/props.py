#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json, sys

SCOPE = {
    "C01": 'Layers may be in any tar dialect, and files may be stored sparsely; PAX global headers are not files. Whiteouts are recognised by their name alone.',
    "C03": 'The tar dialect of an entry may show in the output. A layer file that is not compressed and ends exactly between two entries is a shorter layer.',
    "C04": 'PAX global headers are not files. Directories that no layer describes have no metadata. Stat through a closed handle is not covered.',
    "C06": 'Times have a resolution of seconds; a prefix that is not a clean relative path is either refused or treated like the clean one; device nodes are not covered.',
    "C07": 'Where no file of a wheel carries a time, the clock shows unless SOURCE_DATE_EPOCH is set; error messages may differ.',
    "C08": 'Unspecified: duplicate members or RECORD lines that agree with each other, directories listed in RECORD, and what RECORD says about itself and its signatures.',
    "C09": 'Unspecified: a shipped .pyc at the path of a compiled one; shipped INSTALLER, REQUESTED and direct_url.json may be replaced.',
    "C10": 'Names do not contain line breaks; shipped .pyc files may have an empty hash too.',
    "C12": 'A script the wheel ships under the same name is replaced. If a name is both a console and a GUI script, the latter wins. Unspecified: identifiers that begin with a digit or are not ASCII, several extras, white space around the colon.',
    "C13": 'Numbers have up to 18 digits, except that those of local parts are unbounded.',
    "C14": "<=, >= and < compare by the full version order including local parts; '>' of a pre-release or dev-release version against post-releases or local versions of its release, '===' and empty clauses are not covered.",
    "C15": 'Ties may go either way.',
    "C16": 'Requirements have no local parts.',
    "C17": 'A signature that the index announces but does not have is an HTTP error, not an absent signature. Success is status 200; other 2xx statuses, unparsable API versions, and <base> elements are not covered.',
    "C18": "Components consist of letters, digits and '_.+!'.",
    "C19": 'The tar format that the times of an entry call for is not part of its content (how other differences of encoding compare is unspecified), and a stream that ends between entries is a shorter layer.',
    "C20": 'Crashes are those of the process, not of the machine. A prior file that is not a layer may be refused, and a temporary file may remain if removing it fails.',
    "C21": "Unspecified: unknown members of the base's config, platform fields of an image without base, history entries of added layers, an entrypoint or command that is one empty string, and a base with more layers than its config lists. A layer that is given, or that the base has elsewhere, may stand in for a damaged copy of itself.",
    "C22": 'Help screens are not results; death by a signal needs no message; an image build may fail after it has begun to write if its inputs become unreadable only then.',
    "C23": 'Texts have no control characters or lone carriage returns.',
    "C24": "A whiteout is shown as 'w'.",
    "C26": "Not covered: '..' after a symlink, a trailing slash on relative names, PATH that is unset, empty or given twice, and directories that no layer describes.",
    "C27": 'Strings are valid UTF-8; optional members that are absent are left out.',
    "C28": 'A block for which fewer than 24 columns remain beside its indent begins on the next line with an indent of 16, and is not wrapped if it does not fit there either; columns are characters, and tabs are not covered.',
}

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    statement = " ".join([statement] + ([SCOPE[id]] if id in SCOPE else []))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    print(json.dumps(d, ensure_ascii=False))

SQ = ["pkg/squash/squash.go", "pkg/squash/vfs.go", "pkg/squash/readlayer.go"]
BD = "pkg/python/pypa/bdist/"

P("C01", "Squashing a layer stack is equivalent to applying the layers in order",
  "For every stack of OCI layers, unpacking the single squashed layer on top of any lower filesystem (of directories and regular files) produces the same tree (names, types, contents, link targets, modes, ownership, times, xattrs and device numbers) as unpacking the input layers one after the other, including explicit whiteouts, opaque whiteouts, file/directory type changes, directories that are only implied, and paths that go through symlinks. Nothing an input layer deleted or replaced may reappear, and nothing it added or left alone may disappear.",
  ["inputs", "histories"], "all sequences of layers over a small path/type/whiteout alphabet, over several lower filesystems",
  "squash_test.go checks 11 hand-written stacks and only names/types/link targets, never contents or metadata, and never against a lower filesystem.",
  SQ, [("in-memory overlay of entries with whiteout markers kept as children", "pkg/squash/vfs.go:Get,Set,WriteTo"), ("whiteouts applied before additions of the same layer", "pkg/squash/squash.go:loadLayers")],
  ["entries of the tar stream returned by squash.Squash", "`ocibuild layer squash` stdout"])

P("C02", "Hard links survive squashing",
  "If the input layers contain hard links, then after unpacking the squashed layer every name reads the same content as after unpacking the input layers in order, even when the link's target is later overwritten, deleted, whited out or turned into a directory, and whatever the sort order of the names. A hard-link entry in the output always refers to a non-directory that the same output emitted earlier in the stream, whose metadata it shares (or, if no input layer provides the target, it is passed through unchanged), and a loaded filesystem reads a hard-linked name as the content of its target.",
  ["inputs", "histories"], "all two- and three-layer histories over regular files, hard links to them, overwrites and whiteouts",
  "No existing test contains a hard link at all.",
  SQ + ["pkg/squash/vfs_fs.go"], [("link entries share the inode of their target", "pkg/squash/vfs.go:Set,WriteTo")],
  ["entries of the tar stream returned by squash.Squash", "content read through squash.Load"])

P("C03", "Squash output is canonical, stays inside the root, and always terminates",
  "For every stack of layers, squashing terminates with a layer or an error; on success the output has each path once, as a cleaned relative path inside the root (a trailing slash exactly on directories), parents before children, whiteouts first and siblings in byte order, and its bytes depend only on the resulting tree, so squashing the output again reproduces it byte for byte, and squashing any leading group of the stack first yields an equivalent tree. Layers whose entry names leave the root are rejected, symlink loops are reported as an error instead of recursing forever, and corrupt or truncated layers are reported as an error rather than yielding a partial result.",
  ["inputs", "histories"], "all layer stacks of the C01 alphabet plus unclean/escaping names, symlink cycles, and every truncation point of a layer file",
  "Tests cover one 'sanitize' stack, no symlink cycle, no grouping and no corrupt input.",
  SQ, [("names cleaned and checked", "pkg/squash/readlayer.go:parseLayer"), ("sorted depth-first emission", "pkg/squash/vfs.go:WriteTo"), ("loop detection", "pkg/squash/vfs.go:Get")],
  ["tar stream bytes", "returned error"])

P("C04", "A loaded layer stack reads as exactly the merged filesystem",
  "Loading a stack of layers and using it as a read-only filesystem shows exactly the tree that applying the layers in order gives: the same names, contents, modes and metadata, symlinks followed inside the root, deleted or whiteout names not visible by any means, absent names reported as not existing. Reading in any mix of buffer sizes returns exactly the file's bytes then EOF, listing a directory in any mix of page sizes returns each child exactly once in sorted order even when some children are dangling symlinks, and reading or listing through a closed handle fails.",
  ["inputs", "histories"], "all stacks of the C01 alphabet, all query paths, all short sequences of Read/ReadDir/Stat/Close calls",
  "TestVFS loads a single one-layer tree without whiteouts, contents or broken links.",
  ["pkg/squash/vfs_fs.go", "pkg/squash/vfs.go", "pkg/squash/squash.go"], [("fs.FS adapter", "pkg/squash/vfs_fs.go")],
  ["fs.FS returned by squash.Load", "handles opened from it"])

P("C05", "A loaded filesystem can be shared by concurrent readers",
  "Any number of goroutines may concurrently open, stat, list, read and close paths of one loaded filesystem, and share one open handle: under every interleaving each call returns what some sequential order of the calls would return, no byte or directory entry is delivered twice or lost, nothing deadlocks or crashes, and there is no data race.",
  ["schedules"], "all interleavings (up to a preemption bound) of small client programs over one shared filesystem or handle",
  "No test is concurrent on one filesystem; one lucky schedule would prove nothing anyway.",
  ["pkg/squash/vfs_fs.go", "pkg/squash/vfs.go"], [("per-handle mutex", "pkg/squash/vfs_fs.go:fsfileReader.mu"), ("tree is immutable after loading", "pkg/squash/vfs.go:Get")],
  ["results of concurrent calls"], state=[("pos, closed, dirents", "state of an open handle", "pkg/squash/vfs_fs.go:fsfileReader")])

P("C06", "A directory layer reproduces the directory",
  "The layer made from a directory contains exactly one entry for everything below the directory, at its relative path under the requested prefix, with the same type, content, link target, permission bits and owner (or the requested owner override), with hard links among the files kept as links to an earlier entry, and with timestamps never later than the clamp time and otherwise unchanged. The prefix's own directories are emitted first, parents first, with the requested mode and owner; anything that cannot be read or is not a directory is an error, never a silently incomplete layer.",
  ["inputs", "configurations"], "all small directory trees over an alphabet of files, modes, symlinks, hard links, special files and timestamps x prefix/chown/clamp settings",
  "pkg/dir has no tests.",
  ["pkg/dir/dir.go", "cmd_layer_dir.go"], [("walk + header from FileInfo", "pkg/dir/dir.go:LayerFromDir")],
  ["tar stream of the layer", "`ocibuild layer dir` stdout"])

P("C07", "Building the same layer twice gives identical bytes",
  "Given the same inputs, building a layer from a wheel (with entry points, byte-compilation and install records), from a directory, or by squashing yields byte-identical output in every run, independent of map iteration order, wall-clock time, number of CPUs, order of files in memory and on disk, and of the environment (umask, time zone, temporary and working directory). When several files of one wheel would land on the same path, the outcome (which file wins, or an error) is always the same.",
  ["schedules", "inputs"], "every map-iteration order up to a bounded number of deviations, at every map range in the program, for a corpus of inputs including colliding destinations",
  "A test run sees one random map order per execution; the wheel tests need the network and do not run.",
  [BD + "binary_distribution_format.go", "pkg/python/pypa/entry_points/entry_points.go", "pkg/python/pypa/recording_installs/recording_installs.go", "pkg/fsutil/fileref.go", "pkg/squash/vfs.go", "pkg/dir/dir.go", "pkg/reproducible/source_date_epoch.go"],
  [("sorting before emission", "pkg/fsutil/fileref.go:LayerFromFileReferences")], ["bytes of the produced layer"],
  hook="none in the tree: map ranges are rewritten in an overlay at build time")

P("C08", "No wheel that disagrees with its RECORD is ever installed",
  "If any file of a wheel archive is missing from RECORD, listed but absent, or differs from its recorded hash or size, or if its RECORD line lacks a hash or size or uses a hash weaker than sha256, installing the wheel fails and no layer is produced; this holds for every file and every way of tampering, including duplicate archive entries, odd mode bits, unclean names, and malformed RECORD lines. Wheels whose RECORD is complete and correct (with RECORD itself and its signature files exempt) are accepted.",
  ["inputs", "fault_sequences"], "all single and pairwise tamperings of all files/RECORD rows of several wheels, and every one-byte corruption of small wheels",
  "No offline test touches the wheel code; upstream tests use a handful of intact PyPI wheels.",
  [BD + "binary_distribution_format.go", BD + "misc.go"], [("integrity check before anything is installed", BD + "binary_distribution_format.go:integrityCheck")],
  ["error returned by bdist.InstallWheel", "exit status of `ocibuild layer wheel`"])

P("C09", "Wheel files land where the wheel spec says, unmodified, with sane metadata",
  "Every file of an accepted wheel appears exactly once in the layer, at the purelib/platlib directory chosen by Root-Is-Purelib or, for a .data category, at that scheme directory, with its content unchanged except that a script starting with '#!python' (or '#!pythonw'), followed by white space or the end of the line, gets exactly that token replaced by the platform's console (or graphical) interpreter and becomes executable. Modes are 0755 for directories and executables and 0644 otherwise, ownership is the platform's, no time is later than the clamp, every parent directory is present before its children, and wheels with an unknown data category, missing or ambiguous metadata, or an unsupported major format version are rejected. `layer wheel` does the same with an external byte-compiler.",
  ["inputs", "configurations"], "all wheels over an alphabet of file locations, names, contents, modes and times x platform schemes",
  "No offline test installs a wheel.",
  [BD + "binary_distribution_format.go", BD + "ioutil.go", BD + "misc.go", "pkg/fsutil/fileref.go", "pkg/python/platform.go"],
  [("spread of .data and shebang rewriting", BD + "binary_distribution_format.go:installToVFS,rewritePython")], ["entries of the layer"])

P("C10", "The installed RECORD describes exactly what was installed",
  "The RECORD written into the layer lists every installed non-directory file of the distribution exactly once, with a path relative to the site directory that resolves to it, plus itself with empty hash and size, as sorted well-formed CSV; each hash and size equals that of the installed file, except that byte-compiled files have both empty and scripts whose interpreter line was rewritten keep the values of the original file. INSTALLER, REQUESTED and direct_url.json, when requested, are present, correct and recorded. `layer wheel` records sha256 hashes and itself as the installer.",
  ["inputs", "configurations"], "all wheels of the C09 alphabet (names needing CSV quoting, other scheme roots, scripts, entry points) x hash algorithms x install options",
  "No offline test produces a RECORD.",
  ["pkg/python/pypa/recording_installs/recording_installs.go", "pkg/python/pep376/requested.go", BD + "hack.go"], [("hash every file of the install set", "pkg/python/pypa/recording_installs/recording_installs.go:Record")],
  ["content of *.dist-info/RECORD in the layer"])

P("C11", "A wheel cannot write outside its installation directories",
  "Whatever names a wheel uses for its archive members, data files, or entry points, every path in the resulting layer is a clean relative path strictly inside the directory it is meant for (the chosen library directory, or the scheme directory of its data category or scripts); otherwise installation fails and nothing is produced. Byte-compilation never writes outside its private temporary directory.",
  ["inputs"], "all member/data/entry-point names up to a bounded number of components over an alphabet of '..', '.', empty, absolute and ordinary components",
  "No test uses a hostile name.",
  [BD + "binary_distribution_format.go", BD + "ioutil.go", "pkg/python/pypa/entry_points/entry_points.go", "pkg/python/py_compile.go"], [("path joining", BD + "binary_distribution_format.go:installToVFS"), ("script path", "pkg/python/pypa/entry_points/entry_points.go:CreateScripts")],
  ["names of layer entries", "files touched on the build host"])

P("C12", "Entry points become exactly the right scripts",
  "For every entry_points.txt, each console or GUI script entry 'name = module:attr' produces one executable script with that name in the scripts directory whose interpreter line is the platform's console or graphical interpreter and which, when run, imports the module's first attribute component and exits with the result of calling the full dotted attribute; other sections produce nothing. Entries that are not valid object references, or whose names cannot be plain script names, fail the installation.",
  ["inputs"], "all entry_points.txt files over an alphabet of sections, names, object references and extras",
  "No test covers entry points.",
  ["pkg/python/pypa/entry_points/entry_points.go"], [("script template", "pkg/python/pypa/entry_points/entry_points.go:scriptTmpl")], ["script files in the layer and their behaviour under Python"])

P("C13", "Versions parse, normalise and order as PEP 440 prescribes",
  "Every string accepted by PEP 440's version grammar is accepted and everything else is rejected; the normalised form is the canonical spelling and re-parses to an equal version; comparison is a total order (antisymmetric, transitive, zero exactly for versions that PEP 440 calls equal) that agrees with the canonical PEP 440 order over epochs, release segments of any length, pre, post, dev and local parts of any magnitude.",
  ["inputs"], "all version strings over an alphabet of spellings for each part, all pairs and triples of a large set of versions",
  "Tests check the PEP's example lists and random versions for a few laws only; spellings, magnitudes and cross-part combinations are not enumerated.",
  ["pkg/python/pep440/01_version_scheme.go", "pkg/python/pep440/03_tail.go"], [("parser", "pkg/python/pep440/03_tail.go:parseVersion"), ("comparison", "pkg/python/pep440/01_version_scheme.go:Cmp")],
  ["ParseVersion, String, Normalize, Cmp"])

P("C14", "Version specifiers match exactly the versions PEP 440 says they match",
  "For every specifier (comma-separated clauses with ~=, ==, !=, <=, >=, <, > and trailing .* wildcards) and every version, matching gives the answer PEP 440 prescribes, including local versions, zero padding, pre-, post- and dev-releases; a specifier's string form parses back to an equivalent specifier, and invalid clauses are rejected. The exclusive '<' compares by plain version order.",
  ["inputs"], "all clause x version pairs over a large version set and all clause spellings; conjunctions of two clauses",
  "Tests check a few dozen example pairs; '<' and '>' are tested only with a space after the operator.",
  ["pkg/python/pep440/02_version_specifiers.go"], [("operator table", "pkg/python/pep440/02_version_specifiers.go:match*")], ["ParseSpecifier, Specifier.Match, Specifier.String"])

P("C15", "The best permitted release and wheel is selected",
  "Selecting from a set of releases returns the highest one that satisfies the specifier and is not excluded, falls back to the highest excluded (pre-release or yanked) one only when nothing else satisfies it, and returns none exactly when nothing matches, regardless of the order of the candidates. Selecting a wheel from an index considers only wheels compatible with the platform tags, and among wheels of the selected version picks the most preferred tag and then the highest build tag, never a yanked file when an acceptable non-yanked one exists.",
  ["inputs"], "all small candidate sets over versions (final, pre, yanked, equal spellings), tags and build numbers, in all orders",
  "Select and SelectWheel have no tests.",
  ["pkg/python/pep440/02_version_specifiers.go", "pkg/python/pypa/simple_repo_api/pypa_repo_api.go", "pkg/python/pep592/yank.go", "pkg/python/pep425/tags.go"], [("two-tier maximum", "pkg/python/pep440/02_version_specifiers.go:Select"), ("tag preference", "pkg/python/pypa/simple_repo_api/pypa_repo_api.go:SelectWheel")],
  ["Specifier.Select, Client.SelectWheel"])

P("C16", "Requires-Python filtering follows PEP 345",
  "For every interpreter version and every Requires-Python expression, the requirement is satisfied exactly when every clause is, where a bare or '==' version matches as a prefix excluding pre-, post- and dev-releases it does not itself name, '!=' is its complement, '<' excludes pre-releases of its version, and <=, >=, > follow version order; invalid expressions are reported as errors. Files whose requirement excludes the client's interpreter are hidden from an index listing, and files with no or an unparsable requirement are kept.",
  ["inputs"], "all clause x version pairs over a large version set; conjunctions; listings with requirements",
  "Tests check the examples of PEP 345.",
  ["pkg/python/pep345/metadata.go", "pkg/python/pep503/simple_repo_api.go"], [("clause matching", "pkg/python/pep345/metadata.go:Match")], ["HaveRequiredPython", "ListPackageFiles"])

P("C17", "Index downloads are verified and failures are never mistaken for content",
  "Content fetched through an index link is returned only if the server answered success and the complete body matches every supported checksum carried by the link, whatever the checksum algorithm, letter case of the digest, redirects or other fragment parameters; HTTP errors, truncated bodies and mismatches are errors. Listings resolve every link against the final location of the page, in document order with text and attributes intact, request the normalised project name below the base URL, refuse unsupported API versions, and a signature comes from the link's '.asc' companion or is reported absent. `python getwheel` prints the content of the link whose text is exactly the requested file name, or fails and prints nothing.",
  ["inputs", "fault_sequences"], "all combinations of link shapes, fragments, server behaviours (status, truncation, corruption of each byte, redirects) over a loopback server",
  "No offline test talks to a server.",
  ["pkg/python/pep503/simple_repo_api.go", "pkg/python/pep629/simple_api_versions.go", "pkg/htmlutil/htmlutil.go", "cmd_python_getwheel.go", "pkg/python/hashlib.go"], [("status and checksum validation", "pkg/python/pep503/simple_repo_api.go:get")], ["Client.* results", "`ocibuild python getwheel` stdout"])

P("C18", "Wheel file names and compatibility tags are parsed and generated faithfully",
  "Parsing a wheel file name yields exactly its distribution, version, optional build tag and compatibility tag as PEP 427 defines them and rejects anything else; generating a file name from valid parts and parsing it again yields equivalent parts, and unrepresentable parts are refused. Build tags order by number then text with 'no tag' lowest, and a compressed tag set matches exactly the tags in its expansion, with preference given by the best position in the installer's list.",
  ["inputs"], "all file names over an alphabet of component spellings; all tag pairs; all short installer lists",
  "No tests exist for file names or tags.",
  [BD + "binary_distribution_format.go", "pkg/python/pep425/tags.go"], [("file name pattern", BD + "binary_distribution_format.go:ParseFilename,GenerateFilename"), ("tag expansion", "pkg/python/pep425/tags.go")], ["ParseFilename, GenerateFilename, Tag, Installer"])

P("C19", "Layer comparison ignores timestamps and nothing else",
  "Two layers compare as equal exactly when their sequences of entries agree in everything except modification, access and change times: a difference in any name, type, mode, owner, link target, device number, extended attribute, or any byte or length of content is detected wherever it occurs, and timestamp-only differences never are. The comparison is symmetric, and errors reading either layer are reported.",
  ["inputs"], "all single-field and content mutations at every position of several layers, including chunk-size boundaries and time representations",
  "pkg/fsutil has no tests.",
  ["pkg/fsutil/diff.go"], [("header and content comparison", "pkg/fsutil/diff.go")], ["LayersEqualExceptTimestamps", "whether `layer gobuild -o` rewrites its file"])

P("C20", "`layer gobuild --output` replaces its file atomically and only on change",
  "Whenever the command is killed or an operation of it fails, the output file is afterwards either its old content or the complete new layer, and a later run succeeds and produces the complete layer; no temporary output is left behind by a run that returns. If only timestamps would change, the file is not touched; otherwise exit status 0 means the file holds the complete new layer.",
  ["crash_points", "fault_sequences"], "every system call of the output phase as a crash point or failure point, for each prior state of the output file",
  "No test runs the command.",
  ["cmd_layer_gobuild.go", "pkg/fsutil/diff.go", "pkg/gobuild/gobuild.go", "pkg/fsutil/write.go"], [("compare then replace the output file", "cmd_layer_gobuild.go")], ["content, inode and existence of the output file", "exit status"])

P("C21", "Built images contain exactly the base plus the given layers and config",
  "An image built from a base image and layer files has the base's layers followed by the given layers in argument order with their contents unchanged, correct diff IDs, and a loadable manifest with the requested tag; its config equals the base's config with exactly the requested changes (environment cleared and/or appended, entrypoint, command, working directory, each as given) and nothing else changed. A base image whose layers are not the ones its config lists, or a compressed layer that is damaged, is an error with nothing written.",
  ["inputs", "configurations"], "all combinations of base/no base, layer orders (with repeats), and config flags",
  "cmd_image_build.go has no tests.",
  ["cmd_image_build.go", "pkg/fsutil/open.go"], [("append layers, apply config flags", "cmd_image_build.go")], ["image tarball on stdout"])

P("C22", "The command line reports success only for complete output",
  "Every subcommand exits 0 only if its complete result was written to standard output; invalid usage exits 2 and any failure to read inputs or write output exits nonzero with a message on stderr, never a zero exit with missing or truncated output. On failure of input processing nothing is written to standard output.",
  ["fault_sequences", "configurations"], "every subcommand x malformed/missing/truncated inputs x output faults (full device, size limit at several offsets, closed pipe)",
  "No test runs the binary.",
  ["main.go", "cmd_image_build.go", "cmd_layer_dir.go", "cmd_layer_squash.go", "cmd_layer_wheel.go", "cmd_layer_gobuild.go", "cmd_python_getwheel.go", "pkg/cliutil/cobra.go", "pkg/fsutil/write.go"], [("errors propagate to main", "main.go")], ["exit status, stdout, stderr"])

P("C23", "INI files parse exactly as Python's configparser parses them",
  "For every configuration text, the parser accepts it exactly when Python's configparser (with the corresponding options and without interpolation) does, and then yields the same sections, keys and values; this covers comments, inline comments, continuation lines, empty lines, delimiters, duplicate detection and indentation, for the default and the entry-points option sets.",
  ["inputs", "configurations"], "all documents of up to a bounded number of lines over a line alphabet x parser options",
  "The parser has no tests.",
  ["pkg/python/configparser.go"], [("line-based parser", "pkg/python/configparser.go:Parse")], ["ConfigParser.Parse"])

P("C24", "File modes and attributes convert as in Python",
  "For all 65536 Unix mode values, the textual form equals Python's stat.filemode, the directory and regular-file tests equal Python's, and converting to Go's mode representation preserves type and all permission bits and converts back to the same value for every type Go can express. ZIP external attributes decompose and recompose without loss for all values, and the Windows attribute constants equal those of Python's stat module.",
  ["inputs"], "all 2^16 mode values, all ZIP attribute words by byte lanes, all attribute constants",
  "stat_test.go samples random modes against Go's own formatting.",
  ["pkg/python/stat.go", "pkg/python/zip.go"], [("bit tables", "pkg/python/stat.go")], ["StatMode, ZIPExternalAttributes, StatFileAttribute"])

P("C25", "Byte-compilation is faithful, hermetic and leaves nothing behind",
  "The external byte-compiler is given exactly the source files at their installed paths with their contents and times, a fixed hash seed and the clamp time as source date; its result is exactly the compiled files it produced, with their contents and installed paths. If the compiler fails, or any step fails, an error is returned and no result; in every case the temporary directory is removed, and concurrent compilations do not affect each other.",
  ["inputs", "fault_sequences", "schedules"], "all small source sets x compiler behaviours (success, failure, partial output, extra files, hang killed by cancellation) x concurrent pairs",
  "No offline test runs the compiler.",
  ["pkg/python/py_compile.go"], [("temporary tree + external command", "pkg/python/py_compile.go:ExternalCompiler")], ["returned files", "environment, arguments and tree seen by the compiler", "temporary directory"])

P("C26", "Interpreter lookup inside an image behaves like the image would",
  "Looking up a program in an image uses the image's PATH and working directory and finds the first executable non-directory candidate through the image's merged layers and symlinks, just as executing it in that image would; names containing a slash bypass PATH, and a name that is not executable or absent is an error. The console and graphical interpreters are the requested one and its existing pythonw/python sibling, and stat reports the ownership of the file that the absolute path resolves to.",
  ["inputs", "configurations"], "all small images over an alphabet of directories, files, modes and symlinks x PATH/WorkingDir settings x lookup names",
  "pyinspect has no tests.",
  ["pkg/python/pyinspect/fs_image.go", "pkg/python/pyinspect/pyinspect.go"], [("PATH walk over merged layers", "pkg/python/pyinspect/fs_image.go:LookPath"), ("sibling search", "pkg/python/pyinspect/pyinspect.go:Shebangs")], ["ImageFS.LookPath, ImageFS.Stat, Shebangs"])

P("C27", "Recorded direct URLs are exactly what Python's json would write",
  "For every direct-URL description, the direct_url.json written into the layer is byte for byte what Python's json.dumps with sorted keys prints for the same object, including non-ASCII characters, quotes, control characters, and characters special to HTML.",
  ["inputs"], "all descriptions over an alphabet of optional parts and awkward strings (every BMP code point class)",
  "One example is tested.",
  ["pkg/python/pypa/direct_url/json.go", "pkg/python/pypa/direct_url/direct_url.go"], [("re-formatting of encoding/json output", "pkg/python/pypa/direct_url/json.go:jsonDumps")], ["content of direct_url.json"])

P("C28", "Help text wrapping never loses or reorders text",
  "For every text, indent and terminal width, wrapping preserves the sequence of words exactly, keeps paragraph breaks, keeps each line within the width unless it is a single unbreakable word or the width is too small to wrap, and indents continuation lines by the indent; width zero disables wrapping.",
  ["inputs"], "all texts over an alphabet of words/spaces/newlines up to a bounded length x widths x indents",
  "cobra_tmpl_test.go checks four help screens at width 80.",
  ["pkg/cliutil/borrowed_pflag.go", "pkg/cliutil/wordwrap.go", "pkg/cliutil/term.go"], [("greedy wrapping with slop", "pkg/cliutil/borrowed_pflag.go:wrap")], ["cliutil.Wrap, cliutil.WrapIndent"])

P("C29", "`python inspect` describes the environment exactly and cleans up",
  "The description printed by `python inspect` is accepted by `layer wheel`, and states exactly what the inspected interpreter reports about itself (install scheme, version, magic number, compatibility tags in order), the console and graphical interpreter, the owner of the first of the directories purelib, platlib, headers, scripts and data that exists (following symlinks), and as byte-compiler the interpreter itself or, for an image, the first of pythonX.Y, pythonX and python on the host whose magic number is the image's. For an image, exactly the given image is loaded into Docker under a tag that no other inspection uses, the console interpreter is run in it, and the tag is removed again whatever happens and no container stays behind, while other images are left alone. If the interpreter is missing, fails or prints anything else, no scheme directory exists, no host interpreter matches, or any Docker command fails, the command fails with a message and prints no description. The interpreter is given as a plain name or absolute path, and scheme directories are absolute.",
  ["inputs", "fault_sequences", "configurations"], "all small environments: facts, names with characters special to YAML, subsets of scheme directories, interpreter siblings, host interpreters, images; failures of every step of interpreter and Docker; concurrent inspections",
  "The command has no tests.",
  ["cmd_python_inspect.go", "pkg/python/pyinspect", "pkg/dockerutil/docker.go"], [("inspection and description", "cmd_python_inspect.go"), ("load, run, remove", "pkg/dockerutil/docker.go:WithImage"), ("code run by the interpreter", "pkg/python/pyinspect/pyinspect.go:Dynamic")], ["stdout, stderr and exit status of the command", "calls of docker and its images", "layers built with the description"])

P("C30", "`layer gobuild` packs exactly what the Go toolchain built for the target",
  "The layer made by `layer gobuild` contains exactly the files that `go build` put into its output directory, below usr/local/bin with their names, contents and permission bits, owned by root, with times clamped to SOURCE_DATE_EPOCH (or now), after the directories usr, usr/local and usr/local/bin. The toolchain is run once, in the current directory, for exactly the given packages, with the caller's environment except that GOOS is linux and GOARCH is amd64, and everything it prints appears on standard error and never in the layer. If the toolchain fails or is missing, the command fails and writes no layer; the private output directory is removed in every case and not shared by concurrent builds.",
  ["inputs", "configurations", "fault_sequences"], "all small sets of produced files x modes x times, package lists, environments, outputs and exit statuses of the toolchain, and concurrent builds",
  "The command has no tests.",
  ["pkg/gobuild/gobuild.go", "cmd_layer_gobuild.go"], [("toolchain call and packing", "pkg/gobuild/gobuild.go:LayerFromGo")], ["layer", "arguments, environment and directory of the toolchain", "temporary directory"])

P("C31", "File references become exactly the layer's entries, parents first",
  "For every set of file references with distinct clean names, the layer made of them has exactly one entry per reference with its name, type, mode, owner, size and content, its times no later than the clamp time and otherwise unchanged, in an order that does not depend on the order of the references and in which every directory precedes what lies below it, and the tar archive is well-formed. If opening, reading or closing a file fails, or it has more or fewer bytes than its size, an error is returned and no layer; every opened file is closed.",
  ["inputs", "fault_sequences"], "all small sets of references (names with characters around '/', types, modes, owners) in every order, times around the clamp, sizes and counts, faults at every step of every file",
  "Tests only reach it through a few wheels.",
  ["pkg/fsutil/fileref.go"], [("sort, clamp, write", "pkg/fsutil/fileref.go:LayerFromFileReferences")], ["returned layer or error", "opened and closed files"])

P("C32", "Inputs from pipes and symlinks give the same output as regular files",
  "Wherever a subcommand reads a layer file, a base or inspected image file or a platform file, the output is the same whether the file is a regular file, is reached through symlinks, is a named pipe, is standard input or is an inherited pipe given as /dev/fd/N, for every mix of these among the inputs, whatever pieces the pipe delivers its bytes in, and, for layers given to squash, whether they are uncompressed or gzip-compressed in any valid way. A wheel may be reached through symlinks. Inputs that are missing, directories, dangling or cyclic symlinks, and pipes that end early, are reported as errors with no output.",
  ["inputs", "fault_sequences", "configurations"], "all mixes of forms of up to 3 inputs, compressions, piece sizes, cut points of pipes, bad inputs at every position",
  "No test reads from a pipe.",
  ["pkg/fsutil/open.go", "cmd_layer_squash.go", "cmd_image_build.go", "cmd_python_inspect.go", "cmd_layer_wheel.go"], [("re-opening or buffering", "pkg/fsutil/open.go:PathOpener")], ["stdout, stderr and exit status of the commands"])
