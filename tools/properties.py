"""What each property says; tools/gen.py turns this into properties.jsonl and MANIFEST.json."""

C = 'core/ratarmountcore/'
M = C + 'mountsource/'

PROPERTIES = [
    {
        'id': 'P01',
        'title': 'Joined, cut-out and generated file views read like plain files',
        'statement': 'A file object presented as parts of other files, as several files joined, or as a generated range '
        'returns for every sequence of seeks and reads exactly the bytes and positions of a plain file holding that '
        'content. Views that share one underlying file never disturb each other, even when other threads move it, and a '
        'failing seek leaves the position as it was.',
        'over': ['inputs', 'schedules', 'histories'],
        'for_all': 'every number and size of parts (empty ones included), every offset, buffer size, sequence of '
        'seek/read/tell calls, and movement of the shared file whenever its lock is not held',
        'why': 'Tests read a handful of three-byte parts from the start; boundaries between parts, buffers and positions '
        'beyond the end, and interleavings with another reader form a space they only sample.',
        'files': [C + 'StenciledFile.py'],
        'mechanism': [('cut-outs with cumulative sizes and bisection', C + 'StenciledFile.py: RawStenciledFile'),
                      ('lock around seek and read', C + 'StenciledFile.py: RawStenciledFile.read'),
                      ('parts opened on demand', C + 'StenciledFile.py: RawJoinedFileFromFactory')],
        'observe': ['read, readinto, seek, tell of the returned file objects'],
        'technique': 'compared with a reference file for arbitrary contents',
    },
    {
        'id': 'P02',
        'title': 'Block-parallel decompression reads like the decompressed file',
        'statement': 'Reading a block-compressed file through the parallel reader returns for every sequence of seeks '
        'and reads exactly the bytes and positions of the decompressed content, no matter when the background workers '
        'finish. Restarting or stopping the workers changes nothing about what is read afterwards.',
        'over': ['inputs', 'schedules', 'histories'],
        'for_all': 'every division into blocks, order in which prefetched blocks become ready, degree of parallelism and '
        'sequence of seek/read calls',
        'why': 'Tests read one generated file from a few positions with the timing the machine happens to have.',
        'files': [C + 'BlockParallelReaders.py'],
        'mechanism': [('block lookup and block cache', C + 'BlockParallelReaders.py: BlockParallelReader.read'),
                      ('prefetching', C + 'BlockParallelReaders.py: PrefetchingCache')],
        'observe': ['read, seek, tell of the decompressed file object'],
        'technique': 'with symbolic readiness of worker results',
    },
    {
        'id': 'P03',
        'title': 'Data stored as database blobs is read back unchanged',
        'statement': 'Data written in any pieces into database rows is stored completely and in order, and reading the '
        'rows back through a file object returns for every sequence of seeks and reads exactly those bytes. Empty data '
        'reads as an empty file.',
        'over': ['inputs', 'histories'],
        'for_all': 'every sequence of write sizes, row size limit, division into rows, and sequence of seek/read calls',
        'why': 'Tests store a few fixed strings; row boundaries against read and buffer boundaries are not covered.',
        'files': [C + 'SQLiteBlobFile.py'],
        'mechanism': [('cutting writes into rows', C + 'SQLiteBlobFile.py: WriteSQLiteBlobs'),
                      ('reading part of one row', C + 'SQLiteBlobFile.py: SQLiteBlobFile'),
                      ('joining rows', C + 'SQLiteBlobFile.py: SQLiteBlobsFile')],
        'observe': ['rows in the database', 'read, seek, tell of the file objects'],
        'technique': 'over a model of SQLite that is compared with the real library',
    },
    {
        'id': 'P04',
        'title': 'The index answers lookups, listings and versions from what was recorded',
        'statement': 'After an archive was indexed, looking up a path returns the recorded metadata of the requested '
        'version (the newest by default, counted by position in the archive), a listing names exactly the recorded '
        'entries and the folders above them, and both agree with each other and with the number of versions. Extended '
        'attributes belong to the member they were stored for, and redundant slashes and dots in a path change nothing.',
        'over': ['inputs', 'histories'],
        'for_all': 'every order, position and repetition of recorded members, missing parent folders, version number '
        'and path spelling',
        'why': 'Tests list a few sample archives; orders of headers, duplicates and clashes of files with folders are a '
        'combinatorial space.',
        'files': [C + 'SQLiteIndex.py'],
        'mechanism': [('row insertion and parent folders', C + 'SQLiteIndex.py: set_file_infos, finalize_index'),
                      ('version selection', C + 'SQLiteIndex.py: lookup, versions'),
                      ('listing', C + 'SQLiteIndex.py: list, list_mode'),
                      ('extended attributes', C + 'SQLiteIndex.py: setxattrs, get_xattr')],
        'observe': ['lookup, list, versions, list_xattr and get_xattr results'],
        'technique': 'over a model of SQLite that is compared with the real library',
    },
    {
        'id': 'P07',
        'title': 'A union shows all sources, the rightmost on top, with all versions',
        'statement': 'A union of sources lists the names of all of them and shows, for a name that several contain, the '
        'file of the rightmost source in lookups and listings alike. Its versions are those of all sources from left '
        'to right, none missing and none twice, and opening, reading and querying attributes of a file reaches exactly '
        'the version that was looked up. None of this depends on how much the folder cache could hold or how long '
        'building it took.',
        'over': ['inputs', 'configurations', 'histories'],
        'for_all': 'every combination of source trees with clashes of files and folders, sources that change or do not '
        'know versions, version numbers, and cache limits and timeouts',
        'why': 'Tests join two folders and two archives with distinct files; precedence, versions and cache cut-offs '
        'are only sampled.',
        'files': [M + 'compositing/union.py'],
        'mechanism': [('precedence and version arithmetic', M + 'compositing/union.py: lookup, versions'),
                      ('folder cache', M + 'compositing/union.py: _build_folder_cache'),
                      ('merged listings', M + 'compositing/union.py: list, list_mode')],
        'observe': ['lookup, list, versions, open and read of the union'],
        'technique': 'over in-memory sources with symbolic metadata',
    },
    {
        'id': 'P08',
        'title': 'Mounted subvolumes are reachable below exactly their mount point',
        'statement': 'After any sequence of mounts and unmounts at nested paths, every path below a mount point reaches '
        'the source mounted there for lookups, listings, opening, reading and attributes, and the folders above mount '
        'points exist exactly as long as something is mounted below. A mount succeeds exactly if the path is free, and '
        'asking whether it would changes nothing.',
        'over': ['inputs', 'histories'],
        'for_all': 'every history of mounts and unmounts on nested and clashing paths in any spelling',
        'why': 'Tests mount at one level only and never open files below nested mount points.',
        'files': [M + 'compositing/subvolumes.py'],
        'mechanism': [('tree of mounts', M + 'compositing/subvolumes.py: mount, unmount, is_mountable'),
                      ('routing', M + 'compositing/subvolumes.py: lookup, open, get_mount_source')],
        'observe': ['mount, unmount, lookup, list, open and read results'],
        'technique': 'over in-memory sources with symbolic metadata',
    },
    {
        'id': 'P09',
        'title': 'Version folders, hard links and moved sources show the right file',
        'statement': 'Every version of a file that its version folder lists is found there and is that version, a hard '
        'link shows the file it refers to (one to itself the next older version), and a source moved into a subfolder '
        'shows everything it contained below that folder and nothing else. Files found through these layers can be '
        'opened, read and queried any number of times.',
        'over': ['inputs', 'histories', 'configurations'],
        'for_all': 'every tree with repeated names, kinds of entries and links between them, version numbers, prefixes '
        'and path spellings',
        'why': 'Tests cover a few archives with two versions and one link; chains and clashes are not covered.',
        'files': [M + 'compositing/versioning.py', M + 'compositing/removeprefix.py', M + 'compositing/singlefile.py'],
        'mechanism': [('version folders', M + 'compositing/versioning.py: FileVersionLayer'),
                      ('hard links', M + 'compositing/versioning.py: _resolve_hard_links'),
                      ('prefix', M + 'compositing/removeprefix.py'), ('single file', M + 'compositing/singlefile.py')],
        'observe': ['lookup, list, versions, open and read of the layers'],
        'technique': 'over in-memory sources with symbolic metadata',
    },
    {
        'id': 'P10',
        'title': 'A mount with write overlay behaves like a writable copy of the sources',
        'statement': 'With a write overlay, every history of writing, truncating, creating, deleting, renaming, linking and '
        'changing metadata leaves the mount showing exactly what the same history leaves in an ordinary folder with the '
        'same initial contents: names, kinds, contents, permissions, owners and set times. An operation that cannot be '
        'done is refused without effect. The same is shown after mounting again with the same overlay, and the sources '
        'are never changed. The database in which the overlay keeps its records is no file of the mount: it is not shown, '
        'and no operation reads, replaces or removes it.',
        'over': ['inputs', 'histories'],
        'for_all': 'every history of operations on files and folders from the source, the overlay or both, and every '
        'offset, length, mode and time',
        'why': 'The existing tests run a few shell commands on one archive and do not run without FUSE at all; '
        'combinations of deleting, recreating and renaming across the two layers are not covered.',
        'files': ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'],
        'mechanism': [('copying on modification', 'ratarmount/WriteOverlay.py: _ensure_file_is_modifiable, open, truncate'),
                      ('deletion marks and metadata', 'ratarmount/WriteOverlay.py: _mark_as_deleted, _set_file_metadata, update_file_info'),
                      ('switching handles to the overlay', 'ratarmount/FuseMount.py: open, write')],
        'observe': ['getattr, readdir, readlink, read and the results of the modifying operations of the mount'],
        'technique': 'against the same history in a plain folder, over models of the file system and SQLite that replays '
        'compare with the real ones',
    },
    {
        'id': 'P12',
        'title': 'The mount shows what the sources hold and keeps open files apart',
        'statement': 'Every path of a mount shows the attributes, link target, extended attributes, folder entries, '
        'versions and data of the file the sources hold there, and missing files are reported as missing. Files opened '
        'at the same time are read independently of each other, also when others are released. Without a write overlay '
        'every modification is refused as read-only and nothing in the sources changes; without a union every source is '
        'shown in a folder of its own.',
        'over': ['inputs', 'histories', 'configurations'],
        'for_all': 'every path, tree and number of sources, and interleaving of opening, reading at any offset and '
        'releasing files',
        'why': 'No test runs the FUSE layer without a FUSE device; with one, they only sample sequential reads.',
        'files': ['ratarmount/FuseMount.py'],
        'mechanism': [('attributes and listings', 'ratarmount/FuseMount.py: getattr, readdir, readlink, getxattr'),
                      ('open files', 'ratarmount/FuseMount.py: open, read, release, _add_new_handle'),
                      ('several sources', 'ratarmount/FuseMount.py: __init__, _create_multi_mount')],
        'observe': ['results and errors of the FUSE operations', 'the source folders'],
        'technique': 'over in-memory sources with symbolic metadata and contents',
    },
    {
        'id': 'P24',
        'title': 'A mounted folder shows exactly what the folder holds',
        'statement': 'Lookups and listings of a folder agree with each other and with the folder: names, kinds, '
        'permissions, owners, times, sizes, link targets, extended attributes and contents, and files found either way can '
        'be opened. A relative link that leads out of the folder shows what it refers to. An index of a folder shows the '
        'same files with the same contents. Reading changes nothing.',
        'over': ['inputs'],
        'for_all': 'every tree with files, folders and links (inside, leading out, absolute and dangling), any sizes, '
        'times and owners, and every path',
        'why': 'Tests look up a few files of one folder and never open or compare listed entries or links.',
        'files': [M + 'formats/folder.py', M + 'SQLiteIndexMountSource.py'],
        'mechanism': [('metadata and links', M + 'formats/folder.py: FolderMountSource.lookup'),
                      ('listings', M + 'formats/folder.py: FolderMountSource.list, list_mode'),
                      ('index', M + 'formats/folder.py: IndexedFolderMountSource._create_index, _get_path_in_index')],
        'observe': ['lookup, list, list_mode, open, read and extended attribute results'],
        'technique': 'over models of the file system and SQLite that replays compare with the real ones',
    },
    {
        'id': 'P19',
        'title': 'Archives inside of archives appear as folders, all else unchanged',
        'statement': 'With recursive mounting, every archive inside the mounted source, up to the recursion depth, is '
        'shown as a folder at its mount point (its own path, or the stripped or transformed one) holding exactly its '
        'files; the archive file itself stays reachable as the older version of its path. Archives that cannot be opened '
        'and all other files are shown unchanged. Lookups, listings, versions, links and contents agree with each other, '
        'do not depend on whether archives are mounted at once or lazily, or on earlier calls, and parts of split files '
        'are joined wherever they are.',
        'over': ['inputs', 'configurations', 'histories'],
        'for_all': 'every nesting of archives up to the bound, unreadable archives, version, recursion depth, mount '
        'point naming and earlier call',
        'why': 'Tests mount a few nested archives eagerly and look up some of the newest files.',
        'files': [M + 'compositing/automount.py', 'core/ratarmountcore/mountsource/factory.py'],
        'mechanism': [('mounting nested archives', M + 'compositing/automount.py: _try_to_mount_file'),
                      ('finding the mount point', M + 'compositing/automount.py: _find_mounted, _simply_find_mounted'),
                      ('listings and versions', M + 'compositing/automount.py: list, list_mode, versions, lookup'),
                      ('split files', M + 'compositing/automount.py: split files when mounting')],
        'observe': ['lookup, list, list_mode, versions, open and read results'],
        'technique': 'over in-memory sources with symbolic metadata and sizes',
    },
    {
        'id': 'P13',
        'title': 'Opening a part of a split file opens all parts in order',
        'statement': 'Given one part of a file that was split into consecutively numbered parts, exactly the existing '
        'parts from the first one up to the first gap are joined, in the order of their numbers, whatever numbering '
        'format was used and whichever other files lie next to them. A file that is not a part of such a sequence is '
        'opened alone.',
        'over': ['inputs'],
        'for_all': 'every set of suffixes next to the file, numbering alphabets and widths, start at 0 or 1, and sizes '
        'of the parts',
        'why': 'Tests join a handful of sequences; neighbouring files, gaps and ambiguous alphabets are not covered.',
        'files': [C + 'compressions.py', 'core/ratarmountcore/mountsource/factory.py'],
        'mechanism': [('detecting the sequence', C + 'compressions.py: check_for_split_file_in, check_for_sequence'),
                      ('opening the parts', 'core/ratarmountcore/mountsource/factory.py: open_mount_source')],
        'observe': ['the parts that are joined', 'the contents of the opened file'],
        'technique': 'over symbolic suffixes and a model file system',
    },
    {
        'id': 'P05',
        'title': 'An index is used exactly when it belongs to the archive as it is now',
        'statement': 'Mounting an archive again shows its files as they are now, no matter how it was changed, appended '
        'to or replaced in ways that show in its size, in the time if that is to be verified, or for a TAR in the blocks '
        'at its former end. An index that fits is not recreated. A database given for mounting or for reading only is '
        'never modified, deleted or recreated.',
        'over': ['inputs', 'histories', 'configurations'],
        'for_all': 'every size, time and member offset of the old and new archive, kinds of members, size of the '
        'appended part, and sequence of mounts',
        'why': 'Tests append to one small archive; the decision depends on thresholds of 64 MiB and on the offsets of '
        'all members.',
        'files': [C + 'SQLiteIndex.py', M + 'formats/tar.py', M + 'SQLiteIndexMountSource.py'],
        'mechanism': [('comparing size and time', C + 'SQLiteIndex.py: check_archive_stats'),
                      ('detecting appended files', M + 'formats/tar.py: _check_metadata, _try_to_mark_as_appended, '
                       '_get_past_end_offset, _check_index_validity'),
                      ('given databases', C + 'SQLiteIndex.py: _try_load_index_file, _try_load_index')],
        'observe': ['listings after each mount', 'whether the archive was analyzed again', 'tables of given databases'],
        'technique': 'over a model of SQLite and a symbolic TAR reader',
    },
    {
        'id': 'P27',
        'title': 'An index left over from an interruption is never mistaken for complete',
        'statement': 'If the process ends, or a statement or read fails, at any point while an index is created or updated, '
        'every later mount of the archive, changed in between or not, shows all of its files with their offsets, sizes '
        'and checksums. An error while reading the archive is reported. Once an index was completed, it is used.',
        'over': ['crash_points', 'fault_sequences', 'histories'],
        'for_all': 'every statement of the index creation as the point of the interruption or failure, every offset and '
        'size of the members, and where the index is stored',
        'why': 'No test interrupts the creation of an index.',
        'files': [C + 'SQLiteIndex.py', M + 'SQLiteIndexMountSource.py', M + 'formats/tar.py'],
        'mechanism': [('completeness check', C + 'SQLiteIndex.py: _try_load_index_file, index_is_loaded'),
                      ('order of creation', C + 'SQLiteIndex.py: open_sql_db, ensure_intermediate_tables, finalize_index, '
                       'store_metadata'),
                      ('writing the index', M + 'SQLiteIndexMountSource.py: _finalize_index')],
        'observe': ['listings of later mounts', 'reported errors'],
        'technique': 'over a model of SQLite that loses uncommitted statements',
    },
    {
        'id': 'P06',
        'title': 'A mounted TAR shows every member with its own metadata and contents',
        'statement': 'Every member of a TAR archive is shown with its kind, permissions, owner, time, link target and '
        'extended attributes, and reading it returns exactly the bytes stored for it and nothing beyond its end, for '
        'sparse members with zeros in the holes. The same holds for members of archives nested in it, each shown below the '
        'path of its archive, and for an index loaded from a file. Members that only look like archives stay files.',
        'over': ['inputs', 'configurations', 'schedules'],
        'for_all': 'every kind, metadata, offset and size of the members, every set of holes and range read, nesting of '
        'archives up to the bound, and movement of the shared file whenever its lock is not held',
        'why': 'Tests compare checksums of whole files in a few small archives.',
        'files': [M + 'formats/tar.py', M + 'SQLiteIndexMountSource.py', C + 'SQLiteIndex.py'],
        'mechanism': [('rows from members', M + 'formats/tar.py: _process_tar_info'),
                      ('reading members', M + 'formats/tar.py: open, read, _open_tar'),
                      ('sparse members', M + 'formats/tar.py: _get_sparse_file, open'),
                      ('nested archives', M + 'formats/tar.py: process, create_index')],
        'observe': ['lookup, list, open, read and extended attributes'],
        'technique': 'over a symbolic TAR reader and a model of SQLite',
    },
    {
        'id': 'P15',
        'title': 'A mounted AR archive shows each member with its metadata and contents',
        'statement': 'Every member of an AR archive is shown under its name with its permissions, owner, time, size and '
        'contents, whether its name is stored in the header, in the table of long names or in front of the contents. '
        'Symbol tables and the table of names are not shown, and members of thin archives are shown as links to their '
        'files.',
        'over': ['inputs', 'schedules'],
        'for_all': 'every size, metadata and contents of the members, with and without padding, in archives as GNU and BSD '
        'programs write them, every range read, and movement of the shared file whenever its lock is not held',
        'why': 'Tests list a few archives made by one tool each.',
        'files': [M + 'formats/ar.py'],
        'mechanism': [('parsing the archive', M + 'formats/ar.py: _parse_ar_archive'),
                      ('rows of the index', M + 'formats/ar.py: _convert_to_row'),
                      ('reading members', M + 'formats/ar.py: _open_stencil, open')],
        'observe': ['list, lookup, open and read results'],
        'technique': 'over the bytes of the archive with symbolic digits and stretches of symbolic length',
    },
    {
        'id': 'P28',
        'title': 'Committing a write overlay makes the archive hold what the mount showed',
        'statement': 'After any sequence of changes made through a mount with a write overlay, committing the overlay '
        'to the TAR leaves an archive with exactly the files, folders, links and contents which the mount showed: '
        'deleted members are gone in whichever style their names are stored, replaced ones hold the new content, and '
        'nothing else is touched. Without the confirmation, or when deleting members fails, the archive stays as it was.',
        'over': ['histories', 'inputs', 'configurations', 'fault_sequences'],
        'for_all': 'sequences of changes, sizes and offsets of writes, styles of member names, overlays left by earlier '
        'mounts, answers, and failing of the deletion',
        'why': 'The tests commit a handful of fixed changes; what is deleted and appended depends on the whole history '
        'recorded in the overlay folder and its database.',
        'files': ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'],
        'mechanism': [('lists of members to delete and to append', 'ratarmount/WriteOverlay.py: commit_overlay'),
                      ('deletion marks', 'ratarmount/WriteOverlay.py: WritableFolderMountSource')],
        'observe': ['members of the archive after the commit', 'exceptions of commit_overlay'],
        'technique': 'members after the commit compared with a plain folder that saw the same changes',
    },
    {
        'id': 'P14',
        'title': 'Stored compression offsets are complete, used when there, rebuilt when not',
        'statement': 'Mounting a compressed archive again gives the decompression backend exactly the offsets it exported '
        'after going over the whole archive, and does not make it build them again. Offsets that are missing, incomplete '
        'because storing them was interrupted or failed, or of a format that the backend cannot read are never loaded; the '
        'archive is mounted nonetheless and complete offsets are stored in their place. An index that must not be changed '
        'is used as it is.',
        'over': ['crash_points', 'fault_sequences', 'histories', 'configurations'],
        'for_all': 'every offset of bzip2 and Zstandard blocks, every size of gzip offsets and the blobs they are cut into, '
        'every sequence of gzip backends, and every statement at which a mount is interrupted or fails',
        'why': 'Tests store small offsets once with each backend, and interrupt nothing.',
        'files': [C + 'SQLiteIndex.py', C + 'SQLiteBlobFile.py', M + 'formats/tar.py'],
        'mechanism': [('loading and storing', C + 'SQLiteIndex.py: synchronize_compression_offsets, _load_gzip_index, '
                       '_store_gzip_index'),
                      ('order of loading', M + 'formats/tar.py: __init__, _create_index, _load_or_store_compression_offsets')],
        'observe': ['what the backends are given', 'how often they export their offsets', 'tables of the index'],
        'technique': 'over a model of SQLite that loses uncommitted statements and backends that export symbolic offsets',
    },
    {
        'id': 'P29',
        'title': 'Remote and fsspec file systems are shown as they are',
        'statement': 'Mounting a file system that fsspec provides shows exactly its files: names, kinds, sizes and, as far as they '
        'are provided, modification times and modes, below the prefix that the URL names, whether the file system lists absolute '
        'or relative names. Missing paths are reported as missing and not as errors, listed entries can be looked up with the '
        'same attributes, and reading gives the bytes of the file that was asked for. The reverse interface, which offers any '
        'mount source as an fsspec file system, lists, opens and describes the same tree again.',
        'over': ['inputs', 'configurations'],
        'for_all': 'every size and modification time, several trees, prefixes and styles of listing',
        'why': 'Tests use a few files of well-behaved local servers.',
        'files': [M + 'formats/fsspec.py', C + 'SQLiteIndexedTarFsspec.py'],
        'mechanism': [('mounting', M + 'formats/fsspec.py: FSSpecMountSource'),
                      ('interface', C + 'SQLiteIndexedTarFsspec.py: MountSourceFileSystem, SQLiteIndexedTarFileSystem')],
        'observe': ['listings', 'file infos', 'routed reads', 'errors'],
        'technique': 'over file systems with symbolic contents',
    },
    {
        'id': 'P16',
        'title': 'Files are recognized by contents and opened by the first able backend',
        'statement': 'A file is taken for one of a format exactly if its contents start with what the format requires, whatever '
        'follows and wherever the file is positioned, and that position is left alone. Skippable frames before Zstandard and LZ4 '
        'frames are skipped. Files are opened with the first backend that recognizes and is able to open them: the prioritized '
        'ones in their order, then those that the file extension suggests, then all others; each backend is tried at most once, '
        'gets the file at its start, and a backend that fails does not keep the next from succeeding. Compression is undone only '
        'with installed decompressors that are able to read the file.',
        'over': ['inputs', 'configurations', 'fault_sequences'],
        'for_all': 'all leading bytes, frame sizes and positions, and all outcomes of the backends',
        'why': 'Tests recognize one file per format, and no backend of theirs fails.',
        'files': [C + 'formats.py', M + 'factory.py', C + 'compressions.py'],
        'mechanism': [('recognizing', C + 'formats.py: might_be_format, find_squashfs_offset'),
                      ('selecting', M + 'factory.py: open_mount_source'),
                      ('decompressors', C + 'compressions.py: detect_compression, find_available_backend')],
        'observe': ['recognized formats', 'positions of files', 'order of tried backends'],
        'technique': 'over files with symbolic bytes and backends with symbolic outcomes',
    },
    {
        'id': 'P18',
        'title': 'Checksums cover the complete contents of all files and are resumed',
        'statement': 'When checksums are requested, every regular file of the index gets every one of them, computed over all bytes '
        'of exactly that file in order, wherever the file was positioned before; the smplayer checksum adds up the first and last '
        '64 KiB without counting a byte twice. Checksums that earlier mounts stored are kept and not computed again, missing ones '
        'are added, however many there are, files that cannot be read are left out without affecting others, and neither folders, '
        'links nor generated entries get any.',
        'over': ['inputs', 'histories', 'fault_sequences', 'configurations'],
        'for_all': 'every size and position of a file, and every set of checksums stored by earlier mounts',
        'why': 'Tests hash small files once, with indexes that hold no checksums or all of them.',
        'files': [C + 'hashing.py', M + 'SQLiteIndexMountSource.py', C + 'SQLiteIndex.py'],
        'mechanism': [('checksums', C + 'hashing.py: compute_hashes, smplayer_hash'),
                      ('which files', M + 'SQLiteIndexMountSource.py: _compute_and_store_hashes'),
                      ('attributes', C + 'SQLiteIndex.py: setxattrs, get_xattr, list_xattr')],
        'observe': ['what hashers are updated with', 'extended attributes of members'],
        'technique': 'over files of symbolic sizes and a model of SQLite',
    },
    {
        'id': 'P17',
        'title': 'Failing or interrupted changes to a mount leave all files intact',
        'statement': 'When the storage of the write overlay fails in the middle of a change (no space, I/O error), the call '
        'reports an error, every file shows what it did before, and repeating the call works once the storage does. When '
        'the process ends in the middle of a change, mounting again shows every file as before or after that change: '
        'never cut off, mixed, lost, or replaced by an older version.',
        'over': ['fault_sequences', 'crash_points', 'inputs'],
        'for_all': 'every kind of change, every point in it at which the storage fails or the process ends, what had been '
        'changed before, and every file size',
        'why': 'Tests never fail the storage of the overlay nor end the process in the middle of a call.',
        'files': ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'],
        'mechanism': [('copying files into the overlay', 'ratarmount/WriteOverlay.py: _ensure_file_is_modifiable, _copy_to_overlay'),
                      ('marking files as deleted', 'ratarmount/WriteOverlay.py: unlink, rmdir, _remove'),
                      ('creating files and folders', 'ratarmount/WriteOverlay.py: create, mkdir, symlink, mknod, rename')],
        'observe': ['results of the FUSE operations after the failing call, and after mounting again'],
        'technique': 'with a symbolic point of failure, compared with the same change in an ordinary folder',
    },
    {
        'id': 'P21',
        'title': 'ZIP, RAR, SQLAR, ASAR, OGG, libarchive: all members and metadata are shown',
        'statement': 'A mounted ZIP, RAR, ASAR, or SQLite archive, or one that libarchive opens, contains exactly the '
        'members of the archive and the folders they lie in, whatever their names. Listing, looking up, and asking for modes '
        'agree, and show type, size, permissions, modification time (if the format has them), and link target as stored. Every version of a path that occurs several times (in ZIPs and with libarchive) can be looked up and opened and has '
        'the contents of its member. Invalid times do not keep an archive from being mounted. An OGG file contains one file '
        'per stream with exactly its pages. Paths that do not exist are not found.',
        'over': ['inputs', 'configurations'],
        'for_all': 'every size, permissions, and DOS time (also invalid ones), and combinations of members with unusual paths: '
        'leading dots, missing parent folders, folders after their files, duplicates, symbolic and hard links',
        'why': 'Tests mount a few archives that were created with usual tools.',
        'files': [f'{M}formats/zip.py', f'{M}formats/rar.py', f'{M}formats/sqlar.py', f'{M}formats/asar.py',
                  f'{M}formats/libarchive.py', f'{M}formats/ogg.py', f'{C}SQLiteIndex.py'],
        'mechanism': [('ZIP', f'{M}formats/zip.py: _convert_to_row, open'),
                      ('RAR', f'{M}formats/rar.py: list, lookup, versions, _lookups, _convert_to_file_info, _clean_path'),
                      ('ASAR', f'{M}formats/asar.py: _convert_to_row, _create_index, open'),
                      ('OGG', f'{M}formats/ogg.py: parse_ogg, _convert_to_row, open'),
                      ('SQLAR', f'{M}formats/sqlar.py: __init__, _list_names, list, list_mode, lookup'),
                      ('libarchive', f'{M}formats/libarchive.py: convert_to_row, get_time, linkname, _create_index, open')],
        'observe': ['list, list_mode, lookup, versions, exists, is_dir, and open of the mount source for every path'],
        'technique': 'over archives with symbolic metadata',
    },
    {
        'id': 'P22',
        'title': 'Files decoded on the fly from libarchive and SquashFS read like plain files',
        'statement': 'A file opened from an archive that libarchive decodes, or from a SquashFS image, is read, sought, and '
        'reports its position like a plain file with the contents of its member: wherever it is, however large, empty or not, '
        'stored in whole, sparse, or shared blocks. Other files of the same archive that are opened, read alternately, or '
        'closed do not change that, also when the archive itself is given as a file object.',
        'over': ['inputs', 'histories'],
        'for_all': 'every size and position, sequences of reading, seeking, and closing, and orders of opening members',
        'why': 'Tests read files of a few bytes one after the other.',
        'files': [f'{M}formats/libarchive.py', f'{M}formats/squashfs.py'],
        'mechanism': [('decoding members', f'{M}formats/libarchive.py: LibarchiveFile, IterableArchive, IterableArchiveCache'),
                      ('blocks of SquashFS', f'{M}formats/squashfs.py: SquashFSFile')],
        'observe': ['results of read, seek, and tell of opened files'],
        'technique': 'over models of libarchive and SquashFS images',
    },
]

NOT_APPLICABLE = [
    {
        'id': 'P11',
        'title': 'Every supported compression is undone to exactly the original data',
        'statement': 'For every file in a supported compression or archive format that is read by a native library, the '
        'bytes returned are those that were compressed, from any position, and with any number of threads.',
        'quantifier': {'over': ['inputs'], 'text': 'every compressed file and every sequence of reads and seeks'},
        'why_tests_cant': 'Tests hold a few compressed files per format.',
        'anchors': {
            'files': [C + 'compressions.py'],
            'mechanism': [{'name': 'decompression backends', 'where': C + 'compressions.py: COMPRESSION_BACKENDS'}],
            'observe_at': ['bytes returned by the decompressed file object'],
            'hook_needed': None,
        },
        'reason': 'The decompressors (rapidgzip, indexed_bzip2, python-xz/lzma, indexed_zstd, libarchive, py7zr, rarfile) are '
        'compiled or third-party libraries without sources in this repository; there is no code here to execute symbolically. '
        'What the repository adds on top of them (block-parallel reading, detection, stored offsets) is P02, P14 and P16.',
    },
    {
        'id': 'P20',
        'title': 'Mounting and unmounting leave the mount point and processes in order',
        'statement': 'After the mount process has returned, the mount point shows the sources; unmounting or ending the '
        'process at any time removes the mount, all helper processes and temporary files.',
        'quantifier': {'over': ['schedules', 'crash_points'], 'text': 'every moment at which the process is ended'},
        'why_tests_cant': 'Tests mount and unmount at a few moments.',
        'anchors': {
            'files': ['ratarmount/FuseMount.py', 'ratarmount/cli.py'],
            'mechanism': [{'name': 'daemonizing and signals', 'where': 'ratarmount/cli.py'}],
            'observe_at': ['mount table and process table'],
            'hook_needed': None,
        },
        'reason': 'Decided by libfuse, the FUSE kernel module, fork and signal delivery, none of which can be encoded here. '
        'What the mount answers once it is there is P10, P12 and P24.',
    },
]
