ENUM = 'explicit-state enumeration of the real code against a reference model'
prop('P05', 'Length-prefixed strings and stream primitives round trip exactly',
 'Writing any string (or the absent string), boolean or counted array to a stream produces the documented byte layout, reports exactly the number of bytes produced, and reading it back yields the same value and stops exactly behind it. Truncated or hostile encodings are answered with an error, never with a crash or a wrong value.',
 ['inputs'], 'every string up to the supported length, every byte-level truncation or corruption of its encoding',
 'The unit tests decode a handful of fixed ASCII and wide strings; they do not check the reported size of wide strings, embedded NULs, surrogate pairs, or corrupted length fields.',
 ['unreal_helpers/src/read_ext.rs', 'unreal_helpers/src/write_ext.rs'],
 [('UnrealWriteExt::write_fstring', 'unreal_helpers/src/write_ext.rs'), ('UnrealReadExt::read_fstring / read_fstring_len', 'unreal_helpers/src/read_ext.rs')],
 ['bytes produced, size returned, value and stream position after reading'], ENUM,
 'All strings up to length 4 (5) over an 8-character alphabet covering every UTF-8/UTF-16 width, all truncations and byte substitutions for lengths up to 3; longer strings only at boundary lengths.', 'helpers')
prop('P06', 'GUID conversions are mutually inverse and parsing accepts only GUIDs',
 'Converting a GUID to bytes, four integers, one 128-bit integer, text, JSON or a stream and back always yields the same GUID, and its text is the canonical upper-case grouped form. Parsing accepts exactly GUID syntax and answers anything else with an error.',
 ['inputs'], 'every GUID value and every candidate text',
 'Tests convert a few constants; a swapped byte or an over-lenient parser only shows for specific values.',
 ['unreal_helpers/src/guid.rs'], [('From conversions, Display, FromStr, serde', 'unreal_helpers/src/guid.rs')],
 ['conversion results'], ENUM, 'Every byte value at every position on four backgrounds, all pairs of positions over an alphabet, and every single (and on the bare layout double) character edit of four textual layouts.', 'helpers')
prop('P07', 'Game paths resolve to exactly one content file path',
 'A path below the game root resolves to the same path below "<game>/Content/", with the default package extension appended exactly when the file name has none; every other path resolves to nothing. Game and path text is taken literally.',
 ['inputs'], 'every game name and path',
 'Tests use a few typical names; special characters in names, dotted directories and near-miss roots are not covered.',
 ['unreal_helpers/src/path.rs'], [('game_to_absolute', 'unreal_helpers/src/path.rs')], ['returned path'], ENUM,
 'All directory chains up to depth 2 (3) over 9 segments, 12 file names, 12 roots, 9 game names.', 'helpers')
prop('P08', 'A split package pair reads like one concatenated file',
 'Reading and seeking over a two-part file behaves in every respect like reading and seeking over the concatenation of both parts: same bytes, same positions, same end of file, same rejection of seeks before the start.',
 ['histories', 'inputs'], 'every sequence of reads and seeks over every pair of part lengths, including short reads of the underlying files',
 'Two tests perform a fixed read and a fixed list of seeks on one pair of buffers.',
 [B+'containers/chain.rs'], [('Chain Read/Seek implementation', B+'containers/chain.rs')], ['bytes and positions returned by read/seek'],
 'exhaustive operation-history exploration against a reference cursor',
 'All histories of length 4 (5) over 19-22 operations for all part lengths 0..=3 (4).', 'containers')
prop('P09', 'The insertion-ordered map agrees with its model after any history',
 'After any history of insertions, replacements, removals (by key, index or entry), in-place edits and copies, every accessor of the insertion-ordered map (by key, by index, iteration in both directions, entry access, length, equality) reports the same content in insertion order. Insertion indices of live entries are unique, ordered and never change.',
 ['histories'], 'every sequence of map operations',
 'The existing tests only insert and look up; no test removes an entry and continues using the map.',
 [B+'containers/indexed_map/mod.rs', B+'containers/indexed_map/entry.rs'],
 [('IndexedMap slab + three index structures kept in step', B+'containers/indexed_map/mod.rs'), ('Entry API', B+'containers/indexed_map/entry.rs')],
 ['all public accessors after every step'], 'exhaustive operation-history exploration against a reference model',
 'All histories of length 5 (6) over 18 operations and length 6 (7) over 11 operations, 4 keys.', 'containers')
prop('P10', 'Name tables stay consistent under any edit history; deep copies are independent',
 'After any history of adding, forcing duplicates, editing and looking up names, a lookup finds a name exactly when it is in the table and at a position that really holds it, and adding an existing name never grows the table. Names handed out keep denoting their table entry, equality follows entry and instance number, and a deep copy of a table shares nothing with the original.',
 ['histories'], 'every sequence of name table operations and copies',
 'Tests only touch name tables through whole-asset round trips; edits in place, duplicates and copies are never combined.',
 [B+'containers/name_map.rs', B+'containers/shared_resource.rs', B+'types/fname.rs'],
 [('NameMap list + lookup', B+'containers/name_map.rs'), ('SharedResource::clone_resource', B+'containers/shared_resource.rs'), ('FName equality and content', B+'types/fname.rs')],
 ['lookup results, name content, table content after every step'], 'exhaustive operation-history exploration against a reference model',
 'All histories of length 5 (6) over 14 operations; the 64-bit lookup hash is assumed collision-free.', 'containers')
prop('P20', 'Stored name hashes equal the reference hash of the name',
 'For every name the 32-bit pair of case-insensitive and case-preserving hashes, and the 64-bit hash of the lower-cased name, equal the values an independent implementation of those hash functions computes.',
 ['inputs'], 'every name',
 'One test compares a couple of names; a wrong table entry or case rule only shows for names that reach it.',
 [B+'crc.rs'], [('generate_hash, cityhash64_to_lower', B+'crc.rs')], ['hash values'], ENUM,
 'Every basic-plane character in three contexts, all names up to length 4 (5) over 16 characters, lengths up to 300 for three patterns; the third-party 64-bit city hash itself is trusted.', 'helpers')
prop('P24', 'Copying a bit range changes exactly the addressed bits',
 'Copying a number of bits from a source bit sequence at some offset into a destination range sets each addressed destination bit to the corresponding source bit (clear where the source ends) and changes nothing else.',
 ['inputs'], 'every destination, source, range and offset', 'One test copies one range.',
 ['unreal_helpers/src/bitvec_ext.rs'], [('set_range_from_range', 'unreal_helpers/src/bitvec_ext.rs')], ['destination bits'], ENUM,
 'All destinations up to 6 (8) bits, sources up to 5 (7) bits, all ranges and offsets.', 'helpers')
PK='unreal_pak/src/'
prop('P01', 'Archive round trip: every pak version returns exactly what was stored',
 'Whatever entries, contents, block size, mount point and compression choice are written to a pak of any writable version, the archive follows the published layout of that version and every reader (on-demand, iteration, in-memory) returns exactly the stored names, bytes and mount point. Archives laid out by an independent encoder, including the read-only versions, read back the same way; an unsupported configuration is refused.',
 ['inputs'], 'every version, entry set, content, block size, compression choice, mount point and transfer granularity of the underlying file',
 'The existing tests write a couple of small archives in a few versions and read them with the same code, so a symmetric layout error or a block-boundary error goes unnoticed.',
 [PK+'lib.rs', PK+'entry.rs', PK+'header.rs', PK+'index.rs', PK+'compression.rs', PK+'pakwriter.rs', PK+'pakreader.rs', PK+'pakmemory.rs'],
 [('write_entry/read_entry and header layout', PK+'entry.rs, '+PK+'header.rs'), ('index and footer layout', PK+'index.rs'), ('compression method table', PK+'compression.rs')],
 ['bytes of the finished archive, content returned by PakReader and PakMemory'], 'exhaustive enumeration of archives written and read by the real code against an independent encoder/decoder',
 'All ordered sets of up to two (and chosen three) entries over boundary lengths and contents for 10 writable versions, 12 readable versions; zlib itself trusted.', 'pak')
prop('P02', 'Damaged paks never take the reader down and damage stays local',
 'Reading any truncated or altered pak, or one whose file fails at any point, ends with content or an error within bounded memory and time - never a crash, hang or absurd allocation. Truncation or an I/O failure never yields wrong content for an entry, and damage inside one entry leaves the index and all other entries readable.',
 ['inputs', 'fault_sequences'], 'every truncation, byte or integer substitution and I/O failure point of an archive',
 'No existing test feeds a damaged archive to the reader.',
 [PK+'index.rs', PK+'entry.rs', PK+'header.rs', PK+'compression.rs', PK+'pakreader.rs', PK+'pakmemory.rs'],
 [('Index::read, Footer parsing', PK+'index.rs'), ('Header::read, read_entry', PK+'header.rs, '+PK+'entry.rs')],
 ['result of load_index, read_entry, iteration, PakMemory::load_from'], 'exhaustive fault enumeration (every truncation, substitution and I/O failure point) in isolated processes',
 'All single faults (every offset x all 256 values quick and thorough, 4/8-byte boundary integers at every offset) of 33 small archives; stored hashes are not required to be verified.', 'pak')
prop('P03', 'In-memory and streaming pak objects agree with a map model under any history',
 'After any history of setting, replacing, removing and looking up entries, writing out and loading again, an in-memory pak reports exactly the entries of a plain map, and the archive it writes contains exactly those. A streaming writer or reader reports and delivers the same content whatever the order and repetition of its operations.',
 ['histories'], 'every sequence of operations on the pak objects',
 'Tests perform one fixed set/write/read sequence.',
 [PK+'pakmemory.rs', PK+'pakwriter.rs', PK+'pakreader.rs'], [('PakMemory entry map', PK+'pakmemory.rs'), ('PakWriter, PakReader', PK+'pakwriter.rs, '+PK+'pakreader.rs')],
 ['accessor results after every step, archive content at the end'], 'exhaustive operation-history exploration against a reference map',
 'All histories up to the stated depth over a small alphabet of names and contents.', 'pak')
prop('P04', 'The pak tool packs and unpacks trees exactly and never writes outside its output',
 'Creating a pak from a directory and extracting it reproduces exactly the files of that directory, for every spelling of the arguments, whether or not the target existed before. Extraction never creates or changes a file outside the output directory whatever the entry names are, and a check, extraction or creation that does not succeed completely - a full disk, an input that is missing, unreadable or has a name a pak cannot hold, a target that cannot be created - ends with a failure status instead of a crash or an incomplete result reported as success. A pak is never packed into itself.',
 ['inputs'], 'every directory tree, argument spelling and archive content',
 'The tool has no tests.',
 ['unreal_pak_cli/src/main.rs'], [('Extract and Create commands', 'unreal_pak_cli/src/main.rs')],
 ['file system after the run, exit status'], 'exhaustive enumeration of trees, hostile entry names and damaged archives, executed by the real tool as an unprivileged user in scratch folders',
 'All trees of up to 4 (6) files over 4 contents; all archives of one or two of 20 hostile names; truncations of three archives; a disk that is full at every size; 31 circumstances of inputs and outputs. Backslashes in local file names are out of scope (they are separators).', 'pak')
A='unreal_asset/src/'
prop('P12', 'Package header and tables survive for every file version',
 'For every package layout version - object versions, UE5 versions, legacy file versions, versioned and unversioned files, one-file and two-file packages - the summary, name table, imports, exports, dependency lists, soft references, chunk ids, generations, world tile information and custom versions are read exactly as stored, and writing the package without changes reproduces both files byte for byte.',
 ['inputs', 'configurations'], 'every file version and every combination of table contents',
 'The repository has a handful of sample assets of a few engine versions; version-gated fields and optional tables outside of those samples are never exercised.',
 [A+'asset.rs', A+'asset_data.rs', A+'package_file_summary.rs', B+'object_version.rs', B+'types/fname.rs', 'unreal_asset/unreal_asset_base/src/containers/name_map.rs'],
 [('Asset::parse_header, parse_data', A+'asset.rs'), ('write_header, write_data, write_export_header', A+'asset.rs')],
 ['fields of the parsed Asset, bytes of the written .uasset and .uexp'],
 'exhaustive enumeration of packages laid out by an independent serializer over the version lattice with bounded deviations from a default package, read and written by the real code',
 'All object versions from 214 to 522 and UE5 versions up to 1009 around every layout gate; at most 1 (2) deviations from the default package in any combination of table contents, 2 for the versions at the gates.', 'asset')
PP='unreal_asset/unreal_asset_properties/src/'
prop('P13', 'Every property type keeps its value in every file version and nesting',
 'For every serialized property and native struct type, plain or nested in structs, arrays, sets and maps, and for every file version with its layout differences, the parsed value, name, duplication index, guid and type information are exactly what the file holds, reading adds nothing to the name table, and saving the unchanged asset gives back the same bytes. Types the library does not know are kept as raw bytes.',
 ['inputs', 'configurations'], 'every property type, nesting, value and file version',
 'The sample assets use a fraction of the property types in a few versions; whole property files are never executed by any test.',
 [PP+'lib.rs', PP+'array_property.rs', PP+'map_property.rs', PP+'set_property.rs', PP+'struct_property.rs', PP+'str_property.rs', PP+'int_property.rs', PP+'vector_property.rs', PP+'movies/', PP+'niagara/', PP+'slate_core/', PP+'game_framework/', PP+'material_input_property.rs', PP+'soft_path_property.rs'],
 [('Property::new, from_type, write', PP+'lib.rs'), ('each property reader/writer pair', PP+'*.rs')],
 ['property tree of the parsed export, bytes of the written package'],
 'exhaustive enumeration of property values laid out by an independent serializer over type shapes x versions with bounded deviations from a default value, read and written by the real code',
 'All property types and native structs, plain and nested once in struct, array, set and map; versions at every layout gate, with and without custom versions; at most 2 deviations from the default value (quick: 1 for containers of structs; thorough: 3 for plain values). Unversioned properties are not covered; engine-impossible combinations are left out.', 'asset')
X='unreal_asset/unreal_asset_exports/src/'
prop('P15', 'Every export kind keeps its data in every file version',
 'For each kind of export (normal, level, world, string table, data table with tagged or native rows, enum, function, struct, class, every reflected property kind) and every file version, the parsed export is of that kind and holds exactly the fields of the file, bytes behind what it understands are kept, a class declaration makes later maps of its declared struct types readable, reading adds nothing to the name table, and saving the unchanged asset gives back the same bytes - also for exports the library cannot represent (objects with a guid, absent strings).',
 ['inputs', 'configurations'], 'every export kind, field value, class alias, trailing data and file version',
 'The sample assets contain few kinds of exports, in two or three file versions, with ordinary values; version-gated branches and most reflected property types never run in the tests.',
 [X+'class_export.rs', X+'data_table_export.rs', X+'enum_export.rs', X+'function_export.rs', X+'level_export.rs', X+'normal_export.rs', X+'property_export.rs', X+'string_table_export.rs', X+'struct_export.rs', X+'user_defined_struct_export.rs', X+'world_export.rs', X+'raw_export.rs', X+'properties/fproperty.rs', X+'properties/uproperty.rs', A+'asset_data.rs'],
 [('read_export, read_export_no_raw', A+'asset_data.rs'), ('from_base / write of each export', X+'*.rs'), ('FProperty, UProperty', X+'properties/')],
 ['export variant and fields after parsing, bytes of the written package'],
 'exhaustive enumeration of exports laid out by an independent serializer over kinds x versions with bounded deviations from default fields, read and written by the real code',
 'All export kinds, 28 reflected property types, 18 FProperty types nested up to depth 2, versions at every gate of the object and custom versions, at most 2 (thorough 3 for small kinds) unusual fields. Bytecode is opaque here (P14 covers it).', 'asset')

K = 'unreal_asset/unreal_asset_kismet/src/'
prop('P14', 'Script bytecode is decoded exactly and saved with the same bytes and sizes',
 'For every script instruction, with any operands and any nesting of instructions, in every file version, the decoded expression tree holds exactly the operands of the file and saving the unchanged script gives back the same bytes, with the on-disk and the in-memory size of the code stored correctly. Code that is not a sequence of whole known instructions is kept as raw bytes; it never consumes data behind the code and never makes the asset unreadable.',
 ['inputs', 'configurations'], 'every instruction as every operand of every instruction, every operand form, every truncation',
 'The sample assets use a fraction of the instruction set; the recomputed in-memory size of rarely used instructions and alternative operand forms (property paths, text literals, switch tables, containers) are never compared.',
 [K+'lib.rs', X+'struct_export.rs'],
 [('KismetExpression::new / write of every instruction', K+'lib.rs'), ('StructExport::read_bytecode / write', X+'struct_export.rs')],
 ['expression tree, stored sizes and bytes of the written package'],
 'exhaustive enumeration of instruction trees laid out by an independent serializer, read and written by the real code',
 'All 95 instructions as statement with every instruction as every operand (3 levels), list lengths 0..4, at most 1 unusual operand over 9 file versions and 2 over 3 versions (thorough: all versions); every unknown opcode and every truncation kept as bytes; in functions, classes and structs.', 'asset')
R = 'unreal_asset/unreal_asset_registry/src/'
prop('P17', 'The asset registry is read exactly and saved back, edited or not',
 'For every supported asset registry version, assets with their tags and chunks, dependency nodes with all kinds of dependencies and flags, package data and the name table are read exactly as stored (names with their numbers, duplicate table entries included), and writing the registry gives back the same bytes; after adding or removing assets it gives exactly the registry with that change. Tag stores are decoded exactly. A damaged registry is refused with an error or read, never a crash or exhausted memory.',
 ['inputs', 'histories', 'configurations'], 'every registry content, version, edit and single damage',
 'The only test round trips one registry file of one version without checking dependencies, flags or package data.',
 [R+'lib.rs', R+'name_table_reader.rs', R+'name_table_writer.rs', R+'objects/asset_data.rs', R+'objects/asset_package_data.rs', R+'objects/depends_node.rs', R+'objects/md5_hash.rs', R+'objects/store.rs'],
 [('AssetRegistryState::new / write', R+'lib.rs'), ('DependsNode', R+'objects/depends_node.rs'), ('Store::new', R+'objects/store.rs')],
 ['fields of AssetRegistryState, written bytes'],
 'exhaustive enumeration of registries laid out by an independent serializer with bounded deviations from a default registry, read, edited and written by the real code; exhaustive damage enumeration in isolated processes',
 'Registry versions 4..14, name tables with and without hashes, 0..2 assets, 0..3 nodes with all dependency subsets and flag sets, 0..2 packages, at most 3 (4) unusual fields; dependency lists in index order; from the FixedTags version on the layout is the one the library reads.', 'registry')
prop('P22', 'A damaged package is refused or read, never fatal',
 'Whatever a package file is damaged by - cut anywhere, any byte or word replaced, in the .uasset or the .uexp - opening it ends with an asset or an error, and saving or rebuilding the names of an asset that could be opened ends with a result or an error: never a panic, an endless loop or memory exhaustion.',
 ['inputs', 'fault_sequences'], 'every damage of every package',
 'Tests only read intact sample assets.',
 [A+'asset.rs', A+'asset_data.rs', PP+'lib.rs', X+'base_export.rs', X+'struct_export.rs', K+'lib.rs', B+'reader/archive_reader.rs', B+'reader/raw_reader.rs'],
 [('Asset::new', A+'asset.rs'), ('ArchiveReader::read_array_with_length, read_bytes', B+'reader/archive_reader.rs'), ('Property::new', PP+'lib.rs')],
 ['result of Asset::new, write_data and rebuild_name_map'],
 'exhaustive fault enumeration (every truncation and substitution of a package of every kind) on the real code in isolated processes with a memory and progress limit',
 'One damage at a time: every truncation, every byte set to 6 values and every 4 bytes to 5 values in a package of each property shape, export kind, instruction and table layout in 3 file versions (quick: the tables of every 40th package).', 'asset')
prop('P23', 'Exports and names can be moved between assets',
 'Exports and imports copied from one asset into another and followed by rebuilding the name map behave like they were read from the receiving asset: whatever its name table holds, every name keeps its text and number, nothing of the donor is referenced any more, and saving gives exactly the package with that content and the resulting name table.',
 ['inputs', 'histories'], 'every name-carrying field of every property, export and instruction, every relation of both name tables',
 'One test copies one export between two sample assets; a field whose names are not visited stays tied to the wrong table silently.',
 [A+'asset.rs', 'unreal_asset/unreal_asset_base/src/types/fname.rs', B+'containers/name_map.rs', B+'containers/shared_resource.rs', 'unreal_asset/unreal_asset_proc_macro/src/lib.rs'],
 [('Asset::rebuild_name_map', A+'asset.rs'), ('FNameContainer derive', 'unreal_asset/unreal_asset_proc_macro/src/lib.rs'), ('NameMap', B+'containers/name_map.rs')],
 ['bytes of the written package'],
 'exhaustive enumeration of donor contents x name table relations, transplanted by the real code and compared with an independent serializer',
 'Every property shape, export kind and instruction with all single deviations (names), three relations of the name tables (disjoint, shuffled superset, equal), several file versions.', 'asset')
prop('P18', 'The Ace Combat 7 cipher is exact and reversible',
 'For every asset name and every pair of files, encrypting and decrypting apply the key stream that belongs to the name (whatever its case), running on from the .uasset into the .uexp and around the end of the key table, replace the four magic bytes, keep all lengths and undo each other exactly, also for empty and very short files.',
 ['inputs'], 'every name, file length and content',
 'One sample asset is decrypted and encrypted again, which any self-inverse key stream satisfies; the wrap around, short files and other names never occur.',
 [A+'ac7.rs'], [('AC7XorKey, encrypt, decrypt', A+'ac7.rs')], ['bytes returned'],
 ENUM, 'All names up to length 4 (5) over 7 characters, every ASCII character, growing names up to length 80; file lengths 0..9 and around the table period; every split of short data. ASCII names, plus names with letters of other alphabets in both cases.', 'misc')
prop('P19', 'Mod metadata is read exactly, upgraded, compared and written consistently',
 'A metadata document of schema version 1 (or without one) or 2 is read into exactly its fields, version 1 fields being moved to their version 2 place; any other schema version or an invalid document is refused with an error, never a crash. Metadata is equal exactly when its content is equal, equal metadata has equal hashes whatever the order of map entries, and serialized metadata reads back equal.',
 ['inputs'], 'every document over the fields, value types and notations',
 'Seven tests parse small well-formed documents without integrator data; malformed versions and comparisons of nested values never run.',
 ['unreal_mod_metadata/src/lib.rs', 'unreal_mod_metadata/src/v1.rs', 'unreal_mod_metadata/src/v2.rs'],
 [('from_slice', 'unreal_mod_metadata/src/lib.rs'), ('v1::Metadata::to_v2', 'unreal_mod_metadata/src/v1.rs'), ('Metadata PartialEq, Hash, Deserialize', 'unreal_mod_metadata/src/v2.rs')],
 ['parsed fields, equality, hash, serialized text'], ENUM,
 'All documents with at most 3 (4) unusual fields; all pairs of documents with one unusual field; every truncation and byte replacement of two documents. Null in place of maps and duplicate keys are not decided.', 'misc')
prop('P21', 'An engine version stands for the formats of that release',
 'Each engine release maps to the object versions and default custom versions it was published with, unversioned packages opened with an engine version are read and written in exactly these formats, and guessing the engine version of a file from its versions yields a release whose formats are those of the file, or unknown when there is none.',
 ['configurations', 'inputs'], 'every engine release, every combination of object and custom versions',
 'Tests open versioned assets of a few releases; a wrong table entry only shows for unversioned assets of one particular release and type.',
 [B+'engine_version.rs', B+'custom_version.rs', B+'object_version.rs', A+'asset_data.rs'],
 [('get_object_versions, guess_engine_version', B+'engine_version.rs'), ('get_default_custom_version_container', B+'custom_version.rs'), ('set_engine_version', A+'asset_data.rs')],
 ['returned versions, content and bytes of unversioned packages'],
 'exhaustive enumeration of releases, version combinations and unversioned packages laid out by an independent serializer',
 'All 31 releases; all subsets of their custom versions; all known object version pairs with at most 1 (2) custom versions of any number; every property shape, export kind and instruction with at most 1 (2) unusual values.', 'asset')

I = 'unreal_mod_integrator/src/'
prop('P25', 'Integrating mods yields exactly the pak that belongs to these mods',
 'For every set of mods (pak files, baked mods of the game configuration, dynamic mods) an integration that succeeds leaves in the output folder exactly the baked mods that take part and one integrator pak: a table of mods with one row per mod that takes part holding its metadata, the static data with the integrator version and the connection setting, the fixed integrator assets, and what dynamic mods and handlers added; each handler and dynamic mod runs once with the data and paks of exactly the mods that take part. Core baked mods always take part, others when a mod of their id was requested, none twice. Without mods nothing is generated. When a mod or game pak is unreadable, a mod file is missing, metadata is missing or invalid, a handler fails or there is no game, the integration ends with an error and leaves an earlier integrator pak untouched; if any call to the disk fails, the integration does not claim to have succeeded with less. Mods and game files are never changed.',
 ['inputs', 'configurations', 'fault_sequences'], 'every set of mods, metadata, configuration and fault',
 'The crate has no tests for it; whether a mod appears once, with its own data and in the right order depends on combinations of mod kinds, baked mods and handlers.',
 [I+'lib.rs', I+'helpers.rs', I+'assets.rs'],
 [('integrate_mods', I+'lib.rs'), ('bake_mod_data, bake_integrator_data', I+'lib.rs'), ('write_asset', I+'helpers.rs')],
 ['files of the output folder and entries of the generated pak, calls of handlers and dynamic mods, result'],
 'exhaustive enumeration of configurations and single faults around the real integrate_mods; the generated pak compared with an independent serializer of its assets',
 'Every run with at most 2 (3) unusual choices over up to five mods, their metadata, handlers, game paks, an earlier pak and nine faults; for runs with at most 1 (2) unusual choices also a failed or partial call at every call to the disk. Starter assets are synthetic packages of the same shape (the real ones are downloaded at build time). Distinct mod ids.', 'integrate')
prop('P26', 'Persistent actors end up in the maps with all their components',
 'For every map that mods ask for and every persistent actor, the integrated pak holds that map, found in the mods before the game, with its former content untouched plus, for each actor in the order asked for, an actor object in the level with class and default object of the actor blueprint and one component object for each node of its construction script: named like the node with its number, of the class of the node, attached to the component of the parent node, listed by the actor and by name, the default scene root as root. Requests that cannot be satisfied (missing map or actor, malformed list, damaged construction script) end with an error and no pak is written.',
 ['inputs', 'configurations'], 'every map, actor, component tree, place of the files and request',
 'The integrator has no tests; the components depend on how import tables of map and actor relate, which ordinary maps hide.',
 [I+'handlers/ue4_23/persistent_actors.rs', I+'helpers.rs', I+'lib.rs', A+'asset.rs'],
 [('handle_persistent_actors', I+'handlers/ue4_23/persistent_actors.rs'), ('get_asset, find_asset', I+'helpers.rs')],
 ['maps in the generated pak, result of integrate_mods'],
 'exhaustive enumeration of maps, actors, construction scripts and requests around the real integrate_mods; the resulting map checked object by object against a model of the scene',
 'Every integration with at most 3 (4) unusual choices: up to two maps and two actors in two game and two mod paks, up to three components per actor in every parent relation, existing imports, eight unreadable requests. Actors named by package path (the dotted form is not decided).', 'integrate')
prop('P11', 'Edits of an asset are exactly what is saved',
 'After any sequence of edits of an opened asset - adding, removing, reordering and copying objects, imports, properties, table rows and names, changing values and fields, growing and shrinking contents, removing everything, saving or reopening in between, rebuilding the name map - saving gives exactly the package with that content: all offsets, counts, sizes and names fit the new content, nothing else changed, and undoing an edit restores the original bytes. Lookups (imports by name, names, objects) answer for the current content throughout.',
 ['histories', 'inputs'], 'every sequence of edits of every asset',
 'Tests change at most one value and read the file again with the same code, so stale counts, offsets or indices that it tolerates stay unseen.',
 [A+'asset.rs', A+'asset_data.rs', B+'containers/name_map.rs', X+'base_export.rs', X+'data_table_export.rs'],
 [('Asset::write_data', A+'asset.rs'), ('add_import, find_import, add_fname, add_name_reference, rebuild_name_map', A+'asset.rs'), ('AssetData::write', A+'asset_data.rs')],
 ['bytes of the written package, results of lookups'],
 'exhaustive enumeration of edit histories to a bound on the real code, every saved package compared with a model laid out by an independent serializer; exhaustive single edits of real packages with undo',
 'All histories of up to 3 (4) of 32 edits from a package with three objects in two file versions, 2 (3) in two more, one less with a shuffled name table; every single removal and duplication of a property or object of 17 (all) real packages of 15 games below 200 kB.', 'asset')
prop('P27', 'Slow and failing streams lose nothing silently',
 'Opening and saving a package gives the same result however the underlying streams split or interrupt their reads and writes. When a read, write or seek fails, once or for good, saving reports an error, and opening reports an error or yields an asset that still holds and saves the complete package: an I/O failure never goes unnoticed as missing or different content, and never panics.',
 ['fault_sequences', 'inputs'], 'every package, every call of the streams and kind of failure',
 'Tests use in-memory cursors which never fail, split or interrupt.',
 [A+'asset.rs', A+'asset_data.rs', B+'containers/chain.rs', B+'reader/raw_reader.rs', B+'reader/raw_writer.rs', PP+'lib.rs', X+'struct_export.rs', K+'lib.rs'],
 [('Asset::new, write_data', A+'asset.rs'), ('Chain', B+'containers/chain.rs'), ('RawReader, RawWriter', B+'reader/raw_writer.rs')],
 ['result of Asset::new and write_data, bytes written'],
 'exhaustive fault injection: every call of the streams under the real reader and writer fails, in turn, in three ways',
 'A package of each property shape, export kind, instruction and table layout in 3 file versions; each single read, write or seek interrupted, failing once, or failing from then on; one byte per call. Asking for the position of a stream does not fail.', 'asset')
U=B+'unversioned/'
prop('P16', 'Mapping files say what is looked up',
 'Every well-formed .usmap mapping file, of any version, compression method (none, Brotli, Zstandard) and extension, is loaded as exactly the names, enums, versions, schemas, properties and module paths it contains. Looking a property up by name and array element below a chain of parents finds the element of the most derived schema that has it, with its number counted over the inheritance chain, or nothing; listing a schema\'s properties gives its own and all inherited ones. Files that are cut short, damaged, cyclic or not mapping files give an error or a usable result, and never panic or hang.',
 ['inputs', 'histories'], 'every mapping file and every lookup',
 'No test loads a mapping file.',
 [U+'mod.rs', U+'usmap_reader.rs', U+'ancestry.rs', U+'properties/mod.rs'],
 [('Usmap::parse_data, get_property_with_duplication_index, get_all_properties', U+'mod.rs'), ('UsmapProperty', U+'properties/mod.rs'), ('Ancestry', U+'ancestry.rs')],
 ['fields of Usmap, results of its lookups'],
 ENUM+' against an independent writer and lookup model of the format',
 'All files with at most 3 (4) unusual choices, all types of depth 1 over 25 leaves and of depth 2 over 3, all parent assignments of three schemas; every cut and 8 replacements of every byte of 4 files. Reading packages with unversioned properties is unfinished upstream and not covered.', 'misc')
D='unreal_mod_manager/src/mod_processing/dependencies.rs'
prop('P28', 'Dependencies are resolved by what mods require',
 'In the mod manager\'s dependency graph, for every history of mods with versions and dependencies being added: every dependency of the added mods is named with a requirement that accepts a release version exactly if all its dependents\' requirements do, and with all their download locations once each; validation gives each known mod either the newest of its own versions acceptable to all dependents, if there is one, or one warning naming the dependents and their requirements; the dependents of a mod are exactly the mods that require it. Cycles, self references and any number of dependents are handled without panic.',
 ['histories', 'inputs'], 'every history of additions',
 'There are no tests of the mod manager.',
 [D], [('DependencyGraph::add_mods, validate_graph, find_mod_dependents', D)],
 ['results of add_mods, validate_graph, find_mod_dependents, find_mod_dependents_with_version'],
 'exhaustive enumeration of histories of additions to the real graph against a set-based model',
 'All two-step histories over 3 (5) requirements, 2 locations, 5 version sets; small sets to 3 (4) steps; combinations of 7 requirements in 4 shapes; up to 200 dependents.', 'manager')

W='unreal_mod_manager/src/'
prop('P29', 'The list of mods is what the files and index files say',
 'For every content of the mods folder and every history of imports and removals, the mod manager lists exactly the mods of well-formed files (000-ModId.author-1.2.3_P.pak with matching metadata), with each version, file name and metadata; a mod that follows the latest version follows the newest one, or the latest one its index file names; the shown fields are those of the selected version. Every malformed file, name, version, metadata or index file, and every failed download, gives one warning about that file or mod and changes nothing else: broken and interrupted imports leave no file behind, importing a file that already lies in the mods folder does not harm it, removal deletes exactly the files of the mod, a version chosen by the user meanwhile stays chosen, and the background thread neither panics nor stays busy.',
 ['inputs', 'histories', 'schedules'], 'every folder, history of imports and removals, answer of the server and moment of a user action',
 'There are no tests of the mod manager.',
 [W+'mod_processing/mod.rs', W+'mod_processing/pakfile_reading.rs', W+'mod_processing/verify.rs', W+'mod_processing/version_handling.rs', W+'mod_processing/index_file.rs', W+'background_work.rs'],
 [('process_modfiles', W+'mod_processing/mod.rs'), ('read_pak_files', W+'mod_processing/pakfile_reading.rs'), ('insert_index_file_data', W+'mod_processing/index_file.rs'), ('background_work', W+'background_work.rs')],
 ['game_mods and warnings of the application data, files in the mods folder, busy flag'],
 'exhaustive enumeration of folders, histories and server answers on the real background thread, with a user action at every lock, against a model of the list',
 'All pairs of 42 start files followed by every import; all histories of up to 3 of 28 imports and removals from a folder of 3 files, up to 2 (3) from 2 others; index files that change and files that disappear at any moment; 18 kinds of answers of a loopback server; 60 histories with a user action at every moment the data is not held; imports of files from the mods folder itself and of paths without a file name; a stop, failure or partial write at every call to the disk of an import.', 'worker')
prop('P30', 'Settings are loaded, kept and never lost halfway',
 'The mod manager starts with exactly what its settings file says: enabled mods, chosen versions that still exist (otherwise the latest), trusted hashes, profiles of both formats, connection flag, and platform (or Steam, or the first existing one, if it is not there). What the user changes is there after a restart. A settings file that is missing, cut short or not readable starts with defaults, and one with any damage neither stops the manager nor hides installed mods. If the process stops at any point while settings are saved, or any call to the disk fails, the next start has the old or the new settings completely.',
 ['inputs', 'histories', 'crash_points'], 'every settings file, history of changes and point of interruption',
 'There are no tests of the mod manager.',
 [W+'mod_config.rs', W+'profile.rs', W+'lib.rs'],
 [('load_config, write_config', W+'mod_config.rs'), ('parse_profile_config', W+'profile.rs'), ('ModLoaderAppData::set_game_platform', W+'lib.rs')],
 ['application data after a start, files in the mods folder'],
 'exhaustive enumeration of settings files, edit histories and crash points (every disk call of the real code cut after every byte or failing), each followed by a restart of the real background thread',
 'All files with at most 3 (4) unusual choices; all histories of up to 3 (4) of 12 user actions; every cut and 8 replacements of every byte of a file; saves over other settings interrupted at every call and byte, and failing with 4 errors at every call.', 'worker')
prop('P31', 'Integrating installs the enabled mods with their dependencies and nothing else',
 'After the mod manager integrates, the paks folder of the game holds exactly the complete file of the selected version of every enabled mod, of the newest matching version of every dependency (downloaded, listed, enabled and selected if necessary, transitively, also when mods depend on each other), the baked mods they need and the pak generated from these mods in the order of their priorities, and nothing from before; integrating again after a restart gives the same. A dependency that cannot be had, an index file or download that is wrong, incomplete or refused each gives a warning; a selected version that cannot be had marks the integration as failed. Mods with native code whose files the user has not trusted are listed with their hashes. Whatever the server sends, and wherever the process is stopped, downloads never write outside the mods folder, over another mod, or leave an incomplete mod file; the background thread neither panics, hangs nor stays busy.',
 ['inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences'], 'every set of mods, dependencies, answers of the server, history of messages, moment of a user action and point of interruption',
 'There are no tests of the mod manager.',
 [W+'background_work.rs', W+'mod_processing/dependencies.rs', W+'mod_processing/index_file.rs', W+'mod_processing/verify.rs'],
 [('background_work (Integrate), download_mod, download_mods', W+'background_work.rs'), ('DependencyGraph', W+'mod_processing/dependencies.rs'), ('download_index_file', W+'mod_processing/index_file.rs'), ('verify_mod_file_name', W+'mod_processing/verify.rs')],
 ['files in the paks and mods folders, entries of the generated pak, mod list, warnings, failed and busy flags, untrusted mods'],
 'exhaustive enumeration of dependency graphs, server answers, histories, user actions at every lock and crash points on the real background thread with a loopback server, against a least-fixpoint model of the installation and a direct call of the integrator',
 '13440 dependency graphs over 4 mods; 10 answers for a file x 7 file names x 6 answers for an index file; selected versions that are not downloaded; 64 sets of consents; 5 broken environments; histories of up to 3 (5) of 7 messages; user actions at every moment; a stop or an error at every disk call of an integration that downloads.', 'worker')
prop('P32', 'The game starts with the native code of the installed mods and no other',
 'When the mod manager integrates mods of which some bring native libraries, the loader\'s folder afterwards holds exactly the libraries that the installed mods declare below /Game/, with their bytes, under their file names, and nothing from before; declarations that are not below /Game/ are ignored. When the game is then started, the loader, its proxy, the game\'s loader settings as JSON with the names the loader reads, and under Proton the registered override are in place before the game is; if no installed mod has native code, an integration leaves neither loader nor proxy in the game\'s folder, however they came there. Whatever a pak declares, nothing outside the loader\'s folder is written or removed while extracting; a missing or unusable library, damaged metadata, a broken pak or a missing folder is reported, a preparation that fails, at whichever call to the disk, is reported and the game is not started, and nothing panics.',
 ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every set of paks, declarations, loader settings, history of integrations, removals, imports, restarts and starts',
 'There are no tests of the native loader support; it does not even build without the network.',
 ['unreal_cpp_bootstrapper/src/lib.rs', 'unreal_cpp_bootstrapper/src/config.rs', W+'background_work.rs', W+'game_platform_managers/mod.rs', W+'game_platform_managers/proton.rs', W+'game_platform_managers/steam.rs', W+'game_path_helpers.rs'],
 [('bootstrap', 'unreal_cpp_bootstrapper/src/lib.rs'), ('GameSettings', 'unreal_cpp_bootstrapper/src/config.rs'), ('background_work (Integrate, LaunchGame)', W+'background_work.rs'), ('CppLoaderInstallExtension for ProtonInstallManager', W+'game_platform_managers/proton.rs'), ('write_loader_dll, write_proxy_dll, remove_dlls', W+'game_platform_managers/mod.rs')],
 ['files in the loader\'s folder, the game\'s program folder and the wine prefix at the moment the game is started, warnings'],
 'exhaustive enumeration of paks, declarations, settings and histories of messages on the real background thread and platform code, with recording stand-ins for Steam, wine and the start of the game',
 'All mods with up to 2 of 12 kinds of declared libraries, alone in 4 states of the folder and in pairs; 768 loader settings; all histories of up to 4 (5) steps from 32 sets of enabled mods on Proton, up to 2 on Steam; 5 faults; a failed or partial call at every call to the disk of an integration and start.', 'worker')
prop('P33', 'A release asset is downloaded completely or the download fails',
 'Downloading an asset of a GitHub release reports success only if the server answered with success, possibly after redirects, and the file then holds exactly the bytes it sent; an error status, an answer that ends early, no answer, and any failure to write the file are reported as errors. The list of assets of a release is read completely, whatever else the document contains.',
 ['inputs', 'fault_sequences'], 'every answer of the server, size, and failing write',
 'There are no tests of the GitHub helpers.',
 ['github_helpers/src/lib.rs'],
 [('ReleaseAsset::download', 'github_helpers/src/lib.rs'), ('Release', 'github_helpers/src/lib.rs')],
 ['result of the download, content of the file'],
 'exhaustive enumeration of server answers, sizes and failing writes on the real code with a loopback server and an interposed disk',
 '57 kinds of replies (statuses, redirects, cuts, chunked and unframed bodies) x 8 (16) sizes, read-only files, an error at every write; lists of up to 4 assets.', 'worker')
prop('P34', 'A mapping file helps to read a package and never harms it',
 'Opening a package together with a mapping file (usmap): everything that can be read without it is read the same; maps of structs whose types only the mapping declares (in the class, a base class or a struct inside) become readable; of an unversioned package the custom versions and the UE5 version are those of the mapping, while a versioned package keeps its own. A package with unversioned properties opens with any mapping, missing, contradicting or cyclic, keeps its objects and name table, and saves as the same bytes; unversioned headers are read exactly and written back. No combination panics, hangs or exhausts memory.',
 ['inputs', 'configurations'], 'every package, version and mapping',
 'No test opens a package with mappings.',
 ['unreal_asset/src/asset.rs', 'unreal_asset/unreal_asset_properties/src/lib.rs', 'unreal_asset/unreal_asset_base/src/unversioned/header.rs', 'unreal_asset/unreal_asset_base/src/unversioned/ancestry.rs', 'unreal_asset/unreal_asset_base/src/reader/archive_reader.rs', 'unreal_asset/unreal_asset_properties/src/map_property.rs'],
 [('Asset::parse_data', 'unreal_asset/src/asset.rs'), ('Property::new', 'unreal_asset/unreal_asset_properties/src/lib.rs'), ('UnversionedHeader::new, write', 'unreal_asset/unreal_asset_base/src/unversioned/header.rs'), ('MapProperty::new', 'unreal_asset/unreal_asset_properties/src/map_property.rs')],
 ['decoded values, name table and saved bytes of the package, with and without the mapping'],
 'exhaustive enumeration of packages, versions and mapping files on the real code, against the description each package was generated from',
 'Every property shape x 11 versions x up to 5 mappings; every struct type in maps declared in 3 places; every custom version from the mapping for unversioned packages; headers of up to 3 fragments; packages declared unversioned x 1 (2) fragments, payloads and mappings.', 'asset')
prop('P35', 'The mod manager survives failed starts and updates and ends in order',
 'Whatever goes wrong at the start (no base folder, a file in the way of the mods folder) or during an update of the program (the update fails, the new program cannot be started), the background thread does not panic: the failure is shown as an error or one warning, messages that come later are carried out as usual, and the thread ends only when it is told to, when nobody can send messages any more, or when the updated program has been started once in its place - and then says so, so that the window can close. An update is only begun while one is known, its progress is shown in percent, and nothing in the way is overwritten.',
 ['histories', 'fault_sequences'], 'every history of messages and outcome of an update, from every failing start',
 'There are no tests of the mod manager.',
 [W+'background_work.rs'], [('background_work (startup, UpdateApp, Exit)', W+'background_work.rs')],
 ['end of the thread, exit and busy flags, error, warnings, mod list, files, started programs, progress'],
 'exhaustive enumeration of histories of messages on the real background thread, with recorded instead of real program starts, against a model of the thread',
 '5 starts x update known or not x all histories of up to 4 (5) of 9 messages (one less after a failed start).', 'worker')
