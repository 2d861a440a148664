#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

OBJ, NV, INV, VAL, IV, SR, FSW = ("ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py", "ocfl/validator.py",
    "ocfl/inventory_validator.py", "ocfl/storage_root.py", "ocfl/fsw.py")

p("C01", "Every version ever committed reads back exactly as it was given",
  "Whatever sequence of successful creates, builds, updates and edit sessions produced an object, extracting any of its versions at any later time yields exactly the logical paths and bytes that version was given, no more and no less, and reports the identifier, created time, message and user recorded for it. Extracting one file of a version yields exactly that file's bytes. This holds for every file name, size, duplication pattern, digest algorithm and object setting.",
  ["inputs", "histories", "configurations"], "all histories of create/build/update/edit over all source trees, settings and storage backends",
  "The tests extract a handful of fixture objects (most fixtures are absent here) and never compare a whole generated history, chunk-boundary sizes, name collisions or setting changes between versions.",
  [OBJ, NV, INV, FSW, "ocfl/digest.py"],
  [("write_new_version / create / build copy the content and write the inventories", OBJ), ("add(): state and manifest bookkeeping", NV), ("extract(): state -> manifest -> file copy", OBJ), ("fsw_copyfile chunk loop", FSW)],
  [("manifest", "digest -> content files", "inventory.json"), ("state", "digest -> logical paths for one version", "inventory.json")],
  ["Object.extract", "Object.extract_file"])

p("C02", "Every successful write leaves a conforming OCFL object",
  "Whenever create, build, an update or an edit session reports success, the stored object conforms to the OCFL specification version it declares: declaration, root and version inventories, sidecars, digests, manifest, content files and version sequence all agree. This holds under every supported combination of settings and however the object was produced, including objects first written by other software, and the library's own validation accepts the result. Without faults, such an operation on a valid object does succeed.",
  ["inputs", "histories", "configurations"], "all histories and settings, starting both from nothing and from foreign valid objects",
  "Tests check a few fixed inventories; combinations such as spec 1.0 updates, digest changes, repeated sources, uppercase digests or zero padded versions are not sampled.",
  [OBJ, NV, INV, "ocfl/namaste.py", "ocfl/digest.py"],
  [("inventory construction", INV), ("write_inventory_and_sidecar", OBJ), ("object declaration", OBJ), ("next_version spec version handling", NV)],
  [], ["stored object tree after the operation"])

p("C03", "An update never alters what earlier versions stored",
  "Adding a version to an object never changes, moves or removes any file inside the directories of earlier versions, and never changes what the object records about an earlier version: its logical files, their content, its created time, message and user, nor the object's identifier and content directory name. A new version's files all live inside the new version's own directory.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all update histories, setting changes, and failures of the update",
  "Immutability has to hold for every history and also when an update fails; tests only look at the result of single updates.",
  [OBJ, NV, INV], [("write_new_version writes only head dir and root files", OBJ), ("add_version / deepcopy of state", INV)],
  [], ["file tree before/after each operation", "versions block of root inventory"])

p("C04", "No operation reports success when an I/O error made its result wrong",
  "If the storage fails a read, write, open, close, listing, directory creation or removal, or runs out of space, during a create, build, update, extract, bagging, root initialization or add-to-root, then either the operation reports failure or everything it was meant to produce is completely and correctly there. Short reads, short writes and arbitrary directory listing order never change a result.",
  ["fault_sequences", "inputs", "configurations"], "every failing system call at every point of every operation, alone or as a persistent condition such as a full disk",
  "The tests inject no I/O faults at all.",
  [OBJ, FSW, SR, "ocfl/digest.py", "ocfl/bagger.py", "ocfl/namaste.py"], [("exceptions propagate from fsw copies and opens", FSW), ("with-blocks close files and surface late write errors", OBJ)],
  [], ["return value / exception of the operation versus stored result"])

p("C05", "Committed versions survive an interrupted update",
  "If an update is interrupted at any point, by a process kill, a loss of power or a failing system call, the content of every previously committed version is still stored byte for byte, and storage still holds at least one intact inventory, matching its own sidecar, that describes all of those versions. Recovery therefore never depends on the interrupted update finishing.",
  ["crash_points", "fault_sequences", "histories"], "every point at which an update can stop, in every object history",
  "Tests never stop an update half way.",
  [OBJ, NV], [("new version inventory and sidecar are written before the root inventory is replaced", OBJ), ("per-version inventory copies", OBJ)],
  [], ["raw storage after the crash"])

p("C06", "Unfinished work never passes validation",
  "After a create, build, update or add-to-root stopped at any point or failed with an error, full validation of the object passes only if the stored object holds either exactly all versions that were committed before or exactly those plus the complete new ones. A half-written version, inventory, sidecar or content file is never accepted as valid.",
  ["crash_points", "fault_sequences"], "every interruption point and torn write of every writing operation",
  "Tests only validate prepared fixtures, never the intermediate states the library itself can leave behind.",
  [OBJ, VAL, SR], [("root inventory and sidecar written last in updates", OBJ), ("validator root structure, sidecar and content checks", VAL)],
  [], ["Object.validate on the post-crash tree"])

p("C07", "Working on after an interruption never builds on leftovers",
  "After a process was killed or an I/O error stopped a create, update or add-to-root at any point, a later update or retry of the same operation either refuses, leaving storage exactly as it found it, or completes and yields a valid object whose versions are all exactly right. It never reports success while including, skipping over or damaging partial data left by the earlier attempt.",
  ["crash_points", "fault_sequences", "histories"], "every interruption point followed by every follow-up operation",
  "Needs crash, restart and retry sequences; tests have none.",
  [OBJ, VAL, SR, FSW], [("validation before starting a new version", OBJ), ("existence checks before add / initialize", SR)],
  [], ["follow-up operation outcome and final tree"])

p("C08", "Creating, extracting and adding never overwrite what already exists",
  "Creating or building an object at a path that already holds something, extracting into a directory that is not empty, extracting a single file over an existing file, initializing a storage root where something exists, adding an object at a path already taken, and adding a logical or content path a new version already has, are all refused with an error. A refused operation leaves everything that existed before unchanged.",
  ["inputs", "histories", "configurations"], "all kinds of pre-existing targets and all operations that create things",
  "Tests sample few collisions, and none for object creation or single file extraction.",
  [OBJ, SR, FSW, NV], [("fsw_openfs create/exists_ok", FSW), ("extract destination checks", OBJ), ("initialize / add existence checks", SR), ("add() path checks", NV)],
  [], ["exception raised and tree before/after"])

p("C09", "Racing writers: one wins, the others do no harm",
  "If several writers start a new version from the same state of an object and then write at the same time, in any interleaving, exactly one succeeds when nothing fails, every other one reports an error, and the final object is valid and equals the old object plus the winner's version alone. Likewise, when several writers concurrently create an object, initialize a storage root, or add an object at the same place, at most one succeeds and what it wrote is intact. (Storage where directory creation is atomic; other kinds offer nothing to exclude a second writer.)",
  ["schedules", "histories"], "all interleavings of the writers' storage operations",
  "No test runs two writers at once.",
  [OBJ, FSW, SR], [("creation of the new version directory as the commit lock", OBJ), ("directory creation in fsw_openfs and initialize", FSW)],
  [], ["outcomes of all writers and final tree"])

p("C10", "Readers running during an update never get wrong data",
  "While another process is updating an object, extracting or listing any already committed version either yields exactly that version's files, bytes and metadata or fails with an error. A reader never receives mixed, truncated or foreign content presented as success.",
  ["schedules", "crash_points"], "all interleavings of readers with one writer, including a writer that dies",
  "No test reads while another client writes.",
  [OBJ, FSW], [("content files are never modified after being committed", OBJ), ("inventory parse and validation before use", OBJ)],
  [], ["Object.extract results in reader clients"])

p("C11", "Full validation detects every alteration of stored object data",
  "If any file that an object's inventories account for is changed, truncated, extended, removed, swapped with another or replaced by an older copy, or an unaccounted file is added where the specification allows none, full validation reports the object as not valid. This covers the declaration, root and version inventories, sidecars, content files and recorded fixity values in every version.",
  ["fault_sequences", "inputs", "histories"], "every kind of at-rest damage at every file of every reachable object",
  "Tests use a fixed set of bad fixtures, mostly missing from this checkout, each with a single hand-made defect.",
  [VAL, IV, "ocfl/digest.py", "ocfl/namaste.py"], [("digest check of every manifest entry", VAL), ("sidecar check", VAL), ("prior inventory and fixity digests", VAL), ("root structure check", VAL)],
  [], ["Object.validate verdict"])

p("C12", "Validation rejects inventories that contradict the specification",
  "If an inventory, in the root or in a version directory, is rewritten so that it breaks a rule of the specification or contradicts another inventory or the stored files, full validation reports the object as not valid even though all inventory sidecars have been recomputed to match. This covers missing or malformed required fields, version sequence errors, bad paths, state and manifest mismatches, conflicting earlier states, and identifier or specification version disagreements.",
  ["inputs", "fault_sequences", "histories"], "every rule-breaking rewrite of any inventory in any reachable object",
  "The bad-object fixtures are absent and would cover one instance per rule in one position.",
  [IV, VAL, "ocfl/w3c_datetime.py"], [("InventoryValidator.validate", IV), ("validate_as_prior_version", IV), ("validate_version_inventories", VAL)],
  [], ["Object.validate verdict"])

p("C13", "A valid object is always found valid, whatever else happens",
  "Validation accepts every object that conforms to the specification, including objects written by other software with features this library does not itself produce. The verdict depends only on the stored object: not on directory listing order, read sizes, the storage backend, whether the path or an open filesystem is given, logging options, or which objects the same validator checked before.",
  ["inputs", "configurations", "histories", "schedules"], "all conforming objects, environments and sequences of validations",
  "A few good fixtures in one environment say nothing about order, reuse or backend dependence.",
  [VAL, IV, FSW, "ocfl/validation_logger.py"], [("Validator.initialize between objects", VAL), ("W0xx warnings instead of errors", VAL), ("fsw listing abstraction", FSW)],
  [], ["Validator.validate_object verdict", "Object.validate verdict"])

p("C14", "A storage root gives back every object added to it, at its layout path",
  "After any sequence of initializing, reopening and adding to a storage root, each added object is found in a byte-identical copy at exactly the path the declared layout and its parameters prescribe for the identifier, listing the root yields every added object exactly once with its identifier and nothing else, and the root validates. Reopening a root from storage alone yields the same layout, parameters, specification version and paths as the session that created it.",
  ["histories", "inputs", "configurations"], "all layouts with all parameters, identifiers and add/list/reopen histories",
  "Tests check layout functions on a few identifiers and one fixture root, not whole root histories.",
  [SR, "ocfl/layout.py", "ocfl/layout_registry.py", "ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", FSW],
  [("identifier_to_path of the layouts", "ocfl/layout_0003_hash_and_id_n_tuple.py"), ("write/read layout params", "ocfl/layout.py"), ("add / list_objects / fsw_copydir", SR)],
  [], ["StorageRoot.add, list_objects, object_path, validate; file tree"])

p("C15", "Storage root validation tells the truth about the root and its objects",
  "Validating a storage root returns true exactly when the root's declaration, layout and hierarchy are sound and, if objects are checked, every object in it is valid; the reported object and good-object counts are exact. Damage anywhere in the root or in any object makes the verdict false, and repeating the validation gives the same answer.",
  ["inputs", "fault_sequences", "histories"], "all roots and every kind of damage to the root structure or to any of its objects",
  "Root tests rely on a few fixtures with one defect each.",
  [SR, VAL], [("validate / validate_hierarchy / object_paths", SR), ("check_root_structure", SR)],
  [], ["StorageRoot.validate result and counters"])

p("C16", "Operations touch only what they are asked to write",
  "Validating, listing, showing, extracting and dry runs never modify the object, storage root or source they read; creating and updating never modify the source. Writing operations create or change files only inside the object, root or destination directory they were given, whatever file names, identifiers or inventory contents they meet.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all operations over all inputs, including hostile inventories and identifiers, and failing operations",
  "Tests do not watch the rest of the filesystem.",
  [OBJ, SR, FSW, VAL], [("DirFileSystem rooting of every access", FSW), ("inventory path checks before use", IV), ("identifier encoding in layouts", "ocfl/layout_0003_hash_and_id_n_tuple.py")],
  [], ["every mutating storage call and its path"])

p("C17", "Changing digests never hides corruption",
  "When a new version moves an object to another digest algorithm or changes its fixity settings while stored content has been corrupted, the update is refused or the corruption stays detectable: a full validation afterwards still reports the object as not valid. An object whose content is intact migrates successfully and keeps every version's content addressed by correct digests of the new algorithm.",
  ["fault_sequences", "histories", "configurations"], "all corruptions of any content file before any digest or fixity change",
  "Tests migrate intact objects only.",
  [OBJ], [("digest recomputation in start_new_version", OBJ), ("old digests carried to fixity / kept in prior inventories", OBJ)],
  [], ["update outcome, then Object.validate"])

p("C18", "BagIt transfers carry a version unchanged or are refused",
  "Extracting a version to a bag gives a valid bag whose payload is exactly that version's files and whose bag-info carries its identifier, message and user (line breaks and surrounding white space apart, which bag-info cannot hold); importing a bag as a version stores exactly its payload and metadata, with explicitly given metadata taking precedence. A bag that is damaged or incomplete in any way is refused and nothing is written.",
  ["inputs", "fault_sequences", "histories"], "all versions and metadata, and every kind of damage to a bag",
  "Tests use two small bags.",
  ["ocfl/bagger.py", OBJ, "ocfl-object.py"], [("bag_as_source validation", "ocfl/bagger.py"), ("bag_extracted_version", "ocfl/bagger.py")],
  [], ["bag on storage, resulting object version"])

p("C19", "Creation times reflect the clock unless given",
  "A version written without an explicit created time records a valid timestamp with time zone that denotes the moment of the operation according to the system clock, to within a second, and an explicit created time is stored verbatim. Clock jumps between or during operations never make an operation fail, change an earlier version's created time, or produce an invalid object.",
  ["schedules", "histories", "inputs"], "all clock values, jumps and sequences of versions",
  "Tests never control the clock.",
  ["ocfl/w3c_datetime.py", "ocfl/version_metadata.py", INV], [("datetime_to_str", "ocfl/w3c_datetime.py"), ("as_dict default created", "ocfl/version_metadata.py")],
  [], ["created field in stored inventories"])

p("C20", "Editing a new version behaves like editing a set of files",
  "In any sequence of adding, deleting and renaming logical files in a new version, started empty or from the previous version's content, each step either succeeds with exactly its effect on the set of logical files or is refused with an error and no effect, as a plain map from path to content would. Writing the version then commits exactly that map, in a valid object that stores no content the version does not need, and the reported difference to the previous version is exact.",
  ["histories", "inputs", "configurations"], "all edit sequences over all prior versions and settings",
  "Tests make one or two edits; delete or rename of just-added files, repeated sources and re-adds are not explored.",
  [NV, INV, OBJ], [("add / delete / rename", NV), ("delete_logical_path", INV), ("diff_with_previous", NV)],
  [], ["NewVersion state, diff_with_previous, committed object"])

p("C21", "Version numbering is continuous and keeps its padding",
  "Each new version gets the number after the current head in the same zero-padding style as the existing versions, in the directory name, the head field and the versions block alike. When the padded form has no room for another version, or the sequence on storage is not a valid one, the operation is refused and nothing is written.",
  ["histories", "inputs"], "all starting version sequences, padded or not, and all continuations",
  "Tests check the name arithmetic on constants, not continuation of stored padded objects.",
  ["ocfl/object_utils.py", INV, NV, OBJ], [("next_version / parse_version_directory", "ocfl/object_utils.py"), ("add_version", INV)],
  [], ["version directories and inventories on storage"])

p("C22", "Content is stored as often as the settings ask for, never more or less",
  "With forward delta on, content already stored by an earlier version is never stored again, and with deduplication on, content occurring several times in one version is stored once in it. With either switched off the corresponding copies are stored, each as its own content file, and in all cases every stored content file is listed in the manifest under its digest.",
  ["inputs", "histories", "configurations"], "all duplication patterns within and across versions under all four setting combinations, including reappearance after deletion",
  "Tests cover one or two duplication patterns.",
  [NV, INV, OBJ], [("add(): in_previous_version / in_current_version rules", NV)],
  [], ["content files on storage and manifest"])

p("C23", "Refused, aborted and dry operations leave no trace",
  "An operation that is refused for its arguments or the state of the object, an update asked to abort when nothing changed and finding no change, and a dry run, leave storage exactly as it was. The abort happens exactly when the new content equals the latest version's, and a dry run returns the same inventory the real operation then writes.",
  ["inputs", "histories", "configurations"], "all refused and no-op operations over all object histories",
  "Tests check few refusals and never compare the whole tree.",
  [OBJ, NV, SR], [("add_version_with_content abort_if_no_difference", OBJ), ("checks before writing in start_new_version and initialize", OBJ)],
  [], ["tree before/after; returned inventory"])

p("C24", "Results do not depend on the storage backend",
  "The same sequence of operations with the same inputs and clock yields the same object files, inventories, validation verdicts and extracted content whether objects, roots and sources live on a local directory, on an object store with implicit directories reached by URL, or, for reading, inside a zip file.",
  ["configurations", "histories", "inputs"], "all supported backends crossed with all histories",
  "Tests run almost only on local paths and never compare backends.",
  [FSW, OBJ, VAL, SR], [("fsw abstraction over fsspec", FSW), ("fsw_walk / fsw_listdir_names name handling", FSW)],
  [], ["trees and outcomes across backends"])

p("C25", "Command line exit status and output tell the truth",
  "Each command line tool exits with status zero only if everything it was asked to do was done correctly, or for validation only if everything named is valid, and otherwise exits non-zero or with an error message; what it prints about versions, objects, paths and validity matches storage. Tools leave the same stored result as the corresponding library call.",
  ["inputs", "fault_sequences", "configurations"], "all tools and arguments over valid, damaged and failing storage",
  "The scripts' tests check a few outputs by regular expression.",
  ["ocfl-object.py", "ocfl-root.py", "ocfl-sidecar.py", "ocfl-validate.py", "ocfl/command_line_utils.py"], [("exit codes and messages", "ocfl-validate.py"), ("do_object_operation", "ocfl-object.py")],
  [], ["exit status, stdout, log output, stored tree"])

p("C26", "Validation always ends in a verdict, whatever is on storage",
  "However an object's or storage root's stored files are damaged or malformed, by arbitrary bytes, arbitrary JSON, missing, extra or misplaced files and directories, validation finishes and returns a verdict with the problems logged. It does not escape with an unrelated exception, loop, or report such an object as valid when it is not.",
  ["inputs", "fault_sequences"], "arbitrary byte and structure damage to any file of any object or root",
  "Fixture tests only contain damage somebody thought of.",
  [VAL, IV, SR, "ocfl/namaste.py"], [("ValidatorAbortException and JSON error handling", VAL), ("type checks in the inventory validator", IV)],
  [], ["return of validate_object / StorageRoot.validate"])

p("C27", "Datetime syntax is accepted exactly per W3C/RFC3339",
  "Parsing a created timestamp accepts exactly the strings allowed by the specification and formatting then parsing a time gives the same instant.",
  ["inputs"], "all strings and all times",
  "Tests list examples only.",
  ["ocfl/w3c_datetime.py"], [("str_to_datetime", "ocfl/w3c_datetime.py")])
p("C28", "Layout algorithms map distinct identifiers to distinct, non-nested paths",
  "For every layout and parameter set, two different identifiers never map to the same path and no object path lies inside another's, as the layout's specification guarantees.",
  ["inputs", "configurations"], "all pairs of identifiers",
  "Tests map a few identifiers.",
  ["ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py"], [("identifier_to_path", "ocfl/layout.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for r in P:
        fh.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
