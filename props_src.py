p("C01","Stored file data reads back byte for byte",
 "Whatever bytes a file contains, however the content-defined chunker happens to cut them and however the reads arrive, storing the data and then reading it back through the returned key yields exactly the same bytes in the same order: nothing lost, duplicated, reordered or invented.",
 ["inputs","schedules"],"every byte content, every placement of chunk boundaries and every value of the rolling hash at them, every fragmentation of the input reads",
 "The tests sample a few hundred random buffers; boundaries that promote several tree levels at once need hash values seen about once in 2^42 cuts, so no sampled test ever builds a tree of more than two levels.",
 ["src/file.rs"],[("put_data chunk loop and level promotion","src/file.rs put_data"),("recursive reader","src/file.rs read_data")],
 [("key_bufs","pending child keys per tree level","src/file.rs put_data")],["key returned by put_data","bytes written by read_data"])
p("C02","A failing input read never becomes a successful store",
 "If reading the source data fails part way, storing it reports that error and returns no key; a merely interrupted read is retried and does not change the stored content or the resulting key.",
 ["fault_sequences","inputs"],"every position at which a read is interrupted or fails, for every input within the bound",
 "No test injects a read error or an interruption.",
 ["src/file.rs","src/dir.rs"],[("read error arms","src/file.rs put_data")])
p("C03","The object store returns exactly what was put, forever",
 "Once an object has been stored, fetching it by the key that was returned yields exactly the stored bytes, whatever else is stored before or after; storing the same bytes again yields the same key and changes nothing, and different bytes never share a key. A key that was never stored is reported as absent, not as data.",
 ["inputs","histories"],"every sequence of puts, gets and existence queries over arbitrary contents",
 "Tests put one object tree into a fresh in-memory database; none checks later puts, repeated puts or absent keys.",
 ["src/ds/mod.rs","src/ds/sqlite.rs"],[("content addressing","src/ds/mod.rs DataStore::put/hash"),("insert or ignore","src/ds/sqlite.rs raw_put"),("lookup","src/ds/sqlite.rs raw_get/raw_exists")])
p("C04","The same tree always gets the same key, different trees different keys",
 "Inserting a directory tree gives a key that depends only on the names, kinds and contents in it: the order in which the operating system lists directory entries does not matter, and any difference in a name, in the nesting or in a file's content changes the key.",
 ["inputs","schedules"],"every listing order and every pair of trees within the bound",
 "No test inserts a directory at all.",
 ["src/dir.rs","src/file.rs","src/object.rs"],[("tree construction","src/dir.rs put_fs_item"),("object encoding","src/dir.rs TryInto<Object> for FSItem")])
p("C05","Insert then fetch restores the whole directory tree",
 "Inserting a file or directory and fetching the printed key into a fresh destination recreates exactly the same tree: every file with its exact content (empty ones included), every directory including empty ones, every name unchanged, and nothing extra.",
 ["inputs"],"every tree shape, names and contents within the bound",
 "No test inserts or fetches a directory.",
 ["src/dir.rs","src/file.rs"],[("insert walk","src/dir.rs put_fs_item"),("restore walk","src/dir.rs get_fs_item"),("metadata encoding","src/dir.rs FSItem")])
p("C06","Fetching never overwrites or escapes its destination",
 "Fetching writes only at or below the destination path it was given, whatever names the stored tree contains, and never changes the content of a file that already existed there: it fails instead.",
 ["inputs"],"every stored tree (including names with separators, parent references or absolute paths) and every pre-existing content of the destination",
 "No test extracts anything.",
 ["src/dir.rs"],[("create_new open","src/dir.rs get_fs_item"),("path joining","src/dir.rs get_fs_item")])
p("C07","Keys survive their text and database encodings unchanged",
 "For every key, the printed text form parses back to the same key (letters after the prefix in either case), the database form decodes to the same key, and two different keys never share a text or database form.",
 ["inputs"],"all 2^256 key values",
 "The property tests sample a few hundred of 2^256 keys.",
 ["src/key.rs","src/keyish.rs","src/base32.rs"],[("base32","src/base32.rs to_base32/from_base32"),("user and db forms","src/key.rs as_user_key/as_db_key/from_db_key"),("parser","src/keyish.rs")])
p("C08","Malformed key input is rejected and never crashes",
 "Parsing an arbitrary string as a key, or arbitrary bytes as a database key, never crashes: a string without a slash is accepted only if it starts with the known prefix and every remaining character is in the base32 alphabet, and database bytes are accepted only with the known hash id and exactly 32 hash bytes.",
 ["inputs"],"every string and byte sequence within the length bound",
 "The existing tests only check absence of panics on random strings, almost none of which get past the first character, and never check what is accepted.",
 ["src/keyish.rs","src/key.rs","src/base32.rs"],[("prefix and alphabet checks","src/keyish.rs parse_from_base32"),("length and id checks","src/key.rs from_db_key")])
p("C09","A key prefix resolves to exactly the objects it abbreviates",
 "Looking up a key or any truncation of its text resolves to that object when it is the only stored object whose text starts with it, reports ambiguity (naming the candidates) when several do, and reports not found when none does; the full key text always resolves to its own object when it is stored. No lookup crashes.",
 ["inputs","histories"],"every set of stored keys and every prefix length",
 "No test resolves a prefix against stored objects; the range bound arithmetic is untested.",
 ["src/keyish.rs","src/ds/mod.rs","src/ds/sqlite.rs"],[("prefix to key range","src/keyish.rs parse_from_base32"),("resolution","src/ds/mod.rs canonicalize"),("range query","src/ds/sqlite.rs raw_between")])
p("C10","Objects decode to what was encoded, and bad bytes never crash",
 "An object read back from the store has the same type, the same data and the same dependency keys in the same order as when it was stored; and decoding arbitrary bytes as an object yields an error or an object, never a crash.",
 ["inputs"],"all object types, arbitrary data and key lists, and arbitrary byte strings within the bound",
 "No test decodes corrupt bytes or compares decoded fields.",
 ["src/object.rs","src/ds/mod.rs","src/dir.rs","src/commit.rs"],[("CBOR encoding","src/object.rs, src/ds/mod.rs get_obj/put_obj")])
p("C11","A commit records its tree, parents and message faithfully",
 "A commit read back by its key names exactly the tree, the set of parents and the message it was made with, and commits that differ in tree, parents or message have different keys.",
 ["inputs"],"all trees, parent lists and messages within the bound",
 "No test creates a commit.",
 ["src/commit.rs"],[("encoding","src/commit.rs TryInto<Object> for Commit"),("decoding","src/commit.rs TryInto<Commit> for Object"),("construction","src/commit.rs commit_tree")])
p("C12","Committing extends history and never drops it",
 "Each successful commit to a branch becomes that branch's newest entry and has the branch's previous tip as its parent (none for the first), stores the given message and the current tree, and leaves every other branch alone; so every earlier commit stays reachable from the tip.",
 ["histories","inputs"],"every sequence of commits to one or more branches",
 "The command line program has no tests.",
 ["src/main.rs","src/commit.rs","src/ds/sqlite.rs"],[("commit command","src/main.rs commit_cmd"),("log append","src/ds/sqlite.rs reflog_push")])
p("C13","A reference reads back its latest update and full history",
 "Reading a reference returns the key most recently recorded for exactly that name and that remote (no remote is distinct from every remote); walking it lists all keys recorded for it, newest first, none missing and none from another reference. A never-updated reference is reported as not found.",
 ["histories","inputs"],"every interleaving of updates to several names and remotes",
 "No test touches references.",
 ["src/ds/sqlite.rs","src/ds/mod.rs"],[("latest","src/ds/sqlite.rs reflog_get"),("append","src/ds/sqlite.rs reflog_push"),("walk","src/ds/sqlite.rs reflog_walk")])
p("C14","The current branch is what was last set",
 "Reading the current branch returns the name most recently set, whatever else was stored, and nothing before it is first set.",
 ["histories","inputs"],"every sequence of settings, arbitrary names",
 "No test sets or reads the head.",
 ["src/ds/mod.rs","src/ds/sqlite.rs"],[("state table","src/ds/sqlite.rs raw_put_state/raw_get_state"),("get_head/put_head","src/ds/mod.rs")])
p("C15","Comparing two stored trees reports exactly their differences",
 "Comparing two stored trees lists as added exactly the paths only in the new tree, as deleted exactly the paths only in the old tree, and as modified exactly the files present in both whose content differs, each once, with the right kind and the right keys; it never crashes.",
 ["inputs"],"every pair of trees within the bound",
 "No test compares trees.",
 ["src/diff.rs","src/dir.rs"],[("compare","src/diff.rs compare"),("walk","src/dir.rs walk_fs_items")])
p("C16","Status is clean exactly when the directory matches the tree",
 "Comparing a directory on disk with a stored tree reports no difference exactly when the directory (minus excluded paths) has the same paths, kinds and contents, and otherwise lists exactly the added, deleted and changed paths, no matter which directory the tool is run from; it never crashes on a readable tree.",
 ["inputs","configurations"],"every pair of directory state and stored tree within the bound, every working directory",
 "No test compares a directory.",
 ["src/diff.rs","src/dir.rs","src/main.rs"],[("compare","src/diff.rs compare"),("disk walk","src/dir.rs walk_real_fs_items"),("hashing","src/dir.rs hash_fs_item")])
p("C17","Excluded paths and the repository itself are never stored",
 "Inserting or comparing a directory skips the repository's own database folder and every path matching an exclude pattern, wherever they occur in the tree, and skips nothing else.",
 ["inputs","configurations"],"every tree, pattern set and repository location within the bound",
 "No test uses the filter.",
 ["src/filter.rs","src/dir.rs"],[("filter","src/filter.rs make_filter_fn"),("use in walks","src/dir.rs")])
p("C18","A cached hash is reused only for the very same file state",
 "The hash cache answers a query only with the key that was recorded for the same inode number, modification time and size; any difference in one of them misses, and what is recorded reads back unchanged.",
 ["inputs","histories"],"all inode, time and size values and every order of recordings",
 "No test uses the cache.",
 ["src/cache.rs","src/dir.rs"],[("cache key encoding","src/cache.rs Cache::get/put"),("lookup before hashing","src/dir.rs hash_fs_item")])
p("C19","Condensing a difference list hides only what a listed directory covers",
 "The condensed listing drops an added (or deleted) entry only if a directory that contains it is itself listed as added (or deleted); every other entry, and every modified file, is still shown, and nothing is invented.",
 ["inputs"],"every set of entries within the bound",
 "No test condenses a difference.",
 ["src/diff.rs"],[("simplify","src/diff.rs simplify")])
p("C20","Line statistics count added and removed lines correctly",
 "The statistics for a difference list each added file with its number of lines as added, each deleted file with its number of lines as removed, and each modified file with numbers of added and removed lines whose difference is the change in line count and that are zero only if the text is unchanged; directories are not listed.",
 ["inputs"],"every pair of small file contents",
 "No test computes statistics.",
 ["src/diff.rs"],[("line_stat","src/diff.rs line_stat/line_ct")])
p("C21","A displayed patch describes exactly the change",
 "Each hunk of the patch shown for a file has headers whose start lines and counts agree with the lines it lists, and applying the hunks to the old text gives the new text. A file that is not text is not shown as if it were: the command fails.",
 ["inputs"],"every pair of small file contents",
 "The only test checks that generating a patch from random strings does not panic; it never looks at the patch.",
 ["src/diff.rs"],[("hunk construction","src/diff.rs patch_from_file_string"),("patch output","src/diff.rs create_diff_patch_result")])
p("C22","A command that fails leaves the repository unchanged",
 "If a command reports a failure, none of its writes remain: the stored objects, references and current branch are as they were before it started. (Initialising a repository is not covered. When it is only the last step of saving, a sync, that the storage does not confirm, all of the writes may remain instead, never a part.)",
 ["fault_sequences","inputs"],"every point at which an operation of the command can fail",
 "The command line program has no tests and no test injects a fault.",
 ["src/main.rs","src/ds/sqlite.rs"],[("transaction around every command","src/main.rs main"),("rollback","src/ds/sqlite.rs Transactional")])
p("C23","Success is reported only for changes that are on disk",
 "When a command that changes the repository finishes without reporting a failure, its changes have been committed to the database and a later command sees them, also when the power fails right after it; if they cannot be written, the command says so.",
 ["fault_sequences","histories"],"every storage failure at every write of the command, including the final commit",
 "The command line program has no tests and no test injects a fault.",
 ["src/main.rs","src/ds/sqlite.rs"],[("commit of the transaction","src/main.rs main")])
p("C24","A crash never leaves a half-finished change",
 "If the program is killed or the power fails at any moment, the repository afterwards opens normally and is exactly as before the command or exactly as after it: a reference never points to an object that is not completely stored, and what the hash cache has lost makes no command fail or err.",
 ["crash_points"],"every point of the command at which the process can die, and what the disk had not yet been told to keep",
 "No test kills the program.",
 ["src/main.rs","src/ds/sqlite.rs"],[("one transaction per command","src/main.rs main"),("journal and sync settings","src/ds/sqlite.rs SqliteDS::new")])
p("C25","Checkout never damages anything it must not touch",
 "Outside its permitted location checkout changes no file at all; inside it, it makes the directory equal to the committed tree while leaving excluded paths and the repository's database folder alone, also where links lead to them.",
 ["inputs","configurations"],"every directory state, committed tree and location within the bound",
 "No test runs checkout.",
 ["src/dir.rs","src/main.rs"],[("location guard and extra-file removal","src/dir.rs checkout_fs_item")])
p("C26","Switching branches is refused while there are uncommitted changes",
 "Switching the current branch succeeds only if the working directory equals the current branch's committed tree, changes nothing but the current branch name, and otherwise leaves it as it was.",
 ["inputs","histories"],"every directory state and branch state within the bound",
 "The command line program has no tests.",
 ["src/main.rs","src/diff.rs"],[("clean check before switching","src/main.rs checkout_head")])
p("C27","The log shows every commit of the branch, newest first",
 "The log of a commit lists it and then its first parent, that one's first parent and so on down to the first commit, each once, with its message, and does not crash whatever the commits changed.",
 ["histories","inputs"],"every chain of commits within the bound",
 "No test shows a log.",
 ["src/display.rs","src/diff.rs"],[("log walk","src/display.rs log_obj")])
p("C28","The nearest enclosing repository is used, and init sets one up",
 "A command uses the repository in the current directory or else in the nearest parent directory that has one, and reports that none exists otherwise; initialising creates an empty repository on branch master in the current directory, and changes nothing where there is one already.",
 ["configurations","inputs"],"every placement of repositories along the path within the bound",
 "The command line program has no tests.",
 ["src/main.rs"],[("upward search","src/main.rs find_db_folder"),("init","src/main.rs init")])
p("C29","What a command shows is right or it fails",
 "When a call to the system fails while a command that only reads (status, compare, show, log, ref log, fetch, ...) is at work, or a stored object it needs is missing, the command reports a failure or crashes, or it shows exactly what it shows when nothing is wrong: data that could not be read is never passed over or shown as absent or unchanged.",
 ["fault_sequences","inputs"],"every point at which a call of the command can fail, every missing object",
 "The command line program has no tests and no test injects a fault.",
 ["src/main.rs","src/dir.rs","src/diff.rs","src/ds/sqlite.rs","src/display.rs"],[("reading commands","src/main.rs status/compare/show/log/fetch"),("errors of the store","src/ds/mod.rs")])
p("C30","A command that fails says why and exits with a nonzero status",
 "A command that ends with an error prints the reason and exits with a nonzero status; one that does what it was asked exits with status zero. (Refusing to switch branches because of uncommitted changes is an answer, not an error.)",
 ["fault_sequences","inputs"],"every request that cannot be met and every failing call within the bound",
 "The command line program has no tests.",
 ["src/main.rs"],[("end of the program","src/main.rs main")])
p("C31","A command changes only what it is for",
 "Commands that only show something (status, compare, show, log, fetch, ref log and the debugging ones) change no reference and not the current branch, insert and commit-tree change no reference, and no command but setting it changes the current branch; stored objects are never lost or changed. None of them changes, creates, removes or touches a file of the working directory (checkout is the one that does, fetch writes its destination).",
 ["inputs","configurations"],"every command within the bound, each with arbitrary file contents",
 "The command line program has no tests.",
 ["src/main.rs","src/ds/sqlite.rs","src/dir.rs"],[("the commands","src/main.rs")])
p("C32","Two commands at once have the effect of one after the other",
 "When two commands run at the same time in one repository, each that reports success has had its effect: the repository ends up as if those that succeeded had been run one after the other in some order, and each printed what it prints in that order; one that fails because of the other leaves nothing behind, and they never both fail because of each other. No commit or reference update is lost.",
 ["interleavings","inputs"],"every point of one command at which the other one can run",
 "No test runs two commands at the same time.",
 ["src/main.rs","src/ds/sqlite.rs","src/cache.rs"],[("one transaction per command, begun before anything is read","src/main.rs main"),("parent of a commit","src/main.rs commit_cmd")])
p("C33","What a reference leads to is there, whole, and of the right kind",
 "Whatever commands were run, every reference and every entry of its history leads to a stored commit, whose tree is a stored directory or file with everything in it, and whose parents are stored commits of the same kind; a command that names an object of another kind, or one that is not stored, is refused. So a reading command does not run into something missing or out of place.",
 ["inputs","histories"],"every sequence of commands and every kind of object they name within the bound",
 "Two tests at most set a reference, none to anything but what they just made.",
 ["src/main.rs","src/commit.rs","src/dir.rs","src/ds/sqlite.rs"],[("what a reference may be set to","src/main.rs ref_update, debug_reflog_push"),("what a commit may be made of","src/main.rs debug_commit_tree"),("children are stored before parents","src/dir.rs put_fs_item, hash_fs_item")])
p("C34","What was stored before stays readable and keeps its form",
 "A repository in the form that this version stores (objects, their kinds and keys, directories, files in one piece or many, commits, references, the current branch) is read back exactly, whichever program wrote it; and for given content exactly that form is stored, so that what is stored again is found under the same key.",
 ["inputs"],"every file content, message, reference and kind of object within the bound",
 "Every test writes and reads with the same build: a change of the stored form on both sides passes all of them and loses every repository there is.",
 ["src/object.rs","src/dir.rs","src/commit.rs","src/key.rs","src/ds/mod.rs","src/ds/sqlite.rs"],[("objects","src/object.rs Object, ObjType"),("directories and files","src/dir.rs FSItem"),("commits","src/commit.rs Commit, CommitAttrs"),("tables","src/ds/sqlite.rs SqliteDS::new"),("keys","src/key.rs as_db_key, src/ds/mod.rs put")])
p("C35","What is shown of a stored thing is that thing",
 "Showing a stored file writes exactly its bytes and nothing else, whatever they are and however many; listing a stored tree or a directory names every entry below it exactly once, each with its kind (and its own key), and nothing else; printing an object gives its kind, the keys it refers to in order and its data. So a user can look into the store without fetching, and believe what is seen.",
 ["inputs"],"every content and size of a file and every object of a tree within the bound",
 "No test runs a command that shows a file or lists a tree.",
 ["src/display.rs","src/file.rs","src/dir.rs","src/object.rs","src/main.rs"],[("showing","src/display.rs display_obj"),("reading a file","src/file.rs read_data"),("listing","src/dir.rs walk_fs_items, walk_real_fs_items"),("printing","src/object.rs pretty_print")])
