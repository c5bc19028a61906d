"""The properties' harnesses: entry, required reachability witnesses, bounds."""

ASSUMPTIONS = [
    "the engine's LLVM IR semantics, its operating-system model (harness/src/os.rs) and Z3 are trusted; passing paths and every counterexample are replayed by the real program",
    "BLAKE3 is idealised as an injective function (harness/stubs/blake3); the content-defined chunker's cut points are chosen by the harness (harness/stubs/gearhash)",
    "overflow checks and debug assertions on, as in the development build; a panic is treated as the end of the process",
]

COMMON_NOTE = "Symbolic execution of the compiled program (LLVM IR of snapcd, its dependencies, std and SQLite, regenerated from /repo on every run) with Z3 deciding every branch and assertion; holds for every value of the symbolic inputs within the bounds listed in the evidence, nothing is claimed outside them. Trusted: engine, OS model, Z3, the idealised hash. "


PROPS = {}


def prop(pid, note, entries, technique="bounded symbolic execution of LLVM IR, SMT (Z3)", assumptions=()):
    PROPS[pid] = {"note": note, "entries": entries, "technique": technique, "assumptions": list(assumptions)}


def E(entry, covers=(), bounds="", **kw):
    d = {"entry": entry, "covers": list(covers), "bounds": bounds}
    d.update(kw)
    return d


prop("C01", "File data of up to 5 arbitrary bytes in every read pattern; chunk-sized data with two arbitrary bytes per chunk and arbitrary 64-bit rolling hashes at the cut points.", [
    E("h_c01_small", ["read back"], "0..5 arbitrary bytes, every split into reads, one interruption anywhere", tparams={"len": 8}),
    E("h_c01_marks", ["read back"], "3 (thorough 4) chunks of 32768 bytes, 2 arbitrary bytes each, arbitrary 64-bit hash at each cut; tails of 0, 1, 70 bytes", params={"chunks": 3}, tparams={"chunks": 4}),
    E("h_c01_lengths", ["read back"], "lengths k*32768-2..+2, one cut of arbitrary hash at six places", params={"bases": 2}, tparams={"bases": 3}),
    E("h_c01_dense", ["read back"], "3 cuts at distance 84 and one chunk, arbitrary hashes, two read patterns"),
    E("h_c01_long", ["read back"], "515..517 chunks of 32768 bytes, one arbitrary byte at one of three places", jobs=6, samples=1, params={"more": 1}, tparams={"more": 3}),
])

prop("C02", "Every position of a read error (twelve kinds) and of up to two interruptions.", [
    E("h_c02_read", ["failed", "stored"], "sources of 0, 5, 32777 and 65636 bytes; one error out of twelve kinds and two interruptions anywhere"),
    E("h_c02_cli", ["failed", "stored"], "insert of a directory with one file of 9000 bytes (3 arbitrary); one failing open/read/readdir and one EINTR anywhere"),
])

prop("C07", "All 2^256 keys and all choices of letter case.", [
    E("h_c07_text", ["round trip"], "every 32-byte key; every upper/lower case choice of the letters after the prefix"),
    E("h_c07_db", ["decoded"], "every 32-byte key"),
])

prop("C08", "All texts up to 4 (thorough 6) ASCII characters, longer ones with two arbitrary characters, one arbitrary non-ASCII character in six contexts, all byte strings up to 36 (thorough 70) bytes.", [
    E("h_c08_ascii", ["accepted", "rejected"], "every ASCII text of 0..4 characters without a slash", tparams={"len": 6}),
    E("h_c08_long", ["accepted", "rejected"], "lengths 50..54, 60, 104 with two arbitrary characters at three places"),
    E("h_c08_unicode", ["rejected"], "one arbitrary 2-, 3- or 4-byte character, up to 2 ASCII characters before and after"),
    E("h_c08_slash", ["reference"], "every ASCII text of 0..4 characters with a slash inserted anywhere", tparams={"len": 6}),
    E("h_c08_db", ["accepted", "rejected"], "all byte strings of 0..36 bytes", tparams={"len": 70}),
])

prop("C03", "Three objects of 0..2 arbitrary bytes each in memory and on disk (reopened), any absent key; raw keys of 1..2 arbitrary bytes and every range.", [
    E("h_c03_put_get", ["absent", "reopened"], "3 objects of 0..2 arbitrary bytes; one arbitrary absent 32-byte key", tparams={"objects": 4}, jobs=4),
    E("h_c03_large", ["same", "different"], "two objects of 1025, 70000, 300000, 1200000 bytes that differ in at most one arbitrary byte at five places", jobs=4),
    E("h_c03_raw", ["range"], "2 (thorough 3) arbitrary keys of 1..2 bytes, values of 0..1 bytes, arbitrary range ends of 0..2 bytes", params={"objects": 2}, tparams={"objects": 3}, jobs=4),
    E("h_c03_many", ["many", "reopened"], "400 (thorough 2000) objects of 40..340 bytes, one with an arbitrary byte", jobs=6, tparams={"objects": 2000}),
    E("h_c03_trans", ["given up", "kept"], "2 (thorough 3) rounds of 1..2 objects of one arbitrary byte each, with and without a transaction, kept or given up; in memory and on disk", jobs=4, tparams={"rounds": 3}),
])

prop("C09", "Up to three stored keys with two arbitrary bytes at chosen places, looked up by prefixes of 8 lengths; all 53 prefixes of a single object.", [
    E("h_c09_prefix", ["found", "not found", "ambiguous"], "0..2 (thorough 3) keys with two arbitrary bytes at one of 3 (thorough 12) pairs of place and background; 8 prefix lengths of an arbitrary query", params={"places": 3, "stored": 2}, tparams={"places": 12, "stored": 3}, jobs=8),
    E("h_c09_full", ["not found", "no ref"], "one object of 0..2 arbitrary bytes, all prefix lengths 1..53, one absent key, one absent reference", jobs=3),
    E("h_c09_many", ["ambiguous", "found"], "2..700 keys with a common prefix and one without, prefixes of 0, 1, 3 characters", jobs=4),
])

prop("C10", "All types, 0..3 keys with an arbitrary byte each, data of 0..3 arbitrary bytes at five length classes; arbitrary bytes (floating point type bytes excepted) as objects.", [
    E("h_c10_round_trip", ["same"], "6 types, 0..3 keys with one arbitrary byte each, data of 0..3 arbitrary bytes padded by 0, 20, 252, 65533, 70000", jobs=4),
    E("h_c10_bytes", ["error"], "every byte string of 0..2 (thorough 3) bytes without CBOR float type bytes", params={"len": 2}, tparams={"len": 3}, jobs=4),
    E("h_c10_damaged", ["error", "object"], "an encoded object with one (thorough two adjacent) arbitrary byte(s) anywhere (quick: except the length bytes at 1 and 9), or cut off anywhere", params={"hard": 0}, tparams={"two": 1, "hard": 1}, jobs=8),
    E("h_c10_many", ["same"], "0..1100 keys and 0..65536 bytes around the encoding's limits, one arbitrary byte in each, made in two ways", jobs=6),
])

prop("C11", "Trees, 0..3 parents in any order with repetitions, messages of 0..3 arbitrary ASCII characters with four endings.", [
    E("h_c11_round_trip", ["same"], "2 trees, 0..3 parents out of 3, message of 0..3 arbitrary ASCII characters + one of four endings", jobs=4),
    E("h_c11_long", ["same"], "messages of 254 to 140000 characters, the first and the last arbitrary", jobs=4),
    E("h_c11_many", ["same"], "1, 2, 5, 9, 17, 33, 300 parents, one arbitrary byte in one of them", jobs=4),
    E("h_c11_distinct", ["different", "order"], "two commits of 2 trees, 0..2 parents out of 3 and one arbitrary character", jobs=4),
    E("h_c11_cli", ["same"], "the program: a commit of a tree with 0..3 parents out of three", jobs=6),
])

prop("C13", "Histories of 2 updates over two arbitrary names, no remote, an arbitrary remote and a fixed one; of 4 updates over four concrete references; in memory and on disk.", [
    E("h_c13_refs", ["found", "not found", "reopened"], "2 (thorough 3) updates; two names and one remote of 0..1 arbitrary characters, one fixed remote; repeated keys; reopened", jobs=8, tparams={"updates": 3}),
    E("h_c13_history", ["found", "not found", "reopened"], "4 (thorough 5) updates over four references with equal and different keys; reopened", jobs=8, tparams={"updates": 5}),
    E("h_c13_many", ["found", "not found"], "3, 12, 40, 300 updates of three or four references out of six groups of similar names", jobs=6),
    E("h_c13_cli", ["done"], "the program: 3 (thorough 4) updates of three references by its commands, shown by the others", jobs=8, tparams={"updates": 4}),
])

prop("C14", "Histories of 3 operations, names of 0..2 arbitrary characters, other state of arbitrary 4-byte names.", [
    E("h_c14_head", ["none", "set"], "3 (thorough 4) operations out of five kinds; reopened", jobs=4, tparams={"updates": 4}),
    E("h_c14_cli", ["set"], "the program: 1 (thorough 2) changes of the current branch to 8 names in two ways; status and a commit", jobs=8, params={"updates": 1}, tparams={"updates": 2}),
    E("h_c14_any", ["set"], "the program: every ASCII name of 1..2 (thorough 4) characters that is no option, set in two ways; a commit", jobs=2, tparams={"len": 4}),
])

prop("C18", "Arbitrary 64-bit inode, time and size in two entries and one query.", [
    E("h_c18_cache", ["hit", "miss"], "two entries and a query of arbitrary 64-bit inode, time and size", jobs=4, tparams={"entries": 3}),
])

prop("C04", "Five tree shapes in every listing order; all pairs of 16 shapes with files of 0..1 arbitrary bytes; files of up to 140000 bytes with one arbitrary byte at three places.", [
    E("h_c04_order", ["shuffled", "copied", "again"], "5 shapes of 3..5 entries with files of 0..1 arbitrary bytes; every order of listing in every directory; another place, time, path spelling, directory size", jobs=4),
    E("h_c04_distinct", ["equal", "different"], "pairs of 16 shapes, files of 0..1 arbitrary bytes", jobs=4),
    E("h_c04_names", ["equal", "different", "refused"], "two names of 1..2 (thorough 3) arbitrary bytes, of a file or a directory", jobs=4, tparams={"len": 3}),
    E("h_c04_file", ["done"], "files of 1, 9000, 40000, 140000 bytes, one arbitrary byte at three places, one byte longer", jobs=4),
    E("h_c05_many", ["wide", "deep", "long"], "a directory of 600 (thorough 3000) entries, one 37 levels deep (thorough 375), names of 254 and 255 bytes; one arbitrary byte; inserted, fetched and inserted again made in the other order", tparams={"entries": 3000}, jobs=3),
    E("h_c04_pair", ["same"], "two names of 1..2 (thorough 3) arbitrary bytes in one directory, made in either order, one of the two listings in any order", jobs=4, tparams={"len": 3}),
])

prop("C05", "Eleven tree shapes with files of 0..2 arbitrary bytes, four destinations; files of up to 100000 bytes with three arbitrary bytes.", [
    E("h_c05_trees", ["same"], "11 shapes (nesting up to 3, empty directories, unusual names), files of 0..1 (thorough 2) arbitrary bytes, 4 destinations", params={"len": 1}, tparams={"len": 2}, jobs=8),
    E("h_c05_names", ["same", "refused"], "an empty or other file, or an empty or other directory, alone, beside another file or in a directory, whose name is 1..3 (thorough 4) arbitrary bytes or 3..10 (thorough 14) arbitrary ASCII characters", jobs=4, tparams={"any": 4, "ascii": 14}),
    E("h_c05_file", ["same"], "files of 0, 1, 8192, 33000, 100000 bytes with three arbitrary bytes, 3 destinations"),
    E("h_c16_large", ["clean", "changed"], "the program: a file of 70000, 1100000 (thorough 5000000) bytes, an arbitrary one at three places; committed, compared, fetched, changed at three places, compared", params={"sizes": 2}, tparams={"sizes": 3}, jobs=8),
    E("h_c05_cli", ["same"], "the program: insert and fetch from two working directories, 6 (thorough 11) shapes, full key and prefix", tparams={"shapes": 11}, jobs=4),
    E("h_c05_many", ["wide", "deep", "long"], "a directory of 600 (thorough 3000) entries, one 37 levels deep (thorough 375), names of 254 and 255 bytes; one arbitrary byte; inserted, fetched and inserted again made in the other order", tparams={"entries": 3000}, jobs=3),
    E("h_c16_links", ["clean", "changed"], "links to files and directories inside and outside of the directory, 6 edits of what they lead to", jobs=8),
    E("h_c05_short", ["written"], "fetch, checkout, show and insert of a file of 2, 9000 or 40000 bytes, one arbitrary; one (thorough two) write of any file, of the database or of the output that takes one byte, all but one, or is interrupted", jobs=6, tparams={"shorts": 2}),
])

prop("C06", "Twenty names in a crafted directory object at two depths; seven states of the destination with files of 0..2 arbitrary bytes.", [
    E("h_c06_names", ["fetched", "refused"], "20 names (absolute, parent, nested, empty components) of a file or directory, at two depths", jobs=4),
    E("h_c06_existing", ["fetched", "refused"], "the program: 7 kinds of existing files and directories of 0..2 arbitrary bytes; a file and a directory fetched", jobs=4),
    E("h_c06_links", ["refused", "fetched"], "links that lead elsewhere or nowhere at the places to be written", jobs=4),
])

prop("C15", "All ordered pairs of 7 (thorough 10) tree shapes, and no old tree, with files of 0..1 arbitrary bytes.", [
    E("h_c15_trees", ["equal", "different"], "pairs of 7 (thorough 10) shapes or no old tree, files of 0..1 arbitrary bytes; the full result with kinds and keys", params={"shapes": 7}, jobs=8),
    E("h_c19_listing", ["equal", "different", "condensed"], "the printed listing for pairs of 7 (thorough 10) shapes", params={"shapes": 7}, jobs=8),
    E("h_c15_many", ["clean", "changed"], "trees of 120 (thorough 600) entries, 15 levels, long names; half of it removed and 20 entries added, or 300 files added, removed or changed; stored or on disk", jobs=8, tparams={"entries": 600}),
])

prop("C16", "A committed tree of four entries, fourteen kinds of edit with arbitrary bytes, three working directories, three commands, with and without remembered hashes; pairs of 7 (thorough 10) tree shapes.", [
    E("h_c16_status", ["clean", "changed"], "two committed files of one arbitrary byte, one of 14 edits with up to two arbitrary bytes, 3 working directories, 3 commands, cache cold or warm", jobs=8),
    E("h_c16_large", ["clean", "changed"], "the program: a file of 70000, 1100000 (thorough 5000000) bytes, an arbitrary one at three places; committed, compared, fetched, changed at three places, compared", params={"sizes": 2}, tparams={"sizes": 3}, jobs=8),
    E("h_c16_again", ["clean", "changed", "other repository"], "two edits with a status after each, arbitrary bytes, times apart by as little as 2 ns; a new repository over the same files", jobs=4),
    E("h_c16_trees", ["clean", "changed"], "pairs of 7 (thorough 10) shapes or no old tree, files of 0..1 arbitrary bytes, 2 (thorough 4) spellings of the path", params={"shapes": 7, "cwds": 2}, tparams={"shapes": 10, "cwds": 4}, jobs=4),
    E("h_c15_many", ["clean", "changed"], "trees of 120 (thorough 600) entries, 15 levels, long names; half of it removed and 20 entries added, or 300 files added, removed or changed; stored or on disk", jobs=8, tparams={"entries": 600}),
    E("h_c16_links", ["clean", "changed"], "links to files and directories inside and outside of the directory, 6 edits of what they lead to", jobs=8),
])

prop("C17", "Fifteen sets of exclude patterns with literals, `*` and `?` over a tree of 14 entries, four places of repository and tree; four database folders; eight sets for comparing.", [
    E("h_c17_insert", ["all", "excluded"], "21 sets of patterns (`*`, `?`, `[..]`, `{..}`), 4 places, names that differ in their case, with blanks and braces; two arbitrary bytes", jobs=8),
    E("h_c17_links", ["inside", "elsewhere"], "a link at two places to four targets inside and outside of the database folder; insert, commit, status", jobs=2),
    E("h_c17_db", ["done"], "4 database folders, 3 sets of patterns", jobs=4),
    E("h_c17_compare", ["clean", "changed"], "8 sets of patterns, 10 places of a change of one arbitrary byte, 2 commands, 2 working directories", jobs=8),
])

prop("C19", "All ordered pairs of 8 (thorough 10) tree shapes, and no old tree, with files of 0..1 arbitrary bytes.", [
    E("h_c19_listing", ["equal", "different", "condensed"], "pairs of 8 (thorough 10) shapes or no old tree, files of 0..1 arbitrary bytes", params={"shapes": 8}, tparams={"shapes": 10}, jobs=8),
    E("h_c15_many", ["clean", "changed"], "trees of 120 (thorough 600) entries, 15 levels, long names; half of it removed and 20 entries added, or 300 files added, removed or changed; stored or on disk", jobs=8, tparams={"entries": 600}),
    E("h_c19_names", ["equal", "different"], "8 names that resemble that of a listed directory, in all placements on either side", jobs=8),
])

prop("C20", "All pairs of ASCII texts of up to 4 (thorough 6) arbitrary characters; pairs of 8 (thorough 10) tree shapes with five texts.", [
    E("h_c20_text", ["same", "changed"], "two texts of 0..4 (thorough 6) arbitrary ASCII characters", tparams={"chars": 6}, jobs=8),
    E("h_c20_trees", ["done"], "pairs of 8 (thorough 10) shapes, texts out of five", params={"shapes": 8}, tparams={"shapes": 10}, jobs=8),
    E("h_c20_many", ["counted"], "255..70000 lines added or removed", jobs=4),
    E("h_c21_show", ["shown"], "show and log of commits and trees in each of their ways", jobs=6),
])

prop("C21", "All pairs of ASCII texts of up to 4 (thorough 6) arbitrary characters; texts of 16 (thorough 26) lines with one or two edits of one arbitrary character; several files.", [
    E("h_c21_bytes", ["refused", "shown"], "a file of 0..2 arbitrary bytes added, deleted or changed to another", jobs=4),
    E("h_c21_text", ["same", "changed"], "two texts of 0..4 (thorough 6) arbitrary ASCII characters, or one of them absent", tparams={"chars": 6}, jobs=8),
    E("h_c21_long", ["one hunk", "two hunks"], "16 (thorough 26) distinct or equal lines; one or two edits up to 10 lines apart (replace, remove, insert) of one arbitrary character", params={"lines": 16, "distance": 11}, tparams={"lines": 26, "distance": 14}, jobs=8),
    E("h_c21_trees", ["one file", "several files"], "pairs of 7 (thorough 10) shapes, texts of one arbitrary line or none", params={"shapes": 7}, tparams={"shapes": 10}, jobs=8),
    E("h_c21_many", ["few hunks", "several hunks"], "260 (thorough 700) lines, one to four edits far apart of three kinds, one arbitrary character, with and without a last newline", tparams={"lines": 700}, jobs=6),
    E("h_c21_show", ["shown"], "show and log of commits and trees in each of their ways", jobs=6),
])

prop("C12", "Sequences of three (thorough four) commits by the program to two (thorough four) ways of naming a branch, with edits of arbitrary bytes in between, of the whole tree or of parts.", [
    E("h_c12_commits", ["one branch", "several branches"], "3 (thorough 4) commits; branch named or current (thorough: also switched); 3 edits, one arbitrary byte each; 4 messages; path given or not", params={"branches": 2}, tparams={"branches": 4, "commits": 4}, jobs=8),
    E("h_c22_fault", ["failed", "went on", "no failure"], "a commit during which one call to the system fails, anywhere: it fails or has the previous tip as its parent", params={"commands": 1}, tparams={"faults": 2}, jobs=8),
    E("h_c12_long", ["long"], "the program: 12 (thorough 60) commits on one branch, its references and log", tparams={"commits": 60}, jobs=2),
])

prop("C22", "Nine commands with one failing system call anywhere in the file system (every call of every kind), sixteen requests that cannot be met.", [
    E("h_c22_fault", ["failed", "went on", "no failure", "unconfirmed"], "9 commands, one failing call (open, read, write, sync, truncate, create, remove, list, ...) anywhere; one arbitrary byte in the tree", jobs=8, tparams={"faults": 2}),
    E("h_c23_locked", ["failed", "waited"], "9 commands while another process holds a lock on the database or the hash cache", jobs=8),
    E("h_c22_bad", ["failed"], "16 requests for absent files, keys and references, wrong types of objects, dangling links", jobs=4),
])

prop("C23", "Nine commands with one failing system call anywhere in the file system, including every call of the final commit; a power failure right after success.", [
    E("h_c22_fault", ["failed", "went on", "no failure"], "9 commands, one failing call anywhere; what a command that reports success should have stored is read back", jobs=8, tparams={"faults": 2}),
    E("h_c23_power", ["done"], "9 commands; right after success the power fails: per file of the repository all of the changes since its last sync are kept, none, all but the last, only the last, or half of the last", jobs=8),
    E("h_c23_locked", ["failed", "waited"], "9 commands while another process holds a shared, reserved or exclusive lock on the database or the hash cache, released at once, after two waits or never", jobs=8),
])

prop("C24", "Nine commands killed before any one call that changes a file of the repository (thorough: killed again while recovering), initialising killed anywhere; the same with a power failure that takes what was not synced.", [
    E("h_c24_crash", ["as before", "as after"], "9 commands, killed before any modifying call; one arbitrary byte in the tree", jobs=8, tparams={"twice": 1, "cache": 1}),
    E("h_c24_power", ["as before", "as after"], "9 commands, power failure before any modifying call; unsynced changes of each file lost as in h_c23_power", params={"cache": 1}, jobs=8),
    E("h_c24_init", ["killed"], "init killed before any modifying call, with and without a power failure, then run again", jobs=4),
], assumptions=["a crash is the death of the process before a system call; with a power failure directories are on the disk at once, file contents from the next sync on, earlier ones in the five ways named; memory shared by processes is gone"])

prop("C25", "Pairs of committed tree and directory out of 6 (thorough 10) shapes with files of 0..1 arbitrary bytes and three (thorough four) sets of excludes; seven places outside; foreign trees and links; fourteen names.", [
    E("h_c25_trees", ["checked out", "in the way"], "pairs of 6 (thorough 10) shapes, files of 0..1 arbitrary bytes, 3 (thorough 4) sets of excludes", params={"shapes": 6, "excludes": 3}, tparams={"shapes": 10, "excludes": 4, "cwds": 2}, jobs=8),
    E("h_c25_outside", ["refused"], "7 places of the repository and of the working directory, 3 (thorough 8) shapes, 3 ways to commit, 4 edits", params={"shapes": 3}, tparams={"shapes": 8}, jobs=8),
    E("h_c25_large", ["checked out"], "files of 300, 4097, 9000, 70000 (thorough 140000) bytes with an arbitrary one at three places, 6 edits, the old or a new time", tparams={"sizes": 5}, jobs=8),
    E("h_c25_foreign", ["refused", "checked out"], "5 trees from elsewhere, a file as the root, 3 links out of the directory", jobs=4),
    E("h_c25_names", ["refused", "checked out"], "14 names in a crafted directory object", jobs=4),
    E("h_c25_links", ["checked out"], "a link at any of 9 places within the directory to any of 13 places within it (files, directories, excluded ones, the database, nothing), 3 sets of excludes, arbitrary bytes", tparams={"lens": 1}, jobs=8),
    E("h_c05_short", ["written"], "fetch, checkout, show and insert of a file of 2, 9000 or 40000 bytes, one arbitrary; one (thorough two) write of any file, of the database or of the output that takes one byte, all but one, or is interrupted", jobs=6, tparams={"shorts": 2}),
])

prop("C26", "Three states of two branches, fourteen edits of arbitrary bytes, two (thorough three) branches to switch to.", [
    E("h_c26_switch", ["switched", "refused"], "3 states of the branches, 14 edits with up to two arbitrary bytes, 2 (thorough 3) target branches, 2 working directories", params={"to": 2}, tparams={"to": 3}, jobs=8),
    E("h_c26_again", ["switched", "refused"], "a second edit and a second switch, back", jobs=8, tparams={"twice": 1}),
])

prop("C27", "Chains of one to three (thorough four) commits of 4 (thorough 7) tree shapes, with and without a second parent; the program's log after 14 edits.", [
    E("h_c27_log", ["one", "several"], "1..3 (thorough 4) commits, 4 (thorough 7) tree shapes each, second parents, statistics or patches", params={"shapes": 4}, tparams={"shapes": 7, "commits": 4}, jobs=8),
    E("h_c27_cli", ["dev", "master"], "the program: 6 (thorough 14) edits between two commits, 4 ways to name the start", params={"edits": 6}, tparams={"edits": 14}, jobs=8),
    E("h_c12_long", ["long"], "the program: 12 (thorough 60) commits on one branch, its references and log", tparams={"commits": 60}, jobs=2),
    E("h_c27_long", ["chain"], "chains of 2, 40 (thorough 120) commits of alternating or equal trees, with equal or different messages", jobs=8, params={"counts": 2}, tparams={"counts": 3}),
    E("h_c21_show", ["shown"], "show and log of commits and trees in each of their ways", jobs=6),
])

prop("C28", "All placements of repositories on three nested levels, three working directories, four commands; creating one in three ways with and without an enclosing one.", [
    E("h_c28_nearest", ["found", "none"], "8 placements on 3 levels, 3 working directories, 4 commands, one arbitrary byte", jobs=4),
    E("h_c28_init", ["alone", "nested"], "3 ways to name the database folder, with and without an enclosing repository, repeated", jobs=4),
    E("h_c28_moved", ["link", "moved"], "a database folder that is a link to three places; a repository moved with its directory to two, before or after a commit; 2 working directories, arbitrary bytes", jobs=4),
    E("h_c28_deep", ["outer", "inner"], "24 (thorough 60) nested levels, two repositories among them", tparams={"levels": 60}, jobs=3),
])

prop("C29", "Thirteen reading commands with one (thorough two) failing system calls anywhere.", [
    E("h_c29_fault", ["failed", "went on", "no failure"], "16 commands over two commits and an edited directory, two arbitrary characters; one (thorough two) failing call anywhere (open, read, stat, list, write, write to standard output, ...)", jobs=8, tparams={"faults": 2}),
    E("h_c29_missing", ["failed", "not needed"], "the same 16 commands, any one stored object missing", jobs=8),
    E("h_c02_cli", ["failed", "stored"], "insert of a directory with one file of 9000 bytes (3 arbitrary); one failing open/read/readdir and one EINTR anywhere"),
])

prop("C30", "Eighteen requests that cannot be met, nineteen that can, three commands with one failing system call anywhere.", [
    E("h_c30_status", ["failed", "succeeded"], "18 requests that cannot be met, 22 that can, two arbitrary bytes in the tree", jobs=6),
    E("h_c30_fault", ["failed", "succeeded"], "commit, compare, insert with one failing call anywhere", jobs=8),
])

prop("C31", "Forty commands in two working directories, two arbitrary bytes in the tree.", [
    E("h_c31_look", ["looked", "stored"], "16 reading and 24 storing commands, 2 working directories, two arbitrary bytes; references, current branch, objects, names, contents and times of files", jobs=8),
])

prop("C32", "Five (thorough ten) commands, each with one of four (thorough five) others run to its end before any one of its calls on the repository (thorough: on any file); one arbitrary byte.", [
    E("h_c32_pair", ["alone", "both", "the first"], "5 (thorough 10) commands interrupted before any one call on a file of the repository (thorough: any file) by the whole run of one of 4 (thorough 5) others", params={"firsts": 5, "seconds": 4}, tparams={"firsts": 10, "seconds": 5, "tree": 1}, jobs=8),
], assumptions=["of two commands one is interrupted once, before a system call, and the other runs to its end there (a wait for a lock ends without the first one going on); locks and shared memory of files are modelled after POSIX"])

prop("C33", "Two (thorough three) commands that name objects, each with any kind of stored object or none; three (thorough four) commands in two nested repositories with one cache.", [
    E("h_c33_named", ["refused", "done"], "2 (thorough 3) of 5 commands, each naming a commit, a directory, a file, its data, a commit just made, or nothing", tparams={"steps": 3}, jobs=8),
    E("h_c33_nested", ["done"], "3 (thorough 4) of 6 commands or edits in an inner or an outer repository, arbitrary bytes", tparams={"steps": 4}, jobs=8),
])

prop("C34", "A directory of five entries with a file of 0, 1, 24, 256 or 4097 bytes, its ends arbitrary; three messages; commits, references, comparisons; a repository written down by the harness, read by seven commands.", [
    E("h_c34_write", ["stored"], "what commit, set-head, ref update, reflog-push, commit-tree and compare store, row by row and byte by byte", jobs=4),
    E("h_c34_read", ["read"], "a repository in the stored form, made by the harness with SQL, read by status, fetch, ref log, log, get-head and continued by commit", jobs=6),
])

prop("C35", "Files of 0, 1, 2 (all arbitrary), 5000 or 40000 (thorough 140000) bytes (one arbitrary), a directory of six entries, every object of it.", [
    E("h_c35_show", ["file", "text", "stored directory", "directory", "tree", "object"], "show, walk-tree, walk-fs-tree and pretty-print on a directory of six entries with a file of 0, 1, 2 arbitrary bytes, or 5000 or 40000 (thorough 140000) with an arbitrary one first, in the middle or last", tparams={"sizes": 6}, jobs=8),
    E("h_c05_short", ["written"], "fetch, checkout, show and insert of a file of 2, 9000 or 40000 bytes, one arbitrary; one (thorough two) write of any file, of the database or of the output that takes one byte, all but one, or is interrupted", jobs=6, tparams={"shorts": 2}),
])

NOT_APPLICABLE = {}
