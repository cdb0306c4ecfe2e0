"""What each check runs: harness entries (harness/src/lib.rs), their bounds, and
what they have to reach for their verdict to mean something."""

ASSUMPTIONS = [
    "The decided program is the LLVM IR rustc emits for /repo, its dependencies, std and the harness (release profile with overflow checks and debug assertions), after LLVM's O2 pipeline without vectorisation.",
    "The engine's execution of that IR and the solver's answers are trusted; every reported violation is confirmed natively, and a sample of the explored paths is re-run natively and has to give the same observations.",
    "Allocation never fails; one thread.",
]

SYNTAX_MODEL = "syntect is replaced by a model (models/syntect) with its interface and scope stack: what a syntax definition does with a line is arbitrary within the bounds, rather than what a particular definition does."
FILE_MODEL = "System calls are the engine's model of a file system (regular files, directories, symbolic links, reads and writes cut short or failing where the entry says so), confirmed natively by re-running samples on a real one."
SMALL_HEAP = "Hash seeds are fixed; the process id, the clock and the environment are constants."


def E(entry, bounds, covers=(), **kw):
    return dict(entry=entry, bounds=bounds, covers=list(covers), **kw)


CHECKS = {}


def check(prop, quick, deep=(), assumptions=()):
    CHECKS[prop] = dict(quick=quick, thorough=quick + list(deep), assumptions=list(assumptions))


# Characters, each a symbolic value within its class.
LINES = "printable ASCII and LF"
BREAKS = "printable ASCII, LF, CR and combining marks"
CLUSTERS = "printable ASCII, LF, CR, combining marks, ZWJ, emoji and regional indicators"
EVERYTHING = "all of ASCII, combining marks, Latin letters, NEL, LS/PS, CJK, ZWJ, emoji, regional indicators, Hangul L/V/T, prepended and spacing marks, skin tones, BOM, Cyrillic letters, the no-break space, private characters of the last plane"
SHAPES = "any text of 10 shapes of 3 to 21 chars (lines, CR LF, clusters of several and many chars, other separators, scripts, CRs, wide), every char any of its class"
BIG = "any text of 3 shapes of 300 to 1000 chars (a wide line, many lines, both), the first and last letter any"
MASSIVE = "texts with a line of 65600 clusters, of ASCII and of others from the middle on, with such a line and short ones behind, or with 65600 lines, the first and last letter any"
ANY = "any 64-bit line and offset"
AMID = "amid a session: after none and each of any 4 steps out of 4 edits, undo, redo, groups, save and reload"
HIST = [1, 2, 3, 4]

check("C01", [
    E("c01_insert", "any text of up to 3 chars of %s; gap of 0, 1 or 5 bytes anywhere; any existing position; any inserted text of up to 2 such chars" % BREAKS, [1, 2]),
    E("c01_delete", "any text of up to 3 chars of %s; gap of 0, 1 or 5 bytes anywhere; any range of existing positions" % CLUSTERS, [1, 2]),
    E("c01_sequence", "any text of up to 2 %s, any 3 edits at any existing positions, inserting 1 char, or 9 bytes" % LINES, [1, 2]),
    E("c01_large", "a text of 90 bytes, any 2 edits at 9 places, inserting any 2 ASCII chars along with 1 or 300 bytes, or deleting to the line or the end"),
    E("c01_buffer", "any text of up to 2 chars of %s, 2 edits through the buffer's cursor" % BREAKS, [1, 2, 3]),
    E("c01_shapes", SHAPES + "; gap of 0 or 3 bytes anywhere; any existing position; any of 7 short texts inserted", [2]),
    E("c01_shapes_delete", SHAPES + "; gap of 0 or 3 bytes anywhere; any range of existing positions", [1, 2]),
    E("c01_wide", "any text of up to one char, and any text of up to one inserted, of %s" % EVERYTHING, [1, 2]),
    E("c01_huge", "a text of 90 bytes, any 2 ASCII chars along with 5000 bytes inserted at 9 places"),
    E("c01_big", BIG + "; about 15 places; texts of 1 and 650 bytes inserted, deletions and reads between any two of these", [1, 2, 3]),
    E("c01_amid", "any 3 steps out of 4 edits, undo, redo, groups, save and reload; then any of 3 texts inserted, or a deletion, at any places", [1, 2, 3, 4, 5, 6]),
    E("c01_massive", MASSIVE + "; about 10 places; one char or 66000 bytes inserted, or what is before or after deleted", [1, 2], steps=2000000000),
], [
    E("c01_insert_deep", "as c01_insert with up to 4 chars", [1, 2]),
    E("c01_insert_classes", "any text of up to 2 chars of %s; gap of 0 or 2 bytes; any inserted char of these" % EVERYTHING, [1, 2]),
    E("c01_delete_deep", "as c01_delete with up to 4 chars", [1, 2]),
    E("c01_delete_classes", "any text of up to 2 chars of %s; any range of existing positions" % EVERYTHING, [1, 2]),
    E("c01_sequence_deep", "as c01_sequence with texts of up to 3 chars", [1, 2]),
    E("c01_large_deep", "as c01_large with 120 bytes, and 3000 bytes inserted"),
    E("c01_buffer_deep", "as c01_buffer with texts of up to 3 chars", [1, 2, 3]),
    E("c01_big_deep", BIG + "; every place", [1, 2, 3]),
    E("c01_massive_deep", MASSIVE + "; about 10 places; insertions, deletions and reads between any two of these", [1, 2, 3], steps=2000000000),
])

check("C02", [
    E("c02_insert", "any text of up to 3 chars of %s; gap of 0 or 3 bytes anywhere; %s that doesn't exist; 0, 1 or 20 bytes inserted; followed by an insertion at any existing position" % (BREAKS, ANY), [1]),
    E("c02_delete", "any text of up to 3 chars of %s; gap of 0 or 3 bytes anywhere; %s for both ends; followed by an insertion at any existing position" % (BREAKS, ANY), [1, 2, 3]),
    E("c02_buffer", "any text of up to 3 chars of %s; the buffer's insert, delete, delete_range and read with %s for cursor and range" % (BREAKS, ANY), [1, 2, 3, 4]),
    E("c02_shapes", SHAPES + "; %s that doesn't exist" % ANY, [1]),
    E("c02_shapes_delete", SHAPES + "; %s for both ends of a deletion" % ANY, [1, 2, 3]),
    E("c02_amid", "the same steps; then an insertion or deletion at %s that doesn't exist" % ANY, [1, 2, 3, 4, 5, 6]),
    E("c02_massive", MASSIVE + "; insertion at, and deletion to, 16 places beyond", [1], steps=2000000000),
], [
    E("c02_insert_deep", "as c02_insert with up to 4 chars of %s" % CLUSTERS, [1]),
    E("c02_delete_deep", "as c02_delete with up to 4 chars of %s" % CLUSTERS, [1, 2, 3]),
    E("c02_buffer_deep", "as c02_buffer with up to 4 chars of %s" % CLUSTERS, [1, 2, 3, 4]),
])

check("C03", [
    E("c03_existence", "any text of up to 4 chars of %s; gap of 0 or 2 bytes anywhere; %s" % (CLUSTERS, ANY), [0, 1]),
    E("c03_reads", "any text of up to 3 chars of %s; gap of 0 or 2 bytes anywhere; %s for both ends" % (CLUSTERS, ANY), [0, 1]),
    E("c03_after", "any text of up to 2 chars of %s; any insertion of one char and any deletion; %s" % (BREAKS, ANY), [1]),
    E("c03_shapes", SHAPES + "; gap of 0 or 2 bytes anywhere; %s" % ANY, [0, 1]),
    E("c03_shapes_reads", SHAPES + "; gap of 0 or 2 bytes anywhere; %s for both ends" % ANY, [0, 1]),
    E("c03_wide", "any text of up to 2 chars of %s; gap of 0 or 2 bytes anywhere; %s" % (EVERYTHING, ANY), [0, 1]),
    E("c03_big", BIG + "; gap of 3 bytes or none; %s, and reads from there to either end" % ANY, [1, 2]),
    E("c03_amid", AMID + ": reads of the text at every place, and beyond every line", [1, 2, 3, 4, 5]),
    E("c03_massive", MASSIVE + "; 24 positions in and beyond, and reads up to these", [1, 2], steps=2000000000),
], [
    E("c03_existence_deep", "as c03_existence with up to 5 chars", [0, 1]),
    E("c03_existence_classes", "any text of up to 3 chars of %s; gap of 0 or 2 bytes anywhere; %s" % (EVERYTHING, ANY), [0, 1]),
    E("c03_reads_deep", "as c03_reads with up to 4 chars", [0, 1]),
    E("c03_after_deep", "as c03_after, inserting 2 chars", [1]),
])

check("C04", [
    E("c04_edit", "any text of up to 2 chars of %s; any one effective edit (insert of up to 2 chars, delete, delete_range with an end anywhere, replace), undone and redone" % BREAKS, HIST + [11, 13]),
    E("c04_edits", "any text of up to 1 of %s; any 2 effective edits, undone and redone" % LINES, HIST + [11, 13]),
    E("c04_walk", "any 6 steps out of 3 edits, undo and redo; then back to the beginning and forth", [1, 2, 3, 11, 12, 13, 14]),
    E("c04_ineffective", "any text of up to 2 chars of %s; any edit at a position that doesn't exist, or identical replacement" % BREAKS, HIST),
    E("c04_shapes", SHAPES + "; any one effective edit, undone and redone", HIST + [11, 13]),
    E("c04_wide", "any text of up to one char of %s; any one effective edit inserting one such, undone and redone" % EVERYTHING, HIST + [11, 13]),
    E("c04_big", BIG + "; edits at about 15 places, undone and redone", HIST + [11, 13]),
    E("c04_long", "20000 edits, undone wholly or in part and redone", [1, 2, 3, 11, 12, 13, 14], steps=2000000000),
    E("c04_files", "any 6 steps out of an edit, undo, redo, save and reload, of a buffer opened or saved later; then back to the beginning and forth", [1, 11, 12, 13, 14, 41, 42]),
    E("c04_massive", MASSIVE + "; edits at about 10 places, undone and redone", HIST + [11, 13], steps=2000000000),
], [
    E("c04_long_deep", "as c04_long with 66000 edits", [1, 2, 3, 11, 12, 13, 14], steps=4000000000),
    E("c04_edit_deep", "as c04_edit with up to 3 chars of %s" % CLUSTERS, HIST + [11, 13]),
    E("c04_edits_deep", "as c04_edits with up to 2 chars, inserting up to 2", HIST + [11, 13]),
    E("c04_edits_three", "as c04_edits with 3 edits", HIST + [11, 13]),
    E("c04_walk_deep", "any 7 steps out of 4 edits, undo and redo", HIST + [11, 12, 13, 14]),
    E("c04_ineffective_deep", "as c04_ineffective with up to 3 chars of %s" % CLUSTERS, HIST),
])

check("C05", [
    E("c05_discard", "any text of up to 1 of %s; any effective edit, undone; then any other, in a group or not; redo" % LINES, HIST + [11, 13, 14, 15]),
    E("c05_walk", "any 6 steps out of 2 edits, undo, redo, starting and ending groups; then back to the beginning and forth", [1, 2, 11, 12, 13, 14, 15, 16, 17]),
    E("c05_long", "5000 edits in groups of 1, 3 or 5000, undone in part, edited, redone", [1, 2, 3, 11, 12, 13, 14], steps=2000000000),
    E("c05_files", "any 5 steps out of an edit, undo, redo, groups, save and reload, of a buffer opened or saved later; then back to the beginning and forth", [1, 11, 12, 13, 14, 15, 16, 17, 41, 42]),
], [
    E("c05_long_deep", "66000 edits in groups of 1 or 3, as in c05_long", [1, 2, 3, 11, 12, 13, 14], steps=4000000000),
    E("c05_discard_deep", "as c05_discard with up to 2 chars of %s" % BREAKS, HIST + [11, 13, 14, 15]),
    E("c05_walk_deep", "any 7 steps, out of 3 edits", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17]),
])

check("C06", [
    E("c06_group", "any text of up to 1 of %s; any 2 effective edits in a group, ended or not; undone and redone" % LINES, HIST + [11, 13]),
    E("c06_walk", "any 6 steps out of 2 edits, undo, redo, starting and ending groups; then back to the beginning and forth", [1, 2, 11, 12, 13, 14, 15, 16, 17]),
    E("c06_long", "12000 edits in groups of 2, 5 or 12000, undone wholly or in part and redone", [1, 2, 3, 11, 12, 13, 14], steps=2000000000),
    E("c06_spread", "a group of 3 to 1100 edits at the end of the content but for one, the first, middle or last, of 4 kinds; undone and redone", [1, 2, 3, 4, 11, 13]),
    E("c06_files", "any 5 steps out of an edit, undo, redo, groups, save and reload, of a buffer opened or saved later; then back to the beginning and forth", [1, 11, 12, 13, 14, 15, 16, 17, 41, 42]),
], [
    E("c06_long_deep", "as c06_long with 66000 edits, in groups of 2, 5, or 66000", [1, 2, 3, 11, 12, 13, 14], steps=4000000000),
    E("c06_group_deep", "as c06_group with up to 2 chars of %s" % BREAKS, HIST + [11, 13]),
    E("c06_group_three", "as c06_group with 3 edits", HIST + [11, 13]),
    E("c06_walk_deep", "any 7 steps, out of 3 edits", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17]),
])

check("C07", [
    E("c07_edits", "any file of up to 1 of %s; any 2 effective edits, each after a save or not; undone and redone" % LINES, HIST + [11, 12, 13, 14, 21, 22]),
    E("c07_walk", "any 5 steps out of 2 edits, undo, redo, save, reload of the same or other content, starting and ending groups; then back to the beginning and forth", [1, 2, 11, 12, 13, 14, 15, 16, 17, 21, 22, 41, 42]),
    E("c07_plain", "any 5 steps of these but groups", [1, 2, 11, 12, 13, 14, 21, 22, 41, 42]),
    E("c07_new", "any 5 steps out of 2 edits, undo, redo, groups and failing saves and reloads of a buffer without file; then saved, or not", [1, 2, 11, 12, 13, 14, 15, 16, 17, 21, 22, 43]),
    E("c07_long", "150 edits, a save or reload, 150 more in groups of 1, 3 or 150; undone wholly or in part and redone", [1, 2, 3, 11, 12, 13, 14, 21, 22]),
    E("c07_pathless", "any 3 steps as in c07_walk; the path then taken away and given back", [1, 2, 11, 12, 13, 14, 16, 17, 21, 22, 41, 42]),
    E("c07_shapes", "files: " + SHAPES + "; any effective edit, after a save or not; undone and redone", HIST + [11, 12, 13, 14, 21, 22]),
    E("c07_massive", "65600 edits, in a group or not; saved before, amid or after; undone and redone", [1], steps=2000000000),
], [
    E("c07_edits_deep", "as c07_edits with files of up to 2 chars of %s" % BREAKS, HIST + [11, 12, 13, 14, 21, 22]),
    E("c07_walk_deep", "any 6 steps, out of 3 edits", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17, 21, 22, 41, 42]),
    E("c07_plain_deep", "any 6 steps, out of 3 edits, without groups", [1, 2, 3, 11, 12, 13, 14, 21, 22, 41, 42]),
    E("c07_new_deep", "as c07_new with 7 steps", [1, 2, 11, 12, 13, 14, 15, 16, 17, 21, 22, 43]),
    E("c07_pathless_deep", "as c07_pathless with 4 steps", [1, 2, 11, 12, 13, 14, 16, 17, 21, 22, 41, 42]),
], [FILE_MODEL])

check("C08", [
    E("c08_open", "any file of up to 4 bytes of any value, by 7 spellings of its path", [1, 2]),
    E("c08_open_long", "a file of 200 bytes, opened and saved", [1]),
    E("c08_open_fails", "opening with 10 kinds of failure, or reads interrupted or in pieces", [1, 2]),
    E("c08_save", "any text of up to 2 chars of %s; any 2 effective edits; over a shorter or longer file, a new one, or by a link; undone and redone after saving" % BREAKS, HIST + [11, 13]),
    E("c08_save_large", "a text of 300 bytes; any 2 ASCII chars inserted at 6 places, twice", [1]),
    E("c08_save_fails", "any 4 steps out of 2 edits, undo and starting groups; 7 kinds of failure, or writes interrupted or in pieces", [1, 2, 3, 11, 12, 13, 14, 16]),
    E("c08_shapes", SHAPES + "; any effective edit; saved as in c08_save", HIST + [11, 13]),
    E("c08_named", "files named by any byte, alone or after 4 beginnings (one of 250 bytes, one that is not UTF-8), and 11 other unusual names; saved, opened, altered, reloaded, saved", [1]),
    E("c08_shared", "any 4 steps out of saving, reloading, editing, undo, and the file being overwritten (with its modification time kept or not) or replaced", [1, 2, 3, 11, 12]),
    E("c08_open_large", "a file of 30000 bytes, opened and saved", [1]),
    E("c08_massive", "a file of 1.1 MB with one byte of any ASCII value, opened and saved", [1], steps=2000000000),
], [
    E("c08_open_deep", "any file of up to 6 bytes of any value", [1, 2]),
    E("c08_open_long_deep", "a file of 2000 bytes", [1]),
    E("c08_massive_deep", "a file of 17 MB with one byte of any ASCII value, opened and saved", [1], steps=20000000000),
    E("c08_save_deep", "as c08_save with up to 3 chars of %s" % CLUSTERS, HIST + [11, 13]),
    E("c08_save_large_deep", "as c08_save_large with 2000 bytes", [1]),
    E("c08_save_fails_deep", "as c08_save_fails with 6 steps", [1, 2, 3, 11, 12, 13, 14, 16]),
    E("c08_shared_deep", "as c08_shared with 5 steps", [1, 2, 3, 11, 12]),
], [FILE_MODEL])

check("C09", [
    E("c09_reload", "any file of up to 1 char of %s; any effective edit or none; the cursor anywhere; reloaded with any content of up to 2 such chars, or bytes that aren't UTF-8" % BREAKS, HIST + [11, 12, 13, 14]),
    E("c09_fails", "any 3 steps out of 2 edits, undo and groups; the cursor anywhere; 7 kinds of failure, or reads interrupted or in pieces", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17]),
    E("c09_shapes", "files: " + SHAPES + "; the cursor anywhere; reloaded with any of 7 short texts, or bytes that aren't UTF-8", [1, 3, 11, 12, 13, 14]),
    E("c09_named", "files named by any byte, alone or after 4 beginnings (one of 250 bytes, one that is not UTF-8), and 11 other unusual names; saved, opened, altered, reloaded, saved", [1]),
    E("c09_shared", "any 4 steps out of saving, reloading, editing, undo, and the file being overwritten (with its modification time kept or not) or replaced", [1, 2, 3, 11, 12]),
    E("c09_near", "texts of 40 to 66000 bytes, reloaded with one that differs in one printable ASCII character at one of 6 places, and back, twice", [1], steps=2000000000),
    E("c09_massive", MASSIVE + "; reloaded with other such, or short ones; the cursor at about 10 places", [1, 2, 3], steps=2000000000),
], [
    E("c09_reload_deep", "as c09_reload with files of up to 2 chars", HIST + [11, 12, 13, 14]),
    E("c09_fails_deep", "as c09_fails with 5 steps", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17]),
    E("c09_shared_deep", "as c09_shared with 5 steps", [1, 2, 3, 11, 12]),
], [FILE_MODEL])

check("C10", [
    E("c10_edit", "any text of up to 2 chars of %s; any effective edit (inserting up to 2 chars), undone and redone" % BREAKS, HIST + [11, 13, 31]),
    E("c10_group", "any text of up to 1 of %s; any 2 effective edits in a group; undone and redone" % LINES, HIST + [11, 13, 31]),
    E("c10_walk", "any 5 steps out of 3 edits, undo, redo and groups; then back to the beginning and forth", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17, 31]),
    E("c10_reload", "any 4 steps out of 2 edits, undo, redo, groups, save and reload; then back to the beginning and forth", [1, 2, 11, 12, 13, 14, 15, 16, 17, 31, 41, 42]),
    E("c10_shapes", SHAPES + "; any effective edit, undone and redone", HIST + [11, 13, 31]),
    E("c10_big", BIG + "; edits at about 15 places, undone and redone", HIST + [11, 13, 31]),
    E("c10_spread", "a group of 3 to 1100 edits at the end of the content but for one, the first, middle or last, of 4 kinds; undone and redone", [1, 2, 3, 4, 11, 13, 31]),
    E("c10_long", "70 edits, a save or reload, 70 more in groups of 1, 3 or 70; undone wholly or in part and redone", [1, 2, 3, 11, 12, 13, 14, 31]),
], [
    E("c10_edit_deep", "as c10_edit with up to 3 chars of %s" % CLUSTERS, HIST + [11, 13, 31]),
    E("c10_edits_deep", "any text of up to 2 of %s; any 2 effective edits; undone and redone" % LINES, HIST + [11, 13, 31]),
    E("c10_group_deep", "as c10_group with up to 2 chars", HIST + [11, 13, 31]),
    E("c10_walk_deep", "any 6 steps, out of 4 edits", HIST + [11, 12, 13, 14, 15, 16, 17, 31]),
    E("c10_reload_deep", "any 5 steps, out of 3 edits", [1, 2, 3, 11, 12, 13, 14, 15, 16, 17, 31, 41, 42]),
    E("c10_massive_deep", MASSIVE + "; edits at about 10 places, undone and redone", HIST + [11, 13, 31], steps=2000000000),
], [FILE_MODEL])

MOVES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 20]
check("C11", [
    E("c11_moves", "any text of up to 3 chars of %s; gap of 0 or 2 bytes anywhere; from any existing position, any one movement (explicit ones to %s)" % (CLUSTERS, ANY), MOVES),
    E("c11_sequence", "any text of up to 3 chars of %s; from any existing position, any 2 movements" % BREAKS, MOVES),
    E("c11_shapes", SHAPES + "; from any existing position, any one movement", MOVES),
    E("c11_wide", "any text of up to 2 chars of %s; from any existing position, any one movement" % EVERYTHING, MOVES),
    E("c11_walk", "3 texts of several lines; from any existing position, any 4 movements but explicit ones", MOVES[1:]),
    E("c11_big", BIG + "; from about 15 places, any movement but explicit ones", MOVES[1:]),
    E("c11_amid", AMID + ": explicit moves to every position and beyond, and 8 other movements", [1, 2, 3, 4, 5, 6, 7, 8]),
    E("c11_massive", MASSIVE + "; from about 10 places, any movement but explicit ones", MOVES[1:], steps=2000000000),
], [
    E("c11_moves_deep", "as c11_moves with up to 4 chars", MOVES),
    E("c11_sequence_deep", "as c11_sequence with 3 movements", MOVES),
    E("c11_classes", "any text of up to 2 chars of %s; any one movement" % EVERYTHING, MOVES),
    E("c11_big_deep", BIG + "; from every place", MOVES[1:]),
])

check("C12", [
    E("c12_moves", "any text of up to 3 chars of %s; from any existing position, any 2 movements" % BREAKS, MOVES + [21, 22]),
    E("c12_clusters", "any text of up to 3 chars of %s; gap of 0 or 2 bytes anywhere; any one movement" % CLUSTERS, MOVES + [21]),
    E("c12_shape", "up to 3 lines of up to 2 accented letters, separated by LF or CR LF; from any existing position, any 2 movements", MOVES + [21, 22]),
    E("c12_shapes", SHAPES + "; from any existing position, any one movement", MOVES + [21]),
    E("c12_wide", "any text of up to 2 chars of %s; from any existing position, any one movement" % EVERYTHING, MOVES + [21]),
    E("c12_walk", "3 texts of several lines; from any existing position, any 4 movements but explicit ones", MOVES[1:] + [21, 22]),
    E("c12_big", BIG + "; from about 15 places, any movement but explicit ones", MOVES[1:] + [21]),
    E("c12_amid", "a movement from anywhere, any 3 steps out of an insertion, 2 deletions, undo, redo, groups and save, which leave the cursor alone; then any vertical movement", [21, 22, 31, 32, 33, 11, 13, 16, 17]),
    E("c12_far", "lines of 300 clusters and of less in turn; from 4 places of each; any 4 vertical movements", [3, 4, 5, 6, 20, 21, 22]),
    E("c12_far_massive", "lines of 65600 clusters and of less in turn; from 2 places of each; any 2 vertical movements", [3, 4, 5, 6, 20, 21, 22], steps=2000000000),
    E("c12_massive", MASSIVE + "; from about 10 places, any movement but explicit ones", MOVES[1:] + [21], steps=2000000000),
], [
    E("c12_moves_deep", "as c12_moves with up to 4 chars", MOVES + [21, 22]),
    E("c12_clusters_deep", "as c12_clusters with up to 4 chars", MOVES + [21]),
    E("c12_shape_deep", "as c12_shape with up to 2 lines and 3 movements", MOVES + [21, 22]),
    E("c12_far_deep", "as c12_far with lines of 300 or 5000 clusters, and any 6 movements", [3, 4, 5, 6, 20, 21, 22]),
    E("c12_big_deep", BIG + "; from every place", MOVES[1:] + [21]),
])

check("C13", [
    E("c13_replace", "any text and any replacement of up to 2 chars of %s each; the cursor anywhere; undone and redone, from anywhere" % BREAKS, HIST),
    E("c13_reload", "the same with a file of up to 2 of %s, reloaded" % LINES, HIST),
    E("c13_same", "any text of up to 2 chars of %s, replaced by itself in the middle of a history" % BREAKS, [1]),
    E("c13_large", "texts and replacements of 0, 10, 40, 85 and 120 bytes; the cursor anywhere", [1, 2, 3]),
    E("c13_shapes", SHAPES + "; any of 7 short replacements, as in c13_replace", [1, 2, 3]),
    E("c13_near", "texts of 40 to 66000 bytes, replaced by one that differs in one printable ASCII character at one of 6 places, and back, twice", [1], steps=2000000000),
    E("c13_massive", MASSIVE + "; replaced by other such, or short ones; the cursor at about 10 places", [1, 2, 3], steps=2000000000),
], [
    E("c13_replace_deep", "as c13_replace with texts of up to 3 chars", HIST),
    E("c13_reload_deep", "as c13_reload with texts of up to 3 chars of %s" % BREAKS, HIST),
    E("c13_same_deep", "as c13_same with up to 4 chars of %s" % CLUSTERS, [1]),
    E("c13_large_deep", "as c13_large with sizes 0, 1, 10, 39, 40, 41, 85, 120, 300", [1, 2, 3]),
], [FILE_MODEL])

check("C14", [
    E("c14_search", "any text of up to 3 chars and any term of 1 or 2 chars of %s" % BREAKS, HIST),
    E("c14_gap", "any text of up to 2 chars and any term of 1 or 2 chars of %s; gap of 0 or 3 bytes anywhere" % BREAKS, HIST),
    E("c14_wide", "any text of up to 3 chars and any term of one char of %s" % CLUSTERS, HIST),
    E("c14_shapes", "7 texts of several lines, the gap in front, amid or behind; 18 terms, and any of one or 2 chars of ASCII, combining marks, CJK, emoji, regional indicators, LS/PS", HIST),
    E("c14_classes", "any text of up to 2 chars and any term of one char of %s" % EVERYTHING, HIST),
    E("c14_big", BIG + "; any term of one or 2 printable ASCII chars", [1, 2, 4]),
    E("c14_long", "terms of 5, 17, 40, 70 and 300 letters, of 3 patterns, with any one printable char at 3 places; in lines containing them, or almost", [1, 2, 4]),
    E("c14_many", "a text of 30 lines with 600 occurrences of the term; 4 terms", [1, 2, 4], steps=2000000000),
    E("c14_amid", AMID + ": any term of one printable ASCII char", [1, 2, 3, 4, 5]),
    E("c14_massive", MASSIVE + "; any term of one printable ASCII char which doesn't occur all over a wide line", [1, 2, 4], steps=2000000000),
], [
    E("c14_many_deep", "as c14_many, with 35000 occurrences, over 1000 lines", [1, 2, 4], steps=20000000000),
    E("c14_long_deep", "as c14_long, with terms of 8 to 1100 chars", [1, 2, 4]),
    E("c14_search_deep", "as c14_search with texts of up to 5 chars", HIST),
    E("c14_gap_deep", "as c14_gap with texts of up to 4 and terms of up to 3 chars", HIST),
    E("c14_wide_deep", "any text of up to 4 chars and any term of 1 or 2 chars of %s; gap of 0 or 1 byte" % CLUSTERS, HIST),
])

check("C15", [
    E("c15_lines", "any text of up to 4 chars of %s" % CLUSTERS, [1, 2]),
    E("c15_edited", "any text of up to 2 chars of %s; any 2 insertions of one char, or deletions" % BREAKS, [1]),
    E("c15_shapes", SHAPES, [1, 2]),
    E("c15_wide", "any text of up to 3 chars of %s" % EVERYTHING, [1, 2]),
    E("c15_big", BIG, [1]),
    E("c15_amid", AMID + ": the line count", [1, 2, 3, 4, 5]),
    E("c15_massive", MASSIVE, [1], steps=2000000000),
], [
    E("c15_lines_deep", "as c15_lines with up to 6 chars", [1, 2]),
    E("c15_edited_deep", "as c15_edited with up to 3 chars", [1]),
])

check("C16", [
    E("c16_tokens", "any text of up to 3 chars of %s; up to 2 scope changes per line at any places: push of any scope, pop, no-op" % BREAKS, HIST),
    E("c16_scopes", "up to 2 printable ASCII chars; up to 3 scope changes: push of any scope, pop of 1 or 2, no-op, clear of 1 or all, restore", [1, 2, 4]),
    E("c16_clusters", "any text of up to 3 chars of %s; up to one push of any scope per line" % CLUSTERS, HIST),
    E("c16_workspace", "as c16_tokens with texts of up to 2 chars and one change per line, by way of the workspace", HIST),
    E("c16_shapes", SHAPES + "; up to one push or pop per line anywhere", HIST),
    E("c16_wide", "any text of up to 2 chars of %s; up to one push per line" % EVERYTHING, HIST),
    E("c16_dense", SHAPES + "; pushes and pops at every char, or at every other", [1, 2, 4]),
    E("c16_big", BIG + "; pushes and pops at every char, or at every other", [1, 2, 4]),
    E("c16_amid", AMID + ": the tokens, by way of a workspace", [1, 2, 3, 4, 5]),
    E("c16_nested", "3, 70 or 300 nested scopes, in one line or across lines, the first and last scope any", [1, 2, 4]),
    E("c16_definitions", "two buffers in a workspace; any 4 steps out of 3 replacements, an insertion, selecting, assigning one of 3 definitions, renaming with one of 3 extensions; the tokens after each", [1, 2, 4, 11, 12, 13, 14, 15]),
    E("c16_massive", MASSIVE + "; pushes and pops at every 20000th char of a line", [1, 2, 4], steps=2000000000),
], [
    E("c16_nested_deep", "as c16_nested with 1100 scopes", [1, 2, 4]),
    E("c16_definitions_deep", "as c16_definitions with 5 steps", [1, 2, 4, 11, 12, 13, 14, 15]),
    E("c16_tokens_deep", "as c16_tokens with up to 4 chars and one change per line", HIST),
    E("c16_clusters_deep", "as c16_clusters with up to 4 chars and 2 pushes per line", HIST),
    E("c16_workspace_deep", "as c16_workspace with up to 3 chars and 2 changes per line", HIST),
    E("c16_shapes_deep", "as c16_shapes with up to 2 changes per line", HIST),
], [SYNTAX_MODEL])

check("C17", [
    E("c17_failures", "any text of up to 3 %s; one scope change per line, valid or not; parsing failing at any line or none" % LINES, [1, 2, 4, 11, 12, 13, 14]),
    E("c17_scopes", "any text of up to 2 chars of %s; up to 2 scope changes per line, valid or not; parsing failing at any line or none" % BREAKS, HIST + [11, 12, 13, 14]),
    E("c17_workspace", "as c17_failures with up to 2 chars, by way of the workspace", [1, 2, 4, 11, 12, 13, 14]),
    E("c17_shapes", SHAPES + "; up to one push or invalid change per line; parsing failing at any line or none", [1, 2, 4, 11, 12, 13, 14]),
    E("c17_far", BIG + "; parsing failing, or an invalid scope change, at any of about 7 lines", [2, 4, 12, 13]),
    E("c17_massive", MASSIVE + "; parsing failing, or an invalid scope change, at line 65536", [4, 12, 13], steps=2000000000),
    E("c17_unavailable", "a workspace without buffers, or with one without syntax definition", [1, 2]),
], [
    E("c17_failures_deep", "as c17_failures with 2 changes per line", [1, 2, 4, 11, 12, 13, 14]),
    E("c17_scopes_deep", "as c17_scopes with up to 3 chars and one change per line", HIST + [11, 12, 13, 14]),
], [SYNTAX_MODEL])

check("C18", [
    E("c18_order", "any three positions (64-bit lines and offsets)", [1, 2]),
    E("c18_ranges", "any three positions", [1, 2]),
    E("c18_lines", "any three line numbers and any position", [1, 2]),
])

check("C19", [
    E("c19_adding", "any position and any distance (64-bit) whose sum doesn't overflow", [1, 2]),
    E("c19_distance", "any text of up to 2 chars of %s, within up to 2 before and 1 after" % BREAKS, [1, 2, 3]),
    E("c19_clusters", "any text of up to 3 chars of %s, within up to 1 before and 1 after" % CLUSTERS, [1, 2, 3]),
    E("c19_shapes", SHAPES + ", within any of 8 such before and after", [2]),
    E("c19_wide", "any text of up to 2 chars of %s, before up to one" % EVERYTHING, [1, 2, 3]),
    E("c19_big", BIG + "; between about 15 places", [1, 2]),
    E("c19_massive", MASSIVE + "; between about 10 places", [1, 2], steps=2000000000),
], [
    E("c19_distance_deep", "up to 2 chars within up to 3 before and 2 after", [1, 2, 3]),
    E("c19_clusters_deep", "up to 3 chars within up to 2 before and 1 after", [1, 2, 3]),
    E("c19_big_deep", BIG + "; from every place", [1, 2]),
])

check("C20", [
    E("c20_buffers", "any 7 steps out of adding, closing, selecting the next and the previous buffer, and editing", [1, 2, 3, 4, 5]),
    E("c20_many", "4 buffers, then any 5 such steps", [1, 2, 3, 4, 5]),
    E("c20_selected", "any 5 such steps, with files opened too", [1, 2, 3, 5, 11, 12]),
    E("c20_more", "12 buffers, then any 3 steps", [2, 3, 4, 5]),
    E("c20_states", "a buffer in 6 states (history, open groups, saved, without a path), with a remembered column, a callback and a definition; any 5 steps out of adding, selecting, opening, closing and editing others", [1, 2, 3, 4, 5, 6]),
    E("c20_massive", "300 buffers", [1]),
], [
    E("c20_buffers_deep", "any 9 steps", [1, 2, 3, 4, 5]),
    E("c20_many_deep", "6 buffers, then any 7 steps", [1, 2, 3, 4, 5]),
    E("c20_states_deep", "as c20_states with 6 steps", [1, 2, 3, 4, 5, 6]),
    E("c20_massive_deep", "65600 buffers", [1], steps=2000000000),
    E("c20_selected_deep", "any 7 steps", [1, 2, 3, 5, 11, 12]),
], [FILE_MODEL, SYNTAX_MODEL])

check("C21", [
    E("c21_ids", "any 5 steps out of adding buffers (empty, or with an id from elsewhere, too), opening, closing, selecting, editing, saving and reloading", [1, 2, 3, 4, 5, 6, 7]),
    E("c21_many", "300 buffers added, and all, some or none of them closed again", [1]),
    E("c21_massive", "65600 buffers added and closed again, beside another one", [1], steps=2000000000),
], [
    E("c21_ids_deep", "any 6 steps", [1, 2, 3, 4, 5, 6, 7]),
], [FILE_MODEL, SYNTAX_MODEL])

check("C22", [
    E("c22_opening", "any 3 steps out of opening two files by 5 and 3 spellings, 5 unopenable paths, a failing open, editing, closing, selecting, adding a buffer with a path", [1, 2, 3, 11, 12, 13, 14, 15]),
    E("c22_sequence", "any 5 such steps, one spelling each", [1, 2, 3, 11, 12, 13, 14, 15]),
    E("c22_among", "any 3 such steps, one spelling each, with 3 other buffers, or another one open", [2, 3, 11, 12, 13, 14, 15]),
    E("c22_altered", "any 5 steps out of opening 2 files, editing, closing, and a file being overwritten or replaced by others", [1, 2, 3, 11, 12]),
    E("c22_alike", "two files, or directories of files, whose names differ in one byte: one of 5, and any other; with an empty buffer opened before, in between or not", [3, 11, 12, 21]),
    E("c22_names", "files named by any byte, alone or after 4 beginnings, and 11 other unusual names; by 3 spellings", [2, 3, 11, 12]),
], [
    E("c22_opening_deep", "any 4 steps, all spellings", [1, 2, 3, 11, 12, 13, 14, 15]),
    E("c22_sequence_deep", "any 5 steps, two spellings each", [1, 2, 3, 11, 12, 13, 14, 15]),
    E("c22_altered_deep", "as c22_altered with 6 steps", [1, 2, 3, 11, 12]),
], [FILE_MODEL, SYNTAX_MODEL])

check("C23", [
    E("c23_paths", "2 buffers of 11 kinds of paths inside and outside, then any 2 steps out of adding, closing and selecting", HIST),
    E("c23_sequence", "any 4 such steps from an empty workspace", HIST),
    E("c23_three", "3 buffers, then any step", [1, 2, 4]),
    E("c23_neighbours", "directories whose names differ from the workspace's in any one ASCII character, or extend it by any one", [1, 5, 6]),
    E("c23_spelled", "a workspace by 10 spellings of its path; any 3 files opened by 9 spellings, inside and outside", [1, 2]),
    E("c23_rooted", "any 4 steps out of adding buffers of 5 kinds of paths and selecting, in a workspace at the root", HIST),
], [
    E("c23_spelled_deep", "as c23_spelled with 4 files", [1, 2]),
    E("c23_paths_deep", "2 buffers, then any 3 steps", HIST),
    E("c23_three_deep", "3 buffers, then any 2 steps", HIST),
    E("c23_sequence_deep", "any 5 steps from an empty workspace", HIST),
], [FILE_MODEL, SYNTAX_MODEL])

check("C24", [
    E("c24_syntaxes", "18 names, and any of up to 5 printable ASCII characters; with and without user definitions, another buffer, a definition the buffer already has", [1, 2, 3, 5, 6, 7]),
    E("c24_renamed", "the same with up to 4, renamed after being added", [1, 2, 3, 4, 5, 6, 7]),
    E("c24_opened", "any 5 steps out of opening 4 files, adding, closing and selecting", [1, 2, 3]),
    E("c24_kept", "any 6 steps out of adding, opening, selecting, saving and reloading, with a definition assigned", [1]),
], [
    E("c24_syntaxes_deep", "as c24_syntaxes with up to 7 characters", [1, 2, 3, 5, 6, 7]),
    E("c24_renamed_deep", "as c24_renamed with up to 5 characters", [1, 2, 3, 4, 5, 6, 7]),
    E("c24_opened_deep", "any 7 steps", [1, 2, 3]),
    E("c24_kept_deep", "any 7 steps", [1]),
], [FILE_MODEL, SYNTAX_MODEL])

check("C25", [
    E("c25_edits", "any file of up to 1 of %s; any 2 effective insertions and deletions, each with the cursor anywhere; undone and redone with the cursor anywhere" % LINES, [1, 2, 3, 11, 13, 21]),
    E("c25_single", "any file of up to 2 chars of %s; any one effective deletion, or insertion of up to 2, undone; the cursor anywhere" % BREAKS, [1, 2, 3, 11, 21]),
    E("c25_added", "any file of up to 1 of %s; any one effective deletion, or insertion of up to 3; undone and redone; the cursor anywhere" % LINES, [1, 2, 3, 11, 21]),
    E("c25_walk", "any 5 steps out of insertion, deletion, undo, redo, starting and ending groups, saving", [1, 3, 4, 11, 13, 16, 17, 21]),
    E("c25_replaced", "any 4 such steps, replacement and reload among them", [1, 3, 4, 5, 6, 11, 13]),
    E("c25_saving", "files of 4 contents, 3 names, 8 spellings; with 13 others around or not; any 3 steps out of saving, failing to, saving with the file gone, emptying, 2 insertions, undo, reload", [1, 2, 3, 4]),
    E("c25_large", "a file of 40 lines; an insertion of 1, 30 or 300 letters or lines, a deletion, or a group of as many edits, early, amid or late; undone and redone with the cursor early, amid or late", [1, 2, 3, 11, 13, 21]),
    E("c25_asking", "any 2 steps out of 2 edits, undo, groups and saving; the cursor anywhere; the range from any position to %s; any term of one printable ASCII char" % ANY, [1, 2, 11, 13]),
    E("c25_reading", "any text of up to 3 chars of %s; gap of 0 or 2 bytes anywhere; %s for both ends" % (BREAKS, ANY), [1, 2]),
    E("c25_workspace", "up to 3 buffers with paths inside, outside or none; any of them current", [1]),
], [
    E("c25_edits_deep", "as c25_edits with any char of %s" % BREAKS, [1, 2, 3, 11, 13, 21]),
    E("c25_added_deep", "as c25_added with files of up to 2 chars", [1, 2, 3, 11, 21]),
    E("c25_walk_deep", "as c25_walk with 6 steps", [1, 3, 4, 11, 13, 16, 17, 21]),
    E("c25_replaced_deep", "as c25_replaced with 6 steps", [1, 3, 4, 5, 6, 11, 13]),
    E("c25_saving_deep", "as c25_saving with 4 steps", [1, 2, 3, 4]),
    E("c25_large_deep", "as c25_large with 100 lines, and 3 to 1000 edits", [1, 2, 3, 11, 13, 21], steps=2000000000),
    E("c25_asking_deep", "as c25_asking with 3 steps", [1, 2, 11, 13]),
    E("c25_reading_deep", "as c25_reading with up to 4 chars of %s" % CLUSTERS, [1, 2]),
], [FILE_MODEL, SYNTAX_MODEL])

check("C26", [
    E("c26_names", "no path; paths of up to 4 arbitrary bytes (but NUL), alone or after one of 6 beginnings, of up to 600 bytes", [1, 2, 3, 4, 5]),
], [
    E("c26_names_deep", "as c26_names with up to 6 bytes", [1, 2, 3, 4, 5]),
])

check("C27", [
    E("c27_files", "opening, reloading, saving, opening in a workspace; 8 kinds of failure when reading, 7 when writing", HIST),
    E("c27_workspace", "workspaces that cannot be created, empty ones (just created or emptied), and buffers without definition", [1, 2]),
], [], [FILE_MODEL, SYNTAX_MODEL])

for _p in ["C01", "C02", "C03", "C04", "C05", "C06", "C11", "C12", "C14", "C15", "C16"]:
    if FILE_MODEL not in CHECKS[_p]["assumptions"]:
        CHECKS[_p]["assumptions"].append(FILE_MODEL)
