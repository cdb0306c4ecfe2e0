#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the long JSON lines stay editable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
GB="src/buffer/gap_buffer.rs"; B="src/buffer/mod.rs"; CU="src/buffer/cursor.rs"
INS="src/buffer/operation/insert.rs"; DEL="src/buffer/operation/delete.rs"; REP="src/buffer/operation/replace.rs"
GRP="src/buffer/operation/group.rs"; HIS="src/buffer/operation/history.rs"; WS="src/workspace.rs"
POS="src/buffer/position.rs"; RAN="src/buffer/range.rs"; LR="src/buffer/line_range.rs"; DI="src/buffer/distance.rs"
TI="src/buffer/token/token_iterator.rs"; TS="src/buffer/token/token_set.rs"; LI="src/util/line_iterator.rs"

p("C01","Edits change exactly the addressed text and nothing else",
 "Inserting text at an existing position yields the previous content with precisely that text spliced in at that position; deleting a range between two existing positions yields the previous content with precisely the text between them removed. This holds whatever sequence of edits at whatever places preceded it, and however much text is inserted or deleted.",
 ["inputs","histories"],"Every initial content, every sequence of inserts and deletes, every existing position or range, every inserted text, Unicode included.",
 "The unit tests make at most three edits to a handful of fixed strings; content is only at risk for particular combinations of previous edit location, free space and edit size, which they do not reach.",
 [GB],[("GapBuffer::insert",GB),("GapBuffer::delete",GB),("GapBuffer::move_gap",GB),("GapBuffer::write_to_gap",GB)],
 [dict(name="data/gap_start/gap_length",meaning="text stored in two segments around free space",where=GB)],
 ["GapBuffer::to_string","Buffer::data"])
p("C02","Edits at positions that do not exist are contained",
 "Inserting at, or deleting from, a position that does not exist leaves the content unchanged; deleting from an existing position to an end that does not exist removes everything up to the start of the line following the end's line when there is such a line, and everything up to the end of the document otherwise. No position or range value whatsoever, however large, makes an edit or a read crash or corrupt the content.",
 ["inputs","histories"],"Every content and edit history, every pair of 64-bit line/offset values for the positions.",
 "Tests use two or three hand-picked out-of-range positions on fresh buffers; they cannot cover all line/offset values nor their interaction with earlier edits.",
 [GB],[("GapBuffer::find_offset returns None",GB),("GapBuffer::delete fallbacks",GB)],None,["GapBuffer::to_string","GapBuffer::in_bounds","GapBuffer::read"])
p("C03","Positions address lines and grapheme clusters, by content alone",
 "A position exists exactly when its line exists (lines being separated by LF, or by CR LF) and its offset is at most the number of grapheme clusters on that line, its line break excluded. Reading a range between two existing positions returns exactly the text between them, and reading any other range returns nothing. Both depend only on the current content, never on the edits that produced it.",
 ["inputs","histories"],"Every content, every edit history leading to it, every position and range.",
 "Tests check a few positions on two strings; agreement must hold for every content, and for every internal layout an edit history can leave behind.",
 [GB,B],[("GapBuffer::find_offset",GB),("GapBuffer::read",GB),("GapBuffer::in_bounds",GB)],None,["GapBuffer::in_bounds","GapBuffer::read","Buffer::read"])
p("C04","Undo restores each earlier content exactly; redo re-applies it exactly",
 "Undoing any number of modifications returns the buffer, step by step in reverse order, to exactly the contents it had before each of them, and redoing them returns it step by step to exactly the contents it had after. Undoing with nothing left to undo, or redoing with nothing left to redo, changes nothing. (Whether a call that had no effect counts as a modification to be undone is not specified.)",
 ["inputs","histories"],"Every content, every sequence of inserts, deletes, range deletes, replacements and cursor moves (including edits whose position or range is out of bounds), every pattern of undos and redos.",
 "Tests undo one or two operations on ASCII or one fixed Devanagari string; exactness has to hold for all texts, including ones that join grapheme clusters, and for all undo/redo interleavings.",
 [B,HIS,INS,DEL,REP],[("Insert::reverse",INS),("Delete::reverse",DEL),("Replace::reverse",REP),("Buffer::undo/redo",B),("History::previous/next",HIS)],
 [dict(name="previous/next",meaning="undo and redo stacks",where=HIS)],["Buffer::data"])
p("C05","A new modification discards what could have been redone",
 "Once a modification has been made after an undo, redo does nothing until something is undone again: an undone modification is never re-applied on top of content it was not made against. This holds whether or not the new modification is part of an operation group.",
 ["histories","inputs"],"Every sequence of edits, group starts/ends, undos and redos.",
 "One test adds a single operation after a single undo; the guarantee is about every interleaving of edits, groups, undo and redo.",
 [B,HIS,GRP],[("History::add clears next",HIS),("Buffer::redo",B)],None,["Buffer::data"])
p("C06","Operation groups are undone and redone as one unit",
 "Modifications made between the start and the end of an operation group are reverted by a single undo and re-applied by a single redo, while modifications outside it stay separate. A group that is still open when undo is invoked is thereby closed, reverted as one unit, and can be redone; an empty group leaves no step in the history, and starting a group twice or ending one that was never started has no effect.",
 ["histories","inputs"],"Every sequence of edits, group starts and ends (nested, repeated or unmatched), undos and redos.",
 "Tests exercise two fixed group histories without redo; nesting, unmatched calls, redo and mixed operation kinds are not reached.",
 [GRP,B],[("OperationGroup::run/reverse/clone_operation",GRP),("Buffer::start_operation_group/end_operation_group",GRP),("Buffer::undo",B)],None,["Buffer::data"])
p("C07","An unmodified buffer is identical to what was last loaded or saved",
 "Whenever a buffer reports being unmodified, its content equals the content it last read from or successfully wrote to its file. A buffer that was just opened, saved or reloaded reports unmodified; after an edit that makes the content differ from the file's it reports modified, and undoing (or redoing) back to the synchronised state makes it unmodified again. A buffer that was never loaded or saved, or has no path (any more), always reports modified.",
 ["histories","inputs"],"Every sequence of edits, groups, undos, redos, saves and reloads.",
 "Tests cover single-step histories; a wrong 'unmodified' (silent data loss on close) needs a particular sequence of save, undo, edit, group or redo.",
 [B,HIS,GRP],[("History::mark/at_mark/add",HIS),("Buffer::modified/save/reload",B)],
 [dict(name="marked_position",meaning="history length at the last synchronisation",where=HIS)],["Buffer::modified"])
p("C08","Saving and opening round-trip the content exactly",
 "Saving writes exactly the buffer's content to its path, replacing whatever the file held, and opening a file yields exactly the file's content, the canonical absolute path and a cursor at the origin. When saving or opening fails (missing path, missing directory, write error, content that is not UTF-8), an error is returned, nothing crashes, and a failed save leaves the buffer's content, modified state and undo history as they were.",
 ["inputs","histories","fault_sequences"],"Every file content, every content and edit history before saving, each fault of the file system calls involved.",
 "Tests read one fixed file and write one fixed word; edits before saving, longer previous file contents, non-UTF-8 input and failing writes are not exercised.",
 [B],[("Buffer::from_file",B),("Buffer::save",B)],None,["file system","Buffer::data","Buffer::path","Buffer::modified"])
p("C09","Reloading takes the file's content and nothing else",
 "A successful reload makes the content equal to the file's current content, is itself undoable back to the exact content before it, and leaves the buffer's path, id, syntax definition and change callback in place. A reload that fails (no path, unreadable or non-UTF-8 file) returns an error and leaves content, cursor, history and modified state untouched.",
 ["inputs","histories","fault_sequences"],"Every content and edit history before the reload, every new file content, each reason for failure.",
 "Tests reload one unchanged file; other contents, failures and the undo behaviour afterwards are only sampled.",
 [B,REP],[("Buffer::reload",B),("Buffer::replace",REP)],None,["Buffer::data","Buffer::modified"])
p("C10","Every content change is announced at or before its location",
 "If a change callback is set, every call (edit, undo, redo, replacement or reload) that changes the content invokes it, and the earliest position announced is not after the first place where the content differs from before, as addressed in the content before or after the change. State cached for text before the announced position therefore stays valid, for single operations and for groups alike.",
 ["inputs","histories"],"Every content, every sequence of edits, groups, undos, redos, replacements and reloads.",
 "Tests check the callback for one insert, one delete and one replacement with fixed arguments, never for groups, redo or out-of-range edits.",
 [INS,DEL,REP,GRP],[("change_callback invocation in run/reverse",INS),("change_callback invocation in run/reverse",DEL),("replace_content",REP)],None,["Buffer::change_callback"])
p("C11","Cursor movement never leaves the document",
 "From any existing position, every cursor movement ends at an existing position. An explicit move succeeds exactly when the target exists and otherwise leaves the cursor where it was; left, right, up and down at the respective edge leave it unchanged, and left/right move by exactly one grapheme cluster within the line.",
 ["inputs","histories"],"Every content, every starting position, every sequence of movements, every 64-bit target.",
 "Tests start from a few fixed positions in fixed texts; empty lines, trailing newlines, CR LF, combining characters and movement sequences are not covered.",
 [CU],[("Cursor::move_to and the relative movements",CU)],[dict(name="position",meaning="line and grapheme offset",where=CU)],["Buffer::cursor"])
p("C12","Vertical and line-edge cursor movement lands where the user expects",
 "Moving up or down goes to the adjacent line at the remembered column, or to the end of that line if it is shorter; the remembered column is the one the last horizontal, line-edge or explicit move led to, and survives crossing shorter lines. Moving to the first or last line goes to the remembered column on that line, or to its end if it is shorter (whether a column cut short that way stays remembered is not specified), and moving to the start or end of the line goes to offset zero or just after its last grapheme cluster, before its line break.",
 ["inputs","histories"],"Every content, every starting position and every sequence of movements.",
 "Tests use three-line ASCII samples; sequences across empty, last, CR LF-terminated and multi-byte lines are not sampled.",
 [CU],[("move_up/move_down/move_to_first_line/move_to_last_line/move_to_end_of_line",CU)],[dict(name="sticky_offset",meaning="remembered column",where=CU)],["Buffer::cursor"])
p("C13","Replacing the whole content keeps the cursor as far as possible",
 "After the whole content is replaced or reloaded, or such a replacement is undone or redone, the cursor is at its previous position if that exists in the new content, otherwise at the start of the same line if that line exists, otherwise at the origin; it is bound to the new content. Replacing content by identical content changes nothing and adds no undo step.",
 ["inputs","histories"],"Every old and new content, every cursor position.",
 "Three fixed samples are tested; the case analysis is over all pairs of contents and cursor positions.",
 [REP,B],[("replace_content",REP),("Buffer::replace",REP)],None,["Buffer::cursor","Buffer::data"])
p("C14","Search finds every occurrence at its true position",
 "Searching for a non-empty term reports exactly the places where the term occurs within a line, overlapping ones included, each once and in document order. Each result that starts at a grapheme cluster boundary is given as the position by which the cursor and range reads address that place, so that reading onwards from a result starts with the term.",
 ["inputs"],"Every content (any mix of line endings and multi-byte characters) and every term.",
 "Tests check emptiness or non-emptiness for a few words; positions, overlaps, multiple lines and offsets after multi-byte text are not checked.",
 [B],[("Buffer::search",B)],None,["Buffer::search"])
p("C15","Line iteration partitions the text and agrees with the line count",
 "Iterating over the lines of a text yields slices that, concatenated, are exactly the text, numbered consecutively from zero, each but the last ending in its only line feed and the last containing none. Iteration then ends and stays ended, and the number of lines equals the line count a buffer with that text reports.",
 ["inputs"],"Every text.",
 "Three fixed strings are tested; empty lines, repeated trailing newlines, CR LF and multi-byte characters are not.",
 [LI,B],[("LineIterator::next",LI),("Buffer::line_count",B)],None,["LineIterator","Buffer::line_count"])
p("C16","Tokens reproduce the text, each with its true position and scope",
 "The lexemes and newlines produced for a text, concatenated, are exactly the text, and no lexeme contains a line feed. Each lexeme that starts at a grapheme cluster boundary carries the position of its first character as cursor and reads address it, and its scope is the scope stack the syntax definition assigns to that stretch of text. This holds wherever in the text the syntax definition changes scope.",
 ["inputs","configurations"],"Every text and every sequence of scope changes a syntax definition can produce for its lines.",
 "Three fixed texts with two grammars are tested, comparing only a prefix; the guarantee is over all texts and all grammars.",
 [TI,TS],[("TokenIterator::build_next_token/parse_next_line",TI)],[dict(name="current_byte_offset/current_position/scopes",meaning="progress within the line",where=TI)],["TokenIterator","Workspace::current_buffer_tokens"])
p("C17","Tokenization failures surface without a crash",
 "If the syntax definition fails to parse a line or yields an invalid scope change, obtaining or iterating the tokens ends with the failure available to the caller: as an error result when the first line cannot be parsed, as the iterator's recorded error otherwise (for an invalid scope change in the first line, either one). The tokens produced before the failure are a prefix of the text's, with all lines before the one it concerns, except possibly the line feed right before a line that cannot be parsed. Without a failure no error is recorded; with no current buffer or no syntax definition, asking for tokens is an error and not a crash.",
 ["inputs","fault_sequences","configurations"],"Every text, every line or scope change at which the failure occurs.",
 "No test makes parsing fail.",
 [TI,TS,WS],[("TokenIterator::next_token error tracking",TI),("Workspace::current_buffer_tokens",WS)],None,["TokenIterator::error"])
p("C18","Positions are totally ordered and ranges are normalised half-open spans",
 "Positions compare by line first and offset second, as a total order consistent with equality. A range or line range built from two ends in either order starts at the smaller and ends at the larger; it includes exactly what is at or after its start and before its end, and converting a line range to a range (with or without its last line, unless that is the largest number) includes exactly the positions on the lines it denotes.",
 ["inputs"],"All 64-bit line and offset values.",
 "A handful of pairs are tested; order laws and inclusion are statements over all values.",
 [POS,RAN,LR],[("PartialOrd for Position",POS),("Range::new/includes",RAN),("LineRange::new/includes/to_range/to_inclusive_range",LR)],None,["Position","Range","LineRange"])
p("C19","Adding a text's distance to its start gives its end",
 "The distance of a text, added to the position where the text begins, is the position where it ends, as cursor and reads address it, provided no grapheme cluster spans either boundary. The distance counts the text's line feeds and the grapheme clusters after the last one, and adding in place gives the same result as adding.",
 ["inputs"],"Every text, every start position, all values that do not overflow.",
 "Two ASCII strings and one addition are tested.",
 [DI,POS],[("Distance::of_str",DI),("Add/AddAssign for Position",POS)],None,["Distance","Position"])
p("C20","A workspace keeps every open buffer, in order, exactly once",
 "Adding a buffer places it directly after the current one and selects it; selecting next or previous moves one step through the buffers in order, wrapping at the ends; closing removes only the current buffer and selects the one before it, or the new first one when the first was closed. Through any such sequence no other buffer is lost, duplicated, reordered or altered, and the reported current index is the current buffer's place in the list.",
 ["histories"],"Every sequence of adding, closing, selecting and editing.",
 "Tests run short fixed sequences with up to three buffers and mostly look at the current buffer only.",
 [WS],[("add_buffer/close_current_buffer/next_buffer/previous_buffer/select_buffer",WS)],[dict(name="buffers/current_buffer/current_buffer_index",meaning="checked-in buffers with a placeholder for the checked-out current one",where=WS)],["Workspace::current_buffer","Workspace::buffer_paths","Workspace::current_buffer_index"])
p("C21","Buffer ids are unique in a workspace and stay with their buffer",
 "Every buffer added to a workspace receives an id that no other buffer of that workspace has or ever had, including buffers that have been closed. The id stays with the buffer through selection, editing, saving and reloading.",
 ["histories"],"Every sequence of adding, opening, closing and selecting buffers.",
 "One test adds three buffers; id reuse after closing and ids after selection are not checked.",
 [WS],[("add_buffer / next_buffer_id",WS)],[dict(name="next_buffer_id",meaning="next unused id",where=WS)],["Buffer::id"])
p("C22","Opening a path never duplicates an open buffer",
 "Opening a path that refers to the same file as an open buffer, by whatever spelling, selects that buffer with its unsaved edits intact and adds none; opening any other readable file adds and selects one buffer with its content. Opening a path that cannot be opened returns an error and leaves the workspace as it was.",
 ["histories","inputs","fault_sequences"],"Every sequence of opening, closing, selecting and editing over several files and spellings of their paths.",
 "Tests reopen one file in a workspace of at most two buffers.",
 [WS,B],[("open_buffer/select_buffer_by_path",WS),("Buffer::from_file",B)],None,["Workspace::open_buffer"])
p("C23","Reported paths are relative inside the workspace and complete outside",
 "The path reported for a buffer is its path relative to the workspace directory if it lies inside it, its path unchanged otherwise, and none if it has no path. The list of paths has one entry per open buffer in order, and its entry at the reported current index is the path reported for the current buffer.",
 ["histories","inputs"],"Every mix of buffers with and without paths inside, outside or next to the workspace directory, every selection.",
 "Tests cover one path inside and one outside for the current buffer only.",
 [WS],[("current_buffer_path/buffer_paths/current_buffer_index",WS)],None,["Workspace::current_buffer_path","Workspace::buffer_paths"])
p("C24","Every buffer added has the syntax its name calls for",
 "A buffer added or opened without a syntax definition gets the one registered for its file extension, or for its whole file name when it has no extension, and plain text when there is none or no path. A definition the buffer already has is kept, and re-evaluating the current buffer's syntax after its path changed applies the same rule to the new name; with no current buffer that is an error.",
 ["inputs","configurations","histories"],"Every file name, every set of registered syntaxes.",
 "A few fixed names are tested.",
 [WS,B],[("update_current_syntax/add_buffer",WS),("Buffer::file_extension/file_name",B)],None,["Buffer::syntax_definition"])
p("C25","Operations affect only what they are for",
 "No edit, undo, redo, grouping, save or reload changes a buffer's id, path, syntax definition or change callback. Only saving writes to the file system, and only to the file at the buffer's path. Inserting and deleting, undoing and redoing insertions and deletions, grouping and saving leave the cursor at its position as long as that exists in the new content. Asking (for content, ranges, occurrences, the line count, the modified state, names, tokens, paths or the current index) changes no content, cursor, history or modified state, of a buffer or a workspace, and asking again gives the same answer.",
 ["inputs","histories"],"Every content, cursor, and sequence of operations; every range and term asked for.",
 "Tests look at the effect an operation is for, after one or two calls, and hardly ever at what it should have left alone.",
 [B,INS,DEL,GRP,WS],[("Insert::run/reverse",INS),("Delete::run/reverse",DEL),("Buffer::save/reload",B),("current_buffer_tokens/buffer_paths",WS)],None,["Buffer::cursor","Buffer::id","Buffer::path","Buffer::syntax_definition","Buffer::change_callback"])
p("C26","File names and extensions are those of the path",
 "A buffer's file name is the last component of its path, provided it is valid UTF-8; its file extension is what follows the last dot of that component, unless the dot is its first character or nothing follows it. There is neither without a path, or if the path ends in a parent reference or is only the root.",
 ["inputs"],"Every path, any bytes.",
 "Tests check two or three ordinary names.",
 [B],[("Buffer::file_name/file_extension",B)],None,["Buffer::file_name","Buffer::file_extension"])
p("C27","Failures are reported as what they are",
 "Opening, saving and reloading a file, opening a buffer in a workspace, and creating a workspace in a place that does not exist fail with the kind of error the operating system reported (or invalid data, if the content is not UTF-8). Reloading a buffer that has no path reports the missing path; asking an empty workspace for tokens, or to update the syntax, reports that it is empty; asking for tokens of a buffer without definition reports the missing syntax.",
 ["fault_sequences","inputs"],"Every file operation with every kind of failure, before or amid it.",
 "Tests provoke one failure or two, and check that there is an error rather than which.",
 [B,WS,"src/errors.rs"],[("Buffer::from_file/save/reload",B),("Workspace::new/open_buffer/current_buffer_tokens/update_current_syntax",WS)],None,["Error::kind","io::Error::kind"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
