#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SCR="src/tsm/tsm-screen.c"; VTE="src/tsm/tsm-vte.c"; SEL="src/tsm/tsm-selection.c"; REN="src/tsm/tsm-render.c"
UNI="src/tsm/tsm-unicode.c"; CHS="src/tsm/tsm-vte-charsets.c"; HT="src/shared/shl-htable.c"; RING="src/shared/shl-ring.c"
ARR="src/shared/shl-array.h"; PTY="src/shared/shl-pty.c"; WC="external/wcwidth/wcwidth.c"; HDR="src/tsm/libtsm.h"

prop("C01","Any input leaves the terminal memory-safe, live and in bounds",
 "For every byte stream fed to a terminal, interleaved with any calls of the public screen, selection, scrollback, resize, keyboard and mouse API with any arguments and any screen size (down to one cell), the library never reads or writes outside its own memory, never overflows, hangs or aborts, and leaks nothing after the last reference is dropped. After every call the cursor row lies inside the screen, the cursor column is at most the screen width (width itself only while a wrap is pending), and drawing visits every cell of the screen.",
 ["inputs","histories","configurations"],"all operation/byte-token histories up to a depth on every screen geometry from 1x1 upwards, with extreme numeric arguments",
 "The tests run a dozen fixed strings on an 80x24 screen; memory errors need a particular cursor position, size, mode and order of operations.",
 [SCR,VTE,SEL,REN],[("bounds clamping in every screen operation",SCR),("parser buffers and parameter limits",VTE)],
 ["AddressSanitizer/UBSan/LeakSanitizer","tsm_screen_get_cursor_x/y","tsm_screen_draw"],hook="initial screen size overridable so that lines are allocated tightly")
prop("C02","Splitting the input never changes its effect",
 "Feeding a byte stream to the terminal in one call or cut into any sequence of consecutive pieces (including empty ones, and cuts inside multi-byte characters and escape sequences) produces the same screen, cursor, modes, replies, and callback invocations in the same order. Drawing the screen, querying it, or copying a selection between pieces changes nothing either.",
 ["inputs","histories"],"all byte strings over a boundary alphabet up to a length, and all their splittings",
 "Tests feed whole literals in one call; read() boundaries are arbitrary in production.",
 [VTE,UNI],[("persistent parser and UTF-8 decoder state",VTE)],["tsm_vte_input","tsm_screen_draw","write/osc/mouse callbacks"])
prop("C03","The escape-sequence parser recognises exactly the VT500 grammar",
 "For every byte string, text prints, control characters execute (also in the middle of a sequence), ESC and CSI sequences dispatch exactly once on their final byte with the intermediates and the (at most 16, overflow-safe, empty-means-default) numeric parameters they carry, malformed or unknown sequences have no effect, and DCS, OSC, SOS, PM and APC strings never leak their contents onto the screen. CAN and SUB abort any sequence, ESC restarts one, and an 8-bit C1 control has the same effect as its 7-bit ESC form.",
 ["inputs"],"all byte strings over a byte-class alphabet up to a length from the ground state and every intermediate parser state",
 "Tests try a few well-formed sequences; the grammar has 14 states times 256 inputs, and its errors show only after multi-byte prefixes.",
 [VTE],[("state machine and parameter collection",VTE)],["tsm_screen_draw","write callback","osc callback","tsm_vte_get_flags"])
prop("C04","UTF-8 input decodes exactly the well-formed sequences",
 "Every well-formed UTF-8 sequence that starts at a character boundary is decoded to exactly its code point; an incomplete character and the byte that breaks it off are replaced together by one U+FFFD, after which the next byte starts a new character. Ill-formed input (overlong forms, surrogates, values above U+10FFFF, truncated or stray bytes) never yields any character other than U+FFFD, in particular never an ASCII or C1 control character.",
 ["inputs"],"all byte strings of length up to 4 (exhaustively over all 256 byte values) and longer ones over all byte classes",
 "Tests feed a handful of valid characters; there are 2^32 four-byte strings, and ill-formed ones are where parsers are attacked.",
 [UNI,VTE],[("UTF-8 state machine",UNI)],["tsm_utf8_mach_feed/get","tsm_vte_input + tsm_screen_draw"])
prop("C05","Unicode encoding and width helpers are correct for every code point",
 "For every 32-bit value the UTF-8 encoder writes at most four bytes, encodes exactly the encodable scalar values as the unique shortest UTF-8 form (which decodes back to the same value) and yields nothing for surrogates, noncharacters and out-of-range values; the string form encodes the concatenation. The width of a character is 0 (control, combining, zero-width), 2 (East Asian wide) or 1 (everything else), and is the width the screen uses when printing it.",
 ["inputs"],"all 2^32 values for the encoder, all Unicode code points for width, all short code point strings over class representatives",
 "Tests check a few constants; off-by-one class boundaries only show at particular code points.",
 [UNI,WC],[("tsm_ucs4_to_utf8 / tsm_ucs4_to_utf8_alloc",UNI),("wcwidth tables",WC)],["tsm_ucs4_to_utf8","tsm_ucs4_to_utf8_alloc","tsm_ucs4_get_width","cursor advance"])
prop("C06","Composed symbols are stable, unique and retrievable",
 "Appending code points to symbols gives equal symbols for equal code point strings and distinct symbols for distinct strings, at any number of symbols; retrieving a symbol later returns exactly the string it was built from, and its width is that of its base character. Appending beyond the maximum length, appending an invalid value or running out of memory returns the original symbol unchanged and corrupts nothing.",
 ["histories","fault_sequences"],"all append/get sequences over a small alphabet up to a depth, chains to the length limit, thousands of symbols, and every allocation failure",
 "Tests append one mark to one character.",
 [UNI,HT,ARR],[("symbol table index and hash",UNI)],["tsm_symbol_append","tsm_symbol_get","tsm_symbol_get_width"])
prop("C07","Cursor addressing and motion obey screen, margins and origin mode",
 "After any history, absolute and relative cursor motion (CUP/HVP/CHA/VPA/VPR, CUU/CUD/CUF/CUB/CNL/CPL, CR, BS, LF/VT/FF, IND, RI, NEL) places the cursor exactly where the parameters, the screen size, the scrolling region and origin mode say, clamping instead of leaving the screen or, in origin mode, the region. Motion never changes cell contents except that index, reverse index and line feed with the cursor on the region's last or first row scroll exactly that region by one line; outside the region nothing ever scrolls.",
 ["inputs","histories","configurations"],"all sequences of motion, margin and origin operations up to a depth on several geometries",
 "Tests use a single margin setting and cursor start; the interaction of position x margins x origin x pending wrap is combinatorial.",
 [SCR,VTE],[("move_cursor / tsm_screen_move_*",SCR),("set_margins",SCR)],["tsm_screen_get_cursor_x/y","tsm_screen_draw"])
prop("C08","Printing places text with correct wrap, insert and wide-character rules",
 "Printing a character stores it with the current attributes at the cursor and advances by its width; at the right edge auto-wrap mode defers the wrap until the next printable character (scrolling the region if the cursor is on its last row), and without it the last column is overwritten. Insert mode shifts the rest of the line right, zero-width and control code points print nothing, and a double-width character covers two cells (only the last one when there is no room for two) and never writes beyond its line.",
 ["inputs","histories","configurations"],"all sequences of narrow/wide/zero-width prints, motions and mode switches up to a depth on widths 1..5",
 "Tests print short ASCII on 80 columns; edge behaviour depends on width, cursor column, mode and character width together.",
 [SCR,VTE],[("tsm_screen_write / screen_write",SCR)],["tsm_screen_draw","tsm_screen_get_cursor_x/y"])
prop("C09","Erase, insert, delete and scroll edit exactly the addressed cells",
 "ED/EL/ECH (and their selective, protect-honouring forms), ICH/DCH, IL/DL and SU/SD change exactly the cells their definition addresses relative to the cursor and scrolling region, for every count; removed cells vanish, vacated cells become blank with the current background attributes, and every other cell keeps its content and attributes. Lines outside the scrolling region are never touched and line operations with the cursor outside the region do nothing.",
 ["inputs","histories","configurations"],"all sequences of edit operations with all relevant counts from non-trivial screen contents, margins and cursor positions",
 "Tests cover a few erasures; off-by-one errors hide behind particular count/cursor/margin combinations.",
 [SCR,VTE],[("screen_erase_region, insert/delete chars/lines, screen_scroll_up/down",SCR)],["tsm_screen_draw"])
prop("C10","Tab stops are exactly those set, and tabbing finds the next one",
 "Tab stops start at every eighth column, are changed only by setting, clearing, clearing all, reset and resize, and HT/CHT/CBT move the cursor to exactly the n-th next or previous stop, stopping at the last or first column, without ever causing a wrap or touching cell contents.",
 ["histories","configurations"],"all sequences of tab operations and motions up to a depth on several widths",
 "The tests barely exercise tabs.",
 [SCR,VTE],[("tab ruler",SCR)],["tsm_screen_get_cursor_x"])
prop("C11","SGR produces exactly the requested attributes and colours",
 "After any sequence of SGR controls the attributes and RGB colours of subsequently written characters and erased cells are exactly those the sequence defines: the 16 palette colours (bold brightening the low eight), 256-colour cube and grey ramp, 24-bit colours, default colours, and bold/italic/underline/blink/inverse on and off, independently for foreground and background. Unknown parameters are ignored, a malformed or truncated extended colour changes nothing and ends the list, and already written cells never change.",
 ["inputs"],"all parameter values 0..300 singly and in context, all 256 palette indices, all parameter-list shapes up to 16 parameters, all sequences over representative parameters up to a depth",
 "Tests check a few colours; the parameter space and the interplay of bold, palette and RGB state is large.",
 [VTE],[("csi_attribute / to_rgb",VTE)],["attributes passed to the tsm_screen_draw callback"])
prop("C12","Character sets map exactly as designated and invoked",
 "Every printable code maps through the set currently designated into G0..G3 and invoked into GL or GR by SCS, SI/SO, LS2/LS3, LS1R/LS2R/LS3R, and single shifts SS2/SS3 affect exactly the next character of the 94-character GL range; everything outside the 94-character ranges maps to itself. DEC special graphics and DEC supplemental yield the documented Unicode characters and every other supported national set is the Latin-1 identity.",
 ["inputs","histories"],"all designation/invocation sequences up to a depth followed by every code 0x20..0xFF",
 "Tests do not cover character sets.",
 [VTE,CHS],[("vte_map, set_charset",VTE),("charset tables",CHS)],["tsm_screen_draw"])
prop("C13","Modes, saved cursor and alternate screen behave as a state machine",
 "After any history each ANSI/DEC mode has exactly the value last set, reset or restored, is visible in the flag getters and takes its effect, and no other mode changes. Save/restore cursor restores position, attributes, charset invocation, wrap and origin mode; the main screen's contents are unaffected by anything done on the alternate screen, and the 47/1047/1048/1049 controls switch, clear and save exactly as defined.",
 ["histories"],"all sequences of mode set/reset, save/restore, alternate-screen switches and prints up to a depth",
 "Tests flip one mode at a time.",
 [VTE,SCR],[("csi_mode, save_state/restore_state",VTE),("set_flags/reset_flags",SCR)],["tsm_vte_get_flags","tsm_screen_get_flags","tsm_screen_draw"])
prop("C14","Reset returns to a pristine terminal",
 "After a hard reset (RIS or the API call), from any reachable state including the middle of a sequence, the terminal behaves exactly like a newly created one of the same size and palette for every further input: blank screen, home cursor, default attributes, modes, charsets, tabs, margins, saved cursors and mouse state, on both screens, and no scrollback. Only an embedder's settings (callbacks, selection, backspace choice, scrollback limit) survive. A soft reset restores the same modes, charsets, attributes, tabs and margins but keeps screen contents, cursor position and scrollback.",
 ["histories"],"every state reached by all short dirtying histories, then reset, then all short probing continuations compared with a fresh terminal",
 "Reset must forget any prior history; tests reset from one state.",
 [VTE,SCR],[("tsm_vte_reset / tsm_vte_hard_reset / tsm_screen_reset",VTE)],["all observables"])
prop("C15","Scrollback keeps the newest lines, in order, with a stable view",
 "Exactly the lines that scroll off the main screen enter the scrollback, in order and unchanged; at most the configured maximum is kept, oldest dropped first, and the alternate screen contributes none. The scrolled-back view moves by exactly the requested lines, is clamped at both ends, always shows scrollback followed by screen, stays on the same text in fixed-position mode (and keeps its distance from the oldest line otherwise) as lines are dropped, and the reported line count and position agree with what is displayed.",
 ["histories","configurations"],"all sequences of scrolling prints, view moves, limit changes, clears, resizes and alternate-screen switches up to a depth for limits 0..4",
 "Tests use one limit and a linear fill.",
 [SCR,REN],[("link_to_scrollback, tsm_screen_sb_*, set_max_sb",SCR)],["tsm_screen_draw","tsm_screen_sb_get_line_count","tsm_screen_sb_get_line_pos"])
prop("C16","Copying a selection yields exactly the selected text",
 "For every selection between two visible cells, in either direction, within or across scrollback and screen, before or after the whole screen has scrolled up or down (the selection follows its text while that stays on the screen or in the scrollback; parts dropped from scrollback shrink to the oldest line kept), copying returns exactly the UTF-8 text of the selected cells, rows joined by newlines, never-written cells as spaces except that trailing ones of a row are removed, NUL-terminated and with its length. Copying never reads or writes outside its buffers, whatever coordinates were given, and does not disturb the screen.",
 ["inputs","histories"],"all pairs of start/end cells on small screens with scrollback over all content classes (1..4-byte, wide, empty), in all views, combined with all short scroll/limit/resize histories",
 "Tests pick about twenty fixed selections.",
 [SEL,SCR],[("norm_selection, copy_lines, copy_lines_sb",SEL),("selection tracking while scrolling",SCR)],["tsm_screen_selection_copy"])
prop("C17","Drawing reports exactly the visible cells",
 "Each draw calls back exactly once per screen cell in row-major order with the character string, width and attributes that belong there in the current view; exactly the cursor cell (if visible and in view), the cells inside the selection, and in inverse mode every cell are shown inverted, in any combination. The cell id is a function of character and rendering attributes, so that equal ids mean equal glyphs; drawing changes nothing and a failing callback does not stop it.",
 ["histories","configurations"],"every state reached by all short histories, all cursor positions, flags, views and selections on small screens",
 "Tests draw a default screen once.",
 [REN,SCR,SEL],[("tsm_screen_draw",REN)],["tsm_screen_draw callback arguments"])
prop("C18","Age-based incremental redraw never misses a change",
 "A renderer that redraws only the cells whose age is zero or greater than the value returned by its previous draw always shows exactly what a full redraw would show, after any history of input, API calls, selection and scrollback changes, and also when the age counter overflows.",
 ["histories"],"all histories up to a depth with draws interleaved at every step, including starts just before counter overflow",
 "A missing dirty mark is invisible to tests that read the cells directly.",
 [SCR,REN,SEL],[("age_cnt, cell/line/screen age",SCR)],["age argument and return value of tsm_screen_draw"])
prop("C19","Resizing keeps surviving content and re-establishes all bounds",
 "For every sequence of sizes, from any state, resizing keeps every cell that remains on screen, moves rows pushed off the top of the main screen into scrollback in order when the height shrinks, fills new cells with blanks in the current default attributes, clamps the cursor, removes margins and restores default tab stops. Old contents that were cut off the screen never reappear on it, a resize to the same size or to zero changes nothing, and both screens remain usable afterwards.",
 ["histories","configurations"],"all sequences of sizes up to a depth interleaved with writes, scrolling and alternate-screen switches",
 "Tests resize once or twice.",
 [SCR],[("tsm_screen_resize, line_resize",SCR)],["tsm_screen_draw","tsm_screen_get_width/height","cursor getters"])
prop("C20","Allocation failure at any point is survived",
 "Whenever any single memory allocation, or every allocation from some point on, fails, each API call either succeeds (lines that scroll off may be lost to the scrollback) or reports failure (an error code or NULL); nothing crashes, leaks or is corrupted, the objects involved keep a consistent state, and later calls with memory available work normally.",
 ["fault_sequences","histories"],"for each history of a set covering every allocating operation, every index of the failing allocation, failing once or permanently, followed by a usage suffix",
 "The tests never inject allocation failures.",
 [SCR,VTE,SEL,UNI,HT,RING,ARR],[("error paths of every allocation",SCR)],["return codes","AddressSanitizer/LeakSanitizer","later behaviour"])
prop("C21","Keyboard input is encoded exactly as the active modes demand",
 "For every keysym, modifier set and terminal mode the bytes sent to the application are exactly the xterm/VT encoding: control characters for Ctrl combinations, cursor and keypad sequences following their application modes, function and editing keys with shift variants, backspace as configured, carriage return plus line feed in new-line mode, and printable input as UTF-8 (or one byte, '?' when not representable, in 7/8-bit modes). Alt prefixes exactly one ESC to exactly that key's output and never to anything later, and unmapped keys send nothing and report unhandled.",
 ["inputs","configurations"],"all keysyms of the keysym space used by the encoder and all neighbours, all 32 modifier sets, all relevant mode combinations, all Unicode values by class, and sequences of events",
 "Tests cover only the backspace key.",
 [VTE],[("tsm_vte_handle_keyboard",VTE)],["write callback","return value"])
prop("C22","Mouse events are reported exactly as the tracking mode requires",
 "For every mode-setting history and every mouse event the application receives exactly one correctly encoded report (X10, SGR or pixel format; button or motion, modifiers, coordinates as the format defines them and clamped to what it can express, press/release) if and only if the active mode and event mask ask for it, with repeated motion within one cell reported once in cell mode. The embedding program's mouse callback is told the tracking and pixel state on every relevant change, so that its view always agrees with the terminal's.",
 ["inputs","histories"],"all mode/event sequences up to a depth with boundary coordinates, all buttons, events and modifiers",
 "Tests use fixed event lists.",
 [VTE],[("tsm_vte_handle_mouse, csi_mode",VTE)],["write callback","mouse callback","tsm_vte_get_mouse_mode/event"])
prop("C23","Replies are sent exactly when requested, with the right contents",
 "The terminal writes to the application only in reply to a device-attribute, status or cursor-position request, ENQ, or key and mouse input; each request yields exactly one complete, correctly formatted reply in order, a cursor report names the position in the coordinates cursor addressing uses, so that addressing it again is a no-op, and all replies are plain 7-bit. With local echo on, key input is additionally interpreted by the terminal itself before being sent, unchanged and without loops.",
 ["inputs","histories"],"all token sequences up to a depth from all cursor positions and modes",
 "Tests check a few replies; unsolicited or corrupted replies are an injection vector.",
 [VTE],[("send_primary_da, csi_dsr, vte_write_debug",VTE)],["write callback log"])
prop("C24","Operating-system commands are delivered whole and exactly once",
 "Each OSC string, however introduced and terminated (BEL, ST, or an aborting ESC/CAN/SUB/C1), is delivered to the OSC callback exactly once with its payload UTF-8 encoded, NUL-terminated, with exact length, characters that no longer fit into the 127-byte limit being dropped whole, and the terminal is usable afterwards. Nothing of it reaches the screen, no payload byte of an earlier command is ever delivered with a later one, and without a callback it is silently swallowed.",
 ["inputs"],"all payloads over a class alphabet up to a length and around the buffer limit, all introducers and terminators, sequences of commands",
 "Tests send two OSC strings.",
 [VTE],[("do_osc_collect / do_osc_end",VTE)],["osc callback"])
prop("C25","Palettes determine exactly the colours shown",
 "Selecting any named, custom or default palette (and setting or clearing the custom palette, in any order) makes exactly that palette's 18 colours those of subsequent text, erased cells and default attributes, unknown names and a missing custom palette falling back to the default palette. The caller's strings and arrays are copied, and the default attributes reported always equal the palette's foreground and background.",
 ["histories","configurations"],"all sequences of palette calls and SGR output up to a depth, all 18 colours of every palette",
 "Tests set one palette.",
 [VTE],[("get_palette, vte_update_palette",VTE)],["tsm_vte_get_def_attr","tsm_screen_draw attributes"])
prop("C26","The hash table is a multiset of its elements",
 "After any sequence of insertions, removals, lookups and clears, with any hash collisions and any element addresses, a lookup or removal succeeds exactly if an equal element is present, returns an element that compares equal, visiting and clearing touch each present element exactly once, and growth, rehashing or a failed allocation never lose or duplicate one.",
 ["histories","fault_sequences"],"all operation sequences up to a depth over colliding and non-colliding keys and adversarial pointer patterns, plus growth to thousands of elements",
 "Tests insert a fixed list once.",
 [HT],[("htable with common-bits pointer tagging",HT)],["shl_htable_*"])
prop("C27","The ring buffer is a lossless byte FIFO",
 "After any sequence of push, pull, peek, copy, and clear operations the ring buffer holds exactly the bytes pushed and not yet pulled, in order; peeking describes exactly them in at most two non-empty segments, over-pulling empties it, and a push that fails for lack of memory leaves it unchanged.",
 ["histories","fault_sequences"],"all operation sequences up to a depth with sizes at and around the capacity boundaries and wrap positions",
 "There is no test for the ring buffer.",
 [RING],[("ring_grow, ring_resize, wrap arithmetic",RING)],["shl_ring_*"])
prop("C28","The dynamic array keeps its elements",
 "After any sequence of push, pop and resize operations, for any element size and initial capacity, the array holds exactly the expected elements in order, elements added by resizing are zero, and a failed allocation leaves it unchanged.",
 ["histories","fault_sequences"],"all operation sequences up to a depth for several element sizes and capacities",
 "There is no test for the array.",
 [ARR],[("shl_array_push, shl_array_zresize",ARR)],["shl_array_*"])
prop("C29","The PTY layer moves every byte once, in order, under any I/O behaviour",
 "Whatever sequence of short reads and writes, EAGAIN, EINTR, errors and hang-ups the kernel returns, all bytes queued for the child are written once and in order, all bytes read are passed to the input callback once and in order, and whenever work may remain the caller (or the bridge's edge-triggered event set) is made to dispatch again, so nothing stalls. Opening reports the child's set-up result, cleans up every descriptor on every failure path, and closing is idempotent.",
 ["fault_sequences","schedules"],"all kernel answer sequences up to a number of deviations for all short operation histories",
 "There is no test for the PTY layer; partial I/O cannot be provoked reliably by tests.",
 [PTY,RING],[("pty_read, pty_write, shl_pty_bridge_*",PTY)],["intercepted system calls","input callback","return codes"])
prop("C30","Object lifetimes and terminals are independent and exact",
 "Any balanced sequence of reference and unreference calls on screens, terminals, symbol tables and PTYs frees each object exactly when its last reference goes, a terminal keeping its screen alive, and every public function tolerates null objects as documented by doing nothing or returning an error. Operations on one terminal never affect another one in the same process, in any interleaving, and every function of the public header is available from the shared library.",
 ["histories","schedules"],"all ref/unref sequences up to a depth, all public functions with null arguments, all interleavings of operation sequences on two terminals",
 "Tests create one object at a time.",
 [SCR,VTE,UNI,PTY,HDR],[("ref counting",SCR),("SHL_EXPORT and version script",HDR)],["LeakSanitizer","all observables of both terminals","dynamic symbol table"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
for p in P:
    assert len(p["title"])<=80,p["title"]
