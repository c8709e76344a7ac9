S='components/'
p('C01','Viewport scroll offset and visible window always agree with the content',
 'After any sequence of content, size, scroll, page, wheel, drag and follow operations, a viewport\'s scroll offset is at least zero and never beyond the last offset that still fills the window (zero if the content fits). The window it shows is exactly the contiguous run of content lines starting at that offset, no more than the window height and no fewer than are available; querying or deriving a viewport never changes an earlier one or the caller\'s slice. Follow mode puts the window at the bottom whenever content is set or appended, and scrolling up leaves follow mode.',
 ['inputs','histories'],'all contents, window sizes (zero and negative included), and operation sequences',
 'Tests try a few dozen contents and sizes and short operation chains; the bound must survive every history and every size, including degenerate ones.',
 [S+'viewport/viewport.go',S+'viewport/internal/domain/model/viewport.go',S+'viewport/internal/domain/service/scroll.go',S+'viewport/internal/domain/value/scroll_offset.go'],
 [('offset clamping',S+'viewport/internal/domain/model/viewport.go:WithScrollOffset'),('window slice',S+'viewport/internal/domain/service/scroll.go:VisibleLines')],
 ['Viewport.ScrollOffset','Viewport.VisibleLines','Viewport.TotalLines'])
p('C02','List focus, selection and visible window stay inside the (filtered) items',
 'After any sequence of item, filter, height, navigation and selection operations on a list, the focused index is a valid index of the filtered items (zero when there are none) and the focused item is inside the rows shown when the height is positive. Selected indices always refer to filtered items, and in single-selection mode at most one is selected. Navigation wraps at the ends and paging stops at them; no operation changes an earlier list value.',
 ['inputs','histories'],'all item lists, filters, heights and operation sequences',
 'Tests use lists of three to twenty items and one filter change at a time; stale focus or scroll needs a particular combination of filter, height and position.',
 [S+'list/list.go',S+'list/internal/domain/model/list.go',S+'list/internal/domain/service/navigation.go',S+'list/internal/domain/service/filter.go'],
 [('focus reset',S+'list/internal/domain/model/list.go:resetFocus'),('scroll centring',S+'list/internal/domain/service/navigation.go:CalculateScrollOffset')],
 ['List.FocusedIndex','List.FocusedItem','List.SelectedIndices'])
p('C03','Multi-select never exceeds its maximum and toggles exactly one option',
 'For any options, limits and operation history of a multi-select, the number of selected options never exceeds the maximum (when one is set), toggling changes the selected state of exactly the option under the cursor and of nothing else, and deselecting all empties the selection. Confirming is possible exactly when the minimum is reached. Filtering never loses or adds selections, the cursor always points at a shown option (zero when none), and earlier values are never changed.',
 ['inputs','histories'],'all option lists, limits, filters and operation sequences',
 'Tests sample small lists with one or two limits; a limit breach or aliasing between two values needs a specific sequence.',
 [S+'multiselect/internal/domain/model/multiselect.go',S+'multiselect/internal/domain/value/selection.go'],
 [('limit test','components/multiselect/internal/domain/value/selection.go')],['MultiSelect.SelectedIndices','MultiSelect.CanConfirm'])
p('C04','Single select keeps its cursor on an option and inside the scrolled window',
 'For any options, height, filter and navigation history of a single select, the cursor is a valid index of the filtered options (zero when none match) and lies inside the rows shown. Selecting yields exactly the option under the cursor, and setting an empty filter restores every option in its original order. Earlier values are never changed.',
 ['inputs','histories'],'all option lists, heights, filters and operation sequences',
 'Tests use short lists; cursor and window bookkeeping must hold for every interleaving of filtering and navigation.',
 [S+'select/internal/domain/model/select.go'],[('scroll adjustment',S+'select/internal/domain/model/select.go')],['Select.Selected','Select.View'])
p('C05','Table selection, scroll window and sort keep the rows intact',
 'For any columns, rows, heights and operation history of a table, the selected index is a valid row index (zero when there are no rows), the visible rows are the contiguous block of rows starting at the scroll offset and, when the body has room, contain the selected row. Sorting rearranges the rows into the requested order as a permutation, keeping equal rows in their original order, and clearing the sort restores the original order. Earlier values are never changed.',
 ['inputs','histories'],'all row sets, column keys, heights and operation sequences',
 'Tests sort a handful of rows and step a few times; stability, permutation and window bounds quantify over all data.',
 [S+'table/internal/domain/model/table.go',S+'table/internal/domain/service'],[('sorting',S+'table/internal/domain/service'),('scrolling',S+'table/internal/domain/model/table.go')],['Table.SelectedIndex','Table.VisibleRows'])
p('C06','Modal and confirm dialogs: focus ring, visibility and result are exact',
 'For any button list and key history, the focused button of a dialog is always one of its buttons (none when it has none), moving focus forward or back walks the ring by exactly one, and a centred dialog is placed with its free space split evenly and never at a negative position. A hidden modal ignores input. A confirm dialog reports an answer only after a confirming or cancelling action, and the answer is the one of the focused button or shortcut used.',
 ['inputs','histories'],'all button lists, terminal sizes and key sequences',
 'Tests use two or three buttons and one terminal size.',
 [S+'modal',S+'confirm'],[('focus ring',S+'modal/internal/domain/model/modal.go')],['Modal.FocusedButton','Confirm.Result'])
p('C07','Form submits only when every field validator passes and focus stays on a field',
 'For any fields with distinct names, validators and key history, a form\'s focus index always names an existing field (or none when the form is empty), moving focus forward and back walks the fields by one and wraps, and the form becomes submitted only if every validator of every field accepted the current value. Validation records exactly the errors the validators returned and never alters an earlier form value.',
 ['inputs','histories'],'all field lists, validator outcomes and operation sequences',
 'Tests cover two or three fields with fixed validators.',
 [S+'form'],[('validation',S+'form/internal/domain/model/form.go')],['Form.Submitted','Form.Errors','Form.FocusedIndex'])
p('C08','Progress is clamped to 0..100 and the bar is filled in exact proportion',
 'For any sequence of set, increment and decrement operations with any arguments, a progress bar\'s percentage stays within 0 to 100 and equals the clamped running value. The rendered bar has exactly the configured number of bar characters, of which floor(width*percentage/100) are filled and the rest empty. A spinner\'s frame index is always a valid frame and advances cyclically by one per tick.',
 ['inputs','histories'],'all widths, percentages, deltas and frame sets',
 'Tests sample round percentages and one or two widths.',
 [S+'progress/internal/domain'],[('clamping',S+'progress/internal/domain/value/percentage.go')],['Bar.View','Bar.Progress','Spinner.View'])
p('C09','Text input cursor stays on a grapheme boundary and edits touch only the cursor',
 'For any valid Unicode text and any sequence of insert, delete, move, select and set operations, a text input\'s cursor is between zero and the number of user-perceived characters, and a selection is a valid ordered range. Inserting places the new text at the cursor (replacing a selection), keeps the text before and after it and leaves the cursor after what was typed; backspace and delete remove exactly one user-perceived character beside the cursor, or exactly the selection; the reported parts around the cursor always concatenate to the content.',
 ['inputs','histories'],'all Unicode strings and operation sequences',
 'Tests use a few ASCII, CJK and emoji strings.',
 [S+'input/internal/domain'],[('cursor movement',S+'input/internal/domain/service/cursor_movement.go')],['Input.Value','Input.CursorPosition','Input.ContentParts'])
p('C10','Text area buffer edits are exact, immutable list-of-lines operations',
 'Every edit of a text area\'s buffer (insert character or newline, delete character, delete a line or the rest of one, join lines, set line) yields exactly the text obtained by editing the plain string (of valid UTF-8) at that position, extracting a range yields that part of the text, an edit always leaves at least one line, and leaves the buffer it started from unchanged. A row past the last line leaves the text unchanged instead of failing; a column past the end of a line means its end, where there is nothing to delete.',
 ['inputs','histories'],'all texts, positions (out of range included) and edit sequences',
 'Tests sample short ASCII buffers; aliasing between an old and a new buffer and off-by-one at line ends need particular positions.',
 [S+'textarea/internal/domain/model/buffer.go'],[('copy on write',S+'textarea/internal/domain/model/buffer.go')],['TextArea.Value','TextArea.Lines'])
p('C11','Text area cursor is always a valid position and moves by the stated unit',
 'After any sequence of typing, deleting, killing, yanking and navigating, a text area\'s cursor row is a line of the buffer and its column is between zero and the number of characters of that line. Moving left or right moves by one character and crosses line ends, moving up or down keeps the column as far as the line allows, and word, line and buffer motions end at the word, line or buffer boundary in their direction. Typing leaves the cursor after what was typed; deleting and killing leave it where the removed text began.',
 ['inputs','histories'],'all texts and operation sequences',
 'Tests walk short fixed texts.',
 [S+'textarea/internal/domain/service/navigation.go',S+'textarea/internal/domain/service/editing.go',S+'textarea/internal/domain/model/textarea.go'],[('navigation',S+'textarea/internal/domain/service/navigation.go')],['TextArea.CursorPosition','TextArea.ContentParts'])
p('C12','Kill ring is bounded and yields the most recent kill first',
 'After any sequence of kills and yanks, the kill ring holds at most its maximum number of entries, always the most recent non-empty ones in order of recency. Yanking returns the most recent kill, and stepping through the ring visits the entries from newest to oldest and wraps. Killing never changes an earlier ring value.',
 ['histories'],'all sequences of kills and yanks',
 'Tests kill a few strings; eviction, order and aliasing appear only past the capacity.',
 [S+'textarea/internal/domain/model/killring.go'],[('bounded ring',S+'textarea/internal/domain/model/killring.go')],['KillRing.Yank'])
p('C13','Mouse sequences decode to exactly the event they encode, for every coordinate',
 'Every well-formed mouse report decodes to the button (left, middle, right, wheel up, wheel down, or none), the modifiers and the zero-based position it encodes, for all coordinates. An SGR report decodes to its kind: wheel codes to scroll, codes with the motion bit to motion, a final M to press and any other ending to release; X10 and urxvt reports, which carry no kind here, decode to scroll for the wheel and to press otherwise. A report with a missing, extra or non-numeric field, of the wrong length or of an unknown form is rejected with an error, leaves the click and drag state alone and never panics. Writing an event of one of these buttons with the SGR, urxvt or X10 formatter and decoding the text gives the same button, modifiers and position back (X10: for positions up to 222), and for SGR the same kind.',
 ['inputs'],'all byte strings, buttons, modifiers and coordinates',
 'Tests sample a few dozen reports.',
 ['mouse/internal/infrastructure/parser'],[('SGR parser','mouse/internal/infrastructure/parser/sgr_parser.go')],['Mouse.ParseSequence'])
p('C14','Click counting follows position, button and time limits exactly',
 'A click is a button release that does not end a drag. Each click is compared with the click before it: with the same button, at most the tolerance away and at most the timeout later it counts one more, up to three, after which counting starts again at one; any click that differs in button, lies too far away or comes too late counts 1, as does the first one and the first one after a reset. The click event reported is a single, double or triple click according to the count and carries the button, position, modifiers and time of its release; other events never count. Distance is the number of columns plus the number of rows; a timeout that is not positive means 500 ms and a negative tolerance means 1.',
 ['histories'],'all sequences of timed presses',
 'Tests use sequences of at most four presses with a few gaps.',
 ['mouse/internal/domain/service/click_detector.go'],[('state','mouse/internal/domain/service/click_detector.go')],['EventProcessor.ProcessEvent'])
p('C15','Drag, hover and menu geometry are exact and stay on screen',
 'A drag is going on exactly while a button is down (from its press to the next release) and the pointer, at the position last seen, is at least the threshold (columns plus rows) away from the press; motion is reported as a drag of the pressed button exactly then and as plain motion otherwise, a release ends it and reports a click only if no drag was going on, and the start and current positions are those actually seen. The hovered component is the first given area that contains the pointer (areas include their top-left and exclude their bottom-right edges); an update reports enter when that component is new, move when it is the same as before, leave when there is none any more and plain motion otherwise. A popup menu positioned for a pointer at non-negative coordinates lies wholly on the screen whenever it fits, as near the pointer as that allows, and at the origin when it does not fit.',
 ['inputs','histories'],'all positions, areas, sizes and event sequences',
 'Tests use a few positions and single transitions.',
 ['mouse/internal/domain'],[('containment','mouse/internal/domain/value/bounding_box.go'),('menu clamp','mouse/internal/domain/service/menu_positioner.go')],['HoverTracker.Update','MenuPositioner.CalculatePosition'])
p('C16','Frame buffers, frame diffs and the differential renderer agree with the frame',
 'Reading or writing a frame buffer outside its bounds is harmless; a write inside changes only the cell (or line) it names; clearing and filling set every cell; resizing keeps the common area and blanks the rest; copies, clones and returned lines share nothing with the buffer. For any two frames of equal size the diff lists, in row order, exactly the cells that differ with their new content, and optimisation drops none of them. The terminal writer emits exactly the cursor move, style switch and character asked for and tracks position and style. Starting from a cleared screen with the cursor at home, after any sequence of successful renders, clears and resizes of frames of single-width characters the terminal shows exactly the last frame, each cell with its own style, the renderer has the size of that frame, rendering the frame already shown writes nothing, and a pooled buffer comes back blank in the current size.',
 ['inputs','histories'],'all frames, sizes and positions, all sequences of renders, clears and resizes',
 'Tests compare small hand-made frames and look for substrings in the output.',
 ['render/internal/domain/model/buffer.go','render/internal/domain/service/diff.go','render/internal/infrastructure/ansi/writer.go','render/internal/application/renderer.go'],[('diff loop','render/internal/domain/service/diff.go'),('style and cursor tracking','render/internal/infrastructure/ansi/writer.go')],['Renderer.Render','bytes written'])
p('C17','Core geometry and cell values are always normalised',
 'Whatever values they are built from, sizes are never negative (at least one by one where promised), positions never lie above or left of the origin, cells have a non-negative width, and moving, resizing or deriving a value keeps this and changes nothing else. Equality is exactly componentwise.',
 ['inputs'],'all integers and strings, all derivation sequences',
 'Tests use a few positive and negative samples.',
 ['core/internal/domain/value','core/internal/domain/model'],[('normalising constructors','core/internal/domain/value')],['core.NewSize','core.NewPosition','core.NewCell'])
p('C18','Terminal capability detection follows one precedence for every environment',
 'For every combination of environment settings, capability detection follows one fixed precedence: a non-empty NO_COLOR means no ANSI and no colour; otherwise a non-empty FORCE_COLOR decides (0 none, 1 eight colours, 2 256 colours, anything else true colour); otherwise the platform rules apply, in which an explicit true-colour COLORTERM comes before the terminal program and that before TERM (256color, color, dumb or empty, else eight colours). Feature flags are off whenever ANSI is off, and detection depends on nothing else. The ANSI terminal reports true colour for an explicit COLORTERM, else 256 colours for a TERM containing 256color, else 16.',
 ['configurations'],'all environments',
 'Tests set a few variables one at a time; precedence is about combinations.',
 ['core/internal/domain/service/capabilities_detector.go'],[('detector','core/internal/domain/service/capabilities_detector.go')],['core.AutoDetectTerminal'])
p('C19','Layout constraints and alignment never leave the parent',
 'For any content, constraints and parent: a size constrained by a minimum and maximum (minimum not above maximum) is the nearest value inside them, and an exact size overrides both; a box measures as its widest line and line count in terminal columns plus padding, border and margin on each side exactly once, then constrained; alignment offsets place a child that fits wholly inside its parent with the free space on the side(s) the alignment says; positions never go negative. Deriving a value never changes the original.',
 ['inputs'],'all sizes, constraints, spacings and alignments',
 'Tests use a few sizes.',
 ['layout/internal/domain/value','layout/internal/domain/model/box.go'],[('constrain','layout/internal/domain/value/size.go')],['layout.Box'])
p('C20','Flex layout places items in order, without overlap, with the requested gap',
 'For any items and container, a row or column layout keeps the items and their order and places them along the main axis without overlap, with exactly the configured gap between neighbours plus, for space-between, an equal share of the free space; start, end and centre put the free space after, before or evenly around the items; items whose total fits stay inside the container; and each item sits at the start, middle or end of the cross axis as aligned, never at a negative coordinate. Building a layout never changes an earlier container value. Drawing puts each item at its place in terminal columns (bounded check).',
 ['inputs'],'all item lists, sizes, gaps, justifications and alignments',
 'Tests use two or three items.',
 ['layout/internal/domain/service/flexbox_layout.go'],[('main axis','layout/internal/domain/service/flexbox_layout.go')],['Flex.Render'])
p('C21','Style derivation changes exactly the named attribute and nothing shared',
 'Setting any attribute on a style, size, padding, margin, theme or alignment yields a value that differs from the original in that attribute only and reads back as set (spacing and dimensions clamped at zero), and never changes the original or any other style derived from it. Merging themes takes each override that is set and keeps the base value otherwise.',
 ['inputs','histories'],'all attribute values and derivation sequences, including branching ones',
 'Tests chain a few setters; sharing between two derived values needs a branching history.',
 ['style/internal/domain/model/style.go','style/internal/domain/value/size.go','style/internal/domain/model/theme.go'],[('copy semantics','style/internal/domain/model/style.go')],['style.Style getters'])
p('C22','Colour conversion picks a nearest palette entry and emits well-formed codes',
 'For every RGB colour and terminal capability, the colour sequence emitted for styled text or a border selects foreground or background as asked, in the form the capability supports, with a code of the valid range; no-colour terminals get nothing. True colour keeps the exact components, and the palette conversions choose a nearest palette colour of the part of the palette they use: the 16-colour table, the colour cube, or for near-grey colours the grey ramp, with black and white beyond its ends.',
 ['inputs'],'all 16 million colours and all capabilities',
 'Tests sample a dozen colours.',
 ['style/internal/domain/service/color_adapter.go','style/internal/domain/value/color.go'],[('nearest','style/internal/domain/service/color_adapter.go')],['style.Render'])
p('C23','Styled text boxes have exactly the computed dimensions',
 'Padding, margin, border and alignment turn content into a block whose line count and line widths are exactly the content dimensions plus the spacing and border added on each side, keeping every content line intact and in order between them. Alignment pads a line that is narrower than the target to exactly the target width on the side(s) the alignment says.',
 ['inputs'],'all contents, spacings, borders and target sizes',
 'Tests compare fixed strings.',
 ['style/internal/domain/service/spacing_calculator.go','style/internal/domain/service/text_aligner.go','style/internal/application/command'],[('padding','style/internal/domain/service/spacing_calculator.go')],['style.Render'])
p('C24','Key sequences decode to the documented key, and nothing else is invented',
 'Every byte sequence read from the terminal decodes to at most one key event: the documented key for each control byte, printable byte and escape sequence, and no event for anything else; a stream of such sequences yields their keys in order. A key\'s textual name is determined by its type, rune and modifiers.',
 ['inputs'],'all byte sequences',
 'Tests list the known sequences; they do not show that no other sequence maps to them.',
 ['tea/internal/infrastructure/ansi/parser.go','tea/internal/domain/model/msg.go','tea/internal/infrastructure/input/reader.go'],[('parser','tea/internal/infrastructure/ansi/parser.go')],['tea.KeyMsg'])
p('C25','Inline renderer leaves exactly the last view on the screen',
 'After any sequence of renders, repaints and resizes, the lines on the terminal from the top of the rendered area are exactly the (height- and width-limited) lines of the last view, with nothing of an earlier view left over and nothing of the current one erased.',
 ['histories'],'all sequences of views, repaints and resizes',
 'Tests look for substrings of the emitted bytes after one or two renders; what is left on the screen depends on the whole history.',
 ['tea/internal/infrastructure/renderer/inline.go'],[('line diff','tea/internal/infrastructure/renderer/inline.go:Render')],['terminal screen contents'])
p('C26','Terminal control sequences and mode switches are exact and paired',
 'Each cursor, clear and style operation on an ANSI terminal emits exactly its standard control sequence with the given arguments (one-based where the standard is), and does nothing for non-positive counts. Entering and leaving the alternate screen or raw mode succeeds exactly when the terminal is in the other state, so enter and leave always pair up, a failed write does not change the recorded state, and leaving raw mode puts back the settings found on entering. The colour depth reported follows COLORTERM and TERM for every environment.',
 ['inputs','histories','fault_sequences'],'all arguments, operation sequences and write failures',
 'Tests sample arguments and two-step sequences and cannot inject failures at every point.',
 ['terminal/internal/infrastructure/unix/ansi.go','terminal/new.go'],[('state flags','terminal/internal/infrastructure/unix/ansi.go')],['Terminal methods','bytes written'])
p('C27','Clipboard history is bounded, keeps the newest entries and owns its data',
 'After any sequence (not concurrent) of additions, limit changes, expiry and clears, the clipboard history holds at most its maximum number of entries (when limited): additions go to the end, the oldest entries leave first, and expiry removes exactly the expired ones, keeping the order. Each entry keeps exactly the content and type added, unaffected by later changes to the caller\'s bytes or to bytes handed out; a lookup returns an entry with that identifier (or says there is none), listing puts the newest time first, and sizes are the true totals.',
 ['histories'],'all sequences of operations and contents',
 'Tests add a few entries; eviction, order and aliasing need longer histories.',
 ['clipboard/internal/domain/service/clipboard_history.go','clipboard/internal/domain/model/history_entry.go'],[('eviction','clipboard/internal/domain/service/clipboard_history.go:Add')],['Clipboard.GetHistory'])
p('C28','Clipboard content is faithful and goes to the first available provider',
 'Reading and writing the clipboard uses the first available provider in order and fails when there is none; content written is delivered unchanged and content handed out is a private copy. History records a write exactly when it succeeded. Rich-text styles change only what they name, and hexadecimal colours parse and format as exact inverses and are rejected when malformed.',
 ['inputs','configurations','fault_sequences'],'all contents, provider chains, availability patterns and failures',
 'Tests use one or two mock providers.',
 ['clipboard/internal/domain/service/clipboard_service.go','clipboard/internal/domain/model/clipboard_content.go','clipboard/internal/domain/value/text_styles.go'],[('provider choice','clipboard/internal/domain/service/clipboard_service.go:getAvailableProvider')],['Clipboard.Read','Clipboard.Write'])
p('C29','The event loop delivers every message once, in order, and restores the terminal',
 'Every message sent to a running program reaches its update function exactly once and in order, commands run concurrently without losing results, and however the program ends (quit, kill, panic, error) the terminal is back in its original mode. No goroutine keeps consuming input after a suspend or exit. Suspending puts the terminal back into plain modes and resuming restores exactly the modes found on suspending; an external command runs in between, whatever its outcome; an operation that fails leaves the program as it was. Stopping is never lost, however busy the program is.',
 ['schedules','fault_sequences'],'all schedules of input, commands, suspend/resume and termination, and all failures of terminal operations',
 'Tests run a few schedules with sleeps.',
 ['tea/internal/application/program/program.go','tea/internal/infrastructure/input/cancelable_reader.go'],[('event loop','tea/internal/application/program/program.go')],['Program.Run','Program.Start','Program.Stop','Program.Send','Program.Suspend','Program.Resume','Program.ExecProcess'])
p('C30','Batch and sequence commands deliver each result and respect order',
 'A batch of commands delivers the result of every non-nil command exactly once, in any order, and a sequence delivers results in the order of its commands, each starting only after the one before finished. The running program hands these results to the update function, those of a sequence in order, however many they are.',
 ['schedules'],'all schedules and command lists',
 'Tests run a few lists on one schedule.',
 ['tea/internal/domain/model/cmd.go','tea/tea.go','tea/internal/application/program/program.go'],[('goroutine fan-out','tea/internal/domain/model/cmd.go'),('expansion in the event loop','tea/internal/application/program/program.go')],['tea.Batch','tea.Sequence','Program.Run','Program.Start'])
