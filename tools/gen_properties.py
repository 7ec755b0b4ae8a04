#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
C='core/src/'; E=C+'editor/'; R='remote/src/'; F='remote-ffi/src/'
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      mechanism=[dict(name=n,where=w) for n,w in mechanism],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      observe_at=list(observe),hook_needed=hook)))

p('C01','Buffer text is exactly what the edits applied to it say',
 'After any sequence of insertions, appends, deletions and replacements at any valid positions, the text of a buffer (whole, by byte range, by line, its length and its line count) is exactly what the same edits give on a plain string. No edit, including one of empty text or of zero length, corrupts, loses or duplicates a byte, makes the buffer unreadable or crashes.',
 ['histories','inputs'],'every sequence of edits up to a depth, at every position, over texts with multi-byte characters, newlines and empty strings, and long edit histories that leave many pieces in every arrangement',
 'The unit tests apply about fifteen fixed edits to three texts; a corruption needs a particular split of pieces followed by a particular range, which only enumerating histories reaches.',
 [E+'piece_table/mod.rs',E+'range.rs'],
 [('PieceTable::insert/append/delete/replace keep the piece tree ordered and shifted',E+'piece_table/mod.rs'),('newline index maintained beside the pieces',E+'piece_table/mod.rs')],
 [('pieces','ordered tree of spans over the original and added text',E+'piece_table/mod.rs'),('newlines','offsets of all newlines',E+'piece_table/mod.rs')],
 ['text, text_range, len, lines, line_text, line_count of a buffer'],
 'cfg(ced_verif): the piece table is a private module of the crate')

p('C02','Undo and redo restore earlier buffer contents exactly',
 'Undoing restores exactly the text, the lines and the positions the buffer had before the last group of edits, redoing brings back exactly what was undone, and a new edit after an undo discards what could have been redone. Consecutive edits of one kind form one group, a replacement or reload always forms a group of its own, and undo or redo with nothing left reports that and changes nothing.',
 ['histories'],'every interleaving of edits, undos and redos up to a depth, with multi-line and multi-byte texts',
 'One test undoes and redoes a single fixed history and looks at the text only; the interplay of grouping, both stacks, piece merging and the line index is a property of all histories.',
 [E+'piece_table/mod.rs'],
 [('PieceTable::commit/action/start_bulk/end_bulk group edits and snapshot the pieces',E+'piece_table/mod.rs'),('PieceTable::undo/redo swap snapshots',E+'piece_table/mod.rs')],
 [('undos/redos','stacks of piece-tree snapshots',E+'piece_table/mod.rs'),('last_action','current edit group',E+'piece_table/mod.rs')],
 ['text, lines, coordinates after undo/redo'],
 'cfg(ced_verif): undo and redo are private methods')

p('C03','Positions, line/column coordinates and characters agree',
 'For every text, the start of every user-perceived character and every line end has exactly one (line, column) coordinate counted in user-perceived characters, and converting between byte position and coordinate in either direction gets back where it started. The character, line text, line length and last position reported for a coordinate are those of the text itself, and coordinates outside the text are refused.',
 ['inputs','histories'],'every text up to a length over an alphabet of one- to many-byte, combining and joined characters, CR, LF and empty lines, also when reached by editing',
 'Tests look at a dozen coordinates in five texts; mixtures of wide characters with first, empty and unterminated lines are not sampled.',
 [E+'piece_table/mod.rs',E+'piece_table/navigator.rs',E+'piece_table/position.rs'],
 [('PieceTable::offset_to_coord/coord_to_offset/char_at/line_length/max_coord',E+'piece_table/mod.rs')],
 [('newlines','offsets of all newlines',E+'piece_table/mod.rs')],
 ['coordinates, characters and line lengths of a buffer'],
 'cfg(ced_verif): the piece table is a private module of the crate')

p('C04','Cursor movement follows the text, whatever it contains',
 'Moving left, right, up, down, to the line start or end and to the buffer start or end always lands on a user-perceived character or a line end of the buffer, one step in the requested direction, stopping at the borders; vertical moves keep the wanted column across shorter lines. Moving without extending collapses the selection onto the cursor, extending leaves the anchor where it was.',
 ['histories','inputs'],'every sequence of moves and extensions from every position of every small text of an adversarial alphabet, and after deletions',
 'The navigator tests make ten moves in one ASCII text; multi-byte characters, empty lines and unterminated last lines in combination with the wanted column are never visited.',
 [E+'piece_table/navigator.rs',E+'core.rs',E+'selection.rs','core/scripts/keys.lua','core/scripts/editor.lua'],
 [('Navigator moves and resolves the wanted column',E+'piece_table/navigator.rs'),('Core::move_cursor applies a move to every selection of the current view',E+'core.rs')],
 [('anchor/cursor/target_col','selection ends and wanted column',E+'selection.rs')],
 ['get_context of a client, view notifications'])

p('C05','Opening and reloading a file shows the file, and never loses the session',
 'After opening or reloading, the buffer holds exactly what is on disk (with a final newline added when the file has none), whatever the old and new contents are, and reloading can be undone as one step. Editing an open file again reloads it when the disk holds something else than what was last read. A file that does not exist, cannot be read as text or has disappeared is reported to the requesting client as an error and leaves every buffer, view and client as they were.',
 ['inputs','histories','fault_sequences'],'every pair of old and new texts up to a length over a small alphabet, every sequence of disk changes, missing files, directories and undecodable files interleaved with edit requests of several clients',
 'One diff test compares two sentences and one opens Cargo.toml; the difference algorithm has to be right for every pair of texts, and error paths are untested.',
 [E+'diff.rs',E+'buffer.rs',E+'core.rs',E+'mod.rs'],
 [('diff computes an edit script',E+'diff.rs'),('PieceTable::apply_diff applies it as one edit group',E+'piece_table/mod.rs'),('Buffer::load_from_disk/new_file',E+'buffer.rs'),('Core::edit',E+'core.rs')],
 [('last_sync','when the file was last read',E+'buffer.rs')],
 ['view notifications and responses after edit requests'],
 'cfg(ced_verif): diff is a private module of the crate')

p('C06','Deleting removes exactly the selected text and selections stay valid',
 'Deleting a selection removes exactly the user-perceived characters it covers, reports exactly the removed text, and leaves all other text alone; a buffer emptied this way keeps one empty line. After any edit by anyone, every selection of every client in every view still designates existing characters of its buffer.',
 ['histories'],'every sequence of moves, extensions, deletions, overwrites, appends and reloads by several clients sharing buffers in several views, up to a depth',
 'No test deletes a selection; a stale selection needs two clients or two views and a particular order of moves and edits.',
 [E+'core.rs',E+'buffer.rs',E+'selection.rs','core/scripts/editor.lua'],
 [('Core::delete_selection and Buffer::selection_range',E+'core.rs'),('clamping of selections after an edit',E+'core.rs')],
 [('selections','per client, per view, per buffer selections',E+'core.rs')],
 ['get_context, deleted text, view notifications'])

p('C07','Every client always sees the current state of what it views',
 'Once all notifications are delivered, the last view notification a client received is exactly what it would get by asking for its view again: same buffers, same lines, same line range, same highlighted selection, whoever caused the last change. The highlighted text is exactly the selected text.',
 ['histories','schedules'],'every sequence of requests and scripts by up to three clients that share or do not share buffers and views, up to a depth',
 'No test looks at view notifications; a missed refresh only shows for a client that did not make the change.',
 [E+'core.rs',E+'view.rs',E+'buffer.rs'],
 [('Core::notify_view_update and its callers',E+'core.rs'),('View::to_notification_params renders lines and selections',E+'view.rs')],
 [('ClientContext.view','the view a client looks at',E+'core.rs')],
 ['view notifications on the broadcast channel'])

p('C08','Views and buffers appear, change and disappear consistently',
 'The existing views and buffers and the view each client looks at always follow from the requests made: a view is created by editing or naming a buffer, adding or removing a buffer replaces the view for everyone looking at it, and deleting a view sends its viewers to the most recently created one. A buffer shown by some view is never dropped, a buffer whose last view goes is, there is always at least one view, and unknown names are refused without effect.',
 ['histories'],'every sequence of edit, view, view-add, view-remove, view-delete, join and leave requests of several clients up to a depth, and every reachable state of the view model',
 'The Lua tests make three single requests; the lifecycle is a state machine whose corners (last view, shared view, removed while viewed) need sequences.',
 [E+'core.rs',E+'view.rs',E+'command.rs',C+'stackmap.rs'],
 [('Core::add_view/delete_view/modify_view/view',E+'core.rs'),('StackMap keeps creation order',C+'stackmap.rs')],
 [('views','all views by key, most recent first',E+'core.rs'),('buffers','all buffers by name',E+'core.rs')],
 ['view_select / view_add menus list views and buffers; view notifications'])

p('C09','Clients do not disturb each other and get only their own messages',
 'A request of one client never changes the selections, current view, menu, key mode or status line of another, except that edits to a shared buffer and changes to a shared view show up for those who look at it. Messages, errors, hints, status lines and menus addressed to a client reach that client and no other, and each client identity it is told is its own.',
 ['histories','schedules'],'every interleaving of request sequences of up to three clients up to a depth',
 'All editor tests use a single client.',
 [E+'core.rs',E+'mod.rs',C+'server.rs','core/scripts/editor.lua','core/scripts/keys.lua'],
 [('BroadcastMessage addressing',C+'server.rs'),('per-client context and Lua client table',E+'core.rs')],
 [('clients','per-client contexts',E+'core.rs')],
 ['notifications per client, get_context per client'])

p('C10','Every request gets one correct answer and none takes the editor down',
 'For every line a client may send, well-formed or not, exactly one response comes back, carrying the id of the request (null if it had none that could be read), with a result when the request was carried out and otherwise an error of the right class: malformed, unknown method, bad parameters, failing script. No sequence of requests, and no script using the scripting interface, makes the editor crash or stop answering.',
 ['inputs','histories'],'every request shape (method, parameter shape, id kind, malformed JSON) in every state reached by every short request sequence',
 'Tests send a handful of valid requests in a fresh editor; crashes need a particular earlier history or malformed parameter.',
 [E+'mod.rs',E+'core.rs',E+'command.rs',R+'jsonrpc.rs'],
 [('Editor::handle dispatches and builds responses',E+'mod.rs'),('response! macro',R+'jsonrpc.rs')],
 [],['responses of Editor::handle'])

p('C11','The server keeps serving under every order of joins, leaves and failures',
 'Whatever the order in which clients join, send requests, quit, disconnect or stop accepting data, and however the tasks are scheduled, every still-connected client gets one response per request in the order sent and every notification meant for it, and one client going away never disturbs another. The server ends exactly when the last client has disconnected.',
 ['schedules','fault_sequences'],'every interleaving of client events, event-loop steps and broadcast steps up to a bound, with connections broken at every point',
 'The connection tests start one client; the interleavings of event loop, broadcast task and disconnections are never controlled.',
 [C+'server.rs'],
 [('Server::handle_events and its broadcast task',C+'server.rs'),('Server::read_client turns lines into events',C+'server.rs')],
 [('clients index','streams of connected clients',C+'server.rs')],
 ['bytes received on each client connection, completion of the event loop'],
 'cfg(ced_verif): entry point to run the event loop on a caller-controlled executor and event queue')

p('C12','Sessions are found by name, started once and cleaned up',
 'A session name always denotes the same address however it is passed on, from command line to daemon to client, and names of different sessions denote different addresses. A daemon started for a session is reachable and listed as soon as the start is reported, and when its last client has left the process ends, the socket is gone and the session is no longer listed (sessions in the session directory are listed, those elsewhere or on network addresses are not). Starting a session that is running leaves it as it is, and a daemon that cannot start is reported as such.',
 ['inputs','histories','configurations'],'every address string over an address alphabet up to a length, and every sequence of start, connect, disconnect and list on real processes up to a depth',
 'Tests parse eight addresses and connect to one socket and one port.',
 [R+'session.rs',R+'lib.rs',C+'server.rs',R+'transport/socket.rs',R+'transport/server_listener.rs',C+'bin/ced.rs'],
 [('ConnectionMode::from_str/Display, Session::from_name/list',R+'session.rs'),('start_daemon/ensure_session',R+'lib.rs'),('Server::run cleanup',C+'server.rs')],
 [('socket file','presence of a session',R+'session.rs')],
 ['--list output, connections, process exit, session directory'])

p('C13','Protocol messages survive encoding and decoding',
 'Every request, response, notification and error, with any id, method, parameters, result (null included) and error data, decodes from its own encoding to an equal message on one line, and a received message is always recognised as what it is. Reading the result of a response gives its result or its error, and never crashes, whatever was received.',
 ['inputs'],'every message over bounded grids of ids, methods, nested JSON values, strings with escapes, and every client event kind (null and absent parameters or error data being the same); every truncation and field omission of each encoding',
 'Six tests encode and decode one message each.',
 [R+'jsonrpc.rs',R+'protocol.rs',R+'client.rs'],
 [('serde derives and Response::result',R+'jsonrpc.rs'),('ClientEvent untagged decoding',R+'jsonrpc.rs')],
 [],['parse and print of messages'])

p('C14','Key descriptions and key events correspond one to one',
 'Every key event, with any modifiers and any named or character key, prints to a description that reads back as the same event, different events print differently, and events survive the protocol encoding. A letter typed with shift (an upper-case ASCII letter) is described by its lower-case letter and the shift mark, and reads back as that. The named keys are backspace, return, escape and the four arrows.',
 ['inputs'],'all modifier combinations with all named keys and every character of all Unicode blocks in bounds',
 'The test converts eight keys.',
 [R+'keys.rs'],[('KeyEvent/Key Display and parsing',R+'keys.rs')],[],['to_string and from of key events'])

p('C15','Keys act according to the current mode of each client',
 'Each key a client sends acts according to the mode that client is in: in normal mode the movement, extension, deletion and message keys act once, mode keys enter and leave the insertion, go-to and extend-to modes as documented by their hints, and unknown keys do nothing. After each handled key the status line of that client, and only that, shows the key and the mode.',
 ['histories'],'every sequence of keys up to a depth, by two clients interleaved, over all mapped keys and representatives of unmapped ones',
 'One Lua test sends single keys; mode stacks are a state machine over histories.',
 ['core/scripts/keys.lua','core/scripts/editor.lua',E+'mod.rs'],
 [('ModalHandler mode stack and mappings','core/scripts/keys.lua'),('Editor::command_keys',E+'mod.rs')],
 [('mode_stack','modes of a client','core/scripts/keys.lua')],
 ['status, hint, echo and view notifications'])

p('C16','Menus show, filter and run exactly what they list',
 'Filtering a menu keeps exactly the entries whose label contains the search words in order (ignoring case), shows every kept label unaltered with exactly the matched words marked, and puts tighter matches first; any search text is accepted. Choosing a listed entry performs its action for the choosing client, prompts accept any text, and unknown menus or choices are refused without effect.',
 ['inputs','histories'],'every search and label over an alphabet with regular-expression characters, case and multi-byte characters up to a length; every sequence of menu requests, choices and other requests up to a depth',
 'Three tests filter nine paths with one search.',
 [E+'menu.rs',E+'command.rs',E+'mod.rs'],
 [('MenuFilter::filter and Candidate::tokenize',E+'menu.rs'),('default_commands and command_menu/command_menu_select',E+'command.rs')],
 [('command_map','menus and their populated entries',E+'mod.rs')],
 ['menu notifications, responses and effects of menu-select'])

p('C17','The client-side state mirrors what the server sent',
 'After any sequence of notifications and local menu actions, the state a client library user reads is the latest echo, status, view, menu and identity the server sent, malformed or unknown messages change nothing, and every message is reported as one event. The menu selection always designates an existing entry, and choosing sends that entry (or the typed text for a prompt) exactly once.',
 ['histories','inputs'],'every sequence of server messages and client actions up to a depth, including empty menus and malformed payloads',
 'The library has no test of its connection state.',
 [R+'connection.rs',R+'client.rs'],
 [('ConnectionState::event_update',R+'connection.rs'),('Menu::select_next/select_previous/selected_item, Connection::menu_select',R+'connection.rs')],
 [('ConnectionState','mirror of server state',R+'connection.rs')],
 ['Connection::state, events stream, requests written on the wire'])

p('C18','The recency map orders its keys by last use',
 'The most recent key is always the one last inserted or marked as used among those still present, removing any key leaves the order of the others unchanged, and lookups behave like a plain map. Marking an absent key is refused without effect.',
 ['histories'],'all operation sequences up to closure of the state space over a small key set',
 'One test runs a single sequence of eight operations.',
 [C+'stackmap.rs'],[('StackMap::insert/remove/set_last/latest',C+'stackmap.rs')],[('stack','keys by recency',C+'stackmap.rs')],['latest, latest_value, get'])

p('C19','The JSON bridge and standalone mode relay every message intact',
 'In JSON mode every line read on standard input that is a request reaches the server, and every message of the server appears promptly on standard output as one line, in order and complete; malformed input is skipped. In standalone mode each request line read gets one response line, every notification appears whole and in order, and the process ends normally at end of input or when its client quits.',
 ['histories','inputs'],'every sequence of request lines (valid, malformed, empty) up to a length, on the real program, with every message awaited before the next is sent and also sent at once',
 'No test runs the program in these modes.',
 [C+'clients.rs',C+'bin/ced.rs',R+'client.rs'],
 [('StdioClient::run, start_standalone',C+'clients.rs')],[],['standard output of the program'])

p('C20','Scripts run in order and failures are reported',
 'In script mode the given scripts run in the order given, in one editor, with the full scripting interface acting as the corresponding requests do; the first script that is missing or fails stops the run with a failing exit status and a message naming it. A failing script leaves the editor usable and its error is recorded and sent to the client that ran it.',
 ['inputs','histories'],'every sequence of succeeding, failing and missing scripts up to a length; every scripting-interface call with every argument shape',
 'The Lua tests run three scripts that succeed.',
 [C+'script.rs',E+'mod.rs',E+'core.rs','core/scripts/editor.lua','core/scripts/utils.lua'],
 [('exec_scripts/exec_script_oneshot',C+'script.rs'),('Editor::exec_lua',E+'mod.rs')],[],['exit status, output and notifications'])

p('C21','The C interface hands over exactly what the library has',
 'Iterating an event through the C interface yields exactly the fragments, items, lines and numbers the server sent, in order and then the end marker, for every kind of event. Bytes the interface cannot hand over (NUL) are replaced, and undecodable data is reported as an error. The last error is reported with its exact length and text, stays available until it has been fetched into a large enough buffer, and no buffer size makes it overrun.',
 ['inputs','histories'],'every server message kind with bounded nested contents, every buffer size around the message length, and every order of error calls',
 'The C interface has no tests.',
 [F+'lib.rs',F+'event.rs',F+'text.rs',F+'connection.rs','remote-ffi-gen/src/lib.rs'],
 [('CedEvent::from and iterators',F+'event.rs'),('ced_last_error_length/message',F+'lib.rs')],[('LAST_ERROR','pending error of a thread',F+'lib.rs')],
 ['values returned by the C functions of the built library'])

p('C22','The terminal client draws any content in any window without failing',
 'For every window size, every view, menu, hint, status and message contents, wide and multi-byte text included, the terminal client draws what fits and keeps running. What is drawn is the visible part of the view, one screen row per line, cut at the window width counted in user-perceived characters.',
 ['inputs','configurations'],'every window size in a range with every content of a bounded grid, and every sequence of server messages, keys and resizes up to a depth',
 'The terminal client has no tests.',
 [C+'tui.rs'],[('Term::draw_view/draw_menu/draw_hint/draw_status/resize',C+'tui.rs')],[('last_size','window size',C+'tui.rs')],['bytes written to the terminal, process survival'])

p('C23','Short buffer names are unique and recognisable',
 'The short name of a file among any set of open files is the shortest run of trailing path parts that no other file of the set ends with, or the whole path if there is none, and scratch buffers keep their name. Computing it never fails.',
 ['inputs'],'every set of up to four paths over a small alphabet of components up to a depth',
 'One test names five sources.',
 [E+'buffer.rs'],[('find_uniq_name/find_shortest_name',E+'buffer.rs')],[],['Buffer::shortest_name'])

p('C24','Logs record every message and error in order',
 'Every message and error, whoever causes it and whoever it is addressed to, is appended once and in order to the messages or errors buffer with its addressee, and echoed to the addressee. An echoed error is a single line in which runs of the same blank are collapsed and nothing else is lost.',
 ['histories','inputs'],'every sequence of messages and errors of several clients up to a depth, and every text over an alphabet of blanks, line breaks and letters up to a length',
 'One test normalises two strings.',
 [E+'core.rs',E+'mod.rs'],[('Core::message/error/append_to, normalize_error_message',E+'core.rs')],[],['echo notifications, contents of *messages* and *errors*'])

out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
