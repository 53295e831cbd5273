from props_w import P
S = "crates/mabo-lsp/src/"
FILES = [S+"main.rs", S+"client.rs", S+"config.rs", S+"state.rs", S+"handlers/mod.rs", S+"handlers/index.rs"]
L = [
P("L01", "The server's view of a document is exactly the text the client has",
  "After any history of opening, changing (whole text or ranges, several changes per notification, in any negotiated position encoding, with positions past the end of a line or the text), closing and deleting documents, the diagnostics, symbols, tokens and hover texts of the language server (over pipes as well as over sockets) are those of a document freshly opened with the text that results from applying the changes as the protocol defines them.",
  ["histories", "inputs"], "all edit histories over all texts with multi-byte characters and both kinds of line breaks, in UTF-8, UTF-16 and UTF-32 positions",
  "The server has no tests of its state; every answer depends on the whole history of edits and the mapping of positions.",
  FILES, [("incremental changes", S+"handlers/mod.rs did_change"), ("positions", S+"handlers/index.rs")],
  ["mabo-lsp over stdio: didOpen, didChange, didClose and all requests"]),
P("L02", "Answers and diagnostics describe the schema, as negotiated with the client",
  "For every text the server publishes an empty list of diagnostics if the text parses and validates and otherwise one error at the place of the defect, related to the first use for names and identifiers that are used twice; the document symbols mirror the definitions of the schema with their kinds, nesting and ranges; the semantic tokens are in order, don't overlap, and mark exactly the names, types, keywords and literals of the schema; hovering over a definition shows its comment, and the next free identifier or wire size unless the settings turn that off (whichever of the settings the client gives). All positions are in the encoding that was negotiated, which is one the client offers.",
  ["inputs", "configurations"], "all schemas, layouts, positions, position encodings and settings",
  "None of the handlers is tested; the positions depend on the layout, the characters and the encoding.",
  FILES, [("document symbols", S+"handlers/document_symbols.rs"), ("semantic tokens", S+"handlers/semantic_tokens.rs"), ("hover", S+"handlers/hover.rs"), ("diagnostics", S+"handlers/compile.rs")],
  ["mabo-lsp over stdio: documentSymbol, semanticTokens/full, hover, publishDiagnostics, initialize, workspace/configuration"]),
P("L03", "The language server survives whatever clients and workspaces contain",
  "Whatever messages a client sends after initialization (unknown methods, notifications and requests for unknown documents, ill-typed parameters, positions and ranges anywhere, reversed ranges, unparsable texts), whatever files its workspace folders hold, and whether or not it reads what the server writes to standard error, the server neither ends nor stops answering: each request gets exactly one answer, valid documents are then handled as ever, the readable schema files of projects in its workspace folders are known before they are opened, and what the server says about documents that the messages are not about stays the same.",
  ["inputs", "histories", "fault_sequences"], "all sequences of protocol messages with damaged parameters; all workspace contents including unreadable and non-UTF-8 files, directories and links",
  "The main loop and the error paths are not tested at all.",
  FILES, [("main loop", S+"main.rs"), ("handlers", S+"handlers/mod.rs")],
  ["mabo-lsp over stdio"]),
P("L04", "Messages that overlap with the server's own requests are not lost",
  "However the client interleaves its messages with its answers to the server's own requests (settings, registrations), late, before other answers or out of order, no answer is taken for that to another request, every notification takes effect and every request is answered, in the order they were sent.",
  ["schedules", "histories"], "all interleavings of client messages with delayed answers to the server's requests",
  "An untested blocking wait within the main loop; the failure needs a particular interleaving.",
  FILES, [("requests of the server and their answers", S+"main.rs, client.rs")],
  ["mabo-lsp over stdio"]),
P("L05", "The server ends when its client leaves, and not before all is answered",
  "Once the client asks the server to shut down and sends the exit notification - whatever messages and answers to the server's own requests are still under way, and whether or not it waits in between - the server ends successfully and soon, after it answered every request sent before, in order, and rejected those sent after. It ends soon as well, having answered what was asked before, if the client sends only the exit notification or closes its end of the connection, and at least ends if that happens before the initialization or within a message.",
  ["schedules", "histories", "fault_sequences"], "all histories of messages, ends of the connection and delays of the client's answers",
  "No test starts the server; a server that stays behind or loses the last answers shows only with the right messages under way.",
  FILES, [("main loop and shutdown", S+"main.rs"), ("waiting for answers", S+"client.rs")],
  ["mabo-lsp over stdio and sockets"]),
]
