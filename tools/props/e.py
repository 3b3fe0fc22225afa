[
{"id": "P15", "title": "Flag variables behave as case-insensitive sets, and actions use the right ones",
 "statement": "setflag, addflag and removeflag replace, extend and reduce the set of flags of the named variable (or the internal one), every string counting as a space-separated list and flags comparing without case; hasflag holds exactly when a flag in its variables matches a key (:count: their number). keep and fileinto carry their :flags, also an empty list, or else the internal flags of that moment; the implicit keep those of the end of the script.",
 "over": ["programs", "inputs"], "forall": "every sequence of flag commands, set, blocks, includes and tests over any variables and spellings",
 "why": "The state after a sequence of edits depends on the whole history; fixtures run one short sequence.",
 "files": ["src/runtime/actions/action_flags.rs", "src/runtime/tests/test_hasflag.rs", "src/compiler/grammar/actions/action_flags.rs", "src/compiler/grammar/tests/test_hasflag.rs", "src/runtime/context.rs", "src/runtime/actions/action_fileinto.rs"],
 "mech": [("EditFlags::exec, tokenize_flags, get_local_or_global_flags", "src/runtime/actions/action_flags.rs"), ("TestHasFlag::exec", "src/runtime/tests/test_hasflag.rs"), ("Instruction::Keep, final_event", "src/runtime/context.rs")],
 "state": [("__flags", "internal flags, in the global variables", "src/runtime/context.rs")],
 "observe": ["flags of Keep and FileInto events", "outcome and captures of hasflag"],
 "rule": "A case is a random script of flag edits, set, hasflag, fileinto, blocks and included scripts; the flags in all events (as sorted lists) and all outcomes are compared with a model. Distinct by scripts.",
 "technique": "runtime monitoring: events and outcomes compared with a reference model of flag sets",
 "note": "Exploration. Known findings: hasflag :regex, and numbers in text values. Flag variables are declared at the top level (a break out of a loop may leave block-local ones behind, pinned by fixtures).",
 "need": ["flags removed", "duplicates ignored", "hasflag matches true", "hasflag count true", "captures", "explicit keep", "implicit keep", "flags edited by an included script"]},
{"id": "P16", "title": "header, address and exists look at the right header fields and parts",
 "statement": "header and address test exactly the fields with the given names (in any case, computed or constant; with :index n only the n-th, from the end with :last), in the order of the names and then of the message. header sees the unfolded, decoded text; address every mailbox, also in groups, or its :localpart, :domain, :user, :detail or :name (absent parts are skipped); exists holds when all names occur.",
 "over": ["inputs", "programs"], "forall": "every header section of address and text fields with folding, encoded words, groups, comments and quoted names, and every combination of names, index, part and match type",
 "why": "The values come from raw text, parsed fields or re-parsing, depending on the kind of field; fixtures use a few plain messages.",
 "files": ["src/runtime/tests/test_header.rs", "src/runtime/tests/test_address.rs", "src/runtime/tests/test_exists.rs", "src/compiler/grammar/tests/test_header.rs", "src/compiler/grammar/tests/test_address.rs", "src/compiler/grammar/tests/test_exists.rs"],
 "mech": [("find_headers, find_header_values", "src/runtime/tests/test_header.rs"), ("find_addresses, AddressPart::eval", "src/runtime/tests/test_address.rs")],
 "state": [("Context::message, part", "the message and the current part", "src/runtime/context.rs")],
 "observe": ["lists of values in ListContains events, captured first values, outcomes of tests"],
 "rule": "A case prints a message from random structured fields and runs up to seven tests; the values seen by the host, the first value captured and all outcomes are compared with what follows from the structure. Distinct by script and message.",
 "technique": "runtime monitoring: values and outcomes compared with those derived from the structure the message was printed from",
 "note": "Exploration, top-level headers (parts of MIME messages: P22). Parsing of mailboxes is done by mail-parser; forms it reads differently from RFC 5322 are not generated. Known finding: numbers in text values.",
 "need": ["exists true", "with :index", "address:detail values listed", "address:name values listed", "header values listed", "address first value", "header compared, true"]},
{"id": "P17", "title": "Tests about the delivery look at what the host supplied, in order of precedence",
 "statement": "envelope tests the parts the host set, in order: paths without brackets and source routes, :localpart, :domain, :user, :detail and :zone for bytimeabsolute as for headers; invalid addresses are ignored; setting envelope.NAME changes the part for later tests. spamtest (:percent) and virustest see the number of the status. metadata, environment and their variants see the value set for this message before that of the runtime, names without case; valid_notify_method, notify_method_capability and valid_ext_list hold exactly for what the runtime was told is valid; variables of envelope and env have the same values.",
 "over": ["inputs", "configurations", "programs"], "forall": "every envelope, spam and virus status, metadata, environment, list of valid URIs and lists, and every form of the tests",
 "why": "These values come from the configuration and from setters of the context in any order and combination; fixtures use one of each.",
 "files": ["src/runtime/tests/test_envelope.rs", "src/runtime/tests/test_spamtest.rs", "src/runtime/tests/test_metadata.rs", "src/runtime/tests/test_extlists.rs", "src/runtime/tests/test_notify.rs", "src/runtime/tests/test_string.rs", "src/runtime/context.rs", "src/runtime/mod.rs"],
 "mech": [("TestEnvelope::exec, parse_envelope_address", "src/runtime/tests/test_envelope.rs"), ("SpamStatus::from_number, VirusStatus::from_number", "src/runtime/env.rs"), ("Context::set_envelope", "src/runtime/context.rs")],
 "state": [("envelope, metadata, vars_env, spam_status, virus_status", "what the host said about the delivery", "src/runtime/context.rs")],
 "observe": ["lists of values in ListContains events, captured values, outcomes of tests"],
 "rule": "A case is a random configuration and a script of up to eight tests of it; all outcomes, values seen by the host and captured values are compared with those that follow from the configuration. Distinct by script and configuration.",
 "technique": "runtime monitoring: outcomes and values compared with those derived from the configuration",
 "note": "Exploration. Known finding: numbers in text values. Zones with minutes and times before 1970: P19.",
 "need": ["envelope with zone listed", "envelope:detail listed", "spamtest percent is true", "virustest is true", "metadata captured", "valid_notify_method true", "environment true", "valid_ext_list true", "notify_method_capability is true"]},
{"id": "P18", "title": "The host is asked exactly when needed, with exact arguments",
 "statement": "mailboxexists, mailboxidexists, specialuse_exists, duplicate, :list tests and external functions ask the host once each time the flow reaches them, with precisely the strings, ids, expiry and comparison of the script; tests that allof, anyof or an earlier branch decide are not asked. The answer is the result of the test, also under not. duplicate takes :uniqueid, else the first id of the :header, else the Message-ID, after :handle; without an id it is false.",
 "over": ["programs", "inputs", "histories"], "forall": "every nesting of not, allof and anyof over the tests, every list of arguments and every sequence of answers",
 "why": "The run is suspended in the middle of a test and resumed with the answer; fixtures use few answers and hardly nest.",
 "files": ["src/runtime/tests/mod.rs", "src/runtime/tests/test_duplicate.rs", "src/runtime/context.rs", "src/compiler/grammar/tests/test_duplicate.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/instruction.rs"],
 "mech": [("Test::exec", "src/runtime/tests/mod.rs"), ("TestDuplicate::exec", "src/runtime/tests/test_duplicate.rs"), ("Context::run, answers", "src/runtime/context.rs")],
 "state": [("expect, test_result", "the answer that is awaited and the result of the last test", "src/runtime/context.rs")],
 "observe": ["all events of a run, in order, with their arguments", "marks that show the branch taken"],
 "rule": "A case is a random script of if and elsif with trees of tests up to depth 3; a model says which questions are asked with which arguments under the random answers, and which branch is taken. Distinct by script and message.",
 "technique": "runtime monitoring: the sequence of events is compared online with a reference evaluation of the tests",
 "note": "Exploration. Headers used by duplicate :header hold single message ids; :header also looks at child parts (not used here).",
 "need": ["duplicate", "function", "list", "mailbox", "mailbox id", "special use"]},
{"id": "P19", "title": "date and currentdate compute the parts of a time in the right zone",
 "statement": "date looks at the fields with the given name that hold a date (with :index, at that field), in UTC, the :originalzone or the given :zone; inserted fields count as received ones. currentdate takes the time at which the run began. year to weekday, julian, iso8601, std11 and zone are those of the Gregorian calendar for all times from 1970 to 2999.",
 "over": ["inputs", "programs"], "forall": "every date, time, zone, field format, date part and match type",
 "why": "Calendar arithmetic has to hold for every day and zone; fixtures use one date.",
 "files": ["src/runtime/tests/test_date.rs", "src/compiler/grammar/tests/test_date.rs", "src/runtime/context.rs"],
 "mech": [("TestDate::exec, find_dates, DatePart::eval, Zone::eval", "src/runtime/tests/test_date.rs"), ("parse_timezone, lookup_date_part", "src/compiler/grammar/tests/test_date.rs")],
 "state": [("current_time", "time at the beginning of the run", "src/runtime/context.rs")],
 "observe": ["lists of values in ListContains events, captured first values, outcomes of tests"],
 "rule": "A case prints a message with date fields from random times and runs up to eight tests; values seen by the host, captured ones and outcomes are compared with an independent calendar. Runs during which the clock ticks are repeated. Distinct by script and message.",
 "technique": "runtime monitoring: values and outcomes compared with an independent calendar; the host delays a run to watch its clock",
 "note": "Exploration. Known findings: :regex compares as :matches, numbers in text values, and errors of the pinned mail-parser: zones with minutes, times before 1970, fields with zones of 12 hours and more (each accepted only if the value is the one mail-parser computes).",
 "need": ["date julian captured", "date iso8601 listed", "date zone listed", "date weekday is true", "currentdate iso8601 captured", "date std11 with :index listed", "one time per run"]},
{"id": "P20", "title": "body looks at the decoded or raw text of the right parts; size is exact",
 "statement": "body :text sees the decoded text of every text part of the current part (markup removed from HTML and XML), :raw the text as received of every part, :content the parts of the listed types (without case; empty: all): decoded leaves, the header of an attached message, what precedes and follows the parts of a multipart; :count counts those parts, :subject adds the Subject. size compares strictly with the length in bytes of the message as it would be stored now, with K, M and G.",
 "over": ["inputs", "programs"], "forall": "every tree of MIME parts with any encodings, charsets and line ends, every current part, transform, list of types and match type; every sequence of header edits",
 "why": "Offsets and trees of parts vary with every message; fixtures use a handful of messages.",
 "files": ["src/runtime/tests/test_body.rs", "src/runtime/tests/test_size.rs", "src/runtime/tests/mime.rs", "src/compiler/grammar/tests/test_body.rs", "src/compiler/grammar/tests/test_size.rs", "src/runtime/actions/action_editheader.rs"],
 "mech": [("TestBody::exec", "src/runtime/tests/test_body.rs"), ("find_nested_parts, ContentTypeFilter", "src/runtime/tests/mime.rs"), ("message_size", "src/runtime/actions/action_editheader.rs")],
 "state": [("message, part, message_size", "the message, the current part and the size so far", "src/runtime/context.rs")],
 "observe": ["outcomes of body and size tests", "length of the created message"],
 "rule": "A case prints a message from a random tree of parts and runs tests, also inside foreverypart for chosen parts; outcomes are compared with those that follow from the tree. For size, the length of the message stored after the same edits is the reference. Distinct by script and message.",
 "technique": "runtime monitoring: outcomes compared with the structure the message was printed from, and with the message that is stored",
 "note": "Exploration. HTML is reduced to text by mail-parser in the reference as well. Attached messages are single parts, since mail-parser misplaces the end of others. Known findings: numbers in text values, and :content of a multipart. size after replace, enclose and convert is an estimate and not claimed.",
 "need": ["body text contains true", "body raw is true", "body content is true", "body content count true", "raw subject", "invalid content type", "tests of a part in a loop", "size of an edited message"]},
{"id": "P21", "title": "Header edits change exactly the fields asked for and nothing else",
 "statement": "addheader puts one field, its value without CR and LF and cut at the size limit, first (or with :last, last) among the fields of the current part; deleteheader removes exactly the fields that name, :index, :last, patterns and :mime :anychild select; names that are invalid or protected change nothing. Every fileinto, redirect and keep stores or sends the message with the edits made so far (implicit keep: all), created only if there were new ones. All other fields, boundaries and bodies stay byte for byte (the line end after a header section becomes CRLF), and tests read the edited fields.",
 "over": ["inputs", "programs", "histories", "configurations"], "forall": "every message (any tree of parts, line ends, folding), every sequence of edits in the main script, included ones and foreverypart, every action in between and every limit and list of protected fields",
 "why": "The message is rebuilt from offsets into the original and inserted fields after any history of edits; fixtures cover a few edits of two messages.",
 "files": ["src/runtime/actions/action_editheader.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_fileinto.rs", "src/runtime/actions/action_redirect.rs", "src/compiler/grammar/actions/action_editheader.rs", "src/runtime/tests/test_header.rs", "src/runtime/context.rs"],
 "mech": [("AddHeader::exec, DeleteHeader::exec, insert_header, remove_crlf", "src/runtime/actions/action_editheader.rs"), ("build_message, build_message_id", "src/runtime/actions/action_mime.rs"), ("find_headers", "src/runtime/tests/test_header.rs")],
 "state": [("message, has_changes, main_message_id, last_message_id", "the edited message and the created copies", "src/runtime/context.rs")],
 "observe": ["bytes of every created message", "message ids in FileInto, SendMessage and Keep", "values of edited fields in ListContains events"],
 "rule": "A case prints a message from a tree of parts and runs a random script of edits, reads and actions; all events and the bytes of all created messages are compared with a model that keeps the fields of each part as text. A quarter of the cases adds a field to an arbitrary message and compares the rest. Distinct by script and message.",
 "technique": "runtime monitoring: events and bytes of created messages compared online with a reference model of the message",
 "note": "Exploration. Lines in header sections that mail-parser does not take for fields are lost (such messages are skipped and counted); attached messages are single parts. Known finding: numbers in text values.",
 "need": ["created message compared", "edited fields read", "edits of parts", "field added to an arbitrary message", "original message kept", "reference to a message"]},
{"id": "P22", "title": "MIME loops visit the right parts, and tests look at the part they are in",
 "statement": "foreverypart runs its block for every part in order, the outermost from the message itself, a nested one (also in an included script) for all parts below the current one; break leaves the innermost or the named loop; afterwards the part of before is current again. header :mime and exists :mime look at the current part, with :anychild at all parts below it too; :type, :subtype, :contenttype and :param at those of its structured fields (count counts these). extracttext stores the text of the current part, HTML as text, its first characters with :first, then modified; without text, or outside a loop, an empty string.",
 "over": ["inputs", "programs"], "forall": "every tree of MIME parts and every nesting of loops, breaks, conditions and included scripts",
 "why": "Iteration state is kept on a stack across scripts and has to agree with a tree that differs in every message; fixtures loop over a few messages.",
 "files": ["src/runtime/context.rs", "src/runtime/tests/mime.rs", "src/runtime/tests/test_header.rs", "src/runtime/tests/test_exists.rs", "src/runtime/actions/action_mime.rs", "src/compiler/grammar/actions/action_mime.rs", "src/compiler/grammar/instruction.rs"],
 "mech": [("ForEveryPart, ForEveryPartPush, ForEveryPartPop", "src/runtime/context.rs"), ("find_nested_parts_ids, SubpartIterator", "src/runtime/tests/mime.rs"), ("find_header_values", "src/runtime/tests/test_header.rs"), ("ExtractText::exec", "src/runtime/actions/action_mime.rs")],
 "state": [("part, part_iter, part_iter_stack", "the current part and what the loops have left", "src/runtime/context.rs")],
 "observe": ["marks with the number of the current part", "extracted texts", "values in ListContains events, captures and outcomes of tests"],
 "rule": "Half of the cases run a random program of loops, breaks, conditions, marks and extracttext, with included scripts, and compare all marks with an interpreter of the program over the tree; the others run tests of chosen parts before, in and after loops and compare values and outcomes with the tree. Distinct by script and message.",
 "technique": "runtime monitoring: the trace of marks and the outcomes of tests are compared with an interpreter over the structure the message was printed from",
 "note": "Exploration. HTML is reduced to text by mail-parser in the reference as well. Known findings: numbers in text values, an empty value with :param.",
 "need": ["loop", "nested loop", "break", "break to a name", "text extracted", "no text extracted", "included script", "tests in a loop", "tests in a nested loop", "exists in any child", ":param anychild listed", ":type captured", ":param count true"]},
{"id": "P23", "title": "replace, enclose and convert make exactly the message described",
 "statement": "replace exchanges the current part and all below it for the text (plain text, or with :mime a body after its own fields); of the message itself it keeps To, Cc, Bcc, Received, Date, Subject and From (renamed Original-… if replaced) and adds From, new Subject, missing Date and a Message-ID. enclose makes a multipart/mixed message of the text and the message so far as message/rfc822, with :subject or the old subject, the listed valid unprotected fields and From, Date, Message-ID unless listed. convert turns every matching text part (text, text/subtype or text/html to text/plain) into the other form and tells whether it did; values lose CR and LF and obey the size limit, no generated id is used twice, other parts stay as they were and further commands work on the new message.",
 "over": ["inputs", "programs", "histories", "configurations"], "forall": "every tree of MIME parts, every sequence of these commands with header edits, loops, conditions, included scripts and stores in between, every user name, host name and size limit",
 "why": "The commands rewrite a tree of parts while loops iterate it and later commands rely on the rewritten tree; fixtures try them one at a time on two messages.",
 "files": ["src/runtime/actions/action_mime.rs", "src/runtime/actions/action_convert.rs", "src/runtime/actions/action_editheader.rs", "src/runtime/context.rs", "src/compiler/grammar/actions/action_mime.rs", "src/compiler/grammar/actions/action_convert.rs"],
 "mech": [("Replace::exec, Enclose::exec, build_message, remove_nested_parts", "src/runtime/actions/action_mime.rs"), ("Convert::exec", "src/runtime/actions/action_convert.rs"), ("insert_header, remove_crlf", "src/runtime/actions/action_editheader.rs")],
 "state": [("message, part, part_iter, part_iter_stack", "the rewritten message and what loops still visit", "src/runtime/context.rs"), ("has_changes, main_message_id", "whether a new copy has to be created", "src/runtime/context.rs")],
 "observe": ["bytes of every created message", "message ids in FileInto and Keep", "marks: parts visited, texts extracted, outcomes of convert"],
 "rule": "A case prints a message from a tree of parts and runs a random program of replace, enclose, convert, header edits, extracttext, loops and stores; every event and the bytes of every created message (generated ids and the current time recognised by form) are compared with an interpreter over the tree. Distinct by script and message.",
 "technique": "runtime monitoring: events and bytes of created messages compared with an interpreter over the structure the message was printed from",
 "note": "Exploration. The conversion between HTML and text itself is mail-parser's in the reference as well. The size test after these commands is an estimate and not claimed.",
 "need": ["message replaced", "message replaced with :mime", "part replaced", "part replaced with :mime", "multipart replaced", "removed part skipped", "message enclosed", "message enclosed in a loop", "converted to HTML", "converted to text", "nothing to convert", "created message compared"]},
{"id": "P24", "title": "vacation answers personal mail only, once, with the right reply",
 "statement": "vacation asks the host whether it has answered (id: _v, sender in lower case, then :handle or the reason; expiry from :days, :seconds or the default) only if the sender is neither empty, the user nor a robot (mailer-daemon…, owner-…, …-request@), To, Cc, Bcc or Resent-… has an address of the user (envelope to or orcpt as configured, :addresses, user address; without case), no List- field, Auto-Submitted other than no, X-Auto-Response-Suppress with all or oof, Precedence bulk or too many Received fields are there and the limit of messages is not reached. A new answer is one message to the sender: :from or the user, the sender's From or Sender field as To, :subject or prefix and subject (256 characters) or the default, In-Reply-To and References, Auto-Submitted auto-replied and the reason (with :mime after its own fields), without line breaks from values; :fcc files it.",
 "over": ["inputs", "programs", "histories", "configurations"], "forall": "every combination of fields (repeated, folded, encoded, edited by the script, in parts), envelope, user, arguments, settings and answers of the host",
 "why": "Whether to answer depends on many conditions that have to hold together for every message; fixtures test them one at a time.",
 "files": ["src/runtime/actions/action_vacation.rs", "src/compiler/grammar/actions/action_vacation.rs", "src/runtime/tests/test_address.rs", "src/runtime/context.rs"],
 "mech": [("TestVacation::exec, Vacation::exec", "src/runtime/actions/action_vacation.rs"), ("find_addresses", "src/runtime/tests/test_address.rs"), ("user_from_field, set_user_full_name", "src/runtime/context.rs")],
 "state": [("envelope, user_address, user_full_name", "who the mail is from and for", "src/runtime/context.rs"), ("num_out_messages", "messages sent so far", "src/runtime/context.rs")],
 "observe": ["DuplicateId, CreatedMessage, SendMessage and FileInto events", "bytes of every reply"],
 "rule": "A case prints a message from random fields and runs up to four vacation commands with edits of fields in between, answering at random; all events and the bytes of the replies (generated id and date recognised by form) are compared with a reference. Distinct by script, message and settings.",
 "technique": "runtime monitoring: events and bytes of replies compared with a reference computed from the fields the message was printed from",
 "note": "Exploration. A subject of 257 characters may end in an ellipsis or not.",
 "need": ["reply sent", "reply to an edited message", "copy of the reply filed", "silent: answered before", "silent: Auto-Submitted", "silent: Precedence", "silent: X-Auto-Response-Suppress", "silent: limit of messages", "silent: loop", "silent: mailing list", "silent: no sender", "silent: not addressed to the user", "silent: own address", "silent: sender is a robot"]},
{"id": "P25", "title": "notify notifies once, by mail for mailto, else through the host",
 "statement": "notify does nothing for a message with an Auto-Submitted field other than no, or an invalid URI (constants are refused by the compiler). For mailto within the limit of messages it sends one message to all addresses of the URI (to, cc, bcc, decoded, each once): From :from if it has the user's address, else the user, To, Cc, the URI's valid fields except From, Date and Message-ID unless given, Importance, Subject (the URI's, else :message, else the message's; 256 characters), Auto-Submitted auto-notified, and as body the URI's, :message or the subject; no value breaks lines. Otherwise the host gets a Notify event with method, :from, :importance, :options and :message or the subject; :fcc files the message.",
 "over": ["inputs", "programs", "configurations"], "forall": "every URI made of addresses and fields in any order, case and percent-encoding, all arguments (constant or variable), edited messages, users and limits",
 "why": "URIs are data from scripts and variables with a grammar of their own; fixtures use a few.",
 "files": ["src/runtime/actions/action_notify.rs", "src/compiler/grammar/actions/action_notify.rs", "src/runtime/context.rs"],
 "mech": [("Notify::exec, parse_mailto, insert_address, validate_uri", "src/runtime/actions/action_notify.rs"), ("parse_notify", "src/compiler/grammar/actions/action_notify.rs"), ("user_from_field", "src/runtime/context.rs")],
 "state": [("num_out_messages", "messages sent so far", "src/runtime/context.rs")],
 "observe": ["Notify, CreatedMessage, SendMessage and FileInto events", "bytes of every message"],
 "rule": "A case runs up to four notify commands, whose URIs are printed from lists of addresses and fields or invalid, with edits of fields in between; all events and bytes of messages (generated id and date recognised by form) are compared with a reference. Distinct by script, message and settings.",
 "technique": "runtime monitoring: events and bytes of messages compared with a reference computed from the parts the URI was printed from",
 "note": "Exploration. Names without a value at the end of a URI are not generated. Beyond the limit of messages a mailto notification is left to the host.",
 "need": ["message sent", "message sent after edits", "copy filed", "left to the host", "left to the host beyond the limit", "nothing for an automatic message", "nothing for an invalid URI", "invalid URI refused"]},
{"id": "P27", "title": "Runs depend on their inputs only: repeatable, isolated and thread-safe",
 "statement": "A run's events, created messages, errors and final global variables depend only on the script, included scripts, message, settings and the host's answers (generated ids and the current time apart). Running other scripts before, in between or at the same time on other threads, with the same compiled scripts and the same runtime, and continuing a context on another thread after any event changes nothing. Compiling in parallel gives the same scripts, and runs leave a compiled script unchanged.",
 "over": ["inputs", "schedules", "histories"], "forall": "every set of scripts and messages and every schedule of their runs on one or more threads sharing compiled scripts and runtime",
 "why": "Hosts share compiled scripts and the runtime between connections; regular expressions are compiled lazily inside the shared script. No fixture runs anything twice or in parallel.",
 "files": ["src/runtime/context.rs", "src/runtime/tests/comparator.rs", "src/compiler/mod.rs", "src/lib.rs", "src/runtime/mod.rs"],
 "mech": [("LazyRegex: Arc<ArcSwap<Option<Regex>>>", "src/compiler/mod.rs"), ("Context owns all state of a run", "src/runtime/context.rs")],
 "state": [("LazyRegex", "a regular expression, compiled when first used, inside the shared script", "src/compiler/mod.rs")],
 "observe": ["events, errors, created messages and final global variables of every run", "ThreadSanitizer reports"],
 "rule": "A case generates up to three scripts with two included ones and two messages, records every run alone with scripts and runtime of its own, then repeats them on shared ones: one after the other, interleaved event by event, and on two to four threads that start together and hand contexts to each other; traces have to be the same. A part runs under ThreadSanitizer. Distinct by scripts and messages.",
 "technique": "runtime monitoring: recorded traces of shared, interleaved and parallel runs compared with runs alone; ThreadSanitizer",
 "note": "Exploration of schedules by stress. Scripts in which generated ids could decide a test are left out.",
 "sanitizer": "thread",
 "feature": "ser",
 "need": ["shared scripts loaded from their serialized form", "repeated run", "interleaved run", "parallel run", "parallel compilation", "scripts unchanged"]},
{"id": "P28", "title": "A compiled script survives serialization by serde and rkyv",
 "statement": "A compiled script written with serde or rkyv and read back equals the original and is written to the same JSON again; cloned, read back or compiled again from the same text it behaves the same: same events, created messages, errors and final global variables for every message, including regular expressions, which are only compiled when first used after reading. Running a script changes nothing in what is written.",
 "over": ["inputs", "programs", "histories"], "forall": "every script that compiles, with its included scripts, and every message",
 "why": "Hosts store compiled scripts and run them much later; every instruction, value and header name has to keep its meaning. Fixtures only compile and compare the scripts of the test suite, with serde alone.",
 "files": ["src/compiler/mod.rs", "src/lib.rs", "src/compiler/grammar/instruction.rs", "src/runtime/tests/comparator.rs"],
 "mech": [("derived Serialize and Deserialize, skipped LazyRegex", "src/compiler/mod.rs"), ("regex: compiled when first used", "src/runtime/tests/comparator.rs")],
 "state": [("LazyRegex", "empty after reading", "src/compiler/mod.rs")],
 "observe": ["the script read back", "JSON", "traces of runs of the original and the script read back"],
 "rule": "A case compiles a random script with two included ones, writes and reads them by serde, by rkyv and by both in turn, compares scripts and JSON, and runs all of them twice on a message against the script as compiled. Distinct by scripts and message.",
 "technique": "runtime monitoring: round trip compared for equality, and recorded traces of original and restored scripts compared",
 "note": "Exploration, with the features serde and rkyv. Damaged bytes are not claimed.",
 "feature": "ser",
 "need": ["read back equal", "run like the compiled script", "regular expression matched"]},
{"id": "P26", "title": "No value escapes from the field, part or address it is put into",
 "statement": "Whatever values scripts, variables, decoded header fields, the environment, the envelope, function results or percent-encoded URIs supply, what is put into a header field of a created message (added fields, subjects, names, URI fields) never begins a line of its own, ends the header section or becomes another field, and field names made from values contain only printable characters. A text put into a message or part (replace without :mime, enclose, convert, vacation, notify) becomes neither a field nor, with the separator of the parts around it, parts of its own. No recipient contains line breaks or angle brackets, and automatic messages always have From, To, Date, Message-ID, Subject and Auto-Submitted.",
 "over": ["inputs", "programs"], "forall": "every value with any kind of line break before, in or after it, by every way a value can get into every command that creates or changes a message",
 "why": "Whoever sends mail controls the values scripts copy; one position that forgets to clean them is enough. Fixtures use friendly values.",
 "files": ["src/runtime/actions/action_editheader.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_convert.rs", "src/runtime/actions/action_vacation.rs", "src/runtime/actions/action_notify.rs", "src/runtime/actions/action_redirect.rs", "src/runtime/context.rs"],
 "mech": [("remove_crlf", "src/runtime/actions/action_editheader.rs"), ("sanitize_address", "src/runtime/actions/action_redirect.rs"), ("parse_mailto", "src/runtime/actions/action_notify.rs"), ("build_message", "src/runtime/actions/action_mime.rs")],
 "observe": ["lines and parsed parts of every created message", "recipients of every SendMessage"],
 "rule": "A case makes a script of up to four commands whose values, from ten kinds of sources, carry a marker after some kind of line break (one for fields, one for texts); in every created message no line of a header section and no field of a part may be a marker, every line has to be a field or a continuation, and a marker for fields may not begin a line of the body either. Distinct by script, message and values.",
 "technique": "runtime monitoring: taint markers in hostile values, searched as lines and parsed fields of every created message",
 "note": "Exploration. With :mime the text is meant to begin with fields of its own.",
 "need": ["edited message", "notification", "replaced or enclosed message", "vacation reply", "recipient", "message sent", "separator in a text"]},
{"id": "P29", "title": "Different ways of writing a script give the same compiled script",
 "statement": "White space, line endings (LF or CRLF) and # and /* */ comments between tokens, the case of commands, tests and tags, leading zeros and K, M, G suffixes of numbers, quoted or multi-line (text:, with doubled dots) strings, escaped characters, the order of tagged arguments and brackets around a list of a single string make no difference: either all ways of writing a script down compile to the same script or all are refused.",
 "over": ["inputs", "programs"], "forall": "every script of the language and every combination of these ways, between any two tokens",
 "why": "The tokenizer is a hand-written state machine whose states meet in many combinations; fixtures are written in one style.",
 "files": ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/mod.rs", "src/compiler/lexer/word.rs", "src/compiler/grammar/mod.rs", "src/compiler/grammar/instruction.rs"],
 "mech": [("Tokenizer: Iterator::next, get_current_token, get_string", "src/compiler/lexer/tokenizer.rs"), ("lookup_words", "src/compiler/lexer/word.rs")],
 "state": [("state, last_ch, buf, token_is_tag", "what the tokenizer is in the middle of", "src/compiler/lexer/tokenizer.rs")],
 "observe": ["the compiled script", "compile errors"],
 "rule": "A case generates a script as a list of tokens, compiles the plain way of writing it down and three random ones, and compares the compiled scripts (positions of unknown commands apart) or errors. Distinct by both texts.",
 "technique": "runtime monitoring: metamorphic comparison of the compiled scripts of different renderings of one token list",
 "note": "Exploration. A word directly followed by a tag without white space is not generated.",
 "need": ["same script", "refused both ways", "tagged arguments in another order", "list of one string without brackets"]},
{"id": "P30", "title": "Strings mean what was written, encoded characters and references included",
 "statement": "The value a string of a script has when it is used is exactly its content: every character of a quoted or multi-line literal, with ${hex:…} and ${unicode:…} sequences (case-insensitive, any white space) replaced by the characters they stand for, and then ${name} replaced by the variable (unknown ones by nothing), also when the reference results from the decoding; anything malformed stays as written. Code points that are no characters (surrogates, beyond 10FFFF) and match variables beyond the limit are refused by the compiler.",
 "over": ["inputs", "programs"], "forall": "every content of a string, with any characters and any mixture of well-formed, malformed and unfinished sequences, in any argument",
 "why": "Decoding, references and numeric-looking text are handled by one state machine that restarts in the middle of a string; fixtures try a few strings.",
 "files": ["src/compiler/lexer/string.rs", "src/compiler/lexer/tokenizer.rs", "src/compiler/grammar/mod.rs", "src/runtime/eval.rs"],
 "mech": [("tokenize_string, add_value, parse_variable, parse_match_variable", "src/compiler/lexer/string.rs"), ("get_string", "src/compiler/lexer/tokenizer.rs")],
 "observe": ["folder, reason, message, mailboxes, values and ids in events, arguments of external functions"],
 "rule": "A case puts up to five random contents into arguments of commands and tests and compares the strings the host sees with a reference that decodes and substitutes in two passes. Distinct by script.",
 "technique": "runtime monitoring: strings in events compared with a two-pass reference interpretation of the content",
 "note": "Exploration. Sequences of bytes that are not UTF-8 are not claimed.",
 "need": ["encoded characters", "reference", "multi-line string", "invalid character refused", "match variable out of range", "folder", "reason", "mailboxes", "notify", "list", "handle", "value"]},
{"id": "P32", "title": "Malformed scripts are refused, with the first error at its place",
 "statement": "A script that breaks the grammar is always refused: an illegal character between tokens, an unterminated string or comment, a script cut within a command, a missing semicolon, brace, parenthesis or comma, an else or elsif that follows no if, something that is not a command or test where one has to be, an unknown tag, or an argument of the wrong type. The error names the kind, the line and the column of the first offending token (or, where the compiler looked one token ahead, the token before it), and what follows the offending token never changes it. A script cut between whole commands still compiles.",
 "over": ["inputs", "programs"], "forall": "every script of the language and every single-token damage to it, at any place and with any white space and comments around it",
 "why": "Users find their mistakes by these positions, and a mistake that is silently accepted filters mail in a way nobody wrote. Fixtures contain a few malformed scripts and rarely look at positions.",
 "files": ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/mod.rs", "src/compiler/grammar/mod.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/compiler/mod.rs"],
 "mech": [("Tokenizer::next, peek, expect_token", "src/compiler/lexer/tokenizer.rs"), ("parse_test", "src/compiler/grammar/test.rs"), ("Compiler::compile", "src/compiler/grammar/instruction.rs")],
 "state": [("line_num, line_start, token_line_num, token_line_pos", "where the tokenizer is", "src/compiler/lexer/tokenizer.rs"), ("next_token, next_error", "what was met by looking ahead", "src/compiler/lexer/tokenizer.rs"), ("last_block_type", "whether an else may follow", "src/compiler/grammar/instruction.rs")],
 "observe": ["CompileError: kind, line, column, token found and expected"],
 "rule": "A case generates a valid script as a list of tokens, damages it in one of fourteen ways, writes it down with random gaps and compares the error with the place of the damage, known from the token list. After arbitrary changes (deleted, doubled, moved, replaced tokens) accepted scripts must satisfy a generic grammar, errors must stand at a token, and errors must stay the same when what follows is replaced. Distinct by text.",
 "technique": "runtime monitoring: compile errors compared with the known place and kind of injected damage; accepted scripts checked by a generic grammar",
 "note": "Exploration. Contents of string lists (commas) are not checked; where ihave is required unknown commands and tests are accepted on purpose. Line one may count columns from zero.",
 "need": ["illegal character", "unterminated", "cut", "missing semicolon", "not a command", "missing opening brace", "missing comma", "doubled comma", "not a test", "unknown tag", "number for a string", "string for a number", "the first error is reported", "whole commands accepted", "met while looking ahead", "changed script accepted"]},
{"id": "P31", "title": "Header, part and body variables give what they name",
 "statement": "In strings and in expressions, header.NAMES[i].PART[j] gives that part (text, addresses and their name, local-part, domain, user and detail, date, id, raw value and name, existence, content type and its attributes, the items of Received) of the fields of those names in the part being processed: i counts fields (last by default, negative from the end, * for all), j their values; several values form an array in message order, a single one stands for itself, and what is not there gives nothing. header.* gives all fields that are not empty, and part.* and body.* the decoded, raw or converted text of the current part and of the first text or HTML body. Fields the script has added or deleted are seen accordingly.",
 "over": ["inputs", "programs"], "forall": "every message (single or multipart, folded and encoded fields, groups, repeated and empty fields), every combination of names, indices and parts, with or without earlier edits, in the message and within foreverypart",
 "why": "Stalwart's trusted scripts (spam filter) decide by these variables; every kind of part takes its own path through the index rules, and fixtures show a few dozen of the combinations.",
 "files": ["src/runtime/eval.rs", "src/compiler/lexer/string.rs", "src/compiler/mod.rs", "src/runtime/expression.rs"],
 "mech": [("eval_header, eval_part, eval_date and the parts of addresses and Received", "src/runtime/eval.rs"), ("parse_header_variable", "src/compiler/lexer/string.rs")],
 "observe": ["values in strings", "arguments of external functions"],
 "rule": "A case generates a message together with what its fields mean, edits some fields, and asks six references, half of them within strings and half in expressions, half within foreverypart; every value and its shape (string, number, array) is compared with what the generator knows. Distinct by reference, value and message.",
 "technique": "runtime monitoring: values of variables, seen by the host, compared with what the generator of the message knows",
 "note": "Exploration. Decoding and tokenising fields is mail-parser's work: unknown fields (X-…) stay undecoded and folded, dates are given as sent, and Received fields are folded only where mail-parser can read them. Addresses, dates and ids of fields added by the script are not claimed. Sub-values of addresses are spelled addr.addr.local, as implemented.",
 "need": ["text", "address", "date", "message id", "raw value", "raw name", "exists", "received", "content type", "all fields", "several values", "within a part", "nothing there", "part.text", "part.raw", "body.text", "body.html", "body.to_text", "body.to_html"]},
{"id": "P33", "title": "Settings have the documented defaults, and the last value set counts",
 "statement": "A new Runtime and Compiler have their defaults: 5000 instructions, 3 nested scripts (the first one included), 1 redirect, 3 outgoing messages, 10 Received fields, variables of 4096 and header values of 1024 bytes, 30 days for vacation and 7 for duplicate, subject \"Automated reply\" and prefix \"Auto: \", host localhost, Original-Subject and Original-From protected, all capabilities but while and expressions, no lists or notification methods; scripts of 1 MiB, strings of 4096 bytes, names of 32, 15 nested blocks and tests, 3 nested foreverypart, 30 match and 128 local variables, 6 includes. Every setting of a Compiler, Runtime or Context takes effect however it is made (set_ or with_, one by one or as a list, in any order), the last one counts (list-valued settings add up), and nothing else changes.",
 "over": ["inputs", "histories"], "forall": "every sequence of settings made on a Compiler, a Runtime and a Context, in both forms",
 "why": "Hosts rely on the defaults and configure everything else through some sixty setters; a setter that forgets a field or sets another one goes unnoticed by fixtures, which all use one fixed configuration.",
 "files": ["src/runtime/mod.rs", "src/runtime/context.rs", "src/compiler/mod.rs"],
 "mech": [("Runtime::new, set_*, with_*, without_*", "src/runtime/mod.rs"), ("Context::set_*, with_*, clear_envelope", "src/runtime/context.rs"), ("Compiler::new, set_*, with_*", "src/compiler/mod.rs")],
 "observe": ["events and errors of runs at the limits", "fields of vacation replies", "tests of lists, methods, metadata, environment, spam and virus status", "compile errors at the limits"],
 "rule": "A case makes up to fourteen settings in random order and form, keeps a record of what they should amount to, and runs probes that lie at or one beside the limits or show a value; half of the probes concern settings that were not made. Distinct by probe and settings.",
 "technique": "runtime monitoring: probe runs at the boundaries of a randomly made configuration compared with a record of the settings",
 "note": "Exploration. Only the first envelope recipients and single metadata values are looked at here; P17 has the rest.",
 "need": ["cpu limit", "nested includes", "redirects", "outgoing messages", "variable size", "header size", "vacation", "capability", "protected header", "environment", "metadata", "notification methods", "lists", "duplicate", "global variables", "spam and virus status", "compiler"]},
{"id": "P34", "title": "Contradictory or impossible arguments are refused, all others accepted",
 "statement": "In commands and tests that take tags, each tag (but the modifiers of set and extracttext) may be given once and, of tags that exclude each other (the match types; :all, :localpart, :domain, :user and :detail; :zone and :originalzone; :raw, :text and :content; :header and :uniqueid; :days and :seconds; :personal and :global; the parts of a MIME header; :bytimerelative and :bytimeabsolute), only one, else the script is refused as having a duplicated parameter; a tag without the one it depends on is refused as missing that (:mime for :anychild and for the parts of a MIME header, :fcc for :create, :specialuse, :mailboxid and :flags of vacation and notify). Constants that cannot be right are refused as such, anywhere in a list of them: names of header fields (other than in address tests), regular expressions after :regex (other than in spamtest and virustest), envelope parts, date parts, time zones, relational operators, indices out of range, modes of redirect, senders and URIs of notify, namespaces of variables, expressions (also those with unknown or wrongly called functions); so are values in places where only a constant will do, a global declaration of what is a local variable in an enclosing block, a loop label used twice in nested loops and a break that names no enclosing loop. The error names the kind and the line. All other combinations, in any order and in any letter case of the words, compile.",
 "over": ["inputs", "programs"], "forall": "every combination, order and position of the tags of a command or test, valid or spoiled in one of its arguments, at any place of any script",
 "why": "A silently dropped or misread argument files, forwards or discards mail in a way the user did not write; fixtures contain each tag in one or two orders and very few of the refusals.",
 "files": ["src/compiler/grammar/mod.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/actions", "src/compiler/grammar/tests", "src/compiler/grammar/expr", "src/compiler/lexer/string.rs"],
 "mech": [("validate_argument, validate_match", "src/compiler/grammar/mod.rs"), ("parse_test_header and the other test parsers", "src/compiler/grammar/tests"), ("parse_redirect, parse_vacation, parse_notify and the other command parsers", "src/compiler/grammar/actions"), ("register_variable, is_var_local", "src/compiler/grammar/actions/action_set.rs")],
 "state": [("param_mask", "the kinds of tags met in this statement", "src/compiler/grammar/instruction.rs")],
 "observe": ["CompileError: kind and line", "acceptance"],
 "rule": "A case writes statements of 36 forms with a random subset of their tags in random order from a table of tag groups, dependencies and kinds of arguments, two thirds of the time spoiled in one way, within a random script, and compares acceptance, or the kind and line of the error, with the table. All pairs of tags of every form are enumerated. Distinct by text.",
 "technique": "runtime monitoring: outcome of compilation compared with a table of the arguments of every command and test",
 "note": "Exploration. Required capabilities are P07's; here the compiler does not check them. The names of address fields and the keys of spamtest and virustest are not checked by the compiler.",
 "need": ["DuplicatedParameter", "MissingTag", "InvalidRegex", "InvalidHeaderName", "InvalidEnvelope", "InvalidNamespace", "InvalidExpression", "InvalidAddress", "InvalidURI", "UnexpectedToken", "ExpectedConstantString", "InvalidArguments", "VariableIsLocal", "LabelAlreadyDefined", "LabelUndefined", "accepted", "alone"]}
,{"id": "P35", "title": "A text means the same written down or held by a variable",
 "statement": "Where a command or a test takes a text and it need not be a constant, the text may be given wholly or in parts by references to variables holding it: a variable of the script, one set with :local in any block, a global one (set by the script, by an included script or by the host), an item of the environment, or a value captured by a match. The run is then the same as with the text written down: the same questions, actions, arguments, errors and messages, in every argument of every command and test and at any place of the script.",
 "over": ["inputs", "programs"], "forall": "every script and message, every choice of text arguments of every command and test, every way of cutting them and every kind of variable",
 "why": "Each argument carries its own code for variables (numbering of :local variables at the end of compilation, reading at run time, comparison with compiled patterns); fixtures use a variable in few of the hundred argument positions, nearly always a script variable.",
 "files": ["src/compiler/grammar/instruction.rs", "src/compiler/lexer/string.rs", "src/compiler/grammar/actions", "src/compiler/grammar/tests", "src/runtime/eval.rs", "src/runtime/actions", "src/runtime/tests"],
 "mech": [("MapLocalVars for every instruction", "src/compiler/grammar/instruction.rs"), ("eval_value, get_variable", "src/runtime/eval.rs"), ("tokenize_string", "src/compiler/lexer/string.rs")],
 "observe": ["events with all their arguments", "errors", "messages created"],
 "rule": "A case generates a script as tokens, replaces up to five string arguments wholly or partly by references to variables of one of seven kinds holding that text, and runs both scripts against the same message and the same answering host; everything the host sees has to be equal. Distinct by script and message.",
 "technique": "runtime monitoring: two runs of a script, texts written down against texts held by variables, compared event by event",
 "note": "Exploration. Numbers are only replaced as a whole and by variables that keep them numbers; texts containing references themselves are not replaced. Arguments that have to be constants (names of variables, relational operators and comparators, parts of dates…) are P34's.",
 "need": ["DeepLocal", "Env", "Global", "HostGlobal", "Include", "Local", "Match", "Script", "addflag 0", "addflag 1", "addheader 0", "addheader 1", "address 0", "address 1", "body 0", "body :content", "convert 0", "convert 1", "convert 2", "currentdate 1", "date 0", "date 2", "deleteheader 0", "deleteheader 1", "duplicate :handle", "duplicate :header", "duplicate :uniqueid", "enclose 0", "enclose :headers", "enclose :subject", "envelope 1", "environment 1", "ereject 0", "exists 0", "fileinto 0", "fileinto :flags", "fileinto :mailboxid", "fileinto :specialuse", "hasflag 0", "hasflag 1", "header 0", "header 1", "header :param", "keep :flags", "mailboxexists 0", "mailboxidexists 0", "messages compared", "metadata 0", "metadata 1", "metadata 2", "metadataexists 0", "metadataexists 1", "notify 0", "notify :fcc", "notify :flags", "notify :from", "notify :importance", "notify :mailboxid", "notify :message", "notify :options", "notify :specialuse", "notify_method_capability 0", "notify_method_capability 1", "notify_method_capability 2", "redirect 0", "redirect :bytimeabsolute", "reject 0", "removeflag 0", "removeflag 1", "replace 0", "replace :from", "replace :subject", "servermetadata 0", "servermetadata 1", "servermetadataexists 0", "set 1", "set :replace", "setflag 0", "setflag 1", "spamtest 0", "specialuse_exists 0", "specialuse_exists 1", "string 0", "string 1", "vacation 0", "vacation :addresses", "vacation :fcc", "vacation :flags", "vacation :from", "vacation :handle", "vacation :mailboxid", "vacation :specialuse", "vacation :subject", "valid_ext_list 0", "valid_notify_method 0", "virustest 0"]}
,{"id": "P36", "title": "Redirect and notify only use what can be an address or a URI",
 "statement": "Redirect sends to the address within the text it is given: what follows the last <, without angle brackets, quotation marks, and white space outside quotation marks; it does nothing if that has no or more than one @ outside quotation marks (or another bracketed part has more than one), nothing before the @, or no dot after it. With :list the name is passed on as it is. A constant sender of notify is refused unless it has one @ with a letter or digit before it and a dot after it, within angle brackets that match if there are any. A constant method of notify is refused unless it is a URI: one of the schemes xmpp, tel, http and https followed by something, or mailto with well-formed recipients (at least one, each with one @), parameters and percent encodings. valid_notify_method is true if all its URIs are well formed and their scheme, or they themselves, have been enabled by the host, and notify_method_capability likewise for the capability online, whose answer is maybe.",
 "over": ["inputs"], "forall": "every text given as an address, a sender or a URI, constant or computed, and every set of enabled methods",
 "why": "What is redirected or notified leaves the system: a half-parsed address sends private mail astray, and a refused good one loses it; fixtures show a handful of addresses and URIs.",
 "files": ["src/runtime/actions/action_redirect.rs", "src/runtime/actions/action_notify.rs", "src/runtime/tests/test_notify.rs", "src/compiler/grammar/actions/action_notify.rs"],
 "mech": [("sanitize_address", "src/runtime/actions/action_redirect.rs"), ("validate_from, validate_uri, parse_mailto", "src/runtime/actions/action_notify.rs"), ("TestValidNotifyMethod, TestNotifyMethodCapability", "src/runtime/tests/test_notify.rs")],
 "observe": ["SendMessage events", "tests as seen through external functions", "compile errors"],
 "rule": "A case generates addresses in their usual forms, damaged ones and random texts over the characters that matter, redirects to each, and compares the recipients with a reference by splitting (itself checked against what the generator knows); or URIs with known well-formedness against random sets of enabled methods; or senders. All texts of up to five, and those of six with an @ and a dot, over nine characters are enumerated as redirect addresses. Distinct by script.",
 "technique": "runtime monitoring: recipients, answers of tests and compile errors compared with a reference, exhaustively for short addresses",
 "note": "Exploration. What stands after a closing bracket belongs to the address, as implemented. The schemes but mailto are lower-case only. What notify's mailto messages contain is P25's.",
 "need": ["redirected", "not redirected", "address", "two at signs", "no dot in the domain", "nothing before the at sign", "no at sign", "method enabled", "method not enabled", "no URI", "constant method accepted", "constant method refused", "sender accepted", "sender refused", "brackets", "list"]}
,{"id": "P37", "title": "What is never run, and what adds nothing, changes nothing",
 "statement": "Commands that cannot be reached have no effect on a run, whatever they are: those in blocks of if, elsif and while whose test does not hold, in the else of an if whose test holds, and after stop, return or break; so have tests that anyof and allof need not look at, and empty blocks. A test written as not not T, anyof(T), allof(true, T), anyof(false, T, false) or not allof(not T, true) is the same test. With ihave this goes for commands and tests nobody knows too: not reached, they change nothing; reached, they end the script as the command error does. With any such change at any place, also within loops, the run has the same questions, actions, arguments, errors and messages (unless it runs out of instructions, or the added commands declare names for those that follow).",
 "over": ["inputs", "programs"], "forall": "every script and message, every choice of what is added or rewritten and of the places",
 "why": "The compiler numbers variables, places jumps and clears scopes across the whole script, so code that is never run moves everything around it; a wrong jump or a slot used twice shows only in combinations no fixture has.",
 "files": ["src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/actions", "src/runtime/eval.rs", "src/runtime/context.rs"],
 "mech": [("block stack, jump targets, clears of variables at the end of blocks", "src/compiler/grammar/instruction.rs"), ("parse_test: jumps of anyof and allof", "src/compiler/grammar/test.rs"), ("execution of jumps and clears", "src/runtime/context.rs")],
 "observe": ["events with all their arguments", "errors", "messages created"],
 "rule": "A case generates a script as tokens, adds unreachable random commands in one of eight ways and rewrites tests at random places, and runs both scripts against the same message and the same answering host; everything the host sees has to be equal. Distinct by script and message.",
 "technique": "runtime monitoring: two runs, of a script and of one with unreachable code and rewritten tests, compared event by event",
 "note": "Exploration. What is added declares no variables for the commands that follow and refers to no captured values, since a reference makes earlier tests capture.",
 "need": ["if false", "elsif false", "else of what is true", "elsif that does not hold", "while that does not hold", "test that is not needed", "empty block", "test", "after the end", "after stop", "messages compared", "commands and tests nobody knows", "reached", "unknown command or test reached"]}
,{"id": "P38", "title": "Errors say what and where, and values read the same in every form",
 "statement": "The text of every compile error names the line and column that line_num and line_pos return, and the character, number, name, token or capability its error type carries; errors of different kinds have different texts. Every runtime error has a text of its own with the message, capability or unknown command it is about; for an unknown command or test (with ihave) it names the line and column at which its name stands in the script, as InvalidInstruction does. A Variable has the same elements and texts as string, array or list of strings, borrowed or taken, is a number only if its text is one, and is seen by a script as it was given; equality and order are symmetric (a < b exactly if b > a, equal exactly if neither). Values made of Rust numbers, strings, pairs and booleans are what they stand for.",
 "over": ["inputs", "programs", "configurations"], "forall": "every malformed script and limits of the compiler, every script with an unknown command or test anywhere, all pairs of strings, numbers and arrays",
 "why": "Users correct scripts, and hosts log failures, by these texts and places, and hosts pass values back and forth through these conversions; the tests never look at a text or a place and compare values of one kind.",
 "files": ["src/compiler/mod.rs", "src/runtime/mod.rs", "src/runtime/expression.rs", "src/compiler/grammar/mod.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/runtime/tests/test_spamtest.rs"],
 "mech": [("Display for CompileError and RuntimeError", "src/compiler/mod.rs"), ("conversions of Variable, Script, Metadata, Input", "src/runtime/mod.rs"), ("PartialEq, PartialOrd, Ord and Display for Variable", "src/runtime/expression.rs"), ("Invalid: unknown commands and tests", "src/compiler/grammar/instruction.rs")],
 "observe": ["texts of errors", "line, column and name in InvalidInstruction", "results of all conversions and comparisons of values", "values passed to external functions"],
 "rule": "A case either breaks a random script (tokens, bytes or limits) and reads the text of the error, or puts an unknown command or test with random arguments at a random place of a random script, laid out at random, and compares the place the run reports with the place it was written to, or compares all forms of two random values, and what a script sees, with their elements. Directed cases compare the texts of all kinds of errors with each other. Distinct by script and by pair of values.",
 "technique": "runtime monitoring: texts, places and conversions observed on the real code are checked against the error, the layout of the script and the elements of the value",
 "note": "Exploration. Hash is not claimed to agree with equality (1 equals \"1\"), nor equality to be transitive across kinds; NaN is not compared; places of compile errors are P32's.",
 "need": ["compile error UnexpectedToken", "compile error UndeclaredCapability", "compile error InvalidCharacter", "unknown command", "unknown command in an included script", "value seen by a script", "array", "scalars", "runtime error", "kind of error by its own script"]}
]
