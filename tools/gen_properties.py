#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the JSON stays well-formed and easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Conditionals run exactly the selected branch and tests short-circuit",
  "For every script, an if/elsif/else chain executes the block of the first condition that is true (else the else block, else nothing) and continues after the chain, with allof/anyof/not having their boolean meaning at any nesting. Tests are evaluated left to right and only as far as needed, so a host-answered test raises its event exactly when its value is needed, and a host answer counts as the value of precisely that test. The sequence of events of a run is therefore the one the script text prescribes, for every combination of host answers.",
  ["programs", "inputs"], "every nesting of if/elsif/else, anyof, allof, not, stop and every assignment of host answers",
  "The svtest files run a few hand-written nestings with fixed host answers; jump targets are patched per nesting shape, so an error only shows in particular shapes and answer combinations.",
  ["src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/runtime/context.rs"],
  [("jump patching while compiling test lists and blocks", "src/compiler/grammar/test.rs, src/compiler/grammar/instruction.rs"),
   ("conditional jumps and re-entry after a host answer", "src/runtime/context.rs")],
  ["event stream returned by Context::run"])

p("C02", "Every message gets a disposition: implicit keep is cancelled only on purpose",
  "A run ends with the message kept exactly when an explicit keep was executed or nothing executed cancelled the implicit keep, where only discard, a fileinto or redirect without :copy, and reject cancel it (what a script that also rejects keeps explicitly is left open); the keep is reported once, as the last event, with the flags in force. Each executed fileinto, redirect or reject is reported exactly once, in execution order, with its own arguments. A run that ends in a runtime error still delivers the pending disposition afterwards, so a failing script never silently loses mail.",
  ["programs", "inputs", "fault_sequences"], "every sequence of disposition actions, with and without :copy, with conditions, header edits and runtime errors at any point",
  "Tests look at a handful of action sequences; losing or duplicating a delivery depends on the combination and order of actions, on edits in between and on where an error strikes.",
  ["src/runtime/context.rs", "src/runtime/actions/action_fileinto.rs", "src/runtime/actions/action_redirect.rs"],
  [("pending final event", "src/runtime/context.rs"), ("delivery of the pending event after an error", "src/runtime/context.rs: finish_loop")],
  ["event stream returned by Context::run"],
  [("final_event", "what happens to the message when the script ends", "src/lib.rs: Context")])

p("C03", "Message ids: every referenced message was announced, with the current content",
  "The original message has id 0 and each new message is announced exactly once with its full content, with ids 1, 2, 3, … in order, before any event that refers to it. Every keep, fileinto and redirect refers to a message whose content equals the message as edited at that point (for the final keep: at the end of the script), and no new message is announced when nothing changed since the last announcement.",
  ["programs"], "every interleaving of header edits, body edits, deliveries, notifications and vacation replies",
  "Tests check single edits followed by one delivery; stale or missing announcements need particular interleavings of edits and several deliveries.",
  ["src/runtime/context.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_fileinto.rs", "src/runtime/actions/action_redirect.rs", "src/runtime/actions/action_notify.rs", "src/runtime/actions/action_vacation.rs"],
  [("message id allocation and change tracking", "src/runtime/actions/action_mime.rs: build_message_id")],
  ["Event::CreatedMessage, message_id of Keep/FileInto/SendMessage"],
  [("main_message_id / last_message_id / has_changes", "which announced message is current", "src/lib.rs: Context")])

p("C04", "Every run terminates within the configured instruction budget",
  "For every script and every limit N, a run executes at most N instructions: it either finishes normally or reports the CPU limit error, after which the pending disposition is delivered. Raising the limit never changes anything but how far the run gets: the events before the limit strikes are a prefix of the events of the unlimited run.",
  ["programs", "configurations"], "every script, including unbounded loops and recursive inclusion, and every value of the limit",
  "One test checks one endless loop; the budget has to be charged on every path, in nested loops and across included scripts and host re-entry, for every limit value.",
  ["src/runtime/context.rs", "src/runtime/mod.rs"],
  [("instruction counter", "src/runtime/context.rs: run")],
  ["RuntimeError::CPULimitReached, event stream"],
  [("num_instructions", "instructions executed so far in this run", "src/lib.rs: Context")])

p("C05", "Included scripts run in place, with private locals and shared globals",
  "An included script runs at the point of inclusion and control resumes right after it, whether it ends normally or by return; stop ends everything. Local and match variables of the includer and the included script never affect each other and are unchanged on return, whereas global variables are shared; :once includes a given script at most once, and a script the host does not provide is passed over, the host being told with each question whether the script is :optional. Personal and global scripts of the same name are different scripts, and nesting beyond the configured depth is an error instead of unbounded recursion.",
  ["programs", "inputs", "configurations"], "every include graph up to the bound (including self and mutual inclusion), every position of return/stop and host answer",
  "Tests use a few fixed include trees; restoring caller state, once-tracking and depth limiting depend on the shape of the include graph.",
  ["src/runtime/actions/action_include.rs", "src/runtime/context.rs", "src/compiler/grammar/actions/action_include.rs"],
  [("script stack with saved locals and match variables", "src/runtime/context.rs"), ("script cache and nesting check", "src/runtime/actions/action_include.rs")],
  ["event stream, Event::IncludeScript"],
  [("script_stack / script_cache", "active includes and scripts already loaded", "src/lib.rs: Context")])

p("C06", "Loops visit what they should and leave no trace when left",
  "foreverypart visits every MIME part below the current part exactly once, in document order, and nested foreverypart visits only the parts below the current one; while repeats its block exactly as long as its condition holds. break leaves the innermost loop or the loop it names, continue starts the next round of the innermost while loop, return and stop leave all of them; after any exit the enclosing loop goes on with its own current part and its remaining parts.",
  ["programs", "inputs"], "every nesting of foreverypart and while with break, named break, continue, return and stop at any position, and every small MIME tree",
  "Tests contain straight loops over one or two messages; loop exits patch jump targets and iterator stacks whose errors only show for particular nestings.",
  ["src/compiler/grammar/instruction.rs", "src/runtime/context.rs", "src/runtime/tests/mime.rs"],
  [("loop compilation, break/continue patching", "src/compiler/grammar/instruction.rs"), ("part iterator stack", "src/runtime/context.rs")],
  ["event stream"], [("part / part_iter / part_iter_stack", "current part and the enclosing iterations", "src/lib.rs: Context")])

p("C07", "Variables hold what was last assigned, within their scope and size limit",
  "A variable reference expands to the value most recently assigned to that variable (names are case-insensitive, unknown names expand to nothing, malformed references stay as literal text), wherever a string is allowed and however blocks are nested. A variable first set within a block is local to it: invisible outside, empty at the start of every execution of the block, and never disturbing variables of other scopes. A stored value never exceeds the configured maximum size, and is cut only at a character boundary, to the longest prefix that fits.",
  ["programs", "inputs", "configurations"], "every sequence of assignments and references over a few names in nested blocks and in every string argument, and every size limit around the value length",
  "Variables are compiled to slots that are renumbered when blocks close; an error needs a particular combination of declaration order, nesting and the instruction that holds the reference.",
  ["src/compiler/grammar/instruction.rs", "src/compiler/lexer/string.rs", "src/runtime/eval.rs", "src/runtime/actions/action_set.rs"],
  [("slot allocation and renumbering", "src/compiler/grammar/instruction.rs: MapLocalVars, block stack"), ("size limiting on assignment", "src/runtime/actions/action_set.rs: set_variable")],
  ["event arguments that contain expanded strings"], [("vars_local / vars_global", "variable slots", "src/lib.rs: Context")])

p("C08", "Set modifiers transform values as defined and in precedence order",
  "Whatever order modifiers are written in, they are applied in order of precedence (those of the same precedence in either order): :lower/:upper and :replace first, then :lowerfirst/:upperfirst, then :quotewildcard/:quoteregex, then :encodeurl, then :length. Each one computes exactly its definition on every Unicode string: case mapping, first character only, escaping so that the result used as a pattern matches only the original text, percent encoding of everything but unreserved characters, and the number of characters; results are cut to the maximum variable size.",
  ["programs", "inputs"], "every subset and order of modifiers over all short strings of an alphabet with ASCII, wildcard, quote, control and multi-byte characters",
  "Tests give two or three literal examples per modifier; precedence and escaping have to hold for every combination and character.",
  ["src/runtime/actions/action_set.rs", "src/compiler/grammar/actions/action_set.rs"],
  [("modifier ordering", "src/compiler/grammar/actions/action_set.rs: Modifier::order"), ("modifier application", "src/runtime/actions/action_set.rs: Modifier::apply")],
  ["value of the variable in later events"])

p("C09", "Match variables reflect the last successful match only",
  "After a successful :matches or :regex test (other than body, which never sets them) ${0} is the whole value for :matches and the matched text for :regex and ${1}, ${2}, … are the texts matched by each wildcard or group, with each * matching as little as possible from left to right; variables without a corresponding wildcard are empty. A failing match, or any test of another kind, leaves all of them as they were, and for a list of keys or values it is the first matching one that counts.",
  ["programs", "inputs"], "every sequence of matching tests with patterns and subjects over a small alphabet, in nested blocks, followed by references",
  "Tests read the variables after single matches; stale or shifted captures need sequences of matches with different numbers of wildcards and nested scopes.",
  ["src/runtime/tests/glob.rs", "src/runtime/tests/comparator.rs", "src/runtime/tests/mod.rs", "src/runtime/variables.rs"],
  [("capture of wildcard texts", "src/runtime/tests/glob.rs: capture"), ("storing and clearing of match variables", "src/runtime/variables.rs")],
  ["event arguments containing ${0}..${n}"], [("vars_match", "match variable slots", "src/lib.rs: Context")])

p("C10", "String matching follows the match type and comparator exactly",
  "For every value and key, :is is equality, :contains is substring search and :matches is wildcard matching (* any text, ? one character, backslash quotes), compared byte for byte under i;octet and ignoring ASCII case under i;ascii-casemap (the default). A test with several values and several keys is true if and only if some value matches some key, independent of their order, and gives the same answer in every test that takes match types.",
  ["inputs", "programs"], "all keys, patterns and values up to a length over an alphabet with wildcards, escapes, upper/lower case and multi-byte characters, and all small lists of them",
  "Tests list examples; the matcher backtracks, and its errors need particular repetitions of wildcards and literals or particular positions of the matching key in a list.",
  ["src/runtime/tests/comparator.rs", "src/runtime/tests/glob.rs", "src/runtime/tests/test_string.rs", "src/runtime/tests/test_header.rs"],
  [("comparators", "src/runtime/tests/comparator.rs"), ("wildcard matcher", "src/runtime/tests/glob.rs")],
  ["truth value of string/header/address/environment tests"])

p("C11", "Relational and numeric comparison is a consistent order",
  "With :value each of gt, ge, lt, le, eq and ne holds exactly when the comparator's order puts a value in that relation to a key: i;ascii-numeric compares leading digits as unbounded non-negative numbers with non-numbers above all of them, the other comparators compare text. With :count the number of values is compared numerically, so for every pair exactly one of lt, eq and gt holds, ge/le/ne are their complements, and swapping value and key mirrors the relation.",
  ["inputs", "programs"], "all six relations with all comparators over all pairs of a set of numeric and non-numeric strings of every magnitude, and all small value lists",
  "Tests compare a few small numbers; trichotomy and symmetry have to hold for every pair, including empty, non-numeric, zero-padded and very large values.",
  ["src/runtime/tests/comparator.rs", "src/runtime/eval.rs"],
  [("relational comparison", "src/runtime/tests/comparator.rs: RelationalMatch")],
  ["truth value of tests using :value and :count"])

p("C12", "Expressions evaluate by the usual rules and never fail",
  "Every expression the compiler accepts evaluates to the value given by operator precedence, left associativity, parentheses and left-to-right evaluation with short-circuit && and ||, using integer arithmetic where both operands are integers (except for division) and floating point otherwise; && and || have the value of the operand that decides. External functions are called exactly when their value is needed, in order, with the evaluated arguments, and evaluation resumes with the host's answer; overflow, division by zero, missing elements and type mismatches give a value, never a crash.",
  ["programs", "inputs"], "every expression up to a number of operators over boundary constants, variables, arrays and functions, in let, while, if eval and with every host answer",
  "Tests evaluate a list of formulas; precedence, short-circuit jumps and re-entry after host calls depend on the shape of the whole expression.",
  ["src/runtime/expression.rs", "src/compiler/grammar/expr/parser.rs", "src/compiler/grammar/expr/tokenizer.rs"],
  [("operator precedence parser", "src/compiler/grammar/expr/parser.rs"), ("stack evaluator with resume position", "src/runtime/expression.rs")],
  ["variables observed through events, Event::Function arguments"], [("expr_stack / expr_pos", "suspended evaluation", "src/lib.rs: Context")])

p("C13", "Header edits behave as list edits on the header, everything else stays verbatim",
  "addheader inserts the field before all others (or after all others with :last) and deleteheader removes exactly the fields of that name selected by :index, :last and the value match, while protected fields are never removed or added. Later tests see the edited header at once, and a message produced afterwards contains precisely the resulting fields in order, with untouched fields and the body byte for byte as received. The size test always agrees with the length of the message that would be produced.",
  ["programs", "inputs"], "every sequence of header edits up to the bound over messages with repeated, folded and protected fields, each followed by every observation",
  "Tests apply one or two edits to one message; positions and offsets are maintained incrementally, so errors need sequences of edits around the same fields.",
  ["src/runtime/actions/action_editheader.rs", "src/runtime/actions/action_mime.rs", "src/runtime/tests/test_header.rs", "src/runtime/tests/test_size.rs"],
  [("header list manipulation", "src/runtime/actions/action_editheader.rs"), ("message reconstruction from offsets", "src/runtime/actions/action_mime.rs: build_message")],
  ["Event::CreatedMessage, header/exists/size tests"], [("message_size / has_changes", "incrementally maintained size and dirty flag", "src/lib.rs: Context")])

p("C14", "Body edits change only the part they address",
  "replace puts the given content in place of the current part (or the whole message), enclose wraps the whole message in a new one that contains it verbatim as an attachment and ends the loops it is in, and convert replaces the parts of the given media type that it can convert; all other parts keep their content and order in every later test and in the produced message, which stays a well-formed MIME message. No combination or nesting of these actions with loops and header edits crashes or corrupts the message.",
  ["programs", "inputs"], "every sequence of body edits up to the bound at every part of every small MIME tree, combined with header edits, deliveries and tests",
  "Tests edit one fixed message per feature; part indices and offsets go stale only after particular sequences of structural edits.",
  ["src/runtime/actions/action_mime.rs", "src/runtime/actions/action_convert.rs", "src/runtime/tests/mime.rs"],
  [("part replacement and enclosing", "src/runtime/actions/action_mime.rs"), ("conversion", "src/runtime/actions/action_convert.rs")],
  ["Event::CreatedMessage re-parsed, extracttext/header tests on parts"])

p("C15", "IMAP flags behave as case-insensitive sets",
  "setflag, addflag and removeflag treat the flag variable as a set of flags in which case is ignored and no flag occurs twice, whether flags are given as one space-separated string, as a list or by variable. hasflag is true exactly for flags in that set, and keep and fileinto deliver exactly the flags in the internal variable unless they carry their own :flags, which then replaces it for that action only.",
  ["programs"], "every sequence of flag actions up to the bound over a small set of flags in all spellings, on the internal variable and named variables, followed by every delivery",
  "Tests cover a few sequences; set semantics has to survive every mix of spellings, list forms and repeated operations.",
  ["src/runtime/actions/action_flags.rs", "src/runtime/tests/test_hasflag.rs", "src/compiler/grammar/actions/action_flags.rs"],
  [("flag set editing", "src/runtime/actions/action_flags.rs"), ("flag queries", "src/runtime/tests/test_hasflag.rs")],
  ["flags of Event::Keep and Event::FileInto, hasflag"])

p("C16", "Redirects cannot loop or exceed the configured limits",
  "A script sends at most the configured number of redirects and of outgoing messages, and sends none for a message that has already passed through too many hops; a redirect to an invalid address or to the user's own address is not sent. Each redirect that is sent names exactly the sanitised recipient and delivery options given in the script, and a redirect that is not sent does not cancel the implicit keep, so the message is not lost.",
  ["programs", "inputs", "configurations"], "every sequence of redirects up to the bound over valid, invalid, own and injected addresses with all options, every limit value and number of Received fields",
  "Tests redirect once with default limits; the limits are counters shared with other actions and must hold for every sequence and configuration.",
  ["src/runtime/actions/action_redirect.rs", "src/runtime/mod.rs"],
  [("redirect limits and loop check", "src/runtime/actions/action_redirect.rs"), ("address sanitising", "src/runtime/tests/test_envelope.rs, src/runtime/actions/action_vacation.rs")],
  ["Event::SendMessage, Event::Keep"], [("num_redirects / num_out_messages", "messages sent so far", "src/lib.rs: Context")])

p("C17", "Vacation replies go only where they may, once, and well-formed",
  "A vacation reply is sent only if the sender is a real other person (not empty, not a system or list address, not the user), the message is neither automatic nor list or bulk mail, the user is an explicit recipient, and the host reports that no reply was sent recently; otherwise nothing is sent and the message is still kept. The reply goes to the sender only, carries the prescribed subject, In-Reply-To, References and automatic-reply marker, and the duplicate question to the host depends exactly on the handle or the reason text, the sender, and the given period.",
  ["inputs", "programs", "configurations"], "every combination of sender, recipient and automatic-mail header conditions and of vacation arguments, and both host answers",
  "Tests vary one condition at a time; mail loops follow from any single missed combination.",
  ["src/runtime/actions/action_vacation.rs", "src/compiler/grammar/actions/action_vacation.rs"],
  [("reply suppression", "src/runtime/actions/action_vacation.rs: TestVacation"), ("reply construction", "src/runtime/actions/action_vacation.rs: Vacation")],
  ["Event::DuplicateId, Event::CreatedMessage, Event::SendMessage"])

p("C18", "Notifications honour their method, limits and loop protection",
  "A notification with a mailto method produces one automatically-marked message to exactly the recipients of the URI, carrying only the fields the URI and the arguments ask for, and any other valid method produces one notification event with exactly the given arguments. No notification by any method is generated for automatically submitted messages, none exceeds the configured number of outgoing messages, and an invalid method or address produces no message instead of a malformed one.",
  ["programs", "inputs", "configurations"], "all method URIs up to a length over a small alphabet of URI fragments, all argument combinations, sequences of notifications and limit values",
  "Tests give a few valid URIs; decoding, recipient splitting and counting have to hold for every URI and sequence.",
  ["src/runtime/actions/action_notify.rs", "src/compiler/grammar/actions/action_notify.rs"],
  [("URI parsing", "src/runtime/actions/action_notify.rs: parse_mailto, validate_uri"), ("notification message building", "src/runtime/actions/action_notify.rs")],
  ["Event::Notify, Event::SendMessage, Event::CreatedMessage"])

p("C19", "Extensions work only when required and allowed",
  "Using any command, test or argument of an extension without a matching require that is valid where it stands (for the rest of its block) is a compile error (unless capability checking is disabled) and never changes behaviour silently, and requiring an extension the runtime does not allow makes the run fail before the next action instead of executing it. ihave is true exactly for allowed extensions, code it guards may use them, and unknown commands or tests take effect as an error only when they are actually reached.",
  ["programs", "configurations"], "every pair of feature use and set of required extensions, every set of allowed extensions, and every position of require/ihave in the script",
  "Tests compile a few invalid scripts; the rule has to hold for every feature and every combination.",
  ["src/compiler/grammar/mod.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/tests/test_ihave.rs", "src/runtime/context.rs", "src/runtime/mod.rs"],
  [("capability check while compiling", "src/compiler/grammar/instruction.rs, src/compiler/grammar/mod.rs"), ("allowed capabilities check", "src/runtime/context.rs: Require")],
  ["Compiler::compile result, RuntimeError, ihave"])

p("C20", "No script and no message can crash the library",
  "Compiling any byte string returns a script or an error with a position inside the text (where the token it names stands), never panics, loops or overflows, and respects the configured limits on size, nesting and variables. Running any compiled script on any message bytes with any host answers of the expected kind ends without panicking, whatever the limits are.",
  ["programs", "inputs", "configurations"], "all token sequences up to a length over the full vocabulary, all byte strings up to a length, all truncations and one-byte changes of real scripts, and every action on every malformed message of a catalogue",
  "Tests use well-formed scripts and messages plus some known errors; safety is about all others.",
  ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/string.rs", "src/compiler/grammar/mod.rs", "src/compiler/grammar/instruction.rs", "src/runtime/context.rs", "src/runtime/actions/action_mime.rs"],
  [("tokenizer and parser with limits", "src/compiler"), ("bounds-checked interpreter", "src/runtime")],
  ["return value or panic of compile, filter and run"])

p("C21", "A stored compiled script behaves like the freshly compiled one",
  "Serialising a compiled script and loading it back yields a script equal to the original, and running it gives the same events, host questions and results on every message and for all host answers. This holds for all instructions and arguments, including patterns that are prepared at compile time, and loading arbitrary damaged data fails with an error instead of crashing.",
  ["programs", "inputs"], "one script per instruction, argument form and match type plus all scripts of the other checks' small models, on a set of messages and all host answers",
  "The test suite always runs freshly compiled scripts; a field that is dropped or reset in storage shows only when a stored script is used.",
  ["src/compiler/mod.rs", "src/compiler/grammar/instruction.rs", "src/compiler/grammar/mod.rs", "src/lib.rs"],
  [("serialised form of compiled scripts", "src/lib.rs: Sieve"), ("lazily recompiled patterns", "src/compiler/mod.rs: Regex")],
  ["event stream of the reloaded script"])

p("C22", "Runs are deterministic and independent of each other",
  "The events of a run depend only on the script, the message, the configuration and the host's answers: two runs with the same inputs give the same events. Runs that share one runtime and compiled scripts do not influence one another, in whatever order or on whatever threads their steps are interleaved, and a compiler or runtime can be reused any number of times with the same results.",
  ["schedules", "histories", "programs"], "all interleavings of the steps of two or three runs with different messages and scripts sharing a runtime, and all short histories of reuse",
  "The test suite runs one script at a time; shared caches can leak between runs only under interleaving or reuse.",
  ["src/runtime/context.rs", "src/runtime/mod.rs", "src/compiler/mod.rs"],
  [("per-run context, shared immutable runtime", "src/runtime/context.rs, src/runtime/mod.rs"), ("shared lazily compiled patterns", "src/compiler/mod.rs: Regex")],
  ["event streams of interleaved contexts"])

p("C23", "Envelope data is parsed strictly and tested as given",
  "An envelope sender or recipient is accepted only as an address (with or without angle brackets, source route or quoting) or the null sender, and anything else is ignored rather than misread. The envelope test and envelope variables see exactly the accepted values, by part (:all, :localpart, :domain, :user, :detail) and for each envelope field, with the null sender matching only the empty string; assigning to an envelope variable asks the host for exactly that change and is visible afterwards.",
  ["inputs", "programs"], "all address strings up to a length over an alphabet of address characters, all envelope fields, parts and match types, and sequences of assignments",
  "Tests use a few well-formed addresses.",
  ["src/runtime/tests/test_envelope.rs", "src/runtime/context.rs", "src/runtime/actions/action_set.rs"],
  [("envelope address parser", "src/runtime/tests/test_envelope.rs: parse_envelope_address"), ("envelope lookup", "src/runtime/tests/test_envelope.rs")],
  ["envelope test, Event::SetEnvelope"])

p("C24", "Date tests report the right calendar fields in the right zone",
  "For every date header value and every zone offset, date reports year, month, day, date, julian day, hour, minute, second, time, iso8601, std11, zone and weekday of that instant as the proleptic Gregorian calendar gives them in the requested zone (the header's own with :originalzone, UTC when none is given), and headers without a valid date never match. currentdate does the same for the current time.",
  ["inputs", "programs"], "every day around month, year, leap and epoch boundaries, times around midnight, all zone offsets in steps, all date parts",
  "Tests check a handful of dates; calendar and zone arithmetic has boundary cases on every day change.",
  ["src/runtime/tests/test_date.rs", "src/compiler/grammar/tests/test_date.rs"],
  [("date part formatting", "src/runtime/tests/test_date.rs"), ("zone parsing", "src/compiler/grammar/tests/test_date.rs")],
  ["date and currentdate tests"])

p("C25", "Header, address, exists, size and body tests see the message as it is",
  "header, address, exists and body examine exactly the fields and parts the test selects: every occurrence of each named field (names ignore case), restricted by :index and :last, to the current part or, with :mime and :anychild, to its descendants, and for addresses to the requested part (:all, :localpart, :domain, :user, :detail) of every address in the field. exists is true only if every named field is present, and size :over and :under are strict comparisons with the message length.",
  ["inputs", "programs"], "every small message over a set of fields and MIME trees crossed with every selection of fields, index, part and match",
  "Tests query a few fixed messages.",
  ["src/runtime/tests/test_header.rs", "src/runtime/tests/test_address.rs", "src/runtime/tests/test_exists.rs", "src/runtime/tests/test_size.rs", "src/runtime/tests/test_body.rs", "src/runtime/tests/mime.rs"],
  [("header selection", "src/runtime/tests/mime.rs, src/runtime/tests/test_header.rs"), ("address parts", "src/runtime/tests/test_address.rs")],
  ["truth value of the tests"])

p("C26", "Tests about the host's world ask precisely and use the answer faithfully",
  "mailboxexists, mailboxidexists, specialuse_exists, duplicate and :list tests ask the host exactly once with exactly the given arguments and take the value of its answer, also under not; values asked about are distinct and not empty, and a test without any asks nothing and is false. metadata, servermetadata, environment, spamtest, virustest, valid_notify_method, notify_method_capability, valid_ext_list and their existence variants are true exactly when the configured data say so, with scores mapped monotonically to the documented scale.",
  ["programs", "inputs", "configurations"], "every such test with every small argument list, negated or not, both host answers, and every configured value",
  "Tests check one or two configurations of each.",
  ["src/runtime/tests/test_duplicate.rs", "src/runtime/tests/test_metadata.rs", "src/runtime/tests/test_spamtest.rs", "src/runtime/tests/test_notify.rs", "src/runtime/tests/test_extlists.rs", "src/runtime/tests/mod.rs"],
  [("host query events", "src/runtime/tests/mod.rs"), ("score mapping", "src/runtime/tests/test_spamtest.rs")],
  ["host query events, truth value of the tests"])

p("C27", "Script text means what it says, however it is written",
  "The strings, numbers, tags and identifiers a script denotes do not depend on white space, line ends, comments, letter case of keywords or the choice between a quoted string and a multi-line literal. Quoted strings honour backslash escapes, multi-line literals remove exactly one leading dot per dot-stuffed line, encoded characters denote the given bytes or code points, number suffixes multiply by their powers of 1024, and all other text is taken literally.",
  ["inputs", "programs"], "all string bodies up to a length over an alphabet of quotes, backslashes, dots, line ends, braces, digits and dollar signs, in every spelling, and all placements of white space and comments",
  "Tests contain a few literals; the tokenizer is a byte-level state machine whose errors need particular byte sequences.",
  ["src/compiler/lexer/tokenizer.rs", "src/compiler/lexer/string.rs", "src/compiler/lexer/word.rs"],
  [("tokenizer state machine", "src/compiler/lexer/tokenizer.rs"), ("encoded characters and interpolation", "src/compiler/lexer/string.rs")],
  ["arguments of events"])

p("C28", "No text can smuggle header fields or recipients into produced mail",
  "Whatever text a script computes, a message supplies or the user's name contains, every message the library produces (edited messages, vacation replies, notifications, enclosures) has exactly the header fields the action defines, with each value confined to its own field, and exactly the recipients the action names. Line breaks and control characters in variables, subjects, addresses, URI parameters or original fields never create additional fields, end the header early, or add recipients.",
  ["inputs", "programs"], "every message-producing action and argument position crossed with all texts up to a length over an alphabet containing CR, LF, NUL, colon, comma, angle brackets and folding white space",
  "Tests use harmless texts only.",
  ["src/runtime/actions/action_vacation.rs", "src/runtime/actions/action_notify.rs", "src/runtime/actions/action_editheader.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_redirect.rs"],
  [("header value sanitising", "src/runtime/actions"), ("address sanitising", "src/runtime/actions/action_notify.rs, src/runtime/actions/action_redirect.rs")],
  ["Event::CreatedMessage re-parsed, recipients of Event::SendMessage"])

p("C29", "Header, body and part variables read the message as it is",
  "${header.NAMES[i].PART[j]} (and the same name in an expression) selects the fields of the current part with any of the names (* for all, letter case ignored), the i-th from the front or, if negative, from the end (the last one when i is left out, all with *), and gives the named part: the text, the raw value or the name as written, name, address, local part, domain, user and detail of the j-th address, identifiers, media type, subtype and attributes, dates as a number, the parts of a Received field, or that it exists. It gives one value, or a list when an index is *, and empty text when nothing is selected; body.text, body.html, body.to_text, body.to_html, part.text and part.raw give the decoded bodies and the current part, and after edits all of them read the message as it has become.",
  ["inputs", "programs"], "every message of up to four fields out of a catalogue crossed with every form of variable, all small part trees, and all sequences of edits up to a length",
  "Tests read one message; selection by index, list and part has boundary cases for every number of fields and addresses, and edits change what is stored.",
  ["src/compiler/lexer/string.rs", "src/runtime/eval.rs", "src/runtime/actions/action_mime.rs", "src/runtime/actions/action_editheader.rs"],
  [("header variable parser", "src/compiler/lexer/string.rs: parse_header_variable"), ("evaluation", "src/runtime/eval.rs: eval_header")],
  ["value of the variable as text and in expressions"])

p("C30", "Malformed scripts are refused, well-formed ones accepted",
  "A script compiles exactly if it follows the grammar of RFC 5228 (commands, tests, blocks and the order of if, elsif and else, string lists, statement ends) with break and continue inside of loops only, and every command and test is given its required arguments of the right kind, in the right number, and no tagged argument that it does not have, twice, together with one that excludes it, or without its value. Tagged arguments may come in any order and mean the same in every order.",
  ["programs"], "all token sequences up to a length, all single edits of all well-formed scripts up to a greater length, and all argument lists with at most one mistake for every command and test",
  "Tests contain a list of malformed scripts; what a hand-written parser accepts too much shows up only on sequences nobody thought of.",
  ["src/compiler/grammar/instruction.rs", "src/compiler/grammar/test.rs", "src/compiler/grammar/mod.rs", "src/compiler/grammar/actions", "src/compiler/lexer/tokenizer.rs"],
  [("command loop", "src/compiler/grammar/instruction.rs: compile"), ("test parser", "src/compiler/grammar/test.rs: parse_test"), ("argument checks", "src/compiler/grammar/mod.rs: validate_argument")],
  ["result of Compiler::compile, events of runs with the arguments in another order"])

p("C31", "Every setting takes effect, however and in whatever order it is made",
  "A setting of the compiler, the runtime or the context of a run governs exactly what it is documented to govern and nothing else, whether it is made in place (set_x) or by value (with_x, without_x), one at a time or as a list, and before or after any other setting: the last value of a setting counts, additions accumulate, lists replace, and what the context is given comes before what the runtime has. A message handed over parsed acts as the same message handed over as text.",
  ["histories", "programs"], "all sequences of settings up to a depth, over every way to make every setting, each observed by probe scripts for all of them",
  "Tests use a few settings once; whether one setting undoes or leaks into another shows only in combinations.",
  ["src/runtime/mod.rs", "src/runtime/context.rs", "src/compiler/mod.rs"],
  [("runtime settings", "src/runtime/mod.rs: impl Runtime"), ("context settings", "src/runtime/context.rs: set_envelope and following"), ("compiler limits", "src/compiler/mod.rs: impl Compiler")],
  ["accept or reject of probe scripts, events of probe runs"])

p("C32", "At every event the host reads the true state of the script, and values cross the border unchanged",
  "At every event and after the run the host reads each global variable with the value last assigned to it (its own value where the script assigned none) and no local ones, the part the script is at (the one visited inside foreverypart, the root outside) and, with has_message_changed, whether a changed message has been announced. A function of the library or the host is called once per evaluation with exactly the values of its arguments, of the same types and in order, and what it returns is exactly the value of the call. The conversions of a value to text, numbers and lists and back follow its type and agree with each other.",
  ["programs", "inputs"], "all programs up to a size with a host looking at every event, all lists of values of all types as arguments and results, all texts and edge numbers through every conversion",
  "Tests look at the results of whole runs; what a host reads in the middle of loops, edits and calls is not looked at.",
  ["src/runtime/context.rs", "src/runtime/mod.rs", "src/runtime/expression.rs", "src/runtime/actions/action_set.rs"],
  [("accessors", "src/runtime/context.rs: global_variable, part, has_message_changed"), ("values", "src/runtime/mod.rs: impl Variable"), ("calls", "src/runtime/expression.rs: eval_expression")],
  ["Context accessors at every event", "arguments and results of function calls", "results of Variable::to_*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
