#!/usr/bin/env python3
"""Single source of properties.jsonl (run from anywhere; rewrites /verif/properties.jsonl)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
S="email-parser/src/"
p("C01","Every byte string is parsed or rejected, never a crash",
 "For every byte sequence and in every supported feature set, parsing a message, decoding every entity found inside it (recursively) and calling the exported base64/quoted-printable decoders return a value or an error. They never panic, abort, overflow the stack (however deeply the input nests), or touch memory outside the input. The memory they use stays proportional to the length of the input.",
 ["inputs","configurations"],"all byte strings (arbitrary bytes, mutated mails, deeply nested constructs, every charset/encoding combination), all feature sets",
 "The unit tests feed a few dozen well-formed strings; unsafe indexing, recursion depth and third-party charset decoders only fail on inputs nobody wrote down.",
 [S+"parsing/combinators.rs",S+"parsing/whitespaces.rs",S+"parsing/mime/entity.rs",S+"parsing/mime/base64.rs",S+"parsing/mime/encoded_headers.rs"],
 [("unchecked slicing guarded by explicit length tests","parsing/combinators.rs, parsing/message.rs, parsing/mime/multipart.rs"),("comment nesting","parsing/whitespaces.rs"),("charset decoding","parsing/mime/*")],
 ["Email::parse","parse_message","RawEntity::parse","decode_base64","decode_qp"])
p("C02","Results are valid text and depend only on the message bytes",
 "Every string returned by the parser is valid UTF-8 (and pure ASCII in the feature sets without MIME). The result is a function of the message bytes alone: it does not depend on where the buffer lies in memory, on the bytes around it, or on what was parsed before. A value the parser hands out as a borrowed reference lies entirely inside the caller's buffer, except for fixed default values.",
 ["inputs","histories","configurations"],"all byte strings, all buffer placements and surrounding bytes, all sequences of earlier parses",
 "Tests compare values of one call on one static buffer; they cannot see an over-read, a wrongly fused pair of references or a non-UTF-8 str created through unchecked conversion.",
 [S+"string.rs",S+"parsing/combinators.rs",S+"parsing/character_sets.rs",S+"parsing/message.rs"],
 [("character classes restrict unchecked UTF-8 conversion to ASCII","parsing/character_sets.rs"),("adjacent-reference fusion","string.rs")],
 ["Email::parse","parse_message"])
p("C03","Every header line is reported exactly once, in order",
 "When a message is accepted, every header field of the header section appears exactly once in the result, in message order (a leading trace block of Return-Path, Received and Resent-* fields is grouped into one item), with nothing dropped, merged, duplicated or invented; the header section ends exactly at the first empty line. A message whose header section contains a line that is not a header field (no name, no colon, characters outside printable US-ASCII, a bare CR or LF) is rejected.",
 ["inputs"],"all sequences of well-formed, folded, unknown and malformed header lines",
 "Tests parse one or two headers at a time; loss or duplication depends on combinations, positions and malformed neighbours.",
 [S+"parsing/fields.rs",S+"parsing/message.rs",S+"parsing/common.rs"],
 [("ordered choice over field parsers with a generic fallback","parsing/fields.rs fields/unknown"),("blank line test","parsing/message.rs parse_message")],
 ["parse_message"])
p("C04","The body is exactly the bytes after the blank line",
 "The body of an accepted message is byte-for-byte what follows the first empty line: absent when there is no empty line, empty when nothing follows it. Without MIME support a body is accepted if and only if it consists of US-ASCII characters other than NUL in CRLF-separated lines of at most 998 characters with no bare CR or LF; with MIME support a body in an identity transfer encoding is returned unchanged whatever bytes it holds.",
 ["inputs","configurations"],"all bodies (lengths around the 998 limit, all byte values, CR/LF placements), with and without MIME",
 "The test checks one two-line body; the limits and byte classes need every length and byte value.",
 [S+"parsing/message.rs",S+"email.rs"],
 [("line scanner with 998 limit","parsing/message.rs check_line/body"),("body split","parsing/message.rs parse_message")],
 ["Email::parse","parse_message"])
p("C05","Required, unique and repeatable headers are enforced",
 "A parsed email always has exactly one From and one Date. A second occurrence of any header that may occur only once (From, Sender, Subject, Date, To, Cc, Bcc, Message-ID, In-Reply-To, References, Reply-To, MIME-Version, Content-Type, Content-Transfer-Encoding, Content-ID, Content-Description, Content-Disposition) makes the whole parse fail with an error naming that header, and a missing From, Date, or Sender where several authors are listed, fails naming the missing one. Comments, Keywords, trace blocks and unknown fields may repeat and are all kept in order.",
 ["inputs"],"all multisets and orders of headers",
 "One test covers two duplicated and two missing headers out of seventeen; interactions with order and with other headers are untested.",
 [S+"email.rs"],[("per-header slot with duplicate check","email.rs Email::parse"),("sender inference","email.rs Email::parse")],
 ["Email::parse"])
p("C06","Header names ignore case and header order does not matter",
 "Changing the letter case of any header field name, or permuting header fields of different names (outside a leading trace block), leaves every parsed value unchanged. A field whose name merely resembles a known one (longer, shorter, one character different) is never taken for it and, if it is a name at all, is reported as an unknown field with its exact name.",
 ["inputs"],"all case variants, permutations and near-miss names of all known headers",
 "Tests use two or three case variants of single headers.",
 [S+"parsing/fields.rs",S+"parsing/combinators.rs",S+"parsing/mime/mime_fields.rs"],[("case-insensitive tag","parsing/combinators.rs tag_no_case")],
 ["Email::parse","parse_message"])
p("C07","Address headers yield exactly the mailboxes and groups written",
 "For From, Sender, Reply-To, To, Cc and Bcc, every list of mailboxes (bare or with display name and angle brackets) and groups permitted by the non-obsolete RFC 5322 grammar is returned with the same number, order, nesting, display-name words, local parts and domains as written; Bcc may be empty. A value outside that grammar is not reported as an address header.",
 ["inputs"],"all address lists over the grammar: names, quoted strings, domain literals, groups, empty groups, long lists; and near-grammatical mutations",
 "Tests check a handful of simple lists, mostly by length only.",
 [S+"parsing/address.rs",S+"parsing/common.rs",S+"parsing/fields.rs"],[("recursive descent over mailbox/group","parsing/address.rs"),("list loop","parsing/address.rs mailbox_list/address_list")],
 ["Email::parse","parse_message"])
p("C08","Comments and folding never change structured values",
 "In structured header fields (addresses, message identifiers, keywords, dates, trace and MIME fields), inserting comments (nested, with escapes) or folding white space at any place where the grammar allows them (in MIME fields: at both ends, around semicolons and around the dot of MIME-Version), including at the end of the field, or removing them, never changes the parsed value nor whether the field is recognised.",
 ["inputs"],"all placements, nestings and contents of comments and folding white space in all structured headers",
 "Tests insert at most one comment in one place; the placements multiply with every header type.",
 [S+"parsing/whitespaces.rs",S+"parsing/address.rs",S+"parsing/common.rs",S+"parsing/time.rs",S+"parsing/mime/mime_fields.rs"],[("CFWS skipping","parsing/whitespaces.rs cfws/comment/fws")],
 ["parse_message","Email::parse"])
p("C09","Quoted strings yield exactly their unescaped content",
 "A quoted string used as a local part, display-name or keyword word, or MIME parameter value yields exactly the characters between the quotes with each backslash escape replaced by the escaped character and line folds unfolded (white space kept, line break removed); quoting a value that could be written bare yields the same value as writing it bare. An unterminated quoted string, or one containing a character that must be escaped or is not printable US-ASCII or white space, is not accepted.",
 ["inputs"],"all quoted strings: every character, escape, fold and mixture, any length including empty",
 "Tests contain three quoted strings with one escape each.",
 [S+"parsing/quoted_string.rs",S+"string.rs"],[("quoted-string loop","parsing/quoted_string.rs quoted_string"),("string concatenation","string.rs")],
 ["parse_message"])
p("C10","Message identifiers are split exactly and kept in order",
 "Message-ID and Content-ID return exactly the text left and right of the @ of their single identifier, and In-Reply-To and References return all identifiers, in order, with none lost or merged. Identifiers outside the RFC 5322 non-obsolete syntax (dot-atom left side, dot-atom or bracketed-literal right side, angle brackets) make the field unrecognised.",
 ["inputs"],"all identifier lists over the grammar and near-grammatical mutations",
 "Tests check list lengths of two literals.",
 [S+"parsing/address.rs",S+"parsing/fields.rs",S+"parsing/mime/mime_fields.rs"],[("msg-id parser","parsing/address.rs message_id"),("identifier list","parsing/fields.rs in_reply_to/references")],
 ["Email::parse","parse_message"])
p("C11","Dates are accepted exactly when in range and read exactly",
 "A date-time (in Date, Resent-Date, Received and disposition dates) is returned with exactly the weekday, day, month, year, hour, minute, second, zone sign and zone offset written, seconds defaulting to 0. It is accepted when its fields are in range and rejected when one is not: day 1-31, month and weekday names of three letters in any case, a year of at least four digits from 1900 on, hour 0-23, minute 0-59, second 0-60, a signed four-digit zone with minutes 0-59.",
 ["inputs"],"all combinations of field values in and around the ranges, letter case, optional parts and folding",
 "Tests sample about fifteen values and test almost no rejection.",
 [S+"parsing/time.rs",S+"parsing/character_sets.rs"],[("field range checks","parsing/time.rs"),("digit parsing","parsing/character_sets.rs")],
 ["parse_message","Email::parse"])
p("C12","Free text headers keep every character except the fold",
 "For text without encoded words, Subject, Comments, unknown headers and (with MIME) Content-Description return the field text exactly, with each folding line break removed (the white space after it kept) and trailing white space dropped; the text may be empty and of any length.",
 ["inputs","configurations"],"all texts of printable characters, spaces, tabs and folds, any length, in feature sets with and without MIME",
 "Tests contain four folded strings.",
 [S+"parsing/common.rs",S+"parsing/fields.rs",S+"string.rs"],[("unstructured collectors","parsing/common.rs unstructured/mime_unstructured"),("reference fusion","string.rs add_string/add_str")],
 ["Email::parse","parse_message"])
p("C13","Trace blocks are grouped and ordered as received",
 "Each trace block at the top of a message (optional Return-Path, one or more Received, then Resent-* fields) is returned as one item holding the return path (none, empty, or address), every Received line with its words, addresses and domains in order and its date, and every resent field in order; consecutive blocks stay separate and in order. A trace field that is malformed or outside the leading blocks is kept as an unknown field and does not disturb others.",
 ["inputs"],"all sequences of trace blocks, token lists and resent fields, with malformed members",
 "Tests parse isolated trace lines and never a trace block inside a message.",
 [S+"parsing/fields.rs",S+"email.rs"],[("trace loop","parsing/fields.rs fields/trace/received/return_path")],
 ["Email::parse","parse_message"])
p("C14","Encoded words decode to their text, everything else stays verbatim",
 "In Subject, Comments, Content-Description, unknown headers (when enabled) and display names, each well-formed encoded word in a supported charset (RFC 2047: at most 75 characters, set off by white space or the ends of the text or word) is replaced by the text it encodes (base64 or Q, letter case of charset and encoding irrelevant, optional language tag ignored), white space between two adjacent encoded words in free text is removed and all other white space kept. An encoded word that is malformed, undecodable or in an unknown charset is kept verbatim and does not affect the text around it (a bad = escape inside Q text is left unspecified).",
 ["inputs"],"all texts mixing plain words and encoded words, all charsets, both encodings, all byte values, folds between them",
 "Tests decode about ten encoded words; the adjacency and failure rules depend on sequences of words.",
 [S+"parsing/mime/encoded_headers.rs",S+"parsing/common.rs",S+"parsing/mime/quoted_printables.rs",S+"parsing/mime/base64.rs"],[("encoded-word parser","parsing/mime/encoded_headers.rs"),("adjacency rule","parsing/common.rs mime_unstructured"),("phrase words","parsing/common.rs phrase")],
 ["Email::parse","parse_message"])
p("C15","Base64 decoding inverts base64 encoding",
 "For every byte string, decoding its standard base64 encoding returns it exactly, whatever line breaks or other characters outside the base64 alphabet are interspersed. Data whose last group is incomplete, or that continues inside a group after padding began, is rejected instead of yielding truncated or altered bytes.",
 ["inputs"],"all byte strings of all lengths, all wrappings and interspersed junk, all truncations",
 "Tests decode six literals; in-place decoding with two moving indexes fails only for particular junk/padding positions.",
 [S+"parsing/mime/base64.rs"],[("in-place decoder","parsing/mime/base64.rs decode_base64")],
 ["decode_base64","Email::parse (base64 body)"])
p("C16","Quoted-printable decoding inverts quoted-printable encoding",
 "For every byte string, decoding any conforming quoted-printable encoding of it (any choice of escaped versus literal characters, hex digit case, soft line breaks) returns it exactly. A malformed escape or a byte that may not appear literally is replaced by the Unicode replacement character and never alters the decoding of the rest of the text (an escape cut off by the end of the data is left unspecified).",
 ["inputs"],"all byte strings and all conforming encodings of them; malformed escapes and raw bytes at any position",
 "Tests decode two literals.",
 [S+"parsing/mime/quoted_printables.rs"],[("in-place decoder","parsing/mime/quoted_printables.rs decode_qp")],
 ["decode_qp","Email::parse (quoted-printable body)"])
p("C17","Content-Type yields the written type, subtype and parameters",
 "A Content-Type header returns its type (one of the seven standard types in any letter case, otherwise the unknown type's exact name in lowercase), its subtype in lowercase, and every parameter under its lowercase name with its exact value, in whatever order and quoting they are written. A type that only begins like a standard one is an unknown type; a value outside the grammar leaves the header unrecognised.",
 ["inputs"],"all types, subtypes, parameter lists, quoting, case and near-grammatical mutations",
 "Tests contain about ten literal headers.",
 [S+"parsing/mime/mime_fields.rs",S+"mime.rs"],[("type and parameter parsers","parsing/mime/mime_fields.rs content_type/parameter")],
 ["parse_message","Email::parse"])
p("C18","Extended and continued parameters are reassembled and decoded",
 "A MIME parameter written in RFC 2231 form - split into numbered segments (given in any order), percent-encoded with a charset, or both - yields under its plain name the concatenation of its segments in numeric order, with percent-encoded segments decoded in the declared charset and plain segments taken literally. Numbering starts at 0 and stops at the first missing number; a percent-encoded value in an unknown charset is returned undecoded.",
 ["inputs"],"all segmentations, orders, encodings and charsets of parameter values",
 "Tests contain three literal headers, all in order and ASCII.",
 [S+"parsing/mime/percent_encoding.rs",S+"parsing/mime/mime_fields.rs"],[("segment collection","parsing/mime/percent_encoding.rs collect_parameters"),("percent decoding","parsing/mime/percent_encoding.rs decode_parameter")],
 ["parse_message","Email::parse"])
p("C19","Content-Disposition yields type, filename, dates and parameters",
 "A Content-Disposition header returns its disposition (inline, attachment, or the exact lowercase name of any other), its file name, its creation, modification and read dates, and every other parameter under its lowercase name, independent of their order, letter case and quoting. A disposition that only begins like a known one is an unknown disposition, and a date parameter that is not a valid date is kept as an ordinary parameter.",
 ["inputs"],"all dispositions, parameter sets, orders, cases and malformed dates",
 "Tests contain three literal headers.",
 [S+"parsing/mime/mime_fields.rs",S+"mime.rs"],[("disposition parser","parsing/mime/mime_fields.rs content_disposition")],
 ["parse_message","Email::parse"])
p("C20","Multipart content is split exactly at its boundary lines",
 "Decoding a multipart entity returns its parts in order, each with exactly the headers and content written between two boundary lines; preamble and epilogue are dropped, the line break before a boundary belongs to the boundary, and the closing boundary may end the data. Content that merely resembles a boundary line stays inside its part, parts may nest to any depth, and a missing boundary parameter or missing closing boundary is an error.",
 ["inputs"],"all part lists, contents (including boundary look-alikes), boundaries, preambles, epilogues and nestings",
 "The test only checks that one literal multipart parses, not what it contains.",
 [S+"parsing/mime/multipart.rs",S+"parsing/mime/entity.rs"],[("boundary search","parsing/mime/multipart.rs"),("part header parser","parsing/mime/entity.rs header_part")],
 ["RawEntity::parse"])
p("C21","Text entities decode by their declared charset",
 "Decoding a text entity yields exactly the characters its declared charset (UTF-8, US-ASCII, ISO-8859-1 to 16, ISO-6937, GB2312, in any letter case) assigns to its bytes. Invalid UTF-8 under a UTF-8 or US-ASCII label is an error, and an entity that is not text or multipart, or whose charset is unknown or missing, is reported as unknown without loss of its raw value.",
 ["inputs"],"all charsets, all byte values (bytes the charset leaves undefined excepted), all types",
 "Tests decode one UTF-8 entity.",
 [S+"parsing/mime/entity.rs"],[("charset dispatch","parsing/mime/entity.rs entity")],
 ["RawEntity::parse"])
p("C22","Entities carry their decoded payload and their own headers",
 "For a message and for each multipart part, the entity's value is the payload decoded by its Content-Transfer-Encoding (7bit, 8bit, binary, quoted-printable, base64, in any letter case; identity when absent), and its type, parameters, id, description, disposition and remaining headers are those written for it, with text/plain in US-ASCII when no type is given. An unknown transfer encoding is an error, never silently undecoded data.",
 ["inputs"],"all payloads, encodings, header combinations at message and part level",
 "Tests decode one quoted-printable entity.",
 [S+"parsing/mime/entity.rs",S+"email.rs",S+"parsing/mime/mime_fields.rs"],[("transfer decoding","parsing/mime/entity.rs decode_value"),("header collection","parsing/mime/entity.rs header_part, email.rs")],
 ["Email::parse","RawEntity::parse"])
p("C23","Feature selection only moves headers, never changes values",
 "Every combination of cargo features builds, and for any message the value of a header is the same in every feature set that enables its parsing (encoded words being decoded only where MIME is enabled). A header whose feature is disabled is returned among the unknown fields with its name and its text as plain free text, and disabling a feature never affects the other headers, their order, or the body.",
 ["configurations","inputs"],"all feature subsets, all messages",
 "The test suite runs two feature sets and never compares them.",
 [S+"parsing/fields.rs",S+"email.rs",S+"parsing/mime/entity.rs","email-parser/Cargo.toml"],[("conditional field parsers and struct members","parsing/fields.rs, email.rs")],
 ["Email::parse","parse_message"])
p("C24","Encoders and decoders are inverse and keep lines short",
 "For every byte string, the crate's base64 and quoted-printable encoders produce conforming output (valid alphabet, no line longer than 76 characters, no white space at the end of a quoted-printable line) that the crate's own and any conforming decoder turn back into the original bytes.",
 ["inputs"],"all byte strings of all lengths",
 "Tests encode eight short strings, only one long enough to wrap.",
 [S+"parsing/mime/base64.rs",S+"parsing/mime/quoted_printables.rs"],[("encoders","parsing/mime/base64.rs encode_base64, parsing/mime/quoted_printables.rs encode_qp")],
 ["hooked encode_base64/encode_qp"],"encoders are private: re-exported under a cfg flag")
p("C25","Taking ownership of parsed MIME data preserves it",
 "Converting a content type, transfer encoding or disposition to its owned form, cloning an entity, or decoding an entity from an owned instead of a borrowed buffer yields values equal to the original in every field, and the owned values stay correct after the source buffer is gone.",
 ["inputs","histories"],"all parsed content types, encodings, dispositions and entities",
 "No test calls the conversions on parsed data beyond one literal.",
 [S+"mime.rs",S+"parsing/mime/entity.rs"],[("into_owned conversions","mime.rs"),("owned header part","parsing/mime/entity.rs header_part_owned")],
 ["ContentType::into_owned","Disposition::into_owned","ContentTransferEncoding::into_owned","hooked raw_entity"],"raw_entity is private: re-exported under a cfg flag")
p("C26","A malformed header degrades alone to a generic field",
 "When the value of a known header is not valid for it but is printable text, that header is returned as an unknown field with its name as written and its text, and every other header, their order and the body are exactly what they would be if the malformed header were replaced by an arbitrary unknown header.",
 ["inputs"],"all positions and kinds of malformed values among well-formed headers",
 "No test contains a malformed value inside a complete message.",
 [S+"parsing/fields.rs"],[("generic fallback after failed field parsers","parsing/fields.rs fields/unknown")],
 ["parse_message","Email::parse"])
p("C27","Keywords and comments accumulate phrase by phrase",
 "Every Keywords header yields its comma-separated phrases in order, each as the list of its words, several Keywords headers append in message order, and each Comments header contributes one entry in order. An empty phrase, a missing comma or a trailing comma makes that Keywords header unrecognised instead of losing or inventing a phrase.",
 ["inputs"],"all lists of phrases, words (bare, quoted, encoded) and header repetitions, and malformed lists",
 "The test counts phrases of one literal.",
 [S+"parsing/fields.rs",S+"parsing/common.rs",S+"email.rs"],[("phrase list","parsing/fields.rs keywords"),("accumulation","email.rs Email::parse")],
 ["Email::parse","parse_message"])
p("C28","Contiguous values are borrowed from the input, not copied",
 "A returned name (of a header, a MIME type or a parameter), word, parameter value, address part, identifier part, free text or identity-encoded body that appears contiguously and unescaped in the message is returned as a reference to exactly that place in the caller's buffer, without allocation.",
 ["inputs"],"all messages; all values that need no unfolding, unescaping or decoding",
 "One unit test checks the string-joining helper on one literal; no test checks that parsed values are borrowed.",
 [S+"string.rs",S+"parsing/combinators.rs",S+"parsing/common.rs"],[("reference fusion","string.rs add_string/add_str"),("Cow results","all parsers")],
 ["Email::parse","parse_message"])
p("C29","Re-serialising an accepted message is a fixed point",
 "For any accepted message, however obtained (including mutated and malformed mail), writing its parsed header values back in canonical form (quoting, encoding and folding as needed) and parsing again yields the same values; in particular parsed addresses, identifiers, types and parameters never contain characters their grammar cannot express.",
 ["inputs"],"all accepted messages, including ones no generator of valid mail would write",
 "Needs arbitrary accepted inputs; tests only have hand-written valid ones.",
 [S+"parsing/address.rs",S+"parsing/fields.rs",S+"parsing/time.rs",S+"parsing/mime/mime_fields.rs"],[("the whole grammar","parsing/*")],
 ["parse_message"])
p("C30","The work stays in proportion to the size of the message",
 "For every input, the work done by parsing a message and by decoding an entity grows at most in proportion to the length of the input (for nested multiparts, the length times the nesting depth): no arrangement of comments, quotes, folds, encoded words, addresses, parameters, boundaries, encoded payload or repeated headers makes it grow quadratically or exponentially.",
 ["inputs"],"all inputs, in particular any repeated or nested piece of syntax, up to megabytes of encoded payload",
 "The cost of backtracking only shows on inputs that repeat or nest one construct many times; no test has one.",
 [S+"parsing/combinators.rs",S+"parsing/whitespaces.rs",S+"parsing/address.rs",S+"parsing/mime/multipart.rs",S+"parsing/mime/quoted_printables.rs",S+"string.rs"],
 [("ordered choice with backtracking","parsing/combinators.rs match_parsers"),("comment recursion","parsing/whitespaces.rs"),("boundary search","parsing/mime/multipart.rs"),("escape decoding","parsing/mime/quoted_printables.rs decode_qp")],
 ["parse_message","Email::parse","RawEntity::parse"])
p("C31","A header's reading does not depend on its neighbours",
 "Cutting a header section between two header fields (outside a leading trace block) into two messages, or putting the header section of one message before another message that does not start with a trace field, never changes what is read: the whole is accepted exactly when both halves are, its items are those of the first half followed by those of the second, and its body is that of the second half.",
 ["inputs","histories"],"all messages, also malformed ones; all places to cut; all pairs of messages",
 "Tests look at a header alone or at one fixed message; state carried over from one header to the next needs particular neighbours.",
 [S+"parsing/fields.rs",S+"parsing/message.rs"],[("one loop over independent field parsers","parsing/fields.rs fields")],
 ["parse_message"])
p("C32","Email::parse reports exactly what parse_message found",
 "For every input, Email::parse fails if parse_message does, and otherwise is determined by its items: each single header is the item of that kind (two of a kind, or a missing From or Date where required, are an error), comments, keywords, trace blocks and unknown fields are the items of those kinds in order, the entity's type, parameters, id, description and disposition are those items or the defaults, and the body is the body of the message decoded as its Content-Transfer-Encoding item says.",
 ["inputs"],"all messages, also malformed ones, in every feature set",
 "Tests check single members of one parsed email and never compare the two entry points.",
 [S+"email.rs",S+"parsing/message.rs"],[("collection of the fields","email.rs Email::parse")],
 ["Email::parse","parse_message"])
p("C33","Content headers mean the same in a part as in a message",
 "A list of Content-* and unknown headers (valid or not) with a body is read the same whether it is a message, a part of a multipart at any depth, or a part held in an owned buffer: it is accepted in all of them or in none, and type, subtype, parameters, id, description, disposition, remaining headers, payload and decoded form are equal. (A header that appears twice in a part is left open.)",
 ["inputs"],"all lists of content headers and bodies, valid and edited, at several depths",
 "The part reader repeats the header loop of the message reader; tests exercise each on different literals and never compare them.",
 [S+"parsing/mime/entity.rs",S+"parsing/mime/multipart.rs",S+"email.rs",S+"parsing/mime/mime_fields.rs"],[("header loop of a part","parsing/mime/entity.rs header_part"),("header loop of a message","parsing/fields.rs fields, email.rs")],
 ["Email::parse","RawEntity::parse"],"raw_entity is private: re-exported under a cfg flag")
p("C34","The same construct reads the same wherever it may appear",
 "A value is read identically by all headers that share its grammar, and by larger constructs containing it: addresses in To, Cc, Bcc, Reply-To (and From, Sender, Return-Path, as far as their grammar reaches), in a group, in a longer list and in a trace block; free text in Subject, Comments, Content-Description and unknown fields; identifiers in Message-ID, Content-ID, In-Reply-To and References; dates in Date, Resent-Date, Received and disposition parameters; parameters in Content-Type and Content-Disposition; phrases in Keywords, display names and group names. A value that one of them cannot read is not read by the others either.",
 ["inputs"],"all values, valid, edited and arbitrary",
 "Tests check each header on its own literals; a difference between two headers needs a value that only one of their parsers mishandles.",
 [S+"parsing/fields.rs",S+"parsing/address.rs",S+"parsing/time.rs",S+"parsing/mime/mime_fields.rs"],[("shared grammar functions","parsing/address.rs, parsing/common.rs, parsing/time.rs"),("parallel header functions","parsing/fields.rs, parsing/mime/mime_fields.rs")],
 ["parse_message"])
p("C35","Threads do not disturb each other",
 "Parsing or decoding on several threads at the same time, of different messages, of variants of one message, or of one shared buffer, gives each of them what it gives when done alone, whatever the schedule; an Email and its Entity may be shared between threads and decoded by all of them at once with equal results; and nothing is left behind that changes a later parse.",
 ["inputs","schedules"],"all messages, all schedules of two to four threads over one to three parses each",
 "Each test runs on one thread or does not look at what another does; shared state needs a switch inside a parse.",
 [S+"parsing/message.rs",S+"email.rs",S+"parsing/mime/entity.rs",S+"parsing/mime/multipart.rs"],[("no state outside the arguments","parsing/*"),("public values are Send and Sync","string.rs, address.rs, mime.rs")],
 ["parse_message","Email::parse","RawEntity::parse"])
p("C36","Nothing is kept after a parse",
 "Once everything obtained from a message (items, the email, its entity, their clones and owned versions, errors) is dropped, no memory is held on its behalf: parsing any number of messages does not make the process grow.",
 ["inputs","histories"],"all messages, accepted or not; histories of several hundred parses",
 "A test process ends before anything could accumulate and no test looks at the allocator.",
 [S+"string.rs",S+"parsing/common.rs",S+"parsing/mime/base64.rs",S+"parsing/mime/entity.rs"],[("conversion to owned values","string.rs, parsing/mime/entity.rs into_owned"),("in-place decoders","parsing/mime/base64.rs, parsing/mime/quoted_printables.rs")],
 ["parse_message","Email::parse","RawEntity::parse"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
print(len(P))
