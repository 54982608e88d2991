#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/"
caches=[("DATE_CACHE","last keyword matched per field position, one table per thread",S+"parse.rs"),("DELTA_CACHE","last interval unit matched per field position, one table per thread",S+"parse.rs")]
p("C01","A call's result depends only on its arguments, not on what was called before",
  "Parsing, formatting, constructing, calculating with, converting, comparing or hashing a date, time, timestamp or interval gives the same result (value, text or error) as the same call made first thing in a fresh process. It does so whatever calls, successful or failed, came before it in the process, on the same thread or on threads that have already ended, and however many there were.",
  ["histories","inputs"],"every history of calls (any mix of operations, arguments, formats and threads used one after another) and every final call",
  "Each test starts from a new thread with empty caches and makes a handful of calls; none compares a call after a history with the same call made first, and the keyword caches only matter when the same field position sees several keywords.",
  [S+"parse.rs",S+"date.rs",S+"time.rs",S+"timestamp.rs",S+"interval.rs"],
  [("keyword caches re-check the key before using an entry",S+"parse.rs decode_special, decode_units"),("all other working state is local to the call",S+"date.rs, time.rs, timestamp.rs, interval.rs try_from_str/format")],caches)
p("C02","Concurrent calls from several threads return what each returns alone",
  "When several threads call the library at the same time on shared or equal values, every call returns exactly what it returns when it is made alone, under every interleaving. No call panics, crashes or corrupts memory because of what another thread is doing.",
  ["schedules","inputs"],"every number of caller threads, every assignment of calls to them and every interleaving of their steps",
  "The tests never have two threads inside the library on purpose, and an operating system schedule that happens to occur says nothing about the others.",
  [S+"parse.rs",S+"date.rs",S+"time.rs",S+"timestamp.rs",S+"interval.rs",S+"common.rs"],
  [("caches are thread-local",S+"parse.rs thread_local!"),("no shared mutable state",S+"*.rs")],caches)
p("C03","Every call finishes by itself: no call waits for another caller",
  "A call returns after a bounded number of its own steps even if any other caller threads are suspended for ever at arbitrary points inside their own calls. No call blocks, sleeps or spins waiting for another thread.",
  ["schedules","inputs"],"every set of callers stalled at every point inside their calls, every remaining caller and call",
  "No test suspends a thread in the middle of a call; a lock that is nearly always free passes every test.",
  [S+"parse.rs",S+"*.rs"],[("no locks, no shared state",S+"parse.rs thread_local!"),("every loop consumes input or is bounded by the number of fields",S+"parse.rs")],caches)
p("C04","No result depends on left-over memory contents",
  "The result of a call does not depend on what the stack or fresh heap memory happened to contain when the call was made: bytes the call did not write are never read into a result, an error, a branch or the length of a text. Nor does it depend on the addresses at which arguments and buffers happen to lie.",
  ["inputs","histories"],"every call and every prior contents of dead stack and of newly allocated heap memory",
  "The parser and formatters work in uninitialised buffers; tests see whatever the memory happened to hold, usually zeroes, so a read before a write goes unnoticed.",
  [S+"date.rs",S+"time.rs",S+"timestamp.rs",S+"interval.rs",S+"parse.rs"],
  [("only fields counted by the tokenizer are used",S+"parse.rs parse_date_time"),("formatters return the length they wrote",S+"date.rs, interval.rs format")],
  [("work buffers","MaybeUninit token buffers, and text buffers extended with set_len",S+"date.rs, time.rs, timestamp.rs, interval.rs")])
p("C05","No result depends on clock, time zone, locale, randomness or files",
  "Operations give the same results whatever the current time, however the clock jumps, and whatever the process environment (including TZ and locale variables), process id, random number source (address randomisation included) or file system contain, and however long the process is suspended in the middle of a call. In particular text that names no moment of the real clock is never completed from it.",
  ["configurations","inputs","fault_sequences"],"every state and every change over time of clock, environment, randomness, process id and file system, and every call",
  "Tests run in one environment at one moment; a dependence on the current date or TZ shows only elsewhere or later.",
  [S+"parse.rs",S+"timezone.rs",S+"timestamp.rs",S+"common.rs"],
  [("no call to the system for time, zone or configuration",S+"timezone.rs, common.rs"),("relative words are refused or mapped to fixed values",S+"parse.rs decode_special")])
p("C06","Stored values come back exactly, across partial I/O, failures and crashes",
  "A valid date, time, timestamp or interval (alone or inside records, options, lists and maps) written through serde in a text format or a binary format, self-describing or not, is read back as exactly the same value, or, after a stream failure or crash, as an error; never as another value. This holds however reads and writes are split, interrupted or failed, and every record acknowledged as durable before a crash is readable after restart.",
  ["crash_points","fault_sequences","inputs","histories"],"every valid value, format, splitting of I/O, stream error, point of crash and fate of writes that were not yet durable",
  "The tests round-trip a few values through in-memory JSON and bincode; no test uses a self-describing binary format, streams that split or fail, torn files or values near the limits of the ranges.",
  [S+"serde.rs",S+"date.rs",S+"time.rs",S+"timestamp.rs",S+"interval.rs"],
  [("Serialize and Deserialize choose text or integers by is_human_readable",S+"serde.rs"),("ISO text and SQL-standard interval text parse back to the same value",S+"date.rs, time.rs, timestamp.rs, interval.rs")],None,["encoded bytes","decoded values"])
p("C07","Damaged or hostile stored data gives an error or a valid value, never a crash",
  "Decoding bytes that were truncated, torn, corrupted, spliced, over-long or never were an encoding, in any format, returns within bounded steps with an error or with a value inside the documented range of its type; it never panics, overflows or hangs. A value it does return is a value like any other: it formats, encodes and decodes again to itself.",
  ["fault_sequences","inputs"],"every sequence of damage to stored bytes, every source failure, every garbage input in text and binary formats",
  "Tests feed well-formed text and a few chosen malformed strings; damage reaches combinations of tokens, lengths and extreme integers no test lists.",
  [S+"serde.rs",S+"parse.rs",S+"common.rs",S+"interval.rs",S+"time.rs"],
  [("range checks in visitors",S+"serde.rs"),("checked arithmetic while decoding fields",S+"parse.rs, common.rs, interval.rs"),("workspace bound on token text",S+"parse.rs parse_date_time")])
p("C08","A failing sink is reported, and only a prefix of the right bytes was written",
  "When the writer or serializer a value is encoded into fails at any point, the encode call returns an error (never success, never a panic), and the bytes that did go out are a prefix of the encoding a working sink receives. When the sink does not fail, the call succeeds with the complete encoding, and a failure leaves later encodings of any value unaffected.",
  ["fault_sequences","inputs"],"every value, format, and sequence of sink failures, short writes and interruptions",
  "No test serializes into a writer or serializer that fails.",
  [S+"serde.rs"],[("errors of the serializer are passed on at every step",S+"serde.rs Serialize impls")])
p("C09","Decoding follows what the format delivers: order, duplicates, gaps, failures",
  "However a binary format delivers the parts of an interval (a sequence in the stored order time, day, month, or named fields in any order), decoding yields exactly the delivered parts; a missing part, a repeated part, an unknown part name, a part of the wrong type or out of range, or an error of the format at any moment makes decoding fail with an error. Dates, times and timestamps are taken exactly from integers of any width that are in range and refused otherwise, and in text formats a string decodes to what parsing it gives.",
  ["fault_sequences","inputs","histories"],"every delivery script: kinds, widths, order, repetition and omission of parts, and an error at every point",
  "The tests use two formats, which always deliver the parts completely, once and in one order.",
  [S+"serde.rs"],[("visit_seq, visit_map with duplicate and missing field errors",S+"serde.rs IntervalVisitor"),("visit_i32, visit_i64, visit_u64, visit_str",S+"serde.rs")])
p("C10","Calls made from inside callbacks, while unwinding or at thread exit work",
  "Calling the library from inside a reader, writer, serializer, deserializer or text sink that the library itself is calling, from a destructor while a panic unwinds through it, or from a destructor at thread exit gives the same results as calling it at rest. A panic raised in such a callback passes through the library once, and leaves every value and every later call as it would have been without it.",
  ["histories","fault_sequences","schedules"],"every point at which a callback runs, every nesting of calls made there, every panic raised there, every later call",
  "No test re-enters the library or unwinds through it; a cache borrowed across a callback, or destroyed before its last user, passes them all.",
  [S+"parse.rs",S+"serde.rs"],[("cache borrows end before any foreign code can run",S+"parse.rs decode_special, decode_units"),("cache contents need no destructor",S+"parse.rs thread_local!")],caches)
p("C11","Memory kept by the library stays bounded however many calls are made",
  "After any number of calls with any number of different arguments, on any number of threads that come and go, the memory the library keeps allocated stays below a fixed bound that does not depend on how many calls were made: results and errors that the caller drops are given back completely.",
  ["histories"],"every history of calls of any length, with failed and successful calls, on one or more threads",
  "Each test makes a few calls and ends; nothing measures what remains allocated, and an unbounded memo table or a leaked buffer passes every test.",
  [S+"parse.rs",S+"date.rs",S+"interval.rs"],[("fixed-size caches of static references",S+"parse.rs thread_local!"),("buffers are owned by the call or by its result",S+"date.rs, timestamp.rs, interval.rs format")],caches)
p("C12","Stored forms are stable: releases can be mixed over one store",
  "What this release writes through serde is byte for byte what earlier releases wrote for the same valid value (ISO text for dates, times and timestamps and SQL-standard text for intervals in text formats; the day or microsecond count, and the parts time, day, month, in binary formats), and what they wrote it reads as the same value. So processes of different releases can take turns on one store, through upgrades, downgrades and crashes at any moment, without a value being lost or changed.",
  ["histories","crash_points","inputs"],"every sequence of lives of a store under the old or the new release, every crash between them, every valid value and format",
  "The tests only check that one build agrees with itself, on a few values; a consistent change of both directions passes them and breaks every existing store.",
  [S+"serde.rs",S+"date.rs",S+"time.rs",S+"timestamp.rs",S+"interval.rs",S+"common.rs"],
  [("fixed choice of representation per format kind",S+"serde.rs"),("ISO and SQL-standard text",S+"date.rs, time.rs, timestamp.rs, interval.rs")],None,["encoded bytes","decoded values"])
# ---- what the values mean, as replicas of a system that stores and ships them agree on it
p("C13","Texts in every style and order say the value and are read back as it",
  "The text of a valid date, time, timestamp or interval in every date style, field order and interval style is exactly the one PostgreSQL's style defines (fields, order, padding, signs, plurals, BC, infinity), and parsing it under the same settings gives the same value back, so nodes that keep and exchange values as text agree. Excepted are dates written in the Postgres style under the YMD order, whose text puts the month first, and intervals with a part that has no opposite (the least integer) in the verbose and SQL-standard styles; intervals of more hours than 32 bits hold have no text.",
  ["inputs","configurations","fault_sequences","histories"],"every value, style, order and interval style; every history of commands, lost, repeated, delayed and reordered messages, crashes and restarts of the nodes that exchange them",
  "Tests list a few values per style; signs of mixed intervals, plurals, BC years, years of more than four digits and styles crossed with orders are not enumerable.",
  [S+"date.rs",S+"timestamp.rs",S+"interval.rs",S+"time.rs",S+"parse.rs",S+"common.rs"],[("format and try_from_str",S+"date.rs, timestamp.rs, time.rs, interval.rs"),("encoding of date and time fields",S+"common.rs encode_*")],None,["texts written","values read back"])
p("C14","Order, equality and hash of values agree with time and with each other",
  "For each of the four types, comparison is a total order that follows time (dates, times, timestamps by position, the infinities being the extremes; intervals by their length with days of 24 hours and months of 30 days), all comparison operators, min and max agree with it, equality is exactly its ties, and equal values have equal hashes. So ordered and hashed indexes over values give the same answers whatever the order in which entries arrived, and again after they are rebuilt.",
  ["inputs","histories","fault_sequences"],"every set of values, every order in which insertions, removals and lookups reach ordered and hashed indexes over them, duplicated and lost messages, rebuilds after crashes",
  "Tests compare a few pairs; agreement of equality and hashing for values that are equal but represented differently, and transitivity, need sets of values and many orders.",
  [S+"interval.rs",S+"date.rs",S+"timestamp.rs",S+"time.rs"],[("PartialEq, Ord and Hash through a common measure",S+"interval.rs"),("derived and cross-type comparisons",S+"date.rs, timestamp.rs, time.rs")])
p("C15","Calendar and conversions are exact over the whole range",
  "Building a date, time, timestamp or interval from calendar fields, taking the fields out again, and converting between the types follow the proleptic Gregorian calendar without a year zero over the whole range: impossible dates and times are refused, possible ones are accepted and one to one with day numbers, conversions keep the moment or span, drop exactly the part the target lacks, map infinity to infinity where the target has it, and fail only where the target cannot hold the value.",
  ["inputs","histories","fault_sequences"],"every combination of fields and every value of every type, moved between replicas in any format under message loss, reordering, crashes and restarts",
  "Tests sample a few dates; leap rules, BC years, the ends of the ranges and the ends of months are not reached together.",
  [S+"common.rs",S+"date.rs",S+"timestamp.rs",S+"time.rs",S+"interval.rs"],[("date2julian, julian2date, validate_date",S+"common.rs"),("try_from_ymd, try_from_hms, From and TryFrom impls",S+"date.rs, timestamp.rs, time.rs, interval.rs")])
p("C16","Arithmetic gives the results PostgreSQL defines",
  "Adding and subtracting days, times and intervals, differences between values, age, negation, justification, and multiplying and dividing intervals give the results PostgreSQL defines: months are added before days before time, the day clamped to the end of the month; times of day wrap around; differences of timestamps are days and a remainder of the same sign; age counts whole months and days back from the later value; fractions of months and days cascade into smaller fields. Infinite operands stay infinite or are refused where the result means nothing.",
  ["inputs","histories","fault_sequences"],"every pair of operands, including results of earlier operations, every clock the current time is read from, applied by every replica in every history of delivery, crash and replay",
  "Tests sample a few operands; mixed signs, month ends, leap days before the epoch and cascading fractions combine in ways no list covers.",
  [S+"timestamp.rs",S+"interval.rs",S+"date.rs",S+"time.rs",S+"common.rs"],[("add_interval, sub_*, timestamp_age, justify_*, mul_f64, div_f64",S+"timestamp.rs, interval.rs"),("operators on dates and times",S+"date.rs, time.rs")])
p("C17","Extraction, truncation and precision follow the fields they name",
  "Extracting a field of a date, time, timestamp or interval gives the number PostgreSQL defines (ISO weeks and years, quarters, centuries, days of week and year and the rest), truncating to a field clears exactly the smaller ones, and reading a text with a precision or an interval field restriction rounds half away from zero to exactly that many digits and clears exactly the fields outside the restriction; what a type has no field for is refused.",
  ["inputs","configurations","histories","fault_sequences"],"every value, field, precision and restriction, applied by every replica in every history of delivery, crash and replay",
  "Tests sample a few values; week and century boundaries, BC years, negative intervals and carries out of rounding are at particular values only.",
  [S+"timestamp.rs",S+"interval.rs",S+"time.rs",S+"date.rs",S+"common.rs"],[("truncate and date_part",S+"timestamp.rs, interval.rs, time.rs, date.rs, common.rs"),("adjust_by_typmod",S+"interval.rs, time.rs, timestamp.rs")])
p("C18","Operations stay in range or report an error, at the extremes too",
  "No constructor, conversion, parser, field operation or arithmetic method on valid operands panics, wraps around, or returns a date, time or timestamp outside its documented range, however extreme the operands: it returns a value where the exact result is one and an error where it is not. (The unchecked interval addition operator and the justifications are excepted: they have no way to report.)",
  ["inputs","histories","fault_sequences"],"every operand at and near the ends of the ranges, infinities and extreme floats included, and chains of operations on what earlier ones returned, on replicas under faults",
  "Tests sample a few extremes for a few operations; overflow in an intermediate step needs a particular combination of extreme parts.",
  [S+"date.rs",S+"timestamp.rs",S+"interval.rs",S+"time.rs",S+"common.rs",S+"parse.rs"],[("checked arithmetic and range checks",S+"date.rs, timestamp.rs, interval.rs, time.rs, common.rs")])
p("C19","PostgreSQL's documented spellings give the values PostgreSQL gives them",
  "Every spelling PostgreSQL documents for dates, times without zone, timestamps without zone and intervals (ISO 8601 and its basic and ordinal forms, month names and their abbreviations in any case, the separators and field orders of every date order, two-digit years, Julian days, BC and AD, 12-hour clocks, weekday names, infinity, traditional, verbose, SQL-standard and ISO 8601 intervals with every unit name, fractions and 'ago', alone or together, with any number of blanks, tabs and line ends around the fields) is accepted, as long as it fits PostgreSQL's work space (128 characters besides the blanks, 256 in intervals, and 25 fields), and gives the value PostgreSQL gives it. (Not included: the words that stand for the current time, 'epoch', and time zones, which this library does not support.)",
  ["inputs","configurations","histories","fault_sequences"],"every value, every documented spelling of it and every field order, arriving as commands at every replica in every history of delivery, crash and replay",
  "Tests list some dozens of texts, mostly in one case, order and spelling each.",
  [S+"parse.rs",S+"token.rs",S+"common.rs"],[("parse_date_time and the decode functions",S+"parse.rs"),("keyword tables",S+"token.rs")])
p("C20","Texts that name no value are refused",
  "A text whose fields cannot be a value is refused with an error as a date, time, timestamp or interval in every field order and style, and never taken for some other value: months, days of the month or of the year, hours, minutes and seconds outside their range, 29 February outside leap years, year zero, a clock past 24:00 or a 12-hour clock past 12, words that mean nothing, fields that are missing or given twice, dates and timestamps past the ends of their range, interval fields that overflow or ISO 8601 designators in the wrong place or missing, and empty texts.",
  ["inputs","configurations","histories","fault_sequences"],"every text with a field that is impossible, missing or repeated, in every field order and style, arriving among good ones as commands at every replica in every history of delivery, crash and replay",
  "Tests list some dozens of bad texts; a bound that is off by one, a check skipped on one of the many paths through the parser, or a field quietly made up passes them.",
  [S+"parse.rs",S+"common.rs",S+"token.rs"],[("field masks and validate_date",S+"parse.rs decode_*, common.rs validate_date"),("range checks",S+"date.rs, timestamp.rs, time.rs, interval.rs")])
p("P02","Every text is accepted exactly when PostgreSQL accepts it",
  "A text, documented or not, is accepted as a date, time, timestamp or interval if and only if PostgreSQL accepts it under the same settings.",
  ["inputs","configurations"],"every text","Tests list some dozens of texts.",
  [S+"parse.rs",S+"token.rs"],[("parse_date_time and the decode functions",S+"parse.rs")])
p("P10","Failing memory allocation is survived",
  "A call that cannot get memory reports an error and leaves the process usable.",
  ["fault_sequences"],"every allocation of every call","Tests never run out of memory.",[S+"date.rs",S+"interval.rs",S+"error.rs"],[("buffers from the global allocator",S+"date.rs, interval.rs")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
