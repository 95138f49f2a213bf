import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
D,T,TS,I,PA,C,TK,S="src/date.rs","src/time.rs","src/timestamp.rs","src/interval.rs","src/parse.rs","src/common.rs","src/token.rs","src/serde.rs"
p("P01","Calendar dates and day numbers correspond one to one",
"A date can be built from year, month and day exactly when they name a day of the proleptic Gregorian calendar between 4714-11-24 BC and 5874897-12-31 AD (a negative year is a BC year, year 0 does not exist); every other triple is an error. The integer value of that date is the exact number of days from 2000-01-01, and every supported integer value prints as exactly the calendar day it counts to.",
["inputs"],"for every (year, month, day) triple of 32-bit integers and every supported day number",
"The tests convert a few dozen dates; leap-year, century, BC and range-end errors hide in the 2.1 billion others.",
[D,C],[("Date::try_from_ymd, range check",D),("date2julian / julian2date / validate_date / days_of_month",C)],["Date::try_from_ymd","i32::from(Date)","Date::format"])
p("P02","Values assembled from components are exact and range-checked",
"Time, timestamp and interval values built from numeric components equal the exact sum of the components, with seconds rounded to the nearest microsecond (half away from zero) and 24:00:00 and second 60 accepted as the end of a day or minute. Components outside their range (month, day of month, hour above 24, anything after 24:00:00, minute above 59, seconds that are negative, above 60, NaN or infinite, year 0 or before for timestamps, a result outside the supported range) are an error and never silently normalised. An interval is years*12+months, weeks*7+days and the exact total of hours, minutes and seconds whenever these totals fit their fields.",
["inputs"],"for every combination of components, including extreme integers, NaN and infinite seconds",
"Tests use a handful of ordinary component tuples; carries, rounding at .5 microseconds and the range ends need generated inputs.",
[T,TS,I],[("Time::try_from_hms",T),("Timestamp::try_from_ymd_hms",TS),("Interval::try_from_ymwd_hms",I)],["constructors","integer values"])
p("P03","Conversions between the types are exact",
"A timestamp converts to the date and time of day that contain it (rounding towards the past, also before 2000 and before 1 AD), a date converts to its midnight timestamp or to an error when no timestamp exists, and date plus time of day gives back the timestamp they came from. A time of day converts to the interval of the same length; an interval converts to the time of day given by its time part modulo 24 hours, and to the integer total of its fields with a month as 30 days and a day as 24 hours. Raw integer conversions are lossless.",
["inputs"],"for every value of every type",
"Tests convert a few positive values; negative values, day boundaries and range ends decide floor versus truncation.",
[D,T,TS,I],[("TryFrom<Timestamp> for Date",D),("TryFrom<Timestamp> for Option<Time>, From<Interval> for Time",T),("TryFrom<Date> for Timestamp",TS),("From<Time> for Interval, From<Interval> for i128",I),("Date::add_time",D)],["conversion results"])
p("P04","Dates, times and timestamps print exactly in every style",
"Formatting prints the exact calendar fields of the value in the layout of the requested style (ISO, XSD, SQL, German, Postgres) and field order, with years zero-padded to at least four digits, other fields to two, \" BC\" for years before 1 AD, and fractional seconds to the microsecond without trailing zeros. The weekday printed by the Postgres timestamp style is the real one, and the infinite values print as \"infinity\" and \"-infinity\". Every supported value formats without error in every style and order.",
["inputs","configurations"],"for every supported date, time and timestamp, every style and every field order",
"Tests pin a few strings; layouts, padding, BC and fraction trimming vary with the value.",
[D,T,TS,C],[("format_date",D),("format_time",T),("format_date_time",TS),("pg_ltostr, pg_ltostr_zeropad, append_seconds",C)],["format()"])
p("P05","Intervals print exactly in every style",
"Formatting an interval prints exactly its months, days and time in the layout of the requested style: Postgres, verbose Postgres (with \"ago\"), SQL standard and ISO 8601, with the sign rules of each style for negative and mixed-sign values and correct singular and plural. The text always denotes precisely the stored fields, including the most extreme values. Only an interval whose time exceeds the printable number of hours is an error.",
["inputs","configurations"],"for every interval (months, days, microseconds) and every style",
"Tests print about twenty intervals; sign mixtures, zero fields and extreme values give thousands of layout branches.",
[I,C],[("Interval::format, format_interval and its part helpers",I),("number output",C)],["Interval::format"])
p("P06","Printed dates, times and timestamps read back as the same value",
"Text produced by formatting a date, time or timestamp parses back to exactly the same value when read with a field order that matches the layout. ISO and XSD text reads back under every field order.",
["inputs","configurations"],"for every supported value, style and matching field order",
"Round trips hold or fail per value (BC years, 5-digit years, fractions, 24:00:00); tests check none systematically.",
[D,T,TS,PA],[("formatters",TS),("decode_date_time / decode_time_only",PA)],["format() then try_from_str()"])
p("P07","Printed intervals read back as the same interval",
"Text produced by formatting an interval, in any of the four styles, parses back to an interval with exactly the same months, days and time. SQL-standard text is read under the SQL-standard style setting, the other three under every style setting.",
["inputs","configurations"],"for every printable interval and every style",
"Mixed signs, zero fields and extreme values make the texts ambiguous in ways a few samples cannot show.",
[I,PA],[("format_interval",I),("decode_interval, decode_iso8601_interval",PA)],["Interval::format then Interval::try_from_str"])
p("P08","Date, time and timestamp text means the value it spells",
"Every accepted spelling of a date or time - ISO, slashed, dashed, dotted, month names in full or abbreviated, compact digit strings, day-of-year, Julian day, labelled fields, AD/BC, AM/PM, two-digit years (1970-2069), optional weekday names, fractional seconds - parses to exactly the calendar day and microsecond it spells. The field order setting decides the reading of ambiguous all-numeric dates.",
["inputs","configurations"],"for every date and time of day in the supported range and every accepted spelling and field order",
"Tests parse about a hundred fixed strings; the grammar is a product of spellings, orders and values.",
[PA,TK,D,T,TS],[("parse_date_time tokenizer",PA),("decode_date_time, decode_time_only, decode_date, decode_time, decode_number, decode_number_field",PA),("keyword tables",TK)],["try_from_str"])
p("P09","Interval text means the interval it spells",
"Interval text - unit words and their abbreviations, signed quantities, decimals, clock parts, SQL year-month literals, \"ago\", and the ISO 8601 designator and alternative forms - parses to exactly the sum it spells, with fractions of a unit carried down to smaller units (a month as 30 days, a day as 24 hours; a fraction of a year to whole months only). Under the SQL-standard style a leading minus sign applies to the whole literal when it is the only sign. A quantity without a unit takes the last field of the declared range, seconds by default.",
["inputs","configurations"],"for every combination of quantities, units, signs and forms",
"Tests parse some tens of strings; unit tables, signs, fractions and their interaction are a product space.",
[PA,TK,I],[("decode_interval, decode_interval_number_field, decode_iso8601_interval, adjust_fract_*",PA),("unit tables",TK)],["Interval::try_from_str"])
p("P10","Text that names no real value is rejected, never reinterpreted",
"Parsing rejects text whose fields are out of range or impossible (month 13, February 30, day-of-year beyond any year, hour 25, minute 60, second 61, 13 PM, year 0, results outside the supported range), repeated or contradictory fields, unknown words, unsupported keywords and zones, characters that belong to no field, empty input, over-long numbers and overflowing quantities. It never normalises such text into some other value.",
["inputs","configurations"],"for every text carrying one such defect in an otherwise valid spelling",
"Each defect must be caught in every spelling and field order; tests try single examples.",
[PA,C,D,T,TS,I],[("validate_date, mask checks, range checks",C),("decode_* error paths",PA)],["try_from_str"])
p("P11","Parsing is total on arbitrary text",
"For every string, field order, interval style and precision argument, parsing a date, time, timestamp or interval terminates with either a value inside the type's valid range or an error that can be displayed. It never panics, aborts, overflows arithmetic or reads outside its buffers, and gives the same outcome in debug and release builds.",
["inputs","configurations"],"for every UTF-8 string of any length and every argument value",
"Hostile strings reach index, overflow and buffer-limit paths no test string reaches.",
[PA,D,T,TS,I],[("tokenizer buffers and field limits, integer parsing, checked arithmetic",PA)],["try_from_str"])
p("P12","No undefined behaviour is reachable through the public API",
"No sequence of safe public calls - parsing, formatting, arithmetic, conversion, truncation, extraction, serialisation, from any thread - performs an invalid memory access, reads uninitialised memory, creates an invalid value or otherwise executes undefined behaviour. Every returned string is valid UTF-8.",
["inputs","histories"],"for every sequence of safe public calls on any inputs",
"Undefined behaviour usually leaves test results unchanged; only an interpreter or sanitizer sees it.",
[PA,TK,D,T,TS,I],[("unsafe blocks: unchecked UTF-8 conversion, transmute of field codes, buffers",TK),("work buffers",PA)],["Miri and AddressSanitizer reports"])
p("P13","Fractional-second precision rounds to the nearest, half away from zero",
"Parsing a time, timestamp or interval with a fractional-second precision of 0 to 6 yields the full-precision value rounded to that many decimals, ties away from zero, carrying into larger fields; rounding is idempotent and never moves a value by more than half a unit. Precision 6 or none leaves the value unchanged, a timestamp precision outside -1 to 6 is an error and a time precision outside 0 to 6 has no effect. A timestamp rounded out of the supported range is an error.",
["inputs","configurations"],"for every parsed value and every precision argument",
"Tests round a few positive values; ties, negatives, carries and range ends decide.",
[T,TS,I],[("adjust_by_typmod of each type",TS)],["try_from_str with precision"])
p("P14","Interval field restrictions cut exactly the fields below the last one",
"Parsing an interval with a declared field range keeps every field down to the last declared one, zeroes the smaller fields by truncating toward zero, and leaves larger fields untouched; unit-less numbers and two-part clock text take the meaning the range gives them. A range outside the thirteen allowed ones, or a precision outside 0 to 6, is an error; a negative argument declares neither.",
["inputs","configurations"],"for every interval text and every range and precision argument",
"Thirteen ranges times signs, units and precisions; tests touch a few cells of that table.",
[I,PA],[("Interval::adjust_by_typmod",I),("decode_interval_number_field range table, decode_time range rule",PA)],["Interval::try_from_str with type modifier"])
p("P15","Day and microsecond arithmetic is exact or an error",
"Adding or subtracting days to a date, subtracting two dates, adding or subtracting pure day-and-time intervals or times of day to dates and timestamps, and subtracting two timestamps give the exact mathematical result whenever it is in the supported range, and an error otherwise, never a wrapped or clipped value. The difference of two timestamps is given as whole days plus a remainder of less than a day of the same sign, and adding it back returns the first timestamp.",
["inputs"],"for every pair of supported values, including values at the range ends",
"Wrap-around only shows at extreme magnitudes and boundary pairs.",
[D,TS,I],[("Date::add_days/sub_days/sub_date/add_time",D),("Timestamp::add_interval/sub_interval/sub_timestamp/sub_date/add_time/sub_time",TS)],["arithmetic results"])
p("P16","Adding an interval follows the calendar: months, then days, then time",
"Adding an interval to a timestamp or date first moves the month (keeping the day of month, or the last day of a shorter month), then adds the days, then the time, each exactly; subtracting an interval adds its negation. A result outside the supported range is an error, never another date.",
["inputs"],"for every timestamp or date and every interval",
"Month-end clamping, leap years, BC years and ordering of the three steps interact; tests check a few sums.",
[TS,D,C],[("Timestamp::add_interval / sub_interval",TS),("days_of_month",C)],["add_interval, sub_interval"])
p("P17","Age is the calendar difference in whole years, months, days and time",
"The age of one timestamp at another has all its fields of one sign, with fewer than 12 months beyond the whole years, fewer than 31 days and less than 24 hours, and equals the field-by-field calendar difference with days borrowed from the length of the earlier timestamp's month. It is zero exactly for equal timestamps and changes only its sign when the operands are swapped. It never fails for finite timestamps.",
["inputs"],"for every ordered pair of supported timestamps",
"Borrowing across months, leap days and sign flips depends on both operands; tests have a few pairs.",
[TS],[("Timestamp::age",TS)],["Timestamp::age"])
p("P18","Time-of-day arithmetic wraps at 24 hours and stays in the day",
"Adding an interval to a time of day, or subtracting one, gives the exact sum or difference of the time part modulo 24 hours, ignoring the interval's months and days, for intervals of any length and sign; the result is always at least 00:00:00 and below 24:00:00. Subtracting two times of day gives their exact signed difference.",
["inputs"],"for every time of day and every interval",
"Only long or negative intervals expose a wrong modulus or an overflow.",
[T],[("Time::add_interval / sub_interval / sub_time",T)],["Time arithmetic"])
p("P19","Interval addition, subtraction and negation are exact per field",
"Adding, subtracting and negating intervals acts on months, days and time separately and exactly; if any field overflows the result is an error, never a wrapped value. Hence addition is commutative and associative where defined, subtraction undoes addition, and negation is an involution.",
["inputs","histories"],"for every pair (and chain) of intervals",
"Overflow of one field among three only appears at extreme operands.",
[I],[("Interval::add_interval / sub_interval / negate / Add",I)],["interval arithmetic"])
p("P20","Justifying an interval preserves its total and normalises its fields",
"Justifying hours, days or the whole interval never changes the interval's total length (month as 30 days, day as 24 hours). Afterwards the time is under 24 hours (hours and full justification), the days are under 30 (days and full justification), and adjusted neighbouring fields never have opposite signs - all three agree after full justification; justifying twice changes nothing more.",
["inputs"],"for every interval whose justified fields fit",
"Sign combinations and boundary values (exactly 30 days, exactly 24 hours, zero fields) decide; tests have a few.",
[I],[("Interval::justify_hours / justify_days / justify_interval",I)],["justify_*"])
p("P21","Scaling an interval multiplies every field and cascades fractions down",
"Multiplying or dividing an interval by a number scales months, days and time, carries the fraction of a month into days (30 per month) and the fraction of a day into time, so the total length is the scaled total to within rounding and integer factors are exact per field. Division by zero, a NaN factor and any result that does not fit are errors, never saturated or wrapped values.",
["inputs"],"for every interval and every floating-point factor",
"Rounding, sign and overflow behaviour depend on the factor; tests use a few factors.",
[I],[("Interval::mul_f64 / div_f64",I)],["mul_f64, div_f64"])
p("P22","Values of each type are totally ordered by what they denote",
"Dates, times and timestamps compare as their positions on the time line, minus infinity first and infinity last; intervals compare by total length with a month as 30 days and a day as 24 hours. The order is total, antisymmetric and transitive and agrees with equality, hashing and subtraction.",
["inputs"],"for every pair and triple of values of one type",
"Overflowing or lossy comparison keys only fail for extreme operands.",
[D,T,TS,I],[("derived orders",TS),("Ord for Interval, i128 total",I)],["comparison operators, hashing, sorting"])
p("P23","Infinite dates and timestamps absorb arithmetic and never look finite",
"Infinite dates and timestamps parse from and print as infinity and -infinity, report themselves as infinite, convert to each other, and stay unchanged when days, times or intervals are added or subtracted or when truncated. Operations with no meaningful finite answer - differences, ages - are errors, extracted year-like fields are plus or minus infinity and cyclic fields are zero, and the time of day of an infinite timestamp is absent. Every finite value reports itself as finite.",
["inputs"],"for both infinities of both types and every operation and argument",
"Each operation has its own infinity branch; tests cover a few.",
[D,TS,T],[("infinity guards in every operation, infinite_part",TS),("is_begin/is_end",D)],["all operations on infinite values"])
p("P24","Every operation keeps values inside the supported range",
"Starting from supported values, any sequence of successful public operations yields only supported values: dates from 4714-11-24 BC to 5874897-12-31, timestamps from 4714-11-24 BC to before 294277-01-01, times from 00:00:00 to 24:00:00, or an infinity. Each such value can be printed and read back, and an operation whose exact result lies outside the range reports an error.",
["histories","inputs"],"for every sequence of operations of any length",
"Tests apply one operation to one value; escaping the range needs chains that walk to the ends.",
[D,T,TS],[("is_valid_date",D),("is_valid_timestamp",TS),("range checks in operations",TS)],["results of operation histories"])
p("P25","Truncation returns the start of the enclosing unit",
"Truncating a date or timestamp to a unit gives the latest instant not after it that begins such a unit - ISO weeks start on Monday, quarters in January, April, July and October, centuries and millennia in years 1 mod 100 and 1 mod 1000, decades at multiples of ten, with no year 0 - and truncating a time or interval zeroes all smaller fields toward zero. Truncation is idempotent and monotone; a start outside the supported range or a unit that does not apply is an error.",
["inputs","configurations"],"for every value of every type and every unit",
"Week, decade and century starts around year ends and BC years vary per value; tests pin a few.",
[C,TS,D,T,I],[("truncate_* family, date_to_iso_week, iso_week_to_date",C),("truncate of each type",TS)],["truncate"])
p("P26","Extracted fields are the true calendar and clock fields",
"Extracting a field returns exactly the calendar or clock component of the value: year with no year 0, decade, century, millennium, quarter, month, day, ISO week and ISO year, weekday, day of year, Julian day, hour, minute, and seconds in three scales with their fraction; for intervals the signed components and the epoch length. A unit the type does not support is an error.",
["inputs","configurations"],"for every value of every type and every unit",
"ISO weeks and years, BC decades and centuries differ per value; tests pin a few.",
[TS,D,T,I,C],[("date_part of each type",TS),("date_to_iso_week, date_to_iso_year, julian_to_week_day",C)],["date_part"])
p("P27","Results depend only on the arguments, not on history or threads",
"The result of every call depends only on its arguments: earlier calls (including failed ones), their order, the thread that makes the call, concurrent calls on other threads, the environment and the clock never change it.",
["histories","schedules"],"for every prior history of calls and every interleaving of threads",
"Parsing keeps per-thread lookup caches; stale or mismatched cache entries only matter after particular histories.",
[PA,TK],[("DATE_CACHE and DELTA_CACHE thread-local keyword caches",PA),("keyword search",TK)],["repeated calls under different histories and threads"])
p("P28","Serialisation round-trips every value in text and binary formats",
"With the serde feature, every supported date, time, timestamp and printable interval survives serialisation and deserialisation unchanged in human-readable formats (as its ISO text; intervals as SQL-standard text) and in binary formats (as its integers), including inside collections and self-describing formats. Malformed input, and input of the wrong type or integer width, is an error, never a panic or a different value.",
["inputs","configurations"],"for every value of every type and every data format",
"One unit test serialises one value per type; signs, BC years and integer widths change the encoded form.",
[S],[("Serialize/Deserialize impls",S)],["serde_json, bincode and CBOR round trips"])
p("P29","Operations on valid values never panic and agree across build profiles",
"For all valid values and arbitrary arguments, arithmetic, comparison, conversion, formatting, truncation and extraction return a value or an error: they never panic, overflow silently or loop, and a debug build and a release build return the same result. Only the + operator on intervals, documented as unchecked, panics on overflow.",
["inputs","histories"],"for every valid value, every argument value and every operation",
"Overflow panics in debug and wraps in release only at extreme operands.",
[D,T,TS,I,C],[("checked arithmetic in all value operations",TS)],["all value operations in two build profiles"])
p("P30","Letter case and spacing do not change the meaning of text",
"Changing the letter case of words (month and weekday names, units, AM/PM, AD/BC, keywords) or adding blanks around and between fields never changes whether date, time, timestamp or traditional interval text is accepted or the value it denotes. Month and weekday names are recognised in full and abbreviated form.",
["inputs"],"for every accepted text and every case and spacing variant",
"The variants of one text are exponentially many; tests use one spelling each.",
[PA,TK],[("lower-casing tokenizer, whitespace skipping",PA),("keyword tables",TK)],["try_from_str on variants"])
p("P31","Unambiguous dates read the same under every field order",
"A date whose fields identify themselves - year first with three or more digits, a month name with a year of three or more digits, compact eight-digit form, day-of-year or Julian day form - denotes the same day under every field order setting. An ambiguous date is either read in the configured order or rejected, never silently read in another order.",
["inputs","configurations"],"for every date, every self-identifying spelling and every pair of field orders",
"The interaction of field order with each spelling and value range is a product space tests sample once or twice.",
[PA],[("decode_number field-order decisions",PA)],["try_from_str under all field orders"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
