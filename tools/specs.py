"""the properties: titles, statements and anchors"""

NOT_APPLICABLE = {}

IN, HI, CO = "inputs", "histories", "configurations"

SPECS = [
    dict(
        id="P01", title="Only valid timespans can exist, and a rejected change changes nothing",
        statement="An event or todo can only ever hold a valid combination of begin, end and duration: never both an end and a duration, no duration without a begin, "
        "no negative duration, no end before its begin, no mix of floating and zoned times, and whole days without a zone when all-day. "
        "Every valid combination is accepted, every other one is refused with an error, and a refused assignment leaves the entry exactly as it was.",
        over=[IN, HI], text="every value of begin, end, duration and precision, and every single assignment or conversion from every valid state",
        why="the tests try a few hand-picked combinations; validity is a condition on all combinations of four values and on every step of every history",
        files=["src/ics/timespan.py", "src/ics/event.py", "src/ics/todo.py"],
        mechanism=[("timespan validation", "src/ics/timespan.py:Timespan.validate"), ("setters", "src/ics/event.py:CalendarEntryAttrs")],
    ),
    dict(
        id="P02", title="Begin, end and duration always agree with each other",
        statement="At any time the begin, end and duration that an event or todo reports satisfy begin + duration = end, and a missing end of an event counts as its "
        "begin (all-day: one day later). Setting one of the three gives back exactly the value that was set and keeps the others as documented, "
        "and converting between an explicit end and a duration (in either direction) changes neither begin, end nor duration.",
        over=[IN, HI], text="every valid state, every new begin, end or duration, and every conversion of the representation",
        why="the tests check single examples of each setter; the relation has to hold in every state after every change",
        files=["src/ics/timespan.py", "src/ics/event.py", "src/ics/todo.py", "src/ics/utils.py"],
        mechanism=[("effective end and duration", "src/ics/timespan.py:Timespan.get_effective_end"), ("end conversion", "src/ics/timespan.py:Timespan.convert_end")],
    ),
    dict(
        id="P03", title="Making an entry all-day covers exactly the days it touched",
        statement="Making a timed entry all-day yields whole days without a zone that start on the day of its begin and contain every moment of it, with no day more than needed "
        "(at least one day for events). It keeps whether the entry has no end, an end or a duration; repeating it changes nothing, and it can be undone to a timed "
        "entry covering the same days.",
        over=[IN], text="every timed entry with any begin and any end or duration",
        why="rounding errors only show at particular times of day and lengths; the tests use round values",
        files=["src/ics/timespan.py", "src/ics/event.py", "src/ics/utils.py"],
        mechanism=[("make_all_day", "src/ics/timespan.py:Timespan.make_all_day"), ("rounding", "src/ics/utils.py:ceil_datetime_to_midnight")],
    ),
    dict(
        id="P04", title="Ordering of entries is a total chronological order",
        statement="Any two events, todos or timespans can be compared, whether their times are floating, zoned, all-day or missing. The order is by begin, then end (for todos by "
        "due time first), then summary, with floating times taken as local times; the four comparison operators agree with each other and the order is transitive.",
        over=[IN, CO], text="every pair of entries and every UTC offset of the local zone",
        why="a total order is a statement about all pairs; tests compare a handful of hand-made events in one time zone",
        files=["src/ics/timespan.py", "src/ics/event.py", "src/ics/todo.py"],
        mechanism=[("comparison keys", "src/ics/timespan.py:Timespan.cmp_tuple"), ("operators", "src/ics/event.py:CalendarEntryAttrs.__lt__")],
    ),
    dict(
        id="P05", title="Interval relations agree with the intervals on the time line",
        statement="Starting within, ending within, intersecting, including and being included in give exactly the answer that follows from begin and end of both entries on the time "
        "line (ends are exclusive, so entries that only touch do not intersect; an entry without duration counts as its one moment). Inclusion and being included are each "
        "other's converse, intersection is symmetric, and the answer is the same for an entry and for its timespan.",
        over=[IN, CO], text="every pair of events, todos, timespans or instants, zoned, floating or all-day, and every UTC offset of the local zone",
        why="there are many kinds of relative position at exact boundaries; the tests only sample some",
        files=["src/ics/timespan.py", "src/ics/event.py"],
        mechanism=[("relations", "src/ics/timespan.py:Timespan.intersects"), ("instants", "src/ics/timespan.py:Timespan.includes")],
    ),
    dict(
        id="P06", title="Iterating a timeline is complete and chronological",
        statement="Iterating the timeline of a calendar yields every event that has a begin exactly once and no other event, in chronological order. This also holds for a normalized "
        "timeline, for calendars mixing floating, zoned and all-day events, and after events were added, changed or removed. Events with the same times (even with the same UID) all "
        "appear, ordered by their summary.",
        over=[IN, HI, CO], text="every calendar with up to a few arbitrary events and every normalization",
        why="the result depends on the relative order of all events and on the heap; tests use a few fixed calendars",
        files=["src/ics/timeline.py", "src/ics/timespan.py", "src/ics/icalendar.py"],
        mechanism=[("heap iteration", "src/ics/timeline.py:Timeline.iterator")],
    ),
    dict(
        id="P07", title="Timeline queries select exactly the matching events",
        statement="Asking a timeline for the events at an instant, now, today, on a day, between two times (overlapping or included) or starting after an instant returns exactly the "
        "events that satisfy the condition, in chronological order. A day lasts from midnight until the next midnight, exclusive, in the zone of the given instant.",
        over=[IN, CO], text="every event, every query instant, day or range, every current time and local UTC offset",
        why="errors show at exact boundaries and for mixes of floating and zoned times; the tests sample few of them",
        files=["src/ics/timeline.py", "src/ics/timespan.py"],
        mechanism=[("queries", "src/ics/timeline.py:Timeline.on"), ("selection", "src/ics/timespan.py:Timespan.is_included_in")],
    ),
    dict(
        id="P08", title="Normalization touches exactly the times it is asked to",
        statement="Normalizing replaces or converts the zone of exactly those floating and zoned times for which this was requested and leaves all others unchanged: converting keeps the "
        "moment, replacing keeps the wall clock time. Missing times stay missing, durations stay the same, all-day entries of a calendar are not changed, and everything "
        "else of an entry stays as it was.",
        over=[IN, CO], text="every time, timespan, event, todo or calendar, all combinations of actions, every target offset",
        why="the combinations of actions, kinds of values and offsets are many; tests cover single examples",
        files=["src/ics/timespan.py", "src/ics/icalendar.py"],
        mechanism=[("Normalization", "src/ics/timespan.py:Normalization.normalize"), ("calendar", "src/ics/icalendar.py:Calendar.normalize")],
    ),
    dict(
        id="P09", title="A time zone gives the offset of the observance in effect",
        statement="For any local time, the UTC offset, daylight saving amount and name that a time zone reports are those of the observance with the latest onset not after that time (before "
        "all onsets: of the first standard observance), where in a repeated hour the fold decides and the answers do not depend on earlier questions. "
        "Converting from UTC to a zone and back gives the same instant for every instant.",
        over=[IN, HI, CO], text="every set of observances and onsets, every local time with either fold, every history of questions",
        why="errors hide in single hours around transitions, in the cache and in the order of observances; tests look at a few dates of a few zones",
        files=["src/ics/timezone/__init__.py"],
        mechanism=[("observance lookup", "src/ics/timezone/__init__.py:Timezone._find_observance_cachable")],
    ),
    dict(
        id="P10", title="UTC-only times are held in UTC and keep their moment",
        statement="The times of creation, modification and of the stamp of an entry always hold the moment they were given, expressed in UTC; floating values are taken as local times. "
        "Default stamps are the current time in UTC. Recognition and validation of UTC accept exactly times in UTC, in whichever of the supported ways they are expressed.",
        over=[IN, CO], text="every time given as a datetime, date or tuple, every offset, every clock value and local zone offset",
        why="tests use a few times in one zone",
        files=["src/ics/timezone/__init__.py", "src/ics/event.py", "src/ics/types.py"],
        mechanism=[("ensure_utc", "src/ics/timezone/__init__.py:ensure_utc"), ("is_utc", "src/ics/timezone/__init__.py:is_utc")],
    ),
    dict(
        id="P11", title="Text values survive escaping",
        statement="Every text, with any characters including backslashes, commas, semicolons and newlines, is read back exactly as it was written. A written text never contains an unescaped "
        "separator or line break, so that it cannot run into a neighbouring value or line. Any value text is either decoded according to the escaping rules or refused with an error.",
        over=[IN], text="every text and every raw value text",
        why="escaping goes wrong for particular neighbouring characters; tests contain some of them",
        files=["src/ics/valuetype/text.py"],
        mechanism=[("escape", "src/ics/valuetype/text.py:TextConverterClass.escape_text"), ("unescape", "src/ics/valuetype/text.py:TextConverterClass.unescape_text_iter")],
    ),
    dict(
        id="P12", title="Lists of texts keep their items apart",
        statement="A list of texts written as one value is read back as the same texts in the same order, whatever commas, backslashes or newlines they contain. "
        "This holds for the categories of an event, together with the other attributes of the event.",
        over=[IN], text="every list of texts",
        why="tests use lists of plain words",
        files=["src/ics/valuetype/text.py", "src/ics/converter/value.py"],
        mechanism=[("split and join", "src/ics/valuetype/text.py:TextConverterClass.split_value_list")],
    ),
    dict(
        id="P13", title="Content lines survive writing and parsing",
        statement="A line of name, parameters and value is read back with the same name, the same parameter values in the same order and the same value, whichever separators, quotes, carets "
        "or newlines the parameter values contain. Any line of text is parsed according to the grammar (the first colon outside quotes starts the value) or refused with "
        "the documented parse error, never with another one.",
        over=[IN], text="every name, parameter value and value, and every raw line",
        why="separators can occur in every position; tests use a fixed list of lines",
        files=["src/ics/contentline/container.py", "src/ics/contentline/parser.py"],
        mechanism=[("writer", "src/ics/contentline/container.py:ContentLine._serialize_iter_unwrapped"), ("parser", "src/ics/contentline/parser.py:ContentLineParser")],
    ),
    dict(
        id="P14", title="Folding long lines loses nothing",
        statement="A line of any length is folded into lines that are no longer than the requested width, each continuation starting with a blank, and unfolding gives back exactly the original "
        "characters, including blanks and tabs at the folds. Text is split into lines only at line feeds (with or without carriage return), never at other Unicode line separators, "
        "and continuation lines are joined wherever they occur.",
        over=[IN], text="every line content, width and fold position",
        why="blanks can fall on either side of every fold position; tests fold a few texts",
        files=["src/ics/contentline/container.py", "src/ics/contentline/parser.py"],
        mechanism=[("fold", "src/ics/contentline/container.py:ContentLine.serialize_iter"), ("unfold", "src/ics/contentline/parser.py:ParserClass.unfold_lines")],
    ),
    dict(
        id="P15", title="Component nesting is parsed exactly or refused",
        statement="Any sequence of begin, end and property lines is read as the tree of components it denotes when begins and ends match, and refused with a parse error otherwise. "
        "A tree of components that is written is read back as an equal tree, with items in the same order and nothing lost.",
        over=[IN], text="every sequence of lines and every tree of components",
        why="the number of sequences is unbounded; tests contain a few good and a few broken files",
        files=["src/ics/contentline/parser.py", "src/ics/contentline/container.py"],
        mechanism=[("nesting", "src/ics/contentline/parser.py:ParserClass.contentlines_to_container"), ("writer", "src/ics/contentline/container.py:Container.serialize_iter")],
    ),
    dict(
        id="P16", title="Date and time values survive writing and parsing",
        statement="Every date, time of day and date-time of whole seconds, floating, in UTC or in a zone, is written in the fixed-width form of the standard and read back as the same value with the same zone. "
        "Any text is either read as exactly the date or time its digits denote, or refused with a value error.",
        over=[IN, CO], text="every date of the years 1 to 9999 and every second of the day; every text over the format's characters",
        why="errors are confined to particular months, years or digits; tests convert a few dates",
        files=["src/ics/valuetype/datetime.py"],
        mechanism=[("conversion", "src/ics/valuetype/datetime.py:DatetimeConverterMixin")],
    ),
    dict(
        id="P17", title="Durations survive writing and parsing",
        statement="Every duration of whole seconds, positive, negative or zero, is written as a well-formed duration and read back as the same duration. "
        "Any text is either read as the duration it denotes by the grammar (weeks, days, hours, minutes, seconds and a sign), or refused with a value error, as every text that repeats a unit.",
        over=[IN], text="every duration, and every text over the format's characters",
        why="carries between units and combinations of units are many; tests convert a list of examples",
        files=["src/ics/valuetype/datetime.py"],
        mechanism=[("conversion", "src/ics/valuetype/datetime.py:DurationConverterClass")],
    ),
    dict(
        id="P18", title="UTC offsets survive writing and parsing",
        statement="Every UTC offset of whole seconds is written with its sign, hours and minutes (and seconds if there are any) and read back as the same offset. "
        "Any text is either read as the offset it denotes or refused with a value error.",
        over=[IN], text="every offset, and every text over the format's characters",
        why="negative offsets with minutes or seconds are easily off by an hour; tests convert few examples",
        files=["src/ics/valuetype/datetime.py"],
        mechanism=[("conversion", "src/ics/valuetype/datetime.py:UTCOffsetConverterClass")],
    ),
    dict(
        id="P19", title="Periods survive writing and parsing",
        statement="Every period given by begin and end or by begin and duration is written in the form of the standard and read back with the same begin and the same end or duration. "
        "Periods that cannot be written, because begin and end are in different zones, and incomplete or malformed periods are refused with a value error.",
        over=[IN, CO], text="every period, floating, in UTC or in a zone",
        why="the tests hardly touch periods",
        files=["src/ics/valuetype/datetime.py"],
        mechanism=[("conversion", "src/ics/valuetype/datetime.py:PeriodConverterClass")],
    ),
    dict(
        id="P20", title="Integers, booleans and binary data survive writing and parsing",
        statement="Every integer, boolean and sequence of bytes is written in the form of the standard and read back as the same value. "
        "Any text is either read as the value it denotes or refused with a value error.",
        over=[IN], text="every integer, boolean, sequence of bytes, and every short text",
        why="tests convert a few examples",
        files=["src/ics/valuetype/generic.py"],
        mechanism=[("conversion", "src/ics/valuetype/generic.py:BinaryConverterClass")],
    ),
    dict(
        id="P21", title="Definitions of time zones survive writing and parsing",
        statement="A zone that is written as VTIMEZONE and read again has the same identifier, address and time of the last modification, and the same observances in the same order: kind, offsets, name, "
        "comment, onsets and excluded dates. At every time it gives the same offset, daylight saving time and name as the onsets say (the last one that isn't later), whether they are dates or a "
        "yearly rule, also one with a count, interval or an end in local time or UTC; writing it again gives the same text. Definitions that lack or repeat a required property are refused with a value error.",
        over=[IN, CO], text="every combination of offsets, onsets, rules and ends, every queried time",
        why="tests read a few zones of the Olson database, without ends of rules",
        files=["src/ics/timezone/__init__.py", "src/ics/converter/types/timezone.py", "src/ics/converter/types/various.py", "src/ics/rrule.py", "src/ics/valuetype/datetime.py"],
        mechanism=[("zones", "src/ics/timezone/__init__.py:Timezone"), ("recurrences", "src/ics/converter/types/various.py:RecurrenceConverter")],
    ),
    dict(
        id="P22", title="Events and todos survive writing and parsing",
        statement="An event or todo that is written and read again has the same begin, end, duration, all-day flag, zone, texts, stamps, status (also those that only todos have), transparency, priority, percentage and attachments, and nothing "
        "set that was not set. Writing it again gives the same text. An entry that was read can be changed like a new one.",
        over=[IN, CO, HI], text="every combination of times in every representation, and every value of the attributes",
        why="attributes interact (end and duration, precision, zone); tests read a few files",
        files=["src/ics/converter/types/timespan.py", "src/ics/converter/value.py", "src/ics/converter/component.py", "src/ics/event.py", "src/ics/todo.py"],
        mechanism=[("timespans", "src/ics/converter/types/timespan.py:TimespanConverter"), ("attributes", "src/ics/converter/value.py:AttributeValueConverter")],
    ),
    dict(
        id="P23", title="Unknown properties, components and parameters are kept",
        statement="Reading a calendar, event, todo, alarm or time zone keeps every property and component it doesn't know, with name, parameters, value and order, and every parameter "
        "it doesn't know of the properties it knows, lists on several lines included. All of it is written again, once each. Changing the value of a known property keeps its unknown parameters, "
        "and never makes the entry impossible to write.",
        over=[IN, CO, HI], text="every name and value of unknown parts, before, between and after the known ones",
        why="there are infinitely many unknown names; the tests read files with a few of them",
        files=["src/ics/converter/component.py", "src/ics/converter/value.py", "src/ics/converter/types/timespan.py", "src/ics/component.py"],
        mechanism=[("unknown parts", "src/ics/converter/component.py:ComponentMeta.populate_instance"), ("unknown parameters", "src/ics/converter/value.py:AttributeValueConverter")],
    ),
    dict(
        id="P24", title="Calendars keep their entries independent and define their time zones",
        statement="A calendar that is written and read again has the same events and todos in the same order, each exactly as if it had been written and read alone. Every zone used by an entry is defined "
        "once, before its use; after reading, zoned times have the same wall clock time and offset as before, the file's own definition having priority wherever it stands. Calendars in one file are read "
        "separately, and anything else than exactly one calendar is refused by the constructor.",
        over=[IN, CO], text="every combination of entries with and without texts, times and zones",
        why="state leaking between entries (zone, context, lists) depends on combinations; tests mostly have single entries",
        files=["src/ics/icalendar.py", "src/ics/converter/special.py", "src/ics/converter/component.py", "src/ics/converter/value.py", "src/ics/timezone/converters.py"],
        mechanism=[("zones of a calendar", "src/ics/icalendar.py:CalendarTimezoneConverter"), ("parsing", "src/ics/icalendar.py:Calendar.parse_multiple")],
    ),
    dict(
        id="P25", title="Alarms survive writing and parsing, alone and inside of entries",
        statement="An alarm that is written and read again is of the same kind with the same action, trigger (relative or absolute, floating or UTC, with its relation), repetitions, interval, texts, recipients and "
        "attachments, also for custom actions, and is written the same again. The alarms of an event or todo keep their order and belong to that entry only, and their properties do not get mixed up with "
        "those of the entry. An alarm without exactly one action is refused.",
        over=[IN, CO], text="every kind of alarm with every trigger, repetition and text, alone and in every kind of entry",
        why="alarms share property names (DURATION, SUMMARY, DESCRIPTION, ATTACH) with entries; tests write a few fixed ones",
        files=["src/ics/alarm.py", "src/ics/converter/types/various.py", "src/ics/converter/value.py"],
        mechanism=[("actions", "src/ics/converter/types/various.py:AlarmActionConverter"), ("choice of the kind", "src/ics/converter/types/various.py:AlarmMeta.load_instance")],
    ),
    dict(
        id="P26", title="Attendees and organizers survive writing and parsing",
        statement="An event's organizer and attendees that are written and read again have the same address, the same name, role, status, RSVP, membership, delegations and other attributes, the same "
        "unknown parameters, and the same order. Attributes that are not set have their documented defaults; removing one removes it from the file. Persons never share or lose their parameters, and an address is one value whatever it contains.",
        over=[IN, CO], text="every single attribute and every pair of them with every value the format can hold",
        why="every attribute is a parameter with its own conversion; tests check few of them",
        files=["src/ics/attendee.py", "src/ics/valuetype/special.py", "src/ics/valuetype/generic.py", "src/ics/converter/value.py"],
        mechanism=[("attributes", "src/ics/attendee.py:PersonProperty"), ("conversion", "src/ics/valuetype/special.py:PersonConverter")],
    ),
    dict(
        id="P27", title="Assignments are validated like constructor arguments",
        statement="Assigning an attribute of a calendar, event, todo, alarm or content line has the same outcome as passing the value to the constructor: the same conversion (upper case, UTC, lists, durations), or the same error for "
        "values that are not allowed (states, percentages, priorities, missing stamps, foreign timespans, triggers and organizers, wrong types), and then the old value stays. This also holds for subclasses defined by a user, "
        "with and without own attributes, whatever class was used before, and for values read from a file.",
        over=[IN, CO, HI], text="every attribute of every class with values of every kind, and subclasses",
        why="tests assign a few values to library classes; the rule has to hold for every attribute and value, and for classes they can't know",
        files=["src/ics/types.py", "src/ics/event.py", "src/ics/todo.py", "src/ics/icalendar.py", "src/ics/alarm.py", "src/ics/component.py"],
        mechanism=[("assignments", "src/ics/types.py:RuntimeAttrValidation.__setattr__")],
    ),
    dict(
        id="P28", title="Containers behave like lists that hold lines and containers only",
        statement="Every operation on a container (adding, inserting, replacing, deleting and getting by index, slice or name, extending, reversing, clearing) has the result of the same operation on a list of its items; it never "
        "holds anything but content lines and containers, and an operation with another object raises TypeError and changes nothing. Access by name gives exactly the items of that name in order, "
        "copies never share their list, and names are not empty and in upper case.",
        over=[IN, HI], text="every operation with every index, slice and kind of item on containers of up to 3 items",
        why="tests try few operations; half-done changes only show after an error in the middle of a list",
        files=["src/ics/contentline/container.py"],
        mechanism=[("operations", "src/ics/contentline/container.py:Container")],
    ),
    dict(
        id="P29", title="Copies are exact and independent",
        statement="A clone of a calendar, event, todo, alarm, time zone, content line or container is of the same type, equal to the original and written as the same text, with the same unknown properties and parameters. "
        "Changing attributes, lists, unknown properties or parameters of one of them, or stripping them, never changes the other, and the timeline of a copied calendar shows the copy's events. "
        "Deep copies of containers share nothing with the original. Items of lists are shared, as documented.",
        over=[IN, CO, HI], text="every kind of component with arbitrary content, and every change of the original or the copy",
        why="tests clone a few objects and change little afterwards",
        files=["src/ics/component.py", "src/ics/contentline/container.py", "src/ics/icalendar.py"],
        mechanism=[("copies", "src/ics/component.py:Component.clone"), ("stripping", "src/ics/component.py:Component.strip_extras")],
    ),
    dict(
        id="P30", title="Scoped settings apply inside of their scope only",
        statement="The line width and the fixed identifiers and stamps for new entries apply exactly inside of their with-block, also when nested, and the previous ones are restored however the block is left, by any error too, which is passed on. "
        "Lines are folded at the width of the scope (none or less than one: not folded) and unfold to the same text. "
        "Without a scope new entries get distinct identifiers and the current instant in UTC as their stamp; explicit values have priority.",
        over=[IN, HI, CO], text="every width, identifier and stamp, nesting, and way of leaving the block",
        why="leaks show only after an error inside of the block or when blocks are nested",
        files=["src/ics/contentline/container.py", "src/ics/event.py", "src/ics/utils.py", "src/ics/timezone/__init__.py"],
        mechanism=[("line width", "src/ics/contentline/container.py:contentline_set_wrap"), ("fixed data", "src/ics/event.py:deterministic_event_data")],
    ),
    dict(
        id="P31", title="The times in a file are taken as they are, or the entry is refused",
        statement="An event or todo in a file has exactly the begin, the end or due time and the duration of its lines, in whatever order they stand: as dates, floating, in UTC or in its zone. "
        "Lines that contradict each other are refused with a ValueError and never reinterpreted or dropped: an end and a duration, a date and a time, floating and zoned times, an end before the begin, "
        "a negative or (for dates) partial duration, an end or duration without the begin it needs, the same line twice, DTEND in a todo or DUE in an event. "
        "Every other combination is accepted, and the times of one entry never show up in another one.",
        over=[IN, CO], text="every combination, order and value of the time lines",
        why="tests read well-formed files; contradictions can be in any combination of four lines of four kinds each",
        files=["src/ics/converter/types/timespan.py", "src/ics/timespan.py"],
        mechanism=[("reading of times", "src/ics/converter/types/timespan.py:TimespanConverter.populate")],
    ),
    dict(
        id="P32", title="Zones of other libraries keep their meaning, or are refused",
        statement="A tzinfo of the standard library or of dateutil that is used in an entry, or converted with Timezone.from_tzinfo, yields a zone with the same offset at every instant: "
        "fixed offsets keep their offset and name whatever that name is, named zones (ZoneInfo, files of dateutil, names of zoneinfo or Windows, with or without a prefix) find the definition of this name, every notation of UTC is written as UTC, "
        "times of the process' local zone become floating times with the same wall clock. Times written this way are read back with the same wall clock and offset, once and again. "
        "A zone that cannot be expressed is refused with a ValueError, never written as another time, and conversions that share a context do not influence each other.",
        over=[IN, HI], text="every offset, name and instant, for every kind of tzinfo",
        why="tests convert a handful of zones at single times; a wrong answer moves appointments only for some names, offsets or parts of the year",
        files=["src/ics/timezone/converters.py", "src/ics/timezone/__init__.py", "src/ics/valuetype/datetime.py"],
        mechanism=[("conversion", "src/ics/timezone/converters.py:Timezone_from_tzinfo"), ("recognition of UTC", "src/ics/timezone/__init__.py:is_utc"), ("writing", "src/ics/valuetype/datetime.py:DatetimeConverterMixin._serialize_dt")],
    ),
    dict(
        id="P33", title="Everything is read or refused, and what is read can be written and read again",
        statement="Reading any text as a calendar, event, todo, alarm or time zone either succeeds or raises a ValueError or ParseError: never another exception, whatever values, parameters, properties or components stand where, "
        "how often and in which order. What was read can be written, what was written can be read, and writing that again yields the same text, so nothing is lost, changed or refused when files are passed on repeatedly.",
        over=[IN, CO], text="every property of every component with arbitrary short and slightly damaged values, every pair of lines, every misplaced name",
        why="the input comes from other programs; tests feed well-formed files and a few broken ones",
        files=["src/ics/component.py", "src/ics/icalendar.py", "src/ics/converter/value.py", "src/ics/converter/types/various.py", "src/ics/converter/types/timespan.py", "src/ics/converter/types/timezone.py", "src/ics/valuetype/datetime.py"],
        mechanism=[("reading of components", "src/ics/component.py:Component.from_container"), ("reading of values", "src/ics/converter/value.py:AttributeValueConverter.populate"), ("calendars", "src/ics/icalendar.py:Calendar.__init__")],
    ),
    dict(
        id="P34", title="Equality is equality of content",
        statement="Two events, todos, calendars, alarms, people, lines, components, timespans, recurrence rules or zones are equal if and only if they are of the same type and everything in them is equal: every attribute, every unknown property, component "
        "and parameter, every part of every recurrence rule. Their place in a file and quotes around parameters do not matter. Equality is symmetric, the opposite of inequality, and never fails, whatever is compared.",
        over=[IN], text="two objects that differ in one arbitrary attribute, in arbitrary values",
        why="programs synchronise calendars by comparing entries: a field that is left out of the comparison loses changes, one that always differs duplicates them; tests compare a few entries that are equal",
        files=["src/ics/event.py", "src/ics/todo.py", "src/ics/alarm.py", "src/ics/attendee.py", "src/ics/component.py", "src/ics/rrule.py", "src/ics/timespan.py", "src/ics/timezone/__init__.py", "src/ics/contentline/container.py"],
        mechanism=[("recurrence rules", "src/ics/rrule.py:rrule_eq"), ("sets of recurrences", "src/ics/rrule.py:rruleset_eq"), ("lines", "src/ics/contentline/container.py:ContentLine"), ("entries", "src/ics/event.py:CalendarEntryAttrs")],
    ),
    dict(
        id="P35", title="Lines and errors know their place in the file",
        statement="Every line that is read has the number of the physical line it begins at, counted from zero, however lines are folded, whichever line ends are used and wherever empty lines are. "
        "A malformed line raises a ParseError with its number, its unfolded text and a place inside of that text, all of which the message tells; everything that was complete before it is still delivered by the iterator. "
        "A text and its lines, with or without line ends, as a list or an iterator, give the same result, and lines that were not split properly are refused.",
        over=[IN, CO], text="every sequence of lines, continuations, empty and malformed lines and components up to a length, with every line end",
        why="numbers shift only for certain mixtures of folded, empty and malformed lines; tests look at the texts, hardly ever at the numbers",
        files=["src/ics/contentline/parser.py", "src/ics/contentline/container.py", "src/ics/contentline/__init__.py"],
        mechanism=[("unfolding", "src/ics/contentline/parser.py:ParserClass.unfold_lines"), ("parsing of lines", "src/ics/contentline/parser.py:ContentLineParser"), ("errors", "src/ics/contentline/container.py:ParseError")],
    ),
    dict(
        id="P36", title="Every entry can be shown, with its times, without being changed",
        statement="str() of an event, todo, timespan, calendar, zone, line or component never fails and changes nothing. For an entry it tells its kind, its summary, its begin, its end or due time and its length, marks which of end and duration was set, "
        "shows dates only if it is all-day, and says whether it is all-day or floating. A calendar shows the numbers of its events and todos, components show all their lines.",
        over=[IN], text="every valid combination of times of an entry, every short text",
        why="a todo without begin, an all-day entry or an entry without times take different ways through the code; tests show a few entries",
        files=["src/ics/timespan.py", "src/ics/event.py", "src/ics/icalendar.py", "src/ics/contentline/container.py", "src/ics/utils.py"],
        mechanism=[("parts of the text", "src/ics/timespan.py:Timespan.get_str_segments"), ("entries", "src/ics/event.py:CalendarEntryAttrs.__str__"), ("calendars", "src/ics/icalendar.py:Calendar.__str__")],
    ),
]
