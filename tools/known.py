"""writes known-findings.json (the file is committed; no check ever writes it)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("P01", "abed2b2", "unset_all_day set the unknown precision 'seconds', so every later use of the entry failed (also P03)"),
    ("P01", "b3d6f87", "mixing floating and zoned begin and end raised TypeError from the comparison instead of the documented ValueError"),
    ("P02", "9dae85e", "convert_end('duration') of a todo with a due time but no begin dropped the due time"),
    ("P05", "3acd697", "interval relations of todos used the order (due, begin) as (begin, end)"),
    ("P05", "3754831", "timespans that only touch were reported as intersecting"),
    ("P06", "23e0370", "iterating a normalized timeline with all-day events raised"),
    ("P07", "a76baa7", "Timeline.start_after raised TypeError for mixes of floating and zoned times"),
    ("P07", "d926e77", "Timeline.on covered two days when asked strictly or missed the last second"),
    ("P07", "97f825f", "Timeline.now used the UTC wall clock as local time"),
    ("P10", "35d2d01", "validate_utc compared with the datetime module instead of the class and always raised TypeError"),
    ("P09", "5681746", "the cache of time zones ignored the fold, so the second question in a repeated hour got the first one's answer"),
    ("P09", "948d45f", "dst and tzname without a date raised for zones with several observances"),
    ("P13", "ca73307", "empty parameter values were written unquoted, which the parser refuses"),
    ("P16", "295a565", "UTC times of day were not recognized as UTC"),
    ("P16", "21ecc4f", "years before 1000 were written with fewer than four digits"),
    ("P17", "7b825b3", "truncated durations raised IndexError or were accepted instead of ValueError"),
    ("P16", "bae690f", "empty dates and times raised IndexError instead of ValueError"),
    ("P19", "8bf14d7", "periods were not parsed at all (TypeError)"),
    ("P22", "f269fb6", "an entry without times had the precision None after parsing, so that it could not be made all-day"),
    ("P23", "85ad4cc", "unknown parameters of DTEND and DUE were dropped"),
    ("P25", "f9b94cb", "custom alarms wrote ACTION twice, so that they could not be read again"),
    ("P29", "162ac04", "clone dropped unknown properties and parameters, or shared them with the original"),
    ("P28", "831e03b", "containers kept the items they had just rejected with a TypeError"),
    ("P27", "44ca8ea", "assignments to attributes of user-defined subclasses were not validated"),
    ("P23", "52dec90", "multi-valued attributes with parameters that were changed after parsing could not be written (IndexError)"),
    ("P24", "ae99e49", "iterating a calendar split its lines at unicode line separators inside of texts"),
    ("P10", "7b3e67b", "a fixed offset that is named UTC, but isn't zero, was written as UTC"),
    ("P26", "d2221eb", "quoted URI parameters of attendees and organizers (SENT-BY, DIR, MEMBER, ...) could not be read (AttributeError)"),
    ("P26", "8df1ffd", "addresses and attached URLs with a comma were split into two values (also P22)"),
    ("P07", "3fb6a42", "lengths with a fraction of more than half a second were refused, so that Timeline.overlapping(now, later) raised ValueError (also P01)"),
    ("P29", "9075078", "deep copies of containers shared the items of nested containers with the original"),
    ("P29", "c2e0037", "stripping or changing the parameters of a clone changed the original"),
    ("P21", "5e4202b", "zones with a rule that ends at a UTC time (RFC 5545 requires that in VTIMEZONE, and its own examples do it) could not be read"),
    ("P21", "f81653c", "a zone observance without DTSTART, RDATE and RRULE was refused with a KeyError"),
    ("P31", "583decc", "a todo with both DTEND and DUE was accepted and one of them silently dropped"),
    ("P32", "c89efd1", "own tzinfo classes and tzoffset, tzrange and tzical zones of dateutil raised an AttributeError when they were converted or written"),
    ("P32", "3de378b", "a zone that is only named UTC (for example datetime.timezone(+1h, 'UTC') after writing and reading) was written as UTC, one hour off"),
    ("P33", "e852862", "a component in place of a property, or a property in place of a component, raised AssertionError or AttributeError"),
    ("P33", "0f883d2", "durations beyond the range of timedelta raised OverflowError"),
    ("P33", "7e0e22c", "Calendar.parse_multiple raised KeyError for lines outside of calendars"),
    ("P33", "b6948ee", "observances whose recurrences mix floating and UTC times or have too large numbers raised TypeError or OverflowError"),
    ("P22", "e6a0406", "todos with the status values that RFC 5545 defines for them (NEEDS-ACTION, IN-PROCESS, COMPLETED) were refused, so that files with completed todos could not be read (also P27)"),
]
FINDINGS = [
    dict(
        id="same-tzid", property="P24", case="same_name", inputs={"a": 0, "b": 1},
        what="two different zones of the same name in one calendar (for example after merging calendars): only one is written, so the times of the other get a wrong offset",
    ),
    dict(
        id="url-unescaped", property="P22", case="url_file", inputs={"s": [44]},
        what="the URL of an event is read as TEXT, so a URL with a comma, semicolon or backslash, which other programs do not escape, is refused",
    ),
]

with open(os.path.join(ROOT, "known-findings.json"), "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=[f"fixed: property={p} {c} {w}" for p, c, w in FIXED]), f, indent=1)
    f.write("\n")
