"""Realistic bugs, one entry per /verif/seeded/<id>. Written from the text of the
properties and the code of ics-py only. See plant.py."""
BUGS = {}

def bug(bid, prop, edits, demo, needs, what, env=""):
    if isinstance(edits, tuple):
        edits = [edits]
    assert bid not in BUGS
    BUGS[bid] = dict(prop=prop, edits=edits, demo=demo, needs=needs, what=what, env=env)

IMP = """
from datetime import datetime, date, time, timedelta, timezone
import ics
from ics import *
"""

# ---------------------------------------------------------------- P01
bug("p01-allday-subsecond", "P01", ("timespan.py",
    "                if floor_datetime_to_midnight(value) != value:\n",
    "                if value - floor_datetime_to_midnight(value) >= TIMEDELTA_CACHE[\"second\"]:\n"),
    IMP + """
from ics.timespan import EventTimespan
try:
    EventTimespan(datetime(2020, 1, 1, 0, 0, 0, 500), precision="day")
except ValueError:
    pass
else:
    raise SystemExit("all-day timespan with a time of day was accepted")
""", "an all-day begin less than a second after midnight", "all-day timespans that don't begin at midnight are accepted")

# ---------------------------------------------------------------- P02
bug("p02-zero-duration", "P02", ("timespan.py",
    """    def get_effective_duration(self) -> Optional[timedelta]:
        if self.duration is not None:
""",
    """    def get_effective_duration(self) -> Optional[timedelta]:
        if self.duration:
"""),
    IMP + """
t = Todo(begin=datetime(2020, 1, 1, 10), duration=timedelta(0))
assert t.duration == timedelta(0), t.duration
assert t.due == datetime(2020, 1, 1, 10), t.due
""", "a todo with an explicit duration of zero", "the duration that was set is not reported, due is lost")

bug("p02-convert-mixed", "P02", ("timespan.py",
    "            return self.replace(end_time=None, duration=self.get_effective_duration())\n",
    "            return self.replace(\n"
    "                end_time=None,\n"
    "                duration=self.end_time.replace(tzinfo=self.begin_time.tzinfo)\n"
    "                - self.begin_time,\n"
    "            )\n"),
    IMP + """
A, B = timezone.utc, timezone(timedelta(hours=-3))
e = Event(begin=datetime(2020, 1, 1, 10, tzinfo=A), end=datetime(2020, 1, 1, 10, tzinfo=B))
d, end = e.duration, e.end
e.convert_end("duration")
assert e.duration == d, (e.duration, d)
assert e.end == end
""", "an end in another zone than the begin, then conversion to a duration", "converting the representation changes the end")

# ---------------------------------------------------------------- P03
bug("p03-ceil-subsecond", "P03", ("utils.py",
    "    if floored != value:\n        return floored + TIMEDELTA_DAY\n",
    "    if value - floored >= TIMEDELTA_SECOND:\n        return floored + TIMEDELTA_DAY\n"),
    IMP + """
e = Event(begin=datetime(2020, 1, 1, 10), end=datetime(2020, 1, 2, 0, 0, 0, 1))
e.make_all_day()
assert e.end == datetime(2020, 1, 3), e.end
""", "an end less than a second after midnight", "the last touched day is not covered")

# ---------------------------------------------------------------- P04
bug("p04-le-summary", "P04", ("event.py",
    "            return self.cmp_tuple() <= other.cmp_tuple()\n",
    "            return self.timespan <= other.timespan\n"),
    IMP + """
b = datetime(2020, 1, 1, 10)
x, y = Event("b", begin=b), Event("a", begin=b)
assert (x <= y) == (not x > y)
assert not x <= y and y <= x
""", "two entries with the same times and different summaries", "<= and > are both true")

# ---------------------------------------------------------------- P05
bug("p05-empty-at-begin", "P05", ("timespan.py",
    "            or first.begin <= second.begin < first.end\n",
    "            or first.begin < second.begin < first.end\n"),
    IMP + """
b = datetime(2020, 1, 1, 10)
x, y = Event(begin=b, end=b + timedelta(hours=1)), Event(begin=b)
assert x.intersects(y) == y.intersects(x)
assert x.intersects(y)
""", "an entry of zero length at the begin of the other one, asked in one direction only", "intersection isn't symmetric")

bug("p05-includes-floating", "P05", ("timespan.py",
    "            other = CMP_NORMALIZATION.normalize(other)\n",
    "            other = other.replace(tzinfo=other.tzinfo or first.begin.tzinfo)\n"),
    IMP + """
Z = timezone(timedelta(hours=9))
e = Event(begin=datetime(2020, 1, 1, 10), end=datetime(2020, 1, 1, 11))
assert e.includes(datetime(2020, 1, 1, 10, 30))
z = Event(begin=datetime(2020, 1, 1, 10, tzinfo=Z), end=datetime(2020, 1, 1, 11, tzinfo=Z))
# local time is UTC: 01:30 floating is 10:30 in Z
assert z.includes(datetime(2020, 1, 1, 1, 30))
assert not z.includes(datetime(2020, 1, 1, 10, 30))
""", "a floating instant asked of a zoned entry", "the instant is taken in the zone of the entry instead of local time", env="TZ=UTC")

# ---------------------------------------------------------------- P06
bug("p06-same-uid", "P06", ("timeline.py",
    "        while heap:\n            yield heapq.heappop(heap)\n",
    "        seen = set()\n"
    "        while heap:\n"
    "            timespan, event = heapq.heappop(heap)\n"
    "            if (event.uid, timespan) not in seen:\n"
    "                seen.add((event.uid, timespan))\n"
    "                yield timespan, event\n"),
    IMP + """
b = datetime(2020, 1, 1, 10)
c = Calendar(events=[Event("a", begin=b, uid="1"), Event("b", begin=b, uid="1")])
assert [e.summary for e in c.timeline] == ["a", "b"]
""", "two events with the same uid and the same times", "one of them is missing from the timeline")

bug("p06-insertion-order", "P06", ("timeline.py",
    "        heap = [t for t in heap if t[0]]\n        heapq.heapify(heap)\n        while heap:\n            yield heapq.heappop(heap)\n",
    "        entries = [t for t in heap if t[0]]\n"
    "        heap = [(t, nr) for nr, (t, _) in enumerate(entries)]\n"
    "        heapq.heapify(heap)\n"
    "        while heap:\n"
    "            yield entries[heapq.heappop(heap)[1]]\n"),
    IMP + """
b = datetime(2020, 1, 1, 10)
c = Calendar(events=[Event("b", begin=b), Event("a", begin=b)])
assert [e.summary for e in c.timeline] == ["a", "b"]
""", "events with the same times, added in another order than their summaries", "the iteration contradicts the order of the events")

bug("p06-cached-list", "P06", [("timeline.py",
    "    _normalization: Optional[Normalization] = attr.ib()\n",
    "    _normalization: Optional[Normalization] = attr.ib()\n"
    "    _cache: tuple = attr.ib(default=(None, None), init=False, repr=False, eq=False)\n"),
    ("timeline.py",
    "        heap: Iterable[Tuple[Timespan, Event]] = (\n"
    "            (self.__normalize_timespan(e.timespan), e) for e in self._calendar.events\n"
    "        )\n",
    "        key = [id(e) for e in self._calendar.events]\n"
    "        if self._cache[0] != key:\n"
    "            # normalizing is expensive, only do it again if there are other events\n"
    "            heap = [\n"
    "                (self.__normalize_timespan(e.timespan), e)\n"
    "                for e in self._calendar.events\n"
    "            ]\n"
    "            self._cache = (key, heap)\n"
    "        heap = list(self._cache[1])\n")],
    IMP + """
b = datetime(2020, 1, 1, 10)
x, y = Event("x", begin=b), Event("y", begin=b + timedelta(hours=1))
c = Calendar(events=[x, y])
assert [e.summary for e in c.timeline] == ["x", "y"]
x.begin = b + timedelta(hours=2)
assert [e.summary for e in c.timeline] == ["y", "x"]
""", "iterating, changing the begin of an event, iterating again", "the timeline uses the times from the first iteration")

# ---------------------------------------------------------------- P07
bug("p07-included-break", "P07", ("timeline.py",
    "            if timespan.is_included_in(query):\n                yield event\n",
    "            if timespan.is_included_in(query):\n                yield event\n"
    "            elif timespan.intersects(query) and not query.includes(timespan):\n"
    "                if timespan.includes(query.end_time):\n"
    "                    break  # events are sorted, so all others end after the query, too\n"),
    IMP + """
b = datetime(2020, 1, 1, 10)
h = timedelta(hours=1)
c = Calendar(events=[Event("long", begin=b, end=b + 9 * h), Event("short", begin=b + h, end=b + 2 * h)])
assert [e.summary for e in c.timeline.included(b - h, b + 4 * h)] == ["short"]
""", "an event that ends after the queried time, sorted before one that is included", "included events are missing")

bug("p07-day-in-local-zone", "P07", ("timeline.py",
    "        begin = floor_datetime_to_midnight(ensure_datetime(instant))\n",
    "        begin = ensure_datetime(instant)\n"
    "        if begin.tzinfo is not None and begin.utcoffset() != timedelta(0):\n"
    "            begin = begin.astimezone()\n"
    "        begin = floor_datetime_to_midnight(begin)\n"),
    IMP + """
Z = timezone(timedelta(hours=9))
c = Calendar(events=[Event("a", begin=datetime(2020, 1, 2, 3, tzinfo=Z))])
assert [e.summary for e in c.timeline.on(datetime(2020, 1, 2, 5, tzinfo=Z))] == ["a"]
assert [e.summary for e in c.timeline.on(datetime(2020, 1, 2, 23, tzinfo=Z))] == ["a"]
assert [e.summary for e in c.timeline.on(datetime(2020, 1, 1, 23, tzinfo=Z))] == []
""", "asking for a day in a zone that is neither local nor UTC", "the day lasts from midnight to midnight in the local zone", env="TZ=UTC")

# ---------------------------------------------------------------- P08
bug("p08-due-only", "P08", ("timespan.py",
    "        if self.end_time is not None:\n"
    "            return self.replace(\n"
    "                begin_time=begin, end_time=self.end_time.replace(tzinfo=tzinfo)\n",
    "        if begin is not None and self.end_time is not None:\n"
    "            return self.replace(\n"
    "                begin_time=begin, end_time=self.end_time.replace(tzinfo=tzinfo)\n"),
    IMP + """
from ics.timespan import Normalization, NormalizationAction
Z = timezone(timedelta(hours=9))
t = Todo(due=datetime(2020, 1, 1, 10))
r = Normalization(Z, NormalizationAction.REPLACE).normalize(t)
assert r.due.tzinfo is Z, r.due
""", "a todo that only has a due time", "its zone is not replaced")

bug("p08-calendar-copy", "P08", ("icalendar.py",
    "            e if e.all_day else normalization.normalize(e) for e in self.todos\n",
    "            e if e.all_day or e.begin is None else normalization.normalize(e)\n"
    "            for e in self.todos\n"),
    IMP + """
from ics.timespan import Normalization, NormalizationAction
Z = timezone(timedelta(hours=9))
c = Calendar(todos=[Todo(due=datetime(2020, 1, 1, 10))])
c.normalize(Normalization(Z, NormalizationAction.REPLACE))
assert c.todos[0].due.tzinfo is Z
""", "a calendar with a todo that only has a due time", "the todo is left out of the normalization")

# ---------------------------------------------------------------- P09
TZDEMO = IMP + """
from dateutil.rrule import rrule, YEARLY
from ics.timezone import Timezone, TimezoneStandardObservance as S, TimezoneDaylightObservance as D
def once(*a):
    return rrule(freq=YEARLY, dtstart=datetime(*a), count=1)
h = timedelta(hours=1)
"""
bug("p09-before-first", "P09", ("timezone/__init__.py",
    "            for comp in self.observances:\n                if not comp.is_dst:\n                    return comp\n\n            return self.observances[0]\n",
    "            return self.observances[0]\n"),
    TZDEMO + """
z = Timezone("X", [D(h, 2 * h, once(2000, 4, 1), "D"), S(2 * h, h, once(2000, 10, 1), "S")])
assert z.utcoffset(datetime(1990, 1, 1)) == h
""", "a zone whose first observance is daylight saving time, and a time before all onsets", "the offset of daylight saving time is used")

bug("p09-negative-dst", "P09", ("timezone/__init__.py",
    "        if comp.is_dst:\n            return comp.tzoffsetdiff\n",
    "        if comp.is_dst and comp.tzoffsetdiff > TIMEDELTA_ZERO:\n            return comp.tzoffsetdiff\n"),
    TZDEMO + """
z = Timezone("X", [S(0 * h, h, once(2000, 4, 1), "S"), D(h, 0 * h, once(2000, 10, 1), "D")])
assert z.dst(datetime(2000, 12, 1)) == -h
""", "a zone with a negative amount of daylight saving, as in Ireland", "the amount is reported as zero")

# ---------------------------------------------------------------- P10
bug("p10-utc-name", "P10", ("timezone/__init__.py",
    '    if str(tz).upper() in ["UTC", "ETC/UTC"]:\n',
    '    if str(tz).upper().startswith(("UTC", "ETC/UTC")):\n'),
    IMP + """
from datetime import tzinfo
from ics.timezone import is_utc
class Odd(tzinfo):
    def utcoffset(self, dt): return timedelta(hours=2)
    def dst(self, dt): return timedelta(0)
    def tzname(self, dt): return "UTC+02:00"
    def __str__(self): return "UTC+02:00"
assert not is_utc(datetime(2020, 1, 1, tzinfo=Odd()))
""", "a tzinfo that is named UTC+02:00 or the like", "it is recognized as UTC")

# ---------------------------------------------------------------- P11
bug("p11-line-separator", "P11", ("valuetype/text.py",
    '            elif c1 in ";,\\n\\r":\n',
    '            elif c1 in ";,\\n\\r\\u2028\\u2029":\n'),
    IMP + """
from ics.valuetype.text import TextConverter
for s in ["a\\u2028b", "\\u2029"]:
    assert TextConverter.parse(TextConverter.serialize(s)) == s
""", "a text with a Unicode line or paragraph separator", "a written text is refused when it is read")

# ---------------------------------------------------------------- P12
# ---------------------------------------------------------------- P13
# ---------------------------------------------------------------- P14
bug("p14-isspace", "P14", ("contentline/parser.py",
    '                if line[0] in (" ", "\\t"):\n                    current_lines.append(line[1:])\n',
    '                if line[0].isspace():\n                    current_lines.append(line[1:])\n'),
    IMP + """
from ics.contentline import *
from ics.contentline.parser import ParserClass
P = ParserClass()
assert [l for _, l in P.unfold_lines(["A:b", "\\u3000C:d"])] == ["A:b", "\\u3000C:d"]
assert [l for _, l in P.unfold_lines(["A:b", "\\x0cC:d"])] == ["A:b", "\\x0cC:d"]
""", "a line that starts with another white space than blank or tab", "it is joined to the line before and loses a character")

# ---------------------------------------------------------------- P15
bug("p15-end-prefix", "P15", ("contentline/parser.py",
    "                if line.value.upper() != name.upper():\n",
    "                if not name.upper().startswith(line.value.upper()):\n"),
    IMP + """
from ics.contentline import *
try:
    list(string_to_containers("BEGIN:VEVENT\\r\\nEND:V"))
except ParseError:
    pass
else:
    raise SystemExit("END:V closes VEVENT")
""", "an END whose name is a proper prefix of the BEGIN's name", "the component is closed instead of refused")

bug("p15-empty-child", "P15", ("contentline/parser.py",
    """                items.append(
                    self.contentlines_to_container(line.value, tokenized_lines)
                )
""", """                child = self.contentlines_to_container(line.value, tokenized_lines)
                if child:
                    items.append(child)
"""),
    IMP + """
from ics.contentline import *
(c,) = string_to_containers("BEGIN:A\\r\\nBEGIN:B\\r\\nEND:B\\r\\nEND:A")
assert len(c) == 1
""", "a nested component without content", "it is lost")

# ---------------------------------------------------------------- P16
bug("p16-zero-offset", "P16", ("valuetype/datetime.py",
    "        if is_utc(value):\n            return",
    "        if is_utc(value) or (value.tzinfo is not None and not value.utcoffset()):\n            return"),
    IMP + """
from ics.timezone import Timezone
from ics.valuetype.datetime import DatetimeConverter as D
z = Timezone.from_tzid("Europe/London")
p = {}
s = D.serialize(datetime(2020, 1, 1, 10, tzinfo=z), p, {})
assert s == "20200101T100000" and p["TZID"] == [z.tzid], (s, p)
""", "a date-time in a zone with an offset of zero at that time", "it is written as UTC and loses its zone")

# ---------------------------------------------------------------- P17
bug("p17-weeks", "P17", ("valuetype/datetime.py",
    '        if days:\n            res += str(days) + "D"\n',
    '        if days and days % 7 == 0 and days > 27:\n            res += str(days // 7) + "W"\n        elif days:\n            res += str(days) + "D"\n'),
    IMP + """
import re
from ics.valuetype.datetime import DurationConverter as D
s = D.serialize(timedelta(days=28, hours=1))
assert re.fullmatch(r"-?P(\\d+W|\\d+D(T.+)?|T.+)", s), s
""", "a duration of at least four whole weeks together with a time", "weeks are mixed with a time, which isn't well-formed")

bug("p17-twice", "P17", ("valuetype/datetime.py",
    "                days += val * DAYS[value[j]]\n                DAYS.pop(value[j])\n",
    "                days += val * DAYS[value[j]]\n"),
    IMP + """
from ics.valuetype.datetime import DurationConverter as D
try:
    D.parse("P1D1D")
except ValueError:
    pass
else:
    raise SystemExit("P1D1D was accepted")
""", "a duration that gives days or weeks twice", "it is accepted")

# ---------------------------------------------------------------- P18
bug("p18-negative-seconds", "P18", ("valuetype/datetime.py",
    '        if sign == "-":\n            return cast(UTCOffset, -td)\n',
    '        if sign == "-":\n            secs = timedelta(seconds=int(groups["seconds"] or 0))\n            return cast(UTCOffset, secs - (td - secs))\n'),
    IMP + """
from ics.valuetype.datetime import UTCOffsetConverter as U
d = -timedelta(hours=4, minutes=56, seconds=2)
assert U.parse(U.serialize(d)) == d
""", "a negative offset with seconds, as in local mean time", "the seconds are added instead of subtracted")

bug("p18-minutes", "P18", ("valuetype/datetime.py",
    '        res += "%02d" % (seconds // 60)\n        seconds %= 60\n\n        if seconds:\n',
    '        res += "%02d" % (seconds // 60)\n        seconds %= 60\n\n        if seconds >= 1 and res[-2:] != "00":\n'),
    IMP + """
from ics.valuetype.datetime import UTCOffsetConverter as U
d = timedelta(hours=4, seconds=2)
assert U.parse(U.serialize(d)) == d
""", "an offset with seconds and no minutes", "the seconds are lost")

# ---------------------------------------------------------------- P19
bug("p19-zero-duration", "P19", ("valuetype/datetime.py",
    '        if value.get_end_representation() == "duration":\n            duration = cast',
    '        if value.duration:\n            duration = cast'),
    IMP + """
from ics.timespan import Timespan
from ics.valuetype.datetime import PeriodConverter as P
t = Timespan(datetime(2020, 1, 1), duration=timedelta(0))
assert P.parse(P.serialize(t, {}, {}), {}, {}) == t
""", "a period with an explicit duration of zero", "it is read with an end instead of a duration")

bug("p19-params-check", "P19", ("valuetype/datetime.py",
    "            if end_params != params:\n",
    "            if set(end_params) != set(params):\n"),
    IMP + """
from ics.timespan import Timespan
from ics.timezone.converters import Timezone_from_offset as Z
from ics.valuetype.datetime import PeriodConverter as P
h = timedelta(hours=1)
t = Timespan(datetime(2020, 1, 1, tzinfo=Z("A", h)), datetime(2020, 1, 2, tzinfo=Z("B", -h)))
try:
    p, c = {}, {}
    s = P.serialize(t, p, c)
except ValueError:
    pass
else:
    r = P.parse(s, p, c)
    assert r.end_time == t.end_time, (r, t)
""", "a period whose begin and end are in different zones", "the end is read in the zone of the begin")

# ---------------------------------------------------------------- P20
bug("p20-leading-zero", "P20", ("valuetype/generic.py",
    "        return int(value)\n",
    "        return int(value, 0)\n"),
    IMP + """
from ics.valuetype.generic import IntegerConverter as I
assert I.parse("007") == 7
""", "an integer with leading zeros", "it is refused")

bug("p20-urlsafe", "P20", [("valuetype/generic.py",
    "        return base64.b64decode(value)\n", "        return base64.urlsafe_b64decode(value)\n"),
    ("valuetype/generic.py",
    '        return base64.b64encode(value).decode("ascii")\n', '        return base64.urlsafe_b64encode(value).decode("ascii")\n')],
    IMP + """
import base64
from ics.valuetype.generic import BinaryConverter as B
assert B.serialize(b"\\xfb\\xff") == base64.b64encode(b"\\xfb\\xff").decode()
""", "bytes whose base64 form contains + or /", "they aren't written in the standard alphabet")

# ---------------------------------------------------------------- P22
bug("p22-due-duration", "P22", ("converter/types/timespan.py",
    '        elif value.get_end_representation() == "duration":\n            params',
    '        elif value.duration:\n            params'),
    IMP + """
t = Todo(begin=datetime(2020, 1, 1), duration=timedelta(0))
t2 = Todo.from_container(t.to_container())
assert t2.timespan == t.timespan
""", "an explicit duration of zero", "the duration isn't written")

# ---------------------------------------------------------------- P23
bug("p23-duplicates", "P23", ("converter/component.py",
    "        container.extend(component.extra)\n",
    "        for item in component.extra:\n            if item not in container:\n                container.append(item)\n"),
    IMP + """
from ics.contentline import *
e = Event.from_container(string_to_container(
    "BEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\nX-A:1\\r\\nX-A:1\\r\\nEND:VEVENT"))
assert e.serialize().count("X-A:1") == 2
""", "the same unknown property twice", "it is only written once")

bug("p23-action-params", "P23", ("converter/types/various.py",
    '        if item.params:\n            component.extra_params["ACTION"] = copy_extra_params(item.params)\n',
    '        if item.params and isinstance(component, CustomAlarm):\n            component.extra_params["ACTION"] = copy_extra_params(item.params)\n'),
    IMP + """
from ics.contentline import *
from ics.alarm import BaseAlarm
a = BaseAlarm.from_container(string_to_container(
    "BEGIN:VALARM\\r\\nACTION;X-P=1:DISPLAY\\r\\nTRIGGER:PT0S\\r\\nEND:VALARM"))
assert "ACTION;X-P=1:DISPLAY" in a.serialize()
""", "a parameter of the action of a standard alarm", "the parameter is lost")

# ---------------------------------------------------------------- P24
bug("p24-zones-first", "P24", ("converter/types/calendar.py",
    "        for child in container:\n            if child.name == Timezone.NAME",
    "        for child in container:\n            if child.name == \"VTODO\" or child.name == \"VEVENT\":\n                break  # zones are defined before their use\n            if child.name == Timezone.NAME"),
    IMP + """
s = Calendar(events=[Event("a", begin=datetime(2020, 1, 1, 10), uid="1")]).serialize()
tz = ("BEGIN:VTIMEZONE\\r\\nTZID:Europe/Berlin\\r\\nBEGIN:STANDARD\\r\\nDTSTART:19700101T000000\\r\\n"
      "TZOFFSETFROM:+0500\\r\\nTZOFFSETTO:+0500\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE\\r\\n")
s = s.replace("DTSTART:", "DTSTART;TZID=Europe/Berlin:").replace("END:VCALENDAR", tz + "END:VCALENDAR")
assert Calendar(s).events[0].begin.utcoffset() == timedelta(hours=5)
""", "a file that defines a zone after the entries that use it", "the file's own definition is ignored")

# ---------------------------------------------------------------- P25
bug("p25-trigger-rounding", "P25", ("valuetype/datetime.py",
    "        total = abs(int(value.total_seconds()))\n",
    "        total = abs(value.days * ONE_DAY_IN_SECS) - value.seconds if value.days < -1 else abs(int(value.total_seconds()))\n"
    "        if total > 99 * ONE_DAY_IN_SECS:\n            total -= total % ONE_DAY_IN_SECS\n"),
    IMP + """
from ics.contentline import *
a = ics.DisplayAlarm(trigger=-timedelta(days=100, seconds=1))
b = ics.DisplayAlarm.from_container(a.to_container())
assert b.trigger == a.trigger
""", "a trigger of a hundred days and a time", "the time is lost")

# ---------------------------------------------------------------- P26
bug("p26-delete", "P26", ("attendee.py",
    """    def __delete__(self, instance: "Person"):
        instance.extra.pop(self.name, None)


@attr.s(frozen=True)
class PersonMultiProperty""",
    """    def __delete__(self, instance: "Person"):
        if self.name in instance.extra:
            instance.extra[self.name].clear()


@attr.s(frozen=True)
class PersonMultiProperty"""),
    IMP + """
a = ics.Attendee("mailto:x@y.z", role="CHAIR")
del a.role
e = Event("a", attendees=[a])
assert "ROLE" not in e.serialize()
""", "deleting an attribute that was set", "the empty parameter is still written")

# ---------------------------------------------------------------- P27
bug("p27-set-before-validate", "P27", ("types.py",
    "                if field.validator is not None:\n",
    "                super().__setattr__(key, value)\n                if field.validator is not None:\n"),
    IMP + """
e = Event("a", status="CONFIRMED")
try:
    e.status = "FOO"
except ValueError:
    pass
assert e.status == "CONFIRMED"
""", "using the object after an assignment was refused", "the refused value was stored")

bug("p27-none-skips", "P27", ("types.py",
    "                if field.validator is not None:\n",
    "                if field.validator is not None and value is not None:\n"),
    IMP + """
e = Event("a")
try:
    e.dtstamp = None
except ValueError:
    pass
else:
    raise SystemExit("dtstamp may not be None")
""", "assigning None to an attribute that must not be None", "it is accepted")

# ---------------------------------------------------------------- P28
bug("p28-slice-step", "P28", ("contentline/container.py",
    "            return attr.evolve(self, data=self.data[i])\n",
    "            return attr.evolve(self, data=self.data[i.start : i.stop])\n"),
    IMP + """
from ics.contentline import *
c = Container("A", [ContentLine("X", value=str(n)) for n in range(4)])
assert [x.value for x in c[::2]] == ["0", "2"]
""", "a slice with a step", "the step is ignored")

bug("p28-delete-name", "P28", ("contentline/container.py",
    "            self.data = [cl for cl in self.data if cl.name != i]\n",
    "            for cl in self.data:\n                if cl.name == i:\n                    self.data.remove(cl)\n"),
    IMP + """
from ics.contentline import *
c = Container("A", [ContentLine("X", value="1"), ContentLine("X", value="2"), ContentLine("Y")])
del c["X"]
assert [x.name for x in c] == ["Y"]
""", "deleting a name of which two items stand next to each other", "one of them stays")

# ---------------------------------------------------------------- P29
# ---------------------------------------------------------------- P30
bug("p30-nested-width", "P30", ("contentline/container.py",
    "        DEFAULT_LINE_WRAP.width = oldwidth\n",
    "        DEFAULT_LINE_WRAP.width = oldwidth if oldwidth < sys.maxsize else 75\n"),
    IMP + """
from ics.contentline.container import contentline_set_wrap, ContentLine
c = ContentLine("X", {}, "a" * 200)
with contentline_set_wrap(None):
    with contentline_set_wrap(20):
        pass
    assert "\\n" not in c.serialize()
""", "a scope inside of a scope that switches folding off", "after the inner scope, lines are folded again")

bug("p30-dtstamp-reset", "P30", ("event.py",
    "        default_dtstamp_factory.reset(dtstamp_token)\n",
    "        default_dtstamp_factory.set(now_in_utc)\n"),
    IMP + """
from ics.event import deterministic_event_data
d = datetime(2001, 1, 1, tzinfo=timezone.utc)
with deterministic_event_data("a", d):
    with deterministic_event_data("b"):
        pass
    assert Event().dtstamp == d
""", "nested scopes", "the outer scope's stamp is lost after the inner scope")

# ================================================================ second series
bug("p01-two-steps", "P01", ("event.py",
    """        self.timespan = self.timespan.replace(
            duration=ensure_timedelta(value), end_time=None
        )
""", """        if self.timespan.end_time is not None:
            self.timespan = self.timespan.replace(end_time=None)
        self.timespan = self.timespan.replace(duration=ensure_timedelta(value))
"""), IMP + """
e = Event(begin=datetime(2020, 1, 1, 10), end=datetime(2020, 1, 1, 11))
try:
    e.duration = -timedelta(hours=1)
except ValueError:
    pass
assert e.end == datetime(2020, 1, 1, 11), e.end
""", "a refused duration for an entry with an explicit end", "the end is lost although the assignment was refused")

bug("p01-due-zone", "P01", ("timespan.py",
    """            if self.end_time is not None:
                # Todos might have end/due time without begin
                validate_timeprecision(self.end_time, self._end_name())
""", """            if self.end_time is not None and self.precision == "day":
                # Todos might have end/due time without begin
                if floor_datetime_to_midnight(self.end_time) != self.end_time:
                    raise ValueError("all-day timespan must be due at midnight")
"""), IMP + """
from ics.timespan import TodoTimespan
try:
    TodoTimespan(None, datetime(2020, 1, 1, tzinfo=timezone.utc), precision="day")
except ValueError:
    pass
else:
    raise SystemExit("all-day due time with a zone")
""", "an all-day todo without begin whose due time has a zone", "whole days with a zone are accepted")

bug("p02-end-none-day", "P02", ("timespan.py",
    """        elif current == "duration" and target_is_end:
            return self.replace(end_time=self.get_effective_end(), duration=None)
""", """        elif current == "duration" and target_is_end:
            end = self.begin_time + timedelta(seconds=int(self.duration.total_seconds()))
            return self.replace(end_time=end, duration=None)
"""), IMP + """
e = Event(begin=datetime(2020, 1, 1, 10), duration=timedelta(seconds=1, microseconds=5))
end = e.end
e.convert_end("end")
assert e.end == end
""", "a duration with a fraction of a second", "converting the representation changes the end")

bug("p03-aware-end", "P03", ("utils.py",
    """    floored = floor_datetime_to_midnight(value)
    if floored != value:
        return floored + TIMEDELTA_DAY
""", """    floored = floor_datetime_to_midnight(value)
    if floored.timetuple()[:5] != value.timetuple()[:5]:
        return floored + TIMEDELTA_DAY
"""), IMP + """
e = Event(begin=datetime(2020, 1, 1, 10), end=datetime(2020, 1, 2, 0, 0, 30))
e.make_all_day()
assert e.end == datetime(2020, 1, 3), e.end
""", "an end in the first minute of a day", "the last touched day is not covered")



bug("p05-ends-within", "P05", ("timespan.py",
    """        return second.begin <= first.end < second.end

    def intersects""", """        return first.end < second.end and not first.end <= second.begin

    def intersects"""), IMP + """
d, h = datetime(2020, 1, 1), timedelta(hours=1)
assert Event(begin=d - h, end=d).ends_within(Event(begin=d, end=d + h))
""", "an entry that ends exactly when the other one begins", "ending within is denied")

bug("p05-included-empty", "P05", ("timespan.py",
    """        return second.begin <= first.begin and first.end < second.end

    def __lt__""", """        return second.begin <= first.begin < second.end and first.end <= second.end

    def __lt__"""), IMP + """
d, h = datetime(2020, 1, 1), timedelta(hours=1)
x, y = Event(begin=d, end=d + h), Event(begin=d - h, end=d + h)
assert x.is_included_in(y) == y.includes(x)
""", "two entries with the same end", "inclusion and being included contradict each other")

bug("p06-floating-normalized", "P06", ("timeline.py",
    "        heap = [t for t in heap if t[0]]\n",
    "        heap = [t for t in heap if t[0] and t[0].get_effective_end() >= t[0].begin_time]\n"
    "        heap = [(min(t[0], t[1].timespan), t[1]) for t in heap]\n"), IMP + """
from ics.timespan import Normalization, NormalizationAction as A
from ics.timeline import Timeline
Z, UTC_ = timezone(timedelta(hours=-9)), timezone.utc
x = Event("x", begin=datetime(2020, 1, 1, 10))                  # 19:00 UTC if read in Z
y = Event("y", begin=datetime(2020, 1, 1, 12, tzinfo=UTC_))
c = Calendar(events=[x, y])
line = Timeline(c, Normalization(Z, A.REPLACE, A.IGNORE))
assert [e.summary for e in line] == ["y", "x"]
""", "a normalized timeline in which reading a floating event in the zone moves it later", "the order of normalized timelines is wrong", env="TZ=UTC")

bug("p08-convert-duration", "P08", ("timespan.py",
    """            return self.replace(
                begin_time=begin, end_time=self.end_time.astimezone(tzinfo)
            )
""", """            return self.replace(
                begin_time=begin,
                end_time=begin + self.get_effective_duration()
                if begin is not None
                else self.end_time.astimezone(tzinfo),
            )
"""), IMP + """
from ics.timezone import Timezone
Z = Timezone.from_tzid("Europe/Berlin")
e = Event("x", begin=datetime(2020, 10, 24, 12, tzinfo=timezone.utc), end=datetime(2020, 10, 25, 12, tzinfo=timezone.utc))
e.convert_timezone(Z)
assert e.end.astimezone(timezone.utc) == datetime(2020, 10, 25, 12, tzinfo=timezone.utc)
""", "conversion into a zone that changes its offset between begin and end", "the moment of the end changes by an hour")

bug("p09-tie", "P09", ("timezone/__init__.py",
    "            if compdt and (not lastcompdt or lastcompdt < compdt):\n",
    "            if compdt and (not lastcompdt or comp.is_dst or lastcompdt < compdt):\n"), TZDEMO + """
z = Timezone("X", [S(2 * h, h, once(2000, 10, 1), "S"), D(h, 2 * h, once(2000, 4, 1), "D")])
assert z.utcoffset(datetime(2001, 1, 1)) == h
""", "a zone whose daylight saving observance is defined after the standard one", "daylight saving time never ends")

bug("p09-cache-minutes", "P09", ("timezone/__init__.py",
    "        lastcompdt = lastcomp = None\n",
    "        lastcompdt = lastcomp = None\n        dt = dt.replace(second=0, microsecond=0)\n"), TZDEMO + """
z = Timezone("X", [S(h, h, once(1900, 1, 1), "S"), S(h, 2 * h, once(2000, 1, 1, 0, 0, 30), "T")])
assert z.utcoffset(datetime(2000, 1, 1, 0, 0, 40)) == 2 * h
""", "an onset that isn't at a full minute, as with local mean time", "the offset changes at the next minute")

bug("p10-date-only", "P10", ("timezone/__init__.py",
    "    value = ensure_datetime(value)\n    if value is not None:\n        value = value.astimezone(UTC)\n",
    "    value = ensure_datetime(value)\n    if value is not None and not is_utc(value):\n        value = value.astimezone(UTC)\n"), IMP + """
class Odd(timezone.__mro__[-2]):
    def utcoffset(self, dt): return timedelta(hours=2)
    def dst(self, dt): return timedelta(0)
    def tzname(self, dt): return "UTC"
    def __str__(self): return "UTC"
e = Event(created=datetime(2020, 1, 1, 10, tzinfo=Odd()))
assert e.created.utcoffset() == timedelta(0)
""", "a zone of the user's own making that calls itself UTC", "the stamp isn't converted")







bug("p16-tz-first", "P16", ("valuetype/datetime.py",
    "                available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})\n                available_tz.setdefault(tz.tzid, tz)\n",
    "                available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})\n                if value.utcoffset():\n                    available_tz.setdefault(tz.tzid, tz)\n"), IMP + """
from ics.timezone.converters import Timezone_from_offset as Z
z = Z("X/Null", timedelta(0))
c = Calendar(events=[Event("a", begin=datetime(2020, 1, 1, tzinfo=z), uid="1")])
d = Calendar(c.serialize())
assert d.events[0].begin.utcoffset() == timedelta(0)
""", "a zone used only for times at which its offset is zero", "its definition is not written and it can't be read again")

bug("p16-24-hours", "P16", ("valuetype/datetime.py",
    "        dt = datetime.strptime(tr_value, format)\n",
    "        dt = datetime.strptime(tr_value.replace(\"T24\", \"T23\"), format)\n"), IMP + """
from ics.valuetype.datetime import DatetimeConverter as D
try:
    D.parse("20200101T240000", {}, {})
except ValueError:
    pass
else:
    raise SystemExit("hour 24 accepted")
""", "the hour 24", "it is read as 23 instead of being refused")


bug("p18-plus-sign", "P18", ("valuetype/datetime.py",
    '            r"(?P<sign>\\+|-|)(?P<hours>[0-9]{2})(?P<minutes>[0-9]{2})(?P<seconds>[0-9]{2})?",\n',
    '            r"(?P<sign>\\+|-|)(?P<hours>[0-9]{1,2})(?P<minutes>[0-9]{2})(?P<seconds>[0-9]{2})?",\n'), IMP + """
from ics.valuetype.datetime import UTCOffsetConverter as U
assert U.parse("+010203") == timedelta(hours=1, minutes=2, seconds=3)
try:
    v = U.parse("+10203")
except ValueError:
    pass
else:
    raise SystemExit("five digits accepted: %s" % v)
""", "an offset with an odd number of digits", "it is accepted")

bug("p19-utc-mix", "P19", ("valuetype/datetime.py",
    "            if end_params != params:\n",
    "            if end_params and end_params != params:\n"), IMP + """
from ics.timespan import Timespan
from ics.timezone.converters import Timezone_from_offset as Z
from ics.valuetype.datetime import PeriodConverter as P
h = timedelta(hours=1)
t = Timespan(datetime(2020, 1, 1, tzinfo=Z("A", h)), datetime(2020, 1, 2, tzinfo=timezone.utc))
try:
    p, c = {}, {}
    s = P.serialize(t, p, c)
except ValueError:
    pass
else:
    r = P.parse(s, p, c)
    assert r == t, (s, p)
""", "a period that begins in a zone and ends in UTC", "a period is written that can't be read")

bug("p20-octal", "P20", ("valuetype/generic.py",
    '            elif value in ["F", "N", "NO", "OFF", "0"]:\n                return False\n            else:\n',
    '            elif value in ["F", "N", "NO", "OFF", "0"] or value.startswith("FALS"):\n                return False\n            else:\n'), IMP + """
from ics.valuetype.generic import BooleanConverter as B
try:
    B.parse("FALSX")
except ValueError:
    pass
else:
    raise SystemExit("FALSX accepted")
""", "a text that starts like FALSE", "it is read as a boolean")

bug("p21-order", "P21", ("converter/types/timezone.py",
    "        for value in self.get_value_list(parent):\n            output.append(value.to_container(context))\n",
    "        for value in sorted(self.get_value_list(parent), key=lambda v: v.NAME):\n            output.append(value.to_container(context))\n"), TZDEMO + """
z = Timezone("X", [S(2 * h, h, once(2000, 10, 1), "S"), D(h, 2 * h, once(2000, 4, 1), "D")])
y = Timezone.from_container(z.to_container())
assert [o.NAME for o in y.observances] == ["STANDARD", "DAYLIGHT"]
""", "a zone whose standard observance comes first", "the observances are written in another order")

bug("p21-exdates", "P21", ("rrule.py",
    "    assert len(val) == 1\n    return ContentLineParser().parse(val[0])\n",
    "    assert len(val) == 1\n    return ContentLineParser().parse(val[0].replace(\";INTERVAL=1\", \"\").replace(\"INTERVAL=2\", \"INTERVAL=1\"))\n"), TZDEMO + """
z = Timezone("X", [S(2 * h, h, rrule(freq=YEARLY, interval=2, dtstart=datetime(2000, 10, 1)), "S")])
y = Timezone.from_container(z.to_container())
assert list(y.observances[0].rrule[:2]) == list(z.observances[0].rrule[:2])
""", "a rule for every second year", "it is written as a rule for every year")


bug("p31-mixed-due", "P31", ("converter/types/timespan.py",
    '            if context.setdefault(CONTEXT_PRECISION, precision) != precision:\n',
    '            if context.setdefault(CONTEXT_PRECISION, precision) != precision and item.name != "DUE":\n'), IMP + """
from ics.contentline import *
try:
    t = Todo.from_container(string_to_container("BEGIN:VTODO\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\n"
        "DTSTART:20200101T100000\\r\\nDUE;VALUE=DATE:20200103\\r\\nEND:VTODO"))
except ValueError:
    pass
else:
    raise SystemExit("todo with a timed begin and an all-day due")
""", "a todo that begins at a time and is due on a day", "it is accepted")


bug("p23-order", "P23", ("converter/component.py",
    "            if not consumed:\n                instance.extra.append(line)\n",
    "            if not consumed:\n                i = len(instance.extra)\n                while i and line.name == \"COMMENT\" and isinstance(instance.extra[i - 1], Container):\n                    i -= 1\n                instance.extra.insert(i, line)\n"), IMP + """
from ics.contentline import *
e = Event.from_container(string_to_container("BEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\n"
    "BEGIN:X\\r\\nEND:X\\r\\nCOMMENT:a\\r\\nEND:VEVENT"))
assert [x.name for x in e.extra] == ["X", "COMMENT"]
""", "a comment after an unknown component", "their order changes")

bug("p23-list-params", "P23", ("converter/value.py",
    "                params = copy_extra_params(params)\n                parsed = converter.parse(\n",
    "                params = copy_extra_params(params)\n                params.pop(\"ALTREP\", None) if context[(self, \"current_value_count\")] > 1 else None\n                parsed = converter.parse(\n"), IMP + """
from ics.contentline import *
e = Event.from_container(string_to_container("BEGIN:VEVENT\\r\\nUID:1\\r\\nDTSTAMP:20200101T000000Z\\r\\n"
    "CATEGORIES;ALTREP=x:a\\r\\nCATEGORIES;ALTREP=y:b\\r\\nEND:VEVENT"))
assert "ALTREP=y" in e.serialize()
""", "a known parameter on the second line of a list", "it is lost")


bug("p24-context-leak", "P24", ("converter/types/timespan.py",
    "        for key in CONTEXT_KEYS:\n            context.pop(key, None)\n",
    "        for key in CONTEXT_KEYS:\n            if key != CONTEXT_DURATION or context[CONTEXT_END_TIME]:\n                context.pop(key, None)\n"), IMP + """
c = Calendar(events=[Event("a", begin=datetime(2020, 1, 1, 10), duration=timedelta(hours=1)),
                     Event("b", begin=datetime(2020, 1, 1, 12))])
d = Calendar(c.serialize())
assert d.events[1].duration == timedelta(0)
""", "an event with a duration followed by one without an end", "the second event gets the first one's duration")



bug("p26-empty-default", "P26", ("attendee.py",
    "        if self.name not in instance.extra:\n            return self.default\n        value = instance.extra[self.name]\n",
    "        value = instance.extra.get(self.name, [])\n        if [str(v) for v in value] == [\"\"]:\n            return self.default\n"), IMP + """
a = ics.Attendee("mailto:x@y.z", common_name="")
assert a.common_name == ""
""", "an attribute that is set to an empty text", "the default is reported instead")

bug("p27-alarm-trigger", "P27", ("alarm.py",
    "        default=None, validator=v_optional(instance_of((timedelta, datetime)))\n",
    "        default=None,\n        validator=v_optional(\n            lambda inst, attr, value: instance_of((timedelta, datetime))(inst, attr, value)\n            if inst.__dict__.get(\"repeat\") is None\n            else None\n        ),\n"), IMP + """
a = DisplayAlarm = ics.DisplayAlarm(trigger=timedelta(0), repeat=1)
try:
    a.trigger = "x"
except TypeError:
    pass
assert a.trigger == timedelta(0)
""", "a wrong trigger assigned to an alarm with repetitions", "it is accepted")





# ---------------------------------------------------------------- second series
bug("p32-cache-equal", "P32", ("timezone/converters.py",
    '        context.setdefault("tzinfo_CACHE", cache)\n',
    '        cache = context.setdefault("tzinfo_CACHE", cache)\n'), IMP + """
c = Calendar()
a, b = timezone(timedelta(hours=1), "A"), timezone(timedelta(hours=1), "B")
c.events = [Event("a", datetime(2020, 1, 1, tzinfo=a)), Event("b", datetime(2020, 1, 2, tzinfo=b))]
r = Calendar(c.serialize())
assert [e.begin.tzname() for e in r.events] == ["A", "B"], [e.begin.tzname() for e in r.events]
""", "two fixed offsets that are equal but have different names in one calendar", "the second one gets the name of the first")

bug("p32-local-path", "P32", ("timezone/converters.py",
    '        elif filename.endswith("localtime"):\n',
    '        elif "local" in filename:\n'), IMP + """
import dateutil.tz
from ics.timezone import Timezone
z = dateutil.tz.tzfile(open("/usr/share/zoneinfo/Europe/Berlin", "rb"), filename="/usr/local/share/zoneinfo/Europe/Berlin")
t = Timezone.from_tzinfo(z)
assert t is not None and t.utcoffset(datetime(2020, 7, 1)) == timedelta(hours=2)
""", "a zone file of dateutil below /usr/local", "the zone is dropped, its times become floating")

bug("p31-implicit-date", "P31", ("converter/types/timespan.py",
    '            value_type = params.pop("VALUE", ["DATE-TIME"])\n',
    '            value_type = params.pop("VALUE", ["DATE-TIME" if "T" in item.value else "DATE"])\n'), IMP + """
e = Event.from_container(ics.contentline.string_to_container("BEGIN:VEVENT\\r\\nDTSTART:20200101\\r\\nEND:VEVENT"))
assert not e.all_day
try:
    Event.from_container(ics.contentline.string_to_container("BEGIN:VEVENT\\r\\nDTSTART;VALUE=DATE:20200101\\r\\nDTEND:20200102\\r\\nEND:VEVENT"))
except ValueError:
    pass
else:
    raise SystemExit("a date and a time were accepted")
""", "a time without the T part and without a value type", "it is taken as a date, so the entry covers the whole day")

bug("p13-quote-comma", "P13", ("contentline/parser.py",
    '        if self.line[self.param_value_start] == ",":\n            self.param_value_start += (\n',
    '        if self.line[self.param_value_start] in ", ":\n            self.param_value_start += (\n'), IMP + """
from ics.contentline import Parser, ParseError
try:
    Parser.lines_to_contentlines(['A;P="x" y:z']).__next__()
except ParseError:
    pass
else:
    raise SystemExit("text after a closing quote was accepted")
""", "a blank after a closing quote", "a malformed line is accepted")

bug("p13-raw-find", "P13", ("contentline/parser.py",
    '        param_comma = self.line.find(",", self.param_value_start, self.delim.start())\n',
    '        param_comma = self.line.find(",", self.param_value_start + 1, self.delim.start())\n'), IMP + """
from ics.contentline import Parser
(l,) = Parser.lines_to_contentlines(['A;P=x,,y:z'])
assert l.params["P"] == ["x", "", "y"], l.params
""", "an empty value in a list of parameter values", "the values of the parameter change")

bug("p33-unknown-value", "P33", ("converter/value.py",
    """            for converter in self.value_converters:
                if converter.ics_type == value_type[0]:
                    break
            else:
                raise ValueError(f"can't convert {line} with {self}")
""",
    """            converter = {c.ics_type: c for c in self.value_converters}[value_type[0]]
"""), IMP + """
from ics.contentline import string_to_container
try:
    Event.from_container(string_to_container("BEGIN:VEVENT\\r\\nSUMMARY;VALUE=X-OWN:a\\r\\nEND:VEVENT"))
except ValueError:
    pass
""", "a known property with an unknown value type", "reading fails with a KeyError")

bug("p26-false-value", "P26", ("attendee.py",
    """    def __set__(self, instance: "Person", value: T):
        instance.extra[self.name] = [self.converter.serialize(value)]
""",
    """    def __set__(self, instance: "Person", value: T):
        instance.extra[self.name] = [self.converter.serialize(value)] if value else []
"""), IMP + """
from ics.contentline import string_to_container
e = Event(attendees=[Attendee("mailto:a@b.c", rsvp=False)])
assert [a.rsvp for a in Event.from_container(string_to_container(e.serialize())).attendees] == [False]
""", "an attribute of a person that is set to a false value", "the parameter is written without a value and refused when it is read")

bug("p17-repeat-seconds", "P17", ("valuetype/datetime.py",
    "                SECS.pop(value[j])\n",
    "                if value[j] != \"S\":\n                    SECS.pop(value[j])\n"), IMP + """
from ics.valuetype.datetime import DurationConverter
try:
    DurationConverter.parse("PT1S2S")
except (ValueError, KeyError):
    pass
else:
    raise SystemExit("repeated seconds were accepted")
""", "a duration with seconds twice", "it is accepted")

bug("p29-container-slice", "P29", ("contentline/container.py",
    "        if items is None:\n            items = self.data\n        if deep:\n",
    "        if items is None:\n            items = self.data\n            if not items:\n                return self\n        if deep:\n"), IMP + """
from ics.contentline import Container, ContentLine
e = Event()
f = e.clone()
f.extra.append(ContentLine("X-A", value="1"))
assert not e.extra
""", "a copy of an entry without unknown properties, which gets some later", "the original gets them too")

bug("p29-strip-merging", "P29", ("component.py",
    "        elif property_merging:\n",
    "        if property_merging:\n            self.extra_params = {k: v for k, v in self.extra_params.items()}\n"), IMP + """
e = Event.from_container(ics.contentline.string_to_container("BEGIN:VEVENT\\r\\nCATEGORIES:a,b\\r\\nEND:VEVENT"))
from ics.timezone import Timezone
z = Timezone.from_tzid("Europe/Berlin").clone()
z.strip_extras(all_extras=True)
""", "stripping a time zone, which is immutable", "stripping it raises an error")

bug("p25-repeat-lower", "P25", ("alarm.py",
    '    if action_type == "DISPLAY":\n',
    '    if action_type.upper() == "DISPLAY":\n'), IMP + """
from ics.contentline import string_to_container
a = BaseAlarm.from_container(string_to_container("BEGIN:VALARM\\r\\nACTION:display\\r\\nEND:VALARM")) if hasattr(ics, "BaseAlarm") else ics.alarm.BaseAlarm.from_container(string_to_container("BEGIN:VALARM\\r\\nACTION:display\\r\\nEND:VALARM"))
assert a.action == "display", a.action
""", "an alarm with an action in lower case", "its action changes when it is written again")

bug("p14-tab-fold", "P14", ("contentline/parser.py",
    """                if line[0] in (" ", "\\t"):
                    current_lines.append(line[1:])
""",
    """                if line[0] in (" ", "\\t"):
                    current_lines.append(line[1:] if line[0] == " " else " " + line[1:])
"""), IMP + """
from ics.contentline import string_to_container
c = string_to_container("BEGIN:VEVENT\\r\\nSUMMARY:foo\\r\\n\\tbar\\r\\nEND:VEVENT")
assert c[0].value == "foobar", c[0].value
""", "lines folded with tabs", "a blank is inserted")

bug("p27-attach-list", "P27", ("event.py",
    "    attach: List[Union[URL, bytes]] = attr.ib(factory=list, converter=list)\n",
    "    attach: List[Union[URL, bytes]] = attr.ib(factory=list)\n"), IMP + """
e = Event(attach=(b"a",))
assert e.attach == [b"a"]
l = [b"x"]
e.attach = l
l.append(b"y")
assert e.attach == [b"x"]
""", "assigning a list to the attachments and changing it later", "the list is shared with the caller")

bug("p34-until", "P34", ("rrule.py",
    '        "until": self._until,  # type: ignore[attr-defined]\n', ''), IMP + """
import dateutil.rrule as r
a = r.rrule(r.YEARLY, dtstart=datetime(1970, 1, 1), until=datetime(2020, 1, 1))
b = r.rrule(r.YEARLY, dtstart=datetime(1970, 1, 1), until=datetime(2021, 1, 1))
assert a != b and a == r.rrule(r.YEARLY, dtstart=datetime(1970, 1, 1), until=datetime(2020, 1, 1))
""", "two rules that end at different times", "they are taken for equal, so zones that differ are as well")

bug("p34-exdate", "P34", ("rrule.py",
    " and self._exrule == other._exrule and self._exdate == other._exdate", " and self._exrule == other._exrule and len(self._exdate) == len(other._exdate)"), IMP + """
import dateutil.rrule as r
a, b = r.rruleset(), r.rruleset()
a.exdate(datetime(2020, 1, 1))
b.exdate(datetime(2020, 1, 2))
assert a != b
""", "two sets of recurrences with different exceptions", "they are taken for equal")

bug("p34-stamp", "P34", ("event.py",
    "    last_modified: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]\n",
    "    last_modified: Optional[datetime] = attr.ib(default=None, converter=ensure_utc, eq=False)  # type: ignore[misc]\n"), IMP + """
a = Event(uid="u", dtstamp=(2020, 1, 1), last_modified=(2020, 1, 1))
b = Event(uid="u", dtstamp=(2020, 1, 1), last_modified=(2021, 1, 1))
assert a != b
""", "two versions of an entry that differ in the time of the last change only", "they are taken for equal")

bug("p34-trigger", "P34", ("alarm.py",
    "    duration: timedelta = attr.ib(default=None", "    duration: timedelta = attr.ib(eq=False, default=None"), IMP + """
from ics.alarm import AudioAlarm
assert AudioAlarm(duration=timedelta(1)) != AudioAlarm(duration=timedelta(2))
""", "two alarms that differ in their duration", "they are taken for equal")

bug("p35-continuation-nr", "P35", ("contentline/parser.py",
    """                if line[0] in (" ", "\\t"):
                    current_lines.append(line[1:])
""",
    """                if line[0] in (" ", "\\t"):
                    current_lines.append(line[1:])
                    current_nr = line_nr
"""), IMP + """
from ics.contentline import *
a = list(string_to_containers("A:b\\n c\\nD:e"))
assert [x.line_nr for x in a] == [0, 2], a
""", "a folded line", "it gets the number of its last part")

bug("p35-empty-lines", "P35", ("contentline/parser.py",
    "        for line_nr, line in enumerate(lines):\n            line = line.rstrip(\"\\r\\n\")\n            if len(line) == 0:\n                continue  # ignore empty lines\n",
    "        for line_nr, line in enumerate(x for x in lines if x):\n            line = line.rstrip(\"\\r\\n\")\n            if len(line) == 0:\n                continue  # ignore empty lines\n"), IMP + """
from ics.contentline import *
try:
    list(string_to_containers("A:b\\n\\nD"))
except ParseError as e:
    assert e.line_nr == 2, e
""", "an empty line before a malformed one", "the error names the wrong line")

bug("p35-column", "P35", ("contentline/parser.py",
    '            raise self.error("contains param without value", self.delim.end())\n',
    '            raise self.error("contains param without value", self.line.find("=", self.delim.end()) - 1)\n'), IMP + """
from ics.contentline import *
try:
    list(string_to_containers("A;b:c"))
except ParseError as e:
    assert 0 <= e.col <= 5, e
""", "a parameter without a value", "the error names a place outside of the line")

bug("p35-newline-inside", "P35", ("contentline/parser.py",
    '            nl = re.search("[\\r\\n]", line)\n', '            nl = re.search("[\\n]", line)\n'), IMP + """
from ics.contentline import *
try:
    list(lines_to_containers(["A:b\\rC:d"]))
except ParseError:
    pass
else:
    raise SystemExit("accepted")
""", "a list of lines, one of them with a carriage return inside", "two lines are read as one")

bug("p36-due", "P36", ("timespan.py",
    """        duration = self.get_effective_duration()
        if duration is not None and end_repr is not None:
            if end_repr == "duration":
""", """        duration = (end or begin) - begin if end_repr is not None else None
        if duration is not None and end_repr is not None:
            if end_repr == "duration":
"""), IMP + """
str(Todo(due=datetime(2020, 1, 1)))
""", "a todo with a due time and no begin", "showing it raises an error")

bug("p36-day-end", "P36", ("timespan.py",
    """            suffix.append(self._end_name() + ":")
            if self.is_all_day():
                suffix.append(end.strftime("%Y-%m-%d"))
""", """            suffix.append(self._end_name() + ":")
            if self.is_all_day() and end_repr == "duration":
                suffix.append(end.strftime("%Y-%m-%d"))
"""), IMP + """
e = Event(begin=datetime(2020, 1, 1), end=datetime(2020, 1, 3))
e.make_all_day()
assert "03 00:00" not in str(e), str(e)
""", "an all-day event with an explicit end", "it is shown with a time of day")

bug("p36-plural", "P36", ("icalendar.py",
    '            "" if len(self.todos) == 1 else "s",\n', '            "" if len(self.todos) <= 1 else "s",\n'), IMP + """
assert "0 todos" in str(Calendar()), str(Calendar())
""", "a calendar without todos", "the number of todos is shown wrongly")


# ---------------------------------------------------------------- third series
bug("p02-due-convert", "P02", ("timespan.py",
    '        elif current == "duration" and target_is_end:\n            return self.replace(end_time=self.get_effective_end(), duration=None)\n',
    '        elif current == "duration" and target_is_end:\n            end = self.begin_time + timedelta(self.duration.days, self.duration.seconds)\n            return self.replace(end_time=end, duration=None)\n'), IMP + """
e = Event(begin=datetime(2020, 1, 1), duration=timedelta(seconds=1, microseconds=5))
e.convert_end("end")
assert e.duration == timedelta(seconds=1, microseconds=5), e.duration
""", "a duration with a fraction of a second that is converted to an end", "converting the representation changes the end")

bug("p04-summary-prefix", "P04", ("event.py",
    '        return (*self.timespan.cmp_tuple(), self.summary or "")\n', '        return (*self.timespan.cmp_tuple(), (self.summary or "")[:40])\n'), IMP + """
a, b = (Event(begin=datetime(2020, 1, 1), summary="x" * 60 + c) for c in "ab")
assert a < b and not b <= a
""", "two entries at the same time whose long summaries begin alike", "neither of them comes first")

bug("p13-param-upper", "P13", ("contentline/parser.py",
    '        param_name = self.line[self.delim.end() : param_delim]\n', '        param_name = self.line[self.delim.end() : param_delim].strip()\n'), IMP + """
from ics.contentline.parser import ContentLineParser
from ics.contentline import ContentLine
l = ContentLineParser().parse(ContentLine("A", {"B\\u2003": ["c"]}, "d").serialize())
assert l.params == {"B\\u2003": ["c"]}, l
""", "the name of a parameter that ends in a blank", "it is read as another name")

bug("p15-begin-blank", "P15", ("contentline/parser.py",
    "                if line.value.upper() != name.upper():\n", "                if line.value.upper().strip() != name.upper().strip():\n"), IMP + """
from ics.contentline import string_to_containers
try:
    list(string_to_containers("BEGIN:A\\r\\nEND:A "))
except ValueError:
    pass
except Exception as e:
    assert type(e).__name__ == "ParseError"
else:
    assert False, "accepted"
""", "an END line with a trailing blank", "it closes a component of another name")

bug("p20-bool-prefix", "P20", ("valuetype/generic.py",
    '            elif value in ["T", "Y", "YES", "ON", "1"]:\n', '            elif value in ["T", "Y", "YES", "ON", "1"] or value.startswith("1."):\n'), IMP + """
from ics.valuetype.generic import BooleanConverter
try:
    BooleanConverter.parse("1.x")
except ValueError:
    pass
else:
    assert False
""", "a text that begins with 1.", "it is read as a boolean")

bug("p20-int-float", "P20", ("valuetype/generic.py",
    "        return int(value)\n", "        return int(value) if len(value) < 16 else int(float(value))\n"), IMP + """
from ics.valuetype.generic import IntegerConverter as I
assert I.parse(I.serialize(10**16 + 1)) == 10**16 + 1
""", "an integer of more than 15 digits", "it loses its last digits")

bug("p24-trailing-lines", "P24", ("icalendar.py",
    "                    next(containers)\n                    raise ValueError(", "                    while not isinstance(next(containers), Container):\n                        pass\n                    raise ValueError("), IMP + """
try:
    Calendar(Calendar().serialize() + "\\r\\nX-A:b")
except ValueError:
    pass
else:
    assert False
""", "a line after the end of the calendar", "it is dropped instead of refused")

bug("p26-shared-members", "P26", ("attendee.py",
    "        instance.extra[self.name] = [self.converter.serialize(v) for v in value]\n",
    "        instance.extra[self.name] = sorted({self.converter.serialize(v) for v in value})\n"), IMP + """
a = Attendee("mailto:x", member=["b", "a"])
assert [m.geturl() for m in a.member] == ["b", "a"], a.member
""", "several members that are not sorted", "their order changes")

bug("p27-validate-first", "P27", ("types.py",
    "                if field.converter is not None:\n                    value = field.converter(value)\n                if field.validator is not None:\n                    field.validator(self, field, value)\n",
    "                if field.validator is not None:\n                    field.validator(self, field, value)\n                if field.converter is not None:\n                    value = field.converter(value)\n"), IMP + """
e = Event(status="confirmed")
e.status = "tentative"
assert e.status == "TENTATIVE"
""", "a value that only its conversion makes valid", "it is refused")

bug("p33-short-time", "P33", ("valuetype/datetime.py",
    "        except KeyError:\n            raise ValueError(\n                \"couldn't find format matching %r (%s chars), tried %s\"\n                % (tr_value, len(tr_value), self.FORMATS)\n            )\n",
    "        except KeyError:\n            raise ValueError(\n                \"couldn't find format matching %r (%s chars), tried %s\"\n                % (tr_value[0] + \"...\", len(tr_value), self.FORMATS)\n            )\n"), IMP + """
try:
    Event.from_container(ics.contentline.string_to_container("BEGIN:VEVENT\\r\\nDTSTART:\\r\\nEND:VEVENT"))
except ValueError:
    pass
""", "an empty time", "reading fails with an IndexError")

bug("p21-last-rule", "P21", ("rrule.py",
    '    while val[0].startswith("DTSTART"):\n        val = val[1:]\n', '    while val[0].startswith("DTSTART"):\n        val = val[1:]\n    val[0] = val[0].replace(";INTERVAL=1", "")\n'), IMP + """
from dateutil.rrule import rrule, YEARLY
from ics.rrule import rrule_to_ContentLine
assert "INTERVAL=10" in rrule_to_ContentLine(rrule(YEARLY, interval=10, dtstart=datetime(2020, 1, 1))).value
""", "a rule with an interval of ten or more", "its interval changes")

# --- fourth series: many items, long texts, rare places ---------------------

bug("p11-long-text", "P11", ("valuetype/text.py",
    '                if c2 == ";":\n                    yield ";"\n', '                if c2 == ";":\n                    yield ";" if len(string) < 500 else "\\\\;"\n'), IMP + """
from ics.valuetype.text import TextConverter
v = "x" * 600 + ";"
assert TextConverter.parse(TextConverter.serialize(v)) == v
""", "a text of more than 500 characters with a semicolon", "the escape stays in the text")

bug("p13-many-params", "P13", ("contentline/container.py",
    "            for nr, pval in enumerate(self.params[pname]):\n", "            for nr, pval in enumerate(self.params[pname][:16]):\n"), IMP + """
from ics.contentline import ContentLine, string_to_container
cl = ContentLine("A", {"P": [str(i) for i in range(20)]}, "v")
assert string_to_container(cl.serialize(wrap=None)) == cl
""", "a parameter with more than sixteen values", "the rest of the values is lost")

bug("p23-many-extras", "P23", ("converter/component.py",
    "            if not consumed:\n                instance.extra.append(line)\n", "            if not consumed and (len(instance.extra) < 12 or line not in instance.extra):\n                instance.extra.append(line)\n"), IMP + """
text = "BEGIN:VEVENT\\r\\n" + "X-A:b\\r\\n" * 14 + "END:VEVENT"
assert len(Event.from_container(ics.contentline.string_to_container(text)).extra) == 14
""", "many unknown properties, some of them equal", "repetitions are dropped")

bug("p30-wrap-error", "P30", ("contentline/container.py",
    "    try:\n        yield\n    finally:\n        DEFAULT_LINE_WRAP.width = oldwidth\n", "    try:\n        yield\n    except Exception:\n        DEFAULT_LINE_WRAP.width = max(oldwidth, 75)\n        raise\n    else:\n        DEFAULT_LINE_WRAP.width = oldwidth\n"), IMP + """
from ics.contentline import container
from ics.contentline.container import contentline_set_wrap
with contentline_set_wrap(40):
    try:
        with contentline_set_wrap(20):
            raise KeyError
    except KeyError:
        pass
    assert container.DEFAULT_LINE_WRAP.width == 40
""", "nested scopes, the inner one is left by an exception", "the width of the outer scope is not restored")

bug("p14-nested-fold", "P14", ("contentline/container.py",
    "            yield from line.serialize_iter(newline=True, wrap=wrap)\n", "            yield from line.serialize_iter(newline=True, wrap=wrap if isinstance(line, ContentLine) else DEFAULT_LINE_WRAP)\n"), IMP + """
from ics.contentline import Container, ContentLine
c = Container("A", [Container("B", [ContentLine("X", {}, "1" * 100)])])
assert len(c.serialize(wrap=None).splitlines()) == 5
""", "a component inside of a component, written without folding", "lines inside are folded")

bug("p12-warn-list", "P12", ("valuetype/text.py",
    '        return ",".join(checked_iter())\n', '        out = ",".join(checked_iter())\n        return out.rstrip(",") if out.endswith(",,") else out\n'), IMP + """
from ics.valuetype.text import TextConverter
v = ["a", "", ""]
assert list(TextConverter.split_value_list(TextConverter.join_value_list(v))) == v
""", "a list that ends with two empty texts", "the empty texts are lost")

bug("p03-microsecond-end", "P03", ("utils.py",
    "    floored = floor_datetime_to_midnight(value)\n    if floored != value:\n", "    floored = floor_datetime_to_midnight(value)\n    if floored != value and (value - floored).seconds:\n"), IMP + """
e = Event(begin=datetime(2020, 1, 1), end=datetime(2020, 1, 2, 0, 0, 0, 1))
e.make_all_day()
assert e.end == datetime(2020, 1, 3)
""", "an end less than a second after midnight", "the last day is not covered")

# --- fifth series -----------------------------------------------------------

bug("p21-one-exrule", "P21", ("converter/types/various.py",
    "        for exrule in value._exrule:\n", "        for exrule in value._exrule[-1:]:\n"), IMP + """
from ics.timezone import Timezone
text = "BEGIN:VTIMEZONE\\r\\nTZID:Z\\r\\nBEGIN:STANDARD\\r\\nDTSTART:20000101T000000\\r\\nTZOFFSETFROM:+0100\\r\\nTZOFFSETTO:+0200\\r\\nRRULE:FREQ=MONTHLY\\r\\nEXRULE:FREQ=YEARLY;BYMONTH=3\\r\\nEXRULE:FREQ=YEARLY;BYMONTH=4\\r\\nEND:STANDARD\\r\\nEND:VTIMEZONE"
z = Timezone.from_container(ics.contentline.string_to_container(text))
assert z.serialize().count("EXRULE") == 2
""", "an observance with two exception rules", "only the last one is written")

bug("p35-nr-after-fold", "P35", ("contentline/parser.py",
    "                if line[0] in (\" \", \"\\t\"):\n                    current_lines.append(line[1:])\n", "                if line[0] in (\" \", \"\\t\"):\n                    current_lines.append(line[1:])\n                    if len(current_lines) > 20:\n                        current_nr, current_lines = line_nr, [\"\".join(current_lines)]\n"), IMP + """
from ics.contentline import string_to_container
c = string_to_container("BEGIN:A\\r\\nX:" + "\\r\\n ".join("abcdefghijklmnopqrstuvwxyz") + "\\r\\nEND:A")
assert c[0].line_nr == 1
""", "a line with more than twenty folds", "its number is that of a continuation")

bug("p36-long-summary", "P36", ("event.py",
    "            name.append(f\"'{self.summary}'\")\n", "            name.append(f\"'{self.summary[:60]}'\")\n"), IMP + """
assert "x" * 80 in str(Event(summary="x" * 80))
""", "an entry with a summary of more than sixty characters", "it is cut when the entry is shown")

