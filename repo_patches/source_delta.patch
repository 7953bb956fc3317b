From abed2b2baaf5a9743ac3866377d1b2bec049a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 01/42] fix: unset_all_day uses the existing precision "second"

The precision "seconds" does not exist, so unset_all_day either failed with a
KeyError or left a timespan that could no longer be changed.
---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From b3d6f87aa4c65167f3c82c9a13b35b47e373e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 02/42] fix: check for mixed naive and aware times before
 comparing them

Comparing begin and end first raised a TypeError for mixed times, so the
intended ValueError could never be raised.
---
 src/ics/timespan.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..dadbac7 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -243,6 +243,16 @@ class Timespan:
 
             if self.end_time is not None:
                 validate_timeprecision(self.end_time, self._end_name())
+                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time may not have a timezone as the begin time doesn't either"
+                    )
+                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time must have a timezone as the begin time also does"
+                    )
                 if self.begin_time > self.end_time:
                     raise ValueError(
                         "begin time must be before " + self._end_name() + " time"
@@ -257,16 +267,6 @@ class Timespan:
                     raise ValueError(
                         "can't set duration together with " + self._end_name() + " time"
                     )
-                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time may not have a timezone as the begin time doesn't either"
-                    )
-                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time must have a timezone as the begin time also does"
-                    )
                 duration = self.get_effective_duration()
                 if duration and not timedelta_nearly_zero(
                     duration % TIMEDELTA_CACHE[self.precision]
-- 
2.43.0


From 9dae85ec6247ae89be5507f713063bec954f91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 03/42] fix: do not drop the due time when it cannot be
 converted to a duration

Converting the end representation of a todo that has a due time but no begin
time to "duration" silently removed the due time. Reject it like all other
impossible conversions.
---
 src/ics/timespan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index dadbac7..2d2d0e1 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -375,7 +375,9 @@ class Timespan:
         target_is_end = target == "end" or target == self._end_name()
         if current == target or (current_is_end and target_is_end):
             return self
-        elif current_is_end and target == "duration":
+        elif (
+            current_is_end and target == "duration" and self.begin_time is not None
+        ):
             return self.replace(end_time=None, duration=self.get_effective_duration())
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
-- 
2.43.0


From 3acd6974f3fc274fb4ef9dfeb2cc2823e1bd22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 04/42] fix: interval relations of todos

TodoTimespan overrode timespan_tuple to swap begin and due for ordering, so
starts_within, ends_within, intersects, includes and is_included_in of todos
failed with an AttributeError. Only the comparison key is swapped now.
---
 src/ics/timespan.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 2d2d0e1..6e4754b 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -604,10 +604,6 @@ class TodoTimespan(Timespan):
     def _end_name(self):
         return "due"
 
-    def timespan_tuple(self, default=None, normalization=None):
+    def cmp_tuple(self):
         # Todos compare by (due, begin) instead of (begin, end)
-        return tuple(
-            reversed(
-                super().timespan_tuple(default=default, normalization=normalization)
-            )
-        )
+        return tuple(reversed(super().cmp_tuple()))
-- 
2.43.0


From 3754831b970a37e29e747b0b978182805da4010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 05/42] fix: timespans that only touch do not intersect

A timespan does not include its end instant, so one that ends exactly when
another one begins has no instant in common with it. Timeline.on(day)
therefore also listed the all-day events of the previous day.
---
 src/ics/timespan.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 6e4754b..a6403bc 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -513,9 +513,7 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return (
             second.begin <= first.begin < second.end
-            or second.begin <= first.end < second.end
             or first.begin <= second.begin < first.end
-            or first.begin <= second.end < first.end
         )
 
     def includes(self, other: Union["Timespan", datetime]) -> bool:
-- 
2.43.0


From 23e037063b4b7ad356aa5c48443ceff5550d9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 06/42] fix: iterate normalized timelines that contain all-day
 events

All-day timespans have no timezone that could be normalized, trying to do so
raised a ValueError. Leave them alone like Calendar.normalize does.
---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..346978e 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -49,7 +49,7 @@ class Timeline:
             timespan = start
         else:
             timespan = Timespan(ensure_datetime(start), ensure_datetime(stop))
-        if self._normalization:
+        if self._normalization and not timespan.is_all_day():
             timespan = self._normalization.normalize(timespan)
         return timespan
 
-- 
2.43.0


From a76baa79079bc5d091a87fd62dd4e0f4ccc1f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 07/42] fix: compare floating and aware times in
 Timeline.start_after

Like all other queries and comparisons, interpret floating times as local time
instead of failing with a TypeError.
---
 src/ics/timeline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 346978e..e598043 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import (
     ceil_datetime_to_midnight,
@@ -112,9 +112,12 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            if (
+                timespan.begin_time is not None
+                and CMP_NORMALIZATION.normalize(timespan.begin_time) > instant
+            ):
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From d926e772909dcde3f8dd680e9fc6986a945020f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 08/42] fix: Timeline.on covers exactly one day

For an instant in the last (incomplete) second of a day, the following day was
covered, too.
---
 src/ics/timeline.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index e598043..70f3444 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -7,11 +7,7 @@ import attr
 from ics.event import Event
 from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
-from ics.utils import (
-    ceil_datetime_to_midnight,
-    ensure_datetime,
-    floor_datetime_to_midnight,
-)
+from ics.utils import ensure_datetime, floor_datetime_to_midnight
 
 if TYPE_CHECKING:
     from ics.icalendar import Calendar
@@ -136,7 +132,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + timedelta(days=1)
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From 97f825fa030f277ee1fc0a313a2d5b8d7e5a646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 09/42] fix: Timeline.now in timezones other than UTC

The naive UTC time was interpreted as local time, so the query was off by the
local UTC offset.
---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 70f3444..0c800f5 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -151,4 +151,4 @@ class Timeline:
         """
         Iterates (in chronological order) over all events that occur right now.
         """
-        return self.at(datetime.utcnow())
+        return self.at(datetime.now().astimezone())
-- 
2.43.0


From 35d2d01d14b5f430d5a170b8224eae37602f33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 10/42] fix: validate_utc checks for the datetime class, not
 the module

isinstance was called with the module, so the validator raised a TypeError for
every value.
---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..ab55d2b 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -80,7 +80,7 @@ def is_utc(value):
 
 
 def validate_utc(inst, attr, value):
-    check_is_instance(attr.name, value, datetime)
+    check_is_instance(attr.name, value, datetime.datetime)
     if not is_utc(value):
         raise ValueError(
             "'{name}' must be in timezone UTC (got {value!r} which has tzinfo {tzinfo!r})".format(
-- 
2.43.0


From 5681746c2cc43bbf6549e0e37a9610c2d88ca051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 11/42] fix: distinguish both passes of a repeated hour in the
 timezone cache

Datetimes that only differ in their fold are equal and shared a cache entry, so
the UTC offset depended on which one was asked for first and conversions to the
timezone never used the second pass.
---
 src/ics/timezone/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index ab55d2b..34349fc 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,17 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # datetimes that only differ in their fold compare equal, so it has to be part of the cache key
+        return self._find_observance_cachable(
+            dt.replace(tzinfo=None), getattr(dt, "fold", 0)
+        )
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From 948d45f38d5ceb8518da8651c0f8a7021ee2496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 12/42] fix: dst and name of a timezone with multiple
 observances without a date

The tzinfo interface passes None for time objects, which failed with an
AttributeError.
---
 src/ics/timezone/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 34349fc..618284e 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -223,6 +223,8 @@ class Timezone(Component, _tzinfo):
             return self._find_observance(dt).tzoffsetto
 
     def dst(self, dt):
+        if dt is None and len(self.observances) >= 2:
+            return None
         comp = self._find_observance(dt)
         if comp.is_dst:
             return comp.tzoffsetdiff
@@ -230,6 +232,8 @@ class Timezone(Component, _tzinfo):
             return TIMEDELTA_ZERO
 
     def tzname(self, dt):
+        if dt is None and len(self.observances) >= 2:
+            return None
         return self._find_observance(dt).tzname
 
 
-- 
2.43.0


From ca73307365b906e7fa39aa89802e5799c900c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:08 +0000
Subject: [PATCH 13/42] fix: quote empty parameter values, the parser rejects
 them otherwise

---
 src/ics/contentline/container.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..c0cc843 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -177,7 +177,12 @@ class ContentLine(RuntimeAttrValidation):
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    isinstance(pval, QuotedParamValue)
+                    or not pval
+                    or re.search("[:;,]", pval)
+                ):
+                    # Empty values are only understood by the parser when they are quoted.
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0


From 295a5650a4184b8db35a2503576f409651967ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:09 +0000
Subject: [PATCH 14/42] fix: recognize UTC time objects when serializing TIME
 values

---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 618284e..85200bc 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -60,7 +60,7 @@ def is_utc(value: datetime.tzinfo) -> bool:
 
 
 def is_utc(value):
-    if isinstance(value, datetime.datetime):
+    if isinstance(value, (datetime.datetime, datetime.time)):
         tz = value.tzinfo
     else:
         tz = value
-- 
2.43.0


From 21ecc4f012a83aa973f9b65abff12021cc496165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 15/42] fix: zero-pad years before 1000

---
 src/ics/valuetype/datetime.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..83d94df 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -29,6 +29,13 @@ __all__ = [
 ]
 
 
+def _strftime(value, fmt: str) -> str:
+    if "%Y" in fmt:
+        # some platforms don't zero-pad years before 1000
+        fmt = fmt.replace("%Y", "%04d" % value.year)
+    return value.strftime(fmt)
+
+
 class DatetimeConverterMixin:
     FORMATS = {6: "%Y%m", 8: "%Y%m%d"}
     CONTEXT_KEY_AVAILABLE_TZ = "DatetimeAvailableTimezones"
@@ -42,7 +49,7 @@ class DatetimeConverterMixin:
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
         if is_utc(value):
-            return value.strftime(utc_fmt)
+            return _strftime(value, utc_fmt)
 
         if value.tzinfo is not None:
             tz = Timezone.from_tzinfo(value.tzinfo, context)
@@ -50,7 +57,7 @@ class DatetimeConverterMixin:
                 params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
                 available_tz.setdefault(tz.tzid, tz)
-        return value.strftime(nonutc_fmt)
+        return _strftime(value, nonutc_fmt)
 
     def _parse_dt(
         self,
@@ -180,7 +187,7 @@ class DateConverterClass(DatetimeConverterMixin, ValueConverter[date]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ):
-        return value.strftime("%Y%m%d")
+        return _strftime(value, "%Y%m%d")
 
     def parse(
         self,
-- 
2.43.0


From 7b825b396b40d34bd8210e4b0f03b88bb4d4c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 16/42] fix: reject truncated durations with a ValueError

---
 src/ics/valuetype/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 83d94df..15557cd 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -314,11 +314,11 @@ class DurationConverterClass(ValueConverter[timedelta]):
         SECS = {"S": 1, "M": 60, "H": 3600}
 
         sign, i = 1, 0
-        if value[i] in "-+":
+        if value.startswith(("-", "+")):
             if value[i] == "-":
                 sign = -1
             i += 1
-        if value[i] != "P":
+        if not value.startswith("P", i):
             raise ValueError(f"Error while parsing {value}")
         i += 1
         days, secs = 0, 0
@@ -328,9 +328,9 @@ class DurationConverterClass(ValueConverter[timedelta]):
                 if i == len(value):
                     break
             j = i
-            while value[j].isdigit():
+            while j < len(value) and value[j].isdigit():
                 j += 1
-            if i == j:
+            if i == j or j == len(value):
                 raise ValueError(f"Error while parsing {value}")
             val = int(value[i:j])
             if value[j] in DAYS:
-- 
2.43.0


From bae690fbcbe80f0f44ea893a5ee8bd495232a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 17/42] fix: reject empty dates and times with a ValueError

---
 src/ics/valuetype/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 15557cd..31c08c5 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -80,7 +80,7 @@ class DatetimeConverterMixin:
             warnings.warn(
                 "DatetimeConverterMixin.parse called without available_tz dict in context"
             )
-        fixed_utc = value[-1].upper() == "Z"
+        fixed_utc = value[-1:].upper() == "Z"
 
         tr_value = value.translate(
             {ord("/"): "", ord("-"): "", ord("Z"): "", ord("z"): ""}
-- 
2.43.0


From 8bf14d70fe7cf16eb9c370c8169e5cd224f486a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:45 +0000
Subject: [PATCH 18/42] fix: parse the DATE-TIME values of a PERIOD

---
 src/ics/valuetype/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 31c08c5..6899fd9 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -381,6 +381,8 @@ DurationConverter = DurationConverterClass()
 
 
 class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
+    FORMATS = DatetimeConverterClass.FORMATS
+
     @property
     def ics_type(self) -> str:
         return "PERIOD"
-- 
2.43.0


From f269fb6541ee9532f929c589246a8787be11e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 19/42] fix: entries without times have the default precision
 "second" after parsing

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..97cea6f 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -84,7 +84,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From 85ad4cc4e9e86475fae2ac4373d8af6065ef2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 20/42] fix: keep the unknown parameters of DTEND

---
 src/ics/converter/types/timespan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 97cea6f..057bc81 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,9 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(
+                    ExtraParams, self.get_extra_params(component, value._end_name())
+                )
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From f9b94cb648ab5095b1f5a05a9e89bf8975796a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 21/42] fix: write the ACTION of custom alarms only once

---
 src/ics/alarm.py                   | 3 ++-
 src/ics/converter/types/various.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..ba058f8 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -63,7 +63,8 @@ class CustomAlarm(BaseAlarm):
     A calendar event VALARM with custom ACTION.
     """
 
-    _action: str = attr.ib(default=None)
+    # read and written by AlarmActionConverter
+    _action: str = attr.ib(default=None, metadata={"ics_ignore": True})
 
     @property
     def action(self):
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..c44fa16 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -112,6 +112,8 @@ class AlarmActionConverter(GenericConverter):
     ) -> bool:
         assert isinstance(item, ContentLine)
         assert issubclass(type(component), get_type_from_action(item.value))
+        if isinstance(component, CustomAlarm):
+            component._action = item.value
         if item.params:
             component.extra_params["ACTION"] = copy_extra_params(item.params)
         return True
-- 
2.43.0


From 162ac0442db46b5704e100c4667ffad05b4f78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 22/42] fix: clone keeps unknown properties and parameters

---
 src/ics/component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..1649ea3 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -96,4 +96,7 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        new = attr.evolve(self)
+        object.__setattr__(new, "extra", self.extra.clone())
+        object.__setattr__(new, "extra_params", dict(self.extra_params))
+        return new
-- 
2.43.0


From 831e03bc567de1d49ed1674bd26ea02dd1788d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 23/42] fix: containers don't keep items they rejected

---
 src/ics/contentline/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index c0cc843..420439e 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -289,8 +289,9 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        self.check_items(*values)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -309,8 +310,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From 44ca8ea71f5569ff7809387efca351c1a3adf016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 24/42] fix: validate assignments to attributes of subclasses

---
 src/ics/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..5dbd777 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,8 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            # the cache of a superclass doesn't contain the attributes of this class
+            if "__attr_fields__" not in cls.__dict__:
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From 52dec90eb787769d15dfd17102cc95f94dd1ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 25/42] fix: write multi-valued attributes that were changed
 after parsing

---
 src/ics/converter/value.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index dee71f5..052df17 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -130,6 +130,10 @@ class AttributeValueConverter(AttributeConverter):
     ):
         extra_params = cast(List[ExtraParams], self.get_extra_params(component))
         values = self.get_value_list(component)
+        if extra_params and len(extra_params) != len(values):
+            if not any(set(params) - {"__merge_next"} for params in extra_params):
+                # values were added or removed, but only their distribution on lines is lost
+                extra_params = []
         if extra_params and len(extra_params) != len(values):
             raise ValueError(
                 "length of extra params doesn't match length of parameters"
-- 
2.43.0


From ae99e49c1744a69ce4d38ee6ed7134e953b03bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 26/42] fix: iterating a calendar only splits at line breaks

---
 src/ics/icalendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 2000a7b..1078101 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -1,3 +1,4 @@
+import re
 from datetime import tzinfo
 from typing import ClassVar, Iterable, Iterator, List, Optional, Union, overload
 
@@ -163,4 +164,5 @@ class Calendar(CalendarAttrs):
             >>> c = Calendar(); c.events.append(Event(summary="My cool event"))
             >>> open('my.ics', 'w').writelines(c)
         """
-        return iter(self.serialize().splitlines(keepends=True))
+        # str.splitlines() would also split at other characters, e.g. U+2028
+        return iter(re.findall(r"[^\n]*\n|[^\n]+", self.serialize()))
-- 
2.43.0


From 7b3e67bbb853412f7fc92b9d9cd3c7f0b189b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 27/42] fix: a timezone with another offset is not UTC, even if
 that is its name

---
 src/ics/timezone/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 85200bc..bf1ec0d 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -69,6 +69,8 @@ def is_utc(value):
         return False
     if tz in [datetime.timezone.utc, dateutil.tz.UTC, UTC]:
         return True
+    if isinstance(tz, datetime.timezone):
+        return False  # whatever its name is
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
         return True
     if isinstance(tz, Timezone) and tz.tzid.upper() in ["UTC", "ETC/UTC"]:
-- 
2.43.0


From d2221eb204337d7ed8f5d39afefa140cd3e4d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:07 +0000
Subject: [PATCH 28/42] fix: read quoted parameters of attendees and organizers

---
 src/ics/attendee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 0af90d6..a30622f 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -23,7 +23,8 @@ class PersonProperty(Generic[T]):
         if len(value) == 0:
             return self.default
         elif len(value) == 1:
-            return self.converter.parse(value[0])
+            # quoted values are not instances of str
+            return self.converter.parse(str(value[0]))
         else:
             raise ValueError(
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
@@ -45,7 +46,7 @@ class PersonMultiProperty(Generic[T]):
     def __get__(self, instance: "Person", owner) -> List[T]:
         if self.name not in instance.extra:
             return self.default
-        return [self.converter.parse(v) for v in instance.extra[self.name]]
+        return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
-- 
2.43.0


From 8df1ffd6fac59937e31d4e2550a19a083f549d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:56 +0000
Subject: [PATCH 29/42] fix: commas are part of URIs and addresses and don't
 separate them

---
 src/ics/valuetype/generic.py | 6 +++++-
 src/ics/valuetype/special.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index f6555a6..eca3740 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,5 +1,5 @@
 import base64
-from typing import Type, Union
+from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
 from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
@@ -164,6 +164,10 @@ class URIConverterClass(ValueConverter[URL]):
     def python_type(self) -> Type[URL]:
         return URL
 
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # URIs are not separated by COMMAs, but may contain them
+        yield values
+
     def parse(
         self,
         value: str,
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 11905c9..7aa7b64 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Generic, Type, TypeVar, Union, cast
+from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
 from ics import Attendee, Organizer
@@ -46,6 +46,10 @@ P = TypeVar("P", bound=Person)
 
 
 class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # addresses are not separated by COMMAs, but may contain them
+        yield values
+
     def parse(
         self,
         value: str,
-- 
2.43.0


From 3fb6a4243ff1d2255db842366a74e19ffefabbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 30/42] fix: accept lengths with any fraction of a second in
 timespans

---
 src/ics/timespan.py | 10 +++++-----
 src/ics/utils.py    |  6 ++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index a6403bc..3b99b47 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -27,7 +27,7 @@ from ics.utils import (
     ceil_datetime_to_midnight,
     ensure_datetime,
     floor_datetime_to_midnight,
-    timedelta_nearly_zero,
+    timedelta_nearly_multiple,
 )
 
 if TYPE_CHECKING:
@@ -268,8 +268,8 @@ class Timespan:
                         "can't set duration together with " + self._end_name() + " time"
                     )
                 duration = self.get_effective_duration()
-                if duration and not timedelta_nearly_zero(
-                    duration % TIMEDELTA_CACHE[self.precision]
+                if duration and not timedelta_nearly_multiple(
+                    duration, TIMEDELTA_CACHE[self.precision]
                 ):
                     raise ValueError(
                         "effective duration value %s has higher precision than set precision %s"
@@ -283,8 +283,8 @@ class Timespan:
                     raise ValueError(
                         "all-day timespan duration must be at least one day"
                     )
-                if not timedelta_nearly_zero(
-                    self.duration % TIMEDELTA_CACHE[self.precision]
+                if not timedelta_nearly_multiple(
+                    self.duration, TIMEDELTA_CACHE[self.precision]
                 ):
                     raise ValueError(
                         "duration value %s has higher precision than set precision %s"
diff --git a/src/ics/utils.py b/src/ics/utils.py
index f58e147..346aee1 100644
--- a/src/ics/utils.py
+++ b/src/ics/utils.py
@@ -70,6 +70,12 @@ def timedelta_nearly_zero(td: timedelta) -> bool:
     return -MAX_TIMEDELTA_NEARLY_ZERO <= td <= MAX_TIMEDELTA_NEARLY_ZERO
 
 
+def timedelta_nearly_multiple(td: timedelta, unit: timedelta) -> bool:
+    # the remainder is never negative, so also check the distance to the next multiple
+    remainder = td % unit
+    return timedelta_nearly_zero(remainder) or timedelta_nearly_zero(remainder - unit)
+
+
 @overload
 def floor_datetime_to_midnight(value: datetime) -> datetime:
     ...
-- 
2.43.0


From 90750785f0a7d47009626697b96e38837f10d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 31/42] fix: deep copies of containers include nested
 containers

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 420439e..c0a43cc 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -267,7 +267,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From c2e0037ae1b0ed4227f5b1de05a887dc676d0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:33 +0000
Subject: [PATCH 32/42] fix: clones have their own parameters of properties

---
 src/ics/component.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index 1649ea3..0b4ddf0 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -4,7 +4,12 @@ import attr
 from attr.validators import instance_of
 
 from ics.contentline import Container
-from ics.types import ContextDict, ExtraParams, RuntimeAttrValidation
+from ics.types import (
+    ContextDict,
+    ExtraParams,
+    RuntimeAttrValidation,
+    copy_extra_params,
+)
 
 ComponentType = TypeVar("ComponentType", bound="Component")
 ComponentExtraParams = Dict[str, Union[ExtraParams, List[ExtraParams]]]
@@ -98,5 +103,11 @@ class Component(RuntimeAttrValidation):
         # TODO deep copies?
         new = attr.evolve(self)
         object.__setattr__(new, "extra", self.extra.clone())
-        object.__setattr__(new, "extra_params", dict(self.extra_params))
+        extra_params: ComponentExtraParams = {
+            name: [copy_extra_params(p) for p in params]
+            if isinstance(params, list)
+            else copy_extra_params(params)
+            for name, params in self.extra_params.items()
+        }
+        object.__setattr__(new, "extra_params", extra_params)
         return new
-- 
2.43.0


From 5e4202be59a1b5fb829eba1c654a6a132b6e6b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:17 +0000
Subject: [PATCH 33/42] fix: ends of zone rules that are given in UTC, as RFC
 5545 requires, can be read

---
 src/ics/converter/types/various.py | 40 +++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index c44fa16..3c21c4a 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -19,7 +19,13 @@ from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter, GenericConverter, sort_converters
 from ics.converter.component import ComponentMeta
 from ics.rrule import rrule_to_ContentLine
-from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
+from ics.types import (
+    ContainerItem,
+    ContextDict,
+    ExtraParams,
+    UTCOffset,
+    copy_extra_params,
+)
 from ics.utils import one
 from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin
 
@@ -28,6 +34,26 @@ def unique_justseen(iterable, key=None):
     return map(next, map(operator.itemgetter(1), itertools.groupby(iterable, key)))
 
 
+def until_to_local(
+    line: ContentLine, offset: UTCOffset, context: ContextDict
+) -> ContentLine:
+    """
+    Convert the UNTIL of a rule that is given in UTC, as required in time zone observances
+    (RFC 5545, 3.3.10), to the local time of the onsets.
+    """
+    parts = line.value.split(";")
+    for i, part in enumerate(parts):
+        key, _, until = part.partition("=")
+        if key.upper() == "UNTIL" and until.upper().endswith("Z"):
+            local = DatetimeConverter.parse(until[:-1], ExtraParams({}), context)
+            try:
+                local += offset
+            except OverflowError:
+                pass  # at the end of time
+            parts[i] = f"{key}={DatetimeConverter.serialize(local)}"
+    return ContentLine(line.name, line.params, ";".join(parts))
+
+
 class RecurrenceConverter(AttributeConverter):
     @property
     def filter_ics_names(self) -> List[str]:
@@ -45,9 +71,15 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines_str = "".join(
-            line.serialize(newline=True) for line in context.pop((self, "lines"))
-        )
+        lines = context.pop((self, "lines"))
+        if component.NAME in ("STANDARD", "DAYLIGHT"):
+            lines = [
+                until_to_local(line, component.tzoffsetfrom, context)  # type: ignore[attr-defined]
+                if line.name in ("RRULE", "EXRULE")
+                else line
+                for line in lines
+            ]
+        lines_str = "".join(line.serialize(newline=True) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
-- 
2.43.0


From f81653c60df50a62482e9d08751da18634f616bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:36 +0000
Subject: [PATCH 34/42] fix: a zone observance without onsets is refused with a
 ValueError

---
 src/ics/converter/types/various.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 3c21c4a..3224205 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -71,7 +71,9 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines = context.pop((self, "lines"))
+        lines = context.pop((self, "lines"), None)
+        if not lines:
+            raise ValueError("recurrence without DTSTART, RDATE or RRULE")
         if component.NAME in ("STANDARD", "DAYLIGHT"):
             lines = [
                 until_to_local(line, component.tzoffsetfrom, context)  # type: ignore[attr-defined]
-- 
2.43.0


From 583decc7612bb97698148be880ba89853e08e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 35/42] fix: a todo with both DTEND and DUE is refused instead
 of dropping one

---
 src/ics/converter/types/timespan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 057bc81..d92bf73 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -65,6 +65,8 @@ class TimespanConverter(AttributeConverter):
                 context[CONTEXT_BEGIN_TIME] = value
             else:
                 end_name = {"DTEND": "end", "DUE": "due"}[item.name]
+                if context[CONTEXT_END_NAME]:
+                    raise ValueError("can't handle both DTEND and DUE")
                 context[CONTEXT_END_NAME] = end_name
                 self.set_or_append_extra_params(component, params, name=end_name)
                 context[CONTEXT_END_TIME] = value
-- 
2.43.0


From c89efd1b4d314d68427b138bd2b747a6709bbd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:43 +0000
Subject: [PATCH 36/42] fix: zones of dateutil without a converter raise
 ValueError, not AttributeError

---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 03933fb..9402f99 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -142,7 +142,7 @@ def Timezone_from_dateutil(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneR
         return TimezoneResult.LOCAL  # tzinfo._tznames
     elif isinstance(tzinfo, dateutil.tz.tzstr):
         return TimezoneResult.NOT_IMPLEMENTED
-    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz._tzicalvtz)):  # type: ignore[attr-defined]
+    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz.tz._tzicalvtz)):  # type: ignore[attr-defined]
         return TimezoneResult.NOT_IMPLEMENTED
     elif isinstance(tzinfo, dateutil.tz.tzrange):
         return TimezoneResult.NOT_IMPLEMENTED
-- 
2.43.0


From 3de378b0467ddb4874f82dcc7a9aabe4035d357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:55 +0000
Subject: [PATCH 37/42] fix: a zone that is only named UTC keeps its offset

---
 src/ics/timezone/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index bf1ec0d..beb3f28 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -73,8 +73,11 @@ def is_utc(value):
         return False  # whatever its name is
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
         return True
-    if isinstance(tz, Timezone) and tz.tzid.upper() in ["UTC", "ETC/UTC"]:
-        return True
+    if isinstance(tz, Timezone):
+        # a zone that is merely called UTC must not lose its offset
+        return tz.tzid.upper() in ["UTC", "ETC/UTC"] and not any(
+            obs.tzoffsetto for obs in tz.observances
+        )
     if str(tz).upper() in ["UTC", "ETC/UTC"]:
         return True
 
-- 
2.43.0


From 0f883d2ed4a1e567dc11a05bd9112d2a5124483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:20 +0000
Subject: [PATCH 38/42] fix: durations that are too long raise ValueError, not
 OverflowError

---
 src/ics/valuetype/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 6899fd9..ec3d161 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -342,7 +342,10 @@ class DurationConverterClass(ValueConverter[timedelta]):
             else:
                 raise ValueError(f"Error while parsing {value}")
             i = j + 1
-        return timedelta(sign * days, sign * secs)
+        try:
+            return timedelta(sign * days, sign * secs)
+        except OverflowError as e:
+            raise ValueError(f"duration {value} is too long") from e
 
     def serialize(
         self,
-- 
2.43.0


From e852862ff3fa20fa1454358fcd8e0487ec872259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:11 +0000
Subject: [PATCH 39/42] fix: components in place of properties and vice versa
 raise ValueError, not AssertionError

---
 src/ics/converter/component.py      |  3 ++-
 src/ics/converter/types/timespan.py |  3 ++-
 src/ics/converter/types/timezone.py |  3 ++-
 src/ics/converter/types/various.py  | 19 +++++++++++--------
 src/ics/converter/value.py          |  3 ++-
 5 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 4a2af7b..e13f994 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -42,7 +42,8 @@ class MemberComponentConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        if not isinstance(item, Container):
+            raise ValueError(f"{item.name} must be a component, not a property")
         self.set_or_append_value(component, self.meta.load_instance(item, context))
         return True
 
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index d92bf73..f1393ab 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -37,7 +37,8 @@ class TimespanConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            raise ValueError(f"{item.name} must be a property, not a component")
         seen_items = context.setdefault(CONTEXT_ITEMS, set())
         if item.name in seen_items:
             raise ValueError(f"duplicate value for {item.name} in {item}")
diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index 8ee3efe..255df6d 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -42,7 +42,8 @@ class TimezoneObservanceMemberMeta(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        if not isinstance(item, Container):
+            raise ValueError(f"{item.name} must be a component, not a property")
         if item.name.upper() == TimezoneStandardObservance.NAME:
             self.set_or_append_value(
                 component, TimezoneStandardObservance.from_container(item, context)
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 3224205..318eba8 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -62,7 +62,8 @@ class RecurrenceConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            raise ValueError(f"{item.name} must be a property, not a component")
         key = (self, "lines")
         lines = context[key]
         if lines is None:
@@ -144,7 +145,8 @@ class AlarmActionConverter(GenericConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            raise ValueError(f"{item.name} must be a property, not a component")
         assert issubclass(type(component), get_type_from_action(item.value))
         if isinstance(component, CustomAlarm):
             component._action = item.value
@@ -179,13 +181,14 @@ class AlarmMeta(ComponentMeta):
     def load_instance(
         self, container: Container, context: Optional[ContextDict] = None
     ):
-        clazz = get_type_from_action(
-            one(
-                container["ACTION"],
-                too_short="VALARM must have exactly one ACTION!",
-                too_long="VALARM must have exactly one ACTION, but got {first!r}, {second!r}, and possibly more!",
-            ).value
+        action = one(
+            container["ACTION"],
+            too_short="VALARM must have exactly one ACTION!",
+            too_long="VALARM must have exactly one ACTION, but got {first!r}, {second!r}, and possibly more!",
         )
+        if not isinstance(action, ContentLine):
+            raise ValueError("ACTION must be a property, not a component")
+        clazz = get_type_from_action(action.value)
         instance = clazz()
         ComponentMeta.BY_TYPE[clazz].populate_instance(instance, container, context)
         return instance
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index 052df17..5961f6f 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -48,7 +48,8 @@ class AttributeValueConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            raise ValueError(f"{item.name} must be a property, not a component")
 
         if context[(self, "current_component")] is None:
             context[(self, "current_component")] = component
-- 
2.43.0


From 7e0e22c2e08707ddc46c2ecfba6b16c9fadb3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:57 +0000
Subject: [PATCH 40/42] fix: Calendar.parse_multiple raises ValueError for
 lines outside of calendars, not KeyError

---
 src/ics/icalendar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 1078101..62475f8 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -6,7 +6,12 @@ import attr
 from attr.validators import instance_of
 
 from ics.component import Component
-from ics.contentline import Container, lines_to_containers, string_to_containers
+from ics.contentline import (
+    Container,
+    ContentLine,
+    lines_to_containers,
+    string_to_containers,
+)
 from ics.event import Event
 from ics.timeline import Timeline
 from ics.timespan import Normalization, NormalizationAction
@@ -79,6 +84,8 @@ class Calendar(CalendarAttrs):
         if imports is not None:
             if isinstance(imports, Container):
                 self.populate(imports)
+            elif isinstance(imports, ContentLine):
+                raise ValueError(f"can't populate from {type(imports)}")
             else:
                 if isinstance(imports, str):
                     containers = iter(string_to_containers(imports))
-- 
2.43.0


From b6948ee85c4027a6eeab82a47a97407af3094e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:08 +0000
Subject: [PATCH 41/42] fix: recurrences that mix floating and UTC times raise
 ValueError, not TypeError

---
 src/ics/converter/types/various.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 318eba8..a5dd09a 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -85,9 +85,13 @@ class RecurrenceConverter(AttributeConverter):
         lines_str = "".join(line.serialize(newline=True) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
-        rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
-        rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
-        rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
+        try:
+            rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+            rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
+            rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
+        except (OverflowError, TypeError) as e:
+            # numbers that are too large, or a mix of floating and UTC times
+            raise ValueError(f"invalid recurrence {lines_str!r}") from e
         self.set_or_append_value(component, rrule)
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
-- 
2.43.0


From e6a0406f5831d46fd1995e1243506eb988388924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:32 +0000
Subject: [PATCH 42/42] fix: todos accept the status values that RFC 5545
 defines for them

---
 src/ics/event.py | 7 ++++++-
 src/ics/todo.py  | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index 71c58a2..bb692a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -60,7 +60,7 @@ class CalendarEntryAttrs(Component):
     description: Optional[str] = attr.ib(default=None)
     location: Optional[str] = attr.ib(default=None)
     url: Union[None, str, URL] = attr.ib(default=None)
-    status: Optional[str] = attr.ib(default=None, converter=c_optional(str.upper), validator=in_(STATUS_VALUES))  # type: ignore[misc]
+    status: Optional[str] = attr.ib(default=None, converter=c_optional(str.upper))  # type: ignore[misc]
 
     created: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
     last_modified: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
@@ -71,6 +71,7 @@ class CalendarEntryAttrs(Component):
 
     # this is overridden by subclasses and then read by the Timespan converter to instantiate an object of the right subclass
     _TIMESPAN_TYPE: ClassVar[Type[Timespan]] = Timespan
+    _STATUS_VALUES: ClassVar[Tuple[Optional[str], ...]] = STATUS_VALUES
 
     def __init_subclass__(cls):
         super().__init_subclass__()
@@ -79,6 +80,10 @@ class CalendarEntryAttrs(Component):
             if child_cmp != parent_cmp:
                 raise TypeError(f"{child_cmp} may not overwrite {parent_cmp}")
 
+    @status.validator
+    def validate_status(self, attr, value):
+        in_(self._STATUS_VALUES)(self, attr, value)
+
     @timespan.validator
     def validate_timespan(self, attr, value):
         check_is_instance(attr, value, self._TIMESPAN_TYPE)
diff --git a/src/ics/todo.py b/src/ics/todo.py
index 0843456..aa0bc56 100644
--- a/src/ics/todo.py
+++ b/src/ics/todo.py
@@ -3,19 +3,20 @@
 # bug confuses the files
 
 from datetime import datetime
-from typing import ClassVar, Optional, Type
+from typing import ClassVar, Optional, Tuple, Type
 
 import attr
 from attr.validators import in_
 from attr.validators import optional as v_optional
 
-from ics.event import CalendarEntryAttrs
+from ics.event import STATUS_VALUES, CalendarEntryAttrs
 from ics.timespan import Timespan, TodoTimespan
 from ics.types import DatetimeLike, TimedeltaLike
 from ics.utils import ensure_datetime, ensure_timedelta
 
 MAX_PERCENT = 100
 MAX_PRIORITY = 9
+TODO_STATUS_VALUES = STATUS_VALUES + ("NEEDS-ACTION", "IN-PROCESS", "COMPLETED")
 
 
 @attr.s(eq=True, order=False)  # order methods are provided by CalendarEntryAttrs
@@ -38,6 +39,7 @@ class Todo(TodoAttrs):
 
     NAME = "VTODO"
     _TIMESPAN_TYPE: ClassVar[Type[Timespan]] = TodoTimespan
+    _STATUS_VALUES: ClassVar[Tuple[Optional[str], ...]] = TODO_STATUS_VALUES
 
     def __init__(
         self,
-- 
2.43.0

