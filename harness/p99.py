"""engine self test: models of the standard library against CPython (every path is replayed)"""
from hcommon import *
from sx.api import case
import calendar


@case(dict(kind="naive"), dict(kind="aware"), dict(kind="dst"))
def dt_methods(sx, kind):
    d = zoned(sx, "d", kind)
    sx.observe("tt", list(d.timetuple()))
    sx.observe("utt", list(d.utctimetuple()))
    sx.observe("iso", d.isoformat())
    sx.observe("iso2", d.isoformat(" ", timespec="minutes"))
    sx.observe("cal", list(d.isocalendar()))
    sx.observe("tiso", d.time().isoformat())
    sx.observe("bool", bool(d.timetz()))
    sx.check(d.timetuple() <= d.timetuple(), "le")
    sx.check(d.timetuple().tm_yday >= 1, "yday")


@case(dict())
def date_methods(sx):
    d = sx.date("d", 1999, 2031)
    sx.observe("tt", list(d.timetuple()))
    sx.observe("cal", list(d.isocalendar()))
    sx.observe("iso", d.isoformat())
    sx.check(d.isocalendar()[1] <= 53, "week")
