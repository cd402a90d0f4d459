"""Reference model of the pure helpers."""
import datetime
import re
from spec.common import (BAD_TIME, MAX_UNTIL, MAX_UNTIL_TINY, MAX_TO, MAX_TO_TINY, MINUS_INF, MINUS_INF_TINY,
                     INVALID_YEAR, INVALID_YEAR_TINY, month_length, trunc_zero)
from spec.timeparse import seconds_of


def weekday_of(text):
    if text == 'Mon':
        return 1
    if text == 'Tue':
        return 2
    if text == 'Wed':
        return 3
    if text == 'Thu':
        return 4
    if text == 'Fri':
        return 5
    if text == 'Sat':
        return 6
    if text == 'Sun':
        return 7
    return 0


def day_rule(text):
    """ON/UNTIL day column -> (ISO weekday, day), day 0 = last, negative = on or before; (0, 0) = unusable"""
    if text.isdigit():
        return (0, int(text))
    if text[:4] == 'last':
        return (weekday_of(text[4:]), 0)
    i = text.find('>=')
    sign = 1
    if i < 0:
        i = text.find('<=')
        sign = -1
    if i < 0:
        return (0, 0)
    w = weekday_of(text[:i])
    day = text[i + 2:]
    if w == 0 or not day.isdigit() or int(day) == 0:
        return (0, 0)
    return (w, sign * int(day))


def resolve_day(year, month, weekday, dom):
    """calendar (month, day) of a day rule; month 0 / 13 when it leaves the year"""
    if weekday == 0:
        return (month, dom)
    if dom >= 0:
        n = month_length(year, month)
        first = n - 6 if dom == 0 else dom
        day = first + (weekday - datetime.date(year, month, first).isoweekday() + 7) % 7
        if day <= n:
            return (month, day)
        return (month + 1, day - n)
    day = -dom - (datetime.date(year, month, -dom).isoweekday() - weekday + 7) % 7
    if day >= 1:
        return (month, day)
    return (month - 1, day + month_length(year, 12 if month == 1 else month - 1))


def tiny_until(year, base):
    if year == INVALID_YEAR:
        return INVALID_YEAR_TINY
    if year == MINUS_INF:
        return MINUS_INF_TINY
    if year == MAX_UNTIL:
        return MAX_UNTIL_TINY
    if year - base < MINUS_INF_TINY:
        return MINUS_INF_TINY
    if year - base > MAX_UNTIL_TINY:
        return MAX_UNTIL_TINY
    return year - base


def tiny_from_to(year, base):
    if year == INVALID_YEAR:
        return INVALID_YEAR_TINY
    if year == MINUS_INF:
        return MINUS_INF_TINY
    if year == MAX_TO:
        return MAX_TO_TINY
    if year - base < MINUS_INF_TINY:
        return MINUS_INF_TINY
    if year - base > MAX_TO_TINY:
        return MAX_TO_TINY
    return year - base


def fits_tiny(year, base):
    if year == INVALID_YEAR or year == MINUS_INF or year == MAX_TO or year == MAX_UNTIL:
        return True
    return MINUS_INF_TINY < year - base < MAX_TO_TINY


def djb2(name):
    h = 5381
    for c in name:
        h = (h * 33 + ord(c)) % 4294967296
    return h


def identifier(name):
    return re.sub('[^a-zA-Z0-9_]', '_', name.replace('+', '_PLUS_'))


def toward_zero(a, b):
    if a < 0:
        return -((-a) // b)
    return a // b


def hm_text(seconds):
    if seconds < 0:
        return '-' + hm_text_abs(-seconds)
    return hm_text_abs(seconds)


def hm_text_abs(seconds):
    h = seconds // 3600
    m = (seconds - 3600 * h) // 60
    return f'{h:02}:{m:02}'


def hms_of(seconds):
    return (seconds // 3600, seconds // 60 % 60, seconds % 60)


def seconds_from(h, m, s):
    return 3600 * h + 60 * m + s


def policies_used(zones_map):
    """policy name -> names of the zones having an era that uses it"""
    out = {}
    for name, info in zones_map.items():
        for era in info['eras']:
            p = era['policy_name']
            if p:
                out.setdefault(p, []).append(name)
    return out
