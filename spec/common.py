"""Reference model: vocabulary. These modules are lifted by the analyser next to the program and never run."""

MAX_UNTIL = 32767
MAX_UNTIL_TINY = 127
MAX_TO = 32766
MAX_TO_TINY = 126
MINUS_INF = -32767
MINUS_INF_TINY = -127
INVALID_YEAR = -32768
INVALID_YEAR_TINY = -128
BAD_TIME = 999999


def note(comments, name, why):
    """one reason recorded under one name (the analyser models this call)"""
    comments.setdefault(name, set()).add(why)


def trunc_zero(seconds, step):
    """largest multiple of step, in magnitude, not beyond seconds"""
    if seconds < 0:
        return -((-seconds) // step * step)
    return seconds // step * step


def off_grid(seconds, step):
    return trunc_zero(seconds, step) != seconds


def is_leap(year):
    if year % 400 == 0:
        return True
    if year % 100 == 0:
        return False
    return year % 4 == 0


def month_length(year, month):
    if month == 2:
        return 29 if is_leap(year) else 28
    if month == 4 or month == 6 or month == 9 or month == 11:
        return 30
    return 31
