from spec.common import BAD_TIME


def seconds_of(text):
    """[-]H[:M[:S]] -> seconds, or BAD_TIME"""
    negative = text[0] == '-'
    body = text[1:] if negative else text
    parts = body.split(':')
    try:
        h = int(parts[0])
        m = int(parts[1]) if len(parts) > 1 else 0
        s = int(parts[2]) if len(parts) > 2 else 0
        if len(parts) > 3:
            return BAD_TIME
    except Exception:
        return BAD_TIME
    if h > 25 or m > 59 or s > 59:
        return BAD_TIME
    total = 3600 * h + 60 * m + s
    return -total if negative else total
