"""Reference model of the fixed-width little-endian writers."""


def unsigned(data, x, limit, n):
    if x < 0 or x >= limit:
        raise ValueError('does not fit')
    data.append(x % 256)
    if n > 1:
        data.append(x // 256 % 256)
    if n > 2:
        data.append(x // 65536 % 256)
        data.append(x // 16777216 % 256)


def signed(data, x, limit, n):
    if x < -limit or x >= limit:
        raise ValueError('does not fit')
    data.append(x % 256)
    if n > 1:
        data.append(x // 256 % 256)
    if n > 2:
        data.append(x // 65536 % 256)
        data.append(x // 16777216 % 256)


def u8(data, x):
    unsigned(data, x, 256, 1)


def i8(data, x):
    signed(data, x, 128, 1)


def u16(data, x):
    unsigned(data, x, 65536, 2)


def i16(data, x):
    signed(data, x, 32768, 2)


def u32(data, x):
    unsigned(data, x, 4294967296, 4)


def i32(data, x):
    signed(data, x, 2147483648, 4)


def hexed(data):
    """every byte as a two-digit hex escape"""
    out = ''
    for b in data:
        out += f'\\x{b:02x}'
    return out


def go_literal(data, size, indent):
    """the bytes in order as concatenated Go string literals of `size` bytes each"""
    lines = []
    n = 0
    while n + size <= len(data):
        lines.append(hexed(data[n:n + size]))
        n += size
    if n < len(data):
        lines.append(hexed(data[n:]))
    return '"' + f'" +\n{indent}"'.join(lines) + '"'
