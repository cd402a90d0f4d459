"""Stand-in for the zone processor: what it reports depends on the zone and the year it was initialised for."""


def buffer_of(zone, year):
    raise NotImplementedError


def active_of(zone, year):
    raise NotImplementedError


def terminal_of(zone, year):
    raise NotImplementedError


class BufferSizeInfo:
    def __init__(self, active_size, buffer_size):
        self.active_size = active_size
        self.buffer_size = buffer_size


class ZoneProcessor:
    def __init__(self, zone_info):
        self.zone_info = zone_info
        self.year = 0

    def init_for_year(self, year):
        self.year = year

    def get_buffer_sizes(self):
        return BufferSizeInfo(active_of(self.zone_info, self.year), buffer_of(self.zone_info, self.year))

    def is_terminal_year(self, year):
        return terminal_of(self.zone_info, year)
