"""Stand-in for acetime.zone_processor: the interface bufestimator.py uses. Bodies are never verified; the assumed contracts are in
contracts/zzzzzd_buf.py."""
from typing import NamedTuple
from acetime.typing import ZoneInfo


class BufferSizeInfo(NamedTuple):
    active_size: int
    buffer_size: int


class ZoneProcessor:
    def __init__(self, zone_info: ZoneInfo):
        self.info = zone_info
        self.year = 0

    def init_for_year(self, year: int) -> None:
        self.year = year

    def get_buffer_sizes(self) -> BufferSizeInfo:
        raise NotImplementedError

    def is_terminal_year(self, year: int) -> bool:
        raise NotImplementedError
