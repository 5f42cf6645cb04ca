"""Stand-in for the types of the library acetime, which is not installed here: assumed shape of a dependency (see DESIGN.md)."""
from typing import Dict
from typing import List
from typing import Optional
from typing import TypedDict


class ZoneRule(TypedDict, total=False):
    from_year: int
    to_year: int
    in_month: int
    on_day_of_week: int
    on_day_of_month: int
    at_seconds: int
    at_time_suffix: str
    delta_seconds: int
    letter: str


class ZonePolicy(TypedDict, total=False):
    name: str
    rules: List[ZoneRule]


class ZoneEra(TypedDict, total=False):
    offset_seconds: int
    zone_policy: Optional[ZonePolicy]
    era_delta_seconds: int
    format: str
    until_year: int
    until_month: int
    until_day: int
    until_seconds: int
    until_time_suffix: str


class ZoneInfo(TypedDict, total=False):
    name: str
    eras: List[ZoneEra]


ZonePolicyMap = Dict[str, ZonePolicy]
ZoneInfoMap = Dict[str, ZoneInfo]
