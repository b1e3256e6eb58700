CONSTANTS Years = {1, 999, 1900, 2000, 2023, 2024, 9999}
 Hours = {0, 12, 23} Sixties = {0, 7, 59} Fracs = {"", "5", "000001", "12"}
 Zones = {"", "Z", "+00:00", "-00:00", "+05:30", "-11:00", "+14:00", "-00:30"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agree Refuse Canonical YearLength LeapRule Emit
