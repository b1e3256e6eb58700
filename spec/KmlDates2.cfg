CONSTANTS Years = {1, 4, 5, 10, 99, 100, 101, 400, 999, 1000, 1200, 1500, 1582, 1600, 1752, 1800, 1899, 1900, 1901, 1904, 1969, 1970, 1999, 2000, 2001, 2004, 2010, 2016, 2020, 2023, 2024, 2028, 2038, 2096, 2099, 2100, 2101, 2104, 2400, 4000, 8000, 9999}
 Hours = {0, 9, 12, 23} Sixties = {0, 1, 30, 59} Fracs = {"", "0", "5", "12", "999", "1234", "00001", "000001", "999999", "500000"}
 Zones = {"", "Z", "+00:00", "-00:00", "+05:30", "-11:00", "+14:00", "-00:30", "+00:01", "-09:30", "+12:45", "-23:59", "+23:59"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agree Refuse Canonical YearLength LeapRule Emit
