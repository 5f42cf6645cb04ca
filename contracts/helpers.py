# Pure helpers of transformer/transformer.py and artransformer.py

# ---- C05: exact times
@spec
def time_body(t):
    return t[1:] if t[:1] == '-' else t

@spec
def time_part(t, i):
    return intval(part(time_body(t), ':', i)) if nparts(time_body(t), ':') > i else 0

@spec
def time_ok(t):
    """[-]h[:mm[:ss]] with unsigned components, h <= 25, mm <= 59, ss <= 59"""
    n = nparts(time_body(t), ':')
    return (n <= 3 and isint(part(time_body(t), ':', 0))
        and (n < 2 or isint(part(time_body(t), ':', 1)))
        and (n < 3 or isint(part(time_body(t), ':', 2)))
        and 0 <= time_part(t, 0) <= 25 and 0 <= time_part(t, 1) <= 59 and 0 <= time_part(t, 2) <= 59)

@spec
def time_secs(t):
    v = time_part(t, 0) * 3600 + time_part(t, 1) * 60 + time_part(t, 2)
    return -v if t[:1] == '-' else v

T = 'transformer.transformer:'
A = 'transformer.artransformer:'

contract(T + 'time_string_to_seconds', props=['C05'],
    raises=[('IndexError', 'len(time_string) == 0')],
    ensures=['len(time_string) > 0', 'result == (time_secs(time_string) if time_ok(time_string) else 999999)',
             'result == 999999 or -93599 <= result <= 93599'],)

@spec
def trunc0(a, g):
    """a truncated toward zero to a multiple of g"""
    return a - a % g if a >= 0 or a % g == 0 else a - a % g + g

contract(T + 'div_to_zero', props=['C05'], requires=['b > 0'],
    ensures=['result * b == trunc0(a, b)', 'between0(result * b, a)'])
contract(T + 'truncate_to_granularity', props=['C05'], requires=['b > 0'],
    ensures=['result == trunc0(a, b)', 'between0(result, a)'])
@spec
def between0(t, a):
    return (0 <= t <= a) if a >= 0 else (a <= t <= 0)

# ---- C06: calendar
@spec
def month_days(y, m):
    """days of month m of year y; 0 is last December, 13 is next January"""
    return 31 if m == 0 or m == 13 else dim(y, m)

contract(T + '_days_in_month', props=['C04', 'C06'],
    requires=['0 <= month <= 13'],
    ensures=['result == month_days(year, month)'])

@spec(opaque=True)
def resolved(y: int, m: int, w: int, d: int, rm: int, rd: int) -> bool:
    """month rm, day rd is the date that (w, d) denotes in month m of year y:
    w = 0: day d; d = 0: last weekday w; d > 0: first weekday w on or after d; d < 0: last weekday w on or before -d
    (the weekday of a day in the neighbouring month is that of the base day plus the distance)"""
    return ((not (w == 0) or (rm == m and rd == d))
        and (not (w > 0 and d == 0) or (rm == m and dim(y, m) - 7 < rd <= dim(y, m) and weekday(y, m, rd) == w))
        and (not (w > 0 and d > 0) or (
            (rm == m and d <= rd < d + 7 and rd <= dim(y, m) and weekday(y, m, rd) == w)
            or (rm == m + 1 and 1 <= rd and d <= rd + dim(y, m) < d + 7
               and (weekday(y, m, d) - 1 + rd + dim(y, m) - d) % 7 + 1 == w)))
        and (not (w > 0 and d < 0) or (
            (rm == m and 1 <= rd and -d - 7 < rd <= -d and weekday(y, m, rd) == w)
            or (rm == m - 1 and 1 <= rd <= month_days(y, m - 1)
               and -d - 7 < rd - month_days(y, m - 1) <= -d
               and (weekday(y, m, -d) - 1 + rd - month_days(y, m - 1) + d) % 7 + 1 == w))))

@spec
def cal_base(y, m, d):
    return dim(y, m) - 6 if d == 0 else d
@spec
def cal_fw(y, m, w, d):
    return cal_base(y, m, d) + (w - weekday(y, m, cal_base(y, m, d)) + 7) % 7
@spec
def cal_bk(y, m, w, d):
    return -d - (weekday(y, m, -d) - w + 7) % 7
@spec(opaque=True)
def cal_month(y: int, m: int, w: int, d: int) -> int:
    """month of the date that (w, d) denotes in month m of year y (0: last December, 13: next January)"""
    return m if w == 0 else ((m + 1 if cal_fw(y, m, w, d) > dim(y, m) else m) if d >= 0 else (m - 1 if cal_bk(y, m, w, d) < 1 else m))
@spec(opaque=True)
def cal_day(y: int, m: int, w: int, d: int) -> int:
    return d if w == 0 else ((cal_fw(y, m, w, d) - dim(y, m) if cal_fw(y, m, w, d) > dim(y, m) else cal_fw(y, m, w, d)) if d >= 0
        else (cal_bk(y, m, w, d) + month_days(y, m - 1) if cal_bk(y, m, w, d) < 1 else cal_bk(y, m, w, d)))

contract(T + 'calc_day_of_month', props=['C04', 'C06'], opts={'reveal': ['cal_month', 'cal_day', 'resolved']},
    requires=['1 <= month <= 12', '0 <= on_day_of_week <= 7'],
    raises=[('ValueError', 'on_day_of_week > 0 and not (1 <= year <= 9999 and -dim(year, month) <= on_day_of_month <= dim(year, month))')],
    ensures=['on_day_of_week == 0 or 1 <= year <= 9999 and -dim(year, month) <= on_day_of_month <= dim(year, month)',
        ('C06', 'resolved(year, month, on_day_of_week, on_day_of_month, result[0], result[1])'),
        ('C04', 'result[0] == cal_month(year, month, on_day_of_week, on_day_of_month)'), ('C04', 'result[1] == cal_day(year, month, on_day_of_week, on_day_of_month)'),
        '0 <= result[0] <= 13',
        'result[0] == month or on_day_of_week > 0',
    ])

@spec
def dow_index(w):
    return 1 if w == 'Mon' else (2 if w == 'Tue' else (3 if w == 'Wed' else (4 if w == 'Thu' else (5 if w == 'Fri' else (6 if w == 'Sat' else (7 if w == 'Sun' else 0))))))

@spec
def onday_dow(t):
    return (0 if isdigits(t) else
        dow_index(t[4:]) if t[:4] == 'last' else
        dow_index(t[:t.find('>=')]) if t.find('>=') >= 0 else
        dow_index(t[:t.find('<=')]) if t.find('<=') >= 0 else 0)
@spec
def onday_dom(t):
    return (intval(t) if isdigits(t) else
        0 if t[:4] == 'last' or onday_dow(t) == 0 else
        intval(t[t.find('>=') + 2:]) if t.find('>=') >= 0 else
        -intval(t[t.find('<=') + 2:]))

contract(T + '_parse_on_day_string', props=['C06'], raises=['ValueError'], allow=['ValueError'],
    ensures=['result[0] == onday_dow(on_string)', 'result[1] == onday_dom(on_string)', '0 <= result[0] <= 7'])

# ---- C08: tiny years
@spec
def year_fits(y, base):
    return y == -32768 or y == -32767 or y == 32766 or y == 32767 or -127 < y - base < 126

contract(T + 'is_year_tiny', props=['C08'], ensures=['result == year_fits(year, tiny_base_year)'])

@spec
def tiny_from_to(y, base):
    return (-128 if y == -32768 else -127 if y == -32767 or y - base <= -127 else
        126 if y == 32766 or y - base >= 126 else y - base)
@spec
def tiny_until(y, base):
    return (-128 if y == -32768 else -127 if y == -32767 or y - base <= -127 else
        127 if y == 32767 or y - base >= 127 else y - base)

contract(T + 'to_tiny_from_to_year', props=['C08'],
    requires=['-16000 <= tiny_base_year <= 16000'],
    ensures=['result == tiny_from_to(year, tiny_base_year)', '-128 <= result <= 127',
             '(result == -128) == (year == -32768)'])
contract(T + 'to_tiny_until_year', props=['C08'],
    requires=['-16000 <= tiny_base_year <= 16000'],
    ensures=['result == tiny_until(year, tiny_base_year)', '-128 <= result <= 127',
             '(result == -128) == (year == -32768)'])

# ---- C10: time codes
@spec
def suffix_code(sfx):
    return 0 if sfx == 'w' else (16 if sfx == 's' else 32)

contract(A + '_to_suffix_code', props=['C10'],
    raises=[('Exception', "not (suffix == 'w' or suffix == 's' or suffix == 'u')")],
    ensures=["suffix == 'w' or suffix == 's' or suffix == 'u'", 'result == suffix_code(suffix)'])
contract(A + '_to_encoded_time_minutes', props=['C10'],
    requires=['seconds % 60 == 0'],
    raises=[('Exception', "not (suffix == 'w' or suffix == 's' or suffix == 'u')")],
    ensures=["suffix == 'w' or suffix == 's' or suffix == 'u'",
        'result.code * 900 + result.remainder * 60 == seconds', '0 <= result.remainder <= 14',
        'result.modifier == result.remainder + suffix_code(suffix)'])
contract(A + '_to_encoded_time_seconds', props=['C10'],
    raises=[('Exception', "not (suffix == 'w' or suffix == 's' or suffix == 'u')")],
    ensures=["suffix == 'w' or suffix == 's' or suffix == 'u'",
        'result.code * 15 + result.remainder == seconds', '0 <= result.remainder <= 14',
        'result.modifier == result.remainder + suffix_code(suffix)'])
contract(A + '_to_letter_index', props=['C18'],
    requires=['letter in indexed_letters', 'indexed_letters[letter] >= 0'],
    ensures=['result == indexed_letters[letter]'])

# ---- C09: hash
@spec
def djb2(name: str, n: int) -> int:
    return 5381 if n <= 0 else (33 * djb2(name, n - 1) + ord(name[n - 1])) % 4294967296

contract(T + 'hash_name', props=['C09'],
    ensures=['result == djb2(name, len(name))', '0 <= result < 4294967296'],
    loops={0: ['hash == djb2(name, _i)', '0 <= hash < 4294967296']})

# ---- C04 helpers
contract(T + 'compare_rule_to_interval', props=['C04'],
    requires=["has(rule, 'from_year') and has(rule, 'to_year')"],
    ensures=["result == (-1 if rule['to_year'] < start_year else (1 if rule['from_year'] >= until_year else 0))"])
