"""Structured words, their encoding on the specification's grid, and spelling."""
from lib import grid, BAD

CODE = set('GM')
INTS = set('LNT')
UNIT = [1000]       # the specification's units per mm (or whatever) of the trace being made


def scale(letter):
    return 10 if letter in CODE else (1 if letter in INTS or letter == 'O' else UNIT[0])


def use_unit(n=1000):
    """The specification counts units, of any size"""
    UNIT[0] = n


def enc_value(letter, value):
    """Value of a real Word, on the specification's grid"""
    if letter in 'OT':  # text values (a tool's leading zeros are kept in its text)
        s = str(value)
        return int(s) if s.isdigit() and len(s) < 9 else BAD
    return grid(value, scale(letter))


def enc_word(word):
    return [word.letter, enc_value(word.letter, word.value)]


def num(letter, v):
    """Real value of an encoded one"""
    s = scale(letter)
    return v if s == 1 else v / float(s)


def plain(w):
    """Canonical text of an encoded word"""
    (l, v) = w
    s = scale(l)
    if s == 1:
        return '%s%d' % (l, v)
    digits = len(str(s)) - 1
    sign = '-' if v < 0 else ''
    (a, b) = divmod(abs(v), s)
    frac = ('%0*d' % (digits, b)).rstrip('0')
    return '%s%s%d%s' % (l, sign, a, '.' + frac if frac else '')


def spell(rng, w, fancy=True):
    """Some spelling of an encoded word"""
    if not fancy:
        return plain(w)
    (l, v) = w
    s = scale(l)
    sign = '-' if v < 0 else ''
    if s == 1:
        body = '0' * rng.choice([0, 0, 0, 1, 2]) + '%d' % abs(v)
    else:
        digits = len(str(s)) - 1
        (a, b) = divmod(abs(v), s)
        frac = ('%0*d' % (digits, b)).rstrip('0')
        ints = '0' * rng.choice([0, 0, 0, 1, 3]) + '%d' % a
        if l in CODE:
            if not frac and rng.random() < 0.15:
                frac = '0'
            body = ints + ('.' + frac if frac else '')
        else:
            frac += '0' * rng.choice([0, 0, 0, 1, 4])
            if frac and a == 0 and rng.random() < 0.3:
                ints = ''
            if frac:
                body = ints + '.' + frac
            else:
                body = ints + rng.choice(['', '', '', '.'])
            if v == 0 and rng.random() < 0.1:
                sign = '-'
    gap = rng.choice(['', '', '', '', '', ' ', '\t', '  ']) if l != 'O' else ''
    return (l.lower() if rng.random() < 0.25 else l) + gap + sign + body


def render(rng, ws, fancy=True):
    """Some text of a block (an O word takes the rest of the block, and must be last)"""
    if not fancy:
        return ' '.join(plain(w) for w in ws)
    out = []
    for w in ws:
        out.append(spell(rng, w))
    style = rng.random()
    sep = (lambda: '') if style < 0.2 else (lambda: ' ') if style < 0.7 else (
        lambda: rng.choice(['', ' ', '  ', '\t', ' \t ']))
    text = ''
    for (k, x) in enumerate(out):
        text += (sep() if k else '') + x
    if rng.random() < 0.1:
        text = ' ' + text
    if rng.random() < 0.1:
        text += '  '
    return text


# ------------------------------------------------------------ tables (generation only)
GROUPS = {
    'motion': ['G0', 'G1', 'G2', 'G3', 'G5', 'G5.1', 'G5.2', 'G5.3', 'G33', 'G33.1',
               'G38.2', 'G38.3', 'G38.4', 'G38.5',
               'G73', 'G76', 'G81', 'G82', 'G83', 'G85', 'G89'],
    'plane_selection': ['G17', 'G18', 'G19', 'G17.1', 'G18.1', 'G19.1'],
    'distance': ['G90', 'G91'],
    'arc_ijk_distance': ['G90.1', 'G91.1'],
    'lathe_diameter': ['G7', 'G8'],
    'feed_rate_mode': ['G93', 'G94', 'G95'],
    'units': ['G20', 'G21'],
    'cutter_diameter_comp': ['G40', 'G41', 'G42', 'G41.1', 'G42.1'],
    'tool_length_offset': ['G43', 'G43.1', 'G43.2', 'G49'],
    'canned_cycles_return': ['G98', 'G99'],
    'coordinate_system': ['G54', 'G55', 'G56', 'G57', 'G58', 'G59', 'G59.1', 'G59.2', 'G59.3'],
    'control_mode': ['G61', 'G61.1', 'G64'],
    'spindle_speed_mode': ['G96', 'G97'],
    'spindle': ['M3', 'M4', 'M5'],
    'coolant': ['M7', 'M8', 'M9'],
    'stopping': ['M0', 'M1', 'M2', 'M30', 'M60'],
    'override_switches': ['M48', 'M49'],
    'feed_rate': ['F'], 'spindle_speed': ['S'], 'tool': ['T'],
}
NONMODAL = ['G4', 'G10', 'G28', 'G30', 'G28.1', 'G30.1', 'G53', 'G80', 'G92', 'G92.1', 'G92.2', 'G92.3',
            'M6', 'M19', 'M50', 'M51', 'M52', 'M53', 'M61', 'M62', 'M63', 'M64', 'M65', 'M66', 'M67', 'M68']
CANNED = ['G73', 'G76', 'G81', 'G82', 'G83', 'G85', 'G89']
MOVES = ['G0', 'G1', 'G2', 'G3', 'G5', 'G5.1', 'G5.2', 'G5.3', 'G33', 'G33.1',
         'G38.2', 'G38.3', 'G38.4', 'G38.5']
PARAMS = {   # extra parameters, for generation
    'G2': 'IJKRP', 'G3': 'IJKRP', 'G4': 'P', 'G5': 'IJPQ', 'G5.1': 'IJ', 'G5.2': 'PL', 'G5.3': 'PL',
    'G33': 'K', 'G33.1': 'K', 'G73': 'RLQ', 'G76': 'PIJRKQHLE', 'G81': 'RLP', 'G82': 'RLP', 'G83': 'RLQ',
    'G85': 'RLP', 'G89': 'RLP', 'G41': 'D', 'G42': 'D', 'G41.1': 'DL', 'G42.1': 'DL',
    'G43': 'H', 'G43.2': 'H', 'G64': 'PQ', 'G96': 'D', 'G97': 'D',
    'G10': 'LPQR', 'M50': 'P', 'M51': 'P', 'M52': 'P', 'M53': 'P', 'M61': 'Q',
    'M62': 'P', 'M63': 'P', 'M64': 'P', 'M65': 'P', 'M66': 'PELQ',
}
ALL_CODES = sorted(set(c for v in GROUPS.values() for c in v if len(c) > 1) | set(NONMODAL))


def code(text):
    """'G38.2' -> ['G', 382]"""
    return [text[0], int(round(float(text[1:]) * 10))]
