"""The Latin character sets of PDF (ISO 32000-1, Annex D), written down independently of the implementation: WinAnsi and
MacRoman from Python's codecs, the standard encoding and the glyph names by hand."""
import unicodedata

BULLET_OR_NOTHING = 'SKIP'
ASCII_NAMES = dict(zip(range(32, 48), 'space exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright asterisk '
                                      'plus comma hyphen period slash'.split()))
ASCII_NAMES.update(zip(range(48, 58), 'zero one two three four five six seven eight nine'.split()))
ASCII_NAMES.update(zip(range(58, 65), 'colon semicolon less equal greater question at'.split()))
ASCII_NAMES.update((c, chr(c)) for c in list(range(65, 91)) + list(range(97, 123)))
ASCII_NAMES.update(zip(range(91, 97), 'bracketleft backslash bracketright asciicircum underscore grave'.split()))
ASCII_NAMES.update(zip(range(123, 127), 'braceleft bar braceright asciitilde'.split()))

# code in the standard encoding, glyph name, character
STD = '''161 exclamdown \xa1|162 cent \xa2|163 sterling \xa3|164 fraction \u2044|165 yen \xa5|166 florin \u0192|167 section \xa7
168 currency \xa4|169 quotesingle '|170 quotedblleft \u201c|171 guillemotleft \xab|172 guilsinglleft \u2039|173 guilsinglright \u203a
174 fi \ufb01|175 fl \ufb02|177 endash \u2013|178 dagger \u2020|179 daggerdbl \u2021|180 periodcentered \xb7|182 paragraph \xb6
183 bullet \u2022|184 quotesinglbase \u201a|185 quotedblbase \u201e|186 quotedblright \u201d|187 guillemotright \xbb|188 ellipsis \u2026
189 perthousand \u2030|191 questiondown \xbf|193 grave `|194 acute \xb4|195 circumflex \u02c6|196 tilde \u02dc|197 macron \xaf
198 breve \u02d8|199 dotaccent \u02d9|200 dieresis \xa8|202 ring \u02da|203 cedilla \xb8|205 hungarumlaut \u02dd|206 ogonek \u02db
207 caron \u02c7|208 emdash \u2014|225 AE \xc6|227 ordfeminine \xaa|232 Lslash \u0141|233 Oslash \xd8|234 OE \u0152
235 ordmasculine \xba|241 ae \xe6|245 dotlessi \u0131|248 lslash \u0142|249 oslash \xf8|250 oe \u0153|251 germandbls \xdf
39 quoteright \u2019|96 quoteleft \u2018'''

GLYPHS = {n: chr(c) for c, n in ASCII_NAMES.items()}
standard = {c: chr(c) for c in range(32, 127)}
for _x in STD.replace('\n', '|').split('|'):
    _c, _n, _t = _x.split(' ')
    standard[int(_c)] = _t
    GLYPHS[_n] = _t
GLYPHS.update({'Euro': '\u20ac', 'trademark': '\u2122', 'copyright': '\xa9', 'registered': '\xae', 'degree': '\xb0', 'plusminus': '\xb1',
               'onesuperior': '\xb9', 'twosuperior': '\xb2', 'threesuperior': '\xb3', 'onequarter': '\xbc', 'onehalf': '\xbd',
               'threequarters': '\xbe', 'multiply': '\xd7', 'divide': '\xf7', 'minus': '\u2212', 'mu': ('\xb5', '\u03bc'),
               'logicalnot': '\xac', 'brokenbar': '\xa6', 'Eth': '\xd0', 'eth': '\xf0', 'Thorn': '\xde', 'thorn': '\xfe'})
for _c in 'ÀÁÂÃÄÅÇÈÉÊËÌÍÎÏÑÒÓÔÕÖÙÚÛÜÝàáâãäåçèéêëìíîïñòóôõöùúûüýÿŠšŽžŸ':
    _b, _a = unicodedata.normalize('NFD', _c)
    GLYPHS[_b + {'\u0300': 'grave', '\u0301': 'acute', '\u0302': 'circumflex', '\u0303': 'tilde', '\u0308': 'dieresis',
                 '\u030a': 'ring', '\u0327': 'cedilla', '\u030c': 'caron'}[_a]] = _c

win = {}
for _c in range(32, 256):
    try:
        win[_c] = bytes([_c]).decode('cp1252')
    except UnicodeDecodeError:
        win[_c] = BULLET_OR_NOTHING
win[127] = BULLET_OR_NOTHING
win[160] = (' ', '\xa0')
win[173] = ('-', '\xad')
win[181] = ('\xb5', '\u03bc')

mac = {_c: bytes([_c]).decode('mac_roman') for _c in range(32, 256) if _c != 127}
for _c in (173, 176, 178, 179, 182, 183, 184, 185, 186, 189, 195, 197, 198, 215, 240):
    mac[_c] = BULLET_OR_NOTHING      # in the encoding of the Macintosh, but not in that of PDF
mac[202] = (' ', '\xa0')
mac[219] = ('\xa4', '\u20ac')
mac[181] = ('\xb5', '\u03bc')
TABLES = {'StandardEncoding': standard, 'WinAnsiEncoding': win, 'MacRomanEncoding': mac}

_h = {' ': 278, '!': 278, 'A': 667, 'B': 667, 'C': 722, 'D': 722, 'E': 667, 'F': 611, 'G': 778, 'H': 722, 'I': 278, 'J': 500, 'K': 667,
      'L': 556, 'M': 833, 'N': 722, 'O': 778, 'P': 667, 'W': 944, 'Z': 611, 'a': 556, 'b': 556, 'c': 500, 'f': 278, 'i': 222, 'l': 222,
      'm': 833, 'w': 722, 'x': 500, '0': 556, '9': 556, '.': 278, ',': 278, '-': 333, '@': 1015, '\u2022': 350, '\u2013': 556,
      '\u2014': 1000, '\xe9': 556, '\xc9': 667, '\xfc': 556, '\u20ac': 556, '\xdf': 611, '\ufb01': 500, "'": 191, '\u2019': 222}
_hb = {' ': 278, '!': 333, 'A': 722, 'B': 722, 'C': 722, 'I': 278, 'M': 833, 'W': 944, 'a': 556, 'b': 611, 'i': 278, 'l': 278, 'm': 889,
       'w': 778, '0': 556, '.': 278, '-': 333, '@': 975, '\u2022': 350, '\u2013': 556, '\u2014': 1000, '\xe9': 556, '\u20ac': 556}
_t = {' ': 250, '!': 333, 'A': 722, 'B': 667, 'C': 667, 'I': 333, 'M': 889, 'W': 944, 'a': 444, 'b': 500, 'i': 278, 'l': 278, 'm': 778,
      'w': 722, '0': 500, '.': 250, '-': 333, '@': 921, '\u2022': 350, '\u2013': 500, '\u2014': 1000, '\xe9': 444, '\u20ac': 500,
      "'": 180, '\u2019': 333, '\ufb01': 556}
CORE_WIDTHS = {'Helvetica': _h, 'Helvetica-Bold': _hb, 'Times-Roman': _t,
               'Courier': {_x: 600 for _x in standard.values()}}
