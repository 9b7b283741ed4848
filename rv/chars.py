"""Accents and symbols of LaTeX text with the characters they print, written
down from the LaTeX documentation (not from the tables of the code under test)."""
import unicodedata

ACCENTS = {"'": "\u0301", "`": "\u0300", '"': "\u0308", "^": "\u0302", "~": "\u0303", "=": "\u0304", ".": "\u0307",
           "c": "\u0327", "H": "\u030b", "k": "\u0328", "b": "\u0331", "d": "\u0323", "r": "\u030a", "u": "\u0306", "v": "\u030c"}
BASES = "aeiouyAEIOUYcdglnrstzCDGLNRSTZbhkmwxBHKMWXpfqjQ"
BASE_COMMANDS = {"i": "i", "j": "j", "ae": "æ", "AE": "Æ", "o": "ø", "O": "Ø", "aa": "å", "AA": "Å"}
ALONE = {"'": "\u00b4", "`": "`", '"': "\u00a8", "^": "^", "~": "~", "=": "\u00af", "c": "\u00b8", "H": "\u02dd", "v": "\u02c7", "u": "\u02d8", "r": "\u02da", "k": "\u02db", ".": "\u02d9"}

LETTERS = {"ae": "æ", "AE": "Æ", "oe": "œ", "OE": "Œ", "o": "ø", "O": "Ø", "aa": "å", "AA": "Å", "l": "ł", "L": "Ł", "ss": "ß", "i": "ı",
           "dh": "ð", "DH": "Ð", "dj": "đ", "DJ": "Đ", "th": "þ", "TH": "Þ", "ng": "ŋ", "NG": "Ŋ"}
SYMBOLS = {"dots": "...", "ldots": "…", "textellipsis": "…", "S": "§", "copyright": "©",
           "textcopyright": "©", "textregistered": "®", "texttrademark": "™", "textdegree": "°", "textpm": "±", "texttimes": "×", "textdiv": "÷",
           "texteuro": "€", "textsterling": "£", "textyen": "¥", "textcent": "¢", "textbullet": "•", "textperiodcentered": "·",
           "textquoteleft": "‘", "textquoteright": "’", "textquotedblleft": "“", "textquotedblright": "”", "guillemotleft": "«", "guillemotright": "»",
           "textexclamdown": "¡", "textquestiondown": "¿", "textendash": "–", "textemdash": "—", "textmu": "µ", "textonehalf": "½", "textonequarter": "¼",
           "textonesuperior": "¹", "texttwosuperior": "²", "textordfeminine": "ª", "textordmasculine": "º", "textsection": "§", "textparagraph": "¶",
           "textdagger": "†", "textdaggerdbl": "‡", "textbrokenbar": "¦", "textlnot": "¬", "textasciitilde": "~", "textasciicircum": "^",
           "textless": "<", "textgreater": ">", "textbackslash": "\\", "textdollar": "$",
           "quotedblbase": "„", "quotesinglbase": "‚", "guilsinglleft": "‹", "guilsinglright": "›", "textperthousand": "‰", "textnumero": "№",
           "alpha": "α", "beta": "β", "gamma": "γ", "delta": "δ", "lambda": "λ", "mu": "μ", "pi": "π", "sigma": "σ", "Omega": "Ω", "pm": "±", "rightarrow": "→", "leq": "≤", "geq": "≥", "infty": "∞"}
ESCAPED = {"&": "&", "%": "%", "#": "#", "_": "_", "$": "$", "{": "{", "}": "}"}
RAW = "éàüößçñøåÆŁžșğİıжβקعह中日한ᾳ€£§©®±×÷–—‘’“”…•→≤≥∞½²µ¿¡"


def accented(r):
    """-> (source without surroundings, character)"""
    a = r.choice(list(ACCENTS))
    k = r.random()
    if k < 0.12:
        c = r.choice(["i", "j"]) if r.random() < 0.7 else r.choice(list(BASE_COMMANDS))
        base, char = "\\" + c, BASE_COMMANDS[c]
        form = r.choice(["%s{%s}", "%s{%s}", "%s%s{}", "{%s%s}", "%s{ %s }", "{%s{%s}}"])
        return form % ("\\" + a, base), unicodedata.normalize("NFC", char + ACCENTS[a])
    if k < 0.16:
        b = r.choice(["'", "`", '"', "^", "~"])
        c = r.choice("aeiouAEO")
        char = unicodedata.normalize("NFC", unicodedata.normalize("NFC", c + ACCENTS[b]) + ACCENTS[a])
        return r.choice(["\\%s{\\%s%s}", "\\%s{\\%s{%s}}", "{\\%s{\\%s %s}}"]) % (a, b, c), char
    if k < 0.2:
        a = r.choice(list(ALONE))
        return "\\%s{}" % a, ALONE[a]
    c = r.choice(BASES)
    forms = ["\\%s{%s}", "\\%s{%s}", "{\\%s{%s}}", "\\%s{ %s}", "\\%s {%s}", "\\%s %s", "{\\%s %s}"]
    if not a.isalpha():
        forms += ["\\%s%s", "\\%s%s", "{\\%s%s}"]
    return r.choice(forms) % (a, c), unicodedata.normalize("NFC", c + ACCENTS[a])


def symbol(r):
    """-> (source, character)"""
    k = r.random()
    if k < 0.3:
        c = r.choice(list(LETTERS))
        return r.choice(["\\%s{}", "\\%s ", "{\\%s}", "{\\%s }", "{\\%s{}}"]) % c, LETTERS[c]
    if k < 0.5:
        c = r.choice(RAW)
        return c, c
    if k < 0.6:
        c = r.choice(list(ESCAPED))
        return "\\" + c, c
    c = r.choice(list(SYMBOLS))
    return r.choice(["\\%s{}", "{\\%s}", "{\\%s{}}"]) % c, SYMBOLS[c]


def roman(n):
    """the number as TeX's \\romannumeral prints it"""
    out = ""
    digits = "ivxlcdm"
    for i, d in enumerate(reversed(str(n))):
        d = int(d)
        if i == 3:
            return "m" * d + out
        one, five, ten = digits[2 * i], digits[2 * i + 1], digits[2 * i + 2]
        out = (one + ten if d == 9 else five + one * (d - 5) if d >= 5 else one + five if d == 4 else one * d) + out
    return out
