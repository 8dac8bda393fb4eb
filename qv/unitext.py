"""Rewriting of the unicode notation as the ASCII notation

Character by character, with tables of the Unicode standard (superscripts,
subscripts, Greek letters); nothing is known about the expression except the
labels of its spaces.
"""
import re
import unicodedata

SUB = dict(zip('₀₁₂₃₄₅₆₇₈₉₍₎₊₋₌ₐₑₒₓₕₖₗₘₙₚₛₜᵢⱼᵣᵤᵥ',
               '0123456789()+-=aeoxhklmnpstijruv'))
SUB.update({'ᵦ': 'beta', 'ᵧ': 'gamma', 'ᵨ': 'rho', 'ᵩ': 'phi', 'ᵪ': 'chi'})
SUP = dict(zip('⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻⁼⁽⁾ⁱⁿ', '0123456789+-=()in'))
for _c in ('ᵃᵇᶜᵈᵉᶠᵍʰʲᵏˡᵐᵒᵖʳˢᵗᵘᵛʷˣʸᶻᴬᴮᴰᴱᴳᴴᴵᴶᴷᴸᴹᴺᴼᴾᴿᵀᵁⱽᵂ'):
    SUP[_c] = unicodedata.normalize('NFKD', _c)
SUP.update({'ᵝ': 'beta', 'ᵞ': 'gamma', 'ᵟ': 'delta', 'ᵋ': 'epsilon',
            'ᶿ': 'theta', 'ᶥ': 'iota', 'ᵠ': 'phi', 'ᵡ': 'chi'})
STAR = '\u00a0\u20f0'
SINGLE = {'⟨': '<', '⟩': '>', '∑': 'Sum', '∈': 'in', '†': 'H', 'ⅈ': 'I',
          '𝟙': '1', '⊗': '*', '…': '...', '∞': 'oo', 'ℌ': 'H', '∂': 'D',
          '◁': '<<', '⊞': '+', '→': '->'}
_LET = {'LAMDA': 'LAMBDA'}


def greek(c):
    m = re.match(r"GREEK (SMALL|CAPITAL) LETTER (?:FINAL )?([A-Z]+)$",
                 unicodedata.name(c, ''))
    if not m:
        return None
    n = _LET.get(m.group(2), m.group(2))
    return n.lower() if m.group(1) == 'SMALL' else n.capitalize()


def _run(text, i, table):
    """translated run of characters, with single spaces in between"""
    out = ''
    depth = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c in table:
            depth += {'⁽': 1, '⁾': -1, '₍': 1, '₎': -1}.get(c, 0)
            out += table[c]
            i += 1
        elif c == ' ' and i + 1 < n and text[i + 1] in table and (
                table is SUB or depth > 0):
            out += ' '
            i += 1
        else:
            break
    return out, i


def to_ascii(text, spaces):
    text = unicodedata.normalize('NFD', text).replace('\u0302', '')
    text = re.sub(r"\](?:_(\d)→(\d)|([₀-₉])₋([₀-₉]))", lambda m: ']_{%s->%s}'
                  % tuple(SUB.get(x, x) for x in m.groups() if x), text)
    text = text.replace(']⁻¹', ']^{-1}')
    out = ''
    i = 0
    deriv = False
    while i < len(text):
        c = text[i]
        if c in SUP:
            r, i = _run(text, i, SUP)
            if deriv:
                out += '^' + r
            elif r[0] == '(' and r[-1] == ')' and r[1:-1] in spaces:
                out += '^' + r
            else:
                out += '**' + r
            deriv = False
            continue
        if c in SUB:
            r, i = _run(text, i, SUB)
            out += '_' + (r if re.match(r"\w+$|[+-]$|\(.*\)$|\w+=", r)
                          else '{%s}' % r)
            continue
        i += 1
        if c == '∂':
            deriv = True
            out += 'D'
        elif c in SINGLE:
            out += SINGLE[c]
        else:
            g = greek(c)
            out += g if g else c
            if c == ' ':
                deriv = False
    return out
