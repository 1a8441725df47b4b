"""
The part of sqlparse (0.4) that func_odbc-annotate uses; sqlparse itself is
not installed here. Made after its documentation: parse() groups the columns
of a SELECT, format() writes keywords in upper case and otherwise leaves the
statement alone.
"""
import re
import types


class _Type(str):
    pass


tokens = types.SimpleNamespace()
tokens.Keyword = _Type('Keyword')
tokens.Keyword.DML = _Type('Keyword.DML')
tokens.Whitespace = _Type('Whitespace')
tokens.Other = _Type('Other')
KEYWORDS = ('select', 'from', 'where', 'update', 'set', 'insert', 'into', 'as',
            'and', 'values', 'delete')


class Token(object):
    def __init__(self, ttype, value):
        self.ttype = ttype
        self.value = value

    def match(self, ttype, values, regex=False):
        if self.ttype is not ttype:
            return False
        if isinstance(values, str):
            values = (values,)
        if regex:
            return any(re.search(i, self.value, re.I) for i in values)
        return self.value.upper() in [i.upper() for i in values]

    def __str__(self):
        return self.value


class _Named(Token):
    def __init__(self, value):
        super().__init__(None, value)

    def get_alias(self):
        match = re.match(r'.*\s+as\s+(\S+)\Z', self.value, re.I | re.S)
        if match:
            return match.group(1)
        parts = self.value.rsplit(None, 1)
        if len(parts) == 2 and re.match(r'\w+\Z', parts[1]):
            return parts[1]
        return None


class Identifier(_Named):
    pass


class Function(_Named):
    pass


class IdentifierList(Token):
    def __init__(self, value, parts):
        super().__init__(None, value)
        self.parts = parts

    def get_identifiers(self):
        return iter(self.parts)


sql = types.SimpleNamespace(
    Identifier=Identifier, Function=Function, IdentifierList=IdentifierList)


class Statement(object):
    def __init__(self, toks):
        self.tokens = toks


def _split(text):
    "Split at commas that are not in quotes or parentheses."
    ret, depth, quote = [''], 0, ''
    for char in text:
        if quote:
            quote = '' if char == quote else quote
        elif char in '\'"':
            quote = char
        elif char in '()':
            depth += 1 if char == '(' else -1
        if char == ',' and not depth and not quote:
            ret.append('')
        else:
            ret[-1] += char
    return ret


def parse(text):
    match = re.match(r'(\w+)(\s+)(.*?)(?:(\s+)(from)\b(.*))?\Z', text,
                     re.I | re.S)
    if not match or match.group(1).upper() != 'SELECT':
        dml = match and match.group(1).upper() in (
            'UPDATE', 'INSERT', 'DELETE')
        return (Statement([Token(
            tokens.Keyword.DML if dml else tokens.Other,
            match.group(1) if match else text)]),)
    select, space, columns, space2, frm, rest = match.groups()
    if not frm:
        columns = columns.rstrip(';')

    def named(text):
        text = text.strip()
        return (Function if re.match(r'\w+\(.*\)\Z', text, re.S)
                else Identifier)(text)

    parts = [named(i) for i in _split(columns)]
    toks = [Token(tokens.Keyword.DML, select), Token(
        tokens.Whitespace, space)]
    toks.append(parts[0] if len(parts) == 1 else IdentifierList(
        columns, parts))
    if frm:
        toks.append(Token(tokens.Whitespace, space2))
        toks.append(Token(tokens.Keyword, frm))
        toks.append(Token(tokens.Other, rest))
    return (Statement(toks),)


def format(text, keyword_case=None, **kwargs):
    if keyword_case == 'upper':
        text = re.sub(r"'[^']*'|\w+", lambda m: (
            m.group(0).upper() if m.group(0).lower() in KEYWORDS
            else m.group(0)), text)
    return text
