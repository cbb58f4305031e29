"""Percent encoding as urllib.parse does it.  Run instrumented, so that texts
may be symbolic."""

SAFE = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')


def _is_hex(c):
    return 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102


def _hex(c):
    if c <= 57:
        return c - 48
    return (c | 32) - 87


def _digit(n):
    return chr(48 + n) if n < 10 else chr(55 + n)


def unquote_to_bytes(string):
    if hasattr(string, 'encode'):
        string = string.encode('utf-8')
    out = bytearray()
    i = 0
    while i < len(string):
        c = string[i]
        if c == 37 and i + 2 < len(string) and _is_hex(string[i + 1]) \
                and _is_hex(string[i + 2]):
            out.append(_hex(string[i + 1]) * 16 + _hex(string[i + 2]))
            i += 3
        else:
            out.append(c)
            i += 1
    return bytes(out)


def unquote(string, encoding='utf-8', errors='replace'):
    if not hasattr(string, 'encode'):
        return unquote_to_bytes(string).decode(encoding, errors)
    out = ''
    run = ''
    for c in string:
        if ord(c) < 128:
            run += c
        else:
            if run:
                out += unquote_to_bytes(run).decode(encoding or 'utf-8',
                                                    errors or 'replace')
                run = ''
            out += c
    if run:
        out += unquote_to_bytes(run).decode(encoding or 'utf-8',
                                            errors or 'replace')
    return out


def unquote_plus(string, encoding='utf-8', errors='replace'):
    return unquote(string.replace('+', ' '), encoding, errors)


def quote_from_bytes(data, safe='/'):
    if not hasattr(safe, 'encode'):
        safe = safe.decode('ascii', 'ignore')
    good = SAFE + safe
    out = ''
    for b in bytearray(data):
        if b < 128 and chr(b) in good:
            out += chr(b)
        else:
            out += '%' + _digit(b >> 4) + _digit(b & 15)
    return out


def quote(string, safe='/', encoding=None, errors=None):
    if hasattr(string, 'encode'):
        string = string.encode(encoding or 'utf-8', errors or 'strict')
    return quote_from_bytes(string, safe)


def quote_plus(string, safe='', encoding=None, errors=None):
    if not hasattr(safe, 'encode'):
        safe = safe.decode('ascii', 'ignore')
    return quote(string, safe + ' ', encoding, errors).replace(' ', '+')


def urlencode(query, doseq=False, safe='', encoding=None, errors=None,
              quote_via=quote_plus):
    if hasattr(query, 'items'):
        query = query.items()
    out = []
    for k, v in query:
        if not hasattr(k, 'encode') and not hasattr(k, 'decode'):
            k = str(k)
        if not hasattr(v, 'encode') and not hasattr(v, 'decode'):
            v = str(v)
        out.append(quote_via(k, safe, encoding, errors) + '='
                   + quote_via(v, safe, encoding, errors))
    return '&'.join(out)


def parse_qsl(query):
    out = []
    for part in query.split('&'):
        k, _eq, v = part.partition('=')
        out.append((unquote_plus(k), unquote_plus(v)))
    return out
