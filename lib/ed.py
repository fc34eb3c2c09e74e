"""development helper: edit a file keeping its line endings. usage: from ed import sub"""
def sub(path, *pairs, count=1):
    s = open(path, newline='').read()
    crlf = '\r\n' in s
    s = s.replace('\r\n', '\n')
    for a, b in pairs:
        assert s.count(a) >= 1, (path, a)
        if count == 1: assert s.count(a) == 1, (path, s.count(a), a)
        s = s.replace(a, b)
    if crlf: s = s.replace('\n', '\r\n')
    open(path, 'w', newline='').write(s)
