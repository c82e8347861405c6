"""ZIP archives with full control over every header field."""
import struct
import zlib


class Entry(object):
    def __init__(self, name, data, method=8):
        self.name, self.data, self.method = name, data, method
        self.lname = None           # name in the local header
        self.flags = 0
        self.crc = None
        self.csize = self.usize = None
        self.extra = b''
        self.lextra = b''
        self.comment = b''
        self.offset = None
        self.lover = {}             # local header field -> value
        self.cover = {}             # central header field -> value
        self.descriptor = False

    def payload(self):
        if self.method == 8:
            c = zlib.compressobj(6, zlib.DEFLATED, -15)
            return c.compress(self.data) + c.flush()
        return self.data


FIELDS = {'ver': 'H', 'flags': 'H', 'method': 'H', 'time': 'H', 'date': 'H', 'crc': 'I', 'csize': 'I', 'usize': 'I', 'nlen': 'H', 'elen': 'H'}
CEN = ['made', 'ver', 'flags', 'method', 'time', 'date', 'crc', 'csize', 'usize', 'nlen', 'elen', 'clen', 'disk', 'iattr', 'eattr', 'offset']
CFMT = {'made': 'H', 'clen': 'H', 'disk': 'H', 'iattr': 'H', 'eattr': 'I', 'offset': 'I'}
CFMT.update(FIELDS)
LOC = ['ver', 'flags', 'method', 'time', 'date', 'crc', 'csize', 'usize', 'nlen', 'elen']


def build(entries, prefix=b'', comment=b'', eocd=None, gap=b''):
    out = [prefix]
    pos = len(prefix)
    cen = []
    for e in entries:
        p = e.payload()
        crc = zlib.crc32(e.data)
        fl = e.flags | (8 if e.descriptor else 0)
        v = {'ver': 20, 'flags': fl, 'method': e.method, 'time': 0, 'date': 33, 'crc': crc, 'csize': len(p), 'usize': len(e.data),
             'nlen': len(e.name), 'elen': len(e.lextra)}
        if e.descriptor:
            v.update(crc=0, csize=0, usize=0)
        v.update(e.lover)
        rec = b'PK\3\4' + b''.join(struct.pack('<' + FIELDS[f], v[f] & (0xffff if FIELDS[f] == 'H' else 0xffffffff)) for f in LOC)
        rec += (e.lname if e.lname is not None else e.name) + e.lextra + p
        if e.descriptor:
            rec += struct.pack('<4sIII', b'PK\7\10', crc, len(p), len(e.data))
        v = {'made': 20, 'ver': 20, 'flags': fl, 'method': e.method, 'time': 0, 'date': 33, 'crc': crc, 'csize': len(p), 'usize': len(e.data),
             'nlen': len(e.name), 'elen': len(e.extra), 'clen': len(e.comment), 'disk': 0, 'iattr': 0, 'eattr': 0, 'offset': pos - len(prefix)}
        v.update(e.cover)
        cen.append(b'PK\1\2' + b''.join(struct.pack('<' + CFMT[f], v[f] & (0xffff if CFMT[f] == 'H' else 0xffffffff)) for f in CEN) + e.name + e.extra + e.comment)
        out.append(rec)
        pos += len(rec)
    out.append(gap)
    pos += len(gap)
    cd = b''.join(cen)
    v = {'disk': 0, 'cddisk': 0, 'n1': len(entries), 'n2': len(entries), 'size': len(cd), 'off': pos - len(prefix), 'clen': len(comment)}
    v.update(eocd or {})
    out.append(cd)
    out.append(b'PK\5\6' + struct.pack('<HHHHIIH', v['disk'] & 0xffff, v['cddisk'] & 0xffff, v['n1'] & 0xffff, v['n2'] & 0xffff,
                                       v['size'] & 0xffffffff, v['off'] & 0xffffffff, v['clen'] & 0xffff) + comment)
    return b''.join(out)
