"""A reader of flattened device trees (Devicetree Specification v0.4, chapter 5), used on the table a function is shown to build."""
import struct


class Bad(Exception):
    pass


class Node:
    def __init__(self, name, parent):
        self.name, self.parent, self.props, self.kids = name, parent, {}, []

    def path(self):
        return '/' if self.parent is None else (self.parent.path().rstrip('/') + '/' + self.name)

    def all(self):
        yield self
        for k in self.kids:
            yield from k.all()

    def find(self, path):
        n = self
        for part in [x for x in path.split('/') if x]:
            n = next((k for k in n.kids if k.name == part), None)
            if n is None:
                return None
        return n


def cells(b):
    if len(b) % 4:
        raise Bad('length %d of a cell property is not a multiple of 4' % len(b))
    return list(struct.unpack('>%dI' % (len(b) // 4), b))


def strings(b):
    if not b or b[-1]:
        raise Bad('text property %r is not terminated' % b)
    return b[:-1].decode().split('\0')


def read(blob):
    """(header dict, root Node)"""
    if len(blob) < 40:
        raise Bad('no room for a header')
    names = 'magic totalsize off_dt_struct off_dt_strings off_mem_rsvmap version last_comp_version boot_cpuid_phys size_dt_strings size_dt_struct'.split()
    h = dict(zip(names, struct.unpack('>10I', blob[:40])))
    if h['magic'] != 0xd00dfeed:
        raise Bad('magic %#x' % h['magic'])
    if h['version'] < 17 or h['last_comp_version'] > 16:
        raise Bad('version %d, compatible down to %d' % (h['version'], h['last_comp_version']))
    if h['totalsize'] > len(blob):
        raise Bad('totalsize %d of a table of %d bytes' % (h['totalsize'], len(blob)))
    for o, a in (('off_dt_struct', 4), ('off_mem_rsvmap', 8)):
        if h[o] % a or h[o] < 40:
            raise Bad('%s %#x' % (o, h[o]))
    for o, s in (('off_dt_struct', 'size_dt_struct'), ('off_dt_strings', 'size_dt_strings')):
        if h[o] + h[s] > h['totalsize']:
            raise Bad('%s + %s beyond totalsize' % (o, s))
    i = h['off_mem_rsvmap']
    while True:
        if i + 16 > h['totalsize']:
            raise Bad('memory reservation block is not terminated')
        a, s = struct.unpack('>QQ', blob[i:i + 16])
        i += 16
        if not a and not s:
            break
        if not s:
            raise Bad('empty memory reservation')
        h.setdefault('reserved', []).append((a, s))
    sb = blob[h['off_dt_strings']:h['off_dt_strings'] + h['size_dt_strings']]
    b = blob[h['off_dt_struct']:h['off_dt_struct'] + h['size_dt_struct']]
    i, cur, root = 0, None, None

    def word():
        nonlocal i
        if i + 4 > len(b):
            raise Bad('structure block ends early')
        i += 4
        return struct.unpack('>I', b[i - 4:i])[0]
    while True:
        t = word()
        if t == 1:
            j = b.find(b'\0', i)
            if j < 0:
                raise Bad('node name is not terminated')
            n = Node(b[i:j].decode(), cur)
            i = (j + 4) & ~3
            if cur is None:
                if root is not None or n.name:
                    raise Bad('root node %r' % n.name)
                root = n
            else:
                if any(k.name == n.name for k in cur.kids):
                    raise Bad('two nodes %s' % n.path())
                cur.kids.append(n)
            cur = n
        elif t == 2:
            if cur is None:
                raise Bad('unmatched end of node')
            cur = cur.parent
            if cur is None:
                break
        elif t == 3:
            ln, no = word(), word()
            if no >= len(sb) or sb.find(b'\0', no) < 0:
                raise Bad('property name offset %d' % no)
            if i + ln > len(b):
                raise Bad('property of %d bytes' % ln)
            name = sb[no:sb.find(b'\0', no)].decode()
            if cur is None:
                raise Bad('property %s outside any node' % name)
            if name in cur.props:
                raise Bad('two properties %s in %s' % (name, cur.path()))
            if no and sb[no - 1]:
                raise Bad('property name offset %d is inside another name' % no)
            cur.props[name] = b[i:i + ln]
            i = (i + ln + 3) & ~3
        elif t == 4:
            pass
        else:
            raise Bad('token %#x at %#x of the structure block' % (t, i - 4))
    t = word()
    while t == 4:
        t = word()
    if t != 9 or i != len(b):
        raise Bad('structure block does not end after the root node')
    return h, root
