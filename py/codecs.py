"""Reference codecs, over a pipe: requests and answers are length-prefixed.

Request: json line length (u32), json, payload length (u32), payload.
Answer: status byte (0 ok, 1 error), payload length (u32), payload.
"""
import bz2
import json
import lzma
import struct
import sys
import zlib


def gzip_encode(data, q):
    flags = 0
    extra = b""
    if q.get("extra"):
        flags |= 4
        e = b"ab" + struct.pack("<H", 5) + b"12345"
        extra += struct.pack("<H", len(e)) + e
    if q.get("name"):
        flags |= 8
        extra += b"name.bin\0"
    if q.get("comment"):
        flags |= 16
        extra += b"comment\0"
    head = struct.pack("<BBBBIBB", 31, 139, 8, flags | (1 if q.get("text") else 0), q.get("mtime", 0), q.get("xfl", 0), q.get("os", 255))
    head += extra
    if q.get("hcrc"):
        head = head[:3] + bytes([head[3] | 2]) + head[4:]
        head += struct.pack("<H", zlib.crc32(head) & 0xFFFF)
    c = zlib.compressobj(q["level"], zlib.DEFLATED, -q.get("wbits", 15), q.get("mem", 8), q.get("strategy", 0))
    body = b""
    step = q.get("flush", 0)
    if step:
        for i in range(0, len(data), step):
            body += c.compress(data[i:i + step])
            body += c.flush([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH][i // step % 2])
    else:
        body += c.compress(data)
    body += c.flush()
    return head + body + struct.pack("<II", zlib.crc32(data), len(data) & 0xFFFFFFFF)


def handle(q, data):
    op = q["op"]
    if op == "gzip-d":
        d = zlib.decompressobj(31)
        out = d.decompress(data) + d.flush()
        if not d.eof:
            raise ValueError("incomplete stream")
        if d.unused_data:
            raise ValueError("%d bytes after the stream" % len(d.unused_data))
        return out
    if op == "bzip2-d":
        d = bz2.BZ2Decompressor()
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("incomplete stream")
        if d.unused_data:
            raise ValueError("%d bytes after the stream" % len(d.unused_data))
        return out
    if op == "xz-d":
        d = lzma.LZMADecompressor(lzma.FORMAT_XZ)
        out = d.decompress(data)
        if not d.eof:
            raise ValueError("incomplete stream")
        if d.unused_data:
            raise ValueError("%d bytes after the stream" % len(d.unused_data))
        return out
    if op in ("gzip-p", "bzip2-p", "xz-p"):
        # As much as can be decoded of the first stream.
        d = {"g": lambda: zlib.decompressobj(31), "b": bz2.BZ2Decompressor, "x": lambda: lzma.LZMADecompressor(lzma.FORMAT_XZ)}[op[0]]()
        out = bytearray()
        try:
            for i in range(len(data)):
                if d.eof or len(out) >= q["most"]:
                    break
                out += d.decompress(data[i:i + 1])
        except (OSError, EOFError, zlib.error, lzma.LZMAError):
            pass
        return bytes(out)
    if op == "gzip-e":
        return gzip_encode(data, q)
    if op == "bzip2-e":
        return bz2.compress(data, q["level"])
    if op == "xz-e":
        check = {"none": lzma.CHECK_NONE, "crc32": lzma.CHECK_CRC32, "crc64": lzma.CHECK_CRC64, "sha256": lzma.CHECK_SHA256}[q["check"]]
        f = q.get("filters")
        if f:
            filters = []
            for x in f:
                if x == "delta":
                    filters.append({"id": lzma.FILTER_DELTA, "dist": q["dist"]})
                elif x == "x86":
                    filters.append({"id": lzma.FILTER_X86})
                elif x == "arm":
                    filters.append({"id": lzma.FILTER_ARM})
            filters.append({"id": lzma.FILTER_LZMA2, "preset": q["preset"], "lc": q["lc"], "lp": q["lp"], "pb": q["pb"], "dict_size": q["dict"]})
            return lzma.compress(data, format=lzma.FORMAT_XZ, check=check, filters=filters)
        return lzma.compress(data, format=lzma.FORMAT_XZ, check=check, preset=q["preset"])
    raise KeyError(op)


def main():
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(4)
        if len(h) < 4:
            return
        q = json.loads(i.read(struct.unpack("<I", h)[0]))
        n = struct.unpack("<I", i.read(4))[0]
        data = i.read(n)
        try:
            out, st = handle(q, data), 0
        except (ValueError, OSError, EOFError, zlib.error, lzma.LZMAError) as e:
            out, st = str(e).encode(), 1
        o.write(struct.pack("<BI", st, len(out)) + out)
        o.flush()


main()
