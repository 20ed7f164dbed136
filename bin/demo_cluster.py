# Make a directory that looks like a stopped PostgreSQL 13 cluster: cluster.py PATH
import os, struct, sys

def crc32c(data):
    crc = 0xffffffff
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ (0x82f63b78 if crc & 1 else 0)
    return crc ^ 0xffffffff

path = sys.argv[1]
for p in ('global', 'base/1', 'pg_wal/archive_status', 'pg_tblspc'):
    os.makedirs(os.path.join(path, p))
d = bytearray(288)
struct.pack_into('<QII', d, 0, 1000000000000000094, 1300, 202007201)
struct.pack_into('<QQ', d, 32, 0x1000028, 0x1000028)
struct.pack_into('<I', d, 48, 1)
struct.pack_into('<I', d, 172, 1)
struct.pack_into('<IIII', d, 216, 8192, 131072, 8192, 16 * 1024 * 1024)
d += struct.pack('<I', crc32c(d))
open(os.path.join(path, 'global/pg_control'), 'wb').write(d + bytes(8192 - len(d)))
open(os.path.join(path, 'PG_VERSION'), 'w').write('13\n')
open(os.path.join(path, 'postgresql.conf'), 'w').write('# config\n')
for i in range(3):
    open(os.path.join(path, 'base/1/%d' % (16384 + i)), 'wb').write(bytes([i + 1]) * (8192 * (i + 1)))
for r, ds, fs in os.walk(path):
    os.chmod(r, 0o700)
    for f in fs:
        os.chmod(os.path.join(r, f), 0o600)
