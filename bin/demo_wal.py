# Make a WAL segment of the cluster: wal.py PATH SEED
import os, struct, sys
d = bytearray(16 * 1024 * 1024)
struct.pack_into('<HHIQIIQII', d, 0, 0xD106, 2, 1, 0x1000000, 0, 0, 1000000000000000094, 16 * 1024 * 1024, 8192)
d[8192:8192 + 1024] = bytes((i * int(sys.argv[2])) % 251 for i in range(1024))
open(sys.argv[1], 'wb').write(d)
