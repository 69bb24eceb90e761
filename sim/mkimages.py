# One private copy of the program (and, for controllers, of libpython) per simulated process.
import os, sys, glob, shutil
drv, out, nctl, nrem = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
data = open(drv, "rb").read()
py = None
for p in ["/lib/x86_64-linux-gnu/libpython3.12.so.1.0", "/usr/lib/x86_64-linux-gnu/libpython3.12.so.1.0", "/usr/lib/libpython3.12.so.1.0"]:
    if os.path.exists(p): py = p; break
assert py, "libpython3.12 not found"
name = b"libpython3.12.so.1.0\0"
assert name in data
stamp = "%d %d %d %d" % (os.stat(drv).st_mtime_ns, len(data), nctl, nrem)
try:
    if open(out + "/stamp").read() == stamp: sys.exit(0)
except OSError: pass
pyd = open(py, "rb").read()
def put(path, b):
    tmp = path + ".tmp"; open(tmp, "wb").write(b); os.rename(tmp, path)
for i in range(nctl):
    nn = b"libpy3.12.s%02d.so.1.0\0" % i
    assert len(nn) == len(name)
    put("%s/%s" % (out, nn[:-1].decode()), pyd.replace(name, nn))
    put("%s/driver%02d.so" % (out, i), data.replace(name, nn))
for i in range(nctl, nctl + nrem):
    put("%s/driver%02d.so" % (out, i), data)
open(out + "/stamp", "w").write(stamp)
