"""Made-up processors for libprimesieve, which adapts its sieve sizes to the CPU caches."""
import os, shutil, tempfile
import build


def library():
    return build.tool("fakecpu.so", ["fakecpu.c"], flags=("-O2", "-shared", "-fPIC"))


def value(rng, kind):
    k = rng.randrange(30)
    if k == 0:
        return None                 # no such file
    if k == 1:
        return ""
    if k == 2:
        return rng.choice(["abc", "-1", "99999999999999999999999", "0", "1-", "-", ",", "0-,", "K", "12X", "1e5", "\n\n", "0x", "5-3", "\x80\xff", "4294967296", "18446744073709551615", "a" * 3000])
    if kind == "list":
        return rng.choice(["0", "0-1", "0,4", "0-7", "0-3,8-11", "0-63", "0-1023", "0,2,4,6"])
    if kind == "map":
        return rng.choice(["1", "3", "00000000,00000003", "ff", "f0f", "ffffffff,ffffffff", "0"])
    if kind == "size":
        return rng.choice(["%dK" % rng.choice([1, 4, 8, 12, 16, 24, 31, 32, 33, 48, 64, 128, 192, 256, 512, 1024, 1280, 2048, 4095, 4096, 6000, 16384]),
                           "%dM" % rng.choice([1, 2, 3, 4, 8, 40]), "%d" % rng.choice([0, 1, 100, 8191, 32768, 65536, 1048576]), "%dG" % rng.choice([1, 2, 1000])])
    if kind == "level":
        return rng.choice(["1", "2", "3", "1", "2"]) if rng.random() < 0.2 else None
    if kind == "type":
        return rng.choice(["Data", "Unified", "Instruction"])
    return "0"


def cpu(rng, d):
    """Describe a random processor in directory d."""
    def put(name, v):
        if v is not None:
            with open(os.path.join(d, name), "w", encoding="latin-1") as f:
                f.write(v + "\n")
    put("online", value(rng, "list"))
    for n, k in (("core_cpus_list", "list"), ("core_cpus", "map"), ("thread_siblings_list", "list"), ("thread_siblings", "map")):
        put("cpu0_topology_" + n, value(rng, k) if rng.random() < 0.7 else None)
    levels = ["1", "1", "2", "3"]
    types = ["Data", "Instruction", "Unified", "Unified"]
    for i in range(4):
        p = "cpu0_cache_index%d_" % i
        put(p + "level", value(rng, "level") or levels[i])
        put(p + "type", value(rng, "type") if rng.random() < 0.1 else types[i])
        put(p + "size", value(rng, "size"))
        put(p + "shared_cpu_list", value(rng, "list") if rng.random() < 0.6 else "0")
        put(p + "shared_cpu_map", value(rng, "map"))
    put("cpuinfo", rng.choice(["model name\t: Some CPU", "", "processor : 0\ncpu : POWER9", "cpu : 17\n" * 20, "Processor:", ":", "model name\t:    "]))
    return d


class Cpus:
    """n random processors below one temporary directory."""
    def __init__(self, rng, n, san=False):
        self.top = tempfile.mkdtemp(prefix="verif-cpu-")
        self.envs = []
        lib = library()
        for i in range(n):
            d = os.path.join(self.top, str(i))
            os.mkdir(d)
            cpu(rng, d)
            self.envs.append({"FAKECPU": d, "LD_PRELOAD": lib})

    def __enter__(self):
        return self.envs

    def __exit__(self, *a):
        shutil.rmtree(self.top, ignore_errors=True)
