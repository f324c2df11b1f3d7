#!/usr/bin/env python3
# mkseed.py: reads a python spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, FLAGS, CXX
import sys, os, subprocess, shutil, json
PRE = """#include "veigar/veigar.h"
#include "message_queue.h"
#include "semaphore.h"
#include "event.h"
#include "shared_memory.h"
#include "string_helper.h"
#include <atomic>
#include <chrono>
#include <cstring>
#include <functional>
#include <set>
#include <map>
#include <sstream>
#include <thread>
#include <vector>
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace veigar;
static std::string tag(const char* s) { return "dm" + std::to_string(getpid()) + s; }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
static bool until(std::function<bool()> f, int limit) {
    for (int i = 0; i < limit && !f(); i++) ms(1);
    return f();
}
#define FAIL(...) do { fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\\n"); _exit(1); } while (0)
"""
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    i = g['ID']
    sd = '/verif/seeded/' + i
    os.makedirs(sd, exist_ok=True)
    d = subprocess.run([sys.executable, '/verif/tools/plant.py', 'mk', i], capture_output=True, text=True).stdout.strip()
    for p, a, b in g['EDITS']:
        q = d + '/' + p
        s = open(q).read()
        n = s.count(a)
        assert n == 1, (p, a, n)
        open(q, 'w').write(s.replace(a, b))
    subprocess.run([sys.executable, '/verif/tools/plant.py', 'save', i], check=True)
    open(sd + '/demo.cpp', 'w').write(g.get('PRE', PRE) + g['DEMO'])
    shutil.copy('/verif/tools/demo.sh', sd + '/demo.sh')
    os.chmod(sd + '/demo.sh', 0o755)
    if g.get('FLAGS'): open(sd + '/flags', 'w').write(g['FLAGS'] + '\n')
    if g.get('CXX'): open(sd + '/cxx', 'w').write(g['CXX'] + '\n')
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(sd + '/meta.json', 'w'), indent=1)
