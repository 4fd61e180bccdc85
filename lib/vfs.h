// Files for harnesses: in memory under the executor (lib/shim/fstream), real ones in a scratch folder natively.
#pragma once
#include "io/mstream.hpp"
#ifdef SYM_SHIM_FSTREAM
static unsigned char vdata[70000]; VFile vfiles[] = {{"file", vdata, 0, 70000, false, false}, {"/dev/full", nullptr, 0, 0, true, true}, {"/", nullptr, 0, 0, true, true}}; int nvfiles = 3;
struct Files { std::string path() { return "file"; } void put(const unsigned char *d, int n) { for (int i = 0; i < n; i++) vdata[i] = d[i]; vfiles[0].len = n; vfiles[0].exists = true; } int get(unsigned char *d) { if (!vfiles[0].exists) return -1; for (int i = 0; i < vfiles[0].len; i++) d[i] = vdata[i]; return vfiles[0].len; } };
#else
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
static char vdir[32] = "/tmp/vfsXXXXXX"; static std::string vpath; static void vclean() { unlink(vpath.c_str()); rmdir(vdir); }
struct Files { Files() { if (!mkdtemp(vdir)) abort(); vpath = std::string(vdir) + "/file"; atexit(vclean); } std::string path() { return vpath; }
    void put(const unsigned char *d, int n) { FILE *f = fopen(vpath.c_str(), "wb"); fwrite(d, 1, n, f); fclose(f); } int get(unsigned char *d) { FILE *f = fopen(vpath.c_str(), "rb"); if (!f) return -1; int n = (int)fread(d, 1, 70000, f); fclose(f); return n; } };
#endif
