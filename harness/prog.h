// Running the repository's own programs (built beside the harness) in a private scratch directory.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdlib>
#include <cstdio>
#include <ftw.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include "jax.h"
#include "h5.h"
static int progRm(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
static inline std::string binDir() { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); b[k > 0 ? k : 0] = 0; std::string s(b); return s.substr(0, s.rfind('/')); }
// a preloaded library that makes ./stop appear at one look only: the JAX_STOP_AT-th
static inline std::string stopLib() {
  static std::string lib; if (!lib.empty()) return lib; std::string d = scratchDir() + "/stoplib-" + std::to_string(getpid()); 
  FILE *f = fopen((d + ".c").c_str(), "w"); fputs("#define _GNU_SOURCE\n#include <stdio.h>\n#include <dlfcn.h>\n#include <stdlib.h>\n#include <string.h>\nstatic int k;\n"
    "static int hit(const char*p){const char*e=getenv(\"JAX_STOP_AT\");if(!e||!p)return 0;if(strcmp(p,\"./stop\")&&strcmp(p,\"stop\"))return 0;return ++k==atoi(e);}\n"
    "FILE*fopen(const char*p,const char*m){static FILE*(*o)(const char*,const char*);if(!o)o=dlsym(RTLD_NEXT,\"fopen\");return hit(p)?o(\"/dev/null\",m):o(p,m);}\n"
    "FILE*fopen64(const char*p,const char*m){static FILE*(*o)(const char*,const char*);if(!o)o=dlsym(RTLD_NEXT,\"fopen64\");return hit(p)?o(\"/dev/null\",m):o(p,m);}\n", f); fclose(f);
  std::string cmd = "gcc -shared -fPIC -O1 -w -o " + d + ".so " + d + ".c -ldl"; if (system(cmd.c_str()) != 0) return ""; return lib = d + ".so"; }
struct Prog {
  std::string dir, log; int rc = 0;
  Prog() { static int k = 0; dir = scratchDir() + "/prog-" + std::to_string(getpid()) + "-" + std::to_string(k++); mkdir(dir.c_str(), 0755); mkdir((dir + "/out").c_str(), 0755); mkdir((dir + "/out/m").c_str(), 0755); }
  ~Prog() { if (getenv("PROG_KEEP")) return; nftw(dir.c_str(), progRm, 16, FTW_DEPTH | FTW_PHYS); }
  Prog(const Prog &) = delete;
  // exit status; 124 = ran out of time
  int run(const std::string &prog, int np, int threads, const std::string &args, int stopAt = 0, int timeout = 60) {
    std::string c = "cd " + dir + " && timeout -k 5 " + std::to_string(timeout) + " env -i PATH=/usr/local/bin:/usr/bin:/bin HOME=" + dir + " TMPDIR=" + dir + " OMP_NUM_THREADS=" + std::to_string(threads) + " OMP_WAIT_POLICY=passive HDF5_USE_FILE_LOCKING=FALSE OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/false";
    if (stopAt > 0) c += " JAX_STOP_AT=" + std::to_string(stopAt) + " LD_PRELOAD=" + stopLib();
    c += np > 1 ? " mpirun -np " + std::to_string(np) + " " : " "; c += binDir() + "/" + prog + " " + args + " > log 2>&1 < /dev/null"; rc = system(c.c_str()); rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : 128 + WTERMSIG(rc);
    log = slurp("log"); return rc; }
  std::string slurp(const std::string &n) const { std::string o; FILE *f = fopen((dir + "/" + n).c_str(), "r"); if (!f) return o; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f))) o.append(b, k); fclose(f); return o; }
  std::string tail(size_t k = 400) const { std::string t = log.size() > k ? log.substr(log.size() - k) : log; for (auto &q : t) if (q == '\n') q = '|'; return t; }
  bool has(const std::string &n) const { struct stat s; return stat((dir + "/" + n).c_str(), &s) == 0; }
  std::vector<std::string> list(const std::string &d, const std::string &prefix) const { std::vector<std::string> o; DIR *D = opendir((dir + "/" + d).c_str()); if (!D) return o; while (auto e = readdir(D)) { std::string n = e->d_name; if (n.compare(0, prefix.size(), prefix) == 0) o.push_back(n); } closedir(D); std::sort(o.begin(), o.end()); return o; }
  // index of the last configuration axion.NNNNN, -1 if none
  int last() const { int k = -1; for (auto &s : list("out/m", "axion.")) { std::string r = s.substr(6); if (r.size() == 5 && r.find_first_not_of("0123456789") == std::string::npos) k = std::max(k, atoi(r.c_str())); } return k; }
  std::string conf(int i) const { char b[32]; snprintf(b, sizeof b, "/out/m/axion.%05d", i); return dir + b; }
  std::string meas(int i) const { char b[32]; snprintf(b, sizeof b, "/out/m/axion.m.%05d", i); return dir + b; }
};
// everything in an HDF5 file: datasets and attributes by path
struct H5All { std::map<std::string, std::vector<double>> num; std::map<std::string, std::string> str; bool ok = false;
  static herr_t attr(hid_t o, const char *n, const H5A_info_t *, void *p) { auto *q = (std::pair<H5All *, std::string> *)p; hid_t a = H5Aopen(o, n, H5P_DEFAULT), t = H5Aget_type(a); std::string k = q->second + "@" + n; if (H5Tget_class(t) == H5T_STRING) { std::vector<char> b(H5Tget_size(t) + 1, 0); if (!H5Tis_variable_str(t)) H5Aread(a, t, b.data()); q->first->str[k] = b.data(); } else { hid_t s = H5Aget_space(a); std::vector<double> v(std::max<hssize_t>(1, H5Sget_simple_extent_npoints(s))); if (H5Tget_class(t) != H5T_ENUM) H5Aread(a, H5T_NATIVE_DOUBLE, v.data()); H5Sclose(s); q->first->num[k] = v; } H5Tclose(t); H5Aclose(a); return 0; }
  static herr_t obj(hid_t f, const char *n, const H5O_info_t *i, void *p) { auto *w = (H5All *)p; std::string path = strcmp(n, ".") ? std::string("/") + n : "/"; hid_t o = H5Oopen(f, n, H5P_DEFAULT); std::pair<H5All *, std::string> q(w, path); H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, NULL, attr, &q);
    if (i->type == H5O_TYPE_DATASET) { hid_t s = H5Dget_space(o), t = H5Dget_type(o); std::vector<double> v(H5Sget_simple_extent_npoints(s)); auto cl = H5Tget_class(t); if (v.size() && (cl == H5T_FLOAT || cl == H5T_INTEGER)) H5Dread(o, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); w->num[path] = v; H5Sclose(s); H5Tclose(t); } H5Oclose(o); return 0; }
  explicit H5All(const std::string &p) { H5 h(p); ok = h.ok(); if (ok) H5Ovisit(h.f, H5_INDEX_NAME, H5_ITER_INC, obj, this); } };
