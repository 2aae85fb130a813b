// In-memory file store standing in for the operating system below <filesystem> and <fstream>.
// Faults: every operation may fail when the harness allows it (a symbolic decision per operation).
#pragma once
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
#include "sx.h"
extern "C" { void sx_atomic_begin(); void sx_atomic_end(); void sxrt_sched_point(); }
namespace sxfs {
struct Atomic { Atomic() { sx_atomic_begin(); } ~Atomic() { sx_atomic_end(); } };
enum Op : unsigned { OpenR = 1, OpenW = 2, Read = 4, Write = 8, Close = 16, Stat = 32, Mkdir = 64, Remove = 128, Rename = 256, Lock = 512 };
struct Node { std::string path; bool dir = false; std::vector<char> data; int writers = 0, readers = 0; Node *next = nullptr; };
struct FS {
    Node *head = nullptr;            // nodes are never freed while streams may refer to them
    int faultsLeft = 0; unsigned faultMask = 0; unsigned faulted = 0; int nFaults = 0;
    int mutations = 0;               // operations that changed stored state
    int conflicts = 0;               // concurrent accesses to one file where at least one writes
    std::vector<std::string> log; bool logging = false;
};
inline FS sxrt_fs;
inline FS &fs() { return sxrt_fs; }
inline std::string norm(const std::string &p) {      // collapse duplicate and trailing separators and "."
    std::string r; size_t i = 0; bool abs = !p.empty() && p[0] == '/';
    while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i && !(j == i + 1 && p[i] == '.')) { if (!r.empty() || abs) r += '/'; r.append(p, i, j - i); } i = j + 1; }
    if (r.empty()) r = abs ? "/" : "."; return r; }
inline Node *find(const std::string &n) { for (Node *x = fs().head; x; x = x->next) if (x->path == n) return x; return nullptr; }
inline Node *add(const std::string &n, bool dir) { Node *x = new Node(); x->path = n; x->dir = dir; x->next = fs().head; fs().head = x; return x; }
inline void unlink(Node *n) { Node **p = &fs().head; while (*p != n) p = &(*p)->next; *p = n->next; ++fs().mutations; if (n->writers + n->readers) ++fs().conflicts; }
inline std::string parent(const std::string &n) { size_t k = n.rfind('/'); if (k == std::string::npos) return "."; return k == 0 ? "/" : n.substr(0, k); }
inline bool isRoot(const std::string &n) { return n == "/" || n == "."; }
inline bool isDir(const std::string &n) { if (isRoot(n)) return true; Node *x = find(n); return x && x->dir; }
inline bool fault(Op op, const char *name) {
    FS &f = fs(); if (f.faultsLeft <= 0 || !(f.faultMask & op)) return false;
    if (sx_fork(sx_bool(name))) { --f.faultsLeft; ++f.nFaults; f.faulted |= op; return true; } return false; }
inline void point() { sxrt_sched_point(); }
// ---- harness conveniences (no faults, no scheduling)
inline void put(const std::string &p, const void *d, size_t n) { std::string q = norm(p); Node *x = find(q); if (!x) { for (std::string a = parent(q); !isDir(a); a = parent(a)) add(a, true); x = add(q, false); } x->data.assign((const char *)d, (const char *)d + n); }
inline void put(const std::string &p, const std::string &s) { put(p, s.data(), s.size()); }
inline Node *get(const std::string &p) { return find(norm(p)); }
inline void drop(const std::string &p) { Node *x = get(p); if (x) { unlink(x); --fs().mutations; } }
inline bool has(const std::string &p) { return get(p) != nullptr; }
inline size_t countUnder(const std::string &p) { std::string q = norm(p) + "/"; size_t n = 0; for (Node *x = fs().head; x; x = x->next) if (x->path.compare(0, q.size(), q) == 0) ++n; return n; }
inline size_t filesUnder(const std::string &p) { std::string q = norm(p) + "/"; size_t n = 0; for (Node *x = fs().head; x; x = x->next) if (!x->dir && x->path.compare(0, q.size(), q) == 0) ++n; return n; }
inline void mkdirs(const std::string &p) { std::string q = norm(p); for (; !isDir(q); q = parent(q)) add(q, true); }
struct Snap { std::vector<std::string> names; std::vector<bool> dirs; std::vector<std::vector<char>> data; };
inline Snap snap() { Snap s; for (Node *x = fs().head; x; x = x->next) { s.names.push_back(x->path); s.dirs.push_back(x->dir); s.data.push_back(x->data); } return s; }
// is the current content identical to the snapshot? (path sets concrete, bytes possibly symbolic)
inline int same(const Snap &s) {
    size_t n = 0; int ok = 1; for (Node *x = fs().head; x; x = x->next) ++n; if (n != s.names.size()) return 0;
    for (size_t i = 0; i < n; i++) { Node *x = find(s.names[i]); if (!x || x->dir != s.dirs[i] || x->data.size() != s.data[i].size()) return 0; for (size_t k = 0; k < x->data.size(); k++) ok = sx_and(ok, x->data[k] == s.data[i][k]); }
    return ok; }
inline void allowFaults(unsigned mask, int n) { fs().faultMask = mask; fs().faultsLeft = n; fs().nFaults = 0; fs().faulted = 0; }
inline void noFaults() { fs().faultsLeft = 0; }
}
