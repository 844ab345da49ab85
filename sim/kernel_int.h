// Internals shared by kernel.cpp and seam.cpp
#pragma once
#include "kernel.h"
#include <cstdarg>
#include <map>
#include <memory>
#include <set>
#include <ucontext.h>

namespace sim {
struct Inode {
    int kind = K_REG;
    std::string data;
    bool r = true, w = true;
    int perm = 0644;
    std::vector<int> chunks;
    bool stall = false;
    size_t rpos = 0, avail = 0, nextchunk = 0;
    uint64_t arrive_us = 0;    // pipe: when the next piece arrives (0: not yet drawn)
    int lock_ex = -1;          // process holding the exclusive lock
    std::set<int> lock_sh;
    uint64_t mtime_us = 0;
};
struct Fd {
    bool open = false;
    int inode = -1;
    long off = 0;
    int flags = 0;
    std::string path;
};
struct SimFile {
    FILE *f = nullptr;
    int fd = -1;
    bool closed = false, dead = false, std = false, wr = false;
    bool mem = false;          // a stream in memory
    void *own = nullptr;
    std::vector<char> buf;
};
struct Proc {
    int id = 0;
    int pid = 0;
    int mask = 022;
    std::map<std::string, std::pair<bool, std::string>> env;   // set or unset by the process itself
    uint64_t rnd = 1, rnd48 = 0x1234abcd330e;   // rand() and random(), and the 48 bit ones: the same in every process until seeded
    Knobs k;
    std::vector<std::string> args;
    std::vector<char *> cargv;
    InstRec *rec = nullptr;
    bool tables = false;
    bool in_driver_mute = false;
    ucontext_t ctx;
    char *stack = nullptr;
    std::string gdata, gbss;
    int saved_errno = 0;
    std::vector<Fd> fds;
    std::set<int> opened;      // inodes opened so far
    bool src_tried = false;    // tried to open the source
    std::vector<std::unique_ptr<SimFile>> files;
    FILE *in = nullptr, *out = nullptr, *err = nullptr;
    std::vector<char> outbuf;
    std::vector<void (*)()> atexits;
    char *strtok_save = nullptr;
    void (*handlers[65])(int) = {nullptr};
    uint64_t alarm_us = 0;
    bool in_handler = false;
    bool restart[65] = {false};    // SA_RESTART
    bool once[65] = {false};       // SA_RESETHAND
    uint64_t sigmask = 0, sigpend = 0;
    std::set<size_t> sig_sent;     // faults
    size_t stdbytes = 0;           // written to standard output and error
    struct Map { void *p; size_t n; long off; int inode; bool shared; };
    std::vector<Map> maps;
    long live_blocks = 0, live_bytes = 0;
    std::map<void *, size_t> blocks;   // ASan build
    Rng iorng{1}, fillrng{1}, placerng{1};
    int layout = 0;                    // of the heap: 0 upwards, 1 downwards, 2 either way, 3 freed blocks are used again
    std::map<size_t, std::vector<void *>> freed;
    struct { int ind = 1, err = 1, opt = '?'; char *arg = nullptr; bool begun = false; } getopt;
    uint64_t simlat = 1;
};
struct Dec {
    int err = 0;
    int shortn = -1;
    bool torn = false;
    int tornn = 0;
};
extern std::vector<Inode> inodes;
extern std::map<std::string, int> dirmap;
extern Proc *cur;
extern unsigned user_id;   // of everybody in this run

Dec event(Op op, const char *name, const std::string &arg);
void done(const Dec &d, Op op, const char *name, const std::string &arg, long res, int err, uint64_t datahash);
void hard_fault(Op op, FaultStat st);
[[noreturn]] void die(State s);
[[noreturn]] void finish_process(int status, bool returned);
std::string norm(const char *path);
std::string canon(const std::string &p, bool last);   // symbolic links followed; also the last component?
int lookup(const std::string &p);       // follows symbolic links
int lookup_name(const std::string &p);  // not the last one
bool parent_ok(const std::string &p);
int parent_err(const std::string &p);   // may entries be made or removed there?
void set_perm(Inode &n, int perm);
int new_inode(int kind);
uint64_t now_us(bool read = false);   // read: by the program
int alloc_fd();
uint64_t p_pause();
void deliver(int signo, bool own = false);   // own: its own alarm
int pipe_ready(Inode &n, uint64_t wait_us, bool forever, bool poll = false);   // 1 readable, 0 not within the wait, -1 a handler ran
bool signal_while_waiting(bool poll);   // true: a handler ran and the call that waits is given up
void set_sigmask(uint64_t m);
int lock_inode(int fd, int how, bool wait);                  // how: 0 unlock, 1 shared, 2 exclusive
void reset_sems();
void unmap_all(Proc *p);
void sync_maps(Proc *p);
long sim_disk_free();
void disk_give(int inode);
bool disk_resize(int inode, long n, bool holes);
int sys_open(const char *path, int flags, int mode = 0666);
ssize_t sys_read(int fd, void *buf, size_t n, long at);
ssize_t sys_write(int fd, const void *buf, size_t n, long at);
long sys_lseek(int fd, long off, int whence);
int sys_close(int fd);
void *mem_alloc(size_t n, bool zero, const char *name, void *inplace = nullptr);   // inplace: a block that changes its size
void mem_free(void *p);
bool mem_grows(void *p, size_t n);
size_t mem_size(void *p);
SimFile *make_file(int fd, const char *mode, bool std_);
SimFile *find_file(FILE *fp);
int file_close(FILE *fp);
}  // namespace sim
