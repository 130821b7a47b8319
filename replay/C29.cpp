// reads and writes real files in a scratch directory while the system calls the code makes are forwarded through stand-ins that may fail or be short
#include "strs.h"
#include <rpp/files.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <errno.h>
#include <stdarg.h>
static bool armed = false, faulty = false; static int opened = 0, closed = 0, badclose = 0, sysfail = 0, cur = -1; static Rnd* R = null; static int calls = 0; static bool stuck = false;
static bool bad() { if(armed && ++calls > 2000000) fail("the call does not end"); if(armed && faulty && R->chance(3)) stuck = true; if(armed && faulty && R->chance(12)) { sysfail++; errno = EIO; return true; } return false; }
static int do_open(const char* p, int fl, int mode) { if(bad()) return -1; int r = (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode); if(armed) { if(r >= 0) opened++, cur = r; else sysfail++; } return r; }
extern "C" {
int open(const char* p, int fl, ...) { int mode = 0; if(fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); mode &= 07777; } return do_open(p, fl, mode); }
int open64(const char* p, int fl, ...) { int mode = 0; if(fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); mode &= 07777; } return do_open(p, fl, mode); }
off_t lseek(int fd, off_t o, int w) noexcept { if(bad()) return -1; return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if(bad()) return -1; return syscall(SYS_lseek, fd, o, w); }
ssize_t read(int fd, void* b, size_t n) { if(bad()) return -1; if(armed && stuck) { sysfail++; return 0; } if(armed && faulty && n > 1 && R->chance(60)) n = 1 + R->below(n); else if(armed && faulty && R->chance(4)) { sysfail++; return 0; } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if(bad()) return -1; if(armed && stuck) { sysfail++; return 0; } if(armed && faulty && n > 1 && R->chance(60)) n = 1 + R->below(n); else if(armed && faulty && R->chance(4)) { sysfail++; return 0; } return syscall(SYS_write, fd, b, n); }
int close(int fd) { if(armed) { closed++; if(fd != cur) badclose++; cur = -1; } return (int)syscall(SYS_close, fd); }
}
static void put(const std::string& p, const std::string& s) { int f = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); u64 d = 0; while(d < s.size()) d += (u64)syscall(SYS_write, f, s.data() + d, s.size() - d); syscall(SYS_close, f); }
static std::string get(const std::string& p) { int f = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if(f < 0) return "<none>"; std::string o; char b[4096]; long n; while((n = syscall(SYS_read, f, b, sizeof b)) > 0) o.append(b, (u64)n); syscall(SYS_close, f); return o; }
static void arm(bool f) { opened = closed = badclose = sysfail = calls = 0; stuck = false; cur = -1; faulty = f; armed = true; }
static void balance() { armed = false; tr("opened %d closed %d failures %d", opened, closed, sysfail); CHECK(opened == closed); CHECK(!badclose); }
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1); R = &r; umask(022);
    char t[] = "./scratchXXXXXX"; if(!mkdtemp(t)) return 0; std::string dir = t; int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0); (void)nul;
    for(int i = 0; i < 1500; i++) {
        g_trace.clear(); std::string s = i % 97 == 5 ? std::string(200000, 'q') : text(r, i % 9 ? 20 : 5000, "abc\n"), p = dir + "/f" + std::to_string(i % 7), old = text(r, 40, "xyz"); bool f = i % 3 != 0;
        Buf P(p), D(s);
        if(r.chance(70)) { // write over an existing file, or create one
            bool had = r.chance(60); unlink(p.c_str()); if(had) put(p, old);
            tr("write %zu bytes, %s, %s", s.size(), had ? "existing file" : "new file", f ? "calls may fail" : "no failures"); arm(f); bool ok = Files::write(P.view(), Slice<const u8>{D.p, D.n}); balance();
            if(ok) { CHECK(get(p) == s); struct stat st; CHECK(!::stat(p.c_str(), &st) && (st.st_mode & 0600) == 0600); } else CHECK(sysfail);
        }
        bool have = r.chance(95); unlink(p.c_str()); if(have) put(p, s);
        tr("read %zu bytes, %s", s.size(), f ? "calls may fail" : "no failures"); arm(f); auto d = Files::read(P.view()); balance();
        if(d.ok()) { CHECK(have && d->length() == s.size() && std::string((const char*)d->data(), d->length()) == s); } else CHECK(sysfail);
        if(have) CHECK(get(p) == s);
        auto tm = Files::last_write_time(P.view()); CHECK(tm.ok() == have);
        if(have) { struct stat st; ::stat(p.c_str(), &st); CHECK(*tm == (u64)st.st_mtime); timespec ts[2] = {{1000 + i, 0}, {2000 + i, 0}}; Files::Write_Watcher w(P.view()); CHECK(!w.poll()); utimensat(AT_FDCWD, p.c_str(), ts, 0); tr("time set"); w.poll(); ts[1].tv_sec += 5; utimensat(AT_FDCWD, p.c_str(), ts, 0); CHECK(w.poll()); CHECK(!w.poll()); auto wd = w.read(); CHECK(wd.ok() && wd->length() == s.size()); }
        else CHECK(get(p) == "<none>");
    }
    for(int i = 0; i < 7; i++) unlink((dir + "/f" + std::to_string(i)).c_str());
    rmdir(dir.c_str());
    return 0;
}
