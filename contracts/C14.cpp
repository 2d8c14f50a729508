// C14: saved settings survive a crash at any point of a save.
// SOURCES:
// The real Awl/Io/AtomicStorage.cpp, Awl/Io/OptionalStorage.cpp and Platforms/Posix/Awl/Io/NativeStream.h are compiled here;
// only the system calls they make are replaced (by the preprocessor) by a file system kept in memory, defined below.
#include "vc.h"
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <utility>
#include <vector>
#include <cassert>
#include <filesystem>
#include <sstream>
#include <iostream>
#include <functional>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>

// ---------------------------------------------------------------------------------------------------------------------
// The file system.  A file is the list of its states since it was last synchronized: [0] is on the disk for sure, the
// last one is what the process sees.  A crash leaves each file in one of these states, whichever.

namespace sim {

#ifdef VC_SYMBOLIC
constexpr unsigned maxLen = 6, maxHist = 16;
#else
constexpr unsigned maxLen = 400, maxHist = 420;
#endif

struct Image {
    uint8_t d[maxLen];
    unsigned n;
};
struct File {
    bool exists;
    unsigned top;
    Image h[maxHist];
    Image& cur() { return h[top]; }
};
struct Fd {
    bool open;
    unsigned file, pos;
};

File files[2];
Fd fds[4];
unsigned opened;            // descriptors in use
Image frozen[2];            // what the crash leaves
bool crashed, armed;
unsigned tick, crashAt;     // every change of a file and every synchronization is a tick
bool failing;
unsigned sys, failAt;       // every write, truncate, sync and seek is a call that may fail
bool failed;
bool locked;                // the mutex of the caller
bool accessLocked;          // a file operation happened under the mutex

void point()
{
    if (armed && !crashed && tick == crashAt) {
        crashed = true;
        for (unsigned i = 0; i != 2; ++i)
            frozen[i] = files[i].h[files[i].top ? vc_pick(0, files[i].top, "persisted") : 0];
    }
    ++tick;
}

bool fail()
{
    if (locked)
        accessLocked = true;
    return failing && sys++ == failAt && (failed = true);
}

Image& change(File& f)
{
    if (f.top + 1 == maxHist) {         // the system has written back what it had (never with the bounds of the proofs)
        f.h[0] = f.cur();
        f.top = 0;
    }
    f.h[f.top + 1] = f.h[f.top];
    ++f.top;
    return f.cur();
}

// the names used are m, b, m.dat and m.bak
unsigned file_of(const char* name)
{
    return name[0] == 'b' || (name[1] && name[2] == 'b') ? 1 : 0;
}

int open(const char* name, int flags, int = 0)
{
    unsigned f = file_of(name);
    if (!files[f].exists) {
        if (!(flags & O_CREAT) || (failing && sys++ == failAt && (failed = true)))
            return -1;
        files[f].exists = true;
        files[f].top = 0;
        files[f].h[0].n = 0;
    }
    if (flags & O_TRUNC)
        change(files[f]).n = 0;
    for (unsigned i = 0; i != 4; ++i)
        if (!fds[i].open) {
            fds[i] = Fd{true, f, 0};
            ++opened;
            return int(i) + 3;
        }
    return -1;
}
bool bad(int fd) { return fd < 3 || fd > 6 || !fds[fd - 3].open; }
int close(int fd)
{
    if (bad(fd))
        return -1;
    fds[fd - 3].open = false;
    --opened;
    return 0;
}
int access(const char* name, int) { return files[file_of(name)].exists ? 0 : -1; }
int fstat(int fd, struct stat* st)
{
    if (bad(fd))
        return -1;
    st->st_size = files[fds[fd - 3].file].cur().n;
    return 0;
}
off_t lseek(int fd, off_t off, int whence)
{
    if (bad(fd))
        return -1;
    Fd& f = fds[fd - 3];
    if (fail())
        return -1;
    off_t p = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off_t(f.pos) : off_t(files[f.file].cur().n)) + off;
    if (p < 0)
        return -1;
    f.pos = unsigned(p);
    return p;
}
ssize_t read(int fd, void* buf, size_t n)
{
    if (bad(fd))
        return -1;
    Fd& f = fds[fd - 3];
    Image& c = files[f.file].cur();
    size_t k = 0;
    for (; k != n && f.pos < c.n; ++k)
        static_cast<uint8_t*>(buf)[k] = c.d[f.pos++];
    return ssize_t(k);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (bad(fd))
        return -1;
    Fd& f = fds[fd - 3];
    size_t todo = n;
    bool err = fail();
    if (err)
        todo = vc_pick(0, n, "written before the failure");
    for (size_t k = 0; k != todo; ++k) {
        point();
        Image& c = change(files[f.file]);
        vc_assert(f.pos < maxLen, "sim: length");
        for (; c.n < f.pos; ++c.n)
            c.d[c.n] = 0;
        c.d[f.pos] = static_cast<const uint8_t*>(buf)[k];
        if (++f.pos > c.n)
            c.n = f.pos;
    }
    return err && (todo == 0 || todo == n) ? -1 : ssize_t(todo);
}
int ftruncate(int fd, off_t n)
{
    if (bad(fd) || fail())
        return -1;
    point();
    Image& c = change(files[fds[fd - 3].file]);
    for (; c.n < n; ++c.n)
        c.d[c.n] = 0;
    c.n = unsigned(n);
    return 0;
}
int fsync(int fd)
{
    if (bad(fd) || fail())
        return -1;
    point();
    File& f = files[fds[fd - 3].file];
    f.h[0] = f.cur();
    f.top = 0;
    point();
    return 0;
}

void arm(unsigned at)
{
    tick = 0;
    crashAt = at;
    crashed = false;
    armed = true;
}
void inject(unsigned at)
{
    sys = 0;
    failAt = at;
    failed = false;
    failing = true;
}
// the machine restarts: every process is gone
void reboot()
{
    armed = failing = false;
    for (unsigned i = 0; i != 2; ++i) {
        if (crashed)
            files[i].h[0] = frozen[i];
        else
            files[i].h[0] = files[i].cur();
        files[i].top = 0;
    }
}

} // namespace sim

inline int sim_open(const char* name, int flags, int mode = 0) { return sim::open(name, flags, mode); }
inline int sim_close(int fd) { return sim::close(fd); }
inline int sim_access(const char* name, int m) { return sim::access(name, m); }
inline int sim_fstat(int fd, struct stat* st) { return sim::fstat(fd, st); }
inline off_t sim_lseek(int fd, off_t off, int whence) { return sim::lseek(fd, off, whence); }
inline ssize_t sim_read(int fd, void* buf, size_t n) { return sim::read(fd, buf, n); }
inline ssize_t sim_write(int fd, const void* buf, size_t n) { return sim::write(fd, buf, n); }
inline ssize_t sim_pread(int fd, void* buf, size_t n, off_t p)
{
    unsigned o = sim::bad(fd) ? 0 : std::exchange(sim::fds[fd - 3].pos, unsigned(p));
    ssize_t r = sim::read(fd, buf, n);
    if (r >= 0)
        sim::fds[fd - 3].pos = o;
    return r;
}
inline ssize_t sim_pwrite(int fd, const void* buf, size_t n, off_t p)
{
    unsigned o = sim::bad(fd) ? 0 : std::exchange(sim::fds[fd - 3].pos, unsigned(p));
    ssize_t r = sim::write(fd, buf, n);
    if (!sim::bad(fd))
        sim::fds[fd - 3].pos = o;
    return r;
}
inline int sim_ftruncate(int fd, off_t n) { return sim::ftruncate(fd, n); }
inline int sim_fsync(int fd) { return sim::fsync(fd); }

#include "Awl/Logger.h"
#include "Awl/OptionalMutex.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Mp/Mp.h"

#define open sim_open
#define close sim_close
#define access sim_access
#define fstat sim_fstat
#define lseek sim_lseek
#define read sim_read
#define write sim_write
#define pread sim_pread
#define pwrite sim_pwrite
#define ftruncate sim_ftruncate
#define fsync sim_fsync
#define fdatasync sim_fsync
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/AtomicStorage.cpp"
#include "Awl/Io/OptionalStorage.cpp"
#include "Awl/Io/PersistentObject.h"
#undef open
#undef close
#undef access
#undef fstat
#undef lseek
#undef read
#undef write
#undef pread
#undef pwrite
#undef ftruncate
#undef fsync
#undef fdatasync

namespace {

using awl::io::AtomicStorage;
using awl::io::OptionalStorage;
using awl::io::IoException;
using awl::io::SequentialInputStream;
using awl::io::SequentialOutputStream;

struct NullLogger : awl::Logger {
    void log(awl::LogLevel, awl::LogString) override { }
};

struct Mutex : awl::IMutex {
    void lock() override { sim::locked = true; }
    void unlock() override { sim::locked = false; }
};

// A setting value: 0..2 bytes behind their number.  It obeys the contract of Serializable: Read gives the value that was
// written or throws and leaves the value as it was.
struct Data {
    unsigned n = 0;
    uint8_t d[2] = {};
    bool operator==(const Data& o) const { return n == o.n && (n < 1 || d[0] == o.d[0]) && (n < 2 || d[1] == o.d[1]); }
};
struct Val : awl::io::Serializable<>, awl::io::Snapshotable<SequentialOutputStream> {
    Data v;
    Val() = default;
    explicit Val(const Data& d) : v(d) { }
    void Read(SequentialInputStream& s) override
    {
        uint8_t b[3];
        if (s.Read(b, 1) != 1 || b[0] > 2 || s.Read(b + 1, b[0]) != b[0])
            throw awl::io::EndOfFileException(3, 0);
        v.n = b[0];
        for (unsigned i = 0; i != v.n; ++i)
            v.d[i] = b[1 + i];
    }
    void Write(SequentialOutputStream& s) const override
    {
        uint8_t n = uint8_t(v.n);
        s.Write(&n, 1);
        if (n)
            s.Write(v.d, n);
    }
    std::vector<uint8_t> MakeShanshot() const override
    {
        vc_assert(sim::locked, "the value is copied under the mutex");
        std::vector<uint8_t> r{uint8_t(v.n)};
        r.insert(r.end(), v.d, v.d + v.n);
        return r;
    }
    void WriteSnapshot(SequentialOutputStream& s, const std::vector<uint8_t>& r) const override { s.Write(r.data(), r.size()); }
};

sim::Image image(const Data& v)
{
    sim::Image r{};
    r.d[r.n++] = uint8_t(v.n);
    for (unsigned i = 0; i != v.n; ++i)
        r.d[r.n++] = v.d[i];
    return r;
}
Data any_data(const char* name)
{
    Data r;
    r.n = unsigned(vc_pick(0, 2, "bytes"));
    for (unsigned i = 0; i != r.n; ++i)
        r.d[i] = vc_val<uint8_t>(name);
    return r;
}

// the state a crash, a failure or a completed operation may have left, for the value `cur` (none: never saved)
struct World {
    bool has = true;
    Data cur;
};
World any_world(int kind)
{
    World w;
    for (auto& f : sim::files) {
        f = sim::File{};
        f.exists = true;
    }
    for (auto& f : sim::fds)
        f.open = false;
    sim::opened = 0;
    sim::armed = sim::failing = sim::locked = sim::accessLocked = false;
    if (kind == 0 || kind == 3)             // never saved, or the first save was interrupted
        w.has = false;
    else
        w.cur = any_data("current");
    if (kind == 0)
        sim::files[0].exists = sim::files[1].exists = vc_pick(0, 1, "exists") != 0;
    else if (kind == 1 || kind == 3) {      // the master file is right, the backup holds the beginning of another value
        if (w.has)
            sim::files[0].h[0] = image(w.cur);
        Data t = any_data("interrupted");
        sim::Image& b = sim::files[1].h[0];
        b = image(t);
        b.n = unsigned(vc_pick(0, b.n - 1, "written"));
    }
    else if (kind == 2) {                   // the backup is complete, the master file may contain anything
        sim::files[1].h[0] = image(w.cur);
        sim::Image& m = sim::files[0].h[0];
        m.n = unsigned(vc_pick(0, 3, "garbage"));
        for (unsigned i = 0; i != m.n; ++i)
            m.d[i] = vc_val<uint8_t>("garbage");
    }
    return w;
}

struct Session {
    NullLogger log;
    AtomicStorage s{log};
    Session() { s.Open(_T("m"), _T("b")); }
};

void check_loads(AtomicStorage& s, const World& a, const World* b, const World* c = nullptr)
{
    Val v;
    bool ok = s.Load(v);
    auto is = [&](const World& w) { return ok == w.has && (!ok || v.v == w.cur); };
    ENSURES_(is(a) || (b && is(*b)) || (c && is(*c)), "loading gives a complete saved value");
    Val again;
    bool ok2 = s.Load(again);
    ENSURES_(ok2 == ok && (!ok || again.v == v.v), "loading again gives the same value");
}
// what the next session loads
void check_disk(const World& a, const World* b, const World* c = nullptr)
{
    sim::reboot();
    Session n;
    check_loads(n.s, a, b, c);
}

constexpr unsigned maxTick = 24, maxSys = 26;

} // namespace

VC_CONTRACT(save_crash, 4, "bounded", "AtomicStorage::Save, AtomicStorage::Load",
            "from every consistent state of the two files: after a load and a save with a crash at any point (between and inside "
            "the file operations, any unsynchronized change lost) the next load gives the old or the new value, and the new one "
            "if the save was completed; bounded: values of 0..2 arbitrary bytes")
{
    World w = any_world(vc_case), nw;
    nw.cur = any_data("new");
    {
        Session s;
        Val v;
        bool ok = s.s.Load(v);
        ENSURES_(ok == w.has && (!ok || v.v == w.cur), "loading gives the value last saved");
        sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
        s.s.Save(Val(nw.cur));
        vc_assert(sim::tick <= maxTick, "sim: crash points");
    }
    if (sim::crashed)
        check_disk(w, &nw);
    else
        check_disk(nw, nullptr);
    vc_cover("checked");
}

VC_CONTRACT(save_mutex, 4, "bounded", "AtomicStorage::Save, AtomicStorage::Load",
            "the same for a save of a snapshot taken under a mutex, which is not held during the file operations")
{
    World w = any_world(vc_case), nw;
    nw.cur = any_data("new");
    {
        Session s;
        Val v;
        s.s.Load(v);
        sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
        Mutex m;
        Val val(nw.cur);
        s.s.Save(val, &m);
        ENSURES_(!sim::locked, "the mutex is released");
        ENSURES_(!sim::accessLocked, "no file operation is done under the mutex");
    }
    if (sim::crashed)
        check_disk(w, &nw);
    else
        check_disk(nw, nullptr);
    vc_cover("checked");
}

VC_CONTRACT(load_crash, 4, "bounded", "AtomicStorage::Load",
            "a crash at any point of a load loses nothing; bounded: values of 0..2 arbitrary bytes")
{
    World w = any_world(vc_case);
    {
        Session s;
        sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
        Val v;
        bool ok = s.s.Load(v);
        ENSURES_(ok == w.has && (!ok || v.v == w.cur), "loading gives the value last saved");
        vc_assert(sim::tick <= maxTick, "sim: crash points");
    }
    check_disk(w, nullptr);
    vc_cover("checked");
}

VC_CONTRACT(save_failure, 4, "bounded", "AtomicStorage::Save, AtomicStorage::Load",
            "a failure of any system call of a save is reported, and the same session and the next one load the old or the new "
            "value; bounded: values of 0..2 arbitrary bytes")
{
    World w = any_world(vc_case), nw;
    nw.cur = any_data("new");
    {
        Session s;
        Val v;
        s.s.Load(v);
        sim::inject(unsigned(vc_pick(0, maxSys, "failure")));
        bool thrown = vc_throws<IoException>([&] { s.s.Save(Val(nw.cur)); });
        ENSURES_(thrown == sim::failed, "a failure of a save is reported, and only a failure");
        if (!sim::failed)
            return;
        sim::failing = false;
        if (vc_pick(0, 1, "load") != 0) {
            sim::arm(99);
            check_loads(s.s, w, &nw);
        }
    }
    sim::crashed = false;
    check_disk(w, &nw);
    vc_cover("checked");
}

VC_CONTRACT(save_retry, 27, "bounded", "AtomicStorage::Save, AtomicStorage::Load",
            "a save that follows a failed one keeps the guarantee: after a crash at any point of it the next load gives one of the "
            "three complete values, and the last one if it was completed; bounded: values of 0 or 1 arbitrary bytes")
{
    World w = any_world(1), nw, nw2;
    REQUIRES(w.cur.n <= 1 && sim::files[1].h[0].n == 0);
    if (vc_pick(0, 1, "byte") != 0)
        nw.cur.n = 1, nw.cur.d[0] = vc_val<uint8_t>("first");
    nw2.cur.n = 1;
    nw2.cur.d[0] = vc_val<uint8_t>("second");
    {
        Session s;
        Val v;
        s.s.Load(v);
        sim::inject(unsigned(vc_case));
        vc_throws<IoException>([&] { s.s.Save(Val(nw.cur)); });
        if (!sim::failed)
            return;
        sim::failing = false;
        sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
        s.s.Save(Val(nw2.cur));
    }
    if (sim::crashed)
        check_disk(w, &nw, &nw2);
    else
        check_disk(nw2, nullptr);
    vc_cover("checked");
}

VC_CONTRACT(load_failure, 4, "bounded", "AtomicStorage::Load, AtomicStorage::Save",
            "a failure to write during a load loses nothing: the next load gives the value, and a save in between keeps the "
            "guarantee; bounded: values of 0..2 arbitrary bytes")
{
    World w = any_world(vc_case), nw;
    nw.cur.n = 1;
    nw.cur.d[0] = vc_val<uint8_t>("new");
    bool saved = false;
    {
        Session s;
        Val v;
        sim::inject(unsigned(vc_pick(0, maxSys, "failure")));
        bool ok = true;
        bool thrown = vc_throws<IoException>([&] { ok = s.s.Load(v); });
        if (!sim::failed)
            return;
        // a failure before the first read cannot be told from an unreadable file: out of this contract
        if (!thrown)
            return;
        sim::failing = false;
        if (vc_pick(0, 1, "save") != 0) {
            sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
            s.s.Save(Val(nw.cur));
            saved = true;
        }
    }
    if (!saved) {
        sim::crashed = false;
        check_disk(w, nullptr);
    }
    else if (sim::crashed)
        check_disk(w, &nw);
    else
        check_disk(nw, nullptr);
    vc_cover("checked");
}

VC_CONTRACT(open_close, 1, "bounded", "AtomicStorage::Open, Close, IsOpened, IsEmpty, move",
            "opening tells whether one of the files existed; a failure closes both; a moved storage keeps its files and state")
{
    World w = any_world(0);
    bool em = vc_pick(0, 1, "master") != 0, eb = vc_pick(0, 1, "backup") != 0;
    sim::files[0].exists = em;
    sim::files[1].exists = eb;
    NullLogger log;
    {
        AtomicStorage s(log);
        ENSURES(!s.IsOpened());
        sim::inject(unsigned(vc_pick(0, 2, "failure")));
        bool r = false;
        bool thrown = vc_throws<IoException>([&] { r = s.Open(_T("m"), _T("b")); });
        ENSURES(thrown == sim::failed && s.IsOpened() == !thrown);
        sim::failing = false;
        if (thrown) {
            ENSURES_(sim::opened == 0, "nothing stays open after a failure");
            return;
        }
        ENSURES(r == (em || eb));
        ENSURES(s.IsEmpty());
        AtomicStorage t(std::move(s));
        ENSURES(t.IsOpened());
        t.Save(Val(Data{1, {5}}));
        AtomicStorage u(log);
        u = std::move(t);
        ENSURES(u.IsOpened() && !u.IsEmpty());
        Val v;
        ENSURES(u.Load(v) && v.v == (Data{1, {5}}));
        u.Close();
        ENSURES(!u.IsOpened() && sim::opened == 0);
    }
    ENSURES_(sim::opened == 0, "every file is closed once");
    vc_cover("checked");
}

VC_CONTRACT(moved_state, 27, "bounded", "AtomicStorage move construction and assignment",
            "a storage that was moved after a failed save keeps the guarantee; bounded: values of one byte")
{
    World w = any_world(1), nw, nw2;
    REQUIRES(w.cur.n == 1 && sim::files[1].h[0].n == 0);
    nw.cur.n = nw2.cur.n = 1;
    nw.cur.d[0] = vc_val<uint8_t>("first");
    nw2.cur.d[0] = vc_val<uint8_t>("second");
    bool assign = vc_pick(0, 1, "assignment") != 0;
    {
        Session s;
        Val v;
        s.s.Load(v);
        sim::inject(unsigned(vc_case));
        vc_throws<IoException>([&] { s.s.Save(Val(nw.cur)); });
        if (!sim::failed)
            return;
        sim::failing = false;
        AtomicStorage t(s.log);
        if (assign)
            t = std::move(s.s);
        AtomicStorage u(std::move(assign ? t : s.s));
        sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
        u.Save(Val(nw2.cur));
    }
    if (sim::crashed)
        check_disk(w, &nw, &nw2);
    else
        check_disk(nw2, nullptr);
    vc_cover("checked");
}

VC_CONTRACT(optional_storage, 2, "bounded", "OptionalStorage::Open, Save, Load",
            "an optional storage keeps the guarantee and reports no failure of a save; bounded: values of one byte")
{
    World w = any_world(vc_case), nw;
    REQUIRES(w.cur.n == (w.has ? 1 : 0) && (!w.has || sim::files[1].h[0].n == 0));
    nw.cur.n = 1;
    nw.cur.d[0] = vc_val<uint8_t>("new");
    NullLogger log;
    {
        OptionalStorage s(log);
        bool exists = sim::files[0].exists;
        ENSURES(s.Open(_T("m"), _T("b")) == exists);
        Val v;
        bool ok = s.Load(v);
        ENSURES_(ok == w.has && (!ok || v.v == w.cur), "loading gives the value last saved");
        bool f = vc_pick(0, 1, "failure or crash") != 0;
        if (f)
            sim::inject(unsigned(vc_pick(0, maxSys, "failure")));
        else
            sim::arm(unsigned(vc_pick(0, maxTick, "crash")));
        sim::crashed = sim::failed = false;
        s.Save(Val(nw.cur));
    }
    bool interrupted = sim::failing ? sim::failed : sim::crashed;
    if (interrupted)
        check_disk(w, &nw);
    else
        check_disk(nw, nullptr);
    {
        OptionalStorage s(log);
        for (auto& f : sim::files)
            f.exists = false;
        sim::inject(unsigned(vc_pick(0, 1, "open failure")));
        ENSURES(!s.Open(_T("m"), _T("b")));
        ENSURES_(!s.IsOpened() && sim::opened == 0, "nothing stays open after a failure");
        s.Save(Val(nw.cur));
    }
    vc_cover("checked");
}

namespace {

struct Settings {
    uint32_t number = 0;
    std::string text;
    std::vector<uint16_t> list;
    AWL_REFLECT(number, text, list)
    bool operator==(const Settings&) const = default;
};

Settings any_settings()
{
    Settings r;
    r.number = vc_val<uint32_t>("number");
    r.text.assign(vc_pick(0, 20, "length"), char('a' + vc_pick(0, 25, "letter")));
    r.list.assign(vc_pick(0, 5, "count"), vc_val<uint16_t>("element"));
    return r;
}

template <class Object> void persistent_history()
{
    any_world(0);
    for (auto& f : sim::files)
        f.exists = false;
    NullLogger log;
    size_t block = size_t(vc_pick(20, 70, "block"));
    struct Known {
        bool has;
        Settings v;
    };
    std::vector<Known> possible{{false, {}}};       // what a load may give
    unsigned sessions = unsigned(vc_pick(1, 4, "sessions"));
    for (unsigned i = 0; i != sessions; ++i) {
        Object o(log, awl::io::Header{"test", 1}, block);
        o.sim_open("m");
        bool ok = o.load();
        size_t k = 0;
        while (k != possible.size() && (possible[k].has != ok || (ok && !(possible[k].v == o.value()))))
            ++k;
        ENSURES_(k != possible.size(), "a load gives a complete saved value");
        if (k == possible.size())
            return;
        possible = {possible[k]};
        ENSURES_(o.load() == ok && (!ok || o.value() == possible[0].v), "loading again gives the same value");
        unsigned saves = unsigned(vc_pick(0, 3, "saves"));
        if (vc_pick(0, 2, "crash") == 0)
            sim::arm(unsigned(vc_pick(0, 500, "crash")));
        sim::crashed = false;
        for (unsigned j = 0; j != saves; ++j) {
            o.value() = any_settings();
            if (vc_pick(0, 2, "failure") == 0)
                sim::inject(unsigned(vc_pick(0, 60, "failure")));
            sim::failed = false;
            bool after = sim::crashed;
            try {
                o.save();
            }
            catch (const IoException&) {
                ENSURES(sim::failed);
            }
            sim::failing = false;
            if (after)
                continue;
            if (!sim::failed && !sim::crashed)
                possible.clear();
            possible.push_back({true, o.value()});
        }
        sim::reboot();
    }
    vc_cover("history");
}

} // namespace

VC_CONTRACT(persistent_object, 1, "enum", "PersistentObject with a hashed, versioned value",
            "random histories of sessions, saves, crashes and failures of the real settings object over the same file system: every "
            "load gives a complete value of the last possible ones")
{
    persistent_history<awl::io::PersistentObject<Settings>>();
}

VC_CONTRACT(optional_object, 1, "enum", "OptionalObject with a hashed, versioned value",
            "the same for the optional object, whose saves fail silently")
{
    persistent_history<awl::io::OptionalObject<Settings>>();
}
