// C19: file-system and hexadecimal helpers, C23: generic containers and serialisers
#include "pbt.hpp"

#include <sys/statvfs.h>

#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/utils/concat_iterator.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <deque>
#include <dirent.h>
#include <grp.h>
#include <iostream>
#include <list>
#include <set>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>

using pbt::Ctx;
namespace ut = sse::utility;

namespace {

constexpr uid_t kNobody = 54321; // no file of the system belongs to this user

// ---------------------------------------------------------------- directories

std::string gen_name(Ctx& c)
{
    static const char* names[] = {"a",    "b",   "c",       ".hidden", "..x",  "...",
                                  "-rf",  "a b", "x\ny",    "*",       "$(x)", "\xc3\xa9",
                                  "name", "A",   "%s%n%d", "\xff\xfe", "a.db", "~"};
    if (c.chance(1, 20)) {
        return std::string(255, 'n');
    }
    return names[c.u(17)];
}

struct Entry
{
    char        type; // d f l p s
    mode_t      mode;
    std::string data; // content or link target
    bool        operator==(const Entry& o) const
    {
        return type == o.type && mode == o.mode && data == o.data;
    }
};
using Snap = std::map<std::string, Entry>;

void snapshot(const std::string& base, const std::string& rel, Snap& out)
{
    std::string p = base + rel;
    struct stat sb;
    if (lstat(p.c_str(), &sb) != 0) {
        return;
    }
    Entry e;
    e.mode = sb.st_mode & 07777;
    e.type = S_ISDIR(sb.st_mode)    ? 'd'
             : S_ISREG(sb.st_mode)  ? 'f'
             : S_ISLNK(sb.st_mode)  ? 'l'
             : S_ISFIFO(sb.st_mode) ? 'p'
                                    : 's';
    if (e.type == 'l') {
        char    b[1024];
        ssize_t n = readlink(p.c_str(), b, sizeof b);
        e.data.assign(b, n < 0 ? 0 : static_cast<size_t>(n));
    } else if (e.type == 'f') {
        std::ifstream     in(p, std::ios::binary);
        std::stringstream ss;
        ss << in.rdbuf();
        e.data = ss.str();
    }
    out[rel] = e;
    if (e.type == 'd') {
        DIR* d = opendir(p.c_str());
        if (d) {
            std::vector<std::string> n;
            while (struct dirent* de = readdir(d)) {
                std::string s = de->d_name;
                if (s != "." && s != "..") {
                    n.push_back(s);
                }
            }
            closedir(d);
            for (auto& s : n) {
                snapshot(base, rel + "/" + s, out);
            }
        }
    }
}
std::string clean(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch >= 32 && ch < 127) {
            o += static_cast<char>(ch);
        } else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            o += b;
        }
    }
    return o.size() > 60 ? o.substr(0, 57) + "..." : o;
}

void put_file(const std::string& p, const std::string& s)
{
    int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) {
        (void)!write(fd, s.data(), s.size());
        close(fd);
    }
}

size_t open_fds()
{
    size_t n = 0;
    DIR*   d = opendir("/proc/self/fd");
    if (d) {
        while (readdir(d)) {
            ++n;
        }
        closedir(d);
    }
    return n;
}

struct TreeGen
{
    Ctx&                     c;
    std::string              root; // the scratch directory
    std::vector<std::string> dirs, all;
    size_t                   links{0}, odd{0}, locked{0};

    void fill(const std::string& where, size_t depth, size_t& budget)
    {
        dirs.push_back(where);
        size_t n = c.edgy(0, depth == 0 ? 6 : 4);
        for (size_t i = 0; i < n && budget > 0; ++i) {
            std::string p = where + "/" + gen_name(c);
            if (p.size() - root.size() > 3000) {
                return;
            }
            --budget;
            struct stat there;
            if (lstat(p.c_str(), &there) == 0) {
                continue;
            }
            switch (c.weighted({6, depth < 6 ? 6u : 0u, 6, 1, 1})) {
            case 0:
                put_file(p, c.bytes(c.edgy(0, 20)));
                all.push_back(p);
                if (c.chance(1, 8)) {
                    chmod(p.c_str(), 0400 | (c.u(7) << 6));
                }
                break;
            case 1:
                if (mkdir(p.c_str(), 0755) == 0) {
                    all.push_back(p);
                    fill(p, depth + 1, budget);
                }
                break;
            case 2: {
                std::string target;
                switch (c.u(7)) {
                case 0: target = root + "/outside"; break;
                case 1: target = root + "/outside/dir"; break;
                case 2: target = root + "/outside/file"; break;
                case 3: target = "nowhere"; break;
                case 4: target = "."; break;
                case 5: target = ".."; break;
                case 6: target = all.empty() ? "x" : all[c.u(all.size() - 1)]; break;
                default: target = p; break;
                }
                if (symlink(target.c_str(), p.c_str()) == 0) {
                    all.push_back(p);
                    ++links;
                }
                break;
            }
            case 3:
                if (mkfifo(p.c_str(), 0600) == 0) {
                    all.push_back(p);
                    ++odd;
                }
                break;
            default:
                if (link((root + "/outside/hard").c_str(), p.c_str()) == 0) {
                    all.push_back(p);
                    ++odd;
                }
            }
        }
    }
};

// runs f as an unprivileged user; messages go through shared memory
template<class F>
void unprivileged(Ctx& c, F f)
{
    struct Sh
    {
        int  failed;
        int  nontrivial;
        uint64_t hash;
        char msg[2000];
        char labels[400];
    };
    auto* sh = static_cast<Sh*>(
        mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sh->failed = 0;
    pid_t p    = fork();
    if (p == 0) {
        if (geteuid() == 0) {
            gid_t g = kNobody;
            if (setgroups(0, nullptr) != 0 || setresgid(g, g, g) != 0
                || setresuid(kNobody, kNobody, kNobody) != 0 || setuid(0) == 0) {
                _exit(77);
            }
        }
        try {
            sh->nontrivial = f(*sh);
            sh->hash       = c.hash_;
        } catch (const pbt::Failure& e) {
            snprintf(sh->msg, sizeof sh->msg, "%s", e.what());
            sh->failed = 1;
        } catch (const std::exception& e) {
            snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
            sh->failed = 1;
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    std::string m  = sh->msg;
    int         fl = sh->failed;
    c.nontrivial(sh->nontrivial);
    c.hash_ = sh->hash;
    std::istringstream ls(sh->labels);
    for (std::string l; std::getline(ls, l);) {
        c.label(l);
    }
    munmap(sh, sizeof(Sh));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        throw pbt::Discard(); // privileges cannot be dropped here: nothing destructive is run
    }
    if (fl) {
        c.fail("%s", m.c_str());
    }
    PBT_ASSERT(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the call ended with status %d", st);
}

void tree_body(Ctx& c)
{
    std::string root = c.dir();
    if (chmod(root.substr(0, root.rfind('/')).c_str(), 0711) != 0) {
        throw std::runtime_error("chmod");
    }
    if (geteuid() == 0 && chown(root.c_str(), kNobody, kNobody) != 0) {
        throw std::runtime_error("chown");
    }
    // the choices are drawn in the child: the engine's buffers are shared memory
    unprivileged(c, [&](auto& sh) {
        umask(022);
        mkdir((root + "/outside").c_str(), 0755);
        mkdir((root + "/outside/dir").c_str(), 0755);
        put_file(root + "/outside/file", "precious");
        put_file(root + "/outside/hard", "hard");
        put_file(root + "/outside/dir/inner", "inner");
        mkdir((root + "/work").c_str(), 0755);
        put_file(root + "/work/sibling", "sibling");
        put_file(root + "/work/tree2", "prefix");
        TreeGen     g{c, root, {}, {}};
        std::string base = root + "/work";
        std::string t    = base + "/tree";
        unsigned    kind = static_cast<unsigned>(c.weighted({10, 1, 1, 1, 1, 1, 1}));
        size_t      budget = 40;
        switch (kind) {
        case 0:
            mkdir(t.c_str(), 0755);
            g.fill(t, 0, budget);
            break;
        case 1: put_file(t, "a file"); break;
        case 2: (void)!symlink((root + "/outside").c_str(), t.c_str()); break;
        case 3: (void)!symlink("/nowhere/at/all", t.c_str()); break;
        case 4: (void)!symlink((root + "/outside/file").c_str(), t.c_str()); break;
        case 5: break; // absent
        default: t = base + "/sibling/below"; break; // below a file
        }
        // some directories cannot be emptied
        if (kind == 0 && c.chance(1, 5) && g.dirs.size() > 0) {
            size_t n = c.in(1, 2);
            for (size_t i = 0; i < n; ++i) {
                chmod(g.dirs[c.u(g.dirs.size() - 1)].c_str(), c.flip() ? 0555 : c.flip() ? 0 : 0666);
                g.locked++;
            }
        }
        Snap before;
        snapshot(root, "", before);
        std::string arg = t;
        if (kind == 0 || kind == 5) {
            switch (c.u(5)) {
            case 1: arg = t + "/"; break;
            case 2: arg = base + "/./tree"; break;
            case 3: arg = base + "/../work/tree"; break;
            default: break;
            }
        }
        char cwd[4096], cwd2[4096];
        bool rel = kind != 6 && arg == t && c.chance(1, 3);
        if (chdir(base.c_str()) != 0) {
            throw std::runtime_error("chdir");
        }
        if (rel) {
            arg = "tree";
        }
        std::string l;
        for (auto& e : before) {
            l += "\n  " + std::string(1, e.second.type) + " " + clean(e.first)
                 + (e.second.type == 'l' ? " -> " + clean(e.second.data) : "");
        }
        c.note("remove_directory(%s) in%s", clean(arg).c_str(), l.c_str());
        size_t fds = open_fds();
        (void)!getcwd(cwd, sizeof cwd);
        bool        ret = false, threw = false;
        std::string what;
        try {
            ret = ut::remove_directory(arg);
        } catch (const std::runtime_error& e) {
            threw = true;
            what  = e.what();
        }
        (void)!getcwd(cwd2, sizeof cwd2);
        struct stat sb;
        bool        gone = lstat(t.c_str(), &sb) != 0;
        Snap        after;
        snapshot(root, "", after);
        PBT_ASSERT(c,
                   gone == (ret && !threw),
                   "remove_directory %s, the tree is %s",
                   threw ? "threw" : ret ? "returned true" : "returned false",
                   gone ? "gone" : "still there");
        PBT_ASSERT(c, g.locked || gone, "remove_directory failed on a removable tree: %s", what.c_str());
        std::string in = t.substr(root.size());
        for (auto& e : before) {
            bool inside = e.first == in || e.first.compare(0, in.size() + 1, in + "/") == 0;
            if (!inside) {
                auto it = after.find(e.first);
                PBT_ASSERT(c,
                           it != after.end(),
                           "%s was removed, it is outside of the tree",
                           clean(e.first).c_str());
                PBT_ASSERT(c, it->second == e.second, "%s was changed", clean(e.first).c_str());
            }
        }
        for (auto& e : after) {
            PBT_ASSERT(c, before.count(e.first), "%s appeared", clean(e.first).c_str());
        }
        PBT_ASSERT(c, open_fds() == fds, "remove_directory leaks file descriptors");
        PBT_ASSERT(c, strcmp(cwd, cwd2) == 0, "the working directory changed");
        snprintf(sh.labels,
                 sizeof sh.labels,
                 "kind %u\n%s\n",
                 kind,
                 g.locked ? threw ? "locked, threw" : "locked, removed" : "not locked");
        return g.all.size() >= 3 && g.links + g.odd + g.locked > 0;
    });
}

// path predicates, creation and removal of single entries
void entries_body(Ctx& c)
{
    std::string root = c.dir();
    chmod(root.substr(0, root.rfind('/')).c_str(), 0711);
    if (geteuid() == 0 && chown(root.c_str(), kNobody, kNobody) != 0) {
        throw std::runtime_error("chown");
    }
    unprivileged(c, [&](auto& sh) {
        umask(0);
        mkdir((root + "/outside").c_str(), 0755);
        put_file(root + "/outside/file", "precious");
        put_file(root + "/outside/hard", "hard");
        mkdir((root + "/outside/dir").c_str(), 0755);
        mkdir((root + "/t").c_str(), 0755);
        TreeGen g{c, root, {}, {}};
        size_t  budget = 15;
        g.fill(root + "/t", 0, budget);
        std::vector<std::string> paths = g.all;
        paths.push_back(root + "/t");
        paths.push_back(root + "/outside/file");
        mode_t um    = static_cast<mode_t>(c.chance(1, 2) ? 022 : c.u(0777));
        size_t steps = c.in(1, 12), created = 0, removed = 0;
        for (size_t s = 0; s < steps; ++s) {
            std::string p = paths[c.u(paths.size() - 1)];
            switch (c.u(4)) {
            case 0: break;
            case 1: p += "/" + gen_name(c); break;
            case 2: p += "/"; break;
            case 3: p += "x"; break;
            default: p = p.substr(0, p.rfind('/')); break;
            }
            if (c.chance(1, 40)) {
                p = "";
            }
            struct stat sb, lb;
            bool        there = stat(p.c_str(), &sb) == 0, lthere = lstat(p.c_str(), &lb) == 0;
            Snap        before;
            snapshot(root, "", before);
            std::string touched = p;
            while (!touched.empty() && touched.back() == '/') {
                touched.pop_back();
            }
            bool expect_change = false;
            switch (c.weighted({3, 3, 2, 2})) {
            case 0:
                c.note("tests of %s", clean(p).c_str());
                PBT_ASSERT(c, ut::exists(p) == there, "exists(%s) is %d", clean(p).c_str(), !there);
                PBT_ASSERT(c,
                           ut::is_file(p) == (there && S_ISREG(sb.st_mode)),
                           "is_file(%s) is wrong",
                           clean(p).c_str());
                PBT_ASSERT(c,
                           ut::is_directory(p) == (there && S_ISDIR(sb.st_mode)),
                           "is_directory(%s) is wrong",
                           clean(p).c_str());
                PBT_ASSERT(c,
                           (ut::device_page_size(p) != 0) == there,
                           "device_page_size(%s) is %zu",
                           clean(p).c_str(),
                           ut::device_page_size(p));
                break;
            case 1: {
                mode_t mode = static_cast<mode_t>(0700 | c.u(077));
                c.note("create_directory(%s, %o), umask %o", clean(p).c_str(), mode, um);
                umask(um);
                bool r = ut::create_directory(p, mode);
                umask(0);
                struct stat nb;
                bool        now = lstat(p.c_str(), &nb) == 0;
                PBT_ASSERT(c,
                           r == (!lthere && now && S_ISDIR(nb.st_mode)),
                           "create_directory returned %d, the directory was %s and %s",
                           r,
                           lthere ? "there" : "not there",
                           now ? "is there" : "is not");
                if (r) {
                    PBT_ASSERT(c,
                               (nb.st_mode & 0777) == (mode & ~um),
                               "the mode of the directory is %o instead of %o",
                               nb.st_mode & 0777,
                               mode & ~um);
                    chmod(p.c_str(), 0755);
                    ++created;
                    expect_change = true;
                    paths.push_back(p);
                } else {
                    // it must have been impossible
                    umask(um);
                    bool possible = mkdir(p.c_str(), mode) == 0;
                    umask(0);
                    if (possible) {
                        c.fail("create_directory failed, mkdir does not");
                    }
                }
                break;
            }
            case 2: {
                c.note("remove_file(%s)", clean(p).c_str());
                bool r   = ut::remove_file(p);
                bool can = lthere && !S_ISDIR(lb.st_mode) && p.back() != '/';
                bool now = lstat(p.c_str(), &lb) == 0;
                PBT_ASSERT(c, r == (lthere && !now), "remove_file returned %d", r);
                PBT_ASSERT(c, !can || r, "remove_file failed on a removable file");
                PBT_ASSERT(c, can || !r, "remove_file removed something else than a file");
                removed += r;
                expect_change = r;
                break;
            }
            default: {
                bool direct = c.chance(1, 4);
                if (there && !S_ISREG(sb.st_mode) && !S_ISDIR(sb.st_mode)) {
                    break; // opening a fifo may block
                }
                c.note("open_fd(%s, %d)", clean(p).c_str(), direct);
                umask(um);
                int  fd    = -1;
                bool threw = false;
                try {
                    fd = ut::open_fd(p, direct);
                } catch (const std::runtime_error&) {
                    threw = true;
                }
                umask(0);
                int flags = O_CREAT | O_RDWR | (direct ? O_DIRECT : 0);
                if (threw) {
                    int f2 = open(p.c_str(), flags, 0644);
                    PBT_ASSERT(c, f2 < 0, "open_fd refused a file that can be opened");
                    break;
                }
                struct stat fb;
                PBT_ASSERT(c, fstat(fd, &fb) == 0 && S_ISREG(fb.st_mode), "open_fd gave no file");
                PBT_ASSERT(c,
                           ut::file_size(fd) == (there ? sb.st_size : 0),
                           "the file has %zd bytes, it had %zd",
                           ut::file_size(fd),
                           there ? static_cast<ssize_t>(sb.st_size) : 0);
                PBT_ASSERT(c,
                           there || (fb.st_mode & 0777) == (0644 & ~um),
                           "the new file has mode %o",
                           fb.st_mode & 0777);
                int fl = fcntl(fd, F_GETFL);
                PBT_ASSERT(c,
                           (fl & O_ACCMODE) == O_RDWR && ((fl & O_DIRECT) != 0) == direct,
                           "the file is open with flags %o",
                           fl);
                struct statvfs vs;
                PBT_ASSERT(c, fstatvfs(fd, &vs) != 0 || ut::device_page_size(fd) == vs.f_bsize,
                           "the page size of an open file is %zu instead of %lu", ut::device_page_size(fd), vs.f_bsize);
                PBT_ASSERT(c, statvfs(p.c_str(), &vs) != 0 || ut::device_page_size(p) == vs.f_bsize,
                           "the page size of a file is %zu instead of %lu", ut::device_page_size(p), vs.f_bsize);
                close(fd);
                expect_change = !there;
                if (!there) {
                    // possibly through a dangling link: anything new is accepted below
                    continue;
                }
            }
            }
            Snap after;
            snapshot(root, "", after);
            std::string in = touched.size() >= root.size() ? touched.substr(root.size()) : "?";
            if (!expect_change) {
                PBT_ASSERT(c, before == after, "the tree changed");
            } else {
                size_t nb = before.size(), na = after.size();
                PBT_ASSERT(c, nb + 1 == na || na + 1 == nb, "%zu entries became %zu", nb, na);
            }
        }
        bool threw = false;
        try {
            ut::file_size(987654);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        PBT_ASSERT(c, threw, "file_size of a closed descriptor");
        (void)sh;
        return steps >= 3 && created + removed >= 1;
    });
}

// ----------------------------------------------------------- formatting, masks

std::string ref_hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string        o;
    for (unsigned char ch : s) {
        o += d[ch >> 4];
        o += d[ch & 15];
    }
    return o;
}
template<class T>
std::string ref_int(T v)
{
    std::string b;
    for (size_t i = sizeof(T); i-- > 0;) {
        b += static_cast<char>(static_cast<uint64_t>(v) >> (8 * i));
    }
    return ref_hex(b);
}
template<class T, size_t N>
void array_check(Ctx& c, const char* what)
{
    std::array<T, N> a;
    std::string      want;
    for (auto& x : a) {
        x = static_cast<T>(c.edgy(0, UINT64_MAX));
        want += ref_int(x);
    }
    std::string got = ut::hex_string(a);
    c.note("hex_string(array of %zu %s)", N, what);
    PBT_ASSERT(c, got == want, "hex_string gives %s instead of %s", got.c_str(), want.c_str());
}
void format_body(Ctx& c)
{
    std::string s = c.bytes(c.edgy(0, c.chance(1, 10) ? 1000 : 40));
    if (c.flip()) {
        for (auto& ch : s) {
            ch = static_cast<char>(c.edgy(0, 255));
        }
    }
    c.note("%zu bytes", s.size());
    PBT_ASSERT(c, ut::hex_string(s) == ref_hex(s), "hex_string gives %s instead of %s",
               ut::hex_string(s).c_str(), ref_hex(s).c_str());
    std::ostringstream o;
    o << "<";
    std::ostream& back = ut::print_hex(o, s);
    PBT_ASSERT(c, &back == &o, "print_hex returns another stream");
    o << ">";
    PBT_ASSERT(c, o.str() == "<" + ref_hex(s) + ">", "print_hex gives %s", o.str().c_str());
    std::array<uint8_t, 16> a;
    for (auto& x : a) {
        x = static_cast<uint8_t>(c.edgy(0, 255));
    }
    std::ostringstream o2;
    ut::print_hex(o2, a);
    std::string as(a.begin(), a.end());
    PBT_ASSERT(c, o2.str() == ref_hex(as), "print_hex(array) gives %s", o2.str().c_str());
    PBT_ASSERT(c, ut::hex_string(a) == ref_hex(as), "hex_string(array) gives %s", ut::hex_string(a).c_str());
    uint64_t v = c.edgy(0, UINT64_MAX);
    uint32_t w = static_cast<uint32_t>(c.edgy(0, UINT32_MAX));
    PBT_ASSERT(c, ut::hex_string(v) == ref_int(v), "hex_string(uint64) gives %s", ut::hex_string(v).c_str());
    PBT_ASSERT(c, ut::hex_string(w) == ref_int(w), "hex_string(uint32) gives %s", ut::hex_string(w).c_str());
    switch (c.u(6)) {
    case 0: array_check<uint16_t, 3>(c, "uint16"); break;
    case 1: array_check<uint32_t, 2>(c, "uint32"); break;
    case 2: array_check<uint64_t, 4>(c, "uint64"); break;
    case 3: array_check<char, 5>(c, "char"); break;
    case 4: array_check<int32_t, 2>(c, "int32"); break;
    case 5: array_check<int8_t, 9>(c, "int8"); break;
    default: array_check<uint8_t, 1>(c, "uint8"); break;
    }
    // masks: the first eight bytes of the mask, most significant first
    std::array<uint8_t, 12> m;
    for (auto& x : m) {
        x = static_cast<uint8_t>(c.edgy(0, 255));
    }
    uint64_t mv = 0;
    for (size_t i = 0; i < 8; ++i) {
        mv = mv << 8 | m[i];
    }
    PBT_ASSERT(c, ut::xor_mask(v, m) == (v ^ mv), "xor_mask(%" PRIx64 ") is wrong", v);
    PBT_ASSERT(c, ut::xor_mask(ut::xor_mask(v, m), m) == v, "xor_mask is not an involution");
    size_t al = 1UL << c.u(40);
    PBT_ASSERT(c, ut::is_aligned(v, al) == (v % al == 0), "is_aligned(%" PRIu64 ", %zu) is wrong", v, al);
    PBT_ASSERT(c,
               ut::is_aligned(reinterpret_cast<void*>(v), al) == (v % al == 0),
               "is_aligned(pointer) is wrong");
    PBT_ASSERT(c, ut::os_page_size() == static_cast<size_t>(sysconf(_SC_PAGESIZE)), "os_page_size is wrong");
    c.nontrivial(s.size() >= 2);
}

// ---------------------------------------------------------------- containers

template<class C>
C make_container(Ctx& c, size_t n)
{
    C x;
    for (size_t i = 0; i < n; ++i) {
        x.insert(x.end(), static_cast<int>(c.edgy(0, 1000)));
    }
    return x;
}
template<class It, class C, class ConstructBegin>
void walk(Ctx& c, C& a, C& b, ConstructBegin mk, It end, const char* name)
{
    std::vector<int> want(a.begin(), a.end());
    want.insert(want.end(), b.begin(), b.end());
    std::vector<int> got;
    It               it  = mk();
    bool             pre = c.flip();
    std::vector<It>  seen;
    while (it != end) {
        PBT_ASSERT(c, got.size() < want.size(), "%s: the iteration goes past the end", name);
        PBT_ASSERT(c, !(it == end), "%s: == and != disagree", name);
        seen.push_back(it);
        got.push_back(*it);
        if (pre) {
            It& r = ++it;
            PBT_ASSERT(c, &r == &it, "%s: ++it is another iterator", name);
        } else {
            It o = it++;
            PBT_ASSERT(c, o == seen.back() && *o == got.back(), "%s: it++ has moved", name);
        }
    }
    PBT_ASSERT(c, it == end && !(it != end), "%s: == and != disagree at the end", name);
    PBT_ASSERT(c,
               got == want,
               "%s: %zu + %zu elements, %zu visited (or in another order)",
               name,
               a.size(),
               b.size(),
               got.size());
    for (size_t i = 0; i < seen.size(); ++i) {
        for (size_t j = 0; j < seen.size(); ++j) {
            PBT_ASSERT(c, (seen[i] == seen[j]) == (i == j), "%s: positions %zu and %zu compare wrong", name, i, j);
        }
    }
}
template<class C>
void concat(Ctx& c, const char* name)
{
    size_t n = c.edgy(0, 6), m = c.edgy(0, 6);
    C      a = make_container<C>(c, n);
    C      b = make_container<C>(c, m);
    c.note("%s: %zu and %zu elements", name, a.size(), b.size());
    using It  = ut::concat_iterator<C>;
    using CIt = ut::concat_const_iterator<C>;
    const C& ca = a;
    const C& cb = b;
    walk<CIt>(c, ca, cb, [&] { return CIt(ca, cb); }, CIt(ca, cb, cb.end(), true), name);
    if constexpr (!std::is_same<C, std::set<int>>::value) {
        walk<It>(c, a, b, [&] { return It(a, b); }, It(a, b, b.end(), true), name);
        // writing through the iterator
        std::vector<int> want;
        int              k = 5000;
        for (It it(a, b), e(a, b, b.end(), true); it != e; ++it) {
            *it = ++k;
        }
        k = 5000;
        for (int x : a) {
            PBT_ASSERT(c, x == ++k, "%s: a write through the iterator went elsewhere", name);
        }
        for (int x : b) {
            PBT_ASSERT(c, x == ++k, "%s: a write through the iterator went elsewhere", name);
        }
        // starting in the middle
        if (!a.empty()) {
            It               it(a, b, std::prev(a.end()), false), e(a, b, b.end(), true);
            size_t           left = 0;
            for (; it != e; ++it) {
                ++left;
            }
            PBT_ASSERT(c, left == b.size() + 1, "%s: %zu elements from the last one of the first container", name, left);
        }
        It  it2(a, b, b.begin(), true), e2(a, b, b.end(), true);
        size_t left = 0;
        for (; it2 != e2; ++it2) {
            ++left;
        }
        PBT_ASSERT(c, left == b.size(), "%s: %zu elements from the second container", name, left);
    }
    c.nontrivial(a.size() + b.size() >= 1);
    c.label(a.empty() ? b.empty() ? "both empty" : "first empty" : b.empty() ? "second empty" : "none empty");
}
void concat_body(Ctx& c)
{
    switch (c.u(3)) {
    case 0: concat<std::vector<int>>(c, "vector"); break;
    case 1: concat<std::list<int>>(c, "list"); break;
    case 2: concat<std::deque<int>>(c, "deque"); break;
    default: concat<std::set<int>>(c, "set"); break;
    }
}

struct KV
{
    std::string k;
    uint64_t    v;
    const std::string& get_key() const { return k; }
    uint64_t           get_value() const { return v; }
};
struct Ser
{
    uint8_t tag{0x42};
    void    serialize_key_value(std::ostream& o, const std::string& k, const uint64_t& v)
    {
        uint16_t n = static_cast<uint16_t>(k.size());
        o.put(static_cast<char>(tag));
        o.write(reinterpret_cast<char*>(&n), 2);
        o.write(k.data(), n);
        o.write(reinterpret_cast<const char*>(&v), 8);
    }
    std::pair<std::string, uint64_t> deserialize_key_value(std::istream& i)
    {
        int t = i.get();
        if (t != tag) {
            throw std::runtime_error("wrong tag");
        }
        uint16_t n = 0;
        i.read(reinterpret_cast<char*>(&n), 2);
        std::string k(n, 0);
        i.read(&k[0], n);
        uint64_t v = 0;
        i.read(reinterpret_cast<char*>(&v), 8);
        if (!i) {
            throw std::runtime_error("truncated");
        }
        return {k, v};
    }
};
void kvser_body(Ctx& c)
{
    using KS = sse::abstractio::KVSerializer<std::string, uint64_t, Ser>;
    std::vector<std::pair<std::string, uint64_t>> all;
    std::ostringstream                            out;
    KS                                            ks(out);
    Ser                                           ser;
    bool                                          custom = c.flip();
    ser.tag = custom ? static_cast<uint8_t>(c.edgy(0, 255)) : 0x42;
    size_t n = c.in(0, 10), overlaps = 0;
    std::set<std::string> keys;
    for (size_t i = 0; i < n; ++i) {
        std::string k = c.chance(1, 4) && !all.empty() ? all[c.u(all.size() - 1)].first
                                                       : c.bytes(c.edgy(0, 12));
        uint64_t    v = c.edgy(0, UINT64_MAX);
        overlaps += !keys.insert(k).second;
        switch (c.u(4)) {
        case 0: custom ? ks.serialize(k, v, ser) : ks.serialize(k, v); all.push_back({k, v}); break;
        case 1: {
            KV x{k, v};
            custom ? ks.serialize(x, ser) : ks.serialize(x);
            all.push_back({k, v});
            break;
        }
        case 2: {
            std::pair<std::string, uint64_t> x(k, v);
            custom ? ks.serialize(x, ser) : ks.serialize(x);
            all.push_back({k, v});
            break;
        }
        case 3: {
            std::map<std::string, uint64_t> x;
            x[k]       = v;
            x[k + "z"] = v + 1;
            custom ? ks.serialize_iterable(x, ser) : ks.serialize_iterable(x);
            all.insert(all.end(), x.begin(), x.end());
            break;
        }
        default: {
            std::vector<KV> x{{k, v}, {k, v + 1}};
            if (c.flip()) {
                x.clear();
            }
            custom ? ks.serialize_iterable(x, ser) : ks.serialize_iterable(x);
            for (auto& e : x) {
                all.push_back({e.k, e.v});
            }
        }
        }
    }
    c.note("%zu pairs, tag %u", all.size(), ser.tag);
    std::string bytes = out.str();
    std::vector<std::pair<std::string, uint64_t>> got;
    {
        std::istringstream in(bytes);
        sse::abstractio::deserialize<std::string, uint64_t, Ser>(
            in, [&](std::string k, uint64_t v) { got.push_back({k, v}); }, ser);
        PBT_ASSERT(c, got == all, "%zu pairs were written, %zu read (or they differ)", all.size(), got.size());
    }
    std::map<std::string, uint64_t> want;
    for (auto& e : all) {
        want[e.first] = e.second;
    }
    std::istringstream in2(bytes);
    auto               m = custom ? sse::abstractio::deserialize_map<std::string, uint64_t, Ser>(in2, ser)
                                  : sse::abstractio::deserialize_map<std::string, uint64_t, Ser>(in2);
    PBT_ASSERT(c, m == want, "the map has %zu entries, %zu expected (or they differ)", m.size(), want.size());
    c.nontrivial(all.size() >= 2);
    c.label(overlaps ? "repeated keys" : "distinct keys");
}

} // namespace

int main(int argc, char** argv)
{
    std::cerr.rdbuf(nullptr);
    std::cout.rdbuf(nullptr);
    std::vector<pbt::Check> ck;
    auto add = [&](const char* p, const char* n, const char* rule, std::function<void(Ctx&)> f, size_t q,
                   size_t t, bool dir) {
        pbt::Check k;
        k.property       = p;
        k.name           = n;
        k.rule           = rule;
        k.body           = f;
        k.quick_cases    = q;
        k.thorough_cases = t;
        k.needs_dir      = dir;
        k.case_timeout_s = 60;
        ck.push_back(k);
    };
    add("C19", "remove_tree",
        "random trees (nested, special names, links inside/outside/dangling/cyclic, fifos, hard links, "
        "unremovable directories) removed by an unprivileged user; non-trivial: >=3 entries, one of them odd",
        tree_body, 12000, 300000, true);
    add("C19", "entries",
        "path tests, creations, removals and openings around random trees; non-trivial: >=3 calls, one "
        "creating or removing",
        entries_body, 8000, 200000, true);
    add("C19", "format", "random byte strings, integers, arrays and masks; non-trivial: >=2 bytes", format_body,
        200000, 5000000, false);
    add("C23", "concat", "pairs of vectors, lists, deques and sets; non-trivial: not both empty", concat_body,
        200000, 5000000, false);
    add("C23", "kv_serializer",
        "random sequences of pairs through every overload; non-trivial: >=2 pairs", kvser_body, 200000,
        5000000, false);
    return pbt::Engine(argc, argv, ck).run();
}
