// Shared by the falsifiers: deterministic randomness, the "current case" file
// (so that a crash leaves its input behind), allocation accounting and
// injection, and failure reporting.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <utility>
#include <vector>
#include <algorithm>
#include <memory>

namespace H
{
    inline uint64_t rs = 88172645463325252ull;
    inline uint64_t rnd()
    {
        rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
        return rs * 0x2545F4914F6CDD1Dull >> 11;
    }
    inline uint32_t rnd(uint32_t n) { return n ? uint32_t(rnd() % n) : 0; }
    inline bool chance(uint32_t num, uint32_t den) { return rnd(den) < num; }

    inline char* cur = nullptr;
    inline const size_t curMax = 1 << 20;
    inline const char* outDir = ".";
    inline uint64_t evaluations = 0, nontrivial = 0;
    inline double deadline = 0;
    inline double now()
    {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    inline bool more() { return now() < deadline; }

    inline void setCase(const std::string& s)
    {
        size_t n = std::min(s.size(), curMax - 16);
        std::memcpy(cur + 8, s.data(), n);
        *(uint64_t*)cur = n;
    }
    inline std::string getCase() { return std::string(cur + 8, *(uint64_t*)cur); }
    [[noreturn]] inline void fail(const std::string& what)
    {
        printf("FAIL\t%s\n", what.c_str());
        fflush(stdout);
        _exit(1);
    }
    inline std::string quote(const std::string& s)
    {
        std::string r = "\"";
        char b[8];
        for (unsigned char c : s)
            if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
            else { snprintf(b, 8, "\\x%02x", c); r += b; }
        return r + "\"";
    }

    // allocation accounting
    inline long live = 0, liveArr = 0, total = 0;
    inline long failAt = -1;      // fail the failAt-th allocation from now (0 = next)
    inline bool failed = false, track = false;
    inline void* get(size_t n, bool arr, bool nothrow)
    {
        if (track)
        {
            total++;
            if (failAt == 0)
            {
                failAt = -1; failed = true;
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
            if (failAt > 0) failAt--;
        }
        size_t* p = (size_t*)malloc(n + 16);
        p[0] = track ? (arr ? 0xA55A0002 : 0xA55A0001) : (arr ? 0xA55A0004 : 0xA55A0003);
        if (track) (arr ? liveArr : live)++;
        return p + 2;
    }
    inline void put(void* v, bool arr)
    {
        if (!v) return;
        size_t* p = (size_t*)v - 2;
        size_t t = p[0];
        if (t == 0xA55A0001) { live--; if (arr) fail("released with delete[] what came from new"); }
        else if (t == 0xA55A0002) { liveArr--; if (!arr) fail("released with delete what came from new[]"); }
        else if (t == 0xA55A0003 || t == 0xA55A0004) {}
        else fail("released a block that is not live");
        p[0] = 0xDEADull;
        free(p);
    }
}
void* operator new(size_t n) { return H::get(n, false, false); }
void* operator new[](size_t n) { return H::get(n, true, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return H::get(n, false, true); }
void operator delete(void* p) noexcept { H::put(p, false); }
void operator delete(void* p, size_t) noexcept { H::put(p, false); }
void operator delete[](void* p) noexcept { H::put(p, true); }
void operator delete[](void* p, size_t) noexcept { H::put(p, true); }

namespace H
{
    struct Track
    {
        long l, a;
        bool old;
        Track() : l(live), a(liveArr), old(track) { track = true; failed = false; }
        ~Track() { track = old; failAt = -1; }
        bool balanced() const { return live == l && liveArr == a; }
    };
    struct NoTrack
    {
        bool old; long f;
        NoTrack() : old(track), f(failAt) { track = false; }
        ~NoTrack() { track = old; }
    };

    inline void init(int argc, char** argv, double& budget, std::string& mode, std::string& replay)
    {
        // prog mode seed budget outdir [replayfile]
        mode = argv[1];
        uint64_t seed = strtoull(argv[2], nullptr, 10);
        rs ^= (seed + 1) * 0x9E3779B97F4A7C15ull;
        for (int i = 0; i < 20; i++) rnd();
        budget = atof(argv[3]);
        outDir = argv[4];
        if (argc > 5) replay = argv[5];
        std::string f = std::string(outDir) + "/current." + mode;
        int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, curMax)) {}
        cur = (char*)mmap(nullptr, curMax, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        deadline = now() + budget;
    }
    inline int done()
    {
        printf("DONE\t%llu\t%llu\n", (unsigned long long)evaluations, (unsigned long long)nontrivial);
        fflush(stdout);
        return 0;
    }
    inline std::string slurp(const std::string& f)
    {
        std::string r; char b[65536]; size_t n;
        FILE* h = fopen(f.c_str(), "rb");
        if (!h) return r;
        while ((n = fread(b, 1, sizeof b, h)) > 0) r.append(b, n);
        fclose(h);
        return r;
    }
}
