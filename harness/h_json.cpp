// Falsifier for the JSON properties: drives the real library with generated
// inputs and compares with the independent reference in oracle.h.
#include "oracle.h"
#include "C4Json.h"
#include "TSText.h"
#include <sys/types.h>
#include <errno.h>
using namespace C4::Json;
using O::J;
using O::JP;
typedef Terathon::Array<Value*> VA;

// ------------------------------------------------------------------ syscall stand-ins (C10)
namespace S
{
    bool on = false;
    std::string data;            // what the file holds / what was written
    size_t pos = 0;
    long statSize = -1;
    int mode = 0;
    size_t eofAt = (size_t)-1;   // read: end of file earlier than fstat said
    long errAt = -1;             // error once this many bytes were transferred
    bool zeroWrite = false, openFails = false, statFails = false;
    int opens = 0, closes = 0;
    std::set<int> openFds;
    bool fdBad = false;
    long calls = 0;
    const int FD = 1000;
    bool trunc = false;
}
extern "C" {
int __real_open(const char*, int, ...);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __real_fstat(int, struct stat*);
int __wrap_open(const char* f, int fl, int m)
{
    if (!S::on) return __real_open(f, fl, m);
    if (S::openFails) { errno = EACCES; return -1; }
    H::NoTrack nt;
    S::opens++;
    int fd = S::FD + S::opens;
    S::openFds.insert(fd);
    S::trunc = fl & O_TRUNC;
    if ((fl & O_ACCMODE) != O_RDONLY && (fl & O_TRUNC)) S::data.clear();
    S::pos = 0;
    return fd;
}
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    if (!S::on || fd < S::FD) return __real_read(fd, b, n);
    if (!S::openFds.count(fd)) { S::fdBad = true; errno = EBADF; return -1; }
    if (++S::calls > 4000000) H::fail("endless read loop");
    size_t lim = std::min(S::eofAt, S::data.size());
    if (S::errAt >= 0 && (long)S::pos >= S::errAt) { errno = EIO; return -1; }
    size_t k = S::pos < lim ? lim - S::pos : 0;
    k = std::min(k, n);
    if (S::mode == 1) k = std::min<size_t>(k, 1);
    else if (S::mode == 2 && k) k = 1 + H::rnd(k);
    else if (S::mode == 3 && k) k = std::min<size_t>(k, 7);
    if (S::errAt >= 0 && S::pos + k > (size_t)S::errAt) k = S::errAt - S::pos;
    memcpy(b, S::data.data() + S::pos, k);
    S::pos += k;
    return k;
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
    if (!S::on || fd < S::FD) return __real_write(fd, b, n);
    if (!S::openFds.count(fd)) { S::fdBad = true; errno = EBADF; return -1; }
    if (++S::calls > 4000000) H::fail("endless write loop");
    if (S::errAt >= 0 && (long)S::pos >= S::errAt)
    {
        if (S::zeroWrite) return 0;
        errno = ENOSPC;
        return -1;
    }
    size_t k = n;
    if (S::mode == 1) k = std::min<size_t>(k, 1);
    else if (S::mode == 2 && k) k = 1 + H::rnd(k);
    else if (S::mode == 3) k = std::min<size_t>(k, 7);
    if (S::errAt >= 0 && S::pos + k > (size_t)S::errAt) k = S::errAt - S::pos;
    {
        H::NoTrack nt;
        if (S::data.size() < S::pos + k) S::data.resize(S::pos + k);
        memcpy(&S::data[0] + S::pos, b, k);
    }
    S::pos += k;
    return k;
}
int __wrap_close(int fd)
{
    if (!S::on || fd < S::FD) return __real_close(fd);
    H::NoTrack nt;
    S::closes++;
    if (!S::openFds.erase(fd)) S::fdBad = true;
    return 0;
}
int __wrap_fstat(int fd, struct stat* st)
{
    if (!S::on || fd < S::FD) return __real_fstat(fd, st);
    if (!S::openFds.count(fd)) { S::fdBad = true; return -1; }
    if (S::statFails) return -1;
    memset(st, 0, sizeof *st);
    st->st_size = S::statSize >= 0 ? S::statSize : (long)S::data.size();
    return 0;
}
}
static void sysReset()
{
    S::on = true; S::pos = 0; S::statSize = -1; S::mode = 0; S::eofAt = (size_t)-1; S::errAt = -1; S::zeroWrite = false;
    S::openFails = S::statFails = false; S::opens = S::closes = 0; S::openFds.clear(); S::fdBad = false; S::calls = 0;
}
static void sysCheck(const char* what)
{
    if (S::fdBad) H::fail(std::string(what) + ": a descriptor is used after close or closed twice");
    if (!S::openFds.empty()) H::fail(std::string(what) + ": a descriptor stays open");
    if (S::opens != S::closes) H::fail(std::string(what) + ": opens and closes differ");
}

// ------------------------------------------------------------------ helpers
static Terathon::Array<char> buffer(const std::string& s, bool nul = true)
{
    Terathon::Array<char> a(int(s.size() + (nul ? 1 : 0)));
    for (char c : s) a.AppendArrayElement(c);
    if (nul) a.AppendArrayElement(char(0));
    return a;
}
static std::string sv(const Terathon::String<>* s)
{
    if (s->GetStringLength() != (int)strlen((const char*)*s)) H::fail("string length differs from its NUL-terminated contents");
    return std::string((const char*)*s, s->GetStringLength());
}
static bool sameD(double a, double b) { return memcmp(&a, &b, 8) == 0; }

static std::string cmp(const Value* v, const J& j, bool lookups)
{
    const Terathon::String<>* s = v->GetDataAsPointerTo<Terathon::String<>>();
    const double* d = v->GetDataAsPointerTo<double>();
    const bool* b = v->GetDataAsPointerTo<bool>();
    const Null* n = v->GetDataAsPointerTo<Null>();
    const VA* a = v->GetDataAsPointerTo<VA>();
    const ObjectValue* o = v->AsJsonObjectValue();
    Value* w = const_cast<Value*>(v);
    if (w->GetDataAsPointerTo<Terathon::String<>>() != s || w->GetDataAsPointerTo<double>() != d || w->GetDataAsPointerTo<bool>() != b || w->GetDataAsPointerTo<Null>() != n || w->GetDataAsPointerTo<VA>() != a || w->AsJsonObjectValue() != o)
        return "const and non-const kind queries disagree";
    int kinds = !!s + !!d + !!b + !!n + !!a + !!o;
    if (kinds != 1) return "value answers " + std::to_string(kinds) + " kind queries";
    switch (j.k)
    {
        case J::Str: if (!s) return "kind: expected string"; if (sv(s) != j.s) return "string contents: got " + H::quote(sv(s)) + " expected " + H::quote(j.s); break;
        case J::Num: if (!d) return "kind: expected number"; if (!sameD(*d, j.d)) { char t[80]; snprintf(t, 80, "number: got %.17g expected %.17g", *d, j.d); return t; } break;
        case J::Bool: if (!b) return "kind: expected bool"; if (*b != j.b) return "bool value"; break;
        case J::Null: if (!n) return "kind: expected null"; break;
        case J::Arr:
            if (!a) return "kind: expected array";
            if ((size_t)a->GetArrayElementCount() != j.a.size()) return "array element count";
            for (size_t i = 0; i < j.a.size(); i++) { std::string e = cmp((*a)[int(i)], *j.a[i], lookups); if (!e.empty()) return "[" + std::to_string(i) + "]: " + e; }
            break;
        case J::Obj:
        {
            if (!o) return "kind: expected object";
            size_t cnt = 0;
            std::string prev;
            for (Value* e : *o)
            {
                std::string nm = sv(&e->name);
                if (cnt && !(prev < nm)) return "members out of order";
                prev = nm;
                if (!j.find(nm)) return "unexpected member " + H::quote(nm);
                cnt++;
                if (cnt > j.o.size()) return "too many members";
            }
            if (cnt != j.o.size() || (size_t)o->GetMapElementCount() != j.o.size()) return "member count";
            for (auto& m : j.o)
            {
                const Value* e = o->FindMapElement(Terathon::String<>(m.first.c_str()));
                if (!e) return "member " + H::quote(m.first) + " not found";
                if (sv(&e->name) != m.first) return "member name";
                std::string r = cmp(e, *m.second, lookups);
                if (!r.empty()) return "." + m.first + ": " + r;
                if (lookups)
                {
                    const char* c = m.first.c_str();
                    J::K k = m.second->k;
                    const Terathon::String<>* ls = o->FindString(c);
                    const double* ld = o->FindNumber(c);
                    const bool* lb = o->FindBool(c);
                    const Null* ln = o->FindJsonNull(c);
                    const VA* la = o->FindJsonValueArray(c);
                    const ObjectValue* lo = o->FindJsonObjectValue(c);
                    if ((ls != nullptr) != (k == J::Str) || (ld != nullptr) != (k == J::Num) || (lb != nullptr) != (k == J::Bool) || (ln != nullptr) != (k == J::Null) || (la != nullptr) != (k == J::Arr) || (lo != nullptr) != (k == J::Obj))
                        return "typed lookup of " + H::quote(m.first) + " misreports the kind";
                    if (ls && ls != e->GetDataAsPointerTo<Terathon::String<>>()) return "FindString returns other data";
                    if (ld && ld != e->GetDataAsPointerTo<double>()) return "FindNumber returns other data";
                    if (lb && lb != e->GetDataAsPointerTo<bool>()) return "FindBool returns other data";
                    if (ln && ln != e->GetDataAsPointerTo<Null>()) return "FindJsonNull returns other data";
                    if (la && la != e->GetDataAsPointerTo<VA>()) return "FindJsonValueArray returns other data";
                    if (lo && lo != e->AsJsonObjectValue()) return "FindJsonObjectValue returns other data";
                }
            }
            if (lookups)
            {
                std::string names[] = { "", "zz!", "a", "A", "ab" , j.o.empty() ? "q" : j.o[0].first + "x", j.o.empty() ? "q" : j.o[0].first.substr(0, j.o[0].first.size() / 2) };
                for (auto& nm : names)
                    if (!j.find(nm))
                    {
                        const char* c = nm.c_str();
                        if (o->FindString(c) || o->FindNumber(c) || o->FindBool(c) || o->FindJsonNull(c) || o->FindJsonValueArray(c) || o->FindJsonObjectValue(c)) return "lookup of absent name " + H::quote(nm) + " answers";
                    }
            }
            break;
        }
    }
    return "";
}

static void count(const std::string& t, bool ok)
{
    H::evaluations++;
    if (ok ? t.size() > 2 : t.size() > 1) H::nontrivial++;
}

// exhaustive short texts over an alphabet, then random
struct Gen
{
    size_t idx = 0, n = 0;
    std::string next()
    {
        static const char al[] = "[]{},:\"\\0-1.e+tu nfa\xc3\xa9/";
        const size_t A = sizeof al - 1;
        if (n < 4)
        {
            std::string r;
            size_t x = idx++;
            for (size_t i = 0; i < n; i++) { r += al[x % A]; x /= A; }
            if (x) { idx = 0; n++; return next(); }
            return r;
        }
        return O::genAny();
    }
};

static void nestedTexts(std::vector<std::string>& v)
{
    for (int d : { 1, 10, 200, 1000 })
    {
        v.push_back(std::string(d, '[') + std::string(d, ']'));
        v.push_back(std::string(d, '['));
        std::string s;
        for (int i = 0; i < d; i++) s += "{\"a\":";
        v.push_back(s + "1" + std::string(d, '}'));
        v.push_back(s);
    }
    for (int len : { 14, 15, 16, 17, 63, 64, 65, 127, 128, 129, 300, 1000, 40000 })
    {
        v.push_back("\"" + std::string(len, 'x') + "\"");
        v.push_back("{\"" + std::string(len, 'k') + "\":1}");
        std::string s = "[";
        for (int i = 0; i < std::min(len, 2000); i++) s += (i ? ",1" : "1");
        v.push_back(s + "]");
        v.push_back(s + ",]");
    }
    v.push_back("[1e308,1e309,-1e309,1e-400,4.9e-324,2.2250738585072011e-308,9007199254740993,0.1,123456789012345678901234567890]");
    v.push_back("1" + std::string(400, '0'));
    v.push_back("0." + std::string(400, '0') + "1");
    v.push_back("[-0,-0.0,0e0,-0E-0,0E+5,1E5,1.5e-3]");
}

static void checkParse(const std::string& t, const std::string& mode)
{
    JP j;
    size_t tok = 0, pos = 0;
    bool ok = t.find('\0') == std::string::npos && O::parse(t, j, &tok, &pos);
    if (t.empty()) ok = false;
    count(t, ok);
    Terathon::Array<char> buf = buffer(t);
    StructuredData sd;
    ParseResult r = sd.Parse(buf);
    bool got = r.status == Status::kOk;
    if (mode == "C01" && got != ok) H::fail(std::string(ok ? "valid text rejected: " : "invalid text accepted: ") + H::quote(t.substr(0, 200)));
    if (got && !sd.GetRootJsonValue()) H::fail("success without a root value");
    if (mode == "C02" && got && ok)
    {
        std::string e = cmp(sd.GetRootJsonValue(), *j, false);
        if (!e.empty()) H::fail("tree differs for " + H::quote(t.substr(0, 200)) + ": " + e);
    }
    if (mode == "C12" && got && ok)
    {
        std::string e = cmp(sd.GetRootJsonValue(), *j, true);
        if (!e.empty()) H::fail("lookup differs for " + H::quote(t.substr(0, 200)) + ": " + e);
        e = cmp(sd.GetRootJsonValue(), *j, true);
        if (!e.empty()) H::fail("second lookup differs for " + H::quote(t.substr(0, 200)) + ": " + e);
    }
    if (mode == "C04")
    {
        if (got && (r.errorLine || r.errorColumn)) H::fail("success with an error position");
        if (!got && !ok && !t.empty() && t.find('\0') == std::string::npos)
        {
            size_t hi = pos;
            while (hi < t.size() && strchr(" \t\n\r", t[hi])) hi++;
            bool found = false;
            int line = 1, col = 1;
            for (size_t q = 0; q <= t.size(); q++)
            {
                if (q >= tok && q <= hi && line == r.errorLine && col == r.errorColumn) { found = true; break; }
                if (q < t.size()) { if (t[q] == '\n') { line++; col = 1; } else col++; }
            }
            if (!found) H::fail("error position " + std::to_string(r.errorLine) + ":" + std::to_string(r.errorColumn) + " is not between offsets " + std::to_string(tok) + " and " + std::to_string(hi) + " of " + H::quote(t.substr(0, 200)));
        }
    }
}

// ------------------------------------------------------------------ C04 messages
static const char* kMessages[] = { "Ok", "Could not open file", "Could not read file", "File is too large", "Invalid JSON text", "Unterminated text buffer", "Expected opening curly braces",
    "Expected closing curly braces or comma", "Expected opening square braces", "Expected closing square braces or comma", "Illegal character", "Illegal escape", "Expected colon",
    "Expected begining double quotes", "Expected ending double quotes", "Invalid number", "Expected 'true' or 'false'", "Expected 'null'",
    "Expected a JSON value (object, array, string, number, 'true', 'false', or 'null')", "Expected end of file", "File ends prematurely", "Numbers cannot have leading zeros",
    "JSON structure is invalid", "An expected object value pair was not found", "An exception was caught", "JSON structured data contains invalid value type",
    "Could not find requested name of name/value pair", "Could not write file" };
static void checkMessages()
{
    for (int i = 0; i <= int(Status::KFileWriteError); i++)
    {
        H::setCase("status " + std::to_string(i));
        std::string m = (const char*)StatusToString(Status(i));
        H::evaluations++; H::nontrivial++;
        if (m != kMessages[i]) H::fail("message of status " + std::to_string(i) + " is " + H::quote(m));
        int nums[] = { 0, 1, 7, 10, 99, 12345, 2147483647 };
        for (int l : nums)
            for (int c : nums)
            {
                ParseResult pr; pr.status = Status(i); pr.errorLine = l; pr.errorColumn = c;
                std::string s = (const char*)ParseResultToString(pr);
                if (s.find(kMessages[i]) == std::string::npos) H::fail("formatted result of status " + std::to_string(i) + " lacks its message: " + s);
                if (l && Status(i) != Status::kException)
                {
                    size_t a = s.find(std::to_string(l)), b = s.rfind(std::to_string(c));
                    if (a == std::string::npos || b == std::string::npos || b < a) H::fail("formatted result lacks the position " + std::to_string(l) + ":" + std::to_string(c) + ": " + s);
                    auto whole = [&](size_t p, size_t n) { return (p == 0 || !isdigit((unsigned char)s[p - 1])) && (p + n >= s.size() || !isdigit((unsigned char)s[p + n])); };
                    if (!whole(a, std::to_string(l).size()) || !whole(b, std::to_string(c).size())) H::fail("formatted result distorts the position: " + s);
                }
            }
    }
}

// ------------------------------------------------------------------ C13 / C14
static void checkOwn(const std::string& t1, const std::string& t2)
{
    Terathon::Array<char> b1 = buffer(t1), b2 = buffer(t2);
    JP j1, j2;
    bool ok2 = t2.size() >= 1 && O::parse(t2, j2);
    count(t1, true);
    H::Track tr;
    {
        StructuredData sd;
        ParseResult r1 = sd.Parse(b1);
        if (r1.status != Status::kOk && sd.GetRootJsonValue())
        {
            // must be a complete, usable tree
            H::NoTrack n;
        }
        ParseResult r2 = sd.Parse(b2);
        if (r2.status == Status::kOk && ok2)
        {
            H::NoTrack n;
            std::string e = cmp(sd.GetRootJsonValue(), *j2, false);
            if (!e.empty()) H::fail("re-parsed tree: " + e);
        }
        if (Value* v = sd.GetRootJsonValue())
        {
            if (ObjectValue* o = v->AsJsonObjectValue())
            {
                switch (H::rnd(4))
                {
                    case 0: o->PurgeMap(); if (o->GetMapElementCount() != 0) H::fail("PurgeMap leaves elements"); break;
                    case 1: if (Value* e = o->Map<Value>::GetFirstMapElement()) { delete e; } break;
                    case 2: { Terathon::String<> k("zq"); if (Value* e = o->FindMapElement(k)) delete e; Serialize(v, "zq", 1.5); Serialize(v, "zq", true); if (!o->FindNumber("zq")) H::fail("serialized member lost"); break; }
                    case 3: { double x = 1; Status s = sd.SerializeFrom(x); if (s != Status::kOk || !sd.GetRootJsonValue()) H::fail("re-serialize"); break; }
                }
            }
            else if (v->GetDataAsPointerTo<VA>() && H::chance(1, 2))
            {
                Terathon::Array<double> da; da.AppendArrayElement(1.0); da.AppendArrayElement(2.0);
                if (H::chance(1, 2)) { if (Serialize(v, da) != Status::kOk) H::fail("replace array contents"); }
                else if (sd.SerializeFrom(da) != Status::kOk) H::fail("re-serialize array");
            }
        }
    }
    if (!tr.balanced()) H::fail("leak: " + std::to_string(H::live - tr.l) + " objects and " + std::to_string(H::liveArr - tr.a) + " arrays stay after parsing " + H::quote(t1.substr(0, 100)) + " then " + H::quote(t2.substr(0, 100)));
}
static void checkOom(const std::string& t)
{
    JP j;
    bool ok = !t.empty() && O::parse(t, j);
    Terathon::Array<char> b = buffer(t);
    for (long k = 0; k < 400; k++)
    {
        H::evaluations++; H::nontrivial++;
        H::Track tr;
        bool fired;
        {
            StructuredData sd;
            H::failed = false;
            H::failAt = k;
            ParseResult r = sd.Parse(b);
            fired = H::failed;
            H::failAt = -1;
            if (fired && r.status != Status::kException) H::fail("allocation failure " + std::to_string(k) + " reported as status " + std::to_string(int(r.status)) + " for " + H::quote(t.substr(0, 120)));
            if (!fired && (r.status == Status::kOk) != ok) H::fail("outcome changed without a failure");
            if (!fired && r.status == Status::kException) H::fail("exception status without an allocation failure");
            r = sd.Parse(b);
            if ((r.status == Status::kOk) != ok) H::fail("the document is unusable after an allocation failure");
            // writing under failure
            if (ok && H::chance(1, 4))
            {
                S::on = true; sysReset();
                H::failed = false;
                H::failAt = H::rnd(6);
                Status w = sd.Write("/nonexistent/x", 3, ' ');
                bool f2 = H::failed;
                H::failAt = -1;
                S::on = false;
                if (f2 && w != Status::kException) H::fail("allocation failure while writing reported as status " + std::to_string(int(w)));
                if (!f2 && w != Status::kOk && w != Status::kFloatInvalid && w != Status::kStringIllegalChar) H::fail("write fails with status " + std::to_string(int(w)));
            }
        }
        if (!tr.balanced()) H::fail("leak after allocation failure " + std::to_string(k) + " for " + H::quote(t.substr(0, 120)));
        if (!fired) break;
    }
}

// ------------------------------------------------------------------ C09
static bool finite(const J& j)
{
    if (j.k == J::Num) return std::isfinite(j.d);
    for (auto& e : j.a) if (!finite(*e)) return false;
    for (auto& e : j.o) if (!finite(*e.second)) return false;
    return true;
}
static bool sameJ(const J& a, const J& b, std::string& why)
{
    if (a.k != b.k) { why = "kind"; return false; }
    switch (a.k)
    {
        case J::Str: if (a.s != b.s) { why = "string " + H::quote(a.s) + " vs " + H::quote(b.s); return false; } return true;
        case J::Num: if (!sameD(a.d, b.d)) { why = "number"; return false; } return true;
        case J::Bool: if (a.b != b.b) { why = "bool"; return false; } return true;
        case J::Null: return true;
        case J::Arr:
            if (a.a.size() != b.a.size()) { why = "element count"; return false; }
            for (size_t i = 0; i < a.a.size(); i++) if (!sameJ(*a.a[i], *b.a[i], why)) return false;
            return true;
        case J::Obj:
            if (a.o.size() != b.o.size()) { why = "member count"; return false; }
            for (size_t i = 0; i < a.o.size(); i++)
            {
                if (a.o[i].first != b.o[i].first) { why = "member order or name"; return false; }
                if (!sameJ(*a.o[i].second, *b.o[i].second, why)) return false;
            }
            return true;
    }
    return false;
}
static bool surrogateFree(const std::string& s)
{
    for (size_t i = 0; i + 1 < s.size(); i++) if ((unsigned char)s[i] == 0xED && (unsigned char)s[i + 1] >= 0xA0) return false;
    return true;
}
static size_t dupKeys(const J& j)
{
    size_t n = 0;
    if (j.k == J::Obj) { std::set<std::string> s; for (auto& m : j.o) s.insert(m.first); n += j.o.size() - s.size(); }
    return n;
}
static void checkWrite(const std::string& t)
{
    JP j;
    if (t.empty() || t.find('\0') != std::string::npos || !O::parse(t, j)) return;
    StructuredData sd;
    if (sd.Parse(buffer(t)).status != Status::kOk) return;
    H::evaluations++; H::nontrivial++;
    uint32_t il = H::rnd(5);
    char ic = H::chance(1, 3) ? '\t' : ' ';
    sysReset();
    S::data = "stale contents that must disappear";
    S::mode = H::rnd(4);
    Status s = sd.Write("f", il, ic);
    S::on = false;
    sysCheck("write");
    if (!finite(*j))
    {
        if (s == Status::kOk) H::fail("a value JSON cannot express is written: " + H::quote(S::data.substr(0, 200)));
        return;
    }
    if (s != Status::kOk) H::fail("write fails with status " + std::to_string(int(s)) + " for " + H::quote(t.substr(0, 200)));
    JP k;
    // the reference reads what was written; duplicates would show up in the raw text
    O::Parser P; P.t = S::data;
    if (!P.doc(k)) H::fail("written text is not JSON: " + H::quote(S::data.substr(0, 300)));
    std::string why;
    if (!sameJ(*j, *k, why)) H::fail("written text denotes another value (" + why + "): " + H::quote(t.substr(0, 150)) + " -> " + H::quote(S::data.substr(0, 300)));
    // members exactly once in the raw text: count the structural colons
    std::function<size_t(const J&)> members = [&](const J& x) { size_t n = x.o.size(); for (auto& e : x.a) n += members(*e); for (auto& e : x.o) n += members(*e.second); return n; };
    size_t colons = 0; bool in = false;
    for (size_t i = 0; i < S::data.size(); i++)
    {
        char c = S::data[i];
        if (in) { if (c == '\\') i++; else if (c == '"') in = false; }
        else if (c == '"') in = true;
        else if (c == ':') colons++;
    }
    if (colons != members(*j)) H::fail("members written more or less than once: " + H::quote(S::data.substr(0, 300)));
    StructuredData sd2;
    ParseResult r = sd2.Parse(buffer(S::data));
    if (r.status != Status::kOk) H::fail("the parser rejects the written text: " + H::quote(S::data.substr(0, 300)));
    std::string e = cmp(sd2.GetRootJsonValue(), *j, false);
    if (!e.empty()) H::fail("read back differs: " + e);
}
static void checkWriteStrings()
{
    // strings and names that did not come from a parse
    std::string s;
    int n = H::rnd(20);
    for (int i = 0; i < n; i++) s += char(H::chance(1, 3) ? 1 + H::rnd(31) : H::chance(1, 2) ? "\"\\/\x7f"[H::rnd(4)] : 1 + H::rnd(255));
    bool valid = true;
    for (size_t i = 0; i < s.size();) { int l = O::u8len((const unsigned char*)s.data() + i, s.size() - i); if (!l) { valid = false; break; } i += l; }
    bool asName = H::chance(1, 2);
    H::setCase("string " + s);
    H::evaluations++; H::nontrivial++;
    StructuredData sd;
    Terathon::String<> ts(s.c_str());
    double num;
    uint64_t bits = H::rnd() << 32 ^ H::rnd() << 11 ^ H::rnd();
    if (H::chance(1, 4)) bits = uint64_t(H::rnd(2)) << 63 | uint64_t(H::rnd(4) * 682 + H::rnd(3)) << 52 | (H::chance(1, 2) ? H::rnd(3) : ((uint64_t(1) << 52) - 1 - H::rnd(2)));
    memcpy(&num, &bits, 8);
    ObjectMap<double> om;
    ObjectMap<Terathon::String<>> os;
    Status st;
    if (asName) { auto* e = new ObjectMapElement<double>; e->name = ts; e->data = num; om.InsertMapElement(e); st = sd.SerializeFrom(om); }
    else { auto* e = new ObjectMapElement<Terathon::String<>>; e->name = "k"; e->data = ts; os.InsertMapElement(e); st = sd.SerializeFrom(os); }
    if (st != Status::kOk) H::fail("serialize");
    sysReset();
    Status w = sd.Write("f");
    S::on = false;
    sysCheck("write");
    bool expressible = valid && (!asName || std::isfinite(num));
    if (!expressible) { if (w == Status::kOk) H::fail("a value JSON cannot express is written: " + H::quote(S::data)); return; }
    if (w != Status::kOk) H::fail("write of " + H::quote(s) + " fails with status " + std::to_string(int(w)));
    JP k;
    if (!O::parse(S::data, k)) H::fail("written text is not JSON: " + H::quote(S::data));
    if (k->k != J::Obj || k->o.size() != 1) H::fail("written text: " + H::quote(S::data));
    if (asName) { if (k->o[0].first != s || k->o[0].second->k != J::Num || !sameD(k->o[0].second->d, num)) H::fail("name or number changes when written: " + H::quote(S::data)); }
    else if (k->o[0].second->k != J::Str || k->o[0].second->s != s) H::fail("string changes when written: " + H::quote(s) + " -> " + H::quote(S::data));
}

// ------------------------------------------------------------------ C10
static void checkFiles(const std::string& t0)
{
    H::evaluations++; H::nontrivial++;
    std::string t = t0;
    if (H::chance(1, 6)) t += std::string(H::rnd(3000), ' ');
    if (H::chance(1, 40)) { t = "\"" + std::string(65000 + H::rnd(540), 'y') + "\""; }
    JP j;
    bool ok = !t.empty() && t.find('\0') == std::string::npos && O::parse(t, j);
    StructuredData sd;
    sysReset();
    S::data = t;
    S::mode = H::rnd(4);
    int scen = H::rnd(7);
    ParseResult r;
    if (scen == 0) { S::openFails = true; r = sd.Parse("f"); if (r.status != Status::KFileOpenError) H::fail("unreadable file gives status " + std::to_string(int(r.status))); }
    else if (scen == 1 && !t.empty()) { S::eofAt = H::rnd(t.size()); r = sd.Parse("f"); Status want = t.size() > 65534 ? Status::KFileTooLarge : Status::KFileReadError; if (r.status != want) H::fail("shrinking file gives status " + std::to_string(int(r.status))); }
    else if (scen == 2) { S::errAt = t.empty() ? 0 : H::rnd(t.size()); r = sd.Parse("f"); Status want = t.size() > 65534 ? Status::KFileTooLarge : Status::KFileReadError; if (!t.empty() && r.status != want) H::fail("read error gives status " + std::to_string(int(r.status))); }
    else if (scen == 3) { S::statSize = 65535 + (H::chance(1, 2) ? 0 : H::rnd(100000)); r = sd.Parse("f"); if (r.status != Status::KFileTooLarge) H::fail("oversized file gives status " + std::to_string(int(r.status))); }
    else
    {
        r = sd.Parse("f");
        if (t.size() > 65534) { if (r.status != Status::KFileTooLarge) H::fail("oversized file gives status " + std::to_string(int(r.status))); }
        else
        {
            if ((r.status == Status::kOk) != ok) H::fail("file contents are read differently: status " + std::to_string(int(r.status)) + " for " + H::quote(t.substr(0, 100)));
            if (ok) { std::string e = cmp(sd.GetRootJsonValue(), *j, false); if (!e.empty()) H::fail("file contents are read differently: " + e); }
        }
    }
    S::on = false;
    sysCheck("read");
    if (r.status == Status::kOk && ok && finite(*j))
    {
        sysReset();
        S::mode = 0;
        S::data.clear();
        if (sd.Write("f", 2, ' ') != Status::kOk) H::fail("write fails");
        std::string full = S::data;
        S::on = false;
        sysCheck("write");
        sysReset();
        S::data = std::string(full.size() + H::rnd(50), '#');
        S::mode = 1 + H::rnd(3);
        if (sd.Write("f", 2, ' ') != Status::kOk) H::fail("split write fails");
        S::on = false;
        sysCheck("write");
        if (S::data != full) H::fail("split transfers change what is written: " + H::quote(S::data.substr(0, 200)) + " expected " + H::quote(full.substr(0, 200)));
        sysReset();
        S::data.clear();
        S::mode = H::rnd(4);
        S::errAt = full.empty() ? 0 : H::rnd(full.size());
        S::zeroWrite = H::chance(1, 3);
        Status w = sd.Write("f", 2, ' ');
        S::on = false;
        sysCheck("failed write");
        if (w == Status::kOk) H::fail("a failed write (" + std::to_string(S::errAt) + " of " + std::to_string(full.size()) + " bytes) is reported as success");
        sysReset();
        S::openFails = true;
        w = sd.Write("f", 2, ' ');
        S::on = false;
        if (w != Status::KFileOpenError) H::fail("unwritable file gives status " + std::to_string(int(w)));
    }
}

static void one(const std::string& mode, const std::string& t)
{
    H::setCase(t);
    if (mode == "C01" || mode == "C02" || mode == "C03" || mode == "C04" || mode == "C12") checkParse(t, mode);
    else if (mode == "C13") { static std::string prev; std::string p = prev; checkOwn(p, t); checkOwn(t, p); prev = t.size() < 500 ? t : ""; }
    else if (mode == "C14") { if (t.size() < 600) checkOom(t); }
    else if (mode == "C09") { checkWrite(t); }
    else if (mode == "C10") checkFiles(t);
}

int main(int argc, char** argv)
{
    double budget; std::string mode, replay;
    H::init(argc, argv, budget, mode, replay);
    if (!replay.empty())
    {
        std::string c = H::slurp(replay);
        size_t k = c.find("\nCASE\n");
        if (k != std::string::npos) c = c.substr(k + 6);
        for (int i = 0; i < 50; i++) one(mode, c);
        if (mode == "C04") checkMessages();
        return H::done();
    }
    if (mode == "C03deep")
    {
        // known finding: the recursion depth follows the nesting depth of the text
        StructuredData sd;
        sd.Parse(buffer(std::string(1000000, '[')));
        return H::done();
    }
    if (mode == "C04") checkMessages();
    if (mode == "C01" || mode == "C03" || mode == "C13")
    {
        // buffers that are not texts
        for (int i = 0; i < 3; i++)
        {
            StructuredData sd;
            Terathon::Array<char> b = buffer(std::string(i, '1'), false);
            H::setCase("unterminated");
            if (sd.Parse(b).status == Status::kOk) H::fail("an unterminated buffer is accepted");
        }
    }
    std::vector<std::string> fixed;
    nestedTexts(fixed);
    for (auto& t : fixed) { if (mode == "C14" && t.size() > 300) continue; one(mode, t); }
    Gen g;
    if (mode == "C14" || mode == "C10" || mode == "C09" || mode == "C13") g.n = 4;
    while (H::more())
        for (int i = 0; i < 20; i++)
        {
            if (mode == "C09" && H::chance(1, 3)) checkWriteStrings();
            else one(mode, mode == "C09" || mode == "C02" || mode == "C12" || mode == "C14" ? (H::chance(7, 8) ? O::genDoc() : g.next()) : g.next());
        }
    return H::done();
}
