// Falsifier for the containers, the strings, the text primitives and the typed
// (de)serialization: compares the real code with reference models.
#include "oracle.h"
#include <climits>
#include <sstream>
#include <string>
#include <vector>
#ifndef PUBLIC_ONLY            // the links and sizes themselves, when their names are the known ones
#define private public
#define protected public
#include "TSMap.h"
#include "TSArray.h"
#include "TSString.h"
#undef private
#undef protected
#define PRIV(x) x
#else
#include "TSMap.h"
#include "TSArray.h"
#include "TSString.h"
#define PRIV(x)
#endif
#define JSON4C4_ENABLE_STD_SUPPORT
#include "C4Json.h"
#include "TSText.h"
using namespace C4::Json;
using Terathon::Array;
using Terathon::String;
using Terathon::int32; using Terathon::uint32; using Terathon::int64; using Terathon::uint64;
namespace Text = Terathon::Text;
using O::J; using O::JP;

// A case is a byte script: every decision of a run is taken from it, so that a
// failing run can be written down and replayed.
static std::string script; static size_t sp; static bool replaying;
static unsigned rb() { if (sp < script.size()) return (unsigned char)script[sp++]; sp++; return 0; }
static unsigned rn(unsigned n) { return n <= 1 ? 0 : n <= 256 ? rb() % n : (rb() << 8 | rb()) % n; }
static bool coin(unsigned a, unsigned b) { return rn(b) < a; }
static uint64_t r64() { uint64_t r = 0; for (int i = 0; i < 8; i++) r = r << 8 | rb(); return r; }
template<class T> static std::string S(T x) { return std::to_string(x); }

// ------------------------------------------------------------------ C05
struct Key { int v; bool operator<(const Key& k) const { return v < k.v; } };
struct Node : Terathon::MapElement<Node>
{
    typedef Key KeyType; Key k; static long alive;
    Node(int v) { k.v = v; alive++; } ~Node() { alive--; }
    const Key& GetKey() const { return k; }
};
long Node::alive = 0;
static int height(Node* n, Node* sup, Terathon::Map<Node>* m, std::vector<int>& order, const char* w)
{
    if (!n) return 0;
    PRIV(if (n->superNode != sup) H::fail(std::string(w) + ": a parent link is wrong");)
    if (n->GetOwningMap() != m) H::fail(std::string(w) + ": an owner link is wrong");
    int l = height(n->GetLeftSubnode(), n, m, order, w);
    order.push_back(n->k.v);
    if (order.size() > 100000) H::fail("cycle");
    int r = height(n->GetRightSubnode(), n, m, order, w);
    if (l - r > 1 || r - l > 1) H::fail(std::string(w) + ": the tree is not height-balanced");
    return 1 + std::max(l, r);
}
static void mapCheck(Terathon::Map<Node>& m, std::map<int, Node*>& ref, const char* w)
{
    std::vector<int> order;
    height(m.GetRootMapElement(), nullptr, &m, order, w);
    size_t i = 0;
    if (order.size() != ref.size()) H::fail(std::string(w) + ": " + S(order.size()) + " elements instead of " + S(ref.size()));
    for (auto& e : ref) if (order[i++] != e.first) H::fail(std::string(w) + ": order or contents differ");
    i = 0;
    auto it = ref.begin();
    for (Node* n : m) { if (it == ref.end() || it->second != n) H::fail(std::string(w) + ": iteration differs"); if (m[i] != n) H::fail(std::string(w) + ": index access differs"); ++it; ++i; }
    if (it != ref.end()) H::fail(std::string(w) + ": iteration ends early");
    auto rt = ref.rbegin();
    for (Node* n = m.GetLastMapElement(); n; n = n->GetPreviousMapElement(), ++rt) if (rt == ref.rend() || rt->second != n) H::fail(std::string(w) + ": reverse iteration differs");
    if (rt != ref.rend()) H::fail(std::string(w) + ": reverse iteration ends early");
    if (m.GetMapElementCount() != (int)ref.size() || m.Empty() != ref.empty() || m[ref.size()] != nullptr) H::fail(std::string(w) + ": count");
    if (m.GetFirstMapElement() != (ref.empty() ? nullptr : ref.begin()->second)) H::fail(std::string(w) + ": first");
}
static void detached(Node* n, const char* w)
{
    PRIV(if (n->superNode) H::fail(std::string(w) + ": a removed element keeps its parent");)
    if (n->GetLeftSubnode() || n->GetRightSubnode() || n->GetOwningMap()) H::fail(std::string(w) + ": a removed element keeps links");
}
static void runMap()
{
    long before = Node::alive;
    {
        Terathon::Map<Node> m;
        std::map<int, Node*> ref;
        unsigned range = 1 + (coin(1, 3) ? rn(8) : coin(1, 2) ? rn(40) : rn(700));
        unsigned steps = coin(1, 4) ? rn(600) : rn(60), pat = rn(4);
        for (unsigned s = 0; s < steps; s++)
        {
            int k = pat == 0 ? int(s % range) : pat == 1 ? int(range - s % range) : int(rn(range));
            unsigned op = rn(12);
            const char* w = "insert";
            auto f = ref.find(k);
            if (op < 5)
            {
                Node* n = new Node(k);
                bool r = m.InsertMapElement(n);
                if (r != (f == ref.end())) H::fail("InsertMapElement reports the wrong result");
                if (r) ref[k] = n; else { detached(n, w); delete n; }
            }
            else if (op == 5)
            {
                w = "insert-replace";
                Node* n = new Node(k);
                Node* o = m.InsertReplaceMapElement(n);
                if (o != (f == ref.end() ? nullptr : f->second)) H::fail("InsertReplaceMapElement returns the wrong element");
                ref[k] = n;
                if (o) { detached(o, w); delete o; }
                if (coin(1, 4) && m.InsertReplaceMapElement(n) != nullptr) H::fail("replacing an element with itself");
            }
            else if (op == 6)
            {
                w = "reserve";
                Terathon::MapReservation rsv;
                bool r = m.ReserveMapElement(Key{k}, &rsv);
                if (r != (f == ref.end())) H::fail("ReserveMapElement reports the wrong result");
                if (r) { Node* n = new Node(k); m.InsertMapElement(n, &rsv); ref[k] = n; }
            }
            else if (op < 10 && f != ref.end())
            {
                Node* n = f->second;
                unsigned how = rn(3);
                w = how == 0 ? "remove" : how == 1 ? "detach" : "delete";
                ref.erase(f);
                if (how == 0) { m.RemoveMapElement(n); detached(n, w); delete n; }
                else if (how == 1) { n->Detach(); detached(n, w); n->Detach(); delete n; }
                else delete n;
            }
            else if (op == 10 && coin(1, 20))
            {
                if (coin(1, 2)) { w = "purge"; m.PurgeMap(); ref.clear(); }
                else { w = "remove all"; m.RemoveAllMapElements(); for (auto& e : ref) { detached(e.second, w); delete e.second; } ref.clear(); }
                if (Node::alive != before) H::fail("clearing: elements are lost or released twice");
            }
            else
            {
                Node* x = m.FindMapElement(Key{k});
                if (x != (f == ref.end() ? nullptr : f->second)) H::fail("FindMapElement returns the wrong element");
                if (x && !m.Member(x)) H::fail("Member");
            }
            if (s < 40 || s % 7 == 0 || s + 1 == steps) mapCheck(m, ref, w);
        }
    }
    if (Node::alive != before) H::fail("destroying a map loses elements or releases them twice");
}

// ------------------------------------------------------------------ C06
struct Probe
{
    static std::set<const Probe*> alive; int v; Probe* self; char pad[3];
    static void born(const Probe* p) { H::NoTrack t; if (!alive.insert(p).second) H::fail("an element is constructed over a live element"); }
    static void need(const Probe* p) { H::NoTrack t; if (!alive.count(p) || p->self != p) H::fail("a dead element is used"); }
    Probe() : v(-7), self(this) { born(this); }
    Probe(int x) : v(x), self(this) { born(this); }
    Probe(const Probe& p) : self(this) { need(&p); v = p.v; born(this); }
    Probe(Probe&& p) : self(this) { need(&p); v = p.v; p.v = -99; born(this); }
    ~Probe() { need(this); H::NoTrack t; alive.erase(this); self = nullptr; }
    bool operator==(const Probe& p) const { need(this); need(&p); return v == p.v; }
    bool operator!=(const Probe& p) const { return !(*this == p); }
};
std::set<const Probe*> Probe::alive;
template <class A> static void arrCheck(A& a, std::vector<int>& r, const char* w)
{
    if (a.GetArrayElementCount() != (int)r.size()) H::fail(std::string(w) + ": count " + S(a.GetArrayElementCount()) + " instead of " + S(r.size()));
    if (a.Empty() != r.empty()) H::fail(std::string(w) + ": Empty");
    for (size_t i = 0; i < r.size(); i++) { Probe::need(&a[i]); if (a[i].v != r[i]) H::fail(std::string(w) + ": element " + S(i) + " is " + S(a[i].v) + " instead of " + S(r[i])); }
    size_t i = 0; for (auto& p : a) { if (&p != &a[i]) H::fail("iteration"); i++; }
    if (i != r.size()) H::fail("iteration length");
    PRIV(if (a.reservedCount < a.elementCount) H::fail(std::string(w) + ": more elements than storage");)
}
template <class A> static void runArr()
{
    bool oom = false;
    H::Track tr;
    {
        A a; std::vector<int> r;
        unsigned steps = coin(1, 6) ? rn(120) : rn(30);
        for (unsigned s = 0; s < steps; s++)
        {
            const char* w = "";
            int v = rn(9); unsigned op = rn(16);
            if (coin(1, 24)) { H::failed = false; H::failAt = 0; }
            try
            {
                if (op == 0 && r.size() && coin(1, 2))
                {
                    int i = rn(r.size()), n = rn(3), e = r[i];
                    if (n == 0) { w = "append own element"; a.AppendArrayElement(a[i]); H::NoTrack t; r.push_back(e); }
                    else if (n == 1) { w = "insert own element"; int k = rn(r.size() + 3); a.InsertArrayElement(k, a[i]); H::NoTrack t; if (k >= (int)r.size()) { r.resize(k, -7); r.push_back(e); } else r.insert(r.begin() + k, e); }
                    else { w = "resize with own element"; int k = rn(30); if (k <= i) k = i + 1; a.SetArrayElementCount(k, a[i]); H::NoTrack t; r.resize(k, e); }
                }
                else if (op < 3) { w = "append"; Probe p(v); Probe* q = a.AppendArrayElement(p); if (p.v != v) H::fail("append by reference modifies its argument"); if (q != &a[a.GetArrayElementCount() - 1]) H::fail("append returns the wrong pointer"); H::NoTrack t; r.push_back(v); }
                else if (op == 3) { w = "append move"; Probe p(v); a.AppendArrayElement((Probe&&)p); H::NoTrack t; r.push_back(v); }
                else if (op == 4) { w = "append default"; a.AppendArrayElement(); H::NoTrack t; r.push_back(-7); }
                else if (op < 7)
                {
                    w = "insert"; int i = coin(1, 6) ? int(r.size() + rn(7)) : int(rn(r.size() + 1)); Probe p(v);
                    if (coin(1, 2)) a.InsertArrayElement(i, p); else a.InsertArrayElement(i, (Probe&&)p);
                    H::NoTrack t; if (i >= (int)r.size()) { r.resize(i, -7); r.push_back(v); } else r.insert(r.begin() + i, v);
                }
                else if (op == 7) { w = "remove"; int i = rn(r.size() + 2); a.RemoveArrayElement(i); if (i < (int)r.size()) r.erase(r.begin() + i); }
                else if (op == 8) { w = "remove last"; a.RemoveLastArrayElement(); if (r.size()) r.pop_back(); }
                else if (op == 9) { w = "resize"; int n = coin(1, 2) ? rn(r.size() + 1) : rn(26); a.SetArrayElementCount(n); H::NoTrack t; r.resize(n, -7); }
                else if (op == 10) { w = "resize with value"; int n = coin(1, 2) ? rn(r.size() + 1) : rn(26); Probe p(v); a.SetArrayElementCount(n, p); H::NoTrack t; r.resize(n, v); }
                else if (op == 11) { w = "reserve"; int n = rn(40); a.ReserveArrayElementCount(n);  Probe* b = a.begin(); for (int i = r.size(); i < n; i++) { a.AppendArrayElement(Probe(i)); H::NoTrack t; r.push_back(i); } if (n > 0 && a.begin() != b) H::fail("storage moves although it was reserved"); }
                else if (op == 12) { w = "clear"; if (coin(1, 3)) { if (coin(1, 2)) a.ClearArray(); else a.PurgeArray(); r.clear(); } }
                else if (op == 13)
                {
                    w = "copy"; A b(a); std::vector<int>* rb2; { H::NoTrack t; rb2 = new std::vector<int>(r); }
                    arrCheck(b, *rb2, "copy");
                    if (!(a == b)) H::fail("a copy compares unequal");
                    if (r.size()) { int i = rn(r.size()); int old = b[i].v; b[i].v = old + 100; if (a == b) H::fail("different arrays compare equal"); b[i].v = old; b.RemoveLastArrayElement(); if (a == b) H::fail("different lengths compare equal"); }
                    b.AppendArrayElement(); b.AppendArrayElement();
                    { H::NoTrack t; delete rb2; }
                }
                else if (op == 14)
                {
                    w = "move"; A b((A&&)a); std::vector<int>* e; { H::NoTrack t; e = new std::vector<int>; }
                    arrCheck(b, r, "moved-to"); arrCheck(a, *e, "moved-from");
                    { H::NoTrack t; delete e; r.clear(); }
                    a.AppendArrayElement(Probe(3)); { H::NoTrack t; r.push_back(3); } arrCheck(a, r, "use after move");
                }
                else { w = "find"; Probe p(v); int e = -1; for (size_t i = 0; i < r.size(); i++) if (r[i] == v) { e = int(i); break; } if (a.FindArrayElementIndex(p) != e) H::fail("find reports " + S(a.FindArrayElementIndex(p)) + " instead of " + S(e)); }
                H::failAt = -1;
            }
            catch (std::bad_alloc&) { H::failAt = -1; if (!H::failed) throw; oom = true; w = "allocation failure"; }
            // a failed operation may have changed the contents only if it was the compound reserve/append step
            if (oom) { oom = false; { H::NoTrack t; r.clear(); for (auto& p : a) { Probe::need(&p); r.push_back(p.v); } } }
            arrCheck(a, r, w);
            if (Probe::alive.size() != r.size()) H::fail(std::string(w) + ": " + S(Probe::alive.size()) + " live elements instead of " + S(r.size()));
        }
    }
    if (!Probe::alive.empty()) H::fail("elements survive their array");
    if (!tr.balanced()) H::fail("array storage is lost or released twice");
}
static void runArrOom()
{
    // a failing growth leaves the contents as they were
    H::Track tr;
    {
        Array<Probe> a; int n = rn(30);
        for (int i = 0; i < n; i++) a.AppendArrayElement(Probe(i));
        H::failed = false; H::failAt = 0; int c = a.GetArrayElementCount(); bool threw = false;
        try { switch (rn(5)) { case 0: a.AppendArrayElement(Probe(5)); break; case 1: a.AppendArrayElement(); break; case 2: { Probe p(4); a.InsertArrayElement(rn(n + 3), p); break; } case 3: a.SetArrayElementCount(c + 20); break; case 4: a.ReserveArrayElementCount(c + 40); break; } } catch (std::bad_alloc&) { threw = true; }
        H::failAt = -1;
        if (threw != H::failed) H::fail("an allocation failure is not reported");
        if (threw) { if (a.GetArrayElementCount() != c) H::fail("a failed growth changes the element count"); for (int i = 0; i < c; i++) if (a[i].v != i) H::fail("a failed growth changes the elements"); }
        a.AppendArrayElement(Probe(1));
    }
    if (!Probe::alive.empty() || !tr.balanced()) H::fail("a failed growth leaks");
}

// ------------------------------------------------------------------ C07
static std::string rtext(unsigned max)
{
    static const unsigned lens[] = {0, 1, 2, 3, 13, 14, 15, 16, 17, 30, 31, 32, 33, 58, 59, 60, 61, 62, 63, 64, 65, 67, 68, 100, 123, 124, 125, 126, 127, 128, 129, 191, 192, 193, 250, 254, 255, 256, 257};
    unsigned n = coin(1, 2) ? lens[rn(sizeof lens / sizeof *lens)] : rn(90);
    n = std::min(n, max);
    std::string s; unsigned a = rb(), st = rn(7);
    for (unsigned i = 0; i < n; i++) { unsigned char c = a + i * st; if (coin(1, 8)) c = rb(); s += c ? char(c) : 'z'; }
    return s;
}
static void strIs(const String<>& t, const std::string& r, const char* w)
{
    if (t.GetStringLength() != (int)r.size() || memcmp((const char*)t, r.c_str(), r.size() + 1)) H::fail(std::string(w) + ": " + H::quote(std::string((const char*)t).substr(0, 300)) + " length " + S(t.GetStringLength()) + " instead of " + H::quote(r));
    PRIV(if (t.physicalSize < t.logicalSize || ((t.stringPointer == t.localString) && t.physicalSize > 16)) H::fail(std::string(w) + ": storage size");)
}
static long long rint() { static const long long k[] = {0, 1, -1, 9, 10, -10, 99, 100, INT_MAX, INT_MIN, INT_MAX - 1LL, INT_MIN + 1LL, 1000000000, 999999999, LLONG_MAX, LLONG_MIN, LLONG_MIN + 1, 1000000000000000000LL, 999999999999999999LL}; return coin(1, 2) ? k[rn(19)] : (long long)(r64() >> rn(64)) * (coin(1, 2) ? 1 : -1); }
static void runString()
{
    H::Track tr;
    {
        String<> *a; std::string r;
        { std::string x = rtext(400); switch (rn(7)) { case 0: a = new String<>; break; case 1: a = new String<>(x.c_str()); r = x; break; case 2: { int n = rn(x.size() + 3); a = new String<>(x.c_str(), n); r = x.substr(0, n); break; } case 3: { String<> b(x.c_str()); a = new String<>(b); r = x; strIs(b, x, "copied-from"); break; } case 4: { String<> b(x.c_str()); a = new String<>((String<>&&)b); r = x; strIs(b, b.GetStringLength() ? x : "", "moved-from"); break; } case 5: { int v = int(rint()); a = new String<>(v); r = S(v); break; } default: { long long v = rint(); a = new String<>(int64(v)); r = S(v); } } }
        strIs(*a, r, "construct");
        unsigned steps = rn(14);
        for (unsigned s = 0; s < steps; s++)
        {
            std::string x = rtext(200), before = r; const char* w = "";
            unsigned op = rn(24);
            if (r.size() > 3000) op = 20;
            bool inj = coin(1, 12), mayFail = false;
            H::failed = false;
            if (inj) H::failAt = rn(2);
            try
            {
                String<> b; { long f = H::failAt; H::failAt = -1; b = x.c_str(); H::failAt = f; }
                #define CH(e) { H::NoTrack t; e; }
                switch (op)
                {
                    case 0: w = "assign"; *a = x.c_str(); CH(r = x); break;
                    case 1: w = "assign string"; *a = b; CH(r = x); strIs(b, x, "assigned-from"); break;
                    case 2: w = "move assign"; *a = (String<>&&)b; CH(r = x); break;
                    case 3: w = "append"; *a += x.c_str(); CH(r += x); break;
                    case 4: w = "append string"; *a += b; CH(r += x); break;
                    case 5: { w = "append char"; char c = char(1 + rn(255)); *a += c; CH(r += c); break; }
                    case 6: { w = "append part"; int n = rn(x.size() + 4); a->AppendString(x.c_str(), n); CH(r += x.substr(0, n)); break; }
                    case 7: { w = "set"; int n = rn(x.size() + 4); a->Set(x.c_str(), n); CH(r = x.substr(0, n)); break; }
                    case 8: { w = "shorten"; int n = rn(r.size() + 1); a->SetStringLength(n); CH(r.resize(n)); break; }
                    case 9: { w = "lengthen"; int o = r.size(), n = o + rn(90); a->SetStringLength(n); char* p = *a; if (p[n]) H::fail("lengthen: no terminator"); if (memcmp(p, r.data(), o)) H::fail("lengthen: contents change"); for (int i = o; i < n; i++) p[i] = 'q'; CH(r.resize(n, 'q')); break; }
                    case 10: { w = "assign int"; int v = int(rint()); *a = int32(v); CH(r = S(v)); break; }
                    case 11: { w = "append int"; int v = int(rint()); *a += int32(v); CH(r += S(v)); break; }
                    case 12: { w = "assign int64"; long long v = rint(); if (coin(1, 3)) { w = "assign uint32"; *a = uint32(v); CH(r = S(uint32_t(v))); break; } *a = int64(v); CH(r = S(v)); break; }
                    case 13: { w = "append int64"; long long v = rint(); unsigned uk = rn(6); if (uk == 0) { w = "append uint32"; *a += uint32(v); CH(r += S(uint32_t(v))); break; } if (uk == 1) { w = "append uint64"; *a += uint64(v); CH(r += S(uint64_t(v))); break; } *a += int64(v); CH(r += S(v)); break; }
                    case 14: w = "self assign"; *a = *a; break;
                    case 15: w = "self append"; *a += *a; CH(r += r); break;
                    case 16: { w = "assign own tail"; int n = rn(r.size() + 1); *a = (const char*)*a + n; CH(r = r.substr(n)); break; }
                    case 17: { w = "append own tail"; int n = rn(r.size() + 1); *a += (const char*)*a + n; CH(r += r.substr(n)); break; }
                    case 18: { w = "set own part"; int n = rn(r.size() + 1), m = rn(r.size() + 1); a->Set((const char*)*a + n, m); CH(r = r.substr(n, m)); break; }
                    case 19: { w = "concatenate"; String<> c = *a + x.c_str(); CH(std::string y = r + x; strIs(c, y, w)); int v = int(rint()); String<> d = *a + int32(v); CH(std::string y = r + S(v); strIs(d, y, w)); String<> e = *a + int64(v) ; CH(std::string y = r + S(v); strIs(e, y, w)); break; }
                    case 20: w = "purge"; a->PurgeString(); CH(r.clear()); break;
                    case 21: { w = "case"; if (coin(1, 2)) { a->ConvertToLowerCase(); for (char& c : r) if (c >= 'A' && c <= 'Z') c += 32; } else { a->ConvertToUpperCase(); for (char& c : r) if (c >= 'a' && c <= 'z') c -= 32; } break; }
                    case 22: { w = "replace"; char x1 = r.empty() ? 'x' : r[rn(r.size())], y1 = 'Y'; a->ReplaceChar(x1, y1); for (char& c : r) if (c == x1) c = y1; break; }
                    case 23: { w = "compare"; String<> c(*a); if (!(c == *a) || c != *a || !(*a == r.c_str()) || (*a < (const char*)c) || !(*a <= (const char*)c)) H::fail("a copy compares unequal"); bool lt; { H::NoTrack t; lt = strcmp(r.c_str(), x.c_str()) < 0; if ((*a < x.c_str()) != lt || (*a >= x.c_str()) == lt) H::fail("order differs"); bool eq = r == x; if ((*a == x.c_str()) != eq || (*a == b) != eq || (*a <= x.c_str()) != (lt || eq) || (*a > x.c_str()) == (lt || eq)) H::fail("comparison differs"); } break; }
                }
                H::failAt = -1;
                if (H::failed) H::fail(std::string(w) + ": an allocation failure is not reported");
            }
            catch (std::bad_alloc&) { H::failAt = -1; if (!H::failed) throw; mayFail = true; }
            if (mayFail) { H::NoTrack t; r = before; if (a->GetStringLength() != (int)strlen((const char*)*a)) H::fail(std::string(w) + ": a failed operation leaves the length wrong"); strIs(*a, before, (std::string(w) + ": a failed operation changes the string").c_str()); }
            { H::NoTrack t; strIs(*a, r, w); }
        }
        if (r.size() < 400 && coin(1, 3))
        {
            String<> e(*a); e.EncodeEscapeSequences();
            if (e.GetStringLength() != (int)strlen((const char*)e)) H::fail("EncodeEscapeSequences: length or storage");
        }
        delete a;
    }
    // bounded strings
    {
        std::string x = rtext(300), y = rtext(300);
        struct { char g0[8]; String<31> b; char g1[8]; } z; memset(z.g0, 7, 8); memset(z.g1, 7, 8);
        z.b = x.c_str(); std::string r = x.substr(0, 31);
        auto ck = [&](const char* w) { if (r != (const char*)z.b || z.b.GetStringLength() != (int)r.size()) H::fail(std::string("bounded string ") + w + ": " + H::quote((const char*)z.b) + " instead of " + H::quote(r)); for (int i = 0; i < 8; i++) if (z.g0[i] != 7 || z.g1[i] != 7) H::fail("bounded string writes outside"); };
        ck("assign"); z.b += y.c_str(); r = (r + y).substr(0, 31); ck("append");
        z.b += 'c'; if (r.size() < 31) r += 'c'; ck("append char");
        int n = rn(r.size() + 1); z.b.SetStringLength(n); r.resize(n); ck("shorten");
        n = rn(40); z.b.AppendString(x.c_str(), n); r = (r + x.substr(0, n)).substr(0, 31); ck("append part");
        n = rn(40); z.b.Set(y.c_str(), n); r = y.substr(0, std::min(31, n)); ck("set");
        String<31> q(z.b); if (!(q == z.b) || q != (const char*)z.b) H::fail("bounded copy");
        String<31> q2(x.c_str()); if (x.substr(0, 31) != (const char*)q2) H::fail("bounded construct");
        int v = int(rint()); z.b = int32(v); r = S(v); ck("int"); long long l = rint(); z.b = int64(l); r = S(l); ck("int64"); z.b = uint32(l); r = S(uint32_t(l)); ck("uint32");
        z.b = "ab"; z.b += int32(v); r = "ab" + S(v); ck("append int");
        z.b = x.substr(0, rn(40)).c_str(); r = (const char*)z.b;
        for (int i = 0; i < 4; i++) { int t = rn(r.size() + 1), k = rn(40); const char* own = (const char*)z.b + t; std::string o = r.substr(t), c = o.substr(0, k);
            switch (rn(4)) { case 0: z.b += own; r = (r + o).substr(0, 31); ck("append own text"); break; case 1: z.b.AppendString(own, k); r = (r + c).substr(0, 31); ck("append part of itself"); break;
                case 2: z.b = own; r = o; ck("assign own text"); break; default: z.b.Set(own, k); r = c; ck("set to part of itself"); } if (r.empty()) { z.b = x.c_str(); r = x.substr(0, 31); } }
        bool lt = strcmp("ab", x.c_str()) < 0; String<31> ab("ab"); if ((ab < x.c_str()) != lt) H::fail("bounded order");
    }
    if (!tr.balanced()) H::fail("string storage is lost or released twice");
}

// ------------------------------------------------------------------ C08
struct Fence   // text directly before an inaccessible page
{
    char* base; size_t n = 1 << 16;
    Fence() { base = (char*)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + n, 4096, PROT_NONE); }
    char* put(const std::string& s) { char* p = base + n - s.size() - 1; memcpy(p, s.c_str(), s.size() + 1); return p; }
};
static std::string enc(uint32_t c)
{
    std::string r;
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    return r;
}
static int wellFormed(const std::string& s)   // length of the leading well-formed character, surrogates tolerated
{
    for (int l = 1; l <= 4 && l <= (int)s.size(); l++)
    {
        uint32_t c; const unsigned char* b = (const unsigned char*)s.data();
        if (l == 1) c = b[0]; else if (l == 2) c = (b[0] & 31) << 6 | (b[1] & 63);
        else if (l == 3) c = (b[0] & 15) << 12 | (b[1] & 63) << 6 | (b[2] & 63); else c = (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | (b[3] & 63);
        if (c <= 0x10FFFF && enc(c) == s.substr(0, l)) return l;
    }
    return 0;
}
static Fence* F1; static Fence* F2;
static void codePoint(uint32_t c)
{
    std::string e = enc(c);
    char b[8]; memset(b, 0x55, 8);
    int n = Text::WriteUnicodeChar(b, c);
    if (n != (int)e.size() || memcmp(b, e.data(), n) || b[n] != 0x55) H::fail("encoding U+" + S(c));
    if (c && Text::GetUnicodeCharByteCount(c) != n) H::fail("byte count of U+" + S(c));
    if (!c) return;
    char* p = F1->put(e);
    uint32 d = 0;
    if (Text::ReadUnicodeChar(p, &d) != n || d != c) H::fail("decoding U+" + S(c) + " gives " + S(d));
    if (Text::ValidateUnicodeChar(p) != n) H::fail("validating U+" + S(c));
    if (Text::GetUnicodeCharCount(p) != 1) H::fail("counting U+" + S(c));
}
static void bytes(const std::string& s)
{
    if (s.empty() || s.find('\0') != std::string::npos) return;
    char* p = F1->put(s);
    int w = wellFormed(s);
    if (Text::ValidateUnicodeChar(p) != w) H::fail("validating " + H::quote(s) + " gives " + S(Text::ValidateUnicodeChar(p)) + " instead of " + S(w));
    if (w) { uint32 c; if (Text::ReadUnicodeChar(p, &c) != w || enc(c) != s.substr(0, w)) H::fail("decoding " + H::quote(s)); }
}
static void exhaustive()
{
    for (uint32_t c = 0; c <= 0x10FFFF; c++) { if (!(c & 0xFFF)) H::setCase("U" + S(c)); codePoint(c); H::evaluations++; H::nontrivial++; }
    for (int a = 1; a < 256; a++)
    {
        H::setCase("B" + S(a));
        std::string s(1, char(a)); bytes(s);
        for (int b = 1; b < 256; b++)
        {
            std::string t = s + char(b); bytes(t);
            if (a < 0xC0 && (b & 15)) continue;
            static const int cs[] = {1, 0x20, 0x7f, 0x80, 0x81, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff};
            for (int c : cs) { std::string u = t + char(c); bytes(u); for (int d : cs) { bytes(u + char(d)); H::evaluations++; } }
        }
    }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void runText()
{
    std::string x = rtext(260), y = coin(1, 3) ? x : coin(1, 2) ? x.substr(0, rn(x.size() + 1)) + rtext(9) : rtext(260);
    if (coin(1, 3) && y.size()) y[rn(y.size())] = char(1 + rn(255));
    char *p = F1->put(x), *q = F2->put(y);
    if (Text::GetTextLength(p) != (int)x.size()) H::fail("length of " + H::quote(x));
    int cmp = sgn(strcmp(x.c_str(), y.c_str()));
    if (Text::CompareText(p, q) != (cmp == 0)) H::fail("CompareText");
    if (Text::CompareTextLessThan(p, q) != (cmp < 0)) H::fail("CompareTextLessThan " + H::quote(x) + " " + H::quote(y));
    if (Text::CompareTextLessEqual(p, q) != (cmp <= 0)) H::fail("CompareTextLessEqual");
    int m = rn(std::max(x.size(), y.size()) + 3);
    int cm = sgn(strncmp(x.c_str(), y.c_str(), m));
    if (Text::CompareText(p, q, m) != (cm == 0)) H::fail("CompareText bounded");
    if (Text::CompareTextLessThan(p, q, m) != (cm < 0)) H::fail("CompareTextLessThan bounded");
    if (Text::CompareTextLessEqual(p, q, m) != (cm <= 0)) H::fail("CompareTextLessEqual bounded");
    std::vector<char> d(x.size() + 9, 0x33);
    if (Text::CopyText(p, d.data()) != (int)x.size() || memcmp(d.data(), x.c_str(), x.size() + 1) || d[x.size() + 1] != 0x33) H::fail("CopyText");
    int mm = rn(x.size() + 3); std::string pre = x.substr(0, mm);
    std::fill(d.begin(), d.end(), 0x33);
    if (Text::CopyText(p, d.data(), mm) != (int)pre.size() || memcmp(d.data(), pre.c_str(), pre.size() + 1) || d[pre.size() + 1] != 0x33) H::fail("CopyText bounded");
    {
        std::vector<char> e(y.size() + 1); // exact destination
        Text::CopyText(q, e.data()); if (memcmp(e.data(), y.c_str(), y.size() + 1)) H::fail("CopyText");
    }
    uint32_t k = x.size() ? (unsigned char)x[rn(x.size())] : 'a';
    size_t f = x.find(char(k));
    if (Text::FindChar(p, k) != (f == std::string::npos ? -1 : (int)f)) H::fail("FindChar");
    for (int i = 0; i < 2; i++)
    {
        long long v = rint(); char b[40]; memset(b, 0x33, 40);
        std::string e = S(int(v)); int n = Text::IntegerToString(int32(v), b, 20);
        if (n != (int)e.size() || e != b || b[n + 1] != 0x33) H::fail("IntegerToString(" + e + ") gives " + H::quote(b));
        memset(b, 0x33, 40); e = S(v); n = Text::Integer64ToString(int64(v), b, 30);
        if (n != (int)e.size() || e != b || b[n + 1] != 0x33) H::fail("Integer64ToString(" + e + ") gives " + H::quote(b));
    }
    std::string u; int cnt = rn(12); int nc = 0;
    for (int i = 0; i < cnt; i++) { uint32_t c = coin(1, 3) ? 1 + rn(127) : coin(1, 2) ? 0x80 + rn(0xF000) : 0x10000 + r64() % 0x100000; u += enc(c); nc++; }
    p = F1->put(u);
    if (Text::GetUnicodeCharCount(p) != nc) H::fail("GetUnicodeCharCount");
    // advance
    int off = 0, seen = 0; while (p[off]) { uint32 c; int l = Text::ReadUnicodeChar(p + off, &c); if (l <= 0) H::fail("advance"); off += l; seen++; }
    if (seen != nc || off != (int)u.size()) H::fail("advance over a well-formed text");
    std::string bs; int bn = 1 + rn(6); for (int i = 0; i < bn; i++) { static const int hot[] = {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0x9f, 0xa0, 0xed, 0xef, 0xf0, 0x8f, 0x90, 0xf4, 0xf5, 0x7f, 0x41}; bs += char(coin(2, 3) ? hot[rn(18)] : 1 + rn(255)); }
    bytes(bs);
    codePoint(r64() % 0x110000);
}


#ifdef TYPED
// ------------------------------------------------------------------ C11
struct Inner
{
    double d = -5; String<> s;
#define P_INNER "d", d, "s", s
    DEFINE_JSON4C4_MEMBER_FUNCTIONS(P_INNER)
};
struct Opt
{
    double a = -1; bool b = true; Array<Inner> list; ObjectMap<double> m; String<> t; Array<double> v; std::string u = "untouched"; Null z;
};
#define P_OPT "a", o_.a, optional, "b", o_.b, "list", o_.list, optional, "m", o_.m, "t", o_.t, optional, "v", o_.v, optional, "u", o_.u, "z", o_.z
#define DEF(T, P) \
    inline Status Deserialize(const Value* sd, T& o_) noexcept { return C4::Json::DeserializeProto(sd, P); } \
    inline Status Validate(const Value* sd, const T& o_) noexcept { return C4::Json::ValidateProto(sd, P); } \
    inline Status Serialize(Value* sd, const T& o_) noexcept { return C4::Json::SerializeProto(sd, P); }
DEF(Opt, P_OPT)
struct In2 { double x = 1; bool y = false; };
#define P_IN2 "x", o_.x, "y", o_.y
DEF(In2, P_IN2)
struct Outer { Opt o; In2 q; Array<In2> qs; std::vector<In2> qv; std::map<std::string, In2> qm; double e = 2; ObjectMap<In2> qo; };
#define P_OUTER "o", o_.o, optional, "q", o_.q, "qs", o_.qs, "qv", o_.qv, optional, "qm", o_.qm, "e", o_.e, "qo", o_.qo
DEF(Outer, P_OUTER)

enum { IVT = 1, NNP = 2 };
static JP mk(J::K k) { auto j = std::make_shared<J>(); j->k = k; return j; }
static std::string rname() { static const char* n[] = {"a", "b", "d", "s", "x", "y", "longer name than fits", "", "e\xc3\xa9", "zz"}; return coin(1, 2) ? n[rn(10)] : rtext(24); }
static double rnum() { uint64_t u; double d; switch (rn(4)) { case 0: return int(rint()); case 1: return rn(1000) / 8.0; case 2: return 0.0; } do { u = r64(); memcpy(&d, &u, 8); } while (!std::isfinite(d)); return d; }
static JP anyJ(int depth)
{
    JP j = mk(J::K(rn(depth > 0 ? 6 : 4)));
    if (j->k == J::Num) j->d = rnum();
    else if (j->k == J::Bool) j->b = coin(1, 2);
    else if (j->k == J::Str) j->s = rtext(40);
    else if (j->k == J::Arr) for (int i = rn(3); i > 0; i--) j->a.push_back(anyJ(depth - 1));
    else if (j->k == J::Obj) for (int i = rn(3); i > 0; i--) { std::string n = rname(); if (!j->find(n)) j->o.push_back({n, anyJ(depth - 1)}); }
    return j;
}
static bool bad() { return coin(1, 60); }
// for every type: a generator of values denoting it, the faults of a value, and equality with a value
template <class T> struct Ty;
#define KIND(T, K, GEN, EQ) template <> struct Ty<T> { static JP gen() { if (bad()) return anyJ(2); JP j = mk(J::K); GEN; return j; } \
    static int faults(const J& j) { return j.k == J::K ? 0 : IVT; } static bool eq(const T& v, const J& j) { return j.k == J::K && (EQ); } };
KIND(double, Num, j->d = rnum(), !memcmp(&v, &j.d, 8))
KIND(bool, Bool, j->b = coin(1, 2), v == j.b)
KIND(Null, Null, , true)
KIND(String<>, Str, j->s = rtext(80), j.s == (const char*)v && v.GetStringLength() == (int)j.s.size())
KIND(std::string, Str, j->s = rtext(80), j.s == v)
template <class T> JP genArr() { if (bad()) return anyJ(2); JP j = mk(J::Arr); for (int i = rn(7); i > 0; i--) j->a.push_back(Ty<T>::gen()); return j; }
template <class T> int fltArr(const J& j) { if (j.k != J::Arr) return IVT; int f = 0; for (auto& e : j.a) f |= Ty<T>::faults(*e); return f; }
template <class T> JP genObj() { if (bad()) return anyJ(2); JP j = mk(J::Obj); for (int i = rn(7); i > 0; i--) { std::string n = rname(); if (!j->find(n)) j->o.push_back({n, Ty<T>::gen()}); } return j; }
template <class T> int fltObj(const J& j) { if (j.k != J::Obj) return IVT; int f = 0; for (auto& e : j.o) f |= Ty<T>::faults(*e.second); return f; }
template <class T> struct Ty<Array<T>> { static JP gen() { return genArr<T>(); } static int faults(const J& j) { return fltArr<T>(j); }
    static bool eq(const Array<T>& v, const J& j) { if (j.k != J::Arr || v.GetArrayElementCount() != (int)j.a.size()) return false; for (size_t i = 0; i < j.a.size(); i++) if (!Ty<T>::eq(v[i], *j.a[i])) return false; return true; } };
template <class T> struct Ty<std::vector<T>> { static JP gen() { return genArr<T>(); } static int faults(const J& j) { return fltArr<T>(j); }
    static bool eq(const std::vector<T>& v, const J& j) { if (j.k != J::Arr || v.size() != j.a.size()) return false; for (size_t i = 0; i < j.a.size(); i++) if (!Ty<T>::eq(v[i], *j.a[i])) return false; return true; } };
template <class T> struct Ty<ObjectMap<T>> { static JP gen() { return genObj<T>(); } static int faults(const J& j) { return fltObj<T>(j); }
    static bool eq(const ObjectMap<T>& v, const J& j) { if (j.k != J::Obj || v.GetMapElementCount() != (int)j.o.size()) return false; for (auto& e : j.o) { auto* x = v.FindMapElement(String<>(e.first.c_str())); if (!x || !Ty<T>::eq(x->data, *e.second)) return false; } return true; } };
template <class T> struct Ty<std::map<std::string, T>> { static JP gen() { return genObj<T>(); } static int faults(const J& j) { return fltObj<T>(j); }
    static bool eq(const std::map<std::string, T>& v, const J& j) { if (j.k != J::Obj || v.size() != j.o.size()) return false; for (auto& e : j.o) { auto x = v.find(e.first); if (x == v.end() || !Ty<T>::eq(x->second, *e.second)) return false; } return true; } };
struct Fld { const char* n; bool opt; JP (*gen)(); int (*flt)(const J&); };
static JP genStruct(const std::vector<Fld>& fs) { if (bad()) return anyJ(2); JP j = mk(J::Obj); size_t r = rn(fs.size()); for (size_t i = 0; i < fs.size(); i++) { auto& f = fs[(i + r) % fs.size()]; if (f.opt ? coin(1, 2) : !coin(1, 40)) j->o.push_back({f.n, f.gen()}); } if (coin(1, 4)) { std::string n = "extra" + S(rn(9)); j->o.push_back({n, anyJ(1)}); } return j; }
static int fltStruct(const std::vector<Fld>& fs, const J& j) { if (j.k != J::Obj) return IVT; int r = 0; for (auto& f : fs) { const J* e = j.find(f.n); if (!e) { if (!f.opt) r |= NNP; } else r |= f.flt(*e); } return r; }
#define FN(n, o, T) Fld{n, o, Ty<T>::gen, Ty<T>::faults}
#define STRUCT(T, FS, EQ) template <> struct Ty<T> { static const std::vector<Fld>& fs() { static std::vector<Fld> f = FS; return f; } static JP gen() { return genStruct(fs()); } static int faults(const J& j) { return fltStruct(fs(), j); } \
    static bool eq(const T& v, const J& j) { if (j.k != J::Obj) return false; T def; return EQ; } };
#define LIST(...) std::vector<Fld>{__VA_ARGS__}
#define EQ_(f) (j.find(#f) && Ty<decltype(v.f)>::eq(v.f, *j.find(#f)))
#define EQO_(f, d) (j.find(#f) ? Ty<decltype(v.f)>::eq(v.f, *j.find(#f)) : (d))
STRUCT(Inner, LIST(FN("d", false, double), FN("s", false, String<>)), EQ_(d) && EQ_(s))
STRUCT(In2, LIST(FN("x", false, double), FN("y", false, bool)), EQ_(x) && EQ_(y))
STRUCT(Opt, LIST(FN("a", false, double), FN("b", true, bool), FN("list", false, Array<Inner>), FN("m", true, ObjectMap<double>), FN("t", false, String<>), FN("v", true, Array<double>), FN("u", true, std::string), FN("z", false, Null)),
    EQ_(a) && EQO_(b, v.b) && EQ_(list) && EQO_(m, v.m.Empty()) && EQ_(t) && EQO_(v, v.v.Empty()) && EQO_(u, v.u == "untouched"))
typedef std::map<std::string, In2> MapIn2;
STRUCT(Outer, LIST(FN("o", false, Opt), FN("q", true, In2), FN("qs", false, Array<In2>), FN("qv", false, std::vector<In2>), FN("qm", true, MapIn2), FN("e", false, double), FN("qo", false, ObjectMap<In2>)),
    EQ_(o) && EQO_(q, v.q.x == 1 && !v.q.y) && EQ_(qs) && EQ_(qv) && EQO_(qm, v.qm.empty()) && EQ_(e) && EQ_(qo))

static std::string text(const J& j)
{
    auto str = [](const std::string& s) { std::string r = "\""; char b[8]; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int l = wellFormed(s.substr(i, 4)); if (!l) { r += '?'; i++; continue; } if (l > 1) { r += s.substr(i, l); i += l; continue; } if (c < 32 || c == '"' || c == '\\') { snprintf(b, 8, "\\u%04x", c); r += b; } else r += char(c); i++; } return r + "\""; };
    char b[64]; std::string r;
    switch (j.k)
    {
        case J::Str: return str(j.s);
        case J::Num: snprintf(b, 64, "%.17g", j.d); return b;
        case J::Bool: return j.b ? "true" : "false";
        case J::Null: return "null";
        case J::Arr: r = "["; for (auto& e : j.a) r += (r.size() > 1 ? "," : "") + text(*e); return r + "]";
        case J::Obj: r = "{"; for (auto& e : j.o) r += (r.size() > 1 ? "," : "") + str(e.first) + ":" + text(*e.second); return r + "}";
    }
    return r;
}
static bool same(const J& a, const J& b)
{
    if (a.k != b.k) return false;
    switch (a.k)
    {
        case J::Str: return a.s == b.s; case J::Num: return !memcmp(&a.d, &b.d, 8); case J::Bool: return a.b == b.b; case J::Null: return true;
        case J::Arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(*a.a[i], *b.a[i])) return false; return true;
        case J::Obj: if (a.o.size() != b.o.size()) return false; for (auto& e : a.o) { const J* x = b.find(e.first); if (!x || !same(*e.second, *x)) return false; } return true;
    }
    return false;
}
static JP toJ(const Value* v)
{
    if (auto* s = v->GetDataAsPointerTo<String<>>()) { JP j = mk(J::Str); j->s = (const char*)*s; return j; }
    if (auto* d = v->GetDataAsPointerTo<double>()) { JP j = mk(J::Num); j->d = *d; return j; }
    if (auto* b = v->GetDataAsPointerTo<bool>()) { JP j = mk(J::Bool); j->b = *b; return j; }
    if (v->GetDataAsPointerTo<Null>()) return mk(J::Null);
    if (auto* a = v->GetDataAsPointerTo<Array<Value*>>()) { JP j = mk(J::Arr); for (Value* e : *a) j->a.push_back(toJ(e)); return j; }
    JP j = mk(J::Obj); auto* o = v->AsJsonObjectValue(); if (!o) H::fail("a value of no kind");
    for (const Value* e : *o) { if (j->find((const char*)e->name)) H::fail("a name occurs twice"); j->o.push_back({(const char*)e->name, toJ(e)}); }
    return j;
}
static Array<char> buf(const std::string& s) { Array<char> a(int(s.size() + 1)); for (char c : s) a.AppendArrayElement(c); a.AppendArrayElement(char(0)); return a; }
static bool fits(const J& j) { return true; }
static bool inSet(Status s, int f) { return s == Status::kOk ? f == 0 : s == Status::kInvalidValueType ? f & IVT : s == Status::kNameNotPresent ? f & NNP : false; }
template <class T> static void typed(const char* tn)
{
    JP j = coin(1, 12) ? anyJ(3) : Ty<T>::gen();
    std::string t = text(*j);
    StructuredData sd;
    { T none; if (sd.DeserializeTo(none) != Status::kInvalidStructuredData) H::fail("deserializing an empty document"); if (Validate(sd, none) != Status::kInvalidStructuredData) H::fail("validating an empty document"); }
    auto a = buf(t);
    if (sd.Parse(a).status != Status::kOk) { H::fail(std::string("generated text rejected: ") + H::quote(t)); }
    j = toJ(sd.GetRootJsonValue());
    int f = Ty<T>::faults(*j);
    H::nontrivial++;
    auto who = [&]() { return std::string(tn) + " from " + t.substr(0, 400); };
    T x;
    Status v = Validate(sd, x);
    if (!Ty<T>::faults(*j) != (v == Status::kOk)) H::fail("validation gives status " + S(int(v)) + " for " + who());
    if (!inSet(v, f)) H::fail("validation reports the wrong fault (" + S(int(v)) + ") for " + who());
    Status d = sd.DeserializeTo(x);
    if (!inSet(d, f)) H::fail("deserialization reports status " + S(int(d)) + " for " + who());
    if (d != v && !(d != Status::kOk && v != Status::kOk)) H::fail("validation and deserialization disagree for " + who());
    if (!same(*toJ(sd.GetRootJsonValue()), *j)) H::fail("reading modifies the document");
    if (d != Status::kOk) return;
    if (!Ty<T>::eq(x, *j)) H::fail("deserialized data differ: " + who());
    StructuredData s2;
    if (coin(1, 3)) { auto b2 = buf("[1,{\"a\":[2]}]"); s2.Parse(b2); }
    Status s = s2.SerializeFrom(x);
    if (s != Status::kOk) H::fail("serialization gives status " + S(int(s)) + " for " + who());
    JP k = toJ(s2.GetRootJsonValue());
    if (!Ty<T>::eq(x, *k) || Ty<T>::faults(*k)) H::fail("serialized data differ: " + text(*k) + " for " + who());
    if (Validate(s2, x) != Status::kOk) H::fail("serialized data do not validate: " + who());
    T y;
    s = s2.DeserializeTo(y);
    if (s != Status::kOk || !Ty<T>::eq(y, *k)) H::fail("the round trip fails (" + S(int(s)) + ") for " + who());
    if (s2.SerializeFrom(x) != Status::kOk || !same(*toJ(s2.GetRootJsonValue()), *k)) H::fail("serializing twice differs: " + who());
}
template <class T> static void typedOom(const char* tn)
{
    JP j; std::string t;
    for (int i = 0; i < 20; i++) { j = Ty<T>::gen(); if (!Ty<T>::faults(*j)) break; }
    if (Ty<T>::faults(*j)) return;
    t = text(*j);
    if (t.size() > 1500) return;
    auto a = buf(t); StructuredData sd;
    if (sd.Parse(a).status != Status::kOk) H::fail("generated text rejected");
    auto who = [&](const char* w, long k) { return std::string(w) + ", allocation " + S(k) + ", " + tn + " from " + t.substr(0, 300); };
    T x; if (sd.DeserializeTo(x) != Status::kOk) H::fail("deserialization");
    for (long k = 0; k < 60; k++)
    {
        H::nontrivial++;
        bool fired;
        {
            H::Track tr;
            {
                StructuredData s2; H::failed = false; H::failAt = k;
                Status s = s2.SerializeFrom(x);
                fired = H::failed; H::failAt = -1;
                if (fired ? s != Status::kException : s != Status::kOk) H::fail("status " + S(int(s)) + ": " + who("serializing", k));
                H::NoTrack nt; if (s2.GetRootJsonValue()) toJ(s2.GetRootJsonValue());
            }
            if (!tr.balanced()) H::fail("leak: " + who("serializing", k));
        }
        {
            H::Track tr;
            {
                T y; H::failed = false; H::failAt = k;
                Status s = sd.DeserializeTo(y);
                bool f2 = H::failed; H::failAt = -1; fired |= f2;
                if (f2 ? s != Status::kException : s != Status::kOk) H::fail("status " + S(int(s)) + ": " + who("deserializing", k));
            }
            if (!tr.balanced()) H::fail("leak: " + who("deserializing", k));
        }
        if (!fired) break;
    }
}
#define TYPES(X) X(double) X(bool) X(Null) X(String<>) X(Array<double>) X(Array<bool>) X(Array<Null>) X(Array<String<>>) X(ObjectMap<double>) X(ObjectMap<bool>) X(ObjectMap<String<>>) \
    X(Array<Array<double>>) X(ObjectMap<Array<double>>) X(std::string) X(std::vector<double>) X(std::vector<bool>) X(std::vector<std::string>) X(MapS) X(MapD) X(VV) X(VM) X(MV) X(Array<Inner>) X(ObjectMap<Inner>) X(std::vector<Inner>) X(MI) X(Inner) X(In2) X(Opt) X(Outer) X(Opt) X(Outer) X(Array<In2>) X(std::vector<In2>) X(ObjectMap<In2>) X(MapIn2) X(Array<std::vector<double>>)
typedef std::map<std::string, std::string> MapS; typedef std::map<std::string, double> MapD; typedef std::vector<std::vector<double>> VV; typedef std::vector<std::map<std::string, double>> VM; typedef std::map<std::string, std::vector<double>> MV; typedef std::map<std::string, Inner> MI;
static void runTyped(bool oom)
{
    static std::vector<std::pair<void (*)(const char*), const char*>> tab =
    {
#define ROW(T) {typed<T>, #T},
        TYPES(ROW)
    }, tabO =
    {
#define ROWO(T) {typedOom<T>, #T},
        TYPES(ROWO)
    };
    auto& e = (oom ? tabO : tab)[rn(tab.size())];
    e.first(e.second);
}

#else
static void runTyped(bool) {}
#endif
static void one(const std::string& mode)
{
    sp = 0;
    if (mode == "C05") runMap();
    else if (mode == "C06") { if (coin(1, 3)) runArr<Array<Probe>>(); else if (coin(1, 2)) runArr<Array<Probe, 3>>(); else runArr<Array<Probe, 8>>(); }
    else if (mode == "C07") runString();
    else if (mode == "C08") runText();
    else if (mode == "C11") runTyped(false);
    else if (mode == "C14") { switch (rn(3)) { case 0: runArrOom(); break; case 1: runTyped(true); break; default: runString(); } }
}
int main(int argc, char** argv)
{
    double budget; std::string mode, rep;
    H::init(argc, argv, budget, mode, rep);
    F1 = new Fence; F2 = new Fence;
    if (!rep.empty())
    {
        std::string r = H::slurp(rep);
        size_t i = r.find("\nCASE\n");
        script = i == std::string::npos ? r : r.substr(i + 6);
        H::setCase(script);
        if (script[0] == 'U' && mode == "C08") { uint32 c = atoi(script.c_str() + 1); for (uint32 k = c; k < c + 4096 && k <= 0x10FFFF; k++) codePoint(k); }
        else if (script[0] == 'B' && mode == "C08") exhaustive();
        else one(mode);
        return H::done();
    }
    if (mode == "C08") exhaustive();
    while (H::more())
    {
        size_t n = 64 + H::rnd(H::chance(1, 3) ? 2400 : 300);
        script.resize(n);
        for (auto& c : script) c = char(H::rnd(256));
        if (mode == "C08" && (script[0] == 'U' || script[0] == 'B')) script[0] = 'x';
        H::setCase(script);
        H::evaluations++;
        if (mode != "C11" && mode != "C14") H::nontrivial++;
        one(mode);
    }
    return H::done();
}
