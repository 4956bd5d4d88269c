// Independent reference: RFC 8259 recogniser, decoder and text generator.
#pragma once
#include "common.h"

namespace O
{
    struct J;
    typedef std::shared_ptr<J> JP;
    struct J
    {
        enum K { Str, Num, Bool, Null, Arr, Obj } k = Null;
        std::string s;
        double d = 0;
        bool b = false;
        std::vector<JP> a;
        std::vector<std::pair<std::string, JP>> o; // first occurrences, in order
        const J* find(const std::string& n) const
        {
            for (auto& p : o) if (p.first == n) return p.second.get();
            return nullptr;
        }
    };

    inline int u8len(const unsigned char* p, size_t n)
    {
        auto c = [&](size_t i) { return i < n && (p[i] & 0xC0) == 0x80; };
        if (!n) return 0;
        unsigned a = p[0];
        if (a < 0x80) return 1;
        if (a >= 0xC2 && a <= 0xDF) return c(1) ? 2 : 0;
        if (a >= 0xE0 && a <= 0xEF) return c(1) && c(2) && (a != 0xE0 || p[1] >= 0xA0) ? 3 : 0;
        if (a >= 0xF0 && a <= 0xF4) return c(1) && c(2) && c(3) && (a != 0xF0 || p[1] >= 0x90) && (a != 0xF4 || p[1] <= 0x8F) ? 4 : 0;
        return 0;
    }
    inline void u8put(std::string& s, uint32_t c)
    {
        if (c < 0x80) s += char(c);
        else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    }

    struct Parser
    {
        std::string t;
        size_t p = 0;
        size_t errTok = 0, errPos = 0; // innermost offending token start, first offending position
        unsigned at(size_t i) const { return i < t.size() ? (unsigned char)t[i] : 0; }
        void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
        bool err(size_t tok, size_t pos) { errTok = tok; errPos = pos; return false; }
        bool hex4(size_t i, uint32_t& v) const
        {
            v = 0;
            for (size_t k = 0; k < 4; k++)
            {
                unsigned c = at(i + k);
                unsigned x;
                if (c >= '0' && c <= '9') x = c - '0';
                else if (c >= 'a' && c <= 'f') x = c - 'a' + 10;
                else if (c >= 'A' && c <= 'F') x = c - 'A' + 10;
                else return false;
                v = v << 4 | x;
            }
            return true;
        }
        bool str(std::string& out)
        {
            size_t tok = p;
            if (at(p) != '"') return err(p, p);
            p++;
            for (;;)
            {
                if (p >= t.size()) return err(tok, p);
                unsigned c = at(p);
                if (c == '"') { p++; return true; }
                if (c < 32) return err(tok, p);
                if (c == '\\')
                {
                    unsigned e = at(p + 1);
                    const char* f = "\"\\/bfnrt";
                    const char* v = "\"\\/\b\f\n\r\t";
                    const char* q = e ? strchr(f, e) : nullptr;
                    if (q) { out += v[q - f]; p += 2; continue; }
                    uint32_t u, l;
                    if (e != 'u' || !hex4(p + 2, u) || u == 0) return err(tok, p + 6 < t.size() ? p + 6 : t.size());
                    p += 6;
                    if (u >= 0xD800 && u < 0xDC00 && at(p) == '\\' && at(p + 1) == 'u' && hex4(p + 2, l) && l >= 0xDC00 && l < 0xE000)
                    {
                        u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                        p += 6;
                    }
                    u8put(out, u);
                    continue;
                }
                int n = u8len((const unsigned char*)t.data() + p, t.size() - p);
                if (!n) return err(tok, p);
                out.append(t, p, n);
                p += n;
            }
        }
        bool dig(size_t i) const { return at(i) >= '0' && at(i) <= '9'; }
        bool num(double& d)
        {
            size_t tok = p, b = p;
            if (at(p) == '-') p++;
            if (!dig(p)) return err(tok, p);
            if (at(p) == '0') { p++; if (dig(p)) return err(tok, p); }
            else while (dig(p)) p++;
            if (at(p) == '.')
            {
                p++;
                if (!dig(p)) return err(tok, p);
                while (dig(p)) p++;
            }
            if (at(p) == 'e' || at(p) == 'E')
            {
                p++;
                if (at(p) == '+' || at(p) == '-') p++;
                if (!dig(p)) return err(tok, p);
                while (dig(p)) p++;
            }
            d = strtod(t.substr(b, p - b).c_str(), nullptr);
            return true;
        }
        bool val(JP& j)
        {
            j = std::make_shared<J>();
            size_t tok = p;
            switch (at(p))
            {
                case '"': j->k = J::Str; return str(j->s);
                case '[':
                    j->k = J::Arr;
                    p++; ws();
                    if (at(p) == ']') { p++; return true; }
                    for (;;)
                    {
                        JP e;
                        if (!val(e)) return false;
                        j->a.push_back(e);
                        ws();
                        if (at(p) == ',') { p++; ws(); continue; }
                        if (at(p) == ']') { p++; return true; }
                        return err(p, p);
                    }
                case '{':
                    j->k = J::Obj;
                    p++; ws();
                    if (at(p) == '}') { p++; return true; }
                    for (;;)
                    {
                        std::string n;
                        JP e;
                        if (!str(n)) return false;
                        ws();
                        if (at(p) != ':') return err(p, p);
                        p++; ws();
                        if (!val(e)) return false;
                        if (!j->find(n)) j->o.push_back({ n, e });
                        ws();
                        if (at(p) == ',') { p++; ws(); continue; }
                        if (at(p) == '}') { p++; return true; }
                        return err(p, p);
                    }
                case 't': if (t.compare(p, 4, "true") == 0) { p += 4; j->k = J::Bool; j->b = true; return true; } break;
                case 'f': if (t.compare(p, 5, "false") == 0) { p += 5; j->k = J::Bool; return true; } break;
                case 'n': if (t.compare(p, 4, "null") == 0) { p += 4; j->k = J::Null; return true; } break;
                default: if (at(p) == '-' || dig(p)) { j->k = J::Num; return num(j->d); }
            }
            size_t e = p;
            const char* w = at(p) == 't' ? "true" : at(p) == 'f' ? "false" : at(p) == 'n' ? "null" : "";
            while (*w && at(e) == (unsigned char)*w) { e++; w++; }
            return err(tok, e);
        }
        bool doc(JP& j)
        {
            ws();
            if (!val(j)) return false;
            ws();
            if (p != t.size()) return err(p, p);
            return true;
        }
    };
    // text = the bytes before the final NUL (may contain NULs: those never are JSON)
    inline bool parse(const std::string& text, JP& j, size_t* tok = nullptr, size_t* pos = nullptr)
    {
        Parser P;
        P.t = text;
        bool ok = P.doc(j);
        if (!ok && tok) { *tok = P.errTok; *pos = P.errPos; }
        return ok;
    }

    // ---------------------------------------------------------------- generation
    inline std::string genWs(int dens)
    {
        std::string r;
        while (H::chance(dens, 10)) r += " \t\n\r"[H::rnd(4)];
        return r;
    }
    inline std::string genStr(std::string* plain = nullptr)
    {
        std::string r = "\"", v;
        int n = H::chance(1, 8) ? 10 + H::rnd(80) : H::rnd(7);
        for (int i = 0; i < n; i++)
        {
            char b[16];
            switch (H::rnd(12))
            {
                case 0: { int k = H::rnd(8); r += '\\'; r += "\"\\/bfnrt"[k]; v += "\"\\/\b\f\n\r\t"[k]; break; }
                case 1: { uint32_t u = 1 + H::rnd(0x7FF); snprintf(b, 16, H::chance(1, 2) ? "\\u%04x" : "\\u%04X", u); r += b; u8put(v, u); break; }
                case 2: { static const uint32_t e[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xFFFD, 0xE000, 0xD7FF, 1, 0x1F, 0x22, 0x5C, 0xD800, 0xDC00, 0xDFFF }; uint32_t u = e[H::rnd(15)];
                          if (u >= 0xD800 && u < 0xE000) break;
                          snprintf(b, 16, "\\u%04x", u); r += b; u8put(v, u); break; }
                case 3: { uint32_t u = H::chance(1, 3) ? (H::chance(1, 2) ? 0x10000 : 0x10FFFF) : 0x10000 + H::rnd(0x100000);
                          snprintf(b, 16, "\\u%04x\\u%04x", 0xD800 + ((u - 0x10000) >> 10), 0xDC00 + ((u - 0x10000) & 0x3FF)); r += b; u8put(v, u); break; }
                case 4: { uint32_t u = 0x80 + H::rnd(0x780); u8put(r, u); u8put(v, u); break; }
                case 5: { uint32_t u = 0x800 + H::rnd(0xF000); if (u >= 0xD800 && u < 0xE000) u = 0xE001; u8put(r, u); u8put(v, u); break; }
                case 6: { uint32_t u = 0x10000 + H::rnd(0x100000); u8put(r, u); u8put(v, u); break; }
                default: { char c = char(32 + H::rnd(96)); if (c == '"' || c == '\\') c = 'q'; r += c; v += c; }
            }
        }
        if (plain) *plain = v;
        return r + "\"";
    }
    inline std::string genNum()
    {
        std::string r;
        if (H::chance(1, 3)) r += '-';
        if (H::chance(1, 4)) r += '0';
        else { r += char('1' + H::rnd(9)); int n = H::chance(1, 6) ? H::rnd(40) : H::rnd(5); for (int i = 0; i < n; i++) r += char('0' + H::rnd(10)); }
        if (H::chance(1, 3)) { r += '.'; int n = H::chance(1, 6) ? 1 + H::rnd(40) : 1 + H::rnd(6); for (int i = 0; i < n; i++) r += char('0' + H::rnd(10)); }
        if (H::chance(1, 4)) { r += "eE"[H::rnd(2)]; if (H::chance(2, 3)) r += "+-"[H::rnd(2)]; int n = 1 + H::rnd(3); for (int i = 0; i < n; i++) r += char('0' + H::rnd(10)); }
        return r;
    }
    inline std::string genVal(int depth, int dens)
    {
        int k = H::rnd(depth <= 0 ? 6 : 10);
        if (k < 2) return genStr();
        if (k < 4) return genNum();
        if (k == 4) return H::chance(1, 2) ? "true" : "false";
        if (k == 5) return "null";
        int n = H::chance(1, 12) ? 5 + H::rnd(30) : H::rnd(5);
        std::string r = k < 8 ? "[" : "{";
        std::vector<std::string> names;
        for (int i = 0; i < n; i++)
        {
            r += genWs(dens);
            if (k >= 8)
            {
                std::string nm;
                if (!names.empty() && H::chance(1, 6)) nm = names[H::rnd(names.size())];
                else if (H::chance(1, 2)) { nm = "\""; nm += char('a' + H::rnd(26)); if (H::chance(1, 2)) nm += char('a' + H::rnd(26)); nm += "\""; }
                else nm = genStr();
                names.push_back(nm);
                r += nm + genWs(dens) + ":" + genWs(dens);
            }
            r += genVal(depth - 1 - H::rnd(2), dens) + genWs(dens);
            if (i + 1 < n) r += ",";
        }
        if (!n) r += genWs(dens);
        return r + (k < 8 ? "]" : "}");
    }
    inline std::string genDoc()
    {
        int dens = H::rnd(4);
        return genWs(dens) + genVal(H::rnd(5), dens) + genWs(dens);
    }
    inline std::string mutate(std::string s)
    {
        static const char* frag[] = { "\\u0000", "\\ud800", "\\udc00", "\\x", "\"", "\\", ",", ":", "[", "]", "{", "}", "0", "-", "+", ".", "e", "E", "1", "tru", "true", "nul", "null", "fals",
                                      "\n", " ", "\t", "\r", "\v", "\f", "\x01", "\x1f", "\x7f", "\x80", "\xc0\x80", "\xc3\xa9", "\xe0\x80\x80", "\xed\xa0\x80", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf5", "\xff", "\xef\xbb\xbf", "//", "/*", "'", "NaN", "Infinity", "0x1", "01", "-01", "1.", ".5", "1e", "1e+", "00", "-", "\\u12", "\\uD834\\uDD1E", "\\ud834x", "\xe2\x82", "\xf0\x9f\x98" };
        int n = 1 + H::rnd(3);
        for (int i = 0; i < n; i++)
        {
            size_t p = s.empty() ? 0 : H::rnd(s.size() + 1);
            switch (H::rnd(6))
            {
                case 0: if (!s.empty()) s.erase(std::min(p, s.size() - 1), 1 + H::rnd(2)); break;
                case 1: if (!s.empty()) s[std::min(p, s.size() - 1)] = char(H::chance(1, 2) ? H::rnd(256) : " \"\\,:[]{}0123456789-+.eEtfn\n"[H::rnd(28)]); break;
                case 2: case 3: s.insert(p, frag[H::rnd(sizeof frag / sizeof *frag)]); break;
                case 4: s.resize(p); break;
                case 5: if (s.size() > 1) std::swap(s[H::rnd(s.size())], s[H::rnd(s.size())]); break;
            }
        }
        return s;
    }
    inline std::string genAny()
    {
        switch (H::rnd(8))
        {
            case 0: case 1: case 2: return genDoc();
            case 3: { // tokens
                static const char* tk[] = { "[", "]", "{", "}", ",", ":", "\"a\"", "\"\"", "1", "-0", "0", "true", "false", "null", " ", "\n", "\"", "-", "1e5", "0.5", "\"\\u00e9\"", "01", "2." };
                std::string r; int n = H::rnd(9);
                for (int i = 0; i < n; i++) r += tk[H::rnd(sizeof tk / sizeof *tk)];
                return r; }
            case 4: { std::string r; int n = H::rnd(6); for (int i = 0; i < n; i++) r += char(H::rnd(256)); return r; }
            default: return mutate(genDoc());
        }
    }
}
