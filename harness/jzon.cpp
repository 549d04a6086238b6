// JSON reader and writer: texts with arbitrary bytes against an independent reader of the JSON grammar; written trees read back.
#define private public
#define protected public
#include "Jzon.h"
#undef private
#undef protected
#include "symx.h"
#include <string>
#include <vector>
#ifndef K
#define K 4
#endif
#ifndef BUDGET
#define BUDGET 1
#endif
#ifndef NUMS
#define NUMS 9999
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
enum { OBJ, ARR, STRN, NUM, BOOLN, NUL };
struct T { int k; std::string s; std::vector<std::pair<std::string, T> > m; T(int kk = NUL) : k(kk) {} };
enum { OK, BAD, CUT, OUT };
struct Ref { // strict JSON; numbers with exponents and \u escapes are left aside (OUT)
    const std::string& t; size_t p; Ref(const std::string& x) : t(x), p(0) {}
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    int str(std::string& o) {
        if (t[p] != '"') return BAD;
        for (p++; p < t.size(); p++) {
            unsigned char c = t[p];
            if (c == '"') { p++; return OK; }
            if (c < 0x20) return BAD;
            if (c != '\\') { o += (char)c; continue; }
            if (++p >= t.size()) return CUT;
            switch (t[p]) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
                case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'u': return OUT; default: return BAD; }
        }
        return CUT;
    }
    bool lit(const char* w) { size_t q = p; for (; *w; w++, q++) if (q >= t.size() || t[q] != *w) return false; p = q; return true; }
    bool dig() { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
    int val(T& o) {
        ws(); if (p >= t.size()) return CUT;
        char c = t[p];
        if (c == '"') { o.k = STRN; return str(o.s); }
        if (c == '{' || c == '[') {
            bool ob = c == '{'; char e = ob ? '}' : ']'; o.k = ob ? OBJ : ARR; p++; ws(); if (p >= t.size()) return CUT; if (t[p] == e) { p++; return OK; }
            for (;;) {
                std::pair<std::string, T> m; int r;
                if (ob) { ws(); if (p >= t.size()) return CUT; if ((r = str(m.first))) return r; ws(); if (p >= t.size()) return CUT; if (t[p] != ':') return BAD; p++; }
                if ((r = val(m.second))) return r;
                o.m.push_back(m); ws(); if (p >= t.size()) return CUT;
                if (t[p] == e) { p++; return OK; }
                if (t[p] != ',') return BAD; p++;
            }
        }
        if (lit("true")) { o.k = BOOLN; o.s = "true"; return OK; }
        if (lit("false")) { o.k = BOOLN; o.s = "false"; return OK; }
        if (lit("null")) { o.k = NUL; return OK; }
        size_t b = p; if (t[p] == '-') p++; if (!dig()) return BAD;
        if (t[p] == '0') p++; else while (dig()) p++;
        if (p < t.size() && t[p] == '.') { p++; if (!dig()) return BAD; while (dig()) p++; }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) return OUT;
        o.k = NUM; o.s = t.substr(b, p - b); return OK;
    }
    int text(T& o) { ws(); if (p >= t.size()) return BAD; int r = val(o); if (r) return r; ws(); return p == t.size() ? OK : BAD; }
};
static bool eq(const Jzon::Node& n, const T& t)
{
    if (t.k == OBJ) {
        if (!n.IsObject()) return false;
        const Jzon::Object& o = n.AsObject(); if (o.GetCount() != t.m.size()) return false; size_t i = 0;
        for (Jzon::Object::const_iterator it = o.begin(); it != o.end(); ++it, ++i) if ((*it).first != t.m[i].first || !eq((*it).second, t.m[i].second)) return false;
        return i == t.m.size();
    }
    if (t.k == ARR) {
        if (!n.IsArray()) return false;
        const Jzon::Array& a = n.AsArray(); if (a.GetCount() != t.m.size()) return false; size_t i = 0;
        for (Jzon::Array::const_iterator it = a.begin(); it != a.end(); ++it, ++i) if (!eq(*it, t.m[i].second)) return false;
        return i == t.m.size();
    }
    if (!n.IsValue()) return false;
    if (t.k == STRN) return n.IsString() && n.ToString() == t.s;
    if (t.k == NUM) return n.IsNumber() && n.ToString() == t.s;
    if (t.k == BOOLN) return n.IsBool() && n.ToBool() == (t.s == "true");
    return n.IsNull() && n.ToString() == "null";
}
static std::string any(int n, const char* nm) { std::string s((size_t)n, 'x'); symx_bytes(&s[0], (size_t)n, nm); return s; }
static Jzon::Node* build(T& t, int d, int& budget)
{
    int k = (int)symx_choose(d >= DEPTH || budget <= 0 ? STRN : OBJ, NUL, "kind"); t.k = k;
    switch (k) {
    case OBJ: { Jzon::Object* o = new Jzon::Object(); int n = (int)symx_choose(0, 2, "members");
        for (int i = 0; i < n; i++) { budget--; std::pair<std::string, T> m; m.first = any((int)symx_choose(0, 1, "name length"), "name"); Jzon::Node* c = build(m.second, d + 1, budget); o->Add(m.first, *c); delete c; t.m.push_back(m); } return o; }
    case ARR: { Jzon::Array* o = new Jzon::Array(); int n = (int)symx_choose(0, 2, "members");
        for (int i = 0; i < n; i++) { budget--; std::pair<std::string, T> m; Jzon::Node* c = build(m.second, d + 1, budget); o->Add(*c); delete c; t.m.push_back(m); } return o; }
    case STRN: t.s = any((int)symx_choose(0, d ? 1 : 3, "length"), "text"); return new Jzon::Value(Jzon::Value::VT_STRING, t.s);
    case NUM: t.s = symx_choose(0, 1, "number") ? "-12" : "0.5"; return new Jzon::Value(Jzon::Value::VT_NUMBER, t.s);
    case BOOLN: { bool b = symx_choose(0, 1, "bool"); t.s = b ? "true" : "false"; return new Jzon::Value(b); }
    default: return new Jzon::Value();
    }
}
extern "C" void harness(void)
{
    int cs = symx_case(); uint64_t saw = 0;
    uint64_t live = symx_live_heap();
    if (cs < 8) {
        static const char* pre[8] = {"", "{", "{\"a\":", "{\"a\":[", "{\"", "{\"a\":\"", "{\"a\":{\"b\":\"c\"},", "{\"a\":[[{},"}; static const char* post[8] = {"", "}", "}", "]}", "\":1}", "\"}", "", ""};
        Jzon::Object root; Jzon::Parser parser(root);
        int n = (int)symx_choose(0, K, "length"); std::string text = std::string(pre[cs]) + any(n, "text") + post[cs];
        T t; Ref r(text); int st = r.text(t); if (st == OK && t.k != OBJ) st = BAD;
        root.Clear(); parser.SetJson(text); bool got = parser.Parse();
        if (st == OK) { symx_assert(got, "a valid text is understood"); symx_assert(eq(root, t), "a text is read with the meaning it has"); symx_reach("valid"); }
        else if (st == CUT) { symx_assert(!got, "a text that ends before its objects do is refused"); symx_reach("cut"); }
        else if (st == BAD) symx_reach("bad");
        saw = got;
        root.Clear(); parser.SetJson("{\"k\":[7,\"v\"]}"); symx_assert(parser.Parse(), "a message is understood whatever came before it");
        symx_assert(root.GetCount() == 1 && root.Has("k") && root.Get("k").GetCount() == 2 && root.Get("k").Get(0).ToInt() == 7 && root.Get("k").Get(1).ToString() == "v", "a message means the same whatever came before it");
        symx_reach("next");
    } else if (cs == 8 || cs == 9) { // written trees are read back
        T t; int budget = BUDGET; Jzon::Node* n = build(t, cs == 9, budget);
        if (t.k == STRN) for (size_t i = 0; i < t.s.size(); i++) symx_assume(t.s[i] != 0);
        symx_assert(eq(*n, t), "a tree holds what was put in it");
        Jzon::Writer w(*n, symx_choose(0, 1, "format") ? Jzon::StandardFormat : Jzon::NoFormat); w.Write(); std::string out = w.GetResult();
        T back; Ref r(out); int st = r.text(back); bool plain = true; (void)plain;
        Jzon::Object ro; Jzon::Array ra; Jzon::Value rv; Jzon::Node* root = t.k == OBJ ? (Jzon::Node*)&ro : t.k == ARR ? (Jzon::Node*)&ra : (Jzon::Node*)&rv;
        Jzon::Parser p(*root, out); symx_assert(p.Parse(), "what was written can be read"); symx_assert(eq(*root, t), "what was written is read back the same");
        (void)st; Jzon::Node* c = root->GetCopy(); symx_assert(eq(*c, t), "a copy is equal"); delete c; symx_reach("back");
        symx_assert(Jzon::Node::DetermineType(out) == n->GetType(), "the type of a text is seen");
        delete n;
    } else if (cs == 10) { // typed values
        int v = symx_choose(0, 1, "extreme") ? (symx_choose(0, 1, "sign") ? 2147483647 : -2147483647 - 1) : (int)symx_range(-NUMS, NUMS, "int"); Jzon::Object o; o.Add("v", v); symx_assert(o.Get("v").IsNumber() && o.Get("v").ToInt() == v, "an integer is kept");
        Jzon::Writer w(o, Jzon::NoFormat); w.Write(); Jzon::Object b; Jzon::Parser p(b, w.GetResult()); symx_assert(p.Parse() && b.Get("v").ToInt() == v, "an integer is read back"); symx_reach("int");
        std::string d = "-9007199254740993"; Jzon::Value big(Jzon::Value::VT_NUMBER, d); saw = (uint64_t)big.ToInt();
        bool threw = false; try { o.Get("w"); } catch (const Jzon::NotFoundException&) { threw = true; } symx_assert(threw && !o.Has("w") && o.Has("v"), "missing members are told");
        threw = false; try { o.Get("v").ToBool(); } catch (const Jzon::ValueException&) { threw = true; } symx_assert(threw, "a number is not a truth value");
        threw = false; try { o.Get("v").AsArray(); } catch (const Jzon::TypeException&) { threw = true; } symx_assert(threw, "a value is not an array");
        o.Add("x", std::string("s")); o.Remove("v"); symx_assert(o.GetCount() == 1 && o.Get("x").IsString() && o.Get("x").ToString() == "s", "members are removed by name");
        Jzon::Array a; a.Add(1); a.Add(true); a.Add("t"); a.Remove((size_t)symx_choose(0, 3, "index")); saw += a.GetCount();
        threw = false; try { a.Get(a.GetCount()); } catch (const Jzon::NotFoundException&) { threw = true; } symx_assert(threw, "missing elements are told"); symx_reach("typed");
    } else if (cs == 11) { // escapes, both ways, for any text
        std::string s = any((int)symx_choose(0, K, "length"), "text"); for (size_t i = 0; i < s.size(); i++) symx_assume(s[i] != 0);
        std::string e = Jzon::Value::EscapeString(s); symx_assert(Jzon::Value::UnescapeString(e) == s, "escaped text is restored"); saw = e.size();
        Jzon::Value::UnescapeString(s); symx_reach("escaped");
    }
    symx_assert(symx_live_heap() == live, "everything is freed"); symx_observe(saw);
}
